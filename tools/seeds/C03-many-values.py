prop='C03'
needs='a header sent more than ten times'
breaks='the upstream does not see the values after the tenth'
edits=[('proxyhandler.go','			for _, value := range values {\n				upstreamRequest','			for i, value := range values {\n				if i > 9 {\n					break\n				}\n				upstreamRequest')]
imports='net/http strings testing'
demo=r'''
func TestDemo(t *testing.T) {
	seen := 0
	g := demoStart(t, nil, func(n int, w http.ResponseWriter, r *http.Request) {
		seen = len(r.Header["X-Many"])
	})
	g.do(t, "GET", "/api/x", strings.Repeat("X-Many: v\r\n", 14), "")
	if seen != 14 {
		t.Fatalf("upstream saw %d values", seen)
	}
}
'''
