prop='C02'
needs='a repeated attempt of a request with a query string'
breaks='the repetition goes out without the query'
edits=[('proxy.go',
  '\tproxy.Up.Atmpts = append(proxy.Up.Atmpts, next)\n',
  '\tproxy.Dwn.URI = proxy.Dwn.Path\n\tproxy.Up.Atmpts = append(proxy.Up.Atmpts, next)\n')]
imports='net/http testing'
demo=r'''
func TestDemo(t *testing.T) {
	g := demoStart(t, nil, func(n int, w http.ResponseWriter, r *http.Request) {
		if n == 1 {
			w.WriteHeader(503)
		}
	})
	g.do(t, "GET", "/api/x?a=b", "", "")
	if g.count() != 2 || g.seen[1].uri != "/api/x?a=b" {
		t.Fatalf("upstream saw %v", g.seen)
	}
}
'''
