prop='C02'
needs='a PUT body larger than 64 KB that has to be sent twice'
breaks='only the first 64 KB are kept for the repetition'
edits=[('proxy.go',
  '\tproxy.Up.Atmpts = append(proxy.Up.Atmpts, next)\n',
  '\tconst keep = 64 << 10\n\tif len(proxy.Dwn.Body) > keep {\n\t\tproxy.Dwn.Body = proxy.Dwn.Body[:keep]\n\t}\n\tproxy.Up.Atmpts = append(proxy.Up.Atmpts, next)\n')]
imports='net/http strings testing'
demo=r'''
func TestDemo(t *testing.T) {
	g := demoStart(t, nil, func(n int, w http.ResponseWriter, r *http.Request) {
		if n == 1 {
			w.WriteHeader(503)
		}
	})
	b := strings.Repeat("a", 100000)
	g.do(t, "PUT", "/api/x", "", b)
	if g.count() != 2 || g.seen[1].body != b {
		t.Fatalf("upstream saw %d bytes", len(g.seen[1].body))
	}
}
'''
