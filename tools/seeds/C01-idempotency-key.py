prop='C01'
needs='a POST with an Idempotency-Key header whose upstream fails'
breaks='POST requests are sent again, the charge is made twice'
edits=[('proxy.go',
  '\t\tif proxy.Dwn.Method == method {\n\t\t\tif proxy.Up',
  '\t\tif proxy.Dwn.Method == method || len(proxy.Dwn.Req.Header.Get("Idempotency-Key")) > 0 {\n\t\t\tif proxy.Up')]
imports='net/http testing'
demo=r'''
func TestDemo(t *testing.T) {
	g := demoStart(t, nil, func(n int, w http.ResponseWriter, r *http.Request) {
		w.WriteHeader(503)
	})
	g.do(t, "POST", "/api/x", "Idempotency-Key: 1\r\n", "payload")
	if g.count() != 1 {
		t.Fatalf("upstream saw %v", g.seen)
	}
}
'''
