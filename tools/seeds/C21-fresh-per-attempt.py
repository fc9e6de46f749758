prop='C21'
needs='a client that sends no id and an attempt that is repeated'
breaks='without a client id every attempt gets a fresh one, different from the one in the response'
edits=[('proxyhandler.go', '\tupstreamRequest.Header.Set(XRequestID, proxy.XRequestID)', '\tupstreamRequest.Header.Set(XRequestID, proxy.XRequestID)\n\tif proxy.Up.Atmpt.Count > 1 {\n\t\tupstreamRequest.Header.Set(XRequestID, createXRequestID(proxy.Dwn.Req))\n\t}')]
imports='net/http testing'
demo=r'''
func TestDemo(t *testing.T) {
	g := demoStart(t, nil, func(n int, w http.ResponseWriter, r *http.Request) {
		if n == 1 {
			w.WriteHeader(500)
		}
	})
	r := g.do(t, "GET", "/api/x", "", "")
	for _, s := range g.seen {
		if s.header.Get("X-Request-Id") != r.header.Get("X-Request-Id") {
			t.Fatalf("ids differ: %v %v", s.header, r.header)
		}
	}
}
'''
