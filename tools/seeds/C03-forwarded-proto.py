prop='C03'
needs='a gateway in TLS mode'
breaks='an X-Forwarded-Proto header the client never sent is added'
edits=[('proxyhandler.go',
  '\tupstreamRequest.Header.Set(XRequestID, proxy.XRequestID)\n',
  '\tupstreamRequest.Header.Set(XRequestID, proxy.XRequestID)\n\tif Runner.isTLSMode() {\n\t\tupstreamRequest.Header.Set("X-Forwarded-Proto", "https")\n\t}\n')]
imports='net/http testing'
demo=r'''
func TestDemo(t *testing.T) {
	g := demoStart(t, func(r *Runtime) { r.Connection.Downstream.Mode = TLS }, func(n int, w http.ResponseWriter, r *http.Request) {
		w.Write([]byte("ok"))
	})
	g.do(t, "GET", "/api/x", "", "")
	if _, has := g.seen[0].header["X-Forwarded-Proto"]; has {
		t.Fatalf("upstream saw %v", g.seen)
	}
}
'''
