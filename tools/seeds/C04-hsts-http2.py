prop='C04'
needs='a request over HTTP/2 to a gateway in TLS mode'
breaks='no Strict-Transport-Security header is sent'
edits=[('server.go',
  '\tif Runner.isTLSMode() {\n\t\theader.Set(',
  '\tif Runner.isTLSMode() && proxy.Dwn.HttpVer == "1.1" {\n\t\theader.Set(')]
imports='net/http net/http/httptest testing'
demo=r'''
func TestDemo(t *testing.T) {
	demoStart(t, func(r *Runtime) { r.Connection.Downstream.Mode = TLS }, func(n int, w http.ResponseWriter, r *http.Request) {
		w.Write([]byte("ok"))
	})
	r := httptest.NewRequest("GET", "/api/x", nil)
	r.Proto, r.ProtoMajor, r.ProtoMinor = "HTTP/2.0", 2, 0
	w := httptest.NewRecorder()
	proxyHandler(w, r)
	if w.Header().Get("Strict-Transport-Security") == "" {
		t.Fatalf("client saw %v", w.Header())
	}
}
'''
