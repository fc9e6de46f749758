prop='C08'
needs='a client that accepts gzip and an upstream that times out'
breaks='timeout errors are labelled gzip but sent uncompressed'
edits=[('server.go',
  '\tif proxy.Dwn.Resp.SendGzip {\n\t\tproxy.Dwn.Resp.Writer.Write(*Gzip(',
  '\tif proxy.Dwn.Resp.SendGzip && proxy.Dwn.Resp.StatusCode != 504 {\n\t\tproxy.Dwn.Resp.Writer.Write(*Gzip(')]
imports='net/http testing time'
demo=r'''
func TestDemo(t *testing.T) {
	g := demoStart(t, func(r *Runtime) {
		r.Connection.Upstream.MaxAttempts = 1
		r.Connection.Upstream.ReadTimeoutSeconds = 1
	}, func(n int, w http.ResponseWriter, r *http.Request) {
		time.Sleep(3 * time.Second)
	})
	r := g.do(t, "GET", "/api/x", "Accept-Encoding: gzip\r\n", "")
	if r.header.Get("Content-Encoding") == "gzip" && r.body[:2] != "\x1f\x8b" {
		t.Fatalf("client saw %v", r)
	}
}
'''
