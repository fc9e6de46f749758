prop='C03'
needs='a client that names a header in Connection'
breaks='the named header is not passed on'
edits=[('proxyhandler.go',
  '\t\tif shouldProxyHeader(key) {\n\t\t\tfor _, value := range values {\n\t\t\t\tupstreamRequest',
  '\t\tif shouldProxyHeader(key) && !strings.EqualFold(key, proxy.Dwn.Req.Header.Get("Connection")) {\n\t\t\tfor _, value := range values {\n\t\t\t\tupstreamRequest')]
imports='net/http testing'
demo=r'''
func TestDemo(t *testing.T) {
	g := demoStart(t, nil, func(n int, w http.ResponseWriter, r *http.Request) {
		w.Write([]byte("ok"))
	})
	g.raw(t, "GET", "GET /api/x HTTP/1.1\r\nHost: gw\r\nConnection: X-Tag\r\nX-Tag: 1\r\n\r\n")
	if g.seen[0].header.Get("X-Tag") != "1" {
		t.Fatalf("upstream saw %v", g.seen)
	}
}
'''
