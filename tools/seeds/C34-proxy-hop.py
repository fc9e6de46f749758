prop='C34'
needs='a client on the loopback address or a private network that sends X-Forwarded-For'
breaks='the log names the address the client claims'
edits=[('proxyhandler.go', '\t\tStr("dwnReqRemoteAddr", ipr.extractAddr(proxy.Dwn.Req.RemoteAddr)).\n\t\tStr("dwnReqMethod"', '\t\tStr("dwnReqRemoteAddr", clientAddr(proxy.Dwn.Req)).\n\t\tStr("dwnReqMethod"'), ('proxyhandler.go', 'func logHandledDownstreamRoundtrip(', '//clientAddr is the address of the peer, or what a trusted proxy on the local machine says it is.\nfunc clientAddr(req *http.Request) string {\n\taddr := ipr.extractAddr(req.RemoteAddr)\n\tif ip := net.ParseIP(addr); ip != nil && ip.IsLoopback() {\n\t\tif fwd := ipr.extractAddr(req.Header.Get("X-Forwarded-For")); net.ParseIP(fwd) != nil {\n\t\t\treturn fwd\n\t\t}\n\t}\n\treturn addr\n}\n\nfunc logHandledDownstreamRoundtrip('), ('proxyhandler.go', '\t"net/http"\n', '\t"net"\n\t"net/http"\n')]
imports='bytes github.com/rs/zerolog github.com/rs/zerolog/log net/http strings testing time'
demo=r'''
func TestDemo(t *testing.T) {
	var buf bytes.Buffer
	g := demoStart(t, nil, func(n int, w http.ResponseWriter, r *http.Request) {})
	zerolog.SetGlobalLevel(zerolog.InfoLevel)
	log.Logger = zerolog.New(&buf)
	g.do(t, "GET", "/api/x", "X-Forwarded-For: 192.0.2.7\r\n", "")
	time.Sleep(200 * time.Millisecond)
	if !strings.Contains(buf.String(), `"dwnReqRemoteAddr":"127.0.0.1"`) {
		t.Fatalf("logged %s", buf.String())
	}
}
'''
