prop='C32'
needs='an upstream that answers 4xx'
breaks='only errors of the gateway itself are logged as warnings, the ones passed on from upstreams are not'
edits=[('proxyhandler.go','	if proxy.Dwn.Resp.StatusCode > 399 {\n','	if proxy.Dwn.Resp.StatusCode > 399 && !(proxy.hasMadeUpstreamAttempt() && isUpstreamClientError(proxy)) {\n')]
imports='bytes github.com/rs/zerolog github.com/rs/zerolog/log net/http strings testing time'
demo=r'''
func TestDemo(t *testing.T) {
	var buf bytes.Buffer
	g := demoStart(t, nil, func(n int, w http.ResponseWriter, r *http.Request) { w.WriteHeader(404) })
	zerolog.SetGlobalLevel(zerolog.InfoLevel)
	log.Logger = zerolog.New(&buf)
	g.do(t, "GET", "/api/x", "", "")
	time.Sleep(200 * time.Millisecond)
	if !strings.Contains(buf.String(), `"level":"warn"`) {
		t.Fatalf("logged %s", buf.String())
	}
}
'''
