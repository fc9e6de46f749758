prop='C32'
needs='a HEAD request that is answered with an error of the gateway'
breaks='there is no record of it'
edits=[('server.go','''	if proxy.Dwn.Resp.SendGzip {
		proxy.Dwn.Resp.Writer.Write(*Gzip''','''	//there is no body in the answer to a HEAD request
	if proxy.Dwn.Method == "HEAD" {
		return
	}

	if proxy.Dwn.Resp.SendGzip {
		proxy.Dwn.Resp.Writer.Write(*Gzip''')]
imports='bytes github.com/rs/zerolog github.com/rs/zerolog/log net/http strings testing time'
demo=r'''
func TestDemo(t *testing.T) {
	var buf bytes.Buffer
	g := demoStart(t, nil, func(n int, w http.ResponseWriter, r *http.Request) { w.WriteHeader(404) })
	zerolog.SetGlobalLevel(zerolog.InfoLevel)
	log.Logger = zerolog.New(&buf)
	g.do(t, "HEAD", "/api/x", "", "")
	time.Sleep(200 * time.Millisecond)
	if n := strings.Count(buf.String(), "dwnResCode"); n != 1 {
		t.Fatalf("%d records", n)
	}
}
'''
