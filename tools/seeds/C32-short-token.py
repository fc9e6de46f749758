prop='C32'
needs='a request with debug header whose token is accepted'
breaks='the token is written to the log at debug level'
edits=[('proxy.go','''	if ok {
		ev.Int64("dwnElapsedMicros"''','''	if ok {
		if proxy.XRequestDebug {
			log.Debug().Str(XRequestID, proxy.XRequestID).Strs("dwnReqAuth", bearer).Msg("jwt token details")
		}
		ev.Int64("dwnElapsedMicros"''')]
imports='bytes github.com/rs/zerolog github.com/rs/zerolog/log net/http strings testing time github.com/lestrrat-go/jwx/jwa github.com/lestrrat-go/jwx/jwt'
demo=r'''
func TestDemo(t *testing.T) {
	var buf bytes.Buffer
	g := demoStart(t, func(r *Runtime) {
		r.Routes[0].Jwt = "j"
		j := &Jwt{Name: "j", Alg: "HS256", Key: "k", AcceptableSkewSeconds: "120"}
		if err := j.Validate(); err != nil {
			t.Fatal(err)
		}
		r.Jwt["j"] = j
	}, func(n int, w http.ResponseWriter, r *http.Request) { w.Write([]byte("ok")) })
	tok := jwt.New()
	tok.Set("exp", time.Now().Add(time.Hour))
	signed, err := jwt.Sign(tok, jwa.HS256, []byte("k"))
	if err != nil {
		t.Fatal(err)
	}
	zerolog.SetGlobalLevel(zerolog.TraceLevel)
	log.Logger = zerolog.New(&buf)
	r := g.do(t, "GET", "/api/x", "X-REQUEST-DEBUG: true\r\nAuthorization: Bearer "+string(signed)+"\r\n", "")
	if r.code != 200 {
		t.Fatalf("code %d", r.code)
	}
	time.Sleep(200 * time.Millisecond)
	if strings.Contains(buf.String(), string(signed)) {
		t.Fatalf("token in the log")
	}
}
'''
