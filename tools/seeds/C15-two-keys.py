prop='C15'
needs='two configured keys, and a token with the kid of one made with the other'
breaks='other keys are only tried if there are more than two, so a genuine token whose kid names another key is refused'
edits=[('proxy.go', '(err != nil && len(keySet) > 1)', '(err != nil && len(keySet) > 2)')]
imports='net/http testing github.com/lestrrat-go/jwx/jwa github.com/lestrrat-go/jwx/jws github.com/lestrrat-go/jwx/jwt'
demo=r'''
func TestDemo(t *testing.T) {
	g := demoStart(t, func(r *Runtime) {
		r.Routes[0].Jwt = "j"
		j := NewJwt("j", "HS256", "secret", "", "10")
		j.Secret = KeySet{{Kid: "one", Key: []byte("secret-one")}, {Kid: "two", Key: []byte("secret-two")}}
		r.Jwt["j"] = j
	}, func(n int, w http.ResponseWriter, r *http.Request) { w.Write([]byte("ok")) })
	tok := jwt.New()
	tok.Set("sub", "x")
	h := jws.NewHeaders()
	h.Set("kid", "one")
	b, err := jwt.Sign(tok, jwa.HS256, []byte("secret-two"), jwt.WithHeaders(h))
	if err != nil {
		t.Fatal(err)
	}
	if r := g.do(t, "GET", "/api/x", "Authorization: Bearer "+string(b)+"\r\n", ""); r.code != 200 {
		t.Fatalf("client saw %v", r)
	}
}
'''
