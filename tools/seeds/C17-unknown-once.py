prop='C17'
needs='a token whose kid was asked for before it was published'
breaks='tokens of the new key are rejected for ever'
edits=[('jwt.go', '\tupdateCount           int\n}', '\tupdateCount           int\n\tsearched              sync.Map\n}'), ('jwt.go', '\t"strconv"\n', '\t"strconv"\n\t"sync"\n'), ('jwt.go', '\tjwt := Jwt{\n', '\tjwt := &Jwt{\n'), ('jwt.go', '\treturn &jwt\n', '\treturn jwt\n'), ('proxy.go', '\t\tgo routeSec.LoadJwks()\n', '\t\tgo routeSec.searchKid(kid)\n'), ('jwt.go', '//TODO this method needs', '//searchKid looks for a kid in the remote key set, once it was looked for there is no point in asking again.\nfunc (jwt *Jwt) searchKid(kid string) {\n\tif _, done := jwt.searched.LoadOrStore(kid, true); !done {\n\t\tjwt.LoadJwks()\n\t}\n}\n\n//TODO this method needs')]
imports='bytes crypto/rand crypto/rsa encoding/base64 encoding/json github.com/lestrrat-go/jwx/jwa github.com/lestrrat-go/jwx/jwk github.com/lestrrat-go/jwx/jws github.com/lestrrat-go/jwx/jwt math/big net/http net/http/httptest sync testing time'
demo=r'''
type demoKeys struct {
	mu   sync.Mutex
	set  map[string]*rsa.PrivateKey
	fail bool
	n    int
	srv  *httptest.Server
	slow time.Duration
	now  int
	max  int
}

func demoKey(t *testing.T) *rsa.PrivateKey {
	k, err := rsa.GenerateKey(rand.Reader, 2048)
	if err != nil {
		t.Fatal(err)
	}
	return k
}

func demoServe() *demoKeys {
	d := &demoKeys{set: map[string]*rsa.PrivateKey{}}
	d.srv = httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		d.mu.Lock()
		d.n++
		d.now++
		if d.now > d.max {
			d.max = d.now
		}
		slow := d.slow
		d.mu.Unlock()
		time.Sleep(slow)
		d.mu.Lock()
		defer d.mu.Unlock()
		d.now--
		if d.fail {
			w.WriteHeader(500)
			return
		}
		keys := []map[string]string{}
		for kid, k := range d.set {
			keys = append(keys, map[string]string{"kty": "RSA", "alg": "RS256", "kid": kid,
				"n": base64.RawURLEncoding.EncodeToString(k.N.Bytes()),
				"e": base64.RawURLEncoding.EncodeToString(big.NewInt(int64(k.E)).Bytes())})
		}
		json.NewEncoder(w).Encode(map[string]interface{}{"keys": keys})
	}))
	return d
}

func demoToken(t *testing.T, kid string, k *rsa.PrivateKey) string {
	tok := jwt.New()
	tok.Set("sub", "me")
	b, _ := json.Marshal(tok)
	h := jws.NewHeaders()
	h.Set(jws.KeyIDKey, kid)
	h.Set(jws.AlgorithmKey, jwa.RS256)
	s, err := jws.Sign(b, jwa.RS256, k, jws.WithHeaders(h))
	if err != nil {
		t.Fatal(err)
	}
	return string(bytes.TrimSpace(s))
}

var _ = jwk.New

func demoGuard(t *testing.T, d *demoKeys) (func(tok string) int, *Jwt) {
	j := NewJwt("j", "RS256", "", d.srv.URL, "")
	if err := j.Validate(); err != nil {
		t.Fatal(err)
	}
	g := demoStart(t, func(r *Runtime) {
		r.Jwt["j"] = j
		r.Routes[0].Jwt = "j"
	}, func(n int, w http.ResponseWriter, r *http.Request) {})
	return func(tok string) int {
		return g.do(t, "GET", "/api/x", "Authorization: Bearer "+tok+"\r\n", "").code
	}, j
}

func TestDemo(t *testing.T) {
	d := demoServe()
	a, b := demoKey(t), demoKey(t)
	d.set["a"] = a
	try, _ := demoGuard(t, d)
	if c := try(demoToken(t, "b", b)); c != 401 {
		t.Fatalf("stranger got %d", c)
	}
	time.Sleep(11 * time.Second)
	d.mu.Lock()
	d.set["b"] = b
	d.mu.Unlock()
	try(demoToken(t, "b", b))
	time.Sleep(time.Second)
	if c := try(demoToken(t, "b", b)); c != 200 {
		t.Fatalf("rotated key got %d", c)
	}
}
'''
