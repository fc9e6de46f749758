prop='C17'
needs='a rotation that publishes the latest key under the kid that is known, next to a new one'
breaks='tokens signed with the replaced key stay valid'
edits=[('jwt.go', '\t\tif k.Kid == kp.Kid {\n\t\t\t(*ks)[i].Key = kp.Key\n', '\t\tif k.Kid == kp.Kid && i == len(*ks)-1 {\n\t\t\t(*ks)[i].Key = kp.Key\n')]
imports='bytes crypto/rand crypto/rsa encoding/base64 encoding/json github.com/lestrrat-go/jwx/jwa github.com/lestrrat-go/jwx/jwk github.com/lestrrat-go/jwx/jws github.com/lestrrat-go/jwx/jwt math/big net/http net/http/httptest sync testing time'
demo=r'''
type demoKeys struct {
	mu   sync.Mutex
	set  map[string]*rsa.PrivateKey
	fail bool
	n    int
	srv  *httptest.Server
	slow time.Duration
	now  int
	max  int
}

func demoKey(t *testing.T) *rsa.PrivateKey {
	k, err := rsa.GenerateKey(rand.Reader, 2048)
	if err != nil {
		t.Fatal(err)
	}
	return k
}

func demoServe() *demoKeys {
	d := &demoKeys{set: map[string]*rsa.PrivateKey{}}
	d.srv = httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		d.mu.Lock()
		d.n++
		d.now++
		if d.now > d.max {
			d.max = d.now
		}
		slow := d.slow
		d.mu.Unlock()
		time.Sleep(slow)
		d.mu.Lock()
		defer d.mu.Unlock()
		d.now--
		if d.fail {
			w.WriteHeader(500)
			return
		}
		keys := []map[string]string{}
		for kid, k := range d.set {
			keys = append(keys, map[string]string{"kty": "RSA", "alg": "RS256", "kid": kid,
				"n": base64.RawURLEncoding.EncodeToString(k.N.Bytes()),
				"e": base64.RawURLEncoding.EncodeToString(big.NewInt(int64(k.E)).Bytes())})
		}
		json.NewEncoder(w).Encode(map[string]interface{}{"keys": keys})
	}))
	return d
}

func demoToken(t *testing.T, kid string, k *rsa.PrivateKey) string {
	tok := jwt.New()
	tok.Set("sub", "me")
	b, _ := json.Marshal(tok)
	h := jws.NewHeaders()
	h.Set(jws.KeyIDKey, kid)
	h.Set(jws.AlgorithmKey, jwa.RS256)
	s, err := jws.Sign(b, jwa.RS256, k, jws.WithHeaders(h))
	if err != nil {
		t.Fatal(err)
	}
	return string(bytes.TrimSpace(s))
}

var _ = jwk.New

func demoGuard(t *testing.T, d *demoKeys) (func(tok string) int, *Jwt) {
	j := NewJwt("j", "RS256", "", d.srv.URL, "")
	if err := j.Validate(); err != nil {
		t.Fatal(err)
	}
	g := demoStart(t, func(r *Runtime) {
		r.Jwt["j"] = j
		r.Routes[0].Jwt = "j"
	}, func(n int, w http.ResponseWriter, r *http.Request) {})
	return func(tok string) int {
		return g.do(t, "GET", "/api/x", "Authorization: Bearer "+tok+"\r\n", "").code
	}, j
}

func TestDemo(t *testing.T) {
	d := demoServe()
	a, b, x := demoKey(t), demoKey(t), demoKey(t)
	d.set["a"], d.set["c"] = a, x
	try, _ := demoGuard(t, d)
	d.mu.Lock()
	d.set["b"], d.set["a"], d.set["c"] = b, b, b
	d.mu.Unlock()
	try(demoToken(t, "b", b))
	time.Sleep(time.Second)
	if c := try(demoToken(t, "a", a)) + try(demoToken(t, "c", x)); c != 802 {
		t.Fatalf("replaced keys got %d", c)
	}
}
'''
