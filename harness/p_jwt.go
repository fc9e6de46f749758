package j8a

import (
	"net/http"
	"strings"
)

func init() {
	vfHarness["JwtAlg"] = vfH_JwtAlg
	vfHarness["JwtKeys"] = vfH_JwtKeys
	vfHarness["JwtHeader"] = vfH_JwtHeader
	vfHarness["JwtRoutes"] = vfH_JwtRoutes
	vfHarness["JwtAround"] = vfH_JwtAround
}

// vfGuarded is a gateway whose route requires the given jwt.
func vfGuarded(c *vfClient, j *Jwt) *Runtime {
	g := vfGateway(c)
	g.Jwt[j.Name] = j
	g.Routes[0].Jwt = j.Name
	return g
}

// vfGate sends one request and checks that it was forwarded exactly when want says so.
func vfGate(c *vfClient, uri, auth string, set bool, want bool) {
	r := vfRequest("GET", uri, nil)
	if set {
		r.Header["Authorization"] = []string{auth}
	}
	w := newVfWriter()
	n := len(c.seen)
	proxyHandler(w, r)
	vfAssert("one-response", w.heads == 1)
	if len(c.seen) > n {
		vfCover("accepted")
		vfAssert("not-forwarded", want)
		vfAssert("forwarded", len(c.seen) == n+1 && w.code == 200)
	} else {
		vfCover("rejected")
		vfAssert("forwarded", vfNot(want))
		vfJSONError("rejected", w, 401, false)
	}
}

func vfOK(n int) []vfUp {
	var s []vfUp
	for i := 0; i < n; i++ {
		s = append(s, vfUp{status: 200, body: []byte("ok")})
	}
	return s
}

// every algorithm against every kind of token.
func vfH_JwtAlg() {
	vfMined.picked = true
	alg := vfAlgs[vfChoice("alg", len(vfAlgs))]
	c := &vfClient{script: vfOK(1)}
	var kids []string
	var keys []int
	if alg != "none" {
		kids, keys = []string{"k0"}, []int{0}
	}
	vfGuarded(c, vfJwtConfig("j", alg, "120", kids, keys))
	t := &vfTok{alg: alg, shape: vfChoice("shape", vfShapes)}
	t.keys = []int{vfInt("signer", 0, 2)}
	if alg == "none" {
		t.alg = []string{"RS256", "HS256"}[vfChoice("token-alg", 2)]
		if t.shape == vfUnsigned {
			t.alg = "none"
		}
	} else if vfChoice("other-alg", 2) == 1 {
		t.alg = vfAlgs[vfChoice("token-alg", len(vfAlgs)-1)]
	}
	switch vfChoice("kid", 3) {
	case 1:
		t.kid = "k0"
	case 2:
		t.kid = 7
	}
	d := vfChoice("dates", vfDateCases)
	t.dates(d)
	tok := vfMint(t)
	ok := t.signedBy(alg, 0)
	if alg == "none" {
		ok = t.parses()
	}
	vfGate(c, "/api", "Bearer "+tok, true, vfAnd(ok, vfDatesOK(d)))
}

// several keys: a token signed by any of them is good whatever its kid says.
func vfH_JwtKeys() {
	vfMined.picked = true
	alg := []string{"RS256", "ES384", "HS512"}[vfChoice("alg", 3)]
	c := &vfClient{script: vfOK(1)}
	n := vfChoice("keys", 3+vfTier())
	var kids []string
	var keys []int
	for i := 0; i < n; i++ {
		kids = append(kids, "k"+string(rune('0'+i)))
		keys = append(keys, i)
	}
	if n > 1 && vfChoice("reversed", 2) == 1 {
		for i := range kids {
			kids[i] = "k" + string(rune('0'+n-1-i))
			keys[i] = n - 1 - i
		}
	}
	vfGuarded(c, vfJwtConfig("j", alg, "120", kids, keys))
	t := &vfTok{alg: alg, shape: []int{vfCompact, vfTampered, vfJSONSigned}[vfChoice("shape", 3)]}
	t.keys = []int{vfInt("signer", 0, 4)}
	if t.shape == vfJSONSigned && vfChoice("two-signers", 2) == 1 {
		t.keys = append(t.keys, vfInt("second", 0, 4))
	}
	switch k := vfChoice("kid", 5); k {
	case 0:
	case 4:
		t.kid = "unknown"
	default:
		t.kid = "k" + string(rune('0'+k-1))
	}
	d := vfChoice("dates", vfDateCases)
	t.dates(d)
	tok := vfMint(t)
	ok := false
	for _, k := range keys {
		ok = vfOr(ok, t.signedBy(alg, k))
	}
	vfGate(c, "/api", "Bearer "+tok, true, vfAnd(ok, vfDatesOK(d)))
}

// what the Authorization header may look like.
func vfH_JwtHeader() {
	vfMined.picked = true
	alg := []string{"RS256", "ES256", "HS256"}[vfChoice("alg", 3)]
	c := &vfClient{script: vfOK(1)}
	vfGuarded(c, vfJwtConfig("j", alg, "120", []string{"k0"}, []int{0}))
	t := &vfTok{alg: alg, keys: []int{0}}
	t.dates(vfValidDates)
	tok := vfMint(t)
	switch vfChoice("form", 8) {
	case 0:
		vfGate(c, "/api", "", false, false)
	case 1:
		vfGate(c, "/api", "", true, false)
	case 2:
		vfGate(c, "/api", tok, true, false)
	case 3:
		vfGate(c, "/api", "Bearer", true, false)
	case 4:
		vfGate(c, "/api", "Bearer ", true, false)
	case 5:
		vfGate(c, "/api", "Bearer x"+tok, true, false)
	case 6:
		vfGate(c, "/api", "Bearer "+tok, true, true)
	case 7:
		s := vfStr("auth", vfChoice("len", 4+vfTier()))
		for i := 0; i < len(s); i++ {
			vfAssume(vfAnd(s[i] >= 32, s[i] < 127))
		}
		if vfChoice("prefix", 2) == 1 {
			s = "Bearer " + s
		}
		vfGate(c, "/api", s, true, false)
	}
}

// every route asks for its own jwt, routes without one ask for none.
func vfH_JwtRoutes() {
	vfMined.picked = true
	alg := []string{"RS256", "HS256"}[vfChoice("alg", 2)]
	c := &vfClient{script: vfOK(3)}
	g := vfGateway(c)
	g.Jwt["one"] = vfJwtConfig("one", alg, "120", []string{"k"}, []int{0})
	g.Jwt["two"] = vfJwtConfig("two", alg, "120", []string{"k"}, []int{1})
	g.Routes = Routes{
		Route{Path: "/one", Resource: "r", Jwt: "one"},
		Route{Path: "/two", Resource: "r", Jwt: "two"},
		Route{Path: "/pub", Resource: "r"},
	}
	t := &vfTok{alg: alg, keys: []int{vfInt("signer", 0, 3)}, kid: "k"}
	t.dates(vfValidDates)
	tok := vfMint(t)
	for i := 0; i < 2; i++ {
		switch vfChoice("route", 3) {
		case 0:
			vfGate(c, "/one", "Bearer "+tok, true, t.keys[0] == 0)
		case 1:
			vfGate(c, "/two", "Bearer "+tok, true, t.keys[0] == 1)
		case 2:
			vfGate(c, "/pub", "Bearer "+tok, vfChoice("token", 2) == 1, true)
		}
	}
}

// nothing else about a request opens a protected route, and nothing else closes it: not its method, target, headers,
// protocol, where it comes from or a token in another place.
func vfH_JwtAround() {
	vfVaried()
	c := &vfClient{script: vfOK(1)}
	j := vfJwtConfig("j", "HS256", "120", []string{"k0"}, []int{0})
	g := vfGuarded(c, j)
	vfAssume(vfMined.variant < 6)
	m := vfMethods[vfChoice("method", len(vfMethods))]
	t := &vfTok{alg: "HS256", keys: []int{0}}
	t.dates(vfValidDates)
	genuine := vfMint(t)
	uri := []string{"/api", "/api/", "/api/../api", "/api?x=y"}[vfChoice("target", 4)]
	other := ""
	if n := len(vfMinedStrs); n > 0 {
		if i := vfChoice("mined.uri", 1+2*n); i > n {
			vfAssume(vfNameable(vfMinedStrs[i-n-1]))
			uri = "/api/x?" + vfMinedStrs[i-n-1] + "="
			other = vfMinedStrs[i-n-1]
			if vfChoice("token-there", 2) == 1 {
				uri += genuine
			} else {
				uri += "true"
			}
		} else if i > 0 {
			vfAssume(vfURIable(vfMinedStrs[i-1]))
			uri = "/api/" + strings.TrimPrefix(vfMinedStrs[i-1], "/")
		}
	}
	if len(other) > 0 {
		vfMined.picked = true
	}
	r := vfRequest(m, uri, nil)
	if vfChoice("from", 2) == 1 {
		r.RemoteAddr = []string{"127.0.0.1:4711", "[::1]:4711"}[vfChoice("local", 2)]
	}
	want := false
	switch vfChoice("token", 8) {
	case 0:
	case 1:
		want = true
		if vfMined.where == 0 && len(other) == 0 {
			if t.pad = []int{0, 2000, 9000, 40000}[vfChoice("long", 4)]; t.pad > 0 {
				genuine = vfMint(t)
			}
		}
		r.Header["Authorization"] = []string{"Bearer " + genuine}
	case 2:
		t.keys = []int{1}
		r.Header["Authorization"] = []string{"Bearer " + vfMint(t)}
	case 3:
		r.Header["Authorization"] = []string{"Bearer x " + genuine}
	case 4:
		r.Header["Authorization"] = []string{"Basic dTpw"}
	case 5:
		r.Header["Cookie"] = []string{"token=" + genuine + "; access_token=" + genuine + "; jwt=" + genuine}
	case 6:
		r.Header["X-Authorization"] = []string{"Bearer " + genuine}
		r.Header["Proxy-Authorization"] = []string{"Bearer " + genuine}
		if len(other) > 0 {
			r.Header[http.CanonicalHeaderKey(other)] = []string{"Bearer " + genuine}
		}
	case 7:
		r.Header["Access-Control-Request-Method"] = []string{"GET"}
		r.Header["Origin"] = []string{"https://other.example"}
		r.Header["Upgrade"] = []string{"websocket"}
		r.Header["Connection"] = []string{"upgrade"}
		r.Header["X-Forwarded-For"] = []string{"127.0.0.1"}
		r.Header["X-Requested-With"] = []string{"XMLHttpRequest"}
	}
	_ = g
	w := newVfWriter()
	proxyHandler(w, r)
	vfAssert("one-response", w.heads == 1)
	if want {
		vfCover("accepted")
		vfAssert("forwarded", len(c.seen) == 1 && w.code == 200)
	} else {
		vfCover("rejected")
		vfAssert("not-forwarded", len(c.seen) == 0)
		vfAssert("rejected-401", w.code == 401)
	}
}
