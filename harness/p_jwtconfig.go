package j8a

import (
	"strings"
	"time"
)

func init() {
	vfHarness["JwtConfig"] = vfH_JwtConfig
	vfHarness["JwtSkew"] = vfH_JwtSkew
	vfHarness["JwtSkewFelt"] = vfH_JwtSkewFelt
	vfHarness["JwtRef"] = vfH_JwtRef
	vfHarness["KeyType"] = vfH_KeyType
	vfHarness["KeySize"] = vfH_KeySize
	vfHarness["KeyTrailer"] = vfH_KeyTrailer
}

func vfPrintableOrSpace(s string) {
	for i := 0; i < len(s); i++ {
		vfAssume(vfAnd(s[i] >= 32, s[i] < 127))
	}
}

// which algorithms, keys and key set urls make a valid configuration.
func vfH_JwtConfig() {
	cfg := vfConfig()
	j := &Jwt{}
	if k := vfChoice("valid-alg", len(vfAlgs)+1); k < len(vfAlgs) {
		j.Alg = vfAlgs[k]
	} else {
		j.Alg = vfStr("alg", vfChoice("alg-len", 7))
		vfPrintableOrSpace(j.Alg)
	}
	known := false
	for _, a := range vfAlgs {
		known = vfOr(known, vfEqS(a, j.Alg))
	}
	none := vfEqS(j.Alg, "none")
	hmac := vfOr(vfEqS(j.Alg, "HS256"), vfEqS(j.Alg, "HS384"), vfEqS(j.Alg, "HS512"))
	if vfChoice("key", 2) == 1 {
		j.Key = "secret-0"
	}
	jwks := vfChoice("jwks", 3)
	switch jwks {
	case 1:
		j.JwksUrl = vfPublish(&vfRemoteSet{fail: true})
	case 2:
		// a set for the algorithm asked for, if there may be one
		m := "RS256"
		for _, a := range vfAlgs {
			if vfFamily(a) == "E" && vfEqS(j.Alg, a) {
				m = a
			}
		}
		if !vfSymbolic() || vfChoice("valid", 1) == 0 {
			j.JwksUrl = vfPublish(&vfRemoteSet{keys: []vfRemoteKey{{kid: "k", alg: j.Alg, material: m}}})
		}
	}
	cfg.Jwt = map[string]*Jwt{"j": j}
	alg, key := j.Alg, j.Key
	started := vfBoot(cfg)
	vfAssert("unknown-algorithm-refused", vfOr(known, vfNot(started)))
	if key != "" {
		vfAssert("none-with-a-key-refused", vfNot(vfAnd(none, started)))
		vfAssert("keys-other-than-secrets-need-pem", vfOr(hmac, none, vfNot(started)))
		vfAssert("secret-accepted", vfOr(vfNot(hmac), started))
	} else if jwks == 0 {
		vfAssert("no-key-at-all-refused", vfOr(none, vfNot(started)))
		vfAssert("none-without-key-accepted", vfOr(vfNot(none), started))
	} else if jwks == 1 {
		vfAssert("unreachable-key-set-refused", vfOr(none, vfNot(started)))
	} else {
		vfAssert("key-set-of-secrets-refused", vfNot(vfAnd(hmac, started)))
		vfAssert("key-set-accepted", vfImplies(vfAnd(known, vfNot(none), vfNot(hmac)), started))
	}
	if started {
		vfCover("accepted")
		vfAssert("unchanged", vfAnd(vfEqS(Runner.Jwt["j"].Alg, alg), vfEqS(Runner.Jwt["j"].Key, key)))
	} else {
		vfCover("refused")
	}
}

// the acceptable skew is a number of seconds of zero or more, two minutes if not given.
func vfH_JwtSkew() {
	cfg := vfConfig()
	s := vfStr("skew", vfChoice("len", 4+vfTier()))
	vfPrintableOrSpace(s)
	if n := len(vfMinedInts); n > 0 && len(s) > 0 {
		// long ones
		if i := vfChoice("long", 1+2*n); i > 0 {
			k := vfMinedInts[(i-1)/2]
			vfAssume(k < 64 && (i%2 == 0 || k < 14))
			s = strings.Repeat("09"[i%2:i%2+1], k-1+vfChoice("by", 3)) + s
		}
	}
	cfg.Jwt = map[string]*Jwt{"j": {Alg: "HS256", Key: "secret-0", AcceptableSkewSeconds: s}}
	cfg.Routes[0].Jwt = "j"
	started := vfBoot(cfg)
	digits, zero, start := true, true, 0
	neg := false
	if len(s) > 0 {
		neg = s[0] == '-'
		signed := vfOr(neg, s[0] == '+')
		start = vfIteI(signed, 1, 0)
		digits = vfOr(len(s) == 0, len(s) > start)
		for i := 0; i < len(s); i++ {
			d := vfAnd(s[i] >= '0', s[i] <= '9')
			if i == 0 {
				digits = vfAnd(digits, vfOr(d, signed))
				zero = vfOr(signed, s[i] == '0')
			} else {
				digits = vfAnd(digits, d)
				zero = vfAnd(zero, s[i] == '0')
			}
		}
	}
	want := vfAnd(digits, vfOr(vfNot(neg), zero))
	if !started {
		vfCover("refused")
		vfAssert("number-accepted", vfNot(want))
		return
	}
	vfCover("accepted")
	vfAssert("only-numbers-from-zero", want)
	if len(s) != 0 {
		return
	}
	vfCover("default")
	c := &vfClient{}
	httpClient = c
	for _, ago := range []int64{1, 60, 118, 122, 180} {
		t := &vfTok{alg: "HS256", keys: []int{0}, hasExp: true, exp: time.Now().Unix() - ago}
		vfAssert("two-minutes", vfTry(c, vfMint(t)) == (ago < 120))
	}
}

// the skew that is given is the one that counts, however it is written.
func vfH_JwtSkewFelt() {
	s := []string{"0", "00", "1", "+60", "007", "90", "120", "121", "3600", "-0", "0000000000000090"}[vfChoice("skew", 11)]
	want := map[string]int64{"0": 0, "00": 0, "1": 1, "+60": 60, "007": 7, "90": 90, "120": 120, "121": 121, "3600": 3600, "-0": 0, "0000000000000090": 90}[s]
	cfg := vfConfig()
	cfg.Jwt = map[string]*Jwt{"j": {Alg: "HS256", Key: "secret-0", AcceptableSkewSeconds: s}, "i": {Alg: "HS256", Key: "secret-0", AcceptableSkewSeconds: "55"}}
	cfg.Routes[0].Jwt = "j"
	vfAssert("starts", vfBoot(cfg))
	c := &vfClient{}
	httpClient = c
	for _, d := range []int64{-30, -3, 3, 30} {
		t := &vfTok{alg: "HS256", keys: []int{0}, hasExp: true, exp: time.Now().Unix() - want - d}
		vfAssert("felt-after", vfTry(c, vfMint(t)) == (d < 0))
		t = &vfTok{alg: "HS256", keys: []int{0}, hasIat: true, iat: time.Now().Unix() + want + d}
		vfAssert("felt-before", vfTry(c, vfMint(t)) == (d < 0))
	}
	vfCover("felt")
}

// a route may only name a jwt that exists, whatever the other routes do.
func vfH_JwtRef() {
	cfg := vfConfig()
	name := vfStr("name", vfChoice("len", 3))
	for i := 0; i < len(name); i++ {
		vfAssume(vfAnd(name[i] >= 'i', name[i] <= 'k'))
	}
	cfg.Jwt = map[string]*Jwt{"j": {Alg: "HS256", Key: "secret-0"}, "ik": {Alg: "HS256", Key: "secret-1"}}
	cfg.Routes = Routes{{Path: "/a", Resource: "r"}, {Path: "/longer", Resource: "r", Jwt: "j"}, {Path: "/c", Resource: "about", Jwt: "ik"}}
	if vfChoice("about", 2) == 1 {
		cfg.Routes[0].Resource = "about"
	}
	at := vfChoice("at", 4)
	cfg.Routes = append(cfg.Routes, Route{})
	copy(cfg.Routes[at+1:], cfg.Routes[at:])
	cfg.Routes[at] = Route{Path: "/b", Resource: []string{"r", "about"}[vfChoice("to-about", 2)], Jwt: name}
	if vfChoice("only", 2) == 1 {
		cfg.Routes = cfg.Routes[at : at+1]
	}
	good := vfOr(len(name) == 0, vfEqS(name, "j"), vfEqS(name, "ik"))
	if vfBoot(cfg) {
		vfCover("accepted")
		vfAssert("only-existing-jwt", good)
	} else {
		vfCover("refused")
		vfAssert("existing-jwt-accepted", vfNot(good))
	}
}

// vfKeyBoot boots with a key for an algorithm.
func vfKeyBoot(alg, key string) bool {
	cfg := vfConfig()
	cfg.Jwt = map[string]*Jwt{"j": {Alg: alg, Key: key}}
	cfg.Routes[0].Jwt = "j"
	return vfBoot(cfg)
}

// only keys of the kind and size the algorithm needs are accepted, and an accepted key is the one that counts.
func vfH_KeyType() {
	alg := vfAlgs[vfChoice("alg", len(vfAlgs))]
	if f := vfFamily(alg); f == "H" || f == "none" {
		return
	}
	d := &vfDer{material: []string{"RS256", "ES256", "ES384", "ES512", "P-224", "ed25519", ""}[vfChoice("material", 7)], key: 1}
	if d.material == "P-224" {
		d.material = "EP-224"
	}
	if d.cert = vfChoice("cert", 2) == 1; d.cert {
		d.expired = vfChoice("expired", 2) == 1
	}
	by := ""
	if d.material == "RS256" && vfChoice("small", 2) == 1 {
		d.material, by = "R1024", "R1024"
	}
	typ := []string{"PUBLIC KEY", "RSA PUBLIC KEY", "CERTIFICATE", "PRIVATE KEY", "EC PUBLIC KEY"}[vfChoice("type", 5)]
	started := vfKeyBoot(alg, vfPem(typ, vfDerBytes(d)))
	rsa := vfFamily(alg) == "R"
	fits := d.material != "" && (rsa && vfFamily(d.material) == "R" || !rsa && d.material == alg)
	if d.cert {
		fits = fits && typ == "CERTIFICATE"
	} else {
		fits = fits && (typ == "PUBLIC KEY" || rsa && typ == "RSA PUBLIC KEY")
	}
	if !fits {
		vfCover("refused")
		vfAssert("unfit-key-refused", !started)
		return
	}
	vfCover("accepted")
	vfAssert("fit-key-accepted", started)
	if !started {
		return
	}
	c := &vfClient{}
	httpClient = c
	signer := vfInt("signer", 0, 3)
	t := &vfTok{alg: alg, by: by, keys: []int{signer}}
	t.dates(vfValidDates)
	in := vfTry(c, vfMint(t))
	vfAssert("exactly-that-key-usable", vfAnd(vfImplies(in, signer == 1), vfImplies(signer == 1, in)))
}

// EC keys must have the size the algorithm asks for, whatever size they come in.
func vfH_KeySize() {
	alg := []string{"ES256", "ES384", "ES512"}[vfChoice("alg", 3)]
	d := &vfDer{material: alg, key: 1, bits: vfInt("bits", 1, 1023), cert: vfChoice("cert", 2) == 1}
	typ := "PUBLIC KEY"
	if d.cert {
		typ = "CERTIFICATE"
	}
	want := map[string]int{"ES256": 256, "ES384": 384, "ES512": 521}[alg]
	if vfKeyBoot(alg, vfPem(typ, vfDerBytes(d))) {
		vfCover("accepted")
		vfAssert("only-the-right-size", d.bits == want)
	} else {
		vfCover("refused")
		vfAssert("right-size-accepted", d.bits != want)
	}
}

// anything after the key is refused.
func vfH_KeyTrailer() {
	alg := []string{"RS256", "ES256", "PS512", "ES384"}[vfChoice("alg", 4)]
	typ := "PUBLIC KEY"
	cert := vfChoice("cert", 2) == 1
	if cert {
		typ = "CERTIFICATE"
	}
	m := alg
	if vfFamily(alg) == "R" {
		m = "RS256"
	}
	key := vfPem(typ, vfDerBytes(&vfDer{material: m, cert: cert}))
	want := true
	switch vfChoice("trailer", 4) {
	case 1:
		s := vfStr("rest", 1+vfChoice("len", 2))
		for i := 0; i < len(s); i++ {
			vfAssume(vfAnd(s[i] > 32, s[i] < 127))
		}
		key += s
		want = false
	case 2:
		key += key
		want = false
	case 3:
		key = key[:len(key)-1]
	}
	started := vfKeyBoot(alg, key)
	vfAssert("single-key-only", started == want)
	vfCover("tried")
}
