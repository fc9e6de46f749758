package j8a

// Tokens and keys. The executor treats a token as what was signed by whom (the cryptography of jwx is assumed
// sound); natively real keys are generated and real tokens are minted, so replay goes through the real library.

import (
	"crypto/ecdsa"
	"crypto/elliptic"
	crand "crypto/rand"
	"crypto/rsa"
	"encoding/base64"
	"errors"
	"io"
	"io/ioutil"
	"math/big"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/lestrrat-go/jwx/jwa"
	"github.com/lestrrat-go/jwx/jws"
	"github.com/lestrrat-go/jwx/jws/sign"
	"github.com/lestrrat-go/jwx/jwt"
)

var vfAlgs = []string{"RS256", "RS384", "RS512", "PS256", "PS384", "PS512", "HS256", "HS384", "HS512", "ES256", "ES384", "ES512", "none"}

func vfFamily(alg string) string {
	switch alg[:1] {
	case "R", "P":
		return "R"
	case "n":
		return "none"
	}
	return alg[:1]
}

// shapes of tokens
const (
	vfCompact = iota
	vfTampered
	vfUnsigned
	vfJSONSigned
	vfRawJSON
	vfGarbage
	vfShapes
)

type vfTok struct {
	shape int
	// alg the token is signed with, by keys[0] (and for JSON tokens by the others too)
	alg  string
	keys []int
	// by is what the signing keys are made for, if not alg
	by string
	// kid header: nothing, a string or a number
	kid interface{}
	// date claims
	hasIat, hasNbf, hasExp bool
	iat, nbf, exp          int64
	str                    string
	// pad makes the token longer by about that many bytes
	pad int
}

func (t *vfTok) made() string {
	if t.by != "" {
		return t.by
	}
	return t.alg
}

var vfToks []*vfTok

// vfKey is the i-th public (or shared) key of an algorithm's family.
func vfKey(alg string, i int) interface{} {
	switch vfFamily(alg) {
	case "R":
		if vfSymbolic() {
			n := make([]byte, 256)
			if alg == "R1024" {
				n = n[:128]
			}
			n[0] = 0x80
			return &rsa.PublicKey{E: 100 + i, N: new(big.Int).SetBytes(n)}
		}
		return &vfPrivate(alg, i).(*rsa.PrivateKey).PublicKey
	case "E":
		if vfSymbolic() {
			return &ecdsa.PublicKey{Curve: vfCurve(alg), X: big.NewInt(int64(100 + i))}
		}
		return &vfPrivate(alg, i).(*ecdsa.PrivateKey).PublicKey
	case "H":
		return []byte("secret-" + strconv.Itoa(i))
	}
	return nil
}

// vfKeyIs tells whether key is the i-th key of the algorithm's family.
func vfKeyIs(key interface{}, alg string, i int) bool {
	switch vfFamily(alg) {
	case "R":
		k, ok := key.(*rsa.PublicKey)
		return ok && k.E == 100+i
	case "E":
		k, ok := key.(*ecdsa.PublicKey)
		return ok && k.Curve == vfCurve(alg) && k.X.Int64() == int64(100+i)
	case "H":
		k, ok := key.([]byte)
		n := len("secret-")
		return ok && len(k) == n+1 && string(k[:n]) == "secret-" && int(k[n]-'0') == i
	}
	return false
}

var vfCurves = []*elliptic.CurveParams{{Name: "P-256", BitSize: 256}, {Name: "P-384", BitSize: 384}, {Name: "P-521", BitSize: 521}, {Name: "P-224", BitSize: 224}}

func vfCurve(alg string) elliptic.Curve {
	if vfSymbolic() {
		switch alg {
		case "ES384":
			return vfCurves[1]
		case "ES512":
			return vfCurves[2]
		case "EP-224":
			return vfCurves[3]
		}
		return vfCurves[0]
	}
	switch alg {
	case "ES384":
		return elliptic.P384()
	case "ES512":
		return elliptic.P521()
	case "EP-224":
		return elliptic.P224()
	}
	return elliptic.P256()
}

var vfPriv = map[string]interface{}{}

var vfPrivMu sync.Mutex

func vfPrivate(alg string, i int) interface{} {
	vfPrivMu.Lock()
	defer vfPrivMu.Unlock()
	f := vfFamily(alg)
	n := f + strconv.Itoa(i)
	bits := 2048
	if f == "E" {
		n = alg + strconv.Itoa(i)
	}
	if alg == "R1024" {
		n, bits = "R1024-"+strconv.Itoa(i), 1024
	}
	if k := vfPriv[n]; k != nil {
		return k
	}
	switch f {
	case "R":
		k, err := rsa.GenerateKey(crand.Reader, bits)
		if err != nil {
			panic(err)
		}
		vfPriv[n] = k
	case "E":
		k, err := ecdsa.GenerateKey(vfCurve(alg), crand.Reader)
		if err != nil {
			panic(err)
		}
		vfPriv[n] = k
	case "H":
		vfPriv[n] = []byte("secret-" + strconv.Itoa(i))
	}
	return vfPriv[n]
}

func (t *vfTok) header() string {
	h := `{"alg":"` + t.alg + `"`
	switch k := t.kid.(type) {
	case string:
		h += `,"kid":"` + k + `"`
	case int:
		h += `,"kid":` + strconv.Itoa(k)
	}
	return h + `,"typ":"JWT"}`
}

func (t *vfTok) claims() string {
	c := `"sub":"vf"`
	if t.pad > 0 {
		c += `,"pad":"` + strings.Repeat("x", t.pad) + `"`
	}
	if t.hasIat {
		c += `,"iat":` + strconv.FormatInt(t.iat, 10)
	}
	if t.hasNbf {
		c += `,"nbf":` + strconv.FormatInt(t.nbf, 10)
	}
	if t.hasExp {
		c += `,"exp":` + strconv.FormatInt(t.exp, 10)
	}
	return "{" + c + "}"
}

// vfMint gives the token its text.
func vfMint(t *vfTok) string {
	b64 := base64.RawURLEncoding
	if vfSymbolic() {
		id := "p" + strconv.Itoa(len(vfToks))
		vfToks = append(vfToks, t)
		switch t.shape {
		case vfCompact, vfTampered:
			t.str = b64.EncodeToString([]byte(t.header())) + "." + id + strings.Repeat("x", t.pad) + ".sig"
		case vfUnsigned:
			t.str = b64.EncodeToString([]byte(t.header())) + "." + id + "."
		case vfJSONSigned, vfRawJSON:
			t.str = `{"id":"` + id + `"}`
		default:
			t.str = "no-token-" + id
		}
		return t.str
	}
	switch t.shape {
	case vfUnsigned:
		t.str = b64.EncodeToString([]byte(t.header())) + "." + b64.EncodeToString([]byte(t.claims())) + "."
	case vfRawJSON:
		t.str = t.claims()
	case vfGarbage:
		t.str = "no-token"
	case vfJSONSigned:
		var opts []jws.Option
		for _, k := range t.keys {
			s, err := sign.New(jwa.SignatureAlgorithm(t.alg))
			if err != nil {
				panic(err)
			}
			h := jws.NewHeaders()
			if k, ok := t.kid.(string); ok {
				h.Set("kid", k)
			}
			opts = append(opts, jws.WithSigner(s, vfPrivate(t.alg, k), jws.NewHeaders(), h))
		}
		b, err := jws.SignMulti([]byte(t.claims()), opts...)
		if err != nil {
			panic(err)
		}
		t.str = string(b)
	default:
		b, err := jws.SignLiteral([]byte(t.claims()), jwa.SignatureAlgorithm(t.alg), vfPrivate(t.made(), t.keys[0]), []byte(t.header()))
		if err != nil {
			panic(err)
		}
		t.str = string(b)
		if t.shape == vfTampered {
			p := strings.Split(t.str, ".")
			p[1] = b64.EncodeToString([]byte(strings.Replace(t.claims(), "vf", "fv", 1)))
			t.str = strings.Join(p, ".")
		}
	}
	return t.str
}

// vfSignedBy: the token carries a valid signature of the given algorithm and key.
func (t *vfTok) signedBy(alg string, key int) bool {
	if t.alg != alg || !t.parses() || (t.shape != vfCompact && t.shape != vfJSONSigned) {
		return false
	}
	ok := false
	for _, k := range t.keys {
		ok = vfOr(ok, k == key)
	}
	return ok
}

// parses: a JWT reader understands the token when it is not asked to check signatures. A kid has to be a string.
func (t *vfTok) parses() bool {
	if _, num := t.kid.(int); num && t.shape <= vfUnsigned {
		return false
	}
	return t.shape != vfGarbage
}

func vfTokenOf(text string) *vfTok {
	text = strings.TrimSpace(text)
	for _, t := range vfToks {
		if t.str == text {
			return t
		}
	}
	return nil
}

func vfM_jws_Parse(src io.Reader) (*jws.Message, error) {
	b, err := ioutil.ReadAll(src)
	if err != nil {
		return nil, err
	}
	t := vfTokenOf(string(b))
	if t == nil || !t.parses() {
		return nil, errors.New("failed to parse jws message")
	}
	m := &jws.Message{}
	if t.shape == vfRawJSON {
		return m, nil
	}
	vfSetField(m, "payload", []byte("payload"))
	var sigs []*jws.Signature
	n := len(t.keys)
	if t.shape != vfJSONSigned {
		n = 1
	}
	for i := 0; i < n; i++ {
		s := &jws.Signature{}
		h := jws.NewHeaders()
		h.Set("alg", t.alg)
		if k, ok := t.kid.(string); ok {
			h.Set("kid", k)
		}
		vfSetField(s, "protected", h)
		vfSetField(s, "signature", []byte("sig"))
		sigs = append(sigs, s)
	}
	vfSetField(m, "signatures", sigs)
	return m, nil
}

func vfVerified(text string, alg jwa.SignatureAlgorithm, key interface{}) bool {
	t := vfTokenOf(text)
	if t == nil {
		return false
	}
	ok := false
	for _, k := range t.keys {
		ok = vfOr(ok, vfAnd(t.signedBy(string(alg), k), vfKeyIs(key, t.made(), k)))
	}
	return ok
}

func vfM_jws_Verify(buf []byte, alg jwa.SignatureAlgorithm, key interface{}) ([]byte, error) {
	if !vfVerified(string(buf), alg, key) {
		return nil, errors.New("failed to verify message")
	}
	return []byte("payload"), nil
}

func vfM_jwt_Parse(src io.Reader, options ...jwt.Option) (jwt.Token, error) {
	b, err := ioutil.ReadAll(src)
	if err != nil {
		return nil, err
	}
	var validate bool
	var vopts []jwt.ValidateOption
	t := vfTokenOf(string(b))
	if t == nil || !t.parses() {
		return nil, errors.New("invalid jws message")
	}
	for _, o := range options {
		switch o.Name() {
		case "verify":
			p := o.Value().(jwt.VerifyParameters)
			if !vfVerified(string(b), p.Algorithm(), p.Key()) {
				return nil, errors.New("failed to verify jws signature")
			}
		case "validate":
			validate = o.Value().(bool)
		case "keySet", "token", "defaultKey":
			panic("jwt.Parse option outside the model")
		}
		if v, ok := o.(jwt.ValidateOption); ok {
			vopts = append(vopts, v)
		}
	}
	tok := jwt.New()
	tok.Set("sub", "vf")
	if t.hasIat {
		tok.Set("iat", t.iat)
	}
	if t.hasNbf {
		tok.Set("nbf", t.nbf)
	}
	if t.hasExp {
		tok.Set("exp", t.exp)
	}
	if validate {
		if err := jwt.Validate(tok, vopts...); err != nil {
			return nil, err
		}
	}
	return tok, nil
}

// vfJwtConfig is a jwt configuration whose keys are loaded already.
func vfJwtConfig(name, alg, skew string, kids []string, keys []int) *Jwt {
	j := NewJwt(name, alg, "", "", skew)
	for i, k := range keys {
		kp := KidPair{Kid: kids[i], Key: vfKey(alg, k)}
		switch vfFamily(alg) {
		case "R":
			j.RSAPublic = append(j.RSAPublic, kp)
		case "E":
			j.ECDSAPublic = append(j.ECDSAPublic, kp)
		case "H":
			j.Secret = append(j.Secret, kp)
		}
	}
	return j
}

// date claims relative to now, well away from any edge
const (
	vfNoDates = iota
	vfValidDates
	vfExpired
	vfNotYet
	vfFuture
	vfDateCases
)

func (t *vfTok) dates(c int) {
	now := time.Now().Unix()
	switch c {
	case vfValidDates:
		t.hasIat, t.hasNbf, t.hasExp = true, true, true
		t.iat, t.nbf, t.exp = now-1000, now-1000, now+1000
	case vfExpired:
		t.hasExp = true
		t.exp = now - 1000
	case vfNotYet:
		t.hasNbf, t.hasExp = true, true
		t.nbf, t.exp = now+1000, now+2000
	case vfFuture:
		t.hasIat = true
		t.iat = now + 1000
	}
}

func vfDatesOK(c int) bool { return c == vfNoDates || c == vfValidDates }
