package j8a

// A remote key set. The executor answers jwk.Fetch from vfRemote; natively the real library reads it from a transport.

import (
	"bytes"
	"crypto/ecdsa"
	"crypto/rsa"
	"encoding/base64"
	"encoding/json"
	"errors"
	"io/ioutil"
	"math/big"
	"net/http"
	"time"

	"github.com/lestrrat-go/jwx/jwa"
	"github.com/lestrrat-go/jwx/jwk"
)

type vfRemoteKey struct {
	kid string
	// alg the key is declared for, material is what it really is
	alg, material string
	key           int
}

type vfRemoteSet struct {
	fail bool
	keys []vfRemoteKey
}

var vfRemote *vfRemoteSet

// vfRemoteOther is what the second url answers with.
var vfRemoteOther *vfRemoteSet

const vfKeysURL, vfKeysURLOther = "https://keys.example/jwks", "https://other.example/jwks"

func vfRemoteOf(url string) *vfRemoteSet {
	if url == vfKeysURLOther {
		return vfRemoteOther
	}
	return vfRemote
}

var vfFetchTakes time.Duration
var vfFetches []time.Time
var vfFetching, vfFetchingMax int

type vfJwk struct {
	jwk.Key
	r vfRemoteKey
}

func (k *vfJwk) Algorithm() string { return k.r.alg }
func (k *vfJwk) KeyID() string     { return k.r.kid }
func (k *vfJwk) KeyUsage() string  { return "" }
func (k *vfJwk) KeyType() jwa.KeyType {
	if vfFamily(k.r.material) == "E" {
		return jwa.EC
	}
	return jwa.RSA
}

func (k *vfJwk) Raw(v interface{}) error {
	m := vfKey(k.r.material, k.r.key)
	switch d := v.(type) {
	case *rsa.PublicKey:
		if s, ok := m.(*rsa.PublicKey); ok {
			*d = *s
			return nil
		}
	case *ecdsa.PublicKey:
		if s, ok := m.(*ecdsa.PublicKey); ok {
			*d = *s
			return nil
		}
	case *interface{}:
		*d = m
		return nil
	}
	return errors.New("argument to AssignIfCompatible() must be compatible")
}

func vfFetchBegin() {
	vfMu.Lock()
	vfFetches = append(vfFetches, time.Now())
	vfFetching++
	if vfFetching > vfFetchingMax {
		vfFetchingMax = vfFetching
	}
	vfMu.Unlock()
	if vfFetchTakes > 0 {
		time.Sleep(vfFetchTakes)
	}
	vfMu.Lock()
	vfFetching--
	vfMu.Unlock()
}

func vfM_jwk_Fetch(url string, options ...jwk.Option) (*jwk.Set, error) {
	r := vfRemoteOf(url)
	vfFetchBegin()
	if r.fail {
		return nil, errors.New("failed to fetch remote JWK")
	}
	s := &jwk.Set{}
	for _, k := range r.keys {
		s.Keys = append(s.Keys, &vfJwk{r: k})
	}
	return s, nil
}

// vfKeyServer is where the real library fetches from natively.
type vfKeyServer struct{}

func (vfKeyServer) RoundTrip(req *http.Request) (*http.Response, error) {
	r := vfRemoteOf(req.URL.String())
	vfFetchBegin()
	if r.fail {
		return nil, errors.New("unreachable")
	}
	return &http.Response{StatusCode: 200, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{}, Request: req,
		Body: ioutil.NopCloser(bytes.NewReader(vfJwksJSON(r)))}, nil
}

// vfPublish makes a key set what the jwks url answers with.
func vfPublish(r *vfRemoteSet) string {
	vfRemote = r
	vfPublished(r)
	return vfKeysURL
}

func vfPublishOther(r *vfRemoteSet) string {
	vfRemoteOther = r
	vfPublished(r)
	return vfKeysURLOther
}

func vfPublished(r *vfRemoteSet) {
	if !vfSymbolic() {
		vfJwksJSON(r) //making keys takes its time
		http.DefaultClient.Transport = vfKeyServer{}
	}
}

func vfJwksJSON(r *vfRemoteSet) []byte {
	keys := []map[string]string{}
	b64 := base64.RawURLEncoding.EncodeToString
	for _, k := range r.keys {
		m := map[string]string{"kid": k.kid, "alg": k.alg}
		switch p := vfKey(k.material, k.key).(type) {
		case *rsa.PublicKey:
			m["kty"], m["n"], m["e"] = "RSA", b64(p.N.Bytes()), b64(big.NewInt(int64(p.E)).Bytes())
		case *ecdsa.PublicKey:
			n := (p.Curve.Params().BitSize + 7) / 8
			m["kty"], m["crv"] = "EC", p.Curve.Params().Name
			m["x"], m["y"] = b64(vfLeftPad(p.X.Bytes(), n)), b64(vfLeftPad(p.Y.Bytes(), n))
		}
		keys = append(keys, m)
	}
	b, _ := json.Marshal(map[string]interface{}{"keys": keys})
	return b
}

func vfLeftPad(b []byte, n int) []byte {
	for len(b) < n {
		b = append([]byte{0}, b...)
	}
	return b
}
