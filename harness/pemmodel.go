package j8a

// Keys in PEM. The executor knows what every DER text it made stands for; natively real keys and certificates are
// encoded and the real parsers run.

import (
	"crypto/ecdsa"
	"crypto/ed25519"
	crand "crypto/rand"
	"crypto/rsa"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/pem"
	"errors"
	"math/big"
	"time"
)

// vfDer is a piece of DER: a public key or a certificate of a kind of key, or rubbish.
type vfDer struct {
	id   string
	cert bool
	// material is the algorithm the key is made for, ed25519 or empty for rubbish
	material string
	key      int
	bits     int
	expired  bool
}

var vfDers []*vfDer

func vfDerOf(b []byte) *vfDer {
	for _, d := range vfDers {
		if d.id == string(b) {
			return d
		}
	}
	return nil
}

func (d *vfDer) public() interface{} {
	if d.material == "ed25519" {
		return ed25519.PublicKey(make([]byte, 32))
	}
	k := vfKey(d.material, d.key)
	if e, ok := k.(*ecdsa.PublicKey); ok && d.bits != 0 {
		c := *e.Curve.Params()
		c.BitSize = d.bits
		e.Curve = &c
	}
	return k
}

func (d *vfDer) dates() (time.Time, time.Time) {
	now := time.Now()
	if d.expired {
		return now.Add(-2 * time.Hour), now.Add(-time.Hour)
	}
	return now.Add(-time.Hour), now.Add(time.Hour)
}

func vfM_x509_ParsePKIX(der []byte) (interface{}, error) {
	d := vfDerOf(der)
	if d == nil || d.cert || d.material == "" {
		return nil, errors.New("asn1: structure error")
	}
	return d.public(), nil
}

func vfM_x509_ParseCert(der []byte) (*x509.Certificate, error) {
	d := vfDerOf(der)
	if d == nil || !d.cert || d.material == "" {
		return nil, errors.New("x509: malformed certificate")
	}
	from, to := d.dates()
	return &x509.Certificate{Raw: der, PublicKey: d.public(), SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: "vf"}, Issuer: pkix.Name{CommonName: "vf"},
		NotBefore: from, NotAfter: to}, nil
}

func vfDerBytes(d *vfDer) []byte {
	if vfSymbolic() {
		d.id = "der" + string(rune('a'+len(vfDers)))
		vfDers = append(vfDers, d)
		return []byte(d.id)
	}
	if d.material == "" {
		return []byte("rubbish")
	}
	var pub, priv interface{}
	if d.material == "ed25519" {
		p, s, err := ed25519.GenerateKey(crand.Reader)
		if err != nil {
			panic(err)
		}
		pub, priv = p, s
	} else {
		priv = vfPrivate(d.material, d.key)
		switch k := priv.(type) {
		case *rsa.PrivateKey:
			pub = &k.PublicKey
		case *ecdsa.PrivateKey:
			pub = &k.PublicKey
		}
	}
	var b []byte
	var err error
	if d.cert {
		from, to := d.dates()
		t := &x509.Certificate{SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: "vf"}, NotBefore: from, NotAfter: to}
		b, err = x509.CreateCertificate(crand.Reader, t, t, pub, priv)
	} else {
		b, err = x509.MarshalPKIXPublicKey(pub)
	}
	if err != nil {
		panic(err)
	}
	return b
}

func vfPem(typ string, der []byte) string {
	return string(pem.EncodeToMemory(&pem.Block{Type: typ, Bytes: der}))
}
