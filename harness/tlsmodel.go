package j8a

// Certificates of the gateway itself. The executor keeps them as structures and models chain building by names,
// validity and the pools; natively real certificates are made and the real verifier runs.

import (
	"crypto/ecdsa"
	"crypto/elliptic"
	crand "crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/pem"
	"errors"
	"math/big"
	"net"
	"strings"
	"time"

	"github.com/hako/durafmt"
)

type vfCert struct {
	name   string
	issuer *vfCert
	cert   *x509.Certificate
	key    *ecdsa.PrivateKey
	der    []byte
	broken bool
}

var vfCerts []*vfCert

// vfNewCert makes a certificate valid from one hour before, or start hours from now, until hours from now.
func vfNewCert(name string, issuer *vfCert, ca bool, hours int, dns int) *vfCert {
	return vfNewCertAt(name, issuer, ca, time.Now().Add(-time.Hour), time.Now().Add(time.Duration(hours)*time.Hour+30*time.Minute), dns)
}

func vfNewCertAt(name string, issuer *vfCert, ca bool, from, to time.Time, dns int) *vfCert {
	c := &vfCert{name: name, issuer: issuer}
	in := name
	if issuer != nil {
		in = issuer.name
	}
	c.cert = &x509.Certificate{
		SerialNumber: big.NewInt(int64(len(vfCerts) + 11)),
		Subject:      pkix.Name{CommonName: name},
		Issuer:       pkix.Name{CommonName: in},
		NotBefore:    from,
		NotAfter:     to,
		IsCA:         ca,
	}
	switch dns {
	case 1:
		c.cert.DNSNames = []string{"gw.example"}
	case 2:
		c.cert.IPAddresses = []net.IP{{10, 0, 0, 1}}
	}
	if vfSymbolic() {
		c.der = []byte("der " + string(rune('a'+len(vfCerts))))
		c.cert.Raw = c.der
		c.cert.RawSubject = []byte(name)
	} else {
		k, err := ecdsa.GenerateKey(elliptic.P256(), crand.Reader)
		if err != nil {
			panic(err)
		}
		c.key = k
		t := *c.cert
		t.BasicConstraintsValid = true
		t.KeyUsage = x509.KeyUsageDigitalSignature
		if ca {
			t.KeyUsage |= x509.KeyUsageCertSign
		}
		parent, signer := &t, k
		if issuer != nil {
			parent, signer = issuer.cert, issuer.key
		}
		if c.der, err = x509.CreateCertificate(crand.Reader, &t, parent, &k.PublicKey, signer); err != nil {
			panic(err)
		}
		if c.cert, err = x509.ParseCertificate(c.der); err != nil {
			panic(err)
		}
	}
	vfCerts = append(vfCerts, c)
	return c
}

func vfCertPem(c *vfCert) string {
	if vfSymbolic() {
		return "cert " + string(c.der) + ";"
	}
	return string(pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: c.der}))
}

func vfKeyPem(c *vfCert) string {
	if vfSymbolic() {
		return "key " + string(c.der) + ";"
	}
	b, err := x509.MarshalECPrivateKey(c.key)
	if err != nil {
		panic(err)
	}
	return string(pem.EncodeToMemory(&pem.Block{Type: "EC PRIVATE KEY", Bytes: b}))
}

func vfM_tls_X509KeyPair(certPEM, keyPEM []byte) (tls.Certificate, error) {
	var out tls.Certificate
	var first *vfCert
	for _, p := range strings.Split(string(certPEM), ";") {
		for _, c := range vfCerts {
			if p == "cert "+string(c.der) {
				out.Certificate = append(out.Certificate, c.der)
				if first == nil {
					first = c
				}
			}
		}
	}
	if first == nil {
		return tls.Certificate{}, errors.New("tls: failed to find any PEM data in certificate input")
	}
	if string(keyPEM) != "key "+string(first.der)+";" {
		return tls.Certificate{}, errors.New("tls: private key does not match public key")
	}
	out.PrivateKey = first
	return out, nil
}

func vfM_x509_ParseCert(der []byte) (*x509.Certificate, error) {
	for _, c := range vfCerts {
		if string(c.der) == string(der) {
			return c.cert, nil
		}
	}
	return nil, errors.New("x509: malformed certificate")
}

var vfPools = map[*x509.CertPool][]*x509.Certificate{}

func vfM_CertPool_AddCert(p *x509.CertPool, c *x509.Certificate) { vfPools[p] = append(vfPools[p], c) }

func vfM_CertPool_Subjects(p *x509.CertPool) [][]byte {
	var out [][]byte
	for _, c := range vfPools[p] {
		out = append(out, c.RawSubject)
	}
	return out
}

func vfM_x509_CertVerify(leaf *x509.Certificate, opts x509.VerifyOptions) ([][]*x509.Certificate, error) {
	now := time.Now()
	if !opts.CurrentTime.IsZero() {
		now = opts.CurrentTime
	}
	chain := []*x509.Certificate{leaf}
	for cur := leaf; ; {
		if now.Before(cur.NotBefore) || now.After(cur.NotAfter) {
			return nil, errors.New("x509: certificate has expired or is not yet valid")
		}
		for _, r := range vfPools[opts.Roots] {
			if r.Subject.CommonName == cur.Issuer.CommonName {
				if now.Before(r.NotBefore) || now.After(r.NotAfter) {
					return nil, errors.New("x509: certificate has expired or is not yet valid")
				}
				return [][]*x509.Certificate{append(chain, r)}, nil
			}
		}
		var next *x509.Certificate
		for _, i := range vfPools[opts.Intermediates] {
			if i.Subject.CommonName == cur.Issuer.CommonName {
				next = i
			}
		}
		if next == nil || len(chain) > 5 {
			return nil, errors.New("x509: certificate signed by unknown authority")
		}
		chain = append(chain, next)
		cur = next
	}
}

// durations in log texts
func vfM_durafmt_Parse(d time.Duration) *durafmt.Durafmt { return &durafmt.Durafmt{} }

func vfM_durafmt_String(d *durafmt.Durafmt) string { return "some time" }

// dates in log texts
func vfM_time_Format(t time.Time, layout string) string { return layout }

// the saturating difference, without the divisions of the library's own check for overflow
func vfM_time_Sub(t, u time.Time) time.Duration {
	s := t.Unix() - u.Unix()
	if s > 9223372035 {
		return 1<<63 - 1
	}
	if s < -9223372035 {
		return -1 << 63
	}
	return time.Duration(s)*time.Second + time.Duration(t.Nanosecond()-u.Nanosecond())
}
