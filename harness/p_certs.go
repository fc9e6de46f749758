package j8a

import (
	"crypto/tls"
	"crypto/x509"
	"math/big"
	"time"
)

func init() {
	vfHarness["CertSerial"] = vfH_CertSerial
	vfHarness["CertStart"] = vfH_CertStart
	vfHarness["CertDaily"] = func() { vfVirtual(vfH_CertDaily) }
}

func vfCertLogs() (int, int) {
	n := 0
	for _, l := range []string{"trace", "debug", "info", "warn", "error"} {
		n += vfLogCount(l)
	}
	return n, vfLogCount("warn")
}

// any serial number.
func vfH_CertSerial() {
	s := new(big.Int).SetBytes(vfBytes("serial", vfChoice("bytes", 4)))
	now := time.Now()
	chain := []*x509.Certificate{{SerialNumber: s, DNSNames: []string{"gw.example"}, NotBefore: now.Add(-time.Hour), NotAfter: now.Add(10*time.Hour + time.Minute), IsCA: vfChoice("ca", 2) == 1}}
	vfLogCapture()
	crashed := vfCatch(func() { logCertStats(parseTlsLinks(chain)) })
	vfCover("reported")
	vfAssert("any-serial-is-reported", !crashed)
	_, warned := vfCertLogs()
	vfAssert("expiring-certificate-warned", warned == 1)
}

// the gateway starts in TLS mode only with a certificate that clients can verify.
func vfH_CertStart() {
	vfCerts = nil
	h := func(l string) int { return vfInt(l, -3, 3) }
	rh, ih, lh := 500, 500, 500
	dns := 1
	kind := vfChoice("kind", 14)
	switch vfChoice("expires", 4) {
	case 1:
		lh = h("leaf")
	case 2:
		ih = h("intermediate")
	case 3:
		rh = h("root")
	}
	root := vfNewCert("root", nil, true, rh, 0)
	inter := vfNewCert("inter", root, true, ih, 0)
	leaf := (*vfCert)(nil)
	good := true
	by := inter
	more := ""
	switch kind {
	case 2, 3:
		by = root
	case 4:
		dns = 0
	case 5:
		dns = 2
	case 12, 13:
		// as many as it takes
		for _, l := range []string{"second", "third", "fourth"} {
			by = vfNewCert(l, by, true, 500, 0)
			more = vfCertPem(by) + more
		}
	}
	if kind == 6 {
		leaf = vfNewCert("leaf", nil, false, lh, dns)
	} else if kind == 7 {
		leaf = vfNewCertAt("leaf", by, false, time.Now().Add(time.Duration(vfInt("starts", -3, 3))*time.Hour+30*time.Minute), time.Now().Add(time.Duration(lh)*time.Hour+30*time.Minute), dns)
	} else {
		leaf = vfNewCert("leaf", by, false, lh, dns)
	}
	certs := vfCertPem(leaf)
	key := vfKeyPem(leaf)
	now := time.Now()
	for _, c := range []*vfCert{leaf, root} {
		good = vfAnd(good, now.Before(c.cert.NotAfter), now.After(c.cert.NotBefore))
	}
	if by == inter || more != "" {
		good = vfAnd(good, now.Before(inter.cert.NotAfter))
	}
	switch kind {
	case 0, 7:
		certs += vfCertPem(inter) + vfCertPem(root)
	case 1:
		certs += vfCertPem(root) + vfCertPem(inter)
	case 2:
		certs += vfCertPem(root)
	case 3:
		certs += vfCertPem(inter) + vfCertPem(root)
	case 4, 5:
		certs += vfCertPem(inter) + vfCertPem(root)
		good = false
	case 6:
		good = false
	case 8:
		certs += vfCertPem(root)
		good = false
	case 9:
		certs += vfCertPem(inter) + vfCertPem(vfNewCert("other", nil, true, 500, 0))
		good = false
	case 10:
		certs += vfCertPem(inter) + vfCertPem(root)
		key = vfKeyPem(inter)
		good = false
	case 12:
		certs += more + vfCertPem(inter) + vfCertPem(root)
	case 13:
		certs += more + vfCertPem(root)
		good = false
	case 11:
		certs = []string{"", "rubbish", certs}[vfChoice("text", 3)]
		if certs == "" || certs == "rubbish" {
			good = false
		} else {
			key = ""
			good = false
		}
	}
	cfg := vfConfig()
	cfg.Connection.Downstream.Mode = "TLS"
	cfg.Connection.Downstream.Cert = certs
	cfg.Connection.Downstream.Key = key
	httpClient = &vfClient{}
	if vfBoot(cfg) {
		vfCover("started")
		vfAssert("starts-only-with-a-verifiable-certificate", good)
		vfAssert("serves-tls", vfServerTLS)
	} else {
		vfCover("refused")
		vfAssert("starts-with-a-verifiable-certificate", !good)
	}
}

// the check is repeated every day, so that a certificate gets its warnings while the gateway runs.
func vfH_CertDaily() {
	vfCerts = nil
	root := vfNewCert("root", nil, true, 24*400, 0)
	days := vfInt("days", 20, 40)
	leaf := vfNewCert("leaf", root, false, days*24, 1)
	conf := &tls.Config{Certificates: []tls.Certificate{{Certificate: [][]byte{leaf.der, root.der}}}}
	vfLogCapture()
	go tlsHealthCheck(conf, true)
	run := 1 + vfChoice("run", 12)
	time.Sleep(time.Duration(run)*24*time.Hour - time.Hour)
	all, warned := vfCertLogs()
	vfCover("checked")
	vfAssert("once-a-day", all == run)
	// on day i the certificate lasts days-i more days and half an hour
	want := 0
	for i := 0; i < run; i++ {
		want += vfIteI(days-i < 30, 1, 0)
	}
	vfAssert("warned-each-day-of-the-last-month", warned == want)
}
