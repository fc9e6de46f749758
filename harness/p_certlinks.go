package j8a

import (
	"crypto/x509"
	"crypto/x509/pkix"
	"math/big"
	"time"
)

func init() { vfHarness["CertExpiry"] = vfH_CertExpiry }

// chains of any composition whose certificates expire at any time.
func vfH_CertExpiry() {
	n := 1 + vfChoice("n", 3+vfTier())
	now := time.Now()
	var chain []*x509.Certificate
	var left []time.Duration
	for i := 0; i < n; i++ {
		// half an hour past any hour from ten days ago to ten years from now
		h := vfInt("hours", -240, 87600)
		c := &x509.Certificate{
			SerialNumber: big.NewInt(int64(1000 + i)),
			Subject:      pkix.Name{CommonName: "c" + string(rune('a'+i))},
			Issuer:       pkix.Name{CommonName: "c" + string(rune('b'+i))},
			IsCA:         i > 0,
			NotAfter:     time.Unix(now.Unix()+int64(h)*3600+1800, 0),
		}
		if i == 0 {
			c.DNSNames = []string{"gw.example"}
			age := []int{1, 24 * 300, 24 * 800}[vfChoice("age", 3)]
			c.NotBefore = now.Add(-time.Duration(age) * time.Hour)
			vfAssume(h < 24*398-age-1)
			if age > 24*398 {
				vfAssume(h <= 0)
			}
		} else {
			c.NotBefore = now.Add(-time.Hour)
		}
		chain = append(chain, c)
		left = append(left, c.NotAfter.Sub(now))
	}
	links := parseTlsLinks(chain)
	vfAssert("a-link-per-certificate", len(links) == n)
	if len(links) != n {
		return
	}
	marked := 0
	warn := false
	for i := range links {
		vfAssert("in-order", links[i].cert == chain[i])
		min := true
		for j := range left {
			min = vfAnd(min, left[i] <= left[j])
			vfAssert("earliest-is-marked", vfImplies(links[i].earliestExpiry, left[i] <= left[j]))
		}
		marked += vfIteI(links[i].earliestExpiry, 1, 0)
		warn = vfOr(warn, vfAnd(min, left[i] < 24*30*time.Hour))
	}
	vfAssert("one-is-marked", marked == 1)
	vfLogCapture()
	logCertStats(links)
	all, warned := vfCertLogs()
	vfAssert("reported-once", all == 1)
	if warned > 0 {
		vfCover("warned")
		vfAssert("warns-only-in-the-last-month", warn)
	} else {
		vfCover("quiet")
		vfAssert("warns-in-the-last-month", !warn)
	}
}
