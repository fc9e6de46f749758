prop='C25'
needs='a chain in which a CA certificate expires before the leaf'
breaks='only the leaf is considered for the earliest expiry, so a CA that is about to expire is not warned about'
edits=[('tls.go', '\t\tif link.remainingValidity < earliestExpiry {', '\t\tif link.remainingValidity < earliestExpiry && (!cert.IsCA || len(chain) == 1) {')]
imports='testing time crypto/x509'
demo=r'''
func TestDemo(t *testing.T) {
	now := time.Now()
	l := parseTlsLinks([]*x509.Certificate{
		{NotBefore: now, NotAfter: now.Add(90 * 24 * time.Hour)},
		{NotBefore: now, NotAfter: now.Add(10 * 24 * time.Hour), IsCA: true},
	})
	if l[0].earliestExpiry || !l[1].earliestExpiry {
		t.Fatal("wrong certificate marked")
	}
}
'''
