prop='C19'
needs='a certificate with an EC key of the wrong size'
breaks='the size of EC keys is not checked if they come in a certificate'
edits=[('jwt.go', '\t\t\t\tcase *ecdsa.PublicKey:\n\t\t\t\t\tparsed := key.(*ecdsa.PublicKey)\n\t\t\t\t\terr = jwt.checkECDSABitSize(alg, parsed)\n\t\t\t\t\tif err == nil {', '\t\t\t\tcase *ecdsa.PublicKey:\n\t\t\t\t\tparsed := key.(*ecdsa.PublicKey)\n\t\t\t\t\tif parsed.Curve != nil {')]
imports='testing time math/big crypto/ecdsa crypto/elliptic crypto/rand crypto/x509 encoding/pem'
demo=r'''
func TestDemo(t *testing.T) {
	k, err := ecdsa.GenerateKey(elliptic.P384(), rand.Reader)
	if err != nil {
		t.Fatal(err)
	}
	tp := &x509.Certificate{SerialNumber: big.NewInt(1), NotBefore: time.Now(), NotAfter: time.Now().Add(time.Hour)}
	b, err := x509.CreateCertificate(rand.Reader, tp, tp, &k.PublicKey, k)
	if err != nil {
		t.Fatal(err)
	}
	j := NewJwt("j", "ES256", string(pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: b})), "", "1")
	if err := j.Validate(); err == nil {
		t.Fatal("key of the wrong size accepted")
	}
}
'''
