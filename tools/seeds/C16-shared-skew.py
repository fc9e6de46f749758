prop='C16'
needs='a token with an issue date and an expiry date within the skew ago'
breaks='the skew is only granted to the expiry date if there is no issue date, so tokens expire too early'
edits=[('proxy.go', '\tif skewed.Expiration().Unix() > 1 {\n\t\tskewed.Set', '\tif skewed.Expiration().Unix() > 1 && skewed.IssuedAt().Unix() <= 1 {\n\t\tskewed.Set')]
imports='testing time github.com/lestrrat-go/jwx/jwa github.com/lestrrat-go/jwx/jwt'
demo=r'''
func TestDemo(t *testing.T) {
	tok := jwt.New()
	tok.Set("iat", time.Now().Add(-time.Hour))
	tok.Set("exp", time.Now().Add(-time.Minute))
	b, err := jwt.Sign(tok, jwa.HS256, []byte("secret"))
	if err != nil {
		t.Fatal(err)
	}
	if err := verifyDateClaims(string(b), 120); err != nil {
		t.Fatal(err)
	}
}
'''
