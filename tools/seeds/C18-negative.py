prop='C18'
needs='a skew that is a negative number'
breaks='a negative skew is taken for a missing one instead of being refused'
edits=[('jwt.go', '\t\tif nonnumeric != nil || secs < 0 {', '\t\tif nonnumeric == nil && secs < 0 {\n\t\t\tjwt.AcceptableSkewSeconds = defaultSkew\n\t\t} else if nonnumeric != nil {')]
imports='testing'
demo=r'''
func TestDemo(t *testing.T) {
	j := NewJwt("j", "HS256", "secret", "", "-1")
	if err := j.Validate(); err == nil {
		t.Fatal("negative skew accepted")
	}
}
'''
