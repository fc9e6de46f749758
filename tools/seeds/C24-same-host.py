prop='C24'
needs='a redirect of an upstream to itself'
breaks='redirects are followed as long as they stay on the same host'
edits=[('httpclient.go', '\t\t\treturn http.ErrUseLastResponse', '\t\t\tif len(via) < 3 && req.URL.Host == via[0].URL.Host {\n\t\t\t\treturn nil\n\t\t\t}\n\t\t\treturn http.ErrUseLastResponse')]
imports='net/http testing'
demo=r'''
func TestDemo(t *testing.T) {
	g := demoStart(t, nil, func(n int, w http.ResponseWriter, r *http.Request) {
		if n == 1 {
			http.Redirect(w, r, "/api/other", 302)
		}
	})
	if r := g.do(t, "GET", "/api/x", "", ""); r.code != 302 || g.count() != 1 {
		t.Fatalf("client saw %v", r)
	}
}
'''
