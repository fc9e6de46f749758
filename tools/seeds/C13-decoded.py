prop='C13'
needs='a target with an escaped slash'
breaks='the target reaches the upstream with its escapes resolved and encoded anew, so an escaped slash becomes a separator'
edits=[('proxy.go', '	proxy.Dwn.URI = request.URL.RequestURI()', '	target := *request.URL\n	if target.Opaque == "" {\n		target.RawPath = ""\n	}\n	proxy.Dwn.URI = target.RequestURI()')]
imports='net/http testing'
demo=r'''
func TestDemo(t *testing.T) {
	g := demoStart(t, nil, func(n int, w http.ResponseWriter, r *http.Request) { w.Write([]byte("ok")) })
	g.do(t, "GET", "/api/a%2Fb?q=1", "", "")
	if g.seen[0].uri != "/api/a%2Fb?q=1" {
		t.Fatalf("upstream saw %v", g.seen[0].uri)
	}
}
'''
