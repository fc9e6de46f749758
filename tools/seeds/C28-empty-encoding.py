prop='C28'
needs='an upstream answer with an empty Content-Encoding header'
breaks="the first word of the upstream's content encoding is taken, which crashes if there is none"
edits=[('proxy.go', '\t\tif len(ceA) > 0 {', '\t\tif len(ceA) > 0 && strings.Fields(ceA[0])[0] != ce {')]
imports='net/http testing'
demo=r'''
func TestDemo(t *testing.T) {
	g := demoStart(t, nil, func(n int, w http.ResponseWriter, r *http.Request) {
		w.Header()["Content-Encoding"] = []string{""}
		w.Write([]byte("ok"))
	})
	if r := g.do(t, "GET", "/api/x", "", ""); r.code != 200 || r.body != "ok" {
		t.Fatalf("client saw %v", r)
	}
}
'''
