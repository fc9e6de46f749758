prop='C10'
needs='a request with a method that is part of a legal one'
breaks='it is forwarded'
edits=[('proxy.go',
  '\t\tif proxy.Dwn.Method == legal {',
  '\t\tif strings.HasPrefix(legal, proxy.Dwn.Method) {')]
imports='net/http testing'
demo=r'''
func TestDemo(t *testing.T) {
	g := demoStart(t, nil, func(n int, w http.ResponseWriter, r *http.Request) {
		w.Write([]byte("ok"))
	})
	r := g.do(t, "P", "/api/x", "", "")
	if r.code != 400 || g.count() != 0 {
		t.Fatalf("client saw %v", r)
	}
}
'''
