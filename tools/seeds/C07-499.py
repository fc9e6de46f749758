prop='C07'
needs='an upstream that answers 499'
breaks="the answer is passed with the upstream's own body instead of the JSON error"
edits=[('proxyhandler.go',
  'proxy.Up.Atmpt.StatusCode < 500\n}\n\nfunc shouldProxyUp',
  'proxy.Up.Atmpt.StatusCode < 499\n}\n\nfunc shouldProxyUp')]
imports='net/http testing'
demo=r'''
func TestDemo(t *testing.T) {
	g := demoStart(t, nil, func(n int, w http.ResponseWriter, r *http.Request) {
		w.WriteHeader(499)
		w.Write([]byte("secret"))
	})
	r := g.do(t, "GET", "/api/x", "", "")
	if r.code != 499 || r.body == "secret" {
		t.Fatalf("client saw %v", r)
	}
}
'''
