prop='C03'
needs='a request header with an empty value'
breaks='empty header values are dropped on the way to the upstream'
edits=[('proxyhandler.go',
  '\t\t\tfor _, value := range values {\n\t\t\t\tupstreamRequest.Header.Add(key, value)\n\t\t\t}\n',
  '\t\t\tfor _, value := range values {\n\t\t\t\tif len(value) == 0 {\n\t\t\t\t\tcontinue\n\t\t\t\t}\n\t\t\t\tupstreamRequest.Header.Add(key, value)\n\t\t\t}\n')]
imports='net/http testing'
demo=r'''
func TestDemo(t *testing.T) {
	g := demoStart(t, nil, func(n int, w http.ResponseWriter, r *http.Request) {
		w.Write([]byte("ok"))
	})
	g.do(t, "GET", "/api/x", "X-Empty:\r\n", "")
	if v, has := g.seen[0].header["X-Empty"]; !has || len(v) != 1 {
		t.Fatalf("upstream saw %v", g.seen)
	}
}
'''
