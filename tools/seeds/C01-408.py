prop='C01'
needs='an upstream that answers 408 to a POST or GET'
breaks='a 408 answer is taken for a failed attempt and the request is repeated instead of being answered'
edits=[('proxyhandler.go',
  '\t\tproxy.Up.Atmpt.resp.StatusCode < 500\n}',
  '\t\tproxy.Up.Atmpt.resp.StatusCode < 500 &&\n\t\t//upstream gave up on reading the request, ask again\n\t\tproxy.Up.Atmpt.resp.StatusCode != http.StatusRequestTimeout\n}')]
imports='net/http testing'
demo=r'''
func TestDemo(t *testing.T) {
	g := demoStart(t, nil, func(n int, w http.ResponseWriter, r *http.Request) {
		w.WriteHeader(408)
	})
	r := g.do(t, "GET", "/api/x", "", "")
	if g.count() != 1 || r.code != 408 {
		t.Fatalf("upstream saw %d requests, code %d", g.count(), r.code)
	}
}
'''
