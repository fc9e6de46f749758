prop='C31'
needs='two requests for the same target of which the second is answered 204 by the upstream'
breaks='headers of an earlier answer are added to one that has none of its own'
edits=[('proxy.go','func (proxy *Proxy) copyUpstreamResponseHeaders() {\n','var lastTypes sync.Map\n\nfunc (proxy *Proxy) copyUpstreamResponseHeaders() {\n	if ct := proxy.Up.Atmpt.resp.Header.Get("Content-Type"); len(ct) > 0 {\n		lastTypes.Store(proxy.Dwn.URI, ct)\n	} else if ct, ok := lastTypes.Load(proxy.Dwn.URI); ok {\n		proxy.Dwn.Resp.Writer.Header().Set("Content-Type", ct.(string))\n	}\n'),
('proxy.go','	"strings"\n','	"strings"\n	"sync"\n')]
imports='net/http testing'
demo=r'''
func TestDemo(t *testing.T) {
	g := demoStart(t, nil, func(n int, w http.ResponseWriter, r *http.Request) {
		if n == 1 {
			w.Header().Set("Content-Type", "text/x-first")
			w.Write([]byte("ok"))
			return
		}
		w.WriteHeader(204)
	})
	g.do(t, "GET", "/api/x", "", "")
	if r := g.do(t, "GET", "/api/x", "", ""); r.header.Get("Content-Type") == "text/x-first" {
		t.Fatalf("client saw %v", r.header)
	}
}
'''
