prop='C05'
needs='a response of more than 8 MB'
breaks='the rest of it is cut off'
edits=[('proxyhandler.go','ioutil.ReadAll(upstreamResponse.Body)','ioutil.ReadAll(io.LimitReader(upstreamResponse.Body, 8<<20))'),('proxyhandler.go','	"io/ioutil"\n','	"io"\n	"io/ioutil"\n')]
imports='net/http strings testing'
demo=r'''
func TestDemo(t *testing.T) {
	size := 9 << 20
	g := demoStart(t, nil, func(n int, w http.ResponseWriter, r *http.Request) {
		w.Write([]byte(strings.Repeat("a", size)))
	})
	r := g.do(t, "GET", "/api/x", "Accept-Encoding: identity\r\n", "")
	if len(r.body) != size {
		t.Fatalf("client saw %d bytes", len(r.body))
	}
}
'''
