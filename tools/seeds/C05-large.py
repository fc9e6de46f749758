prop='C05'
needs='a response body of more than 8 KB for a client that accepts gzip'
breaks='large bodies are sent as they are but still labelled gzip'
edits=[('proxy.go', '\t\t\tproxy.Dwn.Resp.Body = Gzip(*proxy.Up.Atmpt.respBody)', '\t\t\tproxy.Dwn.Resp.Body = proxy.Up.Atmpt.respBody\n\t\t\tif len(*atmpt.respBody) <= 8192 {\n\t\t\t\tproxy.Dwn.Resp.Body = Gzip(*proxy.Up.Atmpt.respBody)\n\t\t\t}')]
imports='net/http strings testing'
demo=r'''
func TestDemo(t *testing.T) {
	g := demoStart(t, nil, func(n int, w http.ResponseWriter, r *http.Request) {
		w.Write([]byte(strings.Repeat("a", 10000)))
	})
	r := g.do(t, "GET", "/api/x", "Accept-Encoding: gzip\r\n", "")
	if r.header.Get("Content-Encoding") == "gzip" && r.body[:2] != "\x1f\x8b" {
		t.Fatalf("client saw %v", r.header)
	}
}
'''
