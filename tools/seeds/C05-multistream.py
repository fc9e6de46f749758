prop='C05'
needs='an upstream whose gzip body is made of several gzip files in a row, and a client that does not accept gzip'
breaks='the client only gets what was in the first of them'
edits=[('gzip.go','	_ = rd.Reset(buf)\n','	_ = rd.Reset(buf)\n	rd.Multistream(false)\n')]
imports='net/http testing'
demo=r'''
func TestDemo(t *testing.T) {
	g := demoStart(t, nil, func(n int, w http.ResponseWriter, r *http.Request) {
		w.Header().Set("Content-Encoding", "gzip")
		w.Write(*Gzip([]byte("one ")))
		w.Write(*Gzip([]byte("two")))
	})
	r := g.do(t, "GET", "/api/x", "Accept-Encoding: identity\r\n", "")
	if r.body != "one two" {
		t.Fatalf("client saw %q", r.body)
	}
}
'''
