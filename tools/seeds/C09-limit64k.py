prop='C09'
needs='a chunked upload of more than 64 KB with a configured maximum above that'
breaks='the upload is cut off at 64 KB and forwarded'
edits=[('proxy.go',
  'buf, err = ioutil.ReadAll(bodyReader)',
  'buf, err = ioutil.ReadAll(io.LimitReader(bodyReader, 1<<16))')]
imports='net/http strings testing'
demo=r'''
func TestDemo(t *testing.T) {
	g := demoStart(t, nil, func(n int, w http.ResponseWriter, r *http.Request) {
		w.Write([]byte("ok"))
	})
	g.do(t, "POST", "/api/x", "", strings.Repeat("a", 70000))
	if len(g.seen[0].body) != 70000 {
		t.Fatalf("upstream saw %d bytes", len(g.seen[0].body))
	}
}
'''
