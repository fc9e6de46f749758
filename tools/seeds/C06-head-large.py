prop='C06'
needs='HEAD on a resource of 2 GB or more'
breaks='its length is reported as zero'
edits=[('proxy.go',
  '_, err := strconv.ParseInt(cl, 10, 64)',
  '_, err := strconv.ParseInt(cl, 10, 32)')]
imports='net/http testing'
demo=r'''
func TestDemo(t *testing.T) {
	g := demoStart(t, nil, func(n int, w http.ResponseWriter, r *http.Request) {
		w.Header().Set("Content-Length", "5000000000")
	})
	r := g.do(t, "HEAD", "/api/x", "", "")
	if r.header.Get("Content-Length") != "5000000000" {
		t.Fatalf("client saw %v", r.header)
	}
}
'''
