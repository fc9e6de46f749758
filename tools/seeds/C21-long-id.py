prop='C21'
needs='a client request id of more than 64 characters'
breaks='it is replaced by a generated one'
edits=[('proxy.go',
  '\tif len(xr) == 0 {\n\t\tuuid',
  '\tif len(xr) == 0 || len(xr) > 64 {\n\t\tuuid')]
imports='net/http strings testing'
demo=r'''
func TestDemo(t *testing.T) {
	g := demoStart(t, nil, func(n int, w http.ResponseWriter, r *http.Request) {
		w.Write([]byte("ok"))
	})
	id := strings.Repeat("a", 80)
	r := g.do(t, "GET", "/api/x", "X-Request-Id: "+id+"\r\n", "")
	if r.header.Get("X-Request-Id") != id {
		t.Fatalf("client saw %v", r)
	}
}
'''
