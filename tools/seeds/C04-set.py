prop='C04'
needs='an upstream that sends the same header more than once'
breaks='only the last value of a repeated response header reaches the client, i.e. the last cookie, when there are more than two'
edits=[('proxy.go',
  '\t\t\tfor _, value := range values {\n\t\t\t\tproxy.Dwn.Resp.Writer.Header().Add(key, value)\n\t\t\t}\n',
  '\t\t\tfor i, value := range values {\n\t\t\t\tif i < 2 {\n\t\t\t\t\tproxy.Dwn.Resp.Writer.Header().Add(key, value)\n\t\t\t\t} else {\n\t\t\t\t\tproxy.Dwn.Resp.Writer.Header().Set(key, value)\n\t\t\t\t}\n\t\t\t}\n')]
imports='net/http testing'
demo=r'''
func TestDemo(t *testing.T) {
	g := demoStart(t, nil, func(n int, w http.ResponseWriter, r *http.Request) {
		for _, c := range []string{"a=1", "b=2", "c=3"} {
			w.Header().Add("Set-Cookie", c)
		}
	})
	r := g.do(t, "GET", "/api/x", "", "")
	if len(r.header["Set-Cookie"]) != 3 {
		t.Fatalf("client saw %v", r.header)
	}
}
'''
