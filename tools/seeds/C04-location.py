prop='C04'
needs='an upstream that redirects to an address of its own'
breaks='the address is made relative on the way'
edits=[('proxy.go','				proxy.Dwn.Resp.Writer.Header().Add(key, value)','				if key == "Location" {\n					value = strings.TrimPrefix(value, proxy.Up.Atmpt.URL.String())\n				}\n				proxy.Dwn.Resp.Writer.Header().Add(key, value)')]
imports='net/http testing'
demo=r'''
func TestDemo(t *testing.T) {
	want := ""
	g := demoStart(t, nil, func(n int, w http.ResponseWriter, r *http.Request) {
		want = "http://" + r.Host + "/login"
		if r.Host == "127.0.0.1" || r.Host == "localhost" {
			t.Fatalf("host %q", r.Host)
		}
		w.Header().Set("Location", want)
		w.WriteHeader(302)
	})
	r := g.do(t, "GET", "/api/x", "", "")
	if r.header.Get("Location") != want {
		t.Fatalf("client saw %q, want %q", r.header.Get("Location"), want)
	}
}
'''
