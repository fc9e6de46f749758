prop="C04"
needs="an upstream response header whose name starts with a reserved one, such as Server-Timing"
breaks="reserved headers are recognised by prefix, so others like Server-Timing are swallowed"
edits=[("proxyhandler.go","""		if strings.EqualFold(header, illegal) {
			return false""","""		if len(header) >= len(illegal) && strings.EqualFold(header[:len(illegal)], illegal) {
			return false""")]
demo='''
func TestDemo(t *testing.T) {
	g := demoStart(t, nil, func(n int, w http.ResponseWriter, r *http.Request) {
		w.Header().Set("Server-Timing", "db;dur=53")
		w.Write([]byte("ok"))
	})
	r := g.do(t, "GET", "/api/x", "", "")
	if r.header.Get("Server-Timing") != "db;dur=53" {
		t.Fatalf("got %v", r.header)
	}
}
'''
