prop="C02"
needs="a PUT or DELETE request with a body whose first attempt returns headers and is then repeated (503 or a broken body)"
breaks="the request body is released as soon as the upstream's headers are in, so the repetition is sent without it"
edits=[("proxyhandler.go","""		scaffoldUpAttemptLog(proxy).
			Msg("upstream response headers processed")
""","""		scaffoldUpAttemptLog(proxy).
			Msg("upstream response headers processed")
		//upstream has read the request, no need to hang on to large bodies
		proxy.Dwn.Body = nil
""")]
demo='''
func TestDemo(t *testing.T) {
	g := demoStart(t, nil, func(n int, w http.ResponseWriter, r *http.Request) {
		if n == 1 {
			w.WriteHeader(503)
			return
		}
		w.Write([]byte("ok"))
	})
	g.do(t, "PUT", "/api/x", "", "payload")
	if g.count() != 2 || g.seen[0].body != "payload" || g.seen[1].body != "payload" {
		t.Fatalf("upstream saw %v", g.seen)
	}
}
'''
