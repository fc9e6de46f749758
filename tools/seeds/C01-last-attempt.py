prop="C01"
needs="a repeatable request, three or more attempts allowed and an attempt cut off without a response before another one fails"
breaks="attempts that got no response are not counted, so a request can be attempted more often than configured"
edits=[("proxy.go","""		Count:          proxy.Up.Atmpt.Count + 1,
		StatusCode:     0,""","""		Count:          proxy.countedAttempts() + 1,
		StatusCode:     0,"""),
("proxy.go","""func (proxy *Proxy) nextAttempt() *Proxy {
""","""//countedAttempts are those that reached an upstream, or at least one
func (proxy *Proxy) countedAttempts() int {
	n := 0
	for _, atmpt := range proxy.Up.Atmpts {
		if atmpt.resp != nil || atmpt.Count > 1 {
			n++
		}
	}
	if n == 0 {
		n = 1
	}
	return n
}

func (proxy *Proxy) nextAttempt() *Proxy {
""")]
imports="net net/http testing"
demo='''
func TestDemo(t *testing.T) {
	g := demoStart(t, nil, func(n int, w http.ResponseWriter, r *http.Request) {
		if n == 1 {
			c, _, _ := w.(http.Hijacker).Hijack()
			c.(*net.TCPConn).SetLinger(0)
			c.Close()
			return
		}
		w.WriteHeader(503)
	})
	httpClient.(*http.Client).Transport.(*http.Transport).DisableKeepAlives = true
	g.do(t, "GET", "/api/x", "", "")
	if g.count() != 3 {
		t.Fatalf("attempts: %d", g.count())
	}
}
'''
