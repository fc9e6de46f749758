prop='C01'
needs='an upstream that keeps timing out'
breaks='attempts that timed out are not counted, so a request is attempted more often than configured'
edits=[('proxy.go',
  '\tproxy.Up.Atmpts = append(proxy.Up.Atmpts, next)\n',
  '\tif proxy.Up.Atmpt.AbortedFlag {\n\t\t//upstream never answered\n\t\tnext.Count = proxy.Up.Atmpt.Count\n\t}\n\tproxy.Up.Atmpts = append(proxy.Up.Atmpts, next)\n')]
imports='net/http testing time'
demo=r'''
func TestDemo(t *testing.T) {
	g := demoStart(t, func(r *Runtime) {
		r.Connection.Upstream.MaxAttempts = 2
		r.Connection.Upstream.ReadTimeoutSeconds = 1
		r.Connection.Downstream.RoundTripTimeoutSeconds = 6
	}, func(n int, w http.ResponseWriter, r *http.Request) {
		time.Sleep(3 * time.Second)
	})
	g.do(t, "GET", "/api/x", "", "")
	if g.count() != 2 {
		t.Fatalf("upstream saw %d requests", g.count())
	}
}
'''
