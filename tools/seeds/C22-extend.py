prop='C22'
needs='a slow attempt that is repeated until the round trip time is up'
breaks='the round trip timeout starts again with every repeated attempt'
edits=[('proxy.go', '\tproxy.Up.Count = next.Count\n', '\tproxy.Up.Count = next.Count\n\tctx, cancel := context.WithTimeout(context.TODO(), Runner.getDownstreamRoundTripTimeoutDuration())\n\tproxy.Dwn.Aborted = ctx.Done()\n\ttime.AfterFunc(Runner.getDownstreamRoundTripTimeoutDuration(), cancel)\n')]
imports='net/http testing time'
demo=r'''
func TestDemo(t *testing.T) {
	g := demoStart(t, func(r *Runtime) {
		r.Connection.Upstream.MaxAttempts = 3
		r.Connection.Upstream.ReadTimeoutSeconds = 1
		r.Connection.Downstream.RoundTripTimeoutSeconds = 2
	}, func(n int, w http.ResponseWriter, r *http.Request) {
		time.Sleep(1500 * time.Millisecond)
	})
	at := time.Now()
	g.do(t, "GET", "/api/x", "", "")
	if time.Since(at) > 2500*time.Millisecond {
		t.Fatalf("took %v", time.Since(at))
	}
}
'''
