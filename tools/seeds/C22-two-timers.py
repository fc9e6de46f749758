prop='C22'
needs='an upstream that sends headers and then its body slowly'
breaks='the read timeout starts anew when the headers are in, so an attempt may last almost twice as long'
edits=[('proxyhandler.go',
  '\tselect {\n\tcase <-proxy.Up.Atmpt.Aborted:\n\t\tproxy.Up.Atmpt.AbortedFlag = true\n\t\tscaffoldUpAttemptLog(proxy).\n\t\t\tInt("upReadTimeoutSecs", Runner.Connection.Upstream.ReadTimeoutSeconds).\n\t\t\tMsg("upstream connection read timeout fired, aborting upstream response body processing")\n',
  '\tselect {\n\tcase <-time.After(time.Duration(Runner.Connection.Upstream.ReadTimeoutSeconds) * time.Second):\n\t\tproxy.Up.Atmpt.CancelFunc()\n\t\tproxy.Up.Atmpt.AbortedFlag = true\n\t\tscaffoldUpAttemptLog(proxy).\n\t\t\tInt("upReadTimeoutSecs", Runner.Connection.Upstream.ReadTimeoutSeconds).\n\t\t\tMsg("upstream connection read timeout fired, aborting upstream response body processing")\n'),
 ('proxyhandler.go',
  '\ttime.AfterFunc(time.Duration(Runner.Connection.Upstream.ReadTimeoutSeconds)*time.Second, func() {\n\t\tcancel()\n\t})\n',
  '\tatmpt := proxy.Up.Atmpt\n\ttime.AfterFunc(time.Duration(Runner.Connection.Upstream.ReadTimeoutSeconds)*time.Second, func() {\n\t\tif atmpt.resp == nil {\n\t\t\tcancel()\n\t\t}\n\t})\n')]
imports='net/http testing time'
demo=r'''
func TestDemo(t *testing.T) {
	g := demoStart(t, func(r *Runtime) {
		r.Connection.Upstream.MaxAttempts = 1
		r.Connection.Upstream.ReadTimeoutSeconds = 2
	}, func(n int, w http.ResponseWriter, r *http.Request) {
		time.Sleep(1500 * time.Millisecond)
		w.WriteHeader(200)
		w.(http.Flusher).Flush()
		time.Sleep(1200 * time.Millisecond)
		w.Write([]byte("late"))
	})
	r := g.do(t, "GET", "/api/x", "", "")
	if r.code != 504 {
		t.Fatalf("client saw %v", r)
	}
}
'''
