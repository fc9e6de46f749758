prop='C23'
needs='an attempt that comes back after it was abandoned, while the next one is under way'
breaks="a late answer of an abandoned attempt is stored in the attempt that is current by then, so its headers may be sent with another attempt's body"
edits=[('proxyhandler.go', '\t\tatmpt.resp = upstreamResponse\n', '\t\tatmpt = proxy.Up.Atmpt\n\t\tatmpt.resp = upstreamResponse\n')]
imports='net/http testing time sync errors strconv io io/ioutil strings'
demo=r'''
type demoSlowClient struct{ mu sync.Mutex; n int }

func (c *demoSlowClient) Get(uri string) (*http.Response, error) { return nil, errors.New("no") }
func (c *demoSlowClient) Do(r *http.Request) (*http.Response, error) {
	c.mu.Lock()
	c.n++
	n := c.n
	c.mu.Unlock()
	resp := &http.Response{StatusCode: 200, Header: http.Header{"N": {strconv.Itoa(n)}}, Body: ioutil.NopCloser(strings.NewReader("body"))}
	if n == 1 {
		time.Sleep(1500 * time.Millisecond)
		return resp, nil
	}
	time.Sleep(200 * time.Millisecond)
	pr, pw := io.Pipe()
	resp.Body = pr
	go func() {
		time.Sleep(600 * time.Millisecond)
		pw.Write([]byte("second"))
		pw.Close()
	}()
	return resp, nil
}

func TestDemo(t *testing.T) {
	g := demoStart(t, func(r *Runtime) { r.Connection.Upstream.ReadTimeoutSeconds = 1 }, func(n int, w http.ResponseWriter, r *http.Request) {})
	httpClient = &demoSlowClient{}
	r := g.do(t, "GET", "/api/x", "", "")
	if r.code != 200 || r.header.Get("N") != "2" || r.body != "second" {
		t.Fatalf("client saw %v", r)
	}
}
'''
