prop='C27'
needs='an upstream answer with an error status'
breaks='its body is never closed and the connection is lost'
edits=[('proxyhandler.go',
  '\tif upstreamResponse != nil && upstreamResponse.Body != nil {\n',
  '\tif upstreamResponse != nil && upstreamResponse.StatusCode < 500 && upstreamResponse.Body != nil {\n')]
imports='io net/http strings sync/atomic testing'
demo=r'''
type demoBody struct {
	io.Reader
	closed *int32
}

func (b demoBody) Close() error { atomic.AddInt32(b.closed, 1); return nil }

type demoClient struct{ closed int32 }

func (c *demoClient) Get(uri string) (*http.Response, error) { return nil, nil }
func (c *demoClient) Do(r *http.Request) (*http.Response, error) {
	return &http.Response{StatusCode: 503, Header: http.Header{}, Body: demoBody{strings.NewReader("x"), &c.closed}}, nil
}

func TestDemo(t *testing.T) {
	g := demoStart(t, func(r *Runtime) { r.Connection.Upstream.MaxAttempts = 1 }, nil)
	c := &demoClient{}
	httpClient = c
	g.do(t, "GET", "/api/x", "", "")
	if atomic.LoadInt32(&c.closed) == 0 {
		t.Fatal("body not closed")
	}
}
'''
