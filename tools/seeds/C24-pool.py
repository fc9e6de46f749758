prop='C24'
needs='more than two idle connections to one upstream host'
breaks='the number of idle connections per host is not set, so only two per host are kept whatever the pool size'
edits=[('httpclient.go', '\t\t\tMaxIdleConnsPerHost: runtime.Connection.Upstream.PoolSize,\n', '')]
imports='net/http testing'
demo=r'''
func TestDemo(t *testing.T) {
	demoStart(t, nil, func(n int, w http.ResponseWriter, r *http.Request) {})
	if n := httpClient.(*http.Client).Transport.(*http.Transport).MaxIdleConnsPerHost; n != 64 {
		t.Fatalf("idle connections per host %d", n)
	}
}
'''
