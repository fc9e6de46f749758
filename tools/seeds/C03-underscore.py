prop='C03'
needs='a header with an underscore in its name'
breaks='the upstream does not get it'
edits=[('proxyhandler.go','		if shouldProxyHeader(key) {\n			for _, value := range values {\n				upstreamRequest','		if shouldProxyHeader(key) && !strings.Contains(key, "_") {\n			for _, value := range values {\n				upstreamRequest')]
imports='net/http testing'
demo=r'''
func TestDemo(t *testing.T) {
	seen := ""
	g := demoStart(t, nil, func(n int, w http.ResponseWriter, r *http.Request) {
		seen = r.Header.Get("X_tenant")
	})
	g.do(t, "GET", "/api/x", "X_tenant: v\r\n", "")
	if seen != "v" {
		t.Fatalf("upstream saw %q", seen)
	}
}
'''
