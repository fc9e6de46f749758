prop='C34'
needs='an IPv4 address that ends in 100 to 109'
breaks='the log names another address'
edits=[('iprex.go', '"((25[0-5]|(2[0-4]|1{0,1}[0-9]){0,1}[0-9])\\\\.){3,3}(25[0-5]|(2[0-4]|1{0,1}[0-9]){0,1}[0-9])")\n\t\tipr.ipv4 = r', '"((25[0-5]|(2[0-4]|1{0,1}[0-9]){0,1}[0-9])\\\\.){3,3}(25[0-5]|2[0-4][0-9]|1[1-9][0-9]|[1-9]{0,1}[0-9])")\n\t\tipr.ipv4 = r')]
imports='bytes github.com/rs/zerolog github.com/rs/zerolog/log net/http net/http/httptest strings testing'
demo=r'''
func TestDemo(t *testing.T) {
	var buf bytes.Buffer
	demoStart(t, nil, func(n int, w http.ResponseWriter, r *http.Request) {})
	zerolog.SetGlobalLevel(zerolog.InfoLevel)
	log.Logger = zerolog.New(&buf)
	r := httptest.NewRequest("GET", "/api/x", nil)
	r.RemoteAddr = "192.168.7.104:4711"
	proxyHandler(httptest.NewRecorder(), r)
	if !strings.Contains(buf.String(), `"192.168.7.104"`) {
		t.Fatalf("logged %s", buf.String())
	}
}
'''
