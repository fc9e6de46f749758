prop='C29'
needs='two requests for the same transformed route at the same time'
breaks="the transformed target is kept in the route, which all requests share, so one request can be sent to another's target"
edits=[('route.go', '\tJwt       string\n}', '\tJwt       string\n\ttarget    *string\n}'), ('config.go', '\t\tconfig.Routes[i].PathRegex, err = regexp.Compile("^" + route.Path)', '\t\tconfig.Routes[i].target = new(string)\n\t\tconfig.Routes[i].PathRegex, err = regexp.Compile("^" + route.Path)'), ('proxy.go', '\t\turi = proxy.Up.Atmpt.URL.String() + path', '\t\tif proxy.Route.target != nil {\n\t\t\t*proxy.Route.target = path\n\t\t\tlog.Trace().Str(XRequestID, proxy.XRequestID).Msg("target transformed")\n\t\t\tpath = *proxy.Route.target\n\t\t}\n\t\turi = proxy.Up.Atmpt.URL.String() + path')]
imports='net/http net/http/httptest strconv sync testing'
demo=r'''
func TestDemo(t *testing.T) {
	var mu sync.Mutex
	bad := ""
	g := demoStart(t, func(r *Runtime) { r.Routes[0].Transform = "/v2" }, func(n int, w http.ResponseWriter, r *http.Request) {
		if "/v2/"+r.Header.Get("Want") != r.RequestURI {
			mu.Lock()
			bad = r.RequestURI
			mu.Unlock()
		}
	})
	_ = g
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			for k := 0; k < 4000; k++ {
				n := strconv.Itoa(i*10000 + k)
				w := httptest.NewRecorder()
				r := httptest.NewRequest("GET", "/api/"+n, nil)
				r.Header.Set("Want", n)
				proxyHandler(w, r)
			}
		}(i)
	}
	wg.Wait()
	if bad != "" {
		t.Fatalf("sent to %v", bad)
	}
}
'''
