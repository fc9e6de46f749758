prop='C30'
needs='a client that rules gzip out and accepts something else with gzip in its name'
breaks='the about page is gzipped for clients whose Accept-Encoding lists any quality value for something else than gzip first'
edits=[('responses.go','	ae := r.Header["Accept-Encoding"]','	ae := strings.Split(r.Header.Get("Accept-Encoding"), ";q=0")[:1]')]
imports='net/http net/http/httptest testing'
demo=r'''
func TestDemo(t *testing.T) {
	Runner = &Runtime{Config: *new(Config).setDefaultDownstreamParams()}
	r := httptest.NewRequest(http.MethodGet, "/about", nil)
	r.Header.Set("Accept-Encoding", "identity, gzip;q=0")
	w := httptest.NewRecorder()
	aboutHandler(w, r)
	if ce := w.Header().Get("Content-Encoding"); ce != "identity" {
		t.Fatalf("content encoding %v", ce)
	}
}
'''
