prop='C12'
needs='a request target that starts with two slashes'
breaks='the target is resolved like a link against the upstream, so it can name another host'
edits=[('proxy.go', '	uri := proxy.Up.Atmpt.URL.String() + proxy.Dwn.URI\n', '	uri := proxy.Up.Atmpt.URL.String() + proxy.Dwn.URI\n	if base, err := url.Parse(proxy.Up.Atmpt.URL.String()); err == nil {\n		if ref, err := base.Parse(proxy.Dwn.URI); err == nil {\n			uri = ref.String()\n		}\n	}\n'),
('proxy.go','	"net/http"\n','	"net/http"\n	"net/url"\n')]
imports='testing'
demo=r'''
func TestDemo(t *testing.T) {
	p := &Proxy{Route: &Route{Path: "/"}}
	p.Dwn.URI = "//evil.example/x"
	p.Up.Atmpt = &Atmpt{URL: &URL{"http", "up.example", 80}}
	if u := p.resolveUpstreamURI(); u != "http://up.example:80//evil.example/x" {
		t.Fatalf("upstream target %v", u)
	}
}
'''
