package j8a

import (
	"net/url"
	"strings"
)

func init() {
	vfHarness["Routes"] = vfH_Routes
	vfHarness["Transform"] = vfH_Transform
	vfHarness["Confine"] = vfH_Confine
}

var vfPaths = []string{"/", "/a", "a", "/ab", "/a/", "/a/b", "b"}

// vfURI is an arbitrary request target of n bytes after the given prefix that the HTTP server would accept.
func vfURI(prefix string, n int) string {
	s := vfStr("uri", n)
	for i := 0; i < n; i++ {
		vfAssume(vfAnd(s[i] > ' ', s[i] < 0x7f))
	}
	return prefix + s
}

// the longest configured path that is a prefix of the request target decides, whatever the order in the file.
func vfH_Routes() {
	k := 2 + vfChoice("routes", 2)
	cfg := vfConfig()
	cfg.Routes = nil
	cfg.Resources = map[string][]ResourceMapping{}
	hosts := []string{"up0", "up1", "up2"}
	var norm []string
	special := vfChoice("about", k+1)
	for i := 0; i < k; i++ {
		p := vfPaths[vfChoice("path", len(vfPaths))]
		np := p
		if np[0] != '/' {
			np = "/" + np
		}
		for _, o := range norm {
			vfAssume(o != np)
		}
		norm = append(norm, np)
		if i == special {
			//an about route takes part, at any place in the file
			vfAssume(np != "/")
			hosts[i] = about
			cfg.Routes = append(cfg.Routes, Route{Path: p, Resource: about})
			continue
		}
		cfg.Routes = append(cfg.Routes, Route{Path: p, Resource: hosts[i]})
		cfg.Resources[hosts[i]] = []ResourceMapping{vfResource(hosts[i], 80)}
	}
	c := &vfClient{script: []vfUp{{status: 200, body: []byte("ok")}}}
	httpClient = c
	vfAssert("boots", vfBoot(cfg))
	if vfServer == nil {
		return
	}
	uri := vfURI("/", vfChoice("n", 4))
	for i := 1; i < len(uri); i++ {
		vfAssume(vfOr(uri[i] == 'a', uri[i] == 'b', uri[i] == 'A', uri[i] == '/', uri[i] == 'c', uri[i] == '?', uri[i] == '.'))
	}
	want := ""
	best := 0
	for i := 0; i < k; i++ {
		if strings.HasPrefix(uri, norm[i]) && len(norm[i]) > best {
			best = len(norm[i])
			want = hosts[i]
		}
	}
	if want == about {
		return
	}
	w := newVfWriter()
	proxyHandler(w, vfRequest("GET", uri, nil))
	vfAssert("one-response", w.heads == 1)
	if best == 0 {
		vfCover("unmatched")
		vfAssert("unmatched-404", w.code == 404)
		vfAssert("unmatched-no-upstream", len(c.seen) == 0)
		return
	}
	vfCover("matched")
	vfAssert("matched-forwarded", len(c.seen) == 1)
	if len(c.seen) == 1 {
		vfObsS("host", c.seen[0].host)
		vfAssert("longest-path-wins", c.seen[0].host == want+":80")
	}
}

// the upstream sees the request target with the route path replaced, everything else untouched.
func vfH_Transform() {
	p := []string{"/api", "/api/", "/v1/x"}[vfChoice("path", 3)]
	tr := []string{"", "/", "/v2", "/v2/", "/api", "/very/long/one"}[vfChoice("transform", 6)]
	rest := ""
	escaped := false
	switch vfChoice("shape", 5) {
	case 0:
	case 4:
		// any escape sequence, in either case, in the path or in the query
		escaped = true
		h := vfStr("hex", 2)
		for i := 0; i < 2; i++ {
			vfAssume(vfOr(vfAnd(h[i] >= '0', h[i] <= '9'), vfAnd(h[i] >= 'A', h[i] <= 'F'), vfAnd(h[i] >= 'a', h[i] <= 'f')))
		}
		rest = []string{"/a%", "?a=%"}[vfChoice("where", 2)] + h + "b"
	case 1:
		rest = "?" + vfStr("q", 2)
		vfAssume(vfAnd(rest[1] >= '0', rest[1] <= 'z', rest[2] >= '0', rest[2] <= 'z'))
	case 2:
		rest = "/" + vfURI("", 2+vfTier())
	case 3:
		// the route path again, further on
		rest = "/x" + p
	}
	if p == "/api/" && len(rest) > 0 && rest[0] == '/' {
		rest = rest[1:]
	}
	for i := 0; i < len(rest); i++ {
		// characters a URL may carry as they are; the others are re-encoded and belong to the escaping property
		vfAssume(vfOr(vfAnd(escaped, rest[i] == '%'), rest[i] == '!', rest[i] == '$', rest[i] == 39, rest[i] == '(', rest[i] == ')', rest[i] == '*', rest[i] == '+', rest[i] == ',', rest[i] == ';',
			vfAnd(rest[i] >= '0', rest[i] <= '9'), vfAnd(rest[i] >= 'A', rest[i] <= 'Z'), vfAnd(rest[i] >= 'a', rest[i] <= 'z'),
			rest[i] == '/', rest[i] == '?', rest[i] == '.', rest[i] == '-', rest[i] == '_', rest[i] == '~', rest[i] == '=', rest[i] == '&', rest[i] == ':', rest[i] == '@'))
	}
	uri := p + rest
	cfg := vfConfig()
	cfg.Routes[0].Path = p
	cfg.Routes[0].Transform = tr
	c := &vfClient{script: []vfUp{{status: 200, body: []byte("ok")}}}
	httpClient = c
	vfAssert("boots", vfBoot(cfg))
	if vfServer == nil {
		return
	}
	w := newVfWriter()
	proxyHandler(w, vfRequest("GET", uri, nil))
	vfAssert("one-response", w.heads == 1)
	vfAssert("forwarded", len(c.seen) == 1)
	if len(c.seen) != 1 {
		return
	}
	want := uri
	if tr != "" {
		vfCover("transformed")
		want = tr + rest
		if tr == "/" {
			want = rest
			if len(rest) == 0 || rest[0] != '/' {
				want = "/" + rest
			}
		}
	} else {
		vfCover("untransformed")
	}
	u := c.seen[0].url
	const base = "http://up.example:8081"
	vfAssert("right-upstream", len(u) >= len(base) && u[:len(base)] == base)
	if len(u) >= len(base) {
		got := u[len(base):]
		if want == "" {
			want = "/"
		}
		if got == "" {
			got = "/"
		}
		vfAssert("upstream-target", vfEqS(got, want))
	}
}

// no request target can make the gateway talk to anything but the configured upstream, or crash it.
func vfH_Confine() {
	p := []string{"/", "/api", "/api/"}[vfChoice("path", 3)]
	tr := []string{"", "/", "/v2"}[vfChoice("transform", 3)]
	cfg := vfConfig()
	cfg.Routes[0].Path = p
	cfg.Routes[0].Transform = tr
	c := &vfClient{script: []vfUp{{status: 200, body: []byte("ok")}}}
	httpClient = c
	vfAssert("boots", vfBoot(cfg))
	if vfServer == nil {
		return
	}
	uri := p
	switch vfChoice("shape", 2) {
	case 0:
		uri = vfURI(p, 1+vfChoice("n", 2+vfTier()))
	case 1:
		uri = p + []string{"@evil.com/", "@evil.com", "//evil.com/", ".evil.com/x", ":99/", "/../x", "%2f%2fevil.com", "\\evil.com", "?@evil.com/", "/http://evil.com/"}[vfChoice("attack", 10)]
	}
	if _, err := url.ParseRequestURI(uri); err != nil {
		vfAssume(false)
	}
	w := newVfWriter()
	vfAssert("no-panic", !vfCatch(func() { proxyHandler(w, vfRequest("GET", uri, nil)) }))
	vfAssert("one-response", w.heads == 1)
	vfAssert("no-invalid-upstream-request", c.nilReq == 0)
	for _, s := range c.seen {
		vfCover("forwarded")
		vfAssert("upstream-host", s.host == "up.example:8081")
		vfAssert("upstream-scheme", s.scheme == "http")
		vfAssert("upstream-no-userinfo", strings.HasPrefix(s.url, "http://up.example:8081"))
	}
}
