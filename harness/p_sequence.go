package j8a

import (
	"net/http"
	"strings"
	"time"
)

func init() {
	vfHarness["Sequence"] = vfH_Sequence
}

const vfKinds = 20

// vfAct is one exchange of a given kind: all that can be told about it from outside.
type vfAct struct {
	w    *vfWriter
	seen []*vfSent
	// what was asked for
	method, path string
}

// vfRun runs an exchange of a kind; v is what is particular about it.
func vfRun(c *vfClient, kind int, v []byte, tok, bad string, rich bool) *vfAct {
	c.seen, c.script, c.bodies = nil, nil, nil
	up := vfUp{status: 200, body: v[:2], hdr: http.Header{"X-Up": {string(v[:1])}}}
	m, uri := "GET", "/api/x?q=1"
	var body []byte
	hdr := http.Header{"X-Mine": {string(v[1:2])}, "X-Request-Id": {"id"}}
	if rich {
		hdr["Content-Type"] = []string{"text/plain"}
		hdr["If-None-Match"] = []string{"x"}
		hdr["Cookie"] = []string{"a=" + string(v[:1])}
		hdr["User-Agent"] = []string{"curl"}
		hdr["X-Request-Debug"] = []string{"true"}
		hdr["Accept-Encoding"] = []string{"gzip"}
		up.hdr["Content-Type"] = []string{"text/html"}
		up.hdr["Etag"] = []string{string(v[1:2])}
		up.hdr["Cache-Control"] = []string{"max-age=60"}
		up.hdr["Set-Cookie"] = []string{"b=2", "c=" + string(v[:1])}
		up.hdr["X-Request-Id"] = []string{"other"}
	}
	switch kind {
	case 1:
		m, body = "POST", v[:2]
	case 2:
		uri = "/tt/x"
	case 3:
		m, body = "PUT", v[:1]
		c.script = []vfUp{{status: 503, body: []byte("no"), hdr: http.Header{"X-Up": {"503"}}}}
	case 4:
		up.status = 404
		up.hdr["Content-Encoding"] = []string{"gzip"}
		up.body = vfZip(v[:2])
	case 5:
		m, body = "POST", append([]byte("too long"), v...)
	case 6:
		uri = "/nowhere"
	case 7:
		m = "PATCH"
	case 8:
		uri = "/jjj/x"
	case 9:
		uri = "/jjj/x"
		hdr["Authorization"] = []string{"Bearer " + tok}
	case 10:
		hdr["Accept-Encoding"] = []string{"gzip"}
	case 11:
		hdr["Accept-Encoding"] = []string{"gzip"}
		up.hdr["Content-Encoding"] = []string{"gzip"}
		up.body = vfZip(v[:2])
	case 12:
		m = "HEAD"
		up.hdr["Content-Length"] = []string{"5"}
		up.body = nil
	case 13:
		uri = "/about"
	case 14:
		up.hdrWait = time.Duration(9) * time.Second
		c.script = []vfUp{up}
	case 15:
		m = "POST"
		uri = "/pp/x"
		up.fail = true
		body = v[:1]
	case 16:
		hdr["Accept-Encoding"] = []string{"br, gzip"}
		up.hdr["Content-Encoding"] = []string{"br"}
		up.hdr["Set-Cookie"] = []string{"a=1", string(v[1:2])}
	case 17:
		m, body = "PUT", v[:2]
		uri = "/tt"
	case 18:
		c.script = []vfUp{{fail: true}}
		hdr["Accept-Encoding"] = []string{"gzip"}
		up.status = 302
		up.hdr["Location"] = []string{"/new"}
	case 19:
		uri = "/jjj/x"
		hdr["Authorization"] = []string{"Bearer " + bad}
		hdr["Accept-Encoding"] = []string{"gzip"}
	}
	for i := 0; i < 2; i++ {
		c.script = append(c.script, up)
	}
	r := vfRequest(m, uri, body)
	if kind == 17 {
		r.ContentLength = -1
	}
	for k, vs := range hdr {
		r.Header[k] = vs
	}
	w := newVfWriter()
	vfServer.Handler.ServeHTTP(w, r)
	a := &vfAct{w: w, seen: c.seen, method: m, path: strings.Split(uri, "?")[0]}
	time.Sleep(20 * time.Second)
	return a
}

func vfSeqBoot() *vfClient {
	cfg := vfConfig()
	cfg.Connection.Upstream.MaxAttempts = 2
	cfg.Connection.Upstream.ReadTimeoutSeconds = 2
	cfg.Connection.Downstream.RoundTripTimeoutSeconds = 6
	cfg.Connection.Downstream.MaxBodyBytes = 8
	cfg.Jwt = map[string]*Jwt{"j": {Alg: "HS256", Key: "secret-0"}}
	cfg.Policies = map[string]Policy{"p": {{Label: "b", Weight: 1}}}
	cfg.Resources["l"] = []ResourceMapping{{Labels: []string{"a"}, URL: URL{Scheme: "http", Host: "a.example", Port: 1}}, {Labels: []string{"b"}, URL: URL{Scheme: "http", Host: "b.example", Port: 2}}}
	cfg.Routes = Routes{{Path: "/api", Resource: "r"}, {Path: "/tt", Resource: "r", Transform: "/new"}, {Path: "/jjj", Resource: "r", Jwt: "j"},
		{Path: "/about", Resource: "about"}, {Path: "/pp", Resource: "l", Policy: "p"}}
	vfAssert("starts", vfBoot(cfg))
	c := &vfClient{}
	httpClient = c
	return c
}

// an exchange goes as it would on a gateway that has just started, whatever was handled before it.
func vfH_Sequence() {
	last := vfChoice("last", vfKinds)
	before := []int{vfChoice("before", vfKinds)}
	if vfTier() == 1 {
		before = append(before, vfChoice("between", vfKinds))
	}
	rich := vfChoice("rich", 2) == 1
	v := [][]byte{vfBytes("last", 2), vfBytes("same", 2), vfBytes("before", 2)}
	for _, b := range v {
		for _, x := range b {
			vfAssume(vfAnd(x > 32, x < 127))
		}
	}
	t := &vfTok{alg: "HS256", keys: []int{0}, hasExp: true, exp: time.Now().Unix() + 36000}
	tok := vfMint(t)
	bad := vfMint(&vfTok{alg: "HS256", keys: []int{1}, hasExp: true, exp: time.Now().Unix() + 36000})
	c := vfSeqBoot()
	var want, got *vfAct
	vfVirtual(func() { want = vfRun(c, last, v[0], tok, bad, !rich) })
	c = vfSeqBoot()
	vfVirtual(func() {
		vfRun(c, last, v[1], tok, bad, rich)
		for _, k := range before {
			vfRun(c, k, v[2], tok, bad, rich)
		}
		got = vfRun(c, last, v[0], tok, bad, !rich)
	})
	vfCover("compared")
	vfAssert("same-number-of-requests", len(want.seen) == len(got.seen))
	for i, s := range got.seen {
		o := want.seen[i]
		vfAssert("same-request", s.method == o.method && s.url == o.url && s.host == o.host && s.nobody == o.nobody)
		vfAssert("same-request-body", vfSame(s.body, o.body))
		vfSameHeader("same-request-header", s.hdr, o.hdr)
	}
	vfAssert("one-response", got.w.heads == 1 && want.w.heads == 1)
	vfAssert("same-status", got.w.code == want.w.code)
	gb, wb := got.w.body, want.w.body
	if vfOne(want.w.sent, "Content-Type") == "application/json" {
		// the slogan changes as it likes
		if vfOne(want.w.sent, "Content-Encoding") == "gzip" {
			gb, _ = vfUnzip(gb)
			wb, _ = vfUnzip(wb)
		}
		gb, wb = vfNoSlogan(gb), vfNoSlogan(wb)
		delete(got.w.sent, "Content-Length")
		delete(want.w.sent, "Content-Length")
	}
	vfSameHeader("same-response-header", got.w.sent, want.w.sent)
	vfAssert("same-response-body", vfSame(gb, wb))
}

func vfSameHeader(tag string, a, b http.Header) {
	vfAssert(tag, len(a) == len(b))
	for k, vs := range a {
		vfAssert(tag, vfVals(vs, b[k]))
	}
}

func vfNoSlogan(b []byte) []byte {
	s := string(b)
	i := strings.Index(s, `"j8a":"`)
	if i < 0 {
		return b
	}
	i += 7
	return []byte(s[:i] + s[i+strings.IndexByte(s[i:], '"'):])
}
