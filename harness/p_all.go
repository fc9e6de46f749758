package j8a

import (
	"errors"
	"net/http"
	"strconv"
	"strings"
	"time"
)

func init() {
	vfHarness["AllAttempts"] = func() { vfVirtual(vfH_AllAttempts) }
	vfHarness["AllSame"] = func() { vfVirtual(vfH_AllSame) }
	vfHarness["AllReqHeaders"] = func() { vfVirtual(vfH_AllReqHeaders) }
	vfHarness["AllRespHeaders"] = func() { vfVirtual(vfH_AllRespHeaders) }
	vfHarness["AllBody"] = func() { vfVirtual(vfH_AllBody) }
	vfHarness["AllLength"] = func() { vfVirtual(vfH_AllLength) }
	vfHarness["AllStatus"] = func() { vfVirtual(vfH_AllStatus) }
	vfHarness["AllErrors"] = func() { vfVirtual(vfH_AllErrors) }
	vfHarness["AllUpload"] = func() { vfVirtual(vfH_AllUpload) }
	vfHarness["AllID"] = func() { vfVirtual(vfH_AllID) }
}

// vfAll is one exchange in any circumstances: any method, any class of outcome for each of two attempts, served with
// or without TLS, over different protocol versions, with and without gzip.
type vfAll struct {
	c               *vfClient
	w               *vfWriter
	req             *http.Request
	m, uri, target  string
	token           string
	rq, rs          []byte
	hv, uv          []string
	id              string
	want            int // attempts
	code            int
	passed, gz, tls bool
	label           string // content encoding of the upstream
	length          string // declared by the upstream
	empty           bool
}

// vfAllGuard protects the route and gives a token that opens it.
var vfAllGuard func(g *Runtime) string

const vfHang = 10 * time.Minute

var vfAllMethods = []string{"GET", "HEAD", "OPTIONS", "TRACE", "PUT", "DELETE", "POST", "CONNECT", "get", "post"}

func vfPadStr(s string) string { return string(vfPad([]byte(s))) }

func vfExchange() *vfAll {
	vfVaried()
	e := &vfAll{c: &vfClient{}, w: newVfWriter()}
	g := vfGateway(e.c)
	e.tls = vfTLSMode()
	g.Connection.Upstream.MaxAttempts = 2
	g.Connection.Upstream.ReadTimeoutSeconds = 2
	g.Connection.Downstream.MaxBodyBytes = 1 << 30
	e.m = vfAllMethods[vfChoice("method", len(vfAllMethods))]
	up := e.m
	if up == "get" {
		up = "GET"
	} else if up == "post" {
		up = "POST"
	}
	e.gz = vfChoice("gzip", 2) == 1
	e.rq = vfPad(vfBytes("rq", 2))
	e.rs = vfBytes("rs", 2)
	vfAssume(vfOr(e.rs[0] != 0x1f, e.rs[1] != 0x8b))
	e.rs = vfPad(e.rs)
	v := vfBytes("hv", 2)
	for _, b := range v {
		vfAssume(vfOr(vfAnd(b > 0x20, b < 0x7f), b >= 0x80))
	}
	// values of several words, an empty one, any bytes a header may contain
	e.hv = []string{vfPadStr(string(v[:1]) + "\t " + string(v[1:]) + ", x;q=1"), "", string(v)}
	e.uv = []string{string(v[1:]) + " =" + string(v[:1]), vfPadStr(string(v)), "", string(v[:1])}
	e.hv, e.uv = vfPadVals(e.hv), vfPadVals(e.uv)
	e.id = vfStr("id", 2)
	vfPrintable(e.id)
	e.id = vfPadStr(e.id)
	if n := len(vfMinedStrs); n > 0 {
		if i := vfChoice("mined.id", 1+n); i > 0 && vfNameable(vfMinedStrs[i-1]) {
			e.id = vfMinedStrs[i-1] + e.id
		}
	}
	tail := vfStr("tail", 1)
	vfAssume(vfAnd(tail[0] >= 'a', tail[0] <= 'z'))
	e.uri = "/api/" + tail + "/api?a=" + tail + "&b"
	if n := len(vfMinedStrs); n > 0 {
		if i := vfChoice("mined.uri", 1+2*n); i > n {
			vfAssume(!strings.ContainsAny(vfMinedStrs[i-n-1], "#"))
			e.uri = "/api/" + tail + "?" + vfMinedStrs[i-n-1] + "=1"
		} else if i > 0 {
			vfAssume(vfURIable(vfMinedStrs[i-1]))
			e.uri = "/api/" + vfMinedStrs[i-1] + tail
		}
	}
	e.target = e.uri
	switch vfMined.variant {
	case 6:
		// by way of a policy and a transform
		g.Policies["p"] = Policy{{Label: "blue", Weight: 1}}
		g.Resources["r"] = []ResourceMapping{vfResource("other.example", 1, "green"), vfResource(vfHost, vfPort, "blue")}
		g.Routes[0].Policy, g.Routes[0].Transform = "p", "/tt"
		e.target = "/tt" + e.uri[4:]
	case 7:
		if vfAllGuard != nil {
			e.token = vfAllGuard(g)
		}
	}
	e.length = "12345678901"
	// outcomes of the first and second attempt
	sc := vfChoice("outcomes", 14)
	ups := [][]int{{0}, {1}, {2}, {3}, {4}, {5, 0}, {6, 0}, {7, 0}, {8, 2}, {6, 6}, {7, 7}, {5, 7}, {7, 8}, {8, 4}}[sc]
	e.want = len(ups)
	if !vfRepeatable(up) {
		e.want = 1
	}
	for i, k := range ups {
		u := vfUp{status: 200, body: e.rs, hdr: http.Header{"X-Up": e.uv, "Content-Type": {"text/plain"}, "Server": {"up"}, "Date": {"d"}, "Content-Length": {e.length},
			"Transfer-Encoding": {"chunked"}, "X-Request-Id": {"zz"}}}
		ok, code := true, 200
		switch k {
		case 1:
			u.body = nil
			e.empty = true
		case 2:
			u.status, code = 307, 307
			u.hdr["Location"] = []string{"http://elsewhere.example/"}
		case 3:
			u.status, code = 404, 404
			u.hdr["Content-Encoding"] = []string{"gzip"}
			u.body = []byte("secret")
		case 4:
			u.status, code = 429, 429
			u.hdr["Retry-After"] = []string{"1"}
			u.body = []byte("secret")
		case 5:
			u.status, ok = 503, false
			u.body = []byte("secret")
			code = 502
		case 6:
			u.fail, ok = true, false
			code = 502
		case 7:
			u.hdrWait, ok = vfHang, false
			code = 504
		case 8:
			u.bodyErr, ok = errors.New("reset"), false
			u.body = []byte("secret")
			code = 502
		}
		if up == "HEAD" && k != 8 {
			u.body = nil
			e.empty = true
		}
		e.c.script = append(e.c.script, u)
		if i+1 == e.want {
			e.code = code
			e.passed = ok && code < 400
		}
	}
	r := vfRequest(e.m, e.uri, e.rq)
	r.Header["X-Req"] = e.hv
	r.Header["Date"] = []string{"d"}
	r.Header["Server"] = []string{"s"}
	r.Header["Content-Length"] = []string{strconv.Itoa(len(e.rq))}
	r.Header["X-Request-Id"] = []string{e.id}
	if e.token != "" {
		r.Header["Authorization"] = []string{"Bearer " + e.token}
	}
	if e.gz {
		r.Header["Accept-Encoding"] = []string{"br, gzip"}
	}
	switch vfMined.variant {
	case 1:
		// length not told
		r.ContentLength = -1
		delete(r.Header, "Content-Length")
	case 5:
		r.ContentLength, r.TransferEncoding = -1, []string{"chunked"}
		delete(r.Header, "Content-Length")
	}
	e.req = r
	proxyHandler(e.w, r)
	e.m = up
	vfObsI("code", e.w.code)
	vfObsI("attempts", len(e.c.seen))
	if e.passed {
		vfCover("passed")
	} else {
		vfCover("failed")
	}
	return e
}

func vfH_AllAttempts() {
	e := vfExchange()
	vfAssert("attempts", len(e.c.seen) == e.want)
	vfAssert("one-response", e.w.heads == 1)
}

func vfH_AllSame() {
	e := vfExchange()
	for _, s := range e.c.seen {
		vfAssert("same-method", s.method == e.m)
		vfAssert("same-target", vfEqS(s.url, "http://up.example:8081"+e.target))
		vfAssert("whole-body", vfSame(s.body, e.rq))
	}
}

func vfH_AllReqHeaders() {
	e := vfExchange()
	n := 2
	if e.gz {
		n++
	}
	if x := vfExtra(); x.where == 1 {
		n++
		if vfMined.variant == 3 && x.name == "X-Request-Debug" || vfMined.variant == 5 && x.name == "User-Agent" {
			n--
		}
	}
	if v := vfMined.variant; v == 3 || v == 5 || e.token != "" {
		n++
	}
	for _, s := range e.c.seen {
		vfAssert("values-unchanged", vfVals(s.hdr["X-Req"], e.hv))
		vfAssert("reserved-kept-back", len(s.hdr["Date"])+len(s.hdr["Server"])+len(s.hdr["Content-Length"])+len(s.hdr["Transfer-Encoding"]) == 0)
		vfAssert("nothing-added-nothing-lost", len(s.hdr) == n)
		for k, v := range e.req.Header {
			if !vfIsHeld(k) {
				vfAssert("header-unchanged", vfVals(s.hdr[k], v))
			}
		}
	}
}

func vfIsHeld(k string) bool {
	return k == "Date" || k == "Content-Length" || k == "Transfer-Encoding" || k == "Server"
}

func vfH_AllRespHeaders() {
	e := vfExchange()
	h := e.w.sent
	vfAssert("one-response", e.w.heads == 1)
	sv := h["Server"]
	vfAssert("own-server-header", len(sv) == 1 && len(sv[0]) > 3 && sv[0][:3] == "j8a")
	sts := h["Strict-Transport-Security"]
	if e.tls {
		vfAssert("hsts-on-tls", len(sts) == 1 && sts[0] == "max-age=31536000")
	} else {
		vfAssert("no-hsts-without-tls", len(sts) == 0)
	}
	if !e.passed || len(e.c.seen) == 0 {
		return
	}
	vfAssert("values-unchanged", vfVals(h["X-Up"], e.uv))
	for k, v := range e.c.script[len(e.c.seen)-1].hdr {
		if !vfIsHeld(k) && k != "X-Request-Id" && k != "Content-Encoding" {
			vfAssert("header-unchanged", vfVals(h[k], v))
		}
	}
	vfAssert("reserved-kept-back", len(h["Date"])+len(h["Transfer-Encoding"]) == 0)
}

func vfH_AllBody() {
	e := vfExchange()
	if !e.passed || e.m == "HEAD" || e.m == "CONNECT" {
		return
	}
	b, ok := e.w.body, true
	switch l := vfOne(e.w.sent, "Content-Encoding"); {
	case l == "gzip" && len(b) > 0:
		vfCover("gzip")
		vfAssert("gzip-only-when-accepted", e.gz)
		b, ok = vfUnzip(b)
		vfAssert("gzip-label-true", ok)
	case len(b) > 0:
		vfAssert("label", l == "" || l == "identity")
	}
	if e.empty {
		vfAssert("empty-stays-empty", len(b) == 0)
	} else {
		vfAssert("body-faithful", vfSame(b, e.rs))
	}
}

func vfH_AllLength() {
	e := vfExchange()
	if !e.passed || e.m == "CONNECT" {
		return
	}
	cl := e.w.sent["Content-Length"]
	vfAssert("one-content-length", len(cl) == 1)
	if len(cl) == 1 {
		if e.m == "HEAD" {
			vfAssert("head-keeps-upstream-length", cl[0] == e.length && len(e.w.body) == 0)
		} else {
			vfAssert("length-is-body-length", cl[0] == strconv.Itoa(len(e.w.body)))
		}
	}
}

func vfContains(b []byte, s string) bool {
	for i := 0; i+len(s) <= len(b); i++ {
		if string(b[i:i+len(s)]) == s {
			return true
		}
	}
	return false
}

func vfH_AllStatus() {
	e := vfExchange()
	vfAssert("one-response", e.w.heads == 1)
	vfAssert("code", e.w.code == e.code)
	if e.passed {
		return
	}
	b := e.w.body
	if vfOne(e.w.sent, "Content-Encoding") == "gzip" {
		b, _ = vfUnzip(b)
	}
	vfAssert("json", vfHasField(b, `"Code":`+strconv.Itoa(e.code)))
	vfAssert("upstream-body-kept-back", !vfContains(b, "secret"))
}

func vfH_AllErrors() {
	e := vfExchange()
	if e.passed {
		return
	}
	vfJSONError("error", e.w, e.code, e.gz)
	ce := vfOne(e.w.sent, "Content-Encoding")
	vfAssert("gzip-only-when-accepted", ce != "gzip" || e.gz)
	vfAssert("error-names-request-id", vfVals(e.w.sent["X-Request-Id"], []string{e.id}))
	vfAssert("no-upstream-headers", len(e.w.sent["X-Up"])+len(e.w.sent["Retry-After"])+len(e.w.sent["Location"]) == 0)
}

func vfH_AllUpload() {
	e := vfExchange()
	vfAssert("accepted", len(e.c.seen) > 0)
	if len(e.c.seen) > 0 {
		vfAssert("forwarded-whole", vfSame(e.c.seen[0].body, e.rq))
	}
}

func vfH_AllID() {
	e := vfExchange()
	vfAssert("response-carries-the-id-once", vfVals(e.w.sent["X-Request-Id"], []string{e.id}))
	for _, s := range e.c.seen {
		vfAssert("upstream-carries-same-id", vfVals(s.hdr["X-Request-Id"], []string{e.id}))
	}
}
