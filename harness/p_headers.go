package j8a

import "net/http"

func init() {
	vfHarness["ReqHeaders"] = vfH_ReqHeaders
	vfHarness["ReqHeaderName"] = vfH_ReqHeaderName
	vfHarness["RespHeaders"] = vfH_RespHeaders
	vfHarness["RespHeaderName"] = vfH_RespHeaderName
	vfHarness["RequestID"] = vfH_RequestID
}

var vfReserved = []string{"Date", "Content-Length", "Transfer-Encoding", "Server"}

func vfIsReserved(k string) bool {
	for _, r := range vfReserved {
		if k == r {
			return true
		}
	}
	return false
}

// vfHeaderName is an arbitrary canonical header name of n letters.
func vfHeaderName(label string, n int) string {
	k := vfStr(label, n)
	for i := 0; i < n; i++ {
		if i == 0 {
			vfAssume(vfAnd(k[i] >= 'A', k[i] <= 'Z'))
		} else {
			vfAssume(vfAnd(k[i] >= 'a', k[i] <= 'z'))
		}
	}
	return k
}

var vfNames = []string{"Accept", "Accept-Encoding", "Authorization", "Connection", "Content-Type", "Cookie", "Host", "If-Match", "Origin", "Range",
	"Te", "Trailer", "Upgrade", "User-Agent", "Via", "X-Forwarded-For", "X-Request-Debug", "X-Custom", "Server-Timing", "Date-Range", "Content-Length-X", "Servers", "Set-Cookie",
	"Date", "Content-Length", "Transfer-Encoding", "Server"}

// two request headers, arbitrary values, up to two values each, on every attempt.
func vfH_ReqHeaders() {
	c := &vfClient{}
	g := vfGateway(c)
	g.Connection.Upstream.MaxAttempts = 2
	if vfChoice("retry", 2) == 1 {
		c.script = []vfUp{{fail: true}, {status: 200}}
	} else {
		c.script = []vfUp{{status: 200}}
	}
	req := vfRequest("GET", "/api", nil)
	k := vfNames[vfChoice("name", len(vfNames))]
	nv := 1 + vfChoice("values", 2)
	var vals []string
	for i := 0; i < nv; i++ {
		s := vfStr("val", vfChoice("len", 3))
		vfPrintable(s)
		vals = append(vals, s)
	}
	req.Header[k] = vals
	req.Header["X-Other"] = []string{"o"}
	w := newVfWriter()
	proxyHandler(w, req)
	vfAssert("attempts", len(c.seen) == len(c.script))
	for _, s := range c.seen {
		if vfIsReserved(k) {
			vfCover("reserved")
			vfAssert("reserved-header-not-forwarded", len(s.hdr[k]) == 0)
		} else {
			vfCover("forwarded")
			vfAssert("header-forwarded-unchanged", vfVals(s.hdr[k], vals))
		}
		vfAssert("other-header-forwarded", vfVals(s.hdr["X-Other"], []string{"o"}))
		vfAssert("one-request-id", len(s.hdr["X-Request-Id"]) == 1)
		n := 2
		if !vfIsReserved(k) {
			n = 3
		}
		if e := vfExtra(); e.where == 1 && e.name != k {
			n++
		}
		vfAssert("nothing-added", len(s.hdr) == n)
	}
}

// an arbitrary header name.
func vfH_ReqHeaderName() {
	c := &vfClient{script: []vfUp{{status: 200}}}
	vfGateway(c)
	req := vfRequest("GET", "/api", nil)
	k := vfHeaderName("name", 4+2*vfChoice("len", 2+vfTier()))
	v := vfStr("val", 1)
	vfPrintable(v)
	req.Header[k] = []string{v}
	w := newVfWriter()
	proxyHandler(w, req)
	vfAssert("attempts", len(c.seen) == 1)
	if len(c.seen) == 1 {
		got := c.seen[0].hdr[k]
		if vfIsReserved(k) {
			vfCover("reserved")
			vfAssert("reserved-header-not-forwarded", len(got) == 0)
		} else {
			vfCover("forwarded")
			vfAssert("header-forwarded-unchanged", vfVals(got, []string{v}))
		}
	}
}

// response header forwarding for passed responses.
func vfH_RespHeaders() {
	tls := vfChoice("tls", 2) == 1
	k := vfNames[vfChoice("name", len(vfNames))]
	nv := 1 + vfChoice("values", 2)
	var vals []string
	for i := 0; i < nv; i++ {
		s := vfStr("val", vfChoice("len", 3))
		vfPrintable(s)
		vals = append(vals, s)
	}
	st := vfInt("status", 200, 399)
	c := &vfClient{script: []vfUp{{status: st, hdr: http.Header{k: vals, "X-Other": {"o"}}, body: []byte("hi")}}}
	g := vfGateway(c)
	if tls {
		g.Connection.Downstream.Mode = TLS
	}
	w := newVfWriter()
	proxyHandler(w, vfRequest("GET", "/api", nil))
	vfAssert("one-response", w.heads == 1)
	vfAssert("status", w.code == st)
	switch {
	case k == "Server":
		vfCover("server")
		sv := w.sent["Server"]
		vfAssert("own-server-header", len(sv) == 1 && len(sv[0]) >= 3 && sv[0][:3] == "j8a")
	case k == "Content-Length":
		vfAssert("own-content-length", vfVals(w.sent[k], []string{"2"}) || (st == 204 && vfVals(w.sent[k], []string{"0"})))
	case vfIsReserved(k):
		vfCover("reserved")
		vfAssert("reserved-header-not-copied", len(w.sent[k]) == 0)
	default:
		vfCover("copied")
		vfAssert("header-copied-unchanged", vfVals(w.sent[k], vals))
	}
	vfAssert("other-header-copied", vfVals(w.sent["X-Other"], []string{"o"}))
	sv := w.sent["Server"]
	vfAssert("server-present-once", len(sv) == 1)
	sts := w.sent["Strict-Transport-Security"]
	if tls {
		vfAssert("hsts-on-tls", len(sts) == 1 && sts[0] == "max-age=31536000")
	} else {
		vfAssert("no-hsts-without-tls", len(sts) == 0)
	}
	vfAssert("request-id-echoed", len(w.sent["X-Request-Id"]) == 1)
}

func vfH_RespHeaderName() {
	k := vfHeaderName("name", 4+2*vfChoice("len", 2+vfTier()))
	v := vfStr("val", 1)
	vfPrintable(v)
	c := &vfClient{script: []vfUp{{status: 200, hdr: http.Header{k: {v}}, body: []byte("hi")}}}
	vfGateway(c)
	w := newVfWriter()
	proxyHandler(w, vfRequest("GET", "/api", nil))
	got := w.sent[k]
	if vfIsReserved(k) {
		vfCover("reserved")
		vfAssert("reserved-header-not-copied", !(len(got) == 1 && vfEqS(got[0], v)) || len(got) == 0)
	} else {
		vfCover("copied")
		vfAssert("header-copied-unchanged", vfVals(got, []string{v}))
	}
}

// one request id per exchange, the same everywhere, whatever the client and upstream send.
func vfH_RequestID() {
	in := vfChoice("sent", 3)
	echo := vfChoice("echo", 2) == 1
	oc := vfChoice("outcome", 4)
	id := ""
	req := vfRequest("GET", "/api", nil)
	if in > 0 {
		id = vfStr("id", in)
		vfPrintable(id)
		req.Header["X-Request-Id"] = []string{id}
	}
	h := http.Header{}
	if echo {
		h["X-Request-Id"] = []string{vfStr("upid", 2)}
		vfPrintable(h["X-Request-Id"][0])
	}
	c := &vfClient{}
	g := vfGateway(c)
	g.Connection.Upstream.MaxAttempts = 2
	switch oc {
	case 0:
		c.script = []vfUp{{status: 200, hdr: h, body: []byte("hi")}}
	case 1:
		c.script = []vfUp{{fail: true}, {status: 200, hdr: h, body: []byte("hi")}}
	case 2:
		c.script = []vfUp{{status: 404, hdr: h}}
	case 3:
		c.script = []vfUp{{status: 503, hdr: h}, {fail: true}}
	}
	w := newVfWriter()
	proxyHandler(w, req)
	got := w.sent["X-Request-Id"]
	vfAssert("response-carries-one-id", len(got) == 1)
	vfAssert("attempts", len(c.seen) == len(c.script))
	if len(got) != 1 {
		return
	}
	if in > 0 {
		vfCover("client-id")
		vfAssert("client-id-kept", vfEqS(got[0], id))
	} else {
		vfCover("fresh-id")
		vfAssert("fresh-id", len(got[0]) > 8)
	}
	for _, s := range c.seen {
		vfAssert("upstream-carries-same-id", vfVals(s.hdr["X-Request-Id"], got))
	}
}
