package j8a

import (
	"net/http"
	"strconv"
)

func init() {
	vfHarness["Errors"] = vfH_Errors
	vfHarness["ClientErrors"] = vfH_ClientErrors
	vfHarness["Method"] = vfH_Method
	vfHarness["About"] = vfH_About
	vfHarness["StatusMap"] = vfH_StatusMap
}

// every error the gateway raises itself, for clients with and without gzip, with and without TLS.
func vfH_Errors() {
	kind := vfChoice("kind", 7)
	m := vfMethods[vfChoice("method", len(vfMethods))]
	uri := "/api"
	var body []byte
	c := &vfClient{script: []vfUp{{status: 200, body: []byte("ok")}}}
	g := vfGateway(c)
	if vfChoice("tls", 2) == 1 {
		g.Connection.Downstream.Mode = TLS
	}
	code := 0
	switch kind {
	case 0:
		m, code = "BREW", 400
	case 1:
		uri, code = "/nowhere", 404
	case 2:
		body, code = make([]byte, 70), 413
	case 3:
		g.Routes[0].Resource, code = "missing", 503
	case 4:
		c.script[0].fail, code = true, 502
	case 5:
		c.script[0].status, code = vfInt("status", 500, 999), 502
	case 6:
		g.Routes[0].Jwt, code = "j", 401
		g.Jwt["j"] = &Jwt{Name: "j", Alg: "HS256"}
	}
	req := vfRequest(m, uri, body)
	gz := vfAccept(req, len(vfAccepts))
	w := newVfWriter()
	proxyHandler(w, req)
	vfCover(strconv.Itoa(code))
	vfObsI("code", w.code)
	vfAssert("one-response", w.heads == 1)
	vfAssert("documented-code", w.code == code)
	if code != 502 {
		vfAssert("no-upstream-contact", len(c.seen) == 0)
	}
	ce := vfOne(w.sent, "Content-Encoding")
	b := w.body
	if d, ok := vfUnzip(b); ok {
		vfAssert("gzip-error-labelled", ce == "gzip")
		vfAssert("gzip-error-only-when-accepted", gz)
		b = d
	} else {
		vfAssert("plain-error-labelled", ce == "" || ce == "identity")
	}
	vfAssert("json-names-code", vfHasField(b, `"Code":`+strconv.Itoa(code)))
	vfAssert("json-message-not-empty", !vfHasField(b, `"Message":""`))
	vfAssert("json-server-id", vfHasField(b, `"ServerID":"vfid"`))
	vfAssert("content-type", vfOne(w.sent, "Content-Type") == "application/json")
	vfAssert("request-id", len(w.sent["X-Request-Id"]) == 1)
	vfAssert("server", len(w.sent["Server"]) == 1)
	cl := w.sent["Content-Length"]
	vfAssert("length-true-if-given", len(cl) == 0 || (len(cl) == 1 && (cl[0] == strconv.Itoa(len(w.body)))))
}

// upstream client errors are wrapped with the same code; the upstream body never leaks through.
func vfH_ClientErrors() {
	st := vfInt("status", 400, 499)
	n := vfChoice("n", 3)
	body := vfBytes("b", n)
	h := http.Header{"Content-Type": {"text/html"}, "X-Secret": {"s"}, "Content-Length": {"2"}}
	if vfChoice("upgz", 2) == 1 {
		body = vfZip(body)
		h["Content-Encoding"] = []string{"gzip"}
	}
	c := &vfClient{script: []vfUp{{status: st, hdr: h, body: body}}}
	g := vfGateway(c)
	g.Connection.Upstream.MaxAttempts = 2
	req := vfRequest("GET", "/api", nil)
	gz := vfAccept(req, len(vfAccepts))
	w := newVfWriter()
	proxyHandler(w, req)
	vfAssert("one-response", w.heads == 1)
	vfAssert("one-attempt", len(c.seen) == 1)
	vfAssert("same-code", w.code == st)
	vfAssert("content-type", vfOne(w.sent, "Content-Type") == "application/json")
	ce := vfOne(w.sent, "Content-Encoding")
	b := w.body
	if d, ok := vfUnzip(b); ok {
		vfCover("gzip")
		vfAssert("gzip-error-labelled", ce == "gzip")
		vfAssert("gzip-error-only-when-accepted", gz)
		b = d
	} else {
		vfCover("plain")
		vfAssert("plain-error-labelled", ce == "" || ce == "identity")
	}
	code := 400
	for code < 499 && st != code {
		code++
	}
	vfAssert("json-names-code", vfHasField(b, `"Code":`+strconv.Itoa(code)))
	vfAssert("json-message-not-empty", !vfHasField(b, `"Message":""`) && !vfHasField(b, `"Message":"none"`))
}

// method names: only the legal eight reach an upstream, in upper case.
func vfH_Method() {
	n := 3 + vfChoice("n", 5)
	m := vfStr("m", n)
	for i := 0; i < n; i++ {
		vfAssume(vfOr(vfAnd(m[i] >= 'A', m[i] <= 'Z'), vfAnd(m[i] >= 'a', m[i] <= 'z'), m[i] == '-', m[i] == '_'))
	}
	legal := ""
	for _, l := range vfMethods {
		if len(l) == n {
			eq := true
			for i := 0; i < n; i++ {
				eq = vfAnd(eq, vfOr(m[i] == l[i], m[i] == l[i]+32))
			}
			if eq {
				legal = l
				break
			}
		}
	}
	c := &vfClient{script: []vfUp{{status: 200, body: []byte("ok")}}}
	vfGateway(c)
	w := newVfWriter()
	proxyHandler(w, vfRequest(m, "/api", nil))
	vfAssert("one-response", w.heads == 1)
	if legal == "" {
		vfCover("illegal")
		vfAssert("illegal-method-never-forwarded", len(c.seen) == 0)
		vfAssert("illegal-method-400", w.code == 400)
	} else {
		vfCover("legal")
		vfAssert("legal-method-forwarded", len(c.seen) == 1)
		if len(c.seen) == 1 {
			vfAssert("method-name", c.seen[0].method == legal)
		}
	}
}

// the about endpoint.
func vfH_About() {
	c := &vfClient{}
	g := vfGateway(c)
	tls := vfChoice("tls", 2) == 1
	if tls {
		g.Connection.Downstream.Mode = TLS
	}
	m := vfMethods[vfChoice("method", len(vfMethods))]
	var body []byte
	if vfChoice("body", 2) == 1 {
		body = []byte("some body")
	}
	req := vfRequest(m, "/about", body)
	gz := vfAccept(req, len(vfAccepts))
	id := ""
	if vfChoice("id", 2) == 1 {
		id = vfStr("xid", 2)
		vfAssume(vfAnd(id[0] > ' ', id[0] < 127, id[1] > ' ', id[1] < 127))
		req.Header["X-Request-Id"] = []string{id}
	}
	w := newVfWriter()
	vfAssert("no-panic", !vfCatch(func() { aboutHandler(w, req) }))
	vfAssert("one-response", w.heads == 1)
	vfAssert("ok", w.code == 200)
	vfAssert("no-upstream-contact", len(c.seen) == 0)
	vfAssert("content-type", vfOne(w.sent, "Content-Type") == "application/json")
	vfAssert("content-length", vfOne(w.sent, "Content-Length") == strconv.Itoa(len(w.body)))
	b := w.body
	if vfOne(w.sent, "Content-Encoding") == "gzip" {
		vfCover("gzip")
		vfAssert("gzip-only-when-accepted", gz)
		d, ok := vfUnzip(b)
		vfAssert("decodable", ok)
		b = d
	} else {
		vfCover("plain")
	}
	vfAssert("server-id", vfHasField(b, `"ServerID":"vfid"`))
	vfAssert("version", vfHasField(b, `"Version":"`+Version+`"`))
	vfAssert("server", len(w.sent["Server"]) == 1)
	vfAssert("hsts", (len(w.sent["Strict-Transport-Security"]) == 1) == tls)
	if id != "" {
		vfAssert("id-echoed", vfVals(w.sent["X-Request-Id"], []string{id}))
	} else {
		vfAssert("id-present", len(w.sent["X-Request-Id"]) == 1)
	}
}

// any final upstream status maps to exactly one documented outcome.
func vfH_StatusMap() {
	st := vfStatus("status")
	c := &vfClient{script: []vfUp{{status: st, body: []byte("hi"), hdr: http.Header{"X-Up": {"1"}}}}}
	vfGateway(c)
	m := []string{"GET", "POST"}[vfChoice("method", 2)]
	w := newVfWriter()
	proxyHandler(w, vfRequest(m, "/api", nil))
	vfAssert("one-response", w.heads == 1)
	if st < 400 && st > 99 {
		vfCover("passed")
		vfAssert("passed-status", w.code == st)
		vfAssert("passed-body", vfSame(w.body, []byte("hi")))
		vfAssert("passed-headers", vfVals(w.sent["X-Up"], []string{"1"}))
	} else if st < 500 && st > 99 {
		vfCover("client-error")
		vfAssert("client-error-status", w.code == st)
		vfAssert("client-error-json", vfOne(w.sent, "Content-Type") == "application/json")
	} else {
		vfCover("server-error")
		vfAssert("server-error-502", w.code == 502)
		vfAssert("server-error-json", vfOne(w.sent, "Content-Type") == "application/json")
		vfAssert("server-error-body-not-leaked", !vfSame(w.body, []byte("hi")))
	}
}
