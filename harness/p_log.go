package j8a

import (
	"errors"
	"net/http"
	"time"
)

func init() {
	vfHarness["Record"] = func() { vfVirtual(vfH_Record) }
	vfHarness["RecordLong"] = vfH_RecordLong
	vfHarness["RecordKinds"] = vfH_RecordKinds
	vfHarness["Secrets"] = vfH_Secrets
	vfHarness["SecretsBoot"] = vfH_SecretsBoot
}

// vfRecord is the access record of the one exchange since vfLogCapture; -1 if there is none or more than one.
func vfRecord() int {
	n, at := 0, -1
	for i := 0; i < vfLogLen(); i++ {
		if vfLogHas(i, "dwnResCode") {
			n++
			at = i
		}
	}
	vfAssert("one-record", n == 1)
	if n != 1 {
		return -1
	}
	return at
}

func vfTrueRecord(r int, w *vfWriter, m, path, id string, c []*vfSent, up []vfUp) {
	vfAssert("level", vfLogLevel(r) == "info" && w.code < 400 || vfLogLevel(r) == "warn" && w.code >= 400)
	vfAssert("status-as-sent", vfLogI(r, "dwnResCode") == w.code)
	vfAssert("method", vfLogS(r, "dwnReqMethod") == m)
	vfAssert("path", vfEqS(vfLogS(r, "dwnReqPath"), path))
	vfAssert("request-id", vfEqS(vfLogS(r, "X-Request-Id"), id))
	vfAssert("tls", vfLogHas(r, "dwnTlsVer") == vfTLSMode())
	n := len(c)
	if n > 0 && !up[n-1].fail && up[n-1].hdrWait == 0 {
		vfAssert("upstream-recorded", vfLogHas(r, "upReqURI"))
	}
	if !vfLogHas(r, "upReqURI") {
		vfAssert("no-upstream", !vfLogHas(r, "upAtmptResCode"))
		return
	}
	vfCover("upstream")
	vfAssert("upstream-was-contacted", n > 0)
	if n > 0 {
		vfAssert("upstream-target", vfEqS(vfLogS(r, "upReqURI"), c[n-1].url))
		vfAssert("upstream-status", vfLogI(r, "upAtmptResCode") == up[n-1].status)
	}
}

// every exchange, whatever its circumstances, leaves one record that says what happened.
func vfH_Record() {
	vfLogCapture()
	e := vfExchange()
	r := vfRecord()
	if r < 0 {
		return
	}
	path := e.uri
	for i := 0; i < len(path); i++ {
		if path[i] == '?' {
			path = path[:i]
			break
		}
	}
	vfTrueRecord(r, e.w, e.m, path, e.id, e.c.seen, e.c.script)
	if e.passed {
		vfAssert("upstream-recorded", vfLogHas(r, "upReqURI"))
	}
}

// nothing in the record is cut short.
func vfH_RecordLong() {
	vfLogCapture()
	n := []int{200, 300, 600, 1100, 5000, 20000}[vfChoice("size", 6)]
	tail := vfStr("tail", 2)
	vfAssume(vfAnd(tail[0] >= 'a', tail[0] <= 'z', tail[1] >= 'a', tail[1] <= 'z'))
	long := string(vfFill(nil, n)) + tail
	path, id := "/api/x", "id"
	c := &vfClient{script: []vfUp{{status: 200, body: []byte("abc")}}}
	switch vfChoice("outcome", 3) {
	case 1:
		c.script[0] = vfUp{status: 404}
	case 2:
		c.script[0] = vfUp{fail: true}
	}
	vfGateway(c)
	what := vfChoice("what", 4)
	switch what {
	case 0:
		path = "/api/" + long
	case 1:
		path = "/none/" + long
	case 2:
		id = long
	}
	r := vfRequest("POST", path+"?q=1", nil)
	r.Header["X-Request-Id"] = []string{id}
	if what == 3 {
		r.Header["User-Agent"] = []string{long}
	}
	w := newVfWriter()
	proxyHandler(w, r)
	if at := vfRecord(); at >= 0 {
		vfCover("recorded")
		vfTrueRecord(at, w, "POST", path, id, c.seen, c.script)
	}
}

// so does every kind of exchange, also those that never reach an upstream.
func vfH_RecordKinds() {
	kind := vfChoice("kind", vfKinds)
	rich := vfChoice("rich", 2) == 1
	v := vfBytes("v", 2)
	vfAssume(vfAnd(v[0] > 32, v[0] < 127, v[1] > 32, v[1] < 127))
	t := &vfTok{alg: "HS256", keys: []int{0}, hasExp: true, exp: time.Now().Unix() + 36000}
	bad := &vfTok{alg: "HS256", keys: []int{1}, hasExp: true, exp: time.Now().Unix() + 36000}
	tok, no := vfMint(t), vfMint(bad)
	c := vfSeqBoot()
	vfVirtual(func() {
		vfLogCapture()
		a := vfRun(c, kind, v, tok, no, rich)
		r := vfRecord()
		if r < 0 {
			return
		}
		vfCover("recorded")
		vfTrueRecord(r, a.w, a.method, a.path, "id", a.seen, c.script)
	})
}

// nothing confidential is ever logged, at whatever level.
func vfH_Secrets() {
	mark := func(label, p string) string {
		b := vfBytes(label, 1)
		vfAssume(vfAnd(b[0] >= 'a', b[0] <= 'z'))
		return p + string(b) + "#"
	}
	body, answer, cookie, set := mark("body", "Qz7#body"), mark("answer", "Qz7#answer"), mark("cookie", "Qz7#cookie"), mark("set", "Qz7#set")
	t := &vfTok{alg: "HS256", keys: []int{0}, hasExp: true, exp: time.Now().Unix() + 36000*int64(1-2*vfChoice("expired", 2))}
	if vfChoice("forged", 2) == 1 {
		t.keys = []int{1}
	}
	tok := vfMint(t)
	if vfChoice("garbage", 2) == 1 {
		tok = mark("token", "Qz7#token")
	}
	vfLogCapture()
	vfLogBoot = true
	c := vfSeqBoot()
	vfLogBoot = false
	uri := []string{"/api/x", "/jjj/x", "/nowhere", "/about", "/tt/x"}[vfChoice("target", 5)]
	m := []string{"GET", "PUT", "PATCH"}[vfChoice("method", 3)]
	vfVirtual(func() {
		up := vfUp{status: 200, body: []byte(answer), hdr: http.Header{"Set-Cookie": {set}}}
		bad := up
		switch vfChoice("outcome", 5) {
		case 1:
			up.status = 404
		case 2:
			bad.status = 503
			c.script = append(c.script, bad)
		case 3:
			bad.bodyErr = errors.New("reset")
			c.script = append(c.script, bad)
		case 4:
			bad.hdrWait = 9 * time.Second
			c.script = append(c.script, bad)
		}
		c.script = append(c.script, up)
		c.seen = nil
		r := vfRequest(m, uri, []byte(body)[:8])
		if vfChoice("large", 2) == 1 {
			r = vfRequest(m, uri, []byte(body))
		}
		r.Header["Authorization"] = []string{"Bearer " + tok}
		r.Header["Cookie"] = []string{cookie}
		r.Header["Proxy-Authorization"] = []string{"Bearer " + tok}
		r.Header["X-Auth-Token"] = []string{tok}
		if vfChoice("debug", 2) == 1 {
			r.Header["X-Request-Debug"] = []string{"true"}
		}
		vfServer.Handler.ServeHTTP(newVfWriter(), r)
		time.Sleep(20 * time.Second)
	})
	vfCover("over")
	vfAssert("body-kept-back", !vfLogLeaks(body[:8]))
	vfAssert("answer-kept-back", !vfLogLeaks(answer))
	vfAssert("cookie-kept-back", !vfLogLeaks(cookie))
	vfAssert("set-cookie-kept-back", !vfLogLeaks(set))
	vfAssert("token-kept-back", !vfLogLeaks(tok))
	vfAssert("key-kept-back", !vfLogLeaks("secret-0"))
}

// nor is a key while starting, whether that succeeds or not.
func vfH_SecretsBoot() {
	b := vfBytes("key", 2)
	vfAssume(vfAnd(b[0] >= 'a', b[0] <= 'z', b[1] >= 'a', b[1] <= 'z'))
	jwt, key := "Qz7#jwt"+string(b[:1])+"#", "Qz7#key"+string(b[1:])+"#"
	cfg := vfConfig()
	cfg.Jwt = map[string]*Jwt{"j": {Alg: []string{"HS256", "HS512", "RS256", "XY"}[vfChoice("alg", 4)], Key: jwt}}
	cfg.Routes[0].Jwt = []string{"", "j", "k"}[vfChoice("ref", 3)]
	if vfChoice("tls", 2) == 1 {
		cfg.Connection.Downstream.Mode = TLS
		cfg.Connection.Downstream.Cert = "-----BEGIN CERTIFICATE-----"
	}
	cfg.Connection.Downstream.Key = key
	vfLogCapture()
	vfLogBoot = true
	if vfBoot(cfg) {
		vfCover("started")
	} else {
		vfCover("refused")
	}
	vfLogBoot = false
	vfAssert("jwt-key-kept-back", !vfLogLeaks(jwt))
	vfAssert("tls-key-kept-back", !vfLogLeaks(key))
}
