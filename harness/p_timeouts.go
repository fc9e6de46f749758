package j8a

import (
	"errors"
	"time"
)

func init() {
	vfHarness["Timeouts"] = func() { vfVirtual(vfH_Timeouts) }
	vfHarness["SlowUpload"] = func() { vfVirtual(vfH_SlowUpload) }
	vfHarness["LateUpload"] = func() { vfVirtual(vfH_LateUpload) }
}

// every attempt takes any time for headers and body; neither an attempt nor the exchange takes longer than allowed.
func vfH_Timeouts() {
	A := 1 + vfChoice("attempts", 2+vfTier())
	// the limits never coincide
	k := vfChoice("limits", 4)
	R := []int{2, 2, 3, 3}[k]
	T := []int{1, 5, 2, 4}[k]
	rd, td := time.Duration(R)*time.Second, time.Duration(T)*time.Second
	m := []string{"GET", "PUT", "POST"}[vfChoice("method", 3)]
	c := &vfClient{}
	g := vfGateway(c)
	g.Connection.Upstream.MaxAttempts = A
	g.Connection.Upstream.ReadTimeoutSeconds = R
	g.Connection.Downstream.RoundTripTimeoutSeconds = T
	type att struct {
		kind int
		dur  time.Duration
		ok   bool
		code int
	}
	var as []att
	for i := 0; i < A; i++ {
		// 0 connection error, 1 body breaks off, 2 server error, 3 fine, 4 client error
		a := att{kind: vfChoice("outcome", 5)}
		h := vfTicks("header", 14)
		b := time.Duration(0)
		if a.kind != 0 && a.kind != 2 {
			b = vfTicks("body", 14)
		}
		a.dur = h + b
		a.ok = a.kind > 2
		u := vfUp{fail: a.kind == 0, status: []int{0, 200, 503, 201, 404}[a.kind], hdrWait: h, bodWait: b, body: []byte("abc")}
		if a.kind == 1 {
			u.bodyErr = errors.New("reset")
		}
		a.code = u.status
		c.script = append(c.script, u)
		as = append(as, a)
	}
	w := newVfWriter()
	start := time.Now()
	req := vfRequest(m, "/api/x", []byte("p"))
	if A == 1 && m == "PUT" {
		// the limits are the same for everybody
		switch vfChoice("kind", 6) {
		case 1:
			g.Connection.Downstream.MaxBodyBytes = 1 << 30
			req = vfRequest(m, "/api/x", vfFill(nil, 70000))
		case 2:
			req.Header["Accept"] = []string{"text/event-stream"}
		case 3:
			req.Header["X-Request-Debug"] = []string{"true"}
			req.Header["Connection"] = []string{"Upgrade"}
			req.Header["Upgrade"] = []string{"websocket"}
		case 4:
			req.Proto, req.ProtoMajor, req.ProtoMinor = "HTTP/2.0", 2, 0
			req.Header["Keep-Alive"] = []string{"timeout=60"}
			req.Header["Prefer"] = []string{"wait=60"}
		case 5:
			req.Header["Range"] = []string{"bytes=0-"}
			req.Header["Expect"] = []string{"100-continue"}
			req.Header["X-Request-Timeout"] = []string{"60"}
		}
	}
	proxyHandler(w, req)
	took := time.Since(start)
	n := len(c.seen)
	vfObsI("attempts", n)
	vfObsI("code", w.code)
	vfAssert("answered-in-time", took <= td)
	vfAssert("one-response", w.heads == 1)
	vfAssert("within-attempts", n >= 1 && n <= A)
	if n < 1 || n > A {
		return
	}
	for i, s := range c.seen {
		at := s.at.Sub(start)
		vfAssert("no-attempt-after-the-round-trip-time", at < td)
		if i > 0 {
			vfAssert("attempt-limited", s.at.Sub(c.seen[i-1].at) <= rd)
			vfAssert("no-retry-after-success", vfNot(vfAnd(as[i-1].ok, as[i-1].dur < rd)))
		}
	}
	last := as[n-1]
	at := c.seen[n-1].at.Sub(start)
	late := vfOr(last.dur > rd, at+last.dur > td)
	if vfAnd(last.ok, vfNot(late)) {
		vfCover("answered")
		vfAssert("upstream-status", w.code == last.code)
		if last.kind == 3 {
			vfAssert("upstream-body", string(w.body) == "abc")
		}
		vfAssert("no-delay", took == at+last.dur || !vfSymbolic())
	} else if late {
		vfCover("late")
		vfJSONError("late", w, 504, false)
		vfAssert("attempt-cancelled", c.seen[n-1].over())
	} else {
		vfCover("failed")
		vfJSONError("failed", w, 502, false)
	}
	if n < A && vfRepeatable(m) && !(last.ok && vfNot(late)) {
		vfCover("out-of-time")
		vfAssert("gives-up-early-only-out-of-time", took >= td)
	}
	if !vfRepeatable(m) {
		vfAssert("unsafe-method-attempted-once", n == 1)
	}
	time.Sleep(rd + td)
	vfAssert("nothing-later", len(c.seen) == n && w.heads == 1)
	for _, s := range c.seen {
		vfAssert("attempts-end", s.over())
	}
}

// the time spent receiving the request counts.
func vfH_SlowUpload() {
	T := 2
	td := time.Duration(T) * time.Second
	c := &vfClient{}
	g := vfGateway(c)
	g.Connection.Downstream.RoundTripTimeoutSeconds = T
	c.script = []vfUp{{status: 200, body: []byte("abc")}}
	r := vfRequest([]string{"PUT", "POST"}[vfChoice("method", 2)], "/api/x", []byte("p"))
	up := vfTicks("upload", 14)
	b := &vfBody{data: []byte("pq"), chunk: 1, delay: up}
	r.Body = b
	r.ContentLength = -1
	h := vfTicks("header", 14)
	c.script[0].hdrWait = h
	w := newVfWriter()
	vfSched()
	proxyHandler(w, r)
	time.Sleep(time.Millisecond)
	if up+h < td {
		vfCover("in-time")
		vfAssert("passed", w.code == 200 && len(c.seen) == 1)
	} else {
		vfCover("out-of-time")
		vfJSONError("late", w, 504, false)
		if up > td {
			vfAssert("nothing-contacted", len(c.seen) == 0)
		}
	}
}

// an upload that took too long contacts nothing, however the gateway's goroutines are scheduled.
func vfH_LateUpload() {
	T := 2
	td := time.Duration(T) * time.Second
	c := &vfClient{}
	g := vfGateway(c)
	g.Connection.Downstream.RoundTripTimeoutSeconds = T
	c.script = []vfUp{{status: 200, body: []byte("abc")}}
	r := vfRequest([]string{"PUT", "POST"}[vfChoice("method", 2)], "/api/x", []byte("p"))
	up := vfTicks("upload", 14)
	vfAssume(up > td+5<<29)
	r.Body = &vfBody{data: []byte("pq"), chunk: 1, delay: up}
	r.ContentLength = -1
	w := newVfWriter()
	vfDelays(1, 4)
	proxyHandler(w, r)
	time.Sleep(20 * time.Second)
	vfCover("late")
	vfJSONError("late", w, 504, false)
	vfAssert("late-nothing-contacted", len(c.seen) == 0)
}
