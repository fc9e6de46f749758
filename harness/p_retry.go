package j8a

import "errors"

func init() {
	vfHarness["Retry"] = vfH_Retry
	vfHarness["RetryMany"] = vfH_RetryMany
	vfHarness["SameRequest"] = vfH_SameRequest
	vfHarness["SameUpstream"] = vfH_SameUpstream
	vfHarness["RetryLate"] = func() { vfVirtual(vfH_RetryLate) }
}

// every outcome of every attempt for every method and attempt limit.
func vfH_Retry() {
	maxA := 1 + vfChoice("max", 3+vfTier())
	m := vfMethods[vfChoice("method", len(vfMethods))]
	c := &vfClient{}
	g := vfGateway(c)
	g.Connection.Upstream.MaxAttempts = maxA
	if maxA == 2 || vfTier() > 0 {
		vfFaults()
	}
	type kind struct {
		ok, client bool
		status     int
		body       []byte
	}
	var ks []kind
	for i := 0; i < maxA; i++ {
		// 0 connection error, 1 body read error, 2 status only, 3 status and body
		k := vfChoice("outcome", 4)
		u := vfUp{fail: k == 0}
		kd := kind{}
		if k > 0 {
			u.status = vfStatus("status")
			kd.status = u.status
			if k == 1 {
				u.body = []byte{'x'}
				u.bodyErr = errors.New("reset")
			}
			if k == 3 {
				u.body = vfBytes("body", 2)
				vfAssume(u.body[0] != 0x1f)
			}
			kd.body = u.body
			if k > 1 {
				kd.ok = u.status < 500 && u.status > 99
				kd.client = u.status >= 400
			}
		}
		c.script = append(c.script, u)
		ks = append(ks, kd)
		if kd.ok {
			break
		}
	}
	req := vfRequest(m, "/api/x?q=1", []byte("payload"))
	w := newVfWriter()
	proxyHandler(w, req)

	n := len(c.seen)
	vfObsI("attempts", n)
	vfObsI("code", w.code)
	vfAssert("at-least-one-attempt", n >= 1)
	vfAssert("within-limit", n <= maxA)
	vfAssert("no-attempt-after-success", c.extra == 0)
	if !vfRepeatable(m) {
		vfCover("unrepeatable")
		vfAssert("unsafe-method-attempted-once", n == 1)
	} else {
		want := len(ks)
		vfAssert("failed-repeatable-is-retried", n == want)
		if n > 1 {
			vfCover("retried")
		}
	}
	vfAssert("one-response", w.heads == 1)
	for i := 0; i < n && i < len(ks); i++ {
		vfAssert("same-method", c.seen[i].method == m)
		vfAssert("same-uri", c.seen[i].url == "http://up.example:8081/api/x?q=1")
		vfAssert("whole-body-each-attempt", vfSame(c.seen[i].body, []byte("payload")))
	}
	for _, b := range c.bodies {
		vfAssert("upstream-body-closed", b.closed > 0)
	}
	if n >= 1 && n <= len(ks) {
		l := ks[n-1]
		if l.ok && !l.client {
			vfCover("accepted")
			vfAssert("status-passed", w.code == l.status)
			vfAssert("body-passed", vfSame(w.body, l.body))
		} else if l.ok {
			vfCover("client-error")
			vfJSONError("4xx", w, l.status, false)
		} else {
			vfCover("failed")
			vfJSONError("failed", w, 502, false)
		}
	}
}

// what the upstream receives does not depend on how often it had to be asked.
func vfH_SameRequest() {
	maxA := 1 + vfChoice("max", 3+vfTier())
	fails := vfChoice("fails", maxA)
	m := vfMethods[vfChoice("method", len(vfMethods))]
	if !vfRepeatable(m) {
		fails = 0
	}
	c := &vfClient{}
	g := vfGateway(c)
	g.Connection.Upstream.MaxAttempts = maxA
	for i := 0; i < fails; i++ {
		switch vfChoice("how", 3) {
		case 0:
			c.script = append(c.script, vfUp{fail: true})
		case 1:
			c.script = append(c.script, vfUp{status: 503, body: []byte("down")})
		case 2:
			c.script = append(c.script, vfUp{status: 200, body: []byte("x"), bodyErr: errors.New("reset")})
		}
	}
	c.script = append(c.script, vfUp{status: 200})
	// either the target or the body varies
	tn, n, chunk, chunked := 0, 2, 0, false
	if vfChoice("vary", 2) == 0 {
		tn = 1 + vfChoice("tn", 2)
	} else {
		n = vfChoice("n", 4)
		if n > 0 {
			chunk = vfChoice("chunk", 3)
			chunked = vfChoice("chunked", 2) == 1
		}
	}
	tgt := vfStr("t", tn)
	for i := 0; i < len(tgt); i++ {
		vfAssume(vfOr(vfAnd(tgt[i] >= 'a', tgt[i] <= 'z'), tgt[i] == '/', tgt[i] == '?', tgt[i] == '='))
	}
	data := vfBytes("d", n)
	req := vfRequest(m, "/api"+tgt, data)
	if n > 0 {
		req.Body = &vfBody{data: data, chunk: chunk}
		if chunked {
			req.ContentLength = -1
		}
	}
	w := newVfWriter()
	proxyHandler(w, req)
	vfObsI("attempts", len(c.seen))
	vfAssert("attempts", len(c.seen) == fails+1)
	if len(c.seen) > 1 {
		vfCover("repeated")
	} else {
		vfCover("single")
	}
	for _, s := range c.seen {
		vfAssert("same-method", s.method == m)
		vfAssert("same-target", vfEqS(s.url, "http://up.example:8081/api"+tgt))
		vfAssert("whole-body", vfSame(s.body, data))
	}
	vfAssert("answered", w.heads == 1 && w.code == 200)
}

// a repetition goes where the first attempt went, whatever a policy or the order of upstreams might say by then.
func vfH_SameUpstream() {
	c := &vfClient{}
	g := vfGateway(c)
	A := 2 + vfChoice("more", 2)
	g.Connection.Upstream.MaxAttempts = A
	if vfChoice("policy", 2) == 1 {
		g.Policies["p"] = Policy{{Label: "a", Weight: 0.3}, {Label: "b", Weight: 0.7}}
		g.Routes[0].Policy = "p"
		g.Resources["r"] = []ResourceMapping{vfResource("x.up", 80), vfResource("a.up", 80, "a"), vfResource("b.up", 80, "b"), vfResource("b2.up", 80, "b")}
		vfRandSym()
	} else {
		g.Resources["r"] = []ResourceMapping{vfResource("x.up", 80), vfResource("a.up", 80), vfResource("b.up", 80, "b")}
	}
	for i := 1; i < A; i++ {
		switch vfChoice("how", 3) {
		case 0:
			c.script = append(c.script, vfUp{fail: true})
		case 1:
			c.script = append(c.script, vfUp{status: vfInt("status", 500, 599)})
		case 2:
			c.script = append(c.script, vfUp{status: 200, body: []byte("x"), bodyErr: errors.New("reset")})
		}
	}
	c.script = append(c.script, vfUp{status: 200})
	w := newVfWriter()
	proxyHandler(w, vfRequest([]string{"GET", "PUT"}[vfChoice("method", 2)], "/api/api", nil))
	vfAssert("attempts", len(c.seen) == A)
	vfCover("repeated")
	for _, s := range c.seen {
		vfAssert("same-upstream", s.url == c.seen[0].url)
	}
	vfObsI("code", w.code)
}

// however long a failed attempt took, within its limits, it is repeated.
func vfH_RetryLate() {
	c := &vfClient{}
	g := vfGateway(c)
	g.Connection.Upstream.MaxAttempts = 3
	g.Connection.Upstream.ReadTimeoutSeconds = 1 << 20
	g.Connection.Downstream.RoundTripTimeoutSeconds = 1 << 22
	for i := 0; i < 2; i++ {
		t := vfTicks("took", 1<<20)
		switch vfChoice("how", 3) {
		case 0:
			c.script = append(c.script, vfUp{fail: true, hdrWait: t})
		case 1:
			c.script = append(c.script, vfUp{status: 503, hdrWait: t})
		case 2:
			c.script = append(c.script, vfUp{status: 200, body: []byte("x"), bodyErr: errors.New("reset"), bodWait: t})
		}
	}
	u := vfUp{status: 200, hdrWait: vfTicks("took", 1<<20), body: []byte("abc")}
	c.script = append(c.script, u)
	w := newVfWriter()
	proxyHandler(w, vfRequest([]string{"GET", "DELETE"}[vfChoice("method", 2)], "/api/x", []byte("p")))
	vfCover("repeated")
	vfAssert("late-attempts-are-repeated", len(c.seen) == 3)
	vfAssert("answered", w.heads == 1 && w.code == 200 && string(w.body) == "abc")
}

// limits far beyond the usual ones are kept as exactly, and the last attempt is made like the first.
func vfH_RetryMany() {
	limits := []int{5, 9, 17, 33, 65, 101, 129}
	for _, n := range vfMinedInts {
		if n > 4 && n < 300 {
			limits = append(limits, n+1)
		}
	}
	L := limits[vfChoice("limit", len(limits))]
	last := vfChoice("last", 2) == 1 // the last one is answered
	how := vfChoice("how", 4)
	m := vfMethods[vfChoice("method", len(vfMethods))]
	c := &vfClient{}
	g := vfGateway(c)
	g.Connection.Upstream.MaxAttempts = L
	n := L
	if !vfRepeatable(m) {
		n = 1
	}
	for i := 0; i < n; i++ {
		u := vfUp{status: 503, body: []byte("down")}
		switch {
		case i == n-1 && last:
			u = vfUp{status: 200, body: []byte("fine")}
		case how == 0 || how == 3 && i%3 == 0:
			u = vfUp{fail: true}
		case how == 1 || how == 3 && i%3 == 1:
			u = vfUp{status: 200, body: []byte("x"), bodyErr: errors.New("reset")}
		}
		c.script = append(c.script, u)
	}
	id := vfStr("id", 2)
	vfAssume(vfAnd(id[0] > 0x20, id[0] < 0x7f, id[1] > 0x20, id[1] < 0x7f))
	req := vfRequest(m, "/api/x?q=1", []byte("payload"))
	req.Header.Set("X-Request-Id", id)
	req.Header.Set("X-Other", "value")
	w := newVfWriter()
	proxyHandler(w, req)
	vfObsI("attempts", len(c.seen))
	vfAssert("attempts-as-configured", len(c.seen) == n && c.extra == 0)
	for _, s := range c.seen {
		vfAssert("same-method", s.method == m)
		vfAssert("same-target", s.url == "http://up.example:8081/api/x?q=1")
		vfAssert("whole-body", vfSame(s.body, []byte("payload")))
		vfAssert("same-id", vfAnd(len(s.hdr["X-Request-Id"]) == 1, vfEqS(s.hdr.Get("X-Request-Id"), id)))
		vfAssert("same-headers", s.hdr.Get("X-Other") == "value")
	}
	for _, b := range c.bodies {
		vfAssert("upstream-body-closed", b.closed > 0)
	}
	vfAssert("one-response", w.heads == 1)
	if last {
		vfCover("passed")
		vfAssert("passed", w.code == 200 && string(w.body) == "fine")
	} else {
		vfCover("failed")
		vfJSONError("failed", w, 502, false)
	}
}
