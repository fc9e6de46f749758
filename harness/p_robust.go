package j8a

import (
	"errors"
	"io"
	"net/http"
	"sync"
	"time"
)

func init() {
	vfHarness["Lifecycle"] = func() { vfVirtual(vfH_Lifecycle) }
	vfHarness["Handler"] = vfH_Handler
	vfHarness["Target"] = vfH_Target
	vfHarness["Concurrent"] = vfH_Concurrent
	vfHarness["Interleaved"] = vfH_Interleaved
	vfHarness["Overlapping"] = vfH_Overlapping
}

// whatever happens to the attempts of an exchange, in the end nothing of it is left.
func vfH_Lifecycle() {
	A := 1 + vfChoice("attempts", 2)
	T := []int{3, 9}[vfChoice("limit", 1+vfTier())]
	R := 2
	m := []string{"GET", "POST", "HEAD"}[vfChoice("method", 2+vfTier())]
	c := &vfClient{}
	g := vfGateway(c)
	g.Connection.Upstream.MaxAttempts = A
	g.Connection.Upstream.ReadTimeoutSeconds = R
	g.Connection.Downstream.RoundTripTimeoutSeconds = T
	for i := 0; i < A; i++ {
		u := vfUp{status: 200, body: []byte("abc")}
		switch vfChoice("outcome", 5) {
		case 0:
			u.fail = true
		case 1:
			u.bodyErr = errors.New("reset")
		case 2:
			u.status = 503
		case 3:
			u.status = 404
		case 4:
			u.status = 200
			if vfChoice("empty", 2) == 1 {
				u.body = nil
			}
		}
		switch vfChoice("slow", 3) {
		case 1:
			u.hdrWait = vfTicks("header", 7)
		case 2:
			u.bodWait = vfTicks("body", 7)
		}
		c.script = append(c.script, u)
	}
	w := newVfWriter()
	vfSched()
	start := time.Now()
	proxyHandler(w, vfRequest(m, "/api/x", []byte("p")))
	took := time.Since(start)
	vfAssert("answered", w.heads == 1)
	vfAssert("in-time", took <= time.Duration(T)*time.Second+time.Millisecond)
	// cancelled transfers come back at once, contexts end with the read timeout at the latest
	time.Sleep(time.Duration(R)*time.Second + 10*time.Millisecond)
	vfCover("over")
	for _, s := range c.seen {
		vfAssert("contexts-end", s.over())
	}
	for _, b := range c.bodies {
		vfAssert("bodies-closed", b.closed > 0)
	}
	vfAssert("goroutines-end", vfLeft() == 0)
	if w.code < 400 {
		vfCover("served")
		// only a body read to its end leaves a connection that can be used again
		n := len(c.bodies)
		vfAssert("body-read-to-its-end", n > 0 && c.bodies[n-1].pos == len(c.bodies[n-1].data))
	}
}

// nothing a client or an upstream sends crashes the handler.
func vfH_Handler() {
	m := vfMethods[vfChoice("method", len(vfMethods))]
	c := &vfClient{}
	g := vfGateway(c)
	g.Connection.Upstream.MaxAttempts = 2
	vfFaults()
	st := vfInt("status", 0, 999)
	// net/http keeps other informational answers to itself
	vfAssume(vfOr(st < 100, st == 101, st >= 200))
	u := vfUp{status: st, hdr: http.Header{}}
	r := vfRequest(m, "/api/x", nil)
	switch vfChoice("what", 5) {
	case 4:
		u.fail = vfChoice("fail", 2) == 1
		u.bodyErr = io.ErrUnexpectedEOF
	case 0:
		u.body = vfBytes("body", vfChoice("n", 4))
		r.Header.Set("Accept-Encoding", vfStr("accept", vfChoice("na", 3)))
	case 1:
		u.hdr["Content-Length"] = []string{vfStr("length", vfChoice("n", 3))}
	case 2:
		e := vfStr("encoding", vfChoice("n", 3))
		for i := 0; i < len(e); i++ {
			vfAssume(e[i] < 128)
		}
		u.hdr["Content-Encoding"] = []string{e}
		u.body = []byte{0x1f, 0x8b}[:vfChoice("magic", 3)]
	case 3:
		u.hdr[vfToken("name", vfChoice("n", 3))] = nil
		r.Header[vfToken("reqname", 2)] = []string{}
		r.RemoteAddr = []string{"", "x", "@", "[::1]:1", "[fe80::1%eth0]:1", "10.1.2.3:4711"}[vfChoice("addr", 6)]
	}
	c.script = []vfUp{u, u}
	w := newVfWriter()
	crashed := vfCatch(func() { proxyHandler(w, r) })
	vfCover("handled")
	vfAssert("no-crash", !crashed)
	vfAssert("answered-once", w.heads == 1)
	vfAssert("valid-status", w.code >= 101 && w.code <= 599)
}

// vfToken is any header name of n letters, digits or dashes.
func vfToken(label string, n int) string {
	s := vfStr(label, n)
	for i := 0; i < n; i++ {
		c := s[i]
		vfAssume(vfOr(vfAnd(c >= 'a', c <= 'z'), vfAnd(c >= 'A', c <= 'Z'), vfAnd(c >= '0', c <= '9'), c == '-'))
	}
	return s
}

// request targets of every form.
func vfH_Target() {
	c := &vfClient{script: []vfUp{{status: 200}}}
	vfGateway(c)
	m := []string{"GET", "CONNECT"}[vfChoice("method", 2)]
	var t string
	switch vfChoice("form", 4) {
	case 0:
		t = "*"
	case 1:
		t = "http://" + vfStr("host", 1) + vfStr("rest", vfChoice("n", 2+vfTier()))
	case 2:
		t = "/" + vfStr("path", vfChoice("n", 3+vfTier()))
	case 3:
		t = "/api" + vfStr("suffix", vfChoice("n", 3+vfTier()))
	}
	for i := 0; i < len(t); i++ {
		vfAssume(t[i] > ' ' && t[i] < 127)
	}
	r := vfRequest(m, t, nil)
	w := newVfWriter()
	crashed := vfCatch(func() { proxyHandler(w, r) })
	vfCover("handled")
	vfAssert("no-crash", !crashed)
	vfAssert("answered-once", w.heads == 1)
	vfAssert("served-or-not-found", w.code == 200 && len(c.seen) == 1 || w.code == 404 && len(c.seen) == 0)
}

// two exchanges at a time, either of them held up anywhere, each with its own upstream answer.
func vfH_Concurrent() {
	c := &vfClient2{}
	g := vfConfig()
	g.Connection.Upstream.MaxAttempts = 2
	g.Connection.Upstream.ReadTimeoutSeconds = 60
	g.Connection.Downstream.RoundTripTimeoutSeconds = 100
	plan := vfChoice("plan", 4)
	if plan == 3 {
		plan = 4
	}
	vfPlanned(c, g, plan, 1)
}

// one of them goes on while the other is held up between two things both do, then the other way round.
func vfH_Interleaved() {
	c := &vfClient2{}
	g := vfConfig()
	g.Connection.Upstream.MaxAttempts = 2
	g.Connection.Upstream.ReadTimeoutSeconds = 60
	g.Connection.Downstream.RoundTripTimeoutSeconds = 100
	vfPlanned(c, g, vfChoice("plan", 4), -1)
}

func vfPlanned(c *vfClient2, g *Config, plan, delays int) {
	base := "/api/"
	// each has its own upstream
	g.Routes = append(g.Routes, Route{Path: "/also", Resource: "s"})
	g.Resources["s"] = []ResourceMapping{{URL: URL{Scheme: "http", Host: "two.example", Port: 8082}}}
	if plan == 0 || plan == 4 {
		g.Routes[1].Transform = "/t"
		g.Routes[0].Transform = "/t"
		base = "/t/"
	}
	vfAssert("starts", vfBoot(g))
	httpClient = c
	vfVirtual(func() { vfBoth(c, plan, base, delays) })
}

// vfBoth runs two exchanges at the same time.
func vfBoth(c *vfClient2, plan int, base string, delays int) {
	b := [][]byte{vfBytes("one", 2), vfBytes("two", 2)}
	vfAssume(vfNot(vfSame(b[0], b[1])))
	vfAssume(vfAnd(b[0][0] != 0x1f, b[1][0] != 0x1f))
	ws := []*vfWriter{newVfWriter(), newVfWriter()}
	c.answers = map[string][]vfUp{}
	for i := 0; i < 2; i++ {
		up := vfUp{status: 200 + i, body: b[i], hdr: http.Header{"X-Up": {string(b[i])}}}
		if plan == 4 {
			// packed for clients that can't unpack
			up.body = vfZip(b[i])
			up.hdr["Content-Encoding"] = []string{"gzip"}
		}
		k := string(rune('0' + i))
		c.answers[k] = []vfUp{up}
		switch plan {
		case 1:
			c.answers[k] = []vfUp{{status: 503}, up}
		case 2:
			if i == 1 {
				c.answers[k] = []vfUp{{status: 404, body: b[i]}}
			}
		}
	}
	first := 0
	if delays < 0 {
		first = vfChoice("first", 2)
	}
	vfDelays(delays, 2)
	for k := 0; k < 2; k++ {
		i := k ^ first
		at := []string{"/api/", "/also/"}[i]
		if plan == 0 {
			at = "/api/" // both on one route, which is transformed
		}
		if plan == 3 && i == 1 {
			// nothing there
			at = "/none/"
			c.answers["1"] = nil
		}
		r := vfRequest("PUT", at+string(rune('0'+i)), b[i])
		r.Header.Set("X-Request-Id", "id"+string(rune('0'+i)))
		r.Header.Set("X-Mine", string(b[i]))
		if plan != 2 && plan != 4 {
			r.Header.Set("Accept-Encoding", "gzip")
		}
		go proxyHandler(ws[i], r)
		if delays < 0 {
			time.Sleep(1)
		}
	}
	time.Sleep(50 * time.Second)
	vfCover("both")
	for i, w := range ws {
		k := string(rune('0' + i))
		vfAssert("answered", w.heads == 1)
		vfAssert("own-id", len(w.sent["X-Request-Id"]) == 1 && w.sent["X-Request-Id"][0] == "id"+k)
		for _, s := range c.got[k] {
			own := base
			if i == 1 && plan != 0 && plan != 4 {
				own = "/also/"
			}
			if plan == 0 {
				vfAssert("own-target", s.url == "http://up.example:8081"+own+k)
			} else {
				vfAssert("own-target", s.url == []string{"http://up.example:8081", "http://two.example:8082"}[i]+own+k)
			}
			vfAssert("own-request-body", vfSame(s.body, b[i]))
			vfAssert("own-request-header", len(s.hdr["X-Mine"]) == 1 && vfEqS(s.hdr["X-Mine"][0], string(b[i])))
			vfAssert("own-request-id", len(s.hdr["X-Request-Id"]) == 1 && s.hdr["X-Request-Id"][0] == "id"+k)
		}
		vfAssert("own-attempts", len(c.got[k]) == len(c.answers[k]))
		if (plan == 2 || plan == 3) && i == 1 {
			vfJSONError("own-error", w, 404, plan == 3)
			continue
		}
		vfAssert("own-status", w.code == 200+i)
		vfAssert("own-header", len(w.sent["X-Up"]) == 1 && vfEqS(w.sent["X-Up"][0], string(b[i])))
		body := w.body
		if plan != 2 && plan != 4 {
			var ok bool
			body, ok = vfUnzip(body)
			vfAssert("decodes", ok)
		}
		vfAssert("own-body", vfSame(body, b[i]))
	}
}

// exchanges begin, last and end at any time; the time limits of one are not those of another.
func vfH_Overlapping() {
	c := &vfClient2{answers: map[string][]vfUp{}}
	g := vfConfig()
	g.Connection.Upstream.MaxAttempts = 2
	g.Connection.Upstream.ReadTimeoutSeconds = 3
	g.Connection.Downstream.RoundTripTimeoutSeconds = 5
	vfAssert("starts", vfBoot(g))
	httpClient = c
	vfVirtual(func() { vfOverlap(c) })
}

func vfOverlap(c *vfClient2) {
	rd := 3 * time.Second
	n := 2 + vfTier()
	ws := make([]*vfWriter, n)
	durs := make([]time.Duration, n)
	took := make([]time.Duration, n)
	for i := 0; i < n; i++ {
		i := i
		k := string(rune('0' + i))
		h, b := vfTicks("header", 12), vfTicks("body", 7)
		durs[i] = h + b
		c.answers[k] = []vfUp{{status: 200 + i, hdrWait: h, bodWait: b, body: []byte("up" + k)}}
		r := vfRequest("POST", "/api/"+k, []byte(k))
		ws[i] = newVfWriter()
		go func() {
			start := time.Now()
			proxyHandler(ws[i], r)
			took[i] = time.Since(start)
		}()
		time.Sleep(vfTicks("gap", 14) + time.Millisecond)
	}
	time.Sleep(20 * time.Second)
	for i, w := range ws {
		k := string(rune('0' + i))
		vfAssert("one-attempt", len(c.got[k]) == 1)
		vfAssert("answered", w.heads == 1)
		if durs[i] < rd {
			vfCover("in-time")
			vfAssert("own-status", w.code == 200+i)
			vfAssert("own-body", string(w.body) == "up"+k)
			vfAssert("no-delay", took[i] == durs[i] || !vfSymbolic())
		} else {
			vfCover("late")
			vfJSONError("late", w, 504, false)
			vfAssert("own-time-limit", took[i] == rd || !vfSymbolic())
		}
		if len(c.got[k]) == 1 {
			vfAssert("own-request", string(c.got[k][0].body) == k)
			vfAssert("attempt-over", c.got[k][0].over())
		}
	}
}

// vfClient2 answers by the last letter of the path.
type vfClient2 struct {
	vfClient
	answers map[string][]vfUp
	got     map[string][]*vfSent
	mu      sync.Mutex
}

func (c *vfClient2) Do(req *http.Request) (*http.Response, error) {
	p := req.URL.Path
	k := p[len(p)-1:]
	c.mu.Lock()
	one := &vfClient{script: c.answers[k][len(c.got[k]):]}
	if c.got == nil {
		c.got = map[string][]*vfSent{}
	}
	c.mu.Unlock()
	resp, err := one.Do(req)
	c.mu.Lock()
	c.got[k] = append(c.got[k], one.seen...)
	c.mu.Unlock()
	return resp, err
}
