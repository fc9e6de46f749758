package j8a

import (
	"errors"
	"time"
)

func init() {
	vfHarness["Abandoned"] = func() { vfVirtual(vfH_Abandoned) }
}

// whatever statement of the gateway is held up for however long, an exchange ends in one answer that is made of
// exactly one attempt.
func vfH_Abandoned() {
	A := 2
	R := 2
	T := 3
	m := "GET"
	// outcome (0 error, 1 broken body, 2 status 503, 3 fine) and slow part (0 none, 1 headers, 2 body) of each attempt
	// and whether the first is sent in gzip
	plan := [][5]int{{3, 1, 3, 0, 0}, {3, 2, 3, 0, 0}, {0, 1, 3, 2, 0}, {1, 2, 2, 0, 0}, {2, 0, 3, 1, 0}, {3, 0, 3, 2, 0}, {3, 2, 3, 2, 1}}
	if vfTier() == 1 {
		T = []int{5, 3}[vfChoice("limit", 2)]
		plan = nil
		for o := 0; o < 12; o++ {
			for q := 0; q < 12; q++ {
				plan = append(plan, [5]int{o / 3, o % 3, q / 3, q % 3, (o + q) % 2})
			}
		}
	}
	k := plan[vfChoice("plan", len(plan))]
	if k[2] == 3 && k[3] == 0 && vfBool("unsafe") {
		m = "POST"
	}
	c := &vfClient{}
	g := vfGateway(c)
	g.Connection.Upstream.MaxAttempts = A
	g.Connection.Upstream.ReadTimeoutSeconds = R
	g.Connection.Downstream.RoundTripTimeoutSeconds = T
	for i := 0; i < A; i++ {
		u := vfUp{deaf: true, status: 200 + i, body: []byte{"ab"[i], "ab"[i], "ab"[i]}, hdr: map[string][]string{"X-Att": {string(rune('a' + i))}}}
		switch k[2*i] {
		case 0:
			u.fail = true
		case 1:
			u.bodyErr = errors.New("reset")
		case 2:
			u.status = 503
		}
		switch k[2*i+1] {
		case 1:
			u.hdrWait = vfTicks("header", 8)
		case 2:
			u.bodWait = vfTicks("body", 8)
		}
		if i == 0 && k[4] == 1 {
			u.hdr["Content-Encoding"] = []string{"gzip"}
			u.body = vfZip(u.body)
		}
		c.script = append(c.script, u)
	}
	w := newVfWriter()
	vfDelays(1, 8)
	proxyHandler(w, vfRequest(m, "/api/x", []byte("p")))
	time.Sleep(20 * time.Second)
	vfAssert("one-answer", w.heads == 1)
	vfAssert("within-attempts", len(c.seen) <= A)
	if !vfRepeatable(m) {
		vfAssert("unsafe-once", len(c.seen) <= 1)
	}
	if w.code < 300 {
		i := w.code - 200
		vfCover("answered")
		vfAssert("an-attempt-that-succeeded", i >= 0 && i < len(c.seen) && !c.script[i].fail && c.script[i].bodyErr == nil)
		vfAssert("its-headers", len(w.sent["X-Att"]) == 1 && w.sent["X-Att"][0] == string(rune('a'+i)))
		vfAssert("its-body", string(w.body) == []string{"aaa", "bbb"}[i])
		vfAssert("its-encoding", vfOne(w.sent, "Content-Encoding") != "gzip")
		vfAssert("last-attempt", i == len(c.seen)-1)
	} else {
		vfCover("failed")
		vfAssert("gateway-error", w.code == 502 || w.code == 504)
		vfJSONError("failed", w, w.code, false)
	}
	for _, s := range c.seen {
		vfAssert("attempts-end", s.over())
	}
}
