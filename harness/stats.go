package j8a

func init() {
	vfHarness["StatsAppend"] = vfH_StatsAppend
	vfHarness["StatsGrowth"] = vfH_StatsGrowth
}

// one append to a history of any admissible length holding arbitrary samples.
func vfH_StatsAppend() {
	n := vfChoice("n", historyMaxSamples+1)
	var h samples
	var rss []uint64
	for i := 0; i < n; i++ {
		s := sample{pid: 7, rssBytes: vfUint64("rss")}
		h = append(h, s)
		rss = append(rss, s.rssBytes)
	}
	k := 1 + vfChoice("k", 2)
	for i := 0; i < k; i++ {
		s := sample{pid: int32(vfInt("pid", 0, 70000)), rssBytes: vfUint64("new")}
		h.append(s)
		rss = append(rss, s.rssBytes)
		vfAssert("newest-last", vfAnd(len(h) > 0, h[len(h)-1].rssBytes == s.rssBytes, h[len(h)-1].pid == s.pid))
	}
	want := n + k
	if want > historyMaxSamples {
		want = historyMaxSamples
		vfCover("overflow")
	}
	vfAssert("length", len(h) == want)
	if len(h) == want {
		off := len(rss) - want
		for i := 0; i < want; i++ {
			vfAssert("order", h[i].rssBytes == rss[off+i])
		}
	}
	vfObsI("len", len(h))
}

// growth relative to the oldest sample.
func vfH_StatsGrowth() {
	n := vfChoice("n", 6+2*vfTier())
	missing := vfChoice("missing", n+1)
	var h samples
	for i := 0; i < n; i++ {
		p := int32(7)
		if i == missing {
			p = 0
		}
		r := vfUint64("rss")
		vfAssume(r < 1<<50)
		if i == 0 {
			vfAssume(r > 0)
		}
		h = append(h, sample{pid: p, rssBytes: r})
	}
	vfLogCapture()
	g := h.log()
	vfAssert("one-rate-per-sample", len(g) == n)
	if missing < n {
		vfCover("insufficient")
		for i := 0; i < len(g); i++ {
			vfAssert("insufficient-data-not-high", !g[i].high)
		}
		vfAssert("insufficient-data-no-alert", vfLogCount("debug") == 0)
		return
	}
	any := false
	for i := 0; i < len(g); i++ {
		hi := h[i].rssBytes >= 2*h[0].rssBytes
		vfAssert("high-iff-doubled", g[i].high == hi)
		any = vfOr(any, hi)
	}
	if vfLogCount("debug") > 0 {
		vfCover("alert")
		vfAssert("alert-only-when-high", any)
		vfAssert("alert-once", vfLogCount("debug") == 1)
	} else {
		vfAssert("alert-when-high", !any)
	}
}
