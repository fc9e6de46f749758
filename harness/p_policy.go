package j8a

func init() {
	vfHarness["Policy"] = vfH_Policy
	vfHarness["NoPolicy"] = vfH_NoPolicy
	vfHarness["PolicyDraws"] = vfH_PolicyDraws
}

var vfWeights = [][]float64{
	{1},
	{0.5, 0.5},
	{0.8, 0.2},
	{0.2, 0.8},
	{0.1, 0.2, 0.7},
	{0.7, 0.2, 0.1},
	{0.3, 0.4, 0.3},
	{0, 1},
	{1, 0},
	{0.25, 0.5, 0.25},
	{0.01, 0.99},
	{0.4, 0.1, 0.3, 0.2},
	{0.05, 0.05, 0.8, 0.1},
	{0.29, 0.71},
	{0.43, 0.57},
	{0.0004, 0.9996},
	{0.00001, 0.58, 0.41999},
}

// any two draws that go to the same label are no further apart than its weight, and every draw goes to a label of
// the policy: the weights adding up to one, each label then gets exactly its share.
func vfH_Policy() {
	ws := vfWeights[vfChoice("policy", len(vfWeights))]
	// labels that contain one another, and that differ by case only
	labels := []string{"a", "ab", "A", "b"}[:len(ws)]
	layout := vfChoice("layout", 4)
	reqs := 2 + vfTier()
	c := &vfClient{}
	g := vfGateway(c)
	var pol Policy
	for i, w := range ws {
		pol = append(pol, LabelWeight{Label: labels[i], Weight: w})
	}
	g.Policies["p"] = pol
	g.Routes[0].Policy = "p"
	var rs []ResourceMapping
	switch layout {
	case 0:
		for _, l := range labels {
			rs = append(rs, vfResource(l+".up", 80, l))
		}
	case 1:
		rs = append(rs, vfResource("other.up", 80, "z", "ax", "xa", "B", "", " a"))
		for i := len(labels) - 1; i >= 0; i-- {
			rs = append(rs, vfResource(labels[i]+".up", 80, "y", labels[i]))
		}
	case 2:
		// one label has no upstream
		for _, l := range labels[1:] {
			rs = append(rs, vfResource(l+".up", 80, l))
		}
		rs = append(rs, vfResource("other.up", 80))
	case 3:
		// the first of several upstreams with a label is used
		for _, l := range labels {
			rs = append(rs, vfResource(l+".up", 80, l), vfResource("second.up", 80, l))
		}
	}
	g.Resources["r"] = rs
	vfRandSym()
	var got []int
	for i := 0; i < reqs; i++ {
		c.script = append(c.script, vfUp{status: 200, body: []byte("ok")})
		n := len(c.seen)
		w := newVfWriter()
		proxyHandler(w, vfRequest("GET", "/api", nil))
		if vfDiceN() != i+1 {
			// not one fraction per request: which draw decided is unknown
			return
		}
		vfAssume(vfDice(i) < vfUnit-vfUnit/1000000000)
		vfAssert("one-response", w.heads == 1)
		l := -1
		if len(c.seen) == n+1 {
			vfAssert("answered", w.code == 200)
			for j := range labels {
				if c.seen[n].host == labels[j]+".up:80" {
					l = j
				}
			}
			vfAssert("upstream-of-a-policy-label", l >= 0)
			vfAssert("label-without-upstream", !(layout == 2 && l == 0))
		} else {
			vfAssert("not-forwarded", len(c.seen) == n)
			vfAssert("only-labels-without-upstream-fail", layout == 2)
			vfJSONError("unmapped", w, 503, false)
			c.script = c.script[:n]
			l = 0
			vfCover("unmapped")
		}
		got = append(got, l)
		if l >= 0 {
			vfCover("mapped")
			vfAssert("weightless-label-never-chosen", ws[l] > 0)
		}
	}
	for i := range got {
		for j := range got[:i] {
			if got[i] == got[j] && got[i] >= 0 {
				wd := uint64(ws[got[i]]*vfUnit) + vfUnit/1000000000
				a, b := vfDice(i), vfDice(j)
				vfAssert("share", vfAnd(a-b <= wd || b-a <= wd))
			}
		}
	}
	for i := range pol {
		vfAssert("policy-untouched", vfAnd(g.Policies["p"][i].Label == labels[i], g.Policies["p"][i].Weight == ws[i]))
	}
	vfAssert("policy-untouched", len(g.Policies["p"]) == len(ws))
}

// a route without a policy always uses the first upstream of its resource.
func vfH_NoPolicy() {
	c := &vfClient{script: []vfUp{{status: 200, body: []byte("ok")}}}
	g := vfGateway(c)
	n := vfChoice("n", 4)
	var rs []ResourceMapping
	for i := 0; i < n; i++ {
		lb := []string{}
		if vfChoice("labelled", 2) == 1 {
			lb = []string{"default"}
		}
		rs = append(rs, vfResource("u"+string(rune('0'+i)), 80, lb...))
	}
	g.Resources["r"] = rs
	w := newVfWriter()
	proxyHandler(w, vfRequest("GET", "/api", nil))
	vfAssert("one-response", w.heads == 1)
	if n == 0 {
		vfCover("empty")
		vfAssert("nothing-to-ask", w.code == 503 && len(c.seen) == 0)
		return
	}
	vfCover("first")
	vfAssert("first-upstream", len(c.seen) == 1 && c.seen[0].host == "u0:80")
}

// however many random numbers a request takes: over all of their (coarse) values, each label gets its share.
func vfH_PolicyDraws() {
	ws := vfShares[vfChoice("policy", len(vfShares))]
	labels := []string{"a", "ab", "A", "b"}[:len(ws)]
	c := &vfClient{}
	g := vfGateway(c)
	var pol Policy
	var rs []ResourceMapping
	for i, w := range ws {
		pol = append(pol, LabelWeight{Label: labels[i], Weight: w})
		rs = append(rs, vfResource(labels[i]+".up", 80, labels[i]))
	}
	g.Policies["p"] = pol
	g.Routes[0].Policy = "p"
	g.Resources["r"] = rs
	share := make([]float64, len(ws))
	var digits []int
	for runs := 0; ; runs++ {
		if runs > 1200 {
			// too many numbers drawn to go through all of them
			return
		}
		c.script = []vfUp{{status: 200, body: []byte("ok")}}
		c.seen = nil
		vfRandFix(digits)
		w := newVfWriter()
		proxyHandler(w, vfRequest("GET", "/api", nil))
		vfAssert("answered", vfAnd(w.heads == 1, w.code == 200, len(c.seen) == 1))
		n := vfRandRadixN()
		if n == 0 {
			return
		}
		p := 1.0
		for len(digits) < n {
			digits = append(digits, 0)
		}
		digits = digits[:n]
		for i := 0; i < n; i++ {
			p /= float64(vfRandRadix(i))
		}
		for j := range labels {
			if c.seen[0].host == labels[j]+".up:80" {
				share[j] += p
			}
		}
		// next
		for len(digits) > 0 {
			l := len(digits) - 1
			if digits[l]++; digits[l] < vfRandRadix(l) {
				break
			}
			digits = digits[:l]
		}
		if len(digits) == 0 {
			break
		}
	}
	vfCover("shares")
	for j := range ws {
		d := share[j] - ws[j]
		vfAssert("share", d < 0.015 && d > -0.015)
	}
}

var vfShares = [][]float64{{0.5, 0.5}, {0.2, 0.8}, {0.1, 0.2, 0.7}, {0.3, 0.4, 0.3}, {0.4, 0.1, 0.3, 0.2}}
