package j8a

import (
	"time"
)

func init() {
	vfHarness["SamePick"] = vfH_SamePick
	vfHarness["JwtLater"] = func() { vfVirtual(vfH_JwtLater) }
}

// with the same draw a policy picks the same upstream, however many requests it has served by then.
func vfH_SamePick() {
	ws := [][]float64{{0.5, 0.5}, {0.3, 0.7}, {0.2, 0.3, 0.5}}[vfChoice("policy", 3)]
	c := &vfClient{}
	g := vfGateway(c)
	var rs []ResourceMapping
	var pol Policy
	for i, w := range ws {
		l := string(rune('a' + i))
		pol = append(pol, LabelWeight{Label: l, Weight: w})
		rs = append(rs, vfResource(l+".up", 80, l))
	}
	g.Policies["p"] = pol
	g.Routes[0].Policy = "p"
	g.Resources["r"] = rs
	vfRandSym()
	n := 3 + vfTier()
	for i := 0; i < n; i++ {
		c.script = append(c.script, vfUp{status: 200})
		if vfChoice("fails", 2) == 1 {
			c.script[i].status = 503
		}
		proxyHandler(newVfWriter(), vfRequest("GET", "/api", nil))
		if vfDiceN() != i+1 {
			// not one fraction per request: which draw decided is unknown
			return
		}
	}
	vfAssert("all-sent", len(c.seen) == n)
	vfCover("picked")
	for i := 1; i < n; i++ {
		vfAssert("same-draw-same-upstream", vfImplies(vfDice(i) == vfDice(0), c.seen[i].host == c.seen[0].host))
	}
}

// a token that was good once is looked at again every time.
func vfH_JwtLater() {
	c := &vfClient{}
	alg := []string{"HS256", "RS256"}[vfChoice("alg", 2)]
	vfGuarded(c, vfJwtConfig("j", alg, "5", []string{"k0"}, []int{0}))
	now := time.Now().Unix()
	t := &vfTok{alg: alg, keys: []int{0}, hasExp: true, exp: now + 100}
	if vfChoice("early", 2) == 1 {
		t = &vfTok{alg: alg, keys: []int{0}, hasNbf: true, nbf: now + 50}
	}
	tok := vfMint(t)
	for i := 0; i < 3; i++ {
		at := time.Now().Unix() - now
		in := vfTry(c, tok)
		if t.hasExp {
			vfAssert("gone-when-expired", vfImplies(at > 106, vfNot(in)))
			vfAssert("good-until-then", vfImplies(at < 104, in))
		} else {
			vfAssert("good-in-time", vfImplies(at > 46, in))
			vfAssert("not-before", vfImplies(at < 44, vfNot(in)))
		}
		if in {
			vfCover("accepted")
		} else {
			vfCover("rejected")
		}
		time.Sleep(vfTicks("later", 250))
	}
}
