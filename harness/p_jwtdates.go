package j8a

import (
	"strconv"
	"time"
)

func init() { vfHarness["JwtDates"] = vfH_JwtDates }

// issued-at and not-before may lie up to the skew in the future, expiry up to the skew in the past.
func vfH_JwtDates() {
	skews := []int{0, 1, 120, 600, 86400, 2000000}
	skew := int64(skews[vfChoice("skew", len(skews))])
	if !vfSymbolic() {
		// keep away from the end of the second
		for time.Now().Nanosecond() > 300000000 {
			time.Sleep(10 * time.Millisecond)
		}
	}
	now := time.Now().Unix()
	alg := []string{"HS256", "none"}[vfChoice("alg", 2)]
	c := &vfClient{script: vfOK(1)}
	var kids []string
	var keys []int
	if alg != "none" {
		kids, keys = []string{"k0"}, []int{0}
	}
	vfGuarded(c, vfJwtConfig("j", alg, strconv.FormatInt(skew, 10), kids, keys))
	t := &vfTok{alg: alg, keys: []int{0}}
	if alg == "none" {
		t.shape = vfUnsigned
	}
	which := vfChoice("claims", 8)
	// relative to now, as far back as 1970 and as far ahead as the year 10000
	rel := func(label string) int64 {
		x := vfInt64(label)
		vfAssume(vfAnd(x >= -1500000000, x <= 250000000000))
		return x
	}
	var iat, nbf, exp int64
	good, bad := true, false
	if which&1 != 0 {
		iat = rel("iat")
		t.hasIat, t.iat = true, now+iat
		good = vfAnd(good, iat <= skew)
		bad = vfOr(bad, iat > skew)
	}
	if which&2 != 0 {
		nbf = rel("nbf")
		t.hasNbf, t.nbf = true, now+nbf
		good = vfAnd(good, nbf < skew)
		bad = vfOr(bad, nbf > skew)
	}
	if which&4 != 0 {
		exp = rel("exp")
		t.hasExp, t.exp = true, now+exp
		good = vfAnd(good, exp > -skew)
		bad = vfOr(bad, exp <= -skew)
	}
	tok := vfMint(t)
	r := vfRequest("GET", "/api", nil)
	r.Header["Authorization"] = []string{"Bearer " + tok}
	w := newVfWriter()
	proxyHandler(w, r)
	vfAssert("one-response", w.heads == 1)
	if len(c.seen) == 1 {
		vfCover("accepted")
		vfAssert("only-valid-dates-pass", vfNot(bad))
	} else {
		vfCover("rejected")
		vfAssert("valid-dates-pass", vfNot(good))
		vfJSONError("rejected", w, 401, false)
	}
}
