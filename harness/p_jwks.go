package j8a

import (
	"strconv"
	"strings"
	"sync"
	"time"
)

func init() {
	vfHarness["JwksMany"] = vfH_JwksMany
	vfHarness["JwksLoad"] = vfH_JwksLoad
	vfHarness["JwksRotate"] = vfH_JwksRotate
	vfHarness["JwksSlow"] = vfH_JwksSlow
	vfHarness["JwksAgain"] = vfH_JwksAgain
	vfHarness["KeySet"] = vfH_KeySet
}

// vfTry sends a request with a bearer token and reports whether it was let through.
func vfTry(c *vfClient, tok string) bool { return vfTryAt(c, "/api", tok) }

func vfTryAt(c *vfClient, uri, tok string) bool {
	r := vfRequest("GET", uri, nil)
	r.Header["Authorization"] = []string{"Bearer " + tok}
	w := newVfWriter()
	n := len(c.seen)
	c.script = append(c.script[:n], vfUp{status: 200, body: []byte("ok")})
	proxyHandler(w, r)
	vfAssert("one-response", w.heads == 1)
	vfAssert("let-through-or-401", vfOr(vfAnd(w.code == 200, len(c.seen) == n+1), vfAnd(w.code == 401, len(c.seen) == n)))
	return w.code == 200
}

// what a freshly fetched key set makes usable.
func vfH_JwksLoad() {
	algs := []string{"RS256", "ES256", "HS256", "PS512", "ES384", "RS384", "ES512", "PS256"}
	alg := algs[vfChoice("alg", 5+vfTier()*3)]
	n := vfChoice("keys", 4)
	set := &vfRemoteSet{fail: n == 0 && vfChoice("fail", 2) == 1}
	all := n > 0 && vfFamily(alg) != "H"
	for i := 0; i < n; i++ {
		k := vfRemoteKey{kid: "k" + string(rune('0'+i)), alg: alg, material: alg, key: i}
		if vfFamily(alg) == "H" {
			k.material = "RS256"
		}
		switch vfChoice("key", 4) {
		case 1:
			// declared for another algorithm
			k.alg = map[string]string{"R": "RS512", "E": "ES256", "H": "RS256"}[vfFamily(alg)]
			if alg == "ES256" {
				k.alg = "ES384"
			}
			all = false
		case 2:
			// declared for another kind of algorithm
			k.alg = map[string]string{"R": "ES256", "E": "RS256", "H": "HS384"}[vfFamily(alg)]
			all = false
		case 3:
			// of another kind or size than declared
			k.material = map[string]string{"R": "ES256", "E": "ES384", "H": "ES256"}[vfFamily(alg)]
			if alg == "ES384" {
				k.material = "ES256"
			}
			all = false
		}
		set.keys = append(set.keys, k)
	}
	c := &vfClient{}
	url := vfPublish(set)
	j := NewJwt("j", alg, "", url, "120")
	err := j.Validate()
	vfGuarded(c, j)
	if all {
		vfCover("all-good")
		vfAssert("good-set-accepted", err == nil)
	}
	if n == 0 {
		vfCover("nothing")
		vfAssert("empty-set-refused", err != nil)
	}
	if vfFamily(alg) == "H" {
		vfAssert("shared-secrets-never-loaded", err != nil && len(j.Secret) == 0)
		return
	}
	signer := vfInt("signer", 0, 3)
	t := &vfTok{alg: alg, keys: []int{signer}}
	if k := vfChoice("kid", 4); k > 0 {
		t.kid = "k" + string(rune('0'+k-1))
	}
	t.dates(vfValidDates)
	if vfFamily(alg) == "E" && vfChoice("by", 2) == 1 {
		// a key of another size can sign as well
		t.by = "ES384"
		if alg == "ES384" {
			t.by = "ES256"
		}
		vfCover("foreign")
		vfAssert("key-of-another-size-unusable", vfNot(vfTry(c, vfMint(t))))
		return
	}
	in := vfTry(c, vfMint(t))
	if all {
		vfAssert("exactly-the-loaded-keys-usable", vfAnd(vfImplies(in, signer < n), vfImplies(signer < n, in)))
	}
	for i, k := range set.keys {
		if k.alg != alg || k.material != alg {
			vfCover("foreign")
			vfAssert("foreign-key-unusable", vfNot(vfAnd(in, signer == i)))
		}
	}
}

// a token with an unknown kid makes the gateway look for new keys.
func vfH_JwksRotate() {
	alg := []string{"RS256", "ES256"}[vfChoice("alg", 2)]
	other := map[string]string{"RS256": "RS384", "ES256": "ES384"}[alg]
	key := func(kid string, i int) vfRemoteKey { return vfRemoteKey{kid: kid, alg: alg, material: alg, key: i} }
	c := &vfClient{}
	url := vfPublish(&vfRemoteSet{keys: []vfRemoteKey{key("k0", 0)}})
	j := NewJwt("j", alg, "", url, "120")
	vfAssert("startup", j.Validate() == nil)
	vfGuarded(c, j)
	kind := vfChoice("rotation", 9)
	foreign := vfRemoteKey{kid: "k1", alg: other, material: alg, key: 1}
	rem := &vfRemoteSet{}
	switch kind {
	case 0:
		rem.keys = []vfRemoteKey{key("k0", 0), key("k1", 1)}
	case 1:
		rem.keys = []vfRemoteKey{key("k1", 1)}
	case 2:
		rem.keys = []vfRemoteKey{key("k0", 2), key("k1", 1)}
	case 3:
		rem.keys = []vfRemoteKey{key("k1", 1), key("k0", 2)}
	case 4:
		rem.fail = true
	case 5:
	case 6:
		rem.keys = []vfRemoteKey{foreign}
	case 7:
		rem.keys = []vfRemoteKey{key("k0", 0), key("k2", 2), foreign}
	case 8:
		rem.keys = []vfRemoteKey{{kid: "k1", alg: alg, material: "ES384", key: 1}}
	}
	vfPublish(rem)
	tok := func(kid string, i int) string {
		t := &vfTok{alg: alg, keys: []int{i}, kid: kid}
		if kind == 8 && kid == "k1" && alg == "ES256" {
			t.by = "ES384"
		}
		t.dates(vfValidDates)
		return vfMint(t)
	}
	k1 := tok("k1", 1)
	vfTry(c, k1)
	time.Sleep(500 * time.Millisecond)
	in := vfTry(c, k1)
	switch kind {
	case 0, 1, 2, 3:
		vfCover("rotated")
		vfAssert("new-key-usable", in)
	default:
		vfCover("not-rotated")
		vfAssert("no-such-key", vfNot(in))
	}
	old := vfTry(c, tok("k0", 0))
	switch kind {
	case 0, 4, 5, 6, 7, 8:
		vfAssert("known-key-kept", old)
	case 2, 3:
		vfCover("replaced")
		vfAssert("replaced-key-gone", vfNot(old))
		vfAssert("replacement-usable", vfTry(c, tok("k0", 2)))
	}
	signer := vfInt("signer", 0, 4)
	kid := []string{"k0", "k1", "k9"}[vfChoice("kid", 3)]
	in = vfTry(c, tok(kid, signer))
	want, free := signer == 0, false
	switch kind {
	case 0:
		want = vfOr(signer == 0, signer == 1)
	case 1:
		want, free = signer == 1, signer == 0
	case 2, 3:
		want = vfOr(signer == 2, signer == 1)
	case 7:
		free = signer == 2
	case 8:
		if kid == "k1" && alg == "ES256" {
			want = false
		}
	}
	vfAssert("exactly-the-known-keys-usable", vfOr(free, vfAnd(vfImplies(in, want), vfImplies(want, in))))
}

// key sets may be large, and not every key has a kid.
func vfH_JwksMany() {
	alg := []string{"RS256", "ES256"}[vfChoice("alg", 2)]
	key := func(kid string, i int) vfRemoteKey { return vfRemoteKey{kid: kid, alg: alg, material: alg, key: i} }
	n := []int{1, 2, 9, 17, 40, 130}[vfChoice("keys", 6)]
	at := []int{0, n / 2, n - 1}[vfChoice("at", 3)]
	kid := []string{"k", "", strings.Repeat("long", 100)}[vfChoice("name", 3)]
	set := &vfRemoteSet{}
	for i := 0; i < n; i++ {
		if i == at {
			set.keys = append(set.keys, key(kid, 1))
		} else {
			set.keys = append(set.keys, key("k"+strconv.Itoa(i), 0))
		}
	}
	tok := func(kid interface{}, i int) string {
		t := &vfTok{alg: alg, keys: []int{i}}
		if s, ok := kid.(string); ok && len(s) > 0 {
			t.kid = kid
		}
		t.dates(vfValidDates)
		return vfMint(t)
	}
	c := &vfClient{}
	if vfChoice("later", 2) == 0 {
		j := NewJwt("j", alg, "", vfPublish(set), "120")
		vfAssert("startup", j.Validate() == nil)
		vfGuarded(c, j)
		vfCover("startup")
	} else {
		j := NewJwt("j", alg, "", vfPublish(&vfRemoteSet{keys: []vfRemoteKey{key("old", 2)}}), "120")
		vfAssert("startup", j.Validate() == nil)
		vfGuarded(c, j)
		vfPublish(set)
		vfTry(c, tok("new", 3))
		time.Sleep(500 * time.Millisecond)
		vfCover("later")
	}
	vfAssert("key-usable", vfTry(c, tok(kid, 1)))
	vfAssert("key-usable-without-kid", vfTry(c, tok(nil, 1)))
	if n > 1 {
		vfAssert("other-key-usable", vfTry(c, tok("k"+strconv.Itoa((at+1)%n), 0)))
	}
	signer := vfInt("signer", 0, 4)
	in := vfTry(c, tok(kid, signer))
	want := vfOr(signer == 1, vfAnd(signer == 0, n > 1))
	vfAssert("exactly-the-published-keys-usable", vfOr(signer == 2, vfAnd(vfImplies(in, want), vfImplies(want, in))))
}

// however many unknown kids arrive, key sets are fetched one at a time and no more often than every ten seconds.
func vfH_JwksSlow() { vfVirtual(vfJwksSlow) }

func vfJwksSlow() {
	vfFetchTakes = 0
	vfFetches, vfFetching, vfFetchingMax = nil, 0, 0
	c := &vfClient{}
	alg := "RS256"
	url := vfPublish(&vfRemoteSet{keys: []vfRemoteKey{{kid: "k0", alg: alg, material: alg}}})
	j := NewJwt("j", alg, "", url, "120")
	vfAssert("startup", j.Validate() == nil)
	vfGuarded(c, j)
	vfFetchTakes = vfTicks("fetch-takes", 40)
	if vfChoice("fails", 2) == 1 {
		vfPublish(&vfRemoteSet{fail: true})
	}
	t := &vfTok{alg: alg, keys: []int{1}, kid: "k1"}
	t.dates(vfNoDates)
	tok := vfMint(t)
	defer func() { vfFetchTakes = 0 }()
	done := []time.Time{}
	for i := 0; i < 3+vfTier(); i++ {
		if i > 0 {
			time.Sleep(vfTicks("gap", 120) + 130*time.Millisecond)
		}
		n := len(vfFetches)
		now := time.Now()
		if i == 1 && vfChoice("together", 2) == 1 {
			vfSched()
			var wg sync.WaitGroup
			wg.Add(2)
			for k := 0; k < 2; k++ {
				go func() {
					defer wg.Done()
					w := newVfWriter()
					r := vfRequest("GET", "/api", nil)
					r.Header["Authorization"] = []string{"Bearer " + tok}
					proxyHandler(w, r)
					vfAssert("rejected", w.code == 401)
				}()
			}
			wg.Wait()
		} else {
			vfAssert("rejected", vfNot(vfTry(c, tok)))
		}
		time.Sleep(time.Millisecond)
		if len(vfFetches) > n {
			vfCover("fetched")
			vfAssert("one-fetch", len(vfFetches) == n+1)
			done = append(done, now)
		} else {
			vfCover("skipped")
			vfAssert("only-recent-fetches-suppress", now.Sub(vfFetches[n-1]) <= vfFetchTakes+11*time.Second)
		}
	}
	vfAssert("one-at-a-time", vfFetchingMax == 1)
	for i := 2; i < len(vfFetches); i++ {
		vfAssert("ten-seconds-apart", vfFetches[i].Sub(vfFetches[i-1]) >= 10*time.Second)
	}
}

// the key set as a map from kid to key, whatever the history of updates.
func vfH_KeySet() {
	var ks KeySet
	n := vfChoice("n", 4+vfTier())
	var kids []string
	for i := 0; i < n; i++ {
		k := vfStr("kid", vfChoice("len", 3))
		ks.Upsert(KidPair{Kid: k, Key: i})
		kids = append(kids, k)
	}
	ask := vfStr("ask", vfChoice("len", 3))
	got := ks.Find(ask)
	// the last update of that kid counts
	want := -1
	for i, k := range kids {
		want = vfIteI(vfEqS(k, ask), i, want)
	}
	if got == nil {
		vfCover("absent")
		vfAssert("absent", want == -1)
	} else {
		vfCover("present")
		vfAssert("latest", got.(int) == want)
	}
	for i := range ks {
		for j := range ks[:i] {
			vfAssert("one-key-per-kid", vfNot(vfEqS(ks[i].Kid, ks[j].Kid)))
		}
	}
}

// key sets that change again and again, and a second key set beside it.
func vfH_JwksAgain() { vfVirtual(vfJwksAgain) }

func vfJwksAgain() {
	vfFetchTakes = 0
	vfFetches, vfFetching, vfFetchingMax = nil, 0, 0
	alg := []string{"RS256", "ES256"}[vfChoice("alg", 2)]
	c := &vfClient{}
	key := func(kid string, i int) vfRemoteKey { return vfRemoteKey{kid: kid, alg: alg, material: alg, key: i} }
	url := vfPublish(&vfRemoteSet{keys: []vfRemoteKey{key("k0", 0)}})
	urlOther := vfPublishOther(&vfRemoteSet{keys: []vfRemoteKey{key("k0", 3)}})
	j := NewJwt("j", alg, "", url, "120")
	vfAssert("startup", j.Validate() == nil)
	other := NewJwt("other", alg, "", urlOther, "120")
	vfAssert("startup", other.Validate() == nil)
	g := vfGuarded(c, j)
	g.Jwt["other"] = other
	g.Routes = append(Routes{Route{Path: "/two", Resource: g.Routes[0].Resource, Policy: g.Routes[0].Policy, Jwt: "other"}}, g.Routes...)
	Runner.Config = *Runner.Config.compileRoutePaths()
	tok := func(kid string, i int) string {
		t := &vfTok{alg: alg, keys: []int{i}, kid: kid}
		t.dates(vfNoDates)
		return vfMint(t)
	}
	// key the kid stands for by now, -1 for none
	k1, k2 := -1, -1
	for i := 0; i < 2+vfTier(); i++ {
		rem := &vfRemoteSet{}
		n1, n2 := k1, k2
		switch vfChoice("update", 5) {
		case 0:
			rem.fail = true
		case 1:
			rem.keys = []vfRemoteKey{key("k0", 0)}
		case 2:
			n1 = 1
			rem.keys = []vfRemoteKey{key("k0", 0), key("k1", 1)}
		case 3:
			n1 = 4
			rem.keys = []vfRemoteKey{key("k1", 4)}
		case 4:
			n2 = 2
			rem.keys = []vfRemoteKey{key("k0", 0), key("k2", 2)}
		}
		vfPublish(rem)
		// asks for whatever is unknown still
		asked := false
		if k1 < 0 {
			vfTry(c, tok("k1", 1))
			asked = true
		} else if k2 < 0 {
			vfTry(c, tok("k2", 2))
			asked = true
		}
		time.Sleep(500 * time.Millisecond)
		if asked {
			vfCover("asked")
			k1, k2 = n1, n2
		}
		vfAssert("known-key-kept", vfTry(c, tok("k0", 0)))
		// with a kid that is known these do not ask again
		if k1 >= 0 {
			vfCover("found")
			vfAssert("new-key-usable", vfTry(c, tok("k1", k1)))
			vfAssert("exactly-the-new-key-usable", vfNot(vfTry(c, tok("k1", 5-k1))))
		}
		if k2 >= 0 {
			vfAssert("new-key-usable", vfTry(c, tok("k2", 2)))
		}
		if i == 0 {
			// the other key set is looked for on its own account
			n := len(vfFetches)
			vfPublishOther(&vfRemoteSet{keys: []vfRemoteKey{key("k0", 3), key("k1", 5)}})
			vfAssert("stranger", vfNot(vfTryAt(c, "/two", tok("k1", 1))))
			time.Sleep(500 * time.Millisecond)
			vfAssert("own-fetch", len(vfFetches) == n+1)
			vfAssert("new-key-usable", vfTryAt(c, "/two", tok("k1", 5)))
			vfAssert("known-key-kept", vfTryAt(c, "/two", tok("k0", 3)))
			vfAssert("stranger", vfNot(vfTryAt(c, "/two", tok("k1", 4))))
			vfAssert("stranger", vfNot(vfTryAt(c, "/two", tok("k0", 0))))
			vfAssert("stranger", vfNot(vfTry(c, tok("k0", 3))))
			vfAssert("stranger", vfNot(vfTry(c, tok("k0", 5))))
		}
		time.Sleep(11*time.Second + vfTicks("gap", 60))
	}
}
