package j8a

import (
	"strconv"
	"time"
)

func init() {
	vfHarness["Defaults"] = vfH_Defaults
	vfHarness["DefaultsFelt"] = vfH_DefaultsFelt
	vfHarness["DefaultWait"] = vfH_DefaultWait
	vfHarness["Mode"] = vfH_Mode
	vfHarness["Schemes"] = vfH_Schemes
	vfHarness["BadRoutes"] = vfH_BadRoutes
}

// vfOr0 is v unless it is not given.
func vfOr0(v, def int) int { return vfIteI(v == 0, def, v) }

// every subset of the connection settings, with any values.
func vfH_Defaults() {
	cfg := vfConfig()
	d := Downstream{
		ReadTimeoutSeconds:      vfInt("read", 0, 1<<20),
		RoundTripTimeoutSeconds: vfInt("roundtrip", 0, 1<<20),
		IdleTimeoutSeconds:      vfInt("idle", 0, 1<<20),
		MaxBodyBytes:            int64(vfInt("body", 0, 1<<40)),
		Mode:                    []string{"", "HTTP", "http"}[vfChoice("mode", 3)],
		Port:                    []int{0, 1, 80, 443, 8081, 65535}[vfChoice("port", 6)],
	}
	u := Upstream{
		PoolSize:              vfInt("pool", 0, 1<<20),
		IdleTimeoutSeconds:    vfInt("up-idle", 0, 1<<20),
		SocketTimeoutSeconds:  vfInt("up-socket", 0, 1<<20),
		ReadTimeoutSeconds:    vfInt("up-read", 0, 1<<20),
		MaxAttempts:           vfInt("attempts", 0, 1<<20),
		TlsInsecureSkipVerify: vfBool("insecure"),
	}
	cfg.Connection = Connection{Downstream: d, Upstream: u}
	httpClient = &vfClient{}
	vfAssert("starts", vfBoot(cfg))
	if vfServer == nil {
		return
	}
	vfCover("started")
	gd, gu := Runner.Connection.Downstream, Runner.Connection.Upstream
	vfAssert("downstream-read", gd.ReadTimeoutSeconds == vfOr0(d.ReadTimeoutSeconds, 120))
	vfAssert("downstream-roundtrip", gd.RoundTripTimeoutSeconds == vfOr0(d.RoundTripTimeoutSeconds, 240))
	vfAssert("downstream-idle", gd.IdleTimeoutSeconds == vfOr0(d.IdleTimeoutSeconds, 120))
	vfAssert("downstream-body", int(gd.MaxBodyBytes) == vfOr0(int(d.MaxBodyBytes), 2<<20))
	vfAssert("upstream-pool", gu.PoolSize == vfOr0(u.PoolSize, 32768))
	vfAssert("upstream-idle", gu.IdleTimeoutSeconds == vfOr0(u.IdleTimeoutSeconds, 120))
	vfAssert("upstream-socket", gu.SocketTimeoutSeconds == vfOr0(u.SocketTimeoutSeconds, 3))
	vfAssert("upstream-read", gu.ReadTimeoutSeconds == vfOr0(u.ReadTimeoutSeconds, 120))
	vfAssert("upstream-attempts", gu.MaxAttempts == vfOr0(u.MaxAttempts, 1))
	vfAssert("upstream-verify", gu.TlsInsecureSkipVerify == u.TlsInsecureSkipVerify)
	port := d.Port
	if port == 0 {
		port = 8080
	}
	vfAssert("port", vfServer.Addr == ":"+strconv.Itoa(port))
	vfAssert("plain-http", !vfServerTLS)
}

// what a gateway without any connection settings does.
func vfH_DefaultsFelt() {
	cfg := vfConfig()
	cfg.Connection = Connection{}
	c := &vfClient{}
	httpClient = c
	vfAssert("starts", vfBoot(cfg))
	if vfServer == nil {
		return
	}
	w := newVfWriter()
	switch vfChoice("what", 2) {
	case 0:
		// bodies up to 2 MB
		vfCover("body")
		n := vfInt("declared", 1, 1<<40)
		r := vfRequest("PUT", "/api", []byte("x"))
		r.ContentLength = int64(n)
		c.script = []vfUp{{status: 200}}
		vfServer.Handler.ServeHTTP(w, r)
		vfAssert("two-megabytes", vfAnd(vfImplies(w.code == 413, n > 2<<20), vfImplies(n > 2<<20, w.code == 413)))
	case 1:
		// a single attempt
		vfCover("attempts")
		st := vfInt("status", 500, 599)
		c.script = []vfUp{{status: st}, {status: 200}}
		if vfChoice("fail", 2) == 1 {
			c.script[0].fail = true
		}
		vfServer.Handler.ServeHTTP(w, vfRequest("GET", "/api", nil))
		vfAssert("one-attempt", len(c.seen) == 1 && w.code == 502)
	}
}

// upstreams have two minutes to answer.
func vfH_DefaultWait() {
	cfg := vfConfig()
	cfg.Connection = Connection{}
	c := &vfClient{}
	httpClient = c
	vfAssert("starts", vfBoot(cfg))
	if vfServer == nil {
		return
	}
	vfCover("wait")
	w := newVfWriter()
	t := vfTicks("wait", 1000)
	c.script = []vfUp{{status: 200, hdrWait: t}}
	vfAssume(vfOr(t < 120*time.Second, t > 120*time.Second))
	var took time.Duration
	vfVirtual(func() {
		start := time.Now()
		vfServer.Handler.ServeHTTP(w, vfRequest("GET", "/api", nil))
		took = time.Since(start)
	})
	vfAssert("two-minutes", vfAnd(vfImplies(t < 120*time.Second, w.code == 200), vfImplies(t > 120*time.Second, w.code == 504)))
	vfAssert("not-longer", took <= 121*time.Second)
}

// TLS is served exactly when asked for, in any letter case.
func vfH_Mode() {
	cfg := vfConfig()
	m := vfStr("mode", vfChoice("len", 5))
	vfPrintable(m)
	tls := len(m) == 3
	for i := 0; i < len(m) && i < 3; i++ {
		tls = vfAnd(tls, vfOr(m[i] == "TLS"[i], m[i] == "tls"[i]))
	}
	cfg.Connection.Downstream.Mode = m
	port := []int{0, 80, 443, 8080}[vfChoice("port", 4)]
	cfg.Connection.Downstream.Port = port
	httpClient = &vfClient{}
	started := vfBoot(cfg)
	if started {
		vfCover("plain")
		vfAssert("never-plain-when-tls-was-asked-for", vfNot(tls))
		if port == 0 {
			port = 8080
		}
		vfAssert("plain", vfServer.Addr == ":"+strconv.Itoa(port) && !vfServerTLS)
	} else {
		vfCover("tls")
		vfAssert("refused-without-certificate", tls)
		if port == 0 {
			port = 443
		}
		vfAssert("tls-port", Runner.Connection.Downstream.Port == port)
	}
}

// the scheme of an upstream is http unless it asks for https.
func vfH_Schemes() {
	cfg := vfConfig()
	pre := []string{"", "http", "https"}[vfChoice("pre", 3)]
	post := ""
	if pre != "" {
		post = []string{"", "://", ":"}[vfChoice("post", 3)]
	}
	port := vfInt("port", 1, 65535)
	cfg.Resources["r"][0].URL.Scheme = pre + post
	cfg.Resources["r"][0].URL.Port = uint16(port)
	cfg.Resources["x"] = []ResourceMapping{{URL: URL{Scheme: "https", Host: "other", Port: 1}}}
	c := &vfClient{script: []vfUp{{status: 200}}}
	httpClient = c
	vfAssert("starts", vfBoot(cfg))
	if vfServer == nil {
		return
	}
	vfAssume(port == 80 || port == 443 || port == 8443)
	w := newVfWriter()
	vfServer.Handler.ServeHTTP(w, vfRequest("GET", "/api/x", nil))
	want := "http"
	if pre == "https" {
		want = "https"
		vfCover("https")
	} else {
		vfCover("http")
	}
	vfAssert("forwarded", len(c.seen) == 1)
	for _, s := range c.seen {
		vfAssert("scheme", s.scheme == want)
		vfAssert("host", s.host == vfHost+":"+strconv.Itoa(port))
	}
}

// no routes at all or malformed ones are refused.
func vfH_BadRoutes() {
	cfg := vfConfig()
	httpClient = &vfClient{}
	switch vfChoice("what", 2) {
	case 0:
		cfg.Routes = nil
		vfCover("refused")
		vfAssert("refused-without-routes", !vfBoot(cfg))
	case 1:
		t := vfStr("transform", vfChoice("len", 3))
		vfPrintable(t)
		cfg.Routes[0].Transform = t
		if vfBoot(cfg) {
			vfCover("accepted")
			vfAssert("transform-is-a-path", len(t) == 0 || t[0] == '/')
		} else {
			vfCover("refused")
			vfAssert("path-accepted", len(t) > 0 && t[0] != '/')
		}
	}
}
