package j8a

import (
	"context"
	"crypto/tls"
	"errors"
	"net"
	"net/http"
	"net/url"
	"os"
	"time"
)

func init() {
	vfHarness["Client"] = vfH_Client
	vfHarness["Redirect"] = vfH_Redirect
	vfHarness["Server"] = vfH_Server
	vfHarness["ServerTLS"] = vfH_ServerTLS
}

type vfDialed struct {
	dialer  *net.Dialer
	address string
}

var vfDials []vfDialed

func vfOnDial(d *net.Dialer, address string) error {
	vfDials = append(vfDials, vfDialed{d, address})
	return errors.New("connection refused")
}

func vfM_Dialer_DialContext(d *net.Dialer, ctx context.Context, network, address string) (net.Conn, error) {
	return nil, vfOnDial(d, address)
}

// vfSeconds tells whether d is n seconds.
func vfSeconds(d time.Duration, n int) bool { return d == time.Duration(n)*time.Second }

// the client the gateway makes for itself.
func vfH_Client() {
	cfg := vfConfig()
	u := Upstream{
		PoolSize:              vfInt("pool", 1, 1<<20),
		IdleTimeoutSeconds:    vfInt("idle", 1, 1<<20),
		SocketTimeoutSeconds:  vfInt("socket", 1, 1<<20),
		ReadTimeoutSeconds:    vfInt("read", 1, 1<<20),
		MaxAttempts:           vfInt("attempts", 1, 1<<20),
		TlsInsecureSkipVerify: vfBool("insecure"),
	}
	cfg.Connection.Upstream = u
	httpClient = nil
	// only the configuration counts
	for _, n := range []string{"HTTP_PROXY", "HTTPS_PROXY", "http_proxy", "https_proxy", "ALL_PROXY"} {
		os.Setenv(n, "http://proxy.example:3128")
	}
	vfAssert("starts", vfBoot(cfg))
	if vfServer == nil {
		return
	}
	hc, ok := httpClient.(*http.Client)
	vfAssume(ok)
	tr, ok := hc.Transport.(*http.Transport)
	vfAssume(ok)
	vfCover("client")
	insecure := tr.TLSClientConfig != nil && tr.TLSClientConfig.InsecureSkipVerify
	vfAssert("verifies-unless-told-otherwise", insecure == u.TlsInsecureSkipVerify)
	vfAssert("system-roots", tr.TLSClientConfig == nil || tr.TLSClientConfig.RootCAs == nil)
	vfAssert("no-weaker-tls", tr.TLSClientConfig == nil || tr.TLSClientConfig.MinVersion == 0 || tr.TLSClientConfig.MinVersion >= tls.VersionTLS12)
	vfAssert("own-name", tr.TLSClientConfig == nil || tr.TLSClientConfig.ServerName == "")
	vfAssert("pool", tr.MaxIdleConns == u.PoolSize)
	vfAssert("pool-per-host", tr.MaxIdleConnsPerHost == u.PoolSize)
	vfAssert("connections-unlimited", tr.MaxConnsPerHost == 0)
	vfAssert("connections-reused", !tr.DisableKeepAlives)
	vfAssert("idle", vfSeconds(tr.IdleConnTimeout, u.IdleTimeoutSeconds))
	vfAssert("handshake", vfSeconds(tr.TLSHandshakeTimeout, u.SocketTimeoutSeconds))
	// the handler times attempts itself
	rd := time.Duration(u.ReadTimeoutSeconds) * time.Second
	vfAssert("no-earlier-timeout", vfOr(hc.Timeout == 0, hc.Timeout >= rd))
	vfAssert("no-earlier-header-timeout", vfOr(tr.ResponseHeaderTimeout == 0, tr.ResponseHeaderTimeout >= rd))
	vfAssert("no-shared-cookies", hc.Jar == nil)
	if tr.Proxy != nil {
		for _, sc := range []string{"http", "https"} {
			p, err := tr.Proxy(&http.Request{Method: "GET", URL: &url.URL{Scheme: sc, Host: "up.example:8080"}})
			vfAssert("no-proxy", p == nil && err == nil)
		}
	}
	vfAssert("one-way-to-connect", tr.DialTLS == nil && tr.DialTLSContext == nil)
	vfAssert("connect-timeout-set", tr.DialContext != nil)
	if tr.DialContext != nil {
		vfDials = nil
		_, err := tr.DialContext(context.Background(), "tcp", "up.example:8080")
		vfAssert("connects-once", err != nil && len(vfDials) == 1)
		if len(vfDials) == 1 {
			vfAssert("connects-there", vfDials[0].address == "up.example:8080")
			vfAssert("connect-timeout", vfSeconds(vfDials[0].dialer.Timeout, u.SocketTimeoutSeconds))
		}
	}
}

// redirects are the client's business.
func vfH_Redirect() {
	cfg := vfConfig()
	httpClient = nil
	vfAssert("starts", vfBoot(cfg))
	if vfServer == nil {
		return
	}
	hc, ok := httpClient.(*http.Client)
	vfAssume(ok)
	vfCover("redirect")
	vfAssert("redirects-intercepted", hc.CheckRedirect != nil)
	if hc.CheckRedirect == nil {
		return
	}
	m := vfMethods[vfChoice("method", len(vfMethods))]
	code := vfInt("status", 300, 399)
	from := []string{"http://up.example:8080/api/x", "https://up.example/api/x"}[vfChoice("from", 2)]
	to := []string{"http://up.example:8080/api/y", "https://up.example/api/x", "http://other.example/", "http://169.254.169.254/", "https://up.example:8080/api/x", "http://up.example/api/x", "http://up.example:8080/api/x", "/api/z"}[vfChoice("to", 8)]
	uf, _ := url.Parse(from)
	ut, _ := url.Parse(to)
	first := &http.Request{Method: m, URL: uf, Header: http.Header{}}
	var via []*http.Request
	for i := 0; i <= vfChoice("hops", 3); i++ {
		via = append(via, first)
	}
	next := &http.Request{Method: m, URL: ut, Header: http.Header{}, Response: &http.Response{StatusCode: code, Header: http.Header{"Location": {to}}, Request: first}}
	vfAssert("never-follows", hc.CheckRedirect(next, via) == http.ErrUseLastResponse)
}

// the server the gateway listens with.
func vfH_Server() {
	cfg := vfConfig()
	d := Downstream{
		ReadTimeoutSeconds:      vfInt("read", 1, 1<<20),
		RoundTripTimeoutSeconds: vfInt("roundtrip", 1, 1<<20),
		IdleTimeoutSeconds:      vfInt("idle", 1, 1<<20),
		MaxBodyBytes:            int64(vfInt("body", 1, 1<<40)),
		Mode:                    "HTTP",
		Port:                    []int{1, 80, 443, 8080, 65535}[vfChoice("port", 5)],
	}
	cfg.Connection.Downstream = d
	httpClient = &vfClient{}
	vfAssert("starts", vfBoot(cfg))
	if vfServer == nil {
		return
	}
	vfCover("server")
	vfServerLimits(d)
	vfAssert("plain", !vfServerTLS)
}

func vfServerLimits(d Downstream) {
	vfAssert("read-timeout", vfSeconds(vfServer.ReadTimeout, d.ReadTimeoutSeconds))
	vfAssert("header-timeout", vfOr(vfServer.ReadHeaderTimeout == 0, vfSeconds(vfServer.ReadHeaderTimeout, d.ReadTimeoutSeconds)))
	vfAssert("idle-timeout", vfSeconds(vfServer.IdleTimeout, d.IdleTimeoutSeconds))
	// there is time left to send the 504
	vfAssert("write-timeout", vfServer.WriteTimeout > time.Duration(d.RoundTripTimeoutSeconds)*time.Second)
	vfAssert("write-timeout-bounded", vfServer.WriteTimeout <= time.Duration(d.RoundTripTimeoutSeconds+10)*time.Second)
	vfAssert("handler", vfServer.Handler != nil)
}

// with TLS.
func vfH_ServerTLS() {
	cfg := vfConfig()
	ca := vfNewCert("root", nil, true, 100, 0)
	leaf := vfNewCert("leaf", ca, false, 100, 1)
	d := Downstream{
		ReadTimeoutSeconds:      vfInt("read", 1, 1<<20),
		RoundTripTimeoutSeconds: vfInt("roundtrip", 1, 1<<20),
		IdleTimeoutSeconds:      vfInt("idle", 1, 1<<20),
		MaxBodyBytes:            64,
		Mode:                    []string{"TLS", "tls", "Tls"}[vfChoice("mode", 3)],
		Port:                    8443,
		Cert:                    vfCertPem(leaf) + vfCertPem(ca),
		Key:                     vfKeyPem(leaf),
	}
	cfg.Connection.Downstream = d
	httpClient = &vfClient{}
	vfAssert("starts", vfBoot(cfg))
	if vfServer == nil {
		return
	}
	vfCover("tls")
	vfServerLimits(d)
	vfAssert("serves-tls", vfServerTLS && vfServer.TLSConfig != nil)
	c := vfServer.TLSConfig
	if c == nil {
		return
	}
	vfAssert("at-least-tls12", c.MinVersion >= tls.VersionTLS12)
	vfAssert("tls13-allowed", c.MaxVersion == 0 || c.MaxVersion >= tls.VersionTLS13)
	vfAssert("one-certificate", len(c.Certificates) == 1 && c.GetCertificate == nil && c.GetConfigForClient == nil)
	if len(c.Certificates) == 1 {
		ch := c.Certificates[0].Certificate
		vfAssert("configured-chain", len(ch) == 2 && string(ch[0]) == string(leaf.der) && string(ch[1]) == string(ca.der))
		vfAssert("configured-key", c.Certificates[0].PrivateKey != nil)
	}
	vfAssert("ciphers-chosen", len(c.CipherSuites) > 0)
	for _, s := range c.CipherSuites {
		strong := false
		for _, g := range vfStrong {
			strong = strong || s == g
		}
		vfAssert("forward-secret-aead", strong)
	}
	for _, k := range c.CurvePreferences {
		vfAssert("known-curve", k == tls.CurveP256 || k == tls.CurveP384 || k == tls.CurveP521 || k == tls.X25519 || k > 4000)
	}
	vfAssert("no-client-certificates", c.ClientAuth == tls.NoClientCert && !c.InsecureSkipVerify && c.KeyLogWriter == nil)
}

// forward secret suites with authenticated encryption
var vfStrong = []uint16{
	tls.TLS_AES_128_GCM_SHA256, tls.TLS_AES_256_GCM_SHA384, tls.TLS_CHACHA20_POLY1305_SHA256,
	tls.TLS_ECDHE_RSA_WITH_AES_128_GCM_SHA256, tls.TLS_ECDHE_RSA_WITH_AES_256_GCM_SHA384,
	tls.TLS_ECDHE_ECDSA_WITH_AES_128_GCM_SHA256, tls.TLS_ECDHE_ECDSA_WITH_AES_256_GCM_SHA384,
	tls.TLS_ECDHE_RSA_WITH_CHACHA20_POLY1305_SHA256, tls.TLS_ECDHE_ECDSA_WITH_CHACHA20_POLY1305_SHA256,
}
