package j8a

import (
	"bytes"
	"context"
	"crypto/tls"
	"crypto/x509"
	"errors"
	"io"
	"net"
	"net/http"
	"net/url"
	"strconv"
	"strings"
	"time"
)

// vfWriter is the downstream connection: it records what a client would see.
type vfWriter struct {
	h      http.Header
	heads  int
	code   int
	sent   http.Header
	body   []byte
	writes int
}

func newVfWriter() *vfWriter { return &vfWriter{h: http.Header{}} }

func (w *vfWriter) Header() http.Header { return w.h }

func (w *vfWriter) WriteHeader(code int) {
	if code < 100 || code > 999 {
		panic("invalid WriteHeader code")
	}
	w.heads++
	if w.heads == 1 {
		w.code = code
		w.sent = http.Header{}
		for k, vs := range w.h {
			w.sent[k] = append([]string(nil), vs...)
		}
	}
}

func (w *vfWriter) Write(b []byte) (int, error) {
	if w.heads == 0 {
		w.WriteHeader(200)
	}
	w.writes++
	w.body = append(w.body, b...)
	return len(b), nil
}

// vfBody is a response or request body.
type vfBody struct {
	data   []byte
	pos    int
	chunk  int
	end    error
	delay  time.Duration
	ctx    interface{ Done() <-chan struct{} }
	reads  int
	closed int
}

func (b *vfBody) Read(p []byte) (int, error) {
	b.reads++
	if b.delay > 0 {
		d := b.delay
		b.delay = 0
		if b.ctx != nil {
			select {
			case <-b.ctx.Done():
				return 0, context.Canceled
			case <-time.After(d):
			}
		} else {
			time.Sleep(d)
		}
	}
	if b.pos >= len(b.data) {
		if b.end != nil {
			return 0, b.end
		}
		return 0, io.EOF
	}
	n := len(b.data) - b.pos
	if b.chunk > 0 && n > b.chunk {
		n = b.chunk
	}
	n = copy(p, b.data[b.pos:b.pos+n])
	b.pos += n
	return n, nil
}

func (b *vfBody) Close() error {
	b.closed++
	return nil
}

// vfUp scripts one upstream attempt.
type vfUp struct {
	fail    bool
	status  int
	hdr     http.Header
	body    []byte
	chunk   int
	bodyErr error
	hdrWait time.Duration
	bodWait time.Duration
	// deaf upstreams ignore cancellation and come back anyway
	deaf bool
}

// vfSent is one request as the upstream saw it.
type vfSent struct {
	method string
	url    string
	scheme string
	host   string
	hdr    http.Header
	body   []byte
	nobody bool
	ctx    interface{ Done() <-chan struct{} }
	at     time.Time
}

// over tells whether a context was cancelled.
func (s *vfSent) over() bool {
	select {
	case <-s.ctx.Done():
		return true
	default:
		return false
	}
}

type vfClient struct {
	script []vfUp
	seen   []*vfSent
	bodies []*vfBody
	extra  int
	nilReq int
	start  time.Time
}

func (c *vfClient) Get(uri string) (*http.Response, error) { return nil, errors.New("not used") }

func (c *vfClient) Do(req *http.Request) (*http.Response, error) {
	if req == nil || req.URL == nil {
		c.nilReq++
		return nil, errors.New("nil request")
	}
	select {
	case <-req.Context().Done():
		// nothing is sent, as with the real transport
		return nil, vfURLError(req, context.Canceled)
	default:
	}
	s := &vfSent{method: req.Method, url: req.URL.String(), scheme: req.URL.Scheme, host: req.URL.Host, hdr: http.Header{}, ctx: req.Context(), at: time.Now()}
	for k, vs := range req.Header {
		s.hdr[k] = append([]string(nil), vs...)
	}
	s.nobody = req.Body == nil
	if req.Body != nil {
		buf := make([]byte, 64)
		for {
			n, err := req.Body.Read(buf)
			s.body = append(s.body, buf[:n]...)
			if err != nil {
				break
			}
		}
	}
	i := len(c.seen)
	c.seen = append(c.seen, s)
	if i >= len(c.script) {
		c.extra++
		return nil, errors.New("no more upstreams")
	}
	u := &c.script[i]
	if u.hdrWait > 0 {
		if u.deaf {
			time.Sleep(u.hdrWait)
		} else {
			select {
			case <-req.Context().Done():
				return nil, vfURLError(req, context.Canceled)
			case <-time.After(u.hdrWait):
			}
		}
	}
	if u.fail {
		return nil, vfURLError(req, vfFault(true, nil))
	}
	b := &vfBody{data: u.body, chunk: u.chunk, end: u.bodyErr, delay: u.bodWait}
	if u.bodyErr != nil {
		b.end = vfFault(false, u.bodyErr)
	}
	if !u.deaf {
		b.ctx = req.Context()
	}
	c.bodies = append(c.bodies, b)
	h := u.hdr
	if h == nil {
		h = http.Header{}
	}
	if e := vfExtra(); e.where == 2 && h[e.name] == nil {
		h[e.name] = []string{e.val}
	}
	// without a declared length the transport says -1
	cl := int64(-1)
	if u.chunk == 0 && req.Method != "HEAD" && u.bodyErr == nil {
		cl = int64(len(u.body))
	}
	return &http.Response{StatusCode: u.status, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: h, Body: b, ContentLength: cl, Request: req}, nil
}

// vfURLError is how the http client wraps errors.
func vfURLError(req *http.Request, err error) error {
	return &url.Error{Op: req.Method[:1] + strings.ToLower(req.Method[1:]), URL: req.URL.String(), Err: err}
}

type vfTimeoutErr struct{}

func (vfTimeoutErr) Error() string   { return "i/o timeout" }
func (vfTimeoutErr) Timeout() bool   { return true }
func (vfTimeoutErr) Temporary() bool { return true }
func (vfTimeoutErr) Is(err error) bool {
	return err == context.DeadlineExceeded
}

// vfFaults chooses among the kinds of errors attempts of an exchange fail with; without it they are refused.
func vfFaults() { vfFaultPick.on, vfFaultPick.picked = true, false }

func vfFault(dial bool, err error) error {
	f := &vfFaultPick
	if !f.on {
		if dial {
			err = &net.OpError{Op: "dial", Net: "tcp", Err: errors.New("connect: connection refused")}
		}
		return err
	}
	if !f.picked {
		f.picked = true
		f.dial = &net.OpError{Op: "dial", Net: "tcp", Err: errors.New("connect: connection refused")}
		f.read = io.ErrUnexpectedEOF
		switch k := vfChoice("fault", 6+len(vfMinedStrs)); k {
		case 0:
		case 1:
			f.dial = x509.UnknownAuthorityError{}
			f.read = &net.OpError{Op: "read", Net: "tcp", Err: errors.New("read: connection reset by peer")}
		case 2:
			f.dial = io.EOF
			f.read = errors.New("http2: server sent GOAWAY and closed the connection")
		case 3:
			f.dial = &net.OpError{Op: "dial", Net: "tcp", Err: vfTimeoutErr{}}
			f.read = &net.OpError{Op: "read", Net: "tcp", Err: vfTimeoutErr{}}
		case 4:
			f.dial = &net.DNSError{Err: "no such host", Name: vfHost, IsNotFound: true}
			f.read = context.DeadlineExceeded
		case 5:
			f.dial = errors.New("http: server gave HTTP response to HTTPS client")
			f.read = io.ErrNoProgress
		default:
			f.dial = errors.New(vfMinedStrs[k-6])
			f.read = errors.New(vfMinedStrs[k-6])
		}
	}
	if dial {
		return f.dial
	}
	return f.read
}

var vfMinedNames = []string{"Connection", "Content-Type", "User-Agent", "Accept", "Cache-Control", "X-Request-Debug"}

// vfExtra is a header with a name or a value the code under test mentions and the harness does not; it is sent
// along by the client (1) or by every upstream (2) of an exchange, once without and once with it.
func vfExtra() *vfMinedT {
	m := &vfMined
	if m.picked {
		return m
	}
	m.picked = true
	ns := 0
	for _, s := range vfMinedStrs {
		if vfNameable(s) {
			ns++
		}
	}
	if len(vfMinedStrs) == 0 {
		return m
	}
	m.where = vfChoice("mined", 4)
	if m.where == 0 {
		return m
	}
	if m.where == 3 {
		m.val = vfMinedStrs[vfChoice("mined.host", len(vfMinedStrs))]
		vfAssume(vfNameable(strings.Replace(m.val, ".", "", -1)))
		return m
	}
	i := vfChoice("mined.name", ns+len(vfMinedNames))
	if i >= ns {
		m.name = vfMinedNames[i-ns]
		m.val = vfMinedStrs[vfChoice("mined.val", len(vfMinedStrs))]
		return m
	}
	for _, s := range vfMinedStrs {
		if vfNameable(s) {
			if i == 0 {
				m.name = http.CanonicalHeaderKey(s)
			}
			i--
		}
	}
	switch v := vfChoice("mined.val", 6+len(vfMinedStrs)) - 4; v {
	case -4:
		m.val = Version
	case -3:
		m.val = `"` + Version + `"`
	case -2:
		m.val = "http://" + vfHost + ":" + strconv.Itoa(vfPort) + "/api/1"
	case -1:
		m.val = "https://gw.example/api/1; a=b"
	case 0:
		m.val = vfStr("mined.chr", 1)
		vfAssume(vfAnd(m.val[0] >= 0x21, m.val[0] < 0x7f))
	case 1:
		m.val = "true"
	default:
		m.val = vfMinedStrs[v-2]
	}
	return m
}

func vfNameable(s string) bool {
	for i := 0; i < len(s); i++ {
		c := s[i]
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '-' || c == '_') {
			return false
		}
	}
	switch http.CanonicalHeaderKey(s) {
	case "Date", "Content-Length", "Transfer-Encoding", "Server", "Content-Encoding", "Accept-Encoding", "Authorization", "X-Request-Id", "Strict-Transport-Security":
		return false
	}
	return true
}

// vfURIable tells whether a text may stand in the path of a request target as it is.
func vfURIable(s string) bool {
	for i := 0; i < len(s); i++ {
		c := s[i]
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9') && !strings.Contains("-_.~!$&'()*+,;=:@/", s[i:i+1]) {
			return false
		}
	}
	return true
}

// vfPadVals adds values to a header until there are as many as the code under test mentions, or one more or less.
func vfPadVals(vs []string) []string {
	if n := vfPadCount(); n > 0 {
		for i := len(vs); i < n; i++ {
			vs = append(vs, "v"+strconv.Itoa(i))
		}
	}
	return vs
}

// vfPadHeader adds headers likewise.
func vfPadHeader(h http.Header) {
	if n := vfPadCount(); n > 0 {
		for i := len(h); i < n; i++ {
			h["X-Pad"+strconv.Itoa(i)] = []string{"v"}
		}
	}
}

func vfPadCount() int {
	k := 0
	for _, n := range vfMinedInts {
		if n <= 256 {
			k++
		}
	}
	if k == 0 || vfMined.padded {
		return 0
	}
	i := vfChoice("count", 1+k)
	if i == 0 {
		return 0
	}
	vfMined.padded = true
	for _, n := range vfMinedInts {
		if n <= 256 {
			i--
			if i == 0 {
				return n + 2
			}
		}
	}
	return 0
}

// vfPad lengthens a body to a size the code under test mentions, or to one more or less.
func vfPad(b []byte) []byte {
	if len(vfMinedInts) == 0 || vfMined.padded {
		return b
	}
	i := vfChoice("pad", 1+len(vfMinedInts))
	if i == 0 {
		return b
	}
	vfMined.padded = true
	return vfFill(b, vfMinedInts[i-1]-1+vfChoice("pad.by", 3))
}

func vfFill(b []byte, n int) []byte {
	if len(b) < n {
		b = append(b, bytes.Repeat([]byte("xxxxxxxxxxxxxxxx"), 1+(n-len(b))/16)[:n-len(b)]...)
	}
	return b
}

// vfVaried makes the circumstances of the exchange vary: how the gateway is served and how the request came in.
func vfVaried() {
	vfMined.variant = vfChoice("variant", 8)
}

func vfTLSMode() bool { return vfMined.variant == 1 || vfMined.variant == 2 }

const vfHost = "up.example"
const vfPort = 8081

func vfResource(host string, port uint16, labels ...string) ResourceMapping {
	return ResourceMapping{Name: "r", Labels: labels, URL: URL{Scheme: "http", Host: host, Port: port}}
}

// vfGateway configures a running gateway with one route and one resource.
func vfGateway(c *vfClient) *Runtime {
	ID = "vfid"
	httpClient = c
	c.start = time.Now()
	Runner = &Runtime{Config: Config{
		Routes:    Routes{Route{Path: "/api", Resource: "r"}},
		Resources: map[string][]ResourceMapping{"r": {vfResource(vfHost, vfPort)}},
		Policies:  map[string]Policy{},
		Jwt:       map[string]*Jwt{},
		Connection: Connection{
			Downstream: Downstream{ReadTimeoutSeconds: 3600, RoundTripTimeoutSeconds: 3600, IdleTimeoutSeconds: 3600, MaxBodyBytes: 64, Mode: HTTP, Port: 8080},
			Upstream:   Upstream{ReadTimeoutSeconds: 3600, SocketTimeoutSeconds: 3, IdleTimeoutSeconds: 3, PoolSize: 8, MaxAttempts: 1},
		},
	}}
	if vfTLSMode() {
		Runner.Connection.Downstream.Mode = TLS
		Runner.Connection.Downstream.Port = 443
	}
	return Runner
}

// vfRequest is what the HTTP server hands the handler for a request line and body.
func vfRequest(method, uri string, body []byte) *http.Request {
	u, err := url.ParseRequestURI(uri)
	if err != nil {
		vfAssume(false)
	}
	r := &http.Request{Method: method, URL: u, RequestURI: uri, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header: http.Header{}, Host: "gw.example", RemoteAddr: "10.1.2.3:4711", ContentLength: int64(len(body))}
	if len(body) > 0 {
		r.Body = &vfBody{data: body}
	} else {
		r.Body = http.NoBody
	}
	switch vfMined.variant {
	case 1:
		r.Proto, r.ProtoMajor, r.ProtoMinor = "HTTP/2.0", 2, 0
		r.TLS = &tls.ConnectionState{Version: tls.VersionTLS13, HandshakeComplete: true, ServerName: "gw.example"}
	case 2:
		r.TLS = &tls.ConnectionState{Version: tls.VersionTLS12, HandshakeComplete: true}
	case 3:
		r.Header["X-Request-Debug"] = []string{"true"}
	case 4:
		r.Proto, r.ProtoMajor, r.ProtoMinor = "HTTP/1.0", 1, 0
		r.Close = true
	case 5:
		r.RemoteAddr = "[2001:db8::7]:443"
		r.Host = "other.example:8080"
		r.Header["User-Agent"] = []string{"curl/7"}
	}
	if e := vfExtra(); e.where == 1 {
		r.Header[e.name] = []string{e.val}
	} else if e.where == 3 {
		r.Host = e.val
		if !strings.Contains(strings.Trim(e.val, "."), ".") {
			r.Host = strings.TrimPrefix(strings.TrimSuffix(e.val, ".")+".gw.example", ".")
		}
	}
	return r
}

var vfMethods = []string{"GET", "HEAD", "OPTIONS", "TRACE", "PUT", "DELETE", "POST", "CONNECT"}

func vfRepeatable(m string) bool { return m != "POST" && m != "CONNECT" }

// vfStatus is an arbitrary final status an upstream may answer with.
func vfStatus(label string) int {
	s := vfInt(label, 0, 999)
	vfAssume(vfOr(vfOr(s < 100, s == 101), s >= 200))
	return s
}

// vfJSONError checks the error wrapper: one response, JSON content type, parsable body naming the code.
func vfJSONError(tag string, w *vfWriter, code int, gz bool) {
	vfAssert(tag+"-one-response", w.heads == 1)
	vfAssert(tag+"-code", w.code == code)
	vfAssert(tag+"-content-type", vfOne(w.sent, "Content-Type") == "application/json")
	vfAssert(tag+"-server", len(w.sent["Server"]) == 1)
	b := w.body
	ce := vfOne(w.sent, "Content-Encoding")
	if ce == "gzip" {
		d, ok := vfUnzip(b)
		vfAssert(tag+"-decodable", ok)
		b = d
	} else {
		vfAssert(tag+"-identity", ce == "" || ce == "identity")
	}
	_ = gz
	vfAssert(tag+"-json", vfHasField(b, `"Code":`+strconv.Itoa(code)))
}

func vfOne(h http.Header, k string) string {
	if len(h[k]) == 0 {
		return ""
	}
	if len(h[k]) > 1 {
		return "<multiple>"
	}
	return h[k][0]
}

// vfHasField: b is a JSON object holding the given "name":value text.
func vfHasField(b []byte, field string) bool {
	n := len(b)
	if n < 2 || b[0] != '{' || b[n-1] != '}' {
		return false
	}
	for i := 1; i+len(field) < n; i++ {
		if string(b[i:i+len(field)]) == field && (b[i-1] == '{' || b[i-1] == ',') {
			c := b[i+len(field)]
			return c == ',' || c == '}'
		}
	}
	return false
}

func vfSame(a, b []byte) bool { return vfEqS(string(a), string(b)) }

func vfVals(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	ok := true
	for i := range a {
		ok = vfAnd(ok, vfEqS(a[i], b[i]))
	}
	return ok
}

func vfPrintable(s string) {
	for i := 0; i < len(s); i++ {
		vfAssume(vfAnd(s[i] >= 0x21, s[i] < 0x7f))
	}
}

// what a client accepts, and whether gzip is part of it
var vfAccepts = []struct {
	vals []string
	gzip bool
}{
	{nil, false},
	{[]string{"gzip"}, true},
	{[]string{"identity"}, false},
	{[]string{"deflate, gzip, br"}, true},
	{[]string{"br"}, false},
	{[]string{"br", "gzip"}, true},
	{[]string{"gzip", "br"}, true},
	{[]string{"gzip;q=0"}, false},
	{[]string{"br;q=1.0, gzip ; q=0.000, identity; q=0.5"}, false},
	{[]string{"gzip;q=0.5, identity"}, true},
	{[]string{"identity, *;q=0"}, false},
	{[]string{"br, *;q=0.0"}, false},
	{[]string{""}, false},
	{[]string{"gz"}, false},
	{[]string{"deflate;q=0, gzip;q=1"}, true},
	{[]string{"zstd, compress"}, false},
}

// vfAccept gives a request one of the ways of accepting encodings and tells whether gzip may be sent.
func vfAccept(r *http.Request, n int) bool {
	a := vfAccepts[vfChoice("accept", n)]
	if a.vals != nil {
		r.Header["Accept-Encoding"] = a.vals
	}
	return a.gzip
}
