package j8a

import (
	"net/http"
	"strconv"
	"strings"
)

func init() {
	vfHarness["Address"] = vfH_Address
	vfHarness["AddressRich"] = vfH_AddressRich
	vfHarness["Handshake"] = vfH_Handshake
}

// vfDigits is a number of n digits written the way the system does, any digits but no leading zero.
func vfDigits(label string, n int, hex bool) string {
	b := vfBytes(label, n)
	for i := range b {
		d := vfAnd(b[i] >= '0', b[i] <= '9')
		if hex {
			d = vfOr(d, vfAnd(b[i] >= 'a', b[i] <= 'f'))
		}
		vfAssume(d)
	}
	if n > 1 {
		vfAssume(b[0] != '0')
	}
	if !hex && n == 3 {
		vfAssume(vfOr(b[0] == '1', vfAnd(b[0] == '2', vfOr(b[1] < '5', vfAnd(b[1] == '5', b[2] <= '5')))))
	}
	return string(b)
}

// vfAddr4 is any IPv4 address.
func vfAddr4() string {
	s := ""
	for i := 0; i < 4; i++ {
		if i > 0 {
			s += "."
		}
		s += vfDigits("o"+strconv.Itoa(i), 1+vfChoice("len"+strconv.Itoa(i), 3), false)
	}
	return s
}

// vfAddr6 is an IPv6 address with head groups before and tail groups after the gap, 8 groups means no gap; one group
// has another length than the others.
func vfAddr6(local bool) (string, int) {
	tail := 0
	head := vfChoice("head", 9)
	if head == 7 || local && head == 0 {
		vfAssume(false)
	}
	if head < 7 {
		tail = vfChoice("tail", 7-head)
	}
	n := 1 + vfChoice("len", 4)
	odds := []int{-1}
	for _, o := range []int{1, head, head + tail} {
		if o > 0 && o != odds[len(odds)-1] {
			odds = append(odds, o)
		}
	}
	odd, on := odds[vfChoice("odd", len(odds))], 1
	if n == 1 {
		on = 4
	}
	s := ""
	for i := 0; i < head+tail; i++ {
		if i == head {
			s += "::"
		} else if i > 0 {
			s += ":"
		}
		k := n
		if i+1 == odd {
			k = on
		}
		if i == 0 && local {
			s += "fe80"
			continue
		}
		s += vfDigits("g"+strconv.Itoa(i), k, true)
	}
	if tail == 0 && head < 8 {
		s += "::"
	}
	return s, n
}

// vfEndpoint is where a connection comes from: host:port as the system writes it, and what the log may call it.
func vfEndpoint() (string, string, string) {
	ports := []string{"1", "443", "65535"}
	family := vfChoice("family", 3)
	if family == 0 {
		vfCover("v4")
		a := vfAddr4()
		return a + ":" + ports[len(a)%3], a, a
	}
	a, n := vfAddr6(family == 2)
	if family == 1 {
		vfCover("v6")
		return "[" + a + "]:" + ports[n%3], a, a
	}
	vfCover("zone")
	z := []string{"eth0", "en1", "ab12"}[n%3]
	return "[" + a + "%" + z + "]:" + ports[n%3], a, a + "%" + z
}

// the record of an exchange names the address the request came from.
func vfH_Address() { vfH_addressed("GET", "/api/x", false) }

// so does the record of every kind of exchange.
func vfH_AddressRich() {
	vfH_addressed([]string{"GET", "POST", "BREW"}[vfChoice("method", 3)],
		[]string{"/api/x", "/nowhere", "/about", "/jjj/x", "/tt/x"}[vfChoice("target", 5)], true)
}

func vfH_addressed(m, uri string, fixed bool) {
	from, a, b := "", "", ""
	if fixed {
		i := vfChoice("from", 7)
		a = []string{"203.0.113.9", "2001:db8::a:b:c:d", "fe80::1:2:3:4", "127.0.0.1", "10.1.2.3", "192.168.1.20", "::1"}[i]
		b = []string{a, a, a + "%eth0", a, a, a, a}[i]
		from = b + ":4711"
		if strings.Contains(a, "::") {
			from = "[" + b + "]:4711"
		}
	} else {
		from, a, b = vfEndpoint()
	}
	c := vfSeqBoot()
	c.script = []vfUp{{status: 200, body: []byte("up")}}
	r := vfRequest(m, uri, nil)
	r.RemoteAddr = from
	if fixed && vfChoice("forwarded", 2) == 1 {
		//what the client says about itself is not where it came from
		for _, h := range []string{"X-Forwarded-For", "X-Real-Ip", "X-Client-Ip", "True-Client-Ip", "Cf-Connecting-Ip", "X-Cluster-Client-Ip"} {
			r.Header[h] = []string{"10.9.8.7"}
		}
		r.Header["Forwarded"] = []string{"for=10.9.8.7"}
	}
	w := newVfWriter()
	vfVirtual(func() {
		vfLogCapture()
		vfServer.Handler.ServeHTTP(w, r)
		i := vfRecord()
		if i < 0 {
			return
		}
		vfCover("recorded")
		got := vfLogS(i, "dwnReqRemoteAddr")
		vfAssert("address", vfOr(vfEqS(got, a), vfEqS(got, b)))
	})
}

// a client that fails the TLS handshake is warned about with its address.
func vfH_Handshake() {
	from, a, b := vfEndpoint()
	local := "192.0.2.1:443"
	if from[0] == '[' {
		local = "[2001:db8::1]:443"
	}
	reason := []string{"EOF", "read tcp " + local + "->" + from + ": read: connection reset by peer",
		"tls: client offered only unsupported versions: [302 301]"}[vfChoice("reason", 3)]
	vfSeqBoot()
	s := vfServer
	vfAssert("server-log", s.ErrorLog != nil)
	if s.ErrorLog == nil {
		return
	}
	vfLogCapture()
	vfServerLog(s, "http: TLS handshake error from "+from+": "+reason)
	n := 0
	for i := 0; i < vfLogLen(); i++ {
		if vfLogLevel(i) == "warn" && vfLogHas(i, "dwnReqRemoteAddr") {
			n++
			got := vfLogS(i, "dwnReqRemoteAddr")
			vfAssert("address", vfOr(vfEqS(got, a), vfEqS(got, b)))
		}
	}
	vfAssert("one-warning", n == 1)
}

func vfServerLog(s *http.Server, msg string) { s.ErrorLog.Printf("%s", msg) }
