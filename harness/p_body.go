package j8a

import (
	"context"
	"errors"
	"io"
	"net/http"
	"strconv"
	"strings"
)

func init() {
	vfHarness["Body"] = vfH_Body
	vfHarness["Gzip"] = vfH_Gzip
	vfHarness["ReqBody"] = vfH_ReqBody
	vfHarness["ReqBodyBroken"] = vfH_ReqBodyBroken
	vfHarness["BigBody"] = vfH_BigBody
	vfHarness["Length"] = vfH_Length
}

// the body a client decodes is the body the upstream meant, for every pair of encodings.
func vfH_Body() {
	enc := vfChoice("enc", 10)
	n := vfChoice("n", 4+vfTier())
	m := []string{"GET", "POST", "PUT", "OPTIONS"}[vfChoice("method", 4)]
	payload := vfBytes("p", n)
	st := vfInt("status", 200, 399)
	vfAssume(vfAnd(st != 204, st != 304))
	h := http.Header{"Content-Type": {"application/octet-stream"}}
	body := payload
	label := ""
	switch enc {
	case 1:
		label = "identity"
	case 2:
		label = "gzip"
		body = vfZip(payload)
	case 8:
		// two gzip files, one after the other
		label = "gzip"
		body = append(vfZip(payload), vfZip([]byte("e"))...)
		payload = append(append([]byte{}, payload...), 'e')
	case 3:
		label = "br"
	case 4:
		// a gzip file that is not meant to be unpacked on the way
		payload = vfZip(payload)
		body = payload
	case 5:
		label = "GZIP"
		body = vfZip(payload)
	case 6:
		payload = vfZip(payload)
		body = payload
		label = "identity"
	case 7:
		label = "x-other"
		if i := vfChoice("label", 1+len(vfMinedStrs)); i > 0 && vfNameable(vfMinedStrs[i-1]) {
			label = vfMinedStrs[i-1]
			if vfChoice("zipped", 2) == 1 {
				payload = vfZip(payload)
				body = payload
			}
		}
	}
	other := label == "br" || enc == 7 || enc == 9
	switch strings.ToLower(label) {
	case "identity", "gzip":
		vfAssume(enc != 7)
	}
	if label != "" {
		h["Content-Encoding"] = []string{label}
	}
	if enc == 9 {
		// encoded twice, in one line or in two
		h["Content-Encoding"] = [][]string{{"gzip", "br"}, {"br", "gzip"}, {"gzip, br"}, {"br,gzip"}}[vfChoice("twice", 4)]
		label = strings.ReplaceAll(strings.Join(h["Content-Encoding"], ","), " ", "")
	}
	c := &vfClient{script: []vfUp{{status: st, hdr: h, body: body, chunk: vfChoice("chunk", 2)}}}
	vfGateway(c)
	var rb []byte
	if m == "POST" || m == "PUT" {
		rb = []byte("r")
	}
	req := vfRequest(m, "/api", rb)
	wants := vfAccept(req, len(vfAccepts))
	w := newVfWriter()
	proxyHandler(w, req)
	vfAssert("one-response", w.heads == 1)
	vfAssert("status", w.code == st)
	ce := w.sent["Content-Encoding"]
	vfAssert("at-most-one-encoding-label", len(ce) <= 1 || (enc == 9 && len(w.body) == 0))
	l := vfOne(w.sent, "Content-Encoding")
	vfObsS("label", l)
	switch {
	case l == "gzip" || l == "GZIP":
		vfAssert("gzip-only-when-accepted", wants || len(w.body) == 0)
		d, ok := vfUnzip(w.body)
		if len(w.body) > 0 {
			vfCover("gzip")
			vfAssert("gzip-label-true", ok)
			vfAssert("gzip-not-over-another-encoding", !other)
			vfAssert("gzip-body-faithful", vfSame(d, payload))
		} else {
			vfAssert("empty-stays-empty", len(body) == 0 || n == 0 && enc != 8)
		}
	case enc == 9 && n == 0 && len(w.body) == 0:
	case other && (l == label || enc == 9 && strings.ReplaceAll(l, " ", "") == label && vfListed(l)):
		vfCover("other-encoding")
		vfAssert("other-encoding-untouched", vfSame(w.body, body))
	default:
		vfCover("identity")
		vfAssert("label", l == "" || l == "identity")
		vfAssert("other-encoding-kept-labelled", !other)
		vfAssert("body-faithful", vfSame(w.body, payload))
	}
	vfAssert("content-length", vfOne(w.sent, "Content-Length") == strconv.Itoa(len(w.body)))
}

// vfListed tells whether the members of a list are separated by commas, not by blanks only.
func vfListed(l string) bool {
	for _, m := range strings.Split(l, ",") {
		if strings.Contains(strings.TrimSpace(m), " ") {
			return false
		}
	}
	return true
}

// the codec itself: unzip undoes zip, also when pooled coders are reused after bad input.
func vfH_Gzip() {
	a := vfBytes("a", vfChoice("na", 4))
	b := vfBytes("b", vfChoice("nb", 4))
	if vfChoice("garbage", 2) == 1 {
		g := vfBytes("g", vfChoice("ng", 3))
		Gunzip(g)
	}
	za := *Gzip(a)
	zb := *Gzip(b)
	ra, oka := vfUnzip(za)
	vfAssert("zip-readable", oka && vfSame(ra, a))
	rb, okb := vfUnzip(zb)
	vfAssert("second-zip-readable", okb && vfSame(rb, b))
	da := *Gunzip(za)
	db := *Gunzip(zb)
	dab := *Gunzip(append(append([]byte{}, za...), zb...))
	vfAssert("files-in-a-row", vfSame(dab, append(append([]byte{}, a...), b...)))
	vfAssert("roundtrip", vfSame(da, a))
	vfAssert("second-roundtrip", vfSame(db, b))
	vfAssert("magic", len(za) > 2 && za[0] == 0x1f && za[1] == 0x8b)
}

// Content-Length of every response describes the body sent.
func vfH_Length() {
	m := vfMethods[vfChoice("method", 7)]
	st := vfInt("status", 200, 399)
	n := vfChoice("n", 3)
	clen := vfChoice("clen", 3)
	h := http.Header{}
	c := &vfClient{}
	vfGateway(c)
	body := vfBytes("b", n)
	if n > 1 {
		vfAssume(body[0] != 0x1f)
	}
	digits := ""
	switch clen {
	case 1:
		digits = vfStr("cl", 1+vfChoice("cld", 2))
		if m == "HEAD" && len(digits) == 1 && vfChoice("long", 2) == 1 {
			digits += "2345678901"
		}
		for i := 0; i < len(digits); i++ {
			vfAssume(vfAnd(digits[i] >= '0', digits[i] <= '9'))
		}
		h["Content-Length"] = []string{digits}
	case 2:
		h["Content-Length"] = []string{"nan"}
	}
	if vfChoice("te", 2) == 1 {
		h["Transfer-Encoding"] = []string{"chunked"}
	}
	if m == "HEAD" || n == 0 {
		body = nil
		// what a body would be like does not matter when there is none
		switch vfChoice("about", 7) {
		case 1:
			h["Content-Encoding"] = []string{"gzip"}
		case 2:
			h["Content-Encoding"] = []string{"br"}
		case 3:
			h["Content-Encoding"] = []string{"identity"}
			h["Accept-Ranges"] = []string{"bytes"}
		case 4:
			h["Content-Type"] = []string{"text/event-stream"}
			h["Cache-Control"] = []string{"no-store, no-transform"}
		case 5:
			h["Content-Range"] = []string{"bytes 0-9/10"}
			h["Etag"] = []string{"W/\"x\""}
		case 6:
			h["Connection"] = []string{"close"}
			h["Trailer"] = []string{"X-Sum"}
		}
	} else {
		vfAssume(vfAnd(st != 204, st != 304))
	}
	c.script = []vfUp{{status: st, hdr: h, body: body}}
	req := vfRequest(m, "/api", nil)
	if vfChoice("gz", 2) == 1 {
		req.Header["Accept-Encoding"] = []string{"gzip"}
	}
	w := newVfWriter()
	proxyHandler(w, req)
	vfAssert("one-response", w.heads == 1)
	cl := w.sent["Content-Length"]
	vfAssert("one-content-length", len(cl) == 1)
	vfAssert("no-transfer-encoding", len(w.sent["Transfer-Encoding"]) == 0)
	if len(cl) != 1 {
		return
	}
	if m == "HEAD" {
		if st == 204 {
			return
		}
		vfCover("head")
		vfAssert("head-has-no-body", len(w.body) == 0)
		if clen == 1 {
			vfAssert("head-keeps-upstream-length", vfEqS(cl[0], digits))
		} else {
			vfAssert("head-without-length-says-zero", cl[0] == "0")
		}
		return
	}
	vfCover("body")
	vfAssert("length-is-body-length", cl[0] == strconv.Itoa(len(w.body)))
}

// request bodies of every size around the limit, declared or chunked, in any chunking.
func vfH_ReqBody() {
	max := int64(1 + vfChoice("max", 4+vfTier()))
	n := 0
	if max > int64(3+vfTier()) {
		// any limit that is not reached
		max = vfInt64("limit")
		vfAssume(max >= 1<<20)
		n = vfChoice("n", 5)
	} else {
		n = vfChoice("n", int(max)+3)
	}
	data := vfBytes("d", n)
	chunked := vfChoice("chunked", 2) == 1
	ch := vfChoice("chunk", 3)
	m := []string{"POST", "PUT", "DELETE", "GET"}[vfChoice("method", 4)]
	c := &vfClient{script: []vfUp{{status: 200, body: []byte("ok")}}}
	g := vfGateway(c)
	g.Connection.Downstream.MaxBodyBytes = max
	req := vfRequest(m, "/api", data)
	req.Body = &vfBody{data: data, chunk: ch}
	if chunked {
		req.ContentLength = -1
	}
	w := newVfWriter()
	proxyHandler(w, req)
	vfAssert("one-response", w.heads == 1)
	if int64(n) > max {
		vfCover("too-large")
		vfJSONError("too-large", w, 413, false)
		vfAssert("too-large-never-forwarded", len(c.seen) == 0)
		return
	}
	vfCover("within")
	vfAssert("within-limit-accepted", w.code == 200)
	vfAssert("forwarded-once", len(c.seen) == 1)
	if len(c.seen) == 1 {
		vfAssert("forwarded-whole", vfSame(c.seen[0].body, data))
	}
}

// an upload that breaks off is never passed on as if it were complete.
func vfH_ReqBodyBroken() {
	n := vfChoice("n", 4)
	data := vfBytes("d", n)
	c := &vfClient{script: []vfUp{{status: 200, body: []byte("ok")}}}
	g := vfGateway(c)
	max := []int64{8, 1 << 21, 1<<63 - 1}[vfChoice("limit", 3)]
	g.Connection.Downstream.MaxBodyBytes = max
	m := []string{"POST", "PUT"}[vfChoice("method", 2)]
	req := vfRequest(m, "/api", data)
	end := []error{errors.New("connection reset by peer"), io.ErrUnexpectedEOF, http.ErrBodyReadAfterClose, context.Canceled}[vfChoice("error", 4)]
	req.Body = &vfBody{data: data, chunk: vfChoice("chunk", 2), end: end}
	req.ContentLength = -1
	if vfChoice("chunked", 2) == 0 {
		// the declared length is never reached
		req.ContentLength = vfInt64("declared")
		vfAssume(req.ContentLength > int64(n))
	}
	w := newVfWriter()
	proxyHandler(w, req)
	if req.ContentLength > max {
		vfCover("too-large")
		vfJSONError("too-large-declared", w, 413, false)
		vfAssert("too-large-never-forwarded", len(c.seen) == 0)
		return
	}
	vfCover("broken")
	vfAssert("truncated-upload-never-forwarded", len(c.seen) == 0)
	vfAssert("truncated-upload-rejected", w.heads == 1 && w.code >= 400 && w.code < 500)
}

// a body larger than any size the code under test mentions, either way.
func vfH_BigBody() {
	if len(vfMinedBig) == 0 {
		vfCover("passed")
		return
	}
	d := vfBytes("d", 2)
	vfAssume(d[0] != 0x1f)
	big := vfFill(d, vfMinedBig[vfChoice("big", len(vfMinedBig))]+1)
	rq, rs := []byte("q"), big
	want, raw := rs, rs
	h := http.Header{}
	gz := false
	switch vfChoice("way", 4) {
	case 0:
		rq, want = big, []byte("s")
		raw = want
	case 1:
		gz = true
	case 2:
		h["Content-Encoding"] = []string{"gzip"}
		raw = vfZip(want)
	}
	st := 200
	if vfChoice("declared", 2) == 1 {
		h["Content-Length"] = []string{strconv.Itoa(len(raw))}
	}
	c := &vfClient{script: []vfUp{{status: st, hdr: h, body: raw}}}
	g := vfGateway(c)
	g.Connection.Downstream.MaxBodyBytes = 1 << 30
	req := vfRequest("POST", "/api", rq)
	if gz {
		req.Header["Accept-Encoding"] = []string{"gzip"}
	}
	w := newVfWriter()
	proxyHandler(w, req)
	vfCover("passed")
	vfAssert("one-response", w.heads == 1)
	vfAssert("status", w.code == st)
	vfAssert("forwarded-once", len(c.seen) == 1)
	if len(c.seen) == 1 {
		vfAssert("request-body-whole", vfSame(c.seen[0].body, rq))
	}
	got := w.body
	if vfOne(w.sent, "Content-Encoding") == "gzip" {
		got, _ = vfUnzip(got)
	}
	vfAssert("response-body-whole", vfSame(got, want))
}
