package main

import (
	"fmt"
	"go/types"
	"math"
	"math/big"
	"reflect"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

type intrinsic func(w *Worker, fr *frame, fn *ssa.Function, args []value) value

var intrinsics = map[string]intrinsic{}

func reg(name string, f intrinsic) { intrinsics[name] = f }

func lookupIntrinsic(name string) intrinsic {
	if f, ok := intrinsics[name]; ok {
		return f
	}
	return nil
}

// modelTable: harness function -> function of a dependency that it stands in for.
var modelTable = map[string]string{
	"vfM_gzip_NewWriter":          "compress/gzip.NewWriter",
	"vfM_gzip_NewWriterLevel":     "compress/gzip.NewWriterLevel",
	"vfM_gzip_Writer_Reset":       "(*compress/gzip.Writer).Reset",
	"vfM_gzip_Writer_Write":       "(*compress/gzip.Writer).Write",
	"vfM_gzip_Writer_Close":       "(*compress/gzip.Writer).Close",
	"vfM_gzip_Writer_Flush":       "(*compress/gzip.Writer).Flush",
	"vfM_gzip_NewReader":          "compress/gzip.NewReader",
	"vfM_gzip_Reader_Reset":       "(*compress/gzip.Reader).Reset",
	"vfM_gzip_Reader_Read":        "(*compress/gzip.Reader).Read",
	"vfM_gzip_Reader_Multistream": "(*compress/gzip.Reader).Multistream",
	"vfM_gzip_Reader_Close":       "(*compress/gzip.Reader).Close",
	"vfM_jwt_Parse":               "github.com/lestrrat-go/jwx/jwt.Parse",
	"vfM_jws_Parse":               "github.com/lestrrat-go/jwx/jws.Parse",
	"vfM_jws_Verify":              "github.com/lestrrat-go/jwx/jws.Verify",
	"vfM_jwk_Fetch":               "github.com/lestrrat-go/jwx/jwk.Fetch",
	"vfM_pem_Decode":              "encoding/pem.Decode",
	"vfM_x509_ParsePKIX":          "crypto/x509.ParsePKIXPublicKey",
	"vfM_x509_ParseCert":          "crypto/x509.ParseCertificate",
	"vfM_x509_CertVerify":         "(*crypto/x509.Certificate).Verify",
	"vfM_tls_X509KeyPair":         "crypto/tls.X509KeyPair",
	"vfM_CertPool_AddCert":        "(*crypto/x509.CertPool).AddCert",
	"vfM_CertPool_Subjects":       "(*crypto/x509.CertPool).Subjects",
	"vfM_Dialer_DialContext":      "(*net.Dialer).DialContext",
	"vfM_durafmt_Parse":           "github.com/hako/durafmt.Parse",
	"vfM_durafmt_String":          "(*github.com/hako/durafmt.Durafmt).String",
	"vfM_time_Sub":                "(time.Time).Sub",
	"vfM_time_Format":             "(time.Time).Format",
	"vfM_osExit":                  "os.Exit",
	"vfM_ListenAndServe":          "(*net/http.Server).ListenAndServe",
	"vfM_ListenAndServeTLS":       "(*net/http.Server).ListenAndServeTLS",
	"vfM_process_NewProcess":      "github.com/shirou/gopsutil/process.NewProcess",
	"vfM_getSample":               "github.com/simonmittag/j8a.getSample",
	"vfM_Process_Percent":         "(*github.com/shirou/gopsutil/process.Process).Percent",
	"vfM_Process_MemoryPercent":   "(*github.com/shirou/gopsutil/process.Process).MemoryPercent",
	"vfM_Process_MemoryInfo":      "(*github.com/shirou/gopsutil/process.Process).MemoryInfo",
	"vfM_logProcStats":            "github.com/simonmittag/j8a.logProcStats",
	"vfM_tlsHealthCheck":          "github.com/simonmittag/j8a.tlsHealthCheck",
	"vfM_YAMLToJSON":              "github.com/ghodss/yaml.YAMLToJSON",
	"vfM_yaml_Unmarshal":          "github.com/ghodss/yaml.Unmarshal",
	"vfM_os_Open":                 "os.Open",
	"vfM_os_ReadFile":             "os.ReadFile",
	"vfM_ioutil_ReadFile":         "io/ioutil.ReadFile",
	"vfM_File_Read":               "(*os.File).Read",
	"vfM_File_Close":              "(*os.File).Close",
}

var zlLevels = map[string]string{"Trace": "trace", "Debug": "debug", "Info": "info", "Warn": "warn", "Error": "error", "Err": "error", "Fatal": "fatal", "Panic": "panic", "Log": "log", "WithLevel": "level"}

// pkgIntrinsic covers whole packages whose effects are outside every property.
func pkgIntrinsic(fn *ssa.Function) intrinsic {
	var path string
	if fn.Pkg != nil {
		path = fn.Pkg.Pkg.Path()
	} else if fn.Object() != nil && fn.Object().Pkg() != nil {
		path = fn.Object().Pkg().Path()
	}
	switch path {
	case "github.com/rs/zerolog", "github.com/rs/zerolog/log":
		name := fn.Name()
		sig := fn.Signature
		res := sig.Results()
		if res.Len() == 1 && strings.HasSuffix(res.At(0).Type().String(), "zerolog.Event") {
			recv := ""
			if sig.Recv() != nil {
				recv = sig.Recv().Type().String()
			}
			if strings.HasSuffix(recv, "zerolog.Event") {
				return func(w *Worker, fr *frame, fn *ssa.Function, args []value) value {
					if e := eventOf(args[0]); e != nil && w.path != nil && w.path.logRec {
						e.add(w, fr, name, args[1:])
					}
					return args[0]
				}
			}
			lvl := zlLevels[name]
			return func(w *Worker, fr *frame, fn *ssa.Function, args []value) value {
				p := new(value)
				e := &logEvent{level: lvl}
				*p = &native{e}
				if w.path != nil && w.path.logRec && name == "Err" {
					e.add(w, fr, name, args[len(args)-1:])
				}
				return p
			}
		}
		if sig.Recv() != nil && strings.HasSuffix(sig.Recv().Type().String(), "zerolog.Event") && (name == "Msg" || name == "Msgf" || name == "Send") {
			return func(w *Worker, fr *frame, fn *ssa.Function, args []value) value {
				if e := eventOf(args[0]); e != nil && w.path != nil {
					w.path.logCount[e.level]++
					if w.path.logRec {
						if name != "Send" {
							e.add(w, fr, name, args[1:])
						}
						w.path.logs = append(w.path.logs, e)
					}
				}
				return nil
			}
		}
		if sig.Recv() == nil && name == "SetGlobalLevel" {
			return func(w *Worker, fr *frame, fn *ssa.Function, args []value) value {
				if w.path != nil {
					w.path.logLevel = args[0]
				}
				return nil
			}
		}
		if sig.Recv() == nil && name == "GlobalLevel" {
			return func(w *Worker, fr *frame, fn *ssa.Function, args []value) value {
				if w.path != nil && w.path.logLevel != nil {
					return w.path.logLevel
				}
				return uint64(1)
			}
		}
		return func(w *Worker, fr *frame, fn *ssa.Function, args []value) value {
			return zero(res)
		}
	}
	return nil
}

func (w *Worker) mkError(msg value) iface {
	ep := w.prg.prog.ImportedPackage("errors")
	t := ep.Pkg.Scope().Lookup("errorString").Type()
	p := new(value)
	*p = structure{msg}
	return iface{t: w.canon(types.NewPointer(t)), v: p}
}

func allConcrete(args []value) bool {
	for _, a := range args {
		if !isConcrete(a) {
			return false
		}
	}
	return true
}

// hostArg converts an interpreted value to a host value of type t.
func hostArg(v value, t reflect.Type) (reflect.Value, bool) {
	switch t.Kind() {
	case reflect.String:
		s, ok := v.(string)
		return reflect.ValueOf(s), ok
	case reflect.Bool:
		b, ok := v.(bool)
		return reflect.ValueOf(b), ok
	case reflect.Int, reflect.Int64, reflect.Int32, reflect.Int16, reflect.Int8:
		u, ok := v.(uint64)
		r := reflect.New(t).Elem()
		if ok {
			r.SetInt(sx(u, Sort(t.Bits())))
		}
		return r, ok
	case reflect.Uint, reflect.Uint64, reflect.Uint32, reflect.Uint16, reflect.Uint8:
		u, ok := v.(uint64)
		r := reflect.New(t).Elem()
		if ok {
			r.SetUint(u)
		}
		return r, ok
	case reflect.Float64:
		f, ok := v.(float64)
		return reflect.ValueOf(f), ok
	case reflect.Slice:
		s, ok := v.(slice)
		if !ok {
			return reflect.Value{}, false
		}
		if s == nil {
			return reflect.Zero(t), true
		}
		r := reflect.MakeSlice(t, len(s), len(s))
		for i, x := range s {
			e, ok := hostArg(x, t.Elem())
			if !ok {
				return reflect.Value{}, false
			}
			r.Index(i).Set(e)
		}
		return r, true
	}
	return reflect.Value{}, false
}

func hostRes(v reflect.Value) value {
	switch v.Kind() {
	case reflect.String:
		return v.String()
	case reflect.Bool:
		return v.Bool()
	case reflect.Int, reflect.Int64, reflect.Int32, reflect.Int16, reflect.Int8:
		return uint64(v.Int()) & mask(Sort(v.Type().Bits()))
	case reflect.Uint, reflect.Uint64, reflect.Uint32, reflect.Uint16, reflect.Uint8, reflect.Uintptr:
		return v.Uint()
	case reflect.Float64:
		return v.Float()
	case reflect.Slice:
		if v.IsNil() {
			return slice(nil)
		}
		r := make(slice, v.Len())
		for i := range r {
			r[i] = hostRes(v.Index(i))
		}
		return r
	}
	panic(engineError("hostRes " + v.Kind().String()))
}

// regNative runs f on the host when all arguments are concrete; otherwise sym (or interpretation).
func regNative(name string, f interface{}, sym intrinsic) {
	fv := reflect.ValueOf(f)
	ft := fv.Type()
	reg(name, func(w *Worker, fr *frame, fn *ssa.Function, args []value) value {
		if len(args) == ft.NumIn() && allConcrete(args) {
			in := make([]reflect.Value, len(args))
			ok := true
			for i := range args {
				in[i], ok = hostArg(args[i], ft.In(i))
				if !ok {
					break
				}
			}
			if ok {
				out := fv.Call(in)
				switch len(out) {
				case 0:
					return nil
				case 1:
					return hostRes(out[0])
				}
				t := make(tuple, len(out))
				for i := range out {
					t[i] = hostRes(out[i])
				}
				return t
			}
		}
		if sym != nil {
			return sym(w, fr, fn, args)
		}
		return w.interpret(fr, fn, args)
	})
}

// interpret runs fn's body, bypassing its intrinsic.
func (w *Worker) interpret(fr *frame, fn *ssa.Function, args []value) value {
	key := fn
	fi, ok := w.infos[key]
	if !ok || fi.intrinsic != nil {
		alt := w.tables["interp:"+fn.String()]
		if alt == nil {
			nfi := &fnInfo{fn: fn, name: fn.String()}
			w.compile(nfi)
			w.tables["interp:"+fn.String()] = nfi
			alt = nfi
		}
		fi = alt.(*fnInfo)
	}
	if fi.nobody {
		unsup("no body: %s", fi.name)
	}
	g := fr.g
	nf := &frame{w: w, g: g, fi: fi, caller: fr}
	nf.regs = make([]value, fi.nregs)
	copy(nf.regs, args)
	g.depth++
	d := g.depth
	if fi.hasDefer {
		nf.runDeferred()
	} else {
		nf.exec()
	}
	g.depth = d - 1
	return nf.result
}

// matchAt: formula that sub occurs in s at position i.
func (w *Worker) matchAt(s, sub []value, i int) *Term {
	ts := make([]*Term, 0, len(sub))
	for j := range sub {
		e := w.byteEq(s[i+j], sub[j])
		if b, ok := e.(bool); ok {
			if !b {
				return w.c.False
			}
			continue
		}
		ts = append(ts, e.(*Term))
	}
	return w.c.And(ts...)
}

func (w *Worker) symIndex(s, sub []value) value {
	res := w.c.BV(^uint64(0), 64)
	for i := len(s) - len(sub); i >= 0; i-- {
		res = w.c.Ite(w.matchAt(s, sub, i), w.c.BV(uint64(i), 64), res)
	}
	return w.fromTerm(res)
}
func (w *Worker) symLastIndex(s, sub []value) value {
	res := w.c.BV(^uint64(0), 64)
	for i := 0; i <= len(s)-len(sub); i++ {
		res = w.c.Ite(w.matchAt(s, sub, i), w.c.BV(uint64(i), 64), res)
	}
	return w.fromTerm(res)
}
func (w *Worker) symContains(s, sub []value) value {
	var ts []*Term
	for i := 0; i <= len(s)-len(sub); i++ {
		ts = append(ts, w.matchAt(s, sub, i))
	}
	return w.fromTerm(w.c.Or(ts...))
}

func valBytes(v value) []value {
	switch x := v.(type) {
	case slice:
		return x
	}
	return strBytes(v)
}

// asciiAll forks on all symbolic bytes being ASCII; non-ASCII is unsupported.
func (w *Worker) asciiAll(b []value, what string) {
	var ts []*Term
	for _, x := range b {
		switch y := x.(type) {
		case *Term:
			ts = append(ts, w.c.Cmp(OUlt, y, w.c.BV(0x80, 8)))
		case uint64:
			if y >= 0x80 {
				unsup("non-ASCII with symbolic string in %s", what)
			}
		}
	}
	if len(ts) > 0 && !w.branch(w.c.And(ts...)) {
		unsup("symbolic non-ASCII in %s", what)
	}
}

func (w *Worker) mapByte(x value, lo, hi byte, delta int) value {
	if u, ok := x.(uint64); ok {
		if byte(u) >= lo && byte(u) <= hi {
			return uint64(int(u) + delta)
		}
		return u
	}
	t := x.(*Term)
	in := w.c.And(w.c.Cmp(OUle, w.c.BV(uint64(lo), 8), t), w.c.Cmp(OUle, t, w.c.BV(uint64(hi), 8)))
	return w.fromTerm(w.c.Ite(in, w.c.Bin(OAdd, t, w.c.BV(uint64(int64(delta)), 8)), t))
}

func (w *Worker) lowerBytes(b []value) []value {
	r := make([]value, len(b))
	for i, x := range b {
		r[i] = w.mapByte(x, 'A', 'Z', 32)
	}
	return r
}

func init() {
	// --- strings/bytes ---
	symIdx := func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
		return w.symIndex(valBytes(a[0]), valBytes(a[1]))
	}
	regNative("strings.Index", strings.Index, symIdx)
	regNative("bytes.Index", func(a, b []byte) int { return strings.Index(string(a), string(b)) }, symIdx)
	symLast := func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
		return w.symLastIndex(valBytes(a[0]), valBytes(a[1]))
	}
	regNative("strings.LastIndex", strings.LastIndex, symLast)
	symCont := func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
		return w.symContains(valBytes(a[0]), valBytes(a[1]))
	}
	regNative("strings.Contains", strings.Contains, symCont)
	regNative("bytes.Contains", func(a, b []byte) bool { return strings.Contains(string(a), string(b)) }, symCont)
	symIB := func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
		return w.symIndex(valBytes(a[0]), []value{a[1]})
	}
	symLIB := func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
		return w.symLastIndex(valBytes(a[0]), []value{a[1]})
	}
	for _, n := range []string{"internal/bytealg.IndexByte", "internal/bytealg.IndexByteString", "strings.IndexByte", "bytes.IndexByte", "internal/stringslite.IndexByte"} {
		reg(n, symIB)
	}
	for _, n := range []string{"internal/bytealg.LastIndexByte", "internal/bytealg.LastIndexByteString", "strings.LastIndexByte", "bytes.LastIndexByte"} {
		reg(n, symLIB)
	}
	for _, n := range []string{"internal/bytealg.Index", "internal/bytealg.IndexString", "internal/stringslite.Index"} {
		reg(n, symIdx)
	}
	symCountByte := func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
		s := valBytes(a[0])
		res := w.c.BV(0, 64)
		for _, x := range s {
			e := w.byteEq(x, a[1])
			res = w.c.Bin(OAdd, res, w.c.Ite(w.toBool(e), w.c.BV(1, 64), w.c.BV(0, 64)))
		}
		return w.fromTerm(res)
	}
	reg("internal/bytealg.Count", symCountByte)
	reg("internal/bytealg.CountString", symCountByte)
	reg("internal/bytealg.MakeNoZero", func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
		n := int(w.concretize(a[0]))
		s := make(slice, n)
		for i := range s {
			s[i] = uint64(0)
		}
		return s
	})
	reg("internal/bytealg.Equal", func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
		return w.bytesEq(valBytes(a[0]), valBytes(a[1]))
	})
	intrinsics["bytes.Equal"] = intrinsics["internal/bytealg.Equal"]
	cmp := func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
		x, y := mkStr(valBytes(a[0])), mkStr(valBytes(a[1]))
		lt := w.toBool(w.strLess(x, y, false))
		eq := w.toBool(w.strEq(x, y))
		return w.fromTerm(w.c.Ite(eq, w.c.BV(0, 64), w.c.Ite(lt, w.c.BV(^uint64(0), 64), w.c.BV(1, 64))))
	}
	for _, n := range []string{"internal/bytealg.Compare", "internal/bytealg.CompareString", "bytes.Compare", "strings.Compare"} {
		reg(n, cmp)
	}
	regNative("strings.Count", strings.Count, nil)
	regNative("strings.Split", strings.Split, nil)
	regNative("strings.SplitN", strings.SplitN, nil)
	regNative("strings.Fields", strings.Fields, nil)
	regNative("strings.Replace", strings.Replace, nil)
	regNative("strings.ReplaceAll", strings.ReplaceAll, nil)
	regNative("strings.TrimSpace", strings.TrimSpace, func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
		b := strBytes(a[0])
		isSp := func(x value) bool {
			if u, ok := x.(uint64); ok {
				if u >= 0x80 {
					unsup("TrimSpace of non-ASCII")
				}
				return u == ' ' || (u >= 9 && u <= 13)
			}
			t := x.(*Term)
			w.asciiAll([]value{x}, "TrimSpace")
			return w.branch(w.c.Or(w.c.Eq(t, w.c.BV(' ', 8)), w.c.And(w.c.Cmp(OUle, w.c.BV(9, 8), t), w.c.Cmp(OUle, t, w.c.BV(13, 8)))))
		}
		for len(b) > 0 && isSp(b[0]) {
			b = b[1:]
		}
		for len(b) > 0 && isSp(b[len(b)-1]) {
			b = b[:len(b)-1]
		}
		return mkStr(b)
	})
	regNative("strings.Trim", strings.Trim, nil)
	regNative("strings.TrimLeft", strings.TrimLeft, nil)
	regNative("strings.TrimRight", strings.TrimRight, nil)
	regNative("strings.Repeat", strings.Repeat, nil)
	regNative("strings.Title", strings.Title, nil)
	regNative("strings.Join", strings.Join, func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
		var r value = ""
		for i, x := range a[0].(slice) {
			if i > 0 {
				r = w.strConcat(r, a[1])
			}
			r = w.strConcat(r, x)
		}
		return r
	})
	regNative("strings.ToUpper", strings.ToUpper, func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
		b := strBytes(a[0])
		w.asciiAll(b, "ToUpper")
		r := make([]value, len(b))
		for i, x := range b {
			r[i] = w.mapByte(x, 'a', 'z', -32)
		}
		return mkStr(r)
	})
	regNative("strings.ToLower", strings.ToLower, func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
		b := strBytes(a[0])
		w.asciiAll(b, "ToLower")
		return mkStr(w.lowerBytes(b))
	})
	fold := func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
		x, y := strBytes(a[0]), strBytes(a[1])
		w.asciiAll(x, "EqualFold")
		w.asciiAll(y, "EqualFold")
		return w.bytesEq(w.lowerBytes(x), w.lowerBytes(y))
	}
	regNative("strings.EqualFold", strings.EqualFold, fold)
	regNative("net/http/internal/ascii.EqualFold", strings.EqualFold, fold)
	regNative("strings.ContainsAny", strings.ContainsAny, func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
		cs, ok := a[1].(string)
		if !ok {
			unsup("ContainsAny with symbolic set")
		}
		w.asciiAll(strBytes(a[0]), "ContainsAny")
		var ts []*Term
		for _, x := range strBytes(a[0]) {
			for i := 0; i < len(cs); i++ {
				ts = append(ts, w.toBool(w.byteEq(x, uint64(cs[i]))))
			}
		}
		return w.fromTerm(w.c.Or(ts...))
	})
	regNative("unicode.ToUpper", unicode.ToUpper, nil)
	regNative("unicode.ToLower", unicode.ToLower, nil)
	regNative("unicode.IsSpace", unicode.IsSpace, nil)
	regNative("unicode.IsUpper", unicode.IsUpper, nil)
	regNative("unicode.IsLetter", unicode.IsLetter, nil)
	regNative("unicode.IsDigit", unicode.IsDigit, nil)
	regNative("unicode/utf8.ValidString", utf8.ValidString, nil)
	regNative("unicode/utf8.RuneCountInString", utf8.RuneCountInString, nil)
	regNative("strconv.Quote", strconv.Quote, nil)
	itoa := func(w *Worker, fr *frame, fn *ssa.Function, a []value) value { return w.fmtInt(a[0], 64, true) }
	regNative("strconv.Itoa", strconv.Itoa, itoa)
	regNative("strconv.FormatInt", strconv.FormatInt, func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
		if b, ok := a[1].(uint64); ok && b == 10 {
			return w.fmtInt(a[0], 64, true)
		}
		unsup("FormatInt symbolic base")
		return nil
	})
	regNative("strconv.FormatUint", strconv.FormatUint, nil)
	regNative("strconv.FormatFloat", strconv.FormatFloat, nil)
	regNative("net/textproto.CanonicalMIMEHeaderKey", textprotoCanon, func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
		return w.canonHeader(a[0])
	})
	for _, pkg := range []string{"math.F", "internal/strconv.f"} {
		regNative(pkg+"loat64bits", math.Float64bits, func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
			t := a[0].(*Term)
			if t.op == OFromBits {
				return t.args[0]
			}
			unsup("Float64bits of symbolic float")
			return nil
		})
		regNative(pkg+"loat64frombits", math.Float64frombits, func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
			return w.fromTerm(w.c.FromBits(a[0].(*Term)))
		})
		reg(pkg+"loat32bits", func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
			return uint64(math.Float32bits(float32(a[0].(float64))))
		})
	}
	regNative("math.Floor", math.Floor, nil)
	regNative("math.Ceil", math.Ceil, nil)
	regNative("math.Trunc", math.Trunc, nil)
	regNative("math.Sqrt", math.Sqrt, nil)
	regNative("math.Abs", math.Abs, func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
		t := w.toFP(a[0])
		return w.fromTerm(w.c.Ite(w.c.FCmp(OFLt, t, w.c.FP(0)), w.c.FNeg(t), t))
	})
	regNative("math.IsNaN", math.IsNaN, func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
		t := w.toFP(a[0])
		return w.fromTerm(w.c.Not(w.c.FCmp(OFEq, t, t)))
	})
	regNative("math.Pow", math.Pow, nil)
	regNative("math.Mod", math.Mod, nil)

	// --- errors ---
	reg("errors.New", func(w *Worker, fr *frame, fn *ssa.Function, a []value) value { return w.mkError(a[0]) })
	reg("errors.Is", func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
		e, t := a[0].(iface), a[1].(iface)
		return w.errorsIs(fr, e, t, 0)
	})
	reg("errors.As", func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
		e, t := a[0].(iface), a[1].(iface)
		pt, ok := t.t.Underlying().(*types.Pointer)
		if !ok {
			unsup("errors.As target")
		}
		for n := 0; e.t != nil && n < 20; n++ {
			el := pt.Elem()
			match := false
			var v value
			if it, ok := el.Underlying().(*types.Interface); ok {
				if w.implements(e.t, it) {
					match, v = true, e
				}
			} else if w.sameType(e.t, el) {
				match, v = true, e.v
			}
			if match {
				w.store(t.v.(*value), v)
				return true
			}
			e = w.unwrap(fr, e)
		}
		return false
	})
	reg("fmt.Errorf", func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
		msg := w.sprintf(fr, a[0], a[1].(slice))
		f, _ := a[0].(string)
		if strings.Contains(f, "%w") {
			fp := w.prg.prog.ImportedPackage("fmt")
			t := fp.Pkg.Scope().Lookup("wrapError").Type()
			var inner value = iface{}
			for _, x := range a[1].(slice) {
				if i, ok := x.(iface); ok && i.t != nil && w.isError(i.t) {
					inner = i
				}
			}
			p := new(value)
			*p = structure{msg, inner}
			return iface{t: w.canon(types.NewPointer(t)), v: p}
		}
		return w.mkError(msg)
	})
	reg("fmt.Sprintf", func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
		return w.sprintf(fr, a[0], a[1].(slice))
	})
	reg("fmt.Sprint", func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
		var r value = ""
		prevStr := true
		for i, x := range a[0].(slice) {
			_, isS := x.(iface).v.(string)
			if i > 0 && !isS && !prevStr {
				r = w.strConcat(r, " ")
			}
			r = w.strConcat(r, w.fmtArg(fr, 'v', "", x.(iface)))
			prevStr = isS
		}
		return r
	})
	reg("fmt.Sprintln", func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
		var r value = ""
		for i, x := range a[0].(slice) {
			if i > 0 {
				r = w.strConcat(r, " ")
			}
			r = w.strConcat(r, w.fmtArg(fr, 'v', "", x.(iface)))
		}
		return w.strConcat(r, "\n")
	})
	for _, n := range []string{"fmt.Printf", "fmt.Println", "fmt.Print"} {
		reg(n, func(w *Worker, fr *frame, fn *ssa.Function, a []value) value { return tuple{uint64(0), iface{}} })
	}
	fprint := func(w *Worker, fr *frame, wr iface, s value) value {
		f := w.methodByName(wr.t, "Write")
		if f == nil {
			unsup("Fprint to %v", wr.t)
		}
		b := slice(append([]value(nil), strBytes(s)...))
		return w.callFn(fr.g, fr, f, []value{wr.v, b}, nil)
	}
	reg("fmt.Fprintf", func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
		return fprint(w, fr, a[0].(iface), w.sprintf(fr, a[1], a[2].(slice)))
	})
	reg("fmt.Fprint", func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
		var r value = ""
		for _, x := range a[1].(slice) {
			r = w.strConcat(r, w.fmtArg(fr, 'v', "", x.(iface)))
		}
		return fprint(w, fr, a[0].(iface), r)
	})

	// --- misc runtime ---
	reg("internal/abi.NoEscape", func(w *Worker, fr *frame, fn *ssa.Function, a []value) value { return a[0] })
	reg("internal/abi.Escape", func(w *Worker, fr *frame, fn *ssa.Function, a []value) value { return a[0] })
	nop := func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
		return zero(fn.Signature.Results())
	}
	for _, n := range []string{"runtime.KeepAlive", "runtime.SetFinalizer", "runtime.GC", "runtime.Gosched", "internal/race.Enable", "internal/race.Disable",
		"internal/race.Acquire", "internal/race.Release", "internal/race.ReleaseMerge", "internal/race.Read", "internal/race.Write",
		"(*internal/godebug.Setting).Value", "(*internal/godebug.Setting).IncNonDefault", "(*internal/godebug.Setting).register", "runtime.Callers", "runtime/debug.SetGCPercent",
		"log.Printf", "log.Println", "log.Print", "syscall.runtime_envs"} {
		reg(n, nop)
	}
	// a logger of package log hands each message to its writer in one piece, with prefix and (a stand-in for) time
	logOut := func(w *Worker, fr *frame, l, s value) {
		p, ok := l.(*value)
		if !ok || p == nil {
			w.nilDeref()
		}
		lg, ok := w.logOut[p]
		if !ok || lg.out.t == nil || strings.HasSuffix(lg.out.t.String(), "os.File") {
			return
		}
		head := ""
		if lg.flag&3 != 0 {
			head = "2026/01/02 15:04:05 "
		}
		s = w.strConcat(w.strConcat(lg.prefix, head), s)
		if b := strBytes(s); len(b) == 0 || b[len(b)-1] != value(uint64('\n')) {
			s = w.strConcat(s, "\n")
		}
		fprint(w, fr, lg.out, s)
	}
	reg("(*log.Logger).Printf", func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
		logOut(w, fr, a[0], w.sprintf(fr, a[1], a[2].(slice)))
		return nil
	})
	for _, n := range []string{"Print", "Println"} {
		n := n
		reg("(*log.Logger)."+n, func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
			var r value = ""
			for i, x := range a[1].(slice) {
				if i > 0 && n == "Println" {
					r = w.strConcat(r, " ")
				}
				r = w.strConcat(r, w.fmtArg(fr, 'v', "", x.(iface)))
			}
			logOut(w, fr, a[0], r)
			return nil
		})
	}
	reg("log.New", func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
		p := new(value)
		*p = zero(fn.Signature.Results().At(0).Type().Underlying().(*types.Pointer).Elem())
		if w.logOut == nil {
			w.logOut = map[*value]*stdLogger{}
		}
		w.logOut[p] = &stdLogger{a[0].(iface), a[1], w.concretize(a[2])}
		return p
	})
	reg("internal/godebug.New", func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
		p := new(value)
		*p = zero(fn.Signature.Results().At(0).Type().Underlying().(*types.Pointer).Elem())
		return p
	})
	reg("internal/bisect.AppendMarker", nop)
	reg("runtime.NumCPU", func(w *Worker, fr *frame, fn *ssa.Function, a []value) value { return uint64(4) })
	reg("runtime.GOMAXPROCS", func(w *Worker, fr *frame, fn *ssa.Function, a []value) value { return uint64(4) })

	// math/bits: interpretable, but the intrinsics help for the concrete case
	regNative("math/bits.LeadingZeros64", func(x uint64) int { return big.NewInt(0).SetUint64(x).BitLen()*-1 + 64 }, nil)
	regNative("math/bits.Len64", func(x uint64) int { return big.NewInt(0).SetUint64(x).BitLen() }, nil)
	regNative("math/bits.Len", func(x uint) int { return big.NewInt(0).SetUint64(uint64(x)).BitLen() }, nil)
}

func (w *Worker) isError(t types.Type) bool {
	return w.implements(t, errorIface)
}

var errorIface = types.Universe.Lookup("error").Type().Underlying().(*types.Interface)

func (w *Worker) unwrap(fr *frame, e iface) iface {
	f := w.methodByName(e.t, "Unwrap")
	if f == nil || f.Signature.Results().Len() != 1 {
		return iface{}
	}
	r := w.callFn(fr.g, fr, f, []value{e.v}, nil)
	i, ok := r.(iface)
	if !ok {
		return iface{}
	}
	return i
}

func (w *Worker) errorsIs(fr *frame, e, t iface, n int) value {
	if e.t == nil || t.t == nil {
		return e.t == nil && t.t == nil
	}
	for ; e.t != nil && n < 20; n++ {
		if w.sameType(e.t, t.t) && types.Comparable(t.t) && w.truth(w.equals(e, t)) {
			return true
		}
		if f := w.methodByName(e.t, "Is"); f != nil && f.Signature.Params().Len() == 1 {
			if w.truth(w.callFn(fr.g, fr, f, []value{e.v, t}, nil)) {
				return true
			}
		}
		e = w.unwrap(fr, e)
	}
	return false
}

func textprotoCanon(s string) string {
	for i := 0; i < len(s); i++ {
		c := s[i]
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || strings.IndexByte("!#$%&'*+-.^_`|~", c) >= 0) {
			return s
		}
	}
	b := []byte(s)
	upper := true
	for i, c := range b {
		if upper && c >= 'a' && c <= 'z' {
			c -= 32
		} else if !upper && c >= 'A' && c <= 'Z' {
			c += 32
		}
		b[i] = c
		upper = c == '-'
	}
	return string(b)
}

// canonHeader canonicalises a symbolic header name (bytes of token class only).
func (w *Worker) canonHeader(v value) value {
	b := strBytes(v)
	w.asciiAll(b, "header name")
	// token check
	var ts []*Term
	for _, x := range b {
		if t, ok := x.(*Term); ok {
			ts = append(ts, w.classTerm(t, func(c int) bool {
				return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || strings.IndexByte("!#$%&'*+-.^_`|~", byte(c)) >= 0 && c > 0
			}))
		}
	}
	if !w.branch(w.c.And(ts...)) {
		return v
	}
	r := make([]value, len(b))
	upper := w.c.True
	for i, x := range b {
		up := w.mapByte(x, 'a', 'z', -32)
		lo := w.mapByte(x, 'A', 'Z', 32)
		nt := w.c.Ite(upper, w.toBV(up, 8), w.toBV(lo, 8))
		r[i] = w.fromTerm(nt)
		upper = w.c.Eq(w.toBV(x, 8), w.c.BV('-', 8))
	}
	return mkStr(r)
}

// classTerm: t (8 bit) in the set given by f, as range disjunction.
func (w *Worker) classTerm(t *Term, f func(int) bool) *Term {
	var ts []*Term
	for i := 0; i < 256; i++ {
		if !f(i) {
			continue
		}
		j := i
		for j+1 < 256 && f(j+1) {
			j++
		}
		if i == j {
			ts = append(ts, w.c.Eq(t, w.c.BV(uint64(i), 8)))
		} else {
			lo, hi := w.c.True, w.c.True
			if i > 0 {
				lo = w.c.Cmp(OUle, w.c.BV(uint64(i), 8), t)
			}
			if j < 255 {
				hi = w.c.Cmp(OUle, t, w.c.BV(uint64(j), 8))
			}
			ts = append(ts, w.c.And(lo, hi))
		}
		i = j
	}
	return w.c.Or(ts...)
}

// ---- formatting ----

// fmtInt renders an integer in decimal; the number of digits is forked on when symbolic.
func (w *Worker) fmtInt(v value, wd Sort, signed bool) value {
	if u, ok := v.(uint64); ok {
		if signed {
			return strconv.FormatInt(sx(u, wd), 10)
		}
		return strconv.FormatUint(u, 10)
	}
	t := v.(*Term)
	c := w.c
	neg := false
	if signed && w.branch(c.Cmp(OSlt, t, c.BV(0, wd))) {
		neg = true
		t = c.Neg(t)
	}
	digits := 1
	lim := uint64(10)
	maxd := 20
	for digits < maxd {
		if lim > mask(wd) || w.branch(c.Cmp(OUlt, t, c.BV(lim, wd))) {
			break
		}
		digits++
		if lim > math.MaxUint64/10 {
			break
		}
		lim *= 10
	}
	// digits extraction at a reduced width
	dw := wd
	need := Sort(64)
	if digits <= 19 {
		n := uint64(1)
		for i := 0; i < digits; i++ {
			n *= 10
		}
		for b := Sort(1); b < 64; b++ {
			if mask(b) >= n {
				need = b
				break
			}
		}
	}
	if need < dw {
		t = c.Extract(t, uint(need)-1, 0)
		dw = need
	}
	out := make([]value, digits)
	for i := digits - 1; i >= 0; i-- {
		d := t
		if i > 0 || digits > 1 {
			if dw >= 4 {
				d = c.Bin(OURem, t, c.BV(10, dw))
			}
		}
		d8 := d
		if dw > 8 {
			d8 = c.Extract(d, 7, 0)
		} else {
			d8 = c.Zext(d, 8)
		}
		out[i] = w.fromTerm(c.Bin(OAdd, d8, c.BV('0', 8)))
		if i > 0 {
			t = c.Bin(OUDiv, t, c.BV(10, dw))
		}
	}
	if neg {
		out = append([]value{uint64('-')}, out...)
	}
	return mkStr(out)
}

func (w *Worker) sprintf(fr *frame, fv value, args slice) value {
	f, ok := fv.(string)
	if !ok {
		return w.opaque()
	}
	var res value = ""
	ai := 0
	for i := 0; i < len(f); {
		j := strings.IndexByte(f[i:], '%')
		if j < 0 {
			res = w.strConcat(res, f[i:])
			break
		}
		res = w.strConcat(res, f[i:i+j])
		i += j + 1
		k := i
		for k < len(f) && strings.IndexByte("+-# 0123456789.", f[k]) >= 0 {
			k++
		}
		if k >= len(f) {
			res = w.strConcat(res, "%!(NOVERB)")
			break
		}
		flags := f[i:k]
		verb := f[k]
		i = k + 1
		if verb == '%' {
			res = w.strConcat(res, "%")
			continue
		}
		if verb == '*' || verb == '[' {
			return w.opaque()
		}
		if ai >= len(args) {
			res = w.strConcat(res, "%!"+string(verb)+"(MISSING)")
			continue
		}
		a, ok := args[ai].(iface)
		ai++
		if !ok {
			return w.opaque()
		}
		res = w.strConcat(res, w.fmtArg(fr, verb, flags, a))
	}
	if ai < len(args) {
		res = w.strConcat(res, w.opaque())
	}
	return res
}

func (w *Worker) fmtArg(fr *frame, verb byte, flags string, a iface) value {
	if verb == 'w' {
		verb = 'v'
	}
	if a.t == nil {
		return fmt.Sprintf("%"+flags+string(verb), nil)
	}
	if verb == 'T' {
		return a.t.String()
	}
	if a.t.String() == "*math/big.Int" && (verb == 'X' || verb == 'x') && flags == "" {
		return w.fmtBigHex(a.v, verb == 'X')
	}
	if strings.IndexByte("vsq", verb) >= 0 {
		if p, ok := a.v.(*value); ok && p == nil {
			if w.isError(a.t) || w.methodByName(a.t, "String") != nil {
				return "<nil>"
			}
		}
		if w.isError(a.t) {
			m := w.methodByName(a.t, "Error")
			s := w.callFn(fr.g, fr, m, []value{a.v}, nil)
			return w.fmtStr(verb, flags, s)
		}
		if m := w.methodByName(a.t, "String"); m != nil && m.Signature.Params().Len() == 0 && m.Signature.Results().Len() == 1 {
			s := w.callFn(fr.g, fr, m, []value{a.v}, nil)
			return w.fmtStr(verb, flags, s)
		}
	}
	switch t := a.t.Underlying().(type) {
	case *types.Basic:
		switch {
		case t.Info()&types.IsString != 0:
			switch verb {
			case 's', 'v', 'q':
				return w.fmtStr(verb, flags, a.v)
			}
			if s, ok := a.v.(string); ok {
				return fmt.Sprintf("%"+flags+string(verb), s)
			}
			return w.opaque()
		case t.Info()&types.IsBoolean != 0:
			if b, ok := a.v.(bool); ok {
				return fmt.Sprintf("%"+flags+string(verb), b)
			}
			if w.truth(a.v) {
				return "true"
			}
			return "false"
		case t.Info()&types.IsInteger != 0:
			wd, signed := kindWidth(t.Kind())
			if u, ok := a.v.(uint64); ok {
				if signed {
					return fmt.Sprintf("%"+flags+string(verb), sx(u, wd))
				}
				return fmt.Sprintf("%"+flags+string(verb), u)
			}
			if (verb == 'd' || verb == 'v') && flags == "" {
				return w.fmtInt(a.v, wd, signed)
			}
			return w.opaque()
		case t.Info()&types.IsFloat != 0:
			if x, ok := a.v.(float64); ok {
				if t.Kind() == types.Float32 {
					return fmt.Sprintf("%"+flags+string(verb), float32(x))
				}
				return fmt.Sprintf("%"+flags+string(verb), x)
			}
			return w.opaque()
		}
	case *types.Slice:
		s, ok := a.v.(slice)
		if !ok {
			return w.opaque()
		}
		if b, ok := t.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
			if verb == 's' {
				return mkStr(s)
			}
			if (verb == 'x' || verb == 'X') && isConcrete(s) {
				return fmt.Sprintf("%"+flags+string(verb), []byte(mkStr(s).(string)))
			}
			return w.opaque()
		}
		if verb == 'v' || verb == 's' {
			var r value = "["
			for i, x := range s {
				if i > 0 {
					r = w.strConcat(r, " ")
				}
				xi, ok := x.(iface)
				if !ok {
					xi = iface{t: t.Elem(), v: x}
				}
				r = w.strConcat(r, w.fmtArg(fr, verb, flags, xi))
			}
			return w.strConcat(r, "]")
		}
	}
	return w.opaque()
}

func (w *Worker) fmtStr(verb byte, flags string, s value) value {
	if x, ok := s.(string); ok {
		return fmt.Sprintf("%"+flags+string(verb), x)
	}
	if verb == 'q' || flags != "" {
		return w.opaque()
	}
	return s
}

// fmtBigHex renders |x| in hexadecimal; the digit count is forked on when symbolic.
func (w *Worker) fmtBigHex(p value, upper bool) value {
	pv := p.(*value)
	if pv == nil {
		return "<nil>"
	}
	st := (*pv).(structure)
	neg := w.truth(st[0])
	words := st[1].(slice)
	var nibs []*Term // little endian
	for _, x := range words {
		t := w.toBV(x, 64)
		for k := uint(0); k < 16; k++ {
			nibs = append(nibs, w.c.Extract(t, k*4+3, k*4))
		}
	}
	n := len(nibs)
	for n > 1 {
		z := w.c.Eq(nibs[n-1], w.c.BV(0, 4))
		if !w.truth(w.fromTerm(z)) {
			break
		}
		n--
	}
	if n == 0 {
		return "0"
	}
	al := uint64('a')
	if upper {
		al = 'A'
	}
	out := make([]value, n)
	for i := 0; i < n; i++ {
		d := w.c.Zext(nibs[n-1-i], 8)
		out[i] = w.fromTerm(w.c.Ite(w.c.Cmp(OUlt, nibs[n-1-i], w.c.BV(10, 4)), w.c.Bin(OAdd, d, w.c.BV('0', 8)), w.c.Bin(OAdd, d, w.c.BV(al-10, 8))))
	}
	if neg {
		out = append([]value{uint64('-')}, out...)
	}
	return mkStr(out)
}

// logEvent is what a log event would say.
type logEvent struct {
	level string
	keys  []string
	vals  []value
}

func eventOf(v value) *logEvent {
	if p, ok := v.(*value); ok && p != nil {
		if n, ok := (*p).(*native); ok {
			e, _ := n.v.(*logEvent)
			return e
		}
	}
	return nil
}

// add records what a method of zerolog.Event adds to the event.
func (e *logEvent) add(w *Worker, fr *frame, name string, args []value) {
	key := ""
	switch name {
	case "Err":
		key = "error"
	case "Msg", "Msgf":
		key = "message"
	default:
		if len(args) < 2 {
			return
		}
		k, ok := args[0].(string)
		if !ok {
			return
		}
		key, args = k, args[1:]
	}
	for _, a := range args {
		e.value(w, fr, key, a)
	}
}

func (e *logEvent) value(w *Worker, fr *frame, key string, a value) {
	if a, ok := a.(iface); ok && a.t != nil {
		if p, ok := a.v.(*value); (!ok || p != nil) && (w.isError(a.t) || w.methodByName(a.t, "String") != nil) {
			if s := w.fmtArg(fr, 'v', "", a); !isOpaque(s) {
				e.put(key, s)
			}
			return
		}
	}
	e.walk(key, a, 0)
}

func (e *logEvent) put(key string, v value) {
	e.keys = append(e.keys, key)
	e.vals = append(e.vals, v)
}

// walk records everything printing a value may show.
func (e *logEvent) walk(key string, a value, depth int) {
	if depth > 6 {
		return
	}
	all := func(vs []value) {
		for _, x := range vs {
			e.walk(key, x, depth+1)
		}
	}
	switch a := a.(type) {
	case string, *SymStr, uint64, bool, *Term:
		e.put(key, a)
	case iface:
		if a.t != nil {
			e.walk(key, a.v, depth+1)
		}
	case *value:
		if a != nil && depth < 3 {
			e.walk(key, *a, depth+1)
		}
	case structure:
		all(a)
	case array:
		all(a)
	case slice:
		for _, x := range a {
			if _, ok := x.(uint64); !ok {
				if t, ok := x.(*Term); !ok || t.sort != 8 {
					all(a)
					return
				}
			}
		}
		if len(a) > 0 {
			e.put(key, &SymStr{append([]value(nil), a...)})
		}
	case *Map:
		if a == nil {
			return
		}
		for _, x := range a.ents {
			if !x.deleted {
				e.walk(key, x.k, depth+1)
				e.walk(key, x.v, depth+1)
			}
		}
	}
}

// get is the last value of a key.
func (e *logEvent) get(key string) (value, bool) {
	for i := len(e.keys) - 1; i >= 0; i-- {
		if e.keys[i] == key {
			return e.vals[i], true
		}
	}
	return nil, false
}

// stdLogger is what log.New was given.
type stdLogger struct {
	out    iface
	prefix value
	flag   uint64
}
