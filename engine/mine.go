package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

// Constant mining. A finite harness can only vary header names, header values and sizes over finite sets; code can
// only tell inputs apart by comparing them with something, and mostly that is a constant of its own source. The
// constants of the repository's current source that the harness does not know already are therefore added to those
// sets (file zz_vf_mined.go, the same in the executor and in the replay program). What is asserted does not change.

// How often a constant occurs counts: one more use of a constant is new too.
type mined struct {
	Strs map[string]int `json:"strs"`
	Ints map[int64]int  `json:"ints"`
}

// minedFiles has the constants of each source file.
type minedFiles map[string]*mined

var logArgs = map[string]bool{"Str": true, "Int": true, "Int64": true, "Int32": true, "Uint64": true, "Bool": true, "Float64": true, "Msg": true, "Msgf": true,
	"Errorf": true, "Sprintf": true, "Printf": true, "panic": true, "Println": true, "Print": true, "respondWith": true, "Interface": true, "Err": true}

func mineSource(repo string) (minedFiles, error) {
	fs, err := filepath.Glob(filepath.Join(repo, "*.go"))
	if err != nil {
		return nil, err
	}
	sort.Strings(fs)
	all := minedFiles{}
	for _, f := range fs {
		strs, ints := map[string]int{}, map[int64]int{}
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		src, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		file, err := parser.ParseFile(token.NewFileSet(), f, src, 0)
		if err != nil {
			return nil, err
		}
		var visit func(n ast.Node) bool
		visit = func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.ImportSpec:
				return false
			case *ast.Field:
				return true
			case *ast.CallExpr:
				name := ""
				switch fn := x.Fun.(type) {
				case *ast.SelectorExpr:
					name = fn.Sel.Name
					if id, ok := fn.X.(*ast.Ident); ok && id.Name == "errors" {
						name = "Errorf"
					}
				case *ast.Ident:
					name = fn.Name
				}
				if logArgs[name] {
					// literals of messages do not compare with inputs, nested calls may
					ast.Inspect(x.Fun, visit)
					for _, a := range x.Args {
						if _, ok := a.(*ast.BasicLit); !ok {
							ast.Inspect(a, visit)
						}
					}
					return false
				}
			case *ast.BinaryExpr:
				if v, ok := foldInt(x); ok {
					ints[v]++
					return false
				}
			case *ast.BasicLit:
				switch x.Kind {
				case token.STRING:
					if s, err := strconv.Unquote(x.Value); err == nil {
						strs[s]++
					}
				case token.CHAR:
					if c, _, _, err := strconv.UnquoteChar(x.Value[1:], '\''); err == nil && c < 0x7f {
						strs[string(c)]++
					}
				case token.INT:
					if v, ok := foldInt(x); ok {
						ints[v]++
					}
				}
			}
			return true
		}
		ast.Inspect(file, visit)
		all[filepath.Base(f)] = &mined{Strs: strs, Ints: ints}
	}
	return all, nil
}

func foldInt(e ast.Expr) (int64, bool) {
	v := fold(e)
	if v == nil || v.Kind() != constant.Int {
		return 0, false
	}
	return constant.Int64Val(v)
}

func fold(e ast.Expr) constant.Value {
	switch x := e.(type) {
	case *ast.ParenExpr:
		return fold(x.X)
	case *ast.BasicLit:
		if x.Kind == token.INT {
			return constant.MakeFromLiteral(x.Value, x.Kind, 0)
		}
	case *ast.BinaryExpr:
		a, b := fold(x.X), fold(x.Y)
		if a == nil || b == nil {
			return nil
		}
		switch x.Op {
		case token.ADD, token.SUB, token.MUL:
			return constant.BinaryOp(a, x.Op, b)
		case token.SHL:
			if n, ok := constant.Uint64Val(b); ok && n < 62 {
				return constant.Shift(a, token.SHL, uint(n))
			}
		}
	}
	return nil
}

// newConstants is what the source contains beyond the constants the harness was written for.
func newConstants(repo, verif string) (outS []string, outI []int64) {
	now, err := mineSource(repo)
	if err != nil {
		return nil, nil
	}
	known := minedFiles{}
	if b, err := os.ReadFile(filepath.Join(verif, "harness", "constants.json")); err == nil {
		json.Unmarshal(b, &known)
	}
	seenS, seenI := map[string]bool{}, map[int64]bool{}
	for _, f := range sortedKeysMF(now) {
		k := known[f]
		if k == nil {
			k = &mined{}
		}
		var ss []string
		for s, n := range now[f].Strs {
			ok := len(s) > 0 && len(s) <= 40 && n > k.Strs[s] && !seenS[s]
			for i := 0; i < len(s); i++ {
				ok = ok && s[i] > 0x20 && s[i] < 0x7f && s[i] != '%'
			}
			if len(s) == 1 && (s[0] >= '0' && s[0] <= '9' || s[0] >= 'a' && s[0] <= 'z' || s[0] >= 'A' && s[0] <= 'Z' || s[0] == '/' || s[0] == '?' || s[0] == '#') {
				ok = false
			}
			if ok {
				ss = append(ss, s)
			}
		}
		// those that are new altogether first
		sort.Slice(ss, func(i, j int) bool {
			if a, b := k.Strs[ss[i]] == 0, k.Strs[ss[j]] == 0; a != b {
				return a
			}
			return ss[i] < ss[j]
		})
		for _, s := range ss {
			if len(outS) < 4 {
				seenS[s] = true
				outS = append(outS, s)
			}
		}
		var is []int64
		for v, n := range now[f].Ints {
			if v > 3 && v <= 1<<17 && n > k.Ints[v] && !seenI[v] {
				is = append(is, v)
			}
		}
		sort.Slice(is, func(i, j int) bool {
			if a, b := k.Ints[is[i]] == 0, k.Ints[is[j]] == 0; a != b {
				return a
			}
			return is[i] < is[j]
		})
		for _, v := range is {
			if len(outI) < 3 {
				seenI[v] = true
				outI = append(outI, v)
			}
		}
	}
	return outS, outI
}

// bigConstants are sizes too large to be tried everywhere.
func bigConstants(repo, verif string) (out []int64) {
	now, err := mineSource(repo)
	if err != nil {
		return nil
	}
	known := minedFiles{}
	if b, err := os.ReadFile(filepath.Join(verif, "harness", "constants.json")); err == nil {
		json.Unmarshal(b, &known)
	}
	for _, f := range sortedKeysMF(now) {
		var is []int64
		for v, n := range now[f].Ints {
			if v > 1<<17 && v <= 10<<20 && (known[f] == nil || n > known[f].Ints[v]) {
				is = append(is, v)
			}
		}
		sort.Slice(is, func(i, j int) bool { return is[i] < is[j] })
		for _, v := range is {
			if len(out) < 2 {
				out = append(out, v)
			}
		}
	}
	return out
}

// minedFile writes the new constants as a harness file and returns its path.
func minedFile(repo, verif, dir string) string {
	strs, ints := newConstants(repo, verif)
	var b strings.Builder
	b.WriteString("package j8a\n\nvar vfMinedStrs = []string{")
	for _, s := range strs {
		if len(s) == 1 {
			// at both ends and within
			s = s + "a" + s + "b" + s
		}
		fmt.Fprintf(&b, "%q, ", s)
	}
	b.WriteString("}\n\nvar vfMinedInts = []int{")
	for _, v := range ints {
		fmt.Fprintf(&b, "%d, ", v)
	}
	b.WriteString("}\n\nvar vfMinedBig = []int{")
	for _, v := range bigConstants(repo, verif) {
		fmt.Fprintf(&b, "%d, ", v)
	}
	b.WriteString("}\n")
	f := filepath.Join(dir, "mined.go")
	os.WriteFile(f, []byte(b.String()), 0644)
	return f
}

func sortedKeysMF(m minedFiles) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	// requests are handled in the proxy files, look there first
	sort.Slice(ks, func(i, j int) bool {
		a, b := strings.HasPrefix(ks[i], "proxy"), strings.HasPrefix(ks[j], "proxy")
		if a != b {
			return a
		}
		return ks[i] < ks[j]
	})
	return ks
}

func cmdMine(args []string) int {
	repo := "/repo"
	if len(args) > 0 {
		repo = args[0]
	}
	m, err := mineSource(repo)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	b, _ := json.MarshalIndent(m, "", " ")
	fmt.Println(string(b))
	return 0
}
