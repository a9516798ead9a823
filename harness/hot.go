package main

// Input dictionary. Like the dictionary a fuzzer extracts from its target, the
// literals of the package under test steer which strings, sizes, depths and
// counts the workloads try; literals that were not there when the checks were
// written come first. The verdict never depends on them.

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/scanner"
	"go/token"
	"math/big"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type Hot struct {
	Strings []string  // new string literals
	Ints    []int64   // new integer literals, with neighbours
	Floats  []float64 // new float literals
	raw     []string
}

func (h *Hot) Describe() string {
	if h == nil || len(h.raw) == 0 {
		return "none"
	}
	return clip(strings.Join(h.raw, " "), 400)
}

func repoDir() string {
	if d := os.Getenv("HJ_REPO"); d != "" {
		return d
	}
	return "/repo"
}

// scanLiterals counts the literals of the package sources.
func scanLiterals(dir string) map[string]int {
	res := map[string]int{}
	files, _ := filepath.Glob(filepath.Join(dir, "json", "*.go"))
	for _, f := range files {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		src, err := os.ReadFile(f)
		if err != nil {
			continue
		}
		fset := token.NewFileSet()
		file := fset.AddFile(f, fset.Base(), len(src))
		var s scanner.Scanner
		s.Init(file, src, nil, 0)
		for {
			_, tok, lit := s.Scan()
			if tok == token.EOF {
				break
			}
			switch tok {
			case token.INT, token.FLOAT, token.CHAR, token.STRING:
				res[tok.String()+" "+lit]++
			}
		}
		if parsed, err := parser.ParseFile(token.NewFileSet(), f, src, 0); err == nil {
			scanConstants(parsed, res)
		}
	}
	return res
}

// scanConstants counts the values of constant expressions (4*1024, 1<<11, '0'+5)
// and of well-known named constants (math.MaxUint16, utf8.RuneSelf).
func scanConstants(file *ast.File, res map[string]int) {
	note := func(v constant.Value) {
		switch v.Kind() {
		case constant.Int:
			res["INT "+v.ExactString()]++
		case constant.Float:
			f, _ := constant.Float64Val(v)
			res["FLOAT "+strconv.FormatFloat(f, 'g', -1, 64)]++
		case constant.String:
			res["STRING "+strconv.Quote(constant.StringVal(v))]++
		}
	}
	ast.Inspect(file, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BinaryExpr, *ast.SelectorExpr:
			if v := evalConst(x.(ast.Expr)); v != nil {
				note(v)
				return false
			}
		case *ast.UnaryExpr:
			if v := evalConst(x); v != nil {
				if _, lit := x.X.(*ast.BasicLit); !lit {
					note(v)
				}
				return false
			}
		}
		return true
	})
}

var namedConstants = map[string]string{
	"math.MaxInt8": "127", "math.MinInt8": "-128", "math.MaxUint8": "255", "math.MaxInt16": "32767", "math.MinInt16": "-32768", "math.MaxUint16": "65535",
	"math.MaxInt32": "2147483647", "math.MinInt32": "-2147483648", "math.MaxUint32": "4294967295", "math.MaxInt64": "9223372036854775807", "math.MinInt64": "-9223372036854775808",
	"math.MaxInt": "9223372036854775807", "math.MinInt": "-9223372036854775808", "math.MaxUint64": "18446744073709551615", "math.MaxUint": "18446744073709551615",
	"math.MaxFloat32": "3.40282346638528859811704183484516925440e+38", "math.MaxFloat64": "1.79769313486231570814527423731704356798070e+308", "math.SmallestNonzeroFloat32": "1.401298464324817e-45", "math.SmallestNonzeroFloat64": "5e-324",
	"math.Pi": "3.141592653589793", "utf8.RuneSelf": "128", "utf8.UTFMax": "4", "utf8.MaxRune": "1114111", "unicode.MaxRune": "1114111", "unicode.MaxASCII": "127", "unicode.MaxLatin1": "255", "strconv.IntSize": "64", "bits.UintSize": "64", "bufio.MaxScanTokenSize": "65536",
}

func evalConst(e ast.Expr) (v constant.Value) {
	defer func() {
		if recover() != nil { // division by zero, mismatched kinds
			v = nil
		}
	}()
	switch x := e.(type) {
	case *ast.BasicLit:
		if c := constant.MakeFromLiteral(x.Value, x.Kind, 0); c.Kind() != constant.Unknown {
			return c
		}
	case *ast.ParenExpr:
		return evalConst(x.X)
	case *ast.SelectorExpr:
		if p, ok := x.X.(*ast.Ident); ok {
			if t, ok := namedConstants[p.Name+"."+x.Sel.Name]; ok {
				if strings.ContainsAny(t, ".e") {
					return constant.MakeFromLiteral(t, token.FLOAT, 0)
				}
				b, _ := new(big.Int).SetString(t, 10)
				return constant.Make(b)
			}
		}
	case *ast.UnaryExpr:
		if in := evalConst(x.X); in != nil && (x.Op == token.SUB || x.Op == token.ADD) {
			return known(constant.UnaryOp(x.Op, in, 0))
		}
	case *ast.BinaryExpr:
		l, r := evalConst(x.X), evalConst(x.Y)
		if l == nil || r == nil {
			return nil
		}
		switch x.Op {
		case token.SHL, token.SHR:
			n, ok := constant.Uint64Val(r)
			if ok && n < 100 {
				return known(constant.Shift(l, x.Op, uint(n)))
			}
		case token.QUO:
			if l.Kind() == constant.Int && r.Kind() == constant.Int {
				return known(constant.BinaryOp(l, token.QUO_ASSIGN, r))
			}
			return known(constant.BinaryOp(l, x.Op, r))
		case token.ADD, token.SUB, token.MUL, token.REM, token.AND, token.OR, token.XOR, token.AND_NOT:
			return known(constant.BinaryOp(l, x.Op, r))
		}
	}
	return nil
}

func known(v constant.Value) constant.Value {
	if v.Kind() == constant.Unknown {
		return nil
	}
	return v
}

func loadHot(verif string) *Hot {
	h := &Hot{}
	base := map[string]int{}
	b, err := os.ReadFile(filepath.Join(verif, "harness", "baseline_literals.json"))
	if err != nil || json.Unmarshal(b, &base) != nil {
		return h
	}
	now := scanLiterals(repoDir())
	var keys []string
	for k, n := range now {
		if n > base[k] {
			keys = append(keys, k)
		}
	}
	sort.Strings(keys)
	ints := map[int64]bool{}
	for _, k := range keys {
		h.raw = append(h.raw, k)
		parts := strings.SplitN(k, " ", 2)
		switch parts[0] {
		case "INT":
			v, ok := new(big.Int).SetString(strings.ReplaceAll(parts[1], "_", ""), 0)
			if ok && v.IsInt64() {
				n := v.Int64()
				for d := int64(-2); d <= 2; d++ {
					ints[n+d] = true
				}
				if n > 0 && n < 62 {
					ints[int64(1)<<uint(n)] = true
					ints[int64(1)<<uint(n)-1] = true
					ints[int64(1)<<uint(n)+1] = true
				}
				if n > 0 && n < 1<<40 {
					ints[2*n] = true
					ints[-n] = true
				}
			}
		case "FLOAT":
			if f, err := strconv.ParseFloat(parts[1], 64); err == nil {
				h.Floats = append(h.Floats, f, -f, f+1, f-1)
			}
		case "CHAR", "STRING":
			if s, err := strconv.Unquote(parts[1]); err == nil {
				if parts[0] == "CHAR" && len(s) > 0 && s[0] >= '0' && s[0] <= '9' {
					ints[int64(s[0]-'0')] = true
				}
				if s != "" && len(s) < 2000 {
					h.Strings = append(h.Strings, s)
				}
			}
		}
	}
	for n := range ints {
		h.Ints = append(h.Ints, n)
	}
	sort.Slice(h.Ints, func(i, j int) bool { return h.Ints[i] < h.Ints[j] })
	return h
}

// Sizes returns the new integers usable as a size up to limit.
func (h *Hot) Sizes(limit int) []int {
	var res []int
	for _, n := range h.Ints {
		if n >= 0 && n <= int64(limit) {
			res = append(res, int(n))
		}
	}
	if len(res) > 60 { // keep it bounded and spread
		step := float64(len(res)) / 60
		var r []int
		for i := 0; i < 60; i++ {
			r = append(r, res[int(float64(i)*step)])
		}
		res = r
	}
	return res
}

func (h *Hot) String() string { return fmt.Sprint(h.raw) }
