package main

// C11, C12, C13, C14: the accessors.

import (
	"errors"
	"fmt"
	"math"
	"math/big"
	"reflect"
	"strconv"
	"strings"
	"time"

	hj "github.com/matehaxor03/holistic_json/json"
)

func init() {
	properties["C11"] = &Property{
		Rule:        "every integer type by value and by pointer, held in a value, a map and an array, read through every numeric accessor and bulk accessor and compared with exact arithmetic; non-trivial when the number is not zero",
		Assumptions: []string{"a stored float with an integral value may be read as that integer or rejected by integer accessors"},
		Cases:       numericCases,
	}
	properties["C12"] = &Property{
		Rule:  "every getter and predicate found by reflection is called against every kind of stored value, absent keys and out-of-range indices; non-trivial when the stored value is of another kind than the getter names",
		Cases: cleanFailureCases,
	}
	properties["C13"] = &Property{
		Rule:  "every predicate of values and maps against every kind of stored value, compared with the kind the workload stored; non-trivial when the predicate is expected to be true",
		Cases: predicateCases,
	}
	properties["C14"] = &Property{
		Rule:  "arrays of mixed or homogeneous elements are read with every bulk getter, from the array and through a map, and compared with reading each element alone and with what the workload stored; non-trivial when the array has at least two elements",
		Cases: bulkCases,
	}
}

// ---------------------------------------------------------------- C11

func sixDecimals(f float64) (float32, bool) {
	v, err := strconv.ParseFloat(fmt.Sprintf("%f", f), 32)
	return float32(v), err == nil
}

func nearestDouble(v *big.Int) float64 {
	f, _ := new(big.Float).SetInt(v).Float64()
	return f
}

func checkIntReads(t *T, p place, n *Node) {
	for _, ty := range intTypes {
		a := p.call(t, "Get"+title(ty))
		b := p.call(t, "Get"+title(ty)+"Value")
		t.Event("read as " + ty)
		ok := fits(n.I, ty)
		for i, r := range []got{a, b} {
			form := []string{"", "Value"}[i]
			if ok {
				if r.failed() {
					t.Fail("rejected", "%s holding %s: Get%s%s failed: %s", p.name, n, title(ty), form, errsText(r.errs))
				}
				if v := goInt(r.vals[0]); v == nil || v.Cmp(n.I) != 0 {
					t.Fail("wrong", "%s holding %s: Get%s%s returned %v", p.name, n, title(ty), form, v)
				}
			} else if !r.failed() {
				t.Fail("wrapped", "%s holding %s: Get%s%s returned %v without an error", p.name, n, title(ty), form, goInt(r.vals[0]))
			}
		}
	}
	want := nearestDouble(n.I)
	checkFloatReads(t, p, n, want)
}

func checkFloatReads(t *T, p place, n *Node, want float64) {
	for i, name := range []string{"GetFloat64", "GetFloat64Value"} {
		r := p.call(t, name)
		if r.failed() {
			t.Fail("double rejected", "%s holding %s: %s failed: %s", p.name, n, name, errsText(r.errs))
		}
		if f, ok := goFloat(r.vals[0]); !ok || !sameFloat(f, want) {
			t.Fail("double", "%s holding %s: %s returned %v, expected %v", p.name, n, []string{"GetFloat64", "GetFloat64Value"}[i], f, want)
		}
	}
	t.Event("read as double")
	six, ok := sixDecimals(want)
	for _, name := range []string{"GetFloat32", "GetFloat32Value"} {
		r := p.call(t, name)
		if !ok {
			if !r.failed() {
				f, _ := goFloat(r.vals[0])
				t.Fail("single", "%s holding %s: %s returned %v for a number no single holds", p.name, n, name, f)
			}
			continue
		}
		if r.failed() {
			t.Fail("single rejected", "%s holding %s: %s failed: %s", p.name, n, name, errsText(r.errs))
		}
		if f, fok := goFloat(r.vals[0]); !fok || !sameFloat(f, float64(six)) {
			t.Fail("single", "%s holding %s: %s returned %v, expected %v", p.name, n, name, f, six)
		}
	}
	t.Event("read as single")
}

// a stored float through the integer accessors: the exact integer or an error.
func checkFractionReads(t *T, p place, n *Node) {
	whole := !math.IsNaN(n.F) && !math.IsInf(n.F, 0) && n.F == math.Trunc(n.F)
	exact := new(big.Int)
	if whole {
		new(big.Float).SetFloat64(n.F).Int(exact)
	}
	for _, ty := range intTypes {
		a, b := p.call(t, "Get"+title(ty)), p.call(t, "Get"+title(ty)+"Value")
		if a.failed() != b.failed() {
			t.Fail("disagree", "%s holding %s: Get%s and Get%sValue disagree: %s / %s", p.name, n, title(ty), title(ty), a, b)
		}
		for _, r := range []got{a, b} {
			if r.failed() {
				continue
			}
			v := goInt(r.vals[0])
			if !whole || v == nil || v.Cmp(exact) != 0 {
				t.Fail("fraction", "%s holding %s: Get%s gave %v", p.name, n, title(ty), v)
			}
		}
		t.Event("fraction as " + ty)
	}
}

// bulk reads of the same number
func checkIntBulk(t *T, a *hj.Array, m *hj.Map, key string, ns []*Node) {
	for _, ty := range intTypes {
		ok := true
		for _, n := range ns {
			ok = ok && fits(n.I, ty)
		}
		name := "GetArrayOf" + title(ty)
		rs := []got{invoke(t, a, name), invoke(t, a, name+"Value"), invoke(t, m, name, key)}
		for i, r := range rs {
			what := []string{"array " + name, "array " + name + "Value", "map " + name}[i]
			if !ok {
				if !r.failed() {
					t.Fail("wrapped", "%s of %s returned %s without an error", what, nArr(ns...), r)
				}
				continue
			}
			if r.failed() || r.isNil() {
				t.Fail("rejected", "%s of %s: %s", what, nArr(ns...), r)
			}
			l := r.vals[0]
			if l.Kind() == reflect.Ptr {
				l = l.Elem()
			}
			if l.Len() != len(ns) {
				t.Fail("wrong", "%s of %s has %d entries", what, nArr(ns...), l.Len())
			}
			for j := range ns {
				if v := goInt(l.Index(j)); v == nil || v.Cmp(ns[j].I) != 0 {
					t.Fail("wrong", "%s of %s entry %d is %v", what, nArr(ns...), j, v)
				}
			}
		}
		t.Event("bulk read as " + ty)
	}
}

func interesting(cfg *Config, dense bool) []*big.Int {
	one := big.NewInt(1)
	var res []*big.Int
	seen := map[string]bool{}
	add := func(v *big.Int) {
		if (fits(v, "int64") || fits(v, "uint64")) && !seen[v.String()] {
			seen[v.String()] = true
			res = append(res, new(big.Int).Set(v))
		}
	}
	for k := uint(0); k <= 64; k++ {
		for d := int64(-2); d <= 2; d++ {
			v := new(big.Int).Add(new(big.Int).Lsh(one, k), big.NewInt(d))
			add(v)
			add(v.Neg(v))
		}
	}
	// doubles: ties and their neighbours
	for _, k := range []uint{53, 54, 55, 60, 62, 63} {
		half := new(big.Int).Lsh(one, k-53)
		for m := int64(0); m < 8; m++ {
			v := new(big.Int).Lsh(one, k)
			v.Add(v, new(big.Int).Mul(half, big.NewInt(m)))
			for d := int64(-1); d <= 1; d++ {
				x := new(big.Int).Add(v, big.NewInt(d))
				add(x)
				add(x.Neg(x))
			}
		}
	}
	lim := int64(300)
	if dense {
		lim = 1100
	}
	for i := -lim / 2; i < lim; i++ {
		add(big.NewInt(i))
	}
	for p := int64(10); p > 0 && p < 1e18; p *= 10 {
		add(big.NewInt(p))
		add(big.NewInt(-p))
		add(big.NewInt(p - 1))
	}
	for _, h := range cfg.Hot.Ints {
		add(big.NewInt(h))
		add(big.NewInt(-h))
	}
	return res
}

// like: another scalar of the kind (and integer type) of n.
func (g *Gen) like(n *Node) *Node {
	switch n.K {
	case KInt:
		for {
			if m := g.intNode(); fits(m.I, n.Ty) {
				return &Node{K: KInt, Ty: n.Ty, I: m.I}
			} else if g.chance(0.3) {
				return nInt(n.Ty, int64(g.n(100)))
			}
		}
	case KF32:
		return nF32(g.f32())
	case KF64:
		return nF64(g.f64())
	case KBool:
		return nBool(g.chance(0.5))
	case KTime:
		return nTime(g.time())
	case KStr:
		if g.chance(0.6) {
			return nStr(g.scalarText())
		}
		return nStr(g.text(&docOpts{}))
	}
	return n
}

// scalarOrBox: a scalar, sometimes a map or an array.
func (g *Gen) scalarOrBox(o *docOpts) *Node {
	switch {
	case g.chance(0.15):
		return g.mapNode(&docOpts{budget: 4, maxDepth: 2}, 0)
	case g.chance(0.15):
		return g.arrNode(&docOpts{budget: 4, maxDepth: 2}, 0)
	case g.chance(0.1):
		return nNull()
	}
	return g.scalar(o)
}

// variable stores a pointer to a variable, then changes the variable again and
// again; after each change every read has to agree with what the holder says
// it holds (the new content, or the old one if the holder took a copy).
func variable(t *T, g *Gen, next func() *Node, check func(p place, n *Node)) {
	b := g.builder()
	n := next()
	ptr := b.object(n, true)
	v := reflect.ValueOf(ptr)
	if v.Kind() != reflect.Ptr || v.IsNil() {
		return
	}
	m, a := hj.NewMap(), hj.NewArrayOfValues(&[]interface{}{ptr})
	m.SetObjectForMap("k", ptr)
	ps := []place{{"value of a variable", hj.NewValue(ptr), nil}, {"key of a variable", m, []interface{}{"k"}}, {"map value of a variable", m.GetValue("k"), nil}}
	if a.Len() == 1 && (*a.GetValues())[0] != nil {
		ps = append(ps, place{"element of a variable", (*a.GetValues())[0], nil})
	}
	observe := func(p place) *Node {
		if len(p.args) > 0 {
			return observeValue(m.GetValue("k"))
		}
		return observeValue(p.o.(*hj.Value))
	}
	for i := 0; i < 8; i++ {
		t.Input(true, n.String())
		for _, p := range ps {
			check(p, observe(p))
		}
		t.Event("variable changed")
		n = next()
		w := reflect.ValueOf(b.object(n, true))
		if w.Type() != v.Type() {
			continue
		}
		v.Elem().Set(w.Elem())
	}
}

func numericCases(cfg *Config) []Case {
	var res []Case
	ints := interesting(cfg, cfg.thorough())
	const chunk = 120
	for _, ty := range intTypes {
		var vals []*big.Int
		for _, v := range ints {
			if fits(v, ty) {
				vals = append(vals, v)
			}
		}
		for lo := 0; lo < len(vals); lo += chunk {
			hi := lo + chunk
			if hi > len(vals) {
				hi = len(vals)
			}
			part := vals[lo:hi]
			ty := ty
			res = append(res, Case{Name: fmt.Sprintf("stored-%s-%d", ty, lo), Fn: func(t *T) {
				g := newGen(t)
				for _, v := range part {
					n := &Node{K: KInt, Ty: ty, I: v}
					t.Input(v.Sign() != 0, n.String())
					// by value and by pointer through the plain constructor, then
					// through the setters
					for _, ptr := range []bool{false, true} {
						m := hj.NewMap()
						m.SetObjectForMap("n", intOf(n, ptr))
						checkIntReads(t, place{"map key", m, []interface{}{"n"}}, n)
						checkIntReads(t, place{"value", hj.NewValue(intOf(n, ptr)), nil}, n)
					}
					for _, p := range places(g, n) {
						checkIntReads(t, p, n)
					}
				}
			}})
		}
	}
	res = batch(res, "random", cfg.n(600, 4000), func(t *T) {
		g := newGen(t)
		for i := 0; i < 25; i++ {
			n := g.intNode()
			t.Input(n.I.Sign() != 0, n.String())
			for _, p := range places(g, n) {
				checkIntReads(t, p, n)
			}
		}
	})
	// a variable stored by pointer, read, changed and read again
	for _, ty := range intTypes {
		ty := ty
		res = batch(res, "variable-"+ty, cfg.n(12, 60), func(t *T) {
			g := newGen(t)
			for i := 0; i < 4; i++ {
				variable(t, g, func() *Node { return g.like(&Node{K: KInt, Ty: ty}) }, func(p place, n *Node) { checkIntReads(t, p, n) })
			}
		})
	}
	res = batch(res, "variable-fraction", cfg.n(60, 300), func(t *T) {
		g := newGen(t)
		for i := 0; i < 6; i++ {
			kind := &Node{K: []Kind{KF32, KF64}[g.n(2)]}
			variable(t, g, func() *Node { return g.like(kind) }, func(p place, n *Node) {
				checkFloatReads(t, p, n, n.F)
				checkFractionReads(t, p, n)
			})
		}
	})
	res = batch(res, "fractions", cfg.n(450, 3000), func(t *T) {
		g := newGen(t)
		for i := 0; i < 25; i++ {
			n := nF64(g.f64())
			if g.chance(0.4) {
				n = nF32(g.f32())
			}
			if g.chance(0.1) {
				n = nF64(float64(g.n(1000) - 500))
			}
			t.Input(n.F != 0, n.String())
			for _, p := range places(g, n) {
				checkFloatReads(t, p, n, n.F)
				checkFractionReads(t, p, n)
			}
		}
	})
	res = batch(res, "bulk", cfg.n(450, 3000), func(t *T) {
		g := newGen(t)
		for i := 0; i < 12; i++ {
			var ns []*Node
			lim := 1 + g.n(6)
			home := intTypes[g.n(len(intTypes))]
			for j := 0; j < lim; j++ {
				n := g.intNode()
				if g.chance(0.7) {
					for k := 0; k < 30 && !fits(n.I, home); k++ {
						n = g.intNode()
					}
				}
				ns = append(ns, n)
			}
			t.Input(true, nArr(ns...).String())
			m := hj.NewMap()
			b := g.builder()
			arr := b.arrayOf(nArr(ns...))
			m.SetArray("k", arr)
			checkIntBulk(t, arr, m, "k", ns)
		}
	})
	// numbers that arrive by parsing
	res = batch(res, "parsed", cfg.n(300, 2000), func(t *T) {
		g := newGen(t)
		for i := 0; i < 12; i++ {
			v := g.bigInt()
			text := fmt.Sprintf(`{"a":%s,"b":[%s,1],"c":{"d":%s}}`, v, v, v)
			m, errs := hj.Parse(text)
			if m == nil || len(errs) > 0 {
				continue // C02's business
			}
			n := observeValue(m.GetValue("a"))
			if n.K != KInt || n.I.Cmp(v) != 0 {
				continue
			}
			t.Input(v.Sign() != 0, text)
			checkIntReads(t, place{"parsed key", m, []interface{}{"a"}}, n)
			if arr, e := m.GetArray("b"); e == nil && arr != nil && arr.Len() == 2 {
				checkIntReads(t, place{"parsed element", (*arr.GetValues())[0], nil}, n)
			}
		}
	})
	return res
}

// ---------------------------------------------------------------- C12

// zoo: one of everything that can be stored.
func zoo(g *Gen) []forms {
	b := g.builder()
	var res []forms
	add := func(name string, v interface{}) { res = append(res, forms{name, v}) }
	add("nil", nil)
	add("nil *string", (*string)(nil))
	add("nil *bool", (*bool)(nil))
	add("nil *int", (*int)(nil))
	add("nil *int8", (*int8)(nil))
	add("nil *int16", (*int16)(nil))
	add("nil *int32", (*int32)(nil))
	add("nil *int64", (*int64)(nil))
	add("nil *uint", (*uint)(nil))
	add("nil *uint8", (*uint8)(nil))
	add("nil *uint16", (*uint16)(nil))
	add("nil *uint32", (*uint32)(nil))
	add("nil *uint64", (*uint64)(nil))
	add("nil *float32", (*float32)(nil))
	add("nil *float64", (*float64)(nil))
	add("nil *time", (*time.Time)(nil))
	add("nil *Map", (*hj.Map)(nil))
	add("nil *Array", (*hj.Array)(nil))
	add("nil *[]error", (*[]error)(nil))
	add("nil *[]string", (*[]string)(nil))
	add("nil *error", (*error)(nil))
	add("nil *func", (*func(string) []error)(nil))
	add("nil *Value", (*hj.Value)(nil))
	kinds := []*Node{nBool(true), nBool(false), nStr(""), nStr("abc"), nStr("true"), nStr("12"), nStr("-7"), nStr("1.5"), nStr("2021-01-02 03:04:05.000000"), nF32(1.5), nF64(-2.25), nF64(3), nTime(g.time()), nErr("boom"),
		{K: KErrs, L: []string{"a", "b"}}, {K: KErrs}, {K: KStrs, L: []string{"x"}}, {K: KStrs}, nMap(), nArr(), g.mapNode(&docOpts{budget: 6, maxDepth: 3, extra: true}, 0), g.arrNode(&docOpts{budget: 6, maxDepth: 3, extra: true}, 0), nStr(g.str()), nErr(g.errText())}
	for _, ty := range intTypes {
		lo, hi := intRange(ty)
		kinds = append(kinds, &Node{K: KInt, Ty: ty, I: hi}, &Node{K: KInt, Ty: ty, I: lo}, nInt(ty, 1))
	}
	for _, n := range kinds {
		add(n.String(), b.object(n, false))
		add("*"+n.String(), b.object(n, true))
	}
	for _, f := range nonFinite() {
		add(f.name, f.v)
	}
	for _, f := range oddities() {
		add(f.name, f.v)
	}
	fn := func(string) []error { return nil }
	add("func", fn)
	add("*func", &fn)
	add("nil func", (func(string) []error)(nil))
	// functions of other signatures
	mfn, nfn := func(hj.Map) []error { return nil }, func(string) error { return nil }
	add("func(Map) []error", mfn)
	add("*func(Map) []error", &mfn)
	add("func(*Map) []error", func(*hj.Map) []error { return nil })
	add("func(Map) (*Map, []error)", func(hj.Map) (*hj.Map, []error) { return nil, nil })
	add("func(string) error", nfn)
	add("*func(string) error", &nfn)
	add("func()", func() {})
	add("func(string)", func(string) {})
	add("func() []error", func() []error { return nil })
	add("func(string, string) []error", func(string, string) []error { return nil })
	add("func(...string) []error", func(...string) []error { return nil })
	add("func(string) []string", func(string) []string { return nil })
	add("named func", namedFunc(fn))
	var nilErr error
	add("*error of nil", &nilErr)
	add("[]error with nil", []error{nil, errors.New("x")})
	add("[]error nil slice", []error(nil))
	add("Value of 5", hj.NewValueValue(5))
	add("*Value of text", hj.NewValue("12"))
	add("*Value of null", hj.NewValue(nil))
	add("Value of map", hj.NewValueValue(hj.NewMap()))
	add("nested Values", hj.NewValue(hj.NewValue(hj.NewValue("x"))))
	add("typed nil error", (*typedErr)(nil))
	arr := hj.NewArray()
	for i := 1; i < 4; i++ {
		arr = hj.NewArray()
		for k := 0; k < i; k++ {
			arr.AppendValue(nil)
		}
		add(fmt.Sprintf("array of %d nil values", i), arr)
	}
	arr = hj.NewArray()
	for k := 0; k < 12; k++ {
		if g.n(2) == 0 {
			arr.AppendValue(nil)
		} else {
			arr.AppendStringValue(g.str())
		}
	}
	add("array with nil values", arr)
	return res
}

type namedFunc func(string) []error

type typedErr struct{}

func (e *typedErr) Error() string { return "typed" }

// kindOf says what the accessors may accept.
func kindOf(v interface{}) string {
	if rv := reflect.ValueOf(v); v == nil || (rv.Kind() == reflect.Ptr || rv.Kind() == reflect.Func) && rv.IsNil() {
		return string(KNull)
	}
	switch x := v.(type) {
	case hj.Value, *hj.Value:
		return "wrapped"
	case func(string) []error, *func(string) []error:
		return "func"
	case *error:
		if *x == nil {
			return string(KNull)
		}
	}
	switch n := observeObject(v); n.K {
	case KF32, KF64:
		return "float"
	case KErrs, KStrs:
		return "errors"
	default:
		return string(n.K)
	}
}

// accepts lists the kinds a getter might read; anything else must be an error.
func accepts(name string) string {
	base := strings.TrimSuffix(strings.TrimPrefix(name, "Get"), "Value")
	switch {
	case strings.HasPrefix(name, "GetArrayOf"), base == "Array":
		return "array"
	case base == "Map":
		return "map"
	case base == "String":
		return "string"
	case base == "Runes":
		return "string"
	case base == "Bool":
		return "bool string"
	case strings.HasPrefix(base, "Int"), strings.HasPrefix(base, "UInt"):
		return "int string float wrapped"
	case strings.HasPrefix(base, "Float"):
		return "int string float wrapped"
	case strings.HasPrefix(base, "Time"):
		return "time string"
	case base == "Errors":
		return "errors array"
	case base == "Func":
		return "func"
	}
	return "*"
}

func mayAccept(name, kind string) bool {
	a := accepts(name)
	if a == "*" {
		return true
	}
	for _, k := range strings.Fields(a) {
		if k == kind {
			return true
		}
	}
	return false
}

func argsFor(g *Gen, f reflect.Value, key interface{}) []interface{} {
	var args []interface{}
	ft := f.Type()
	for i := 0; i < ft.NumIn(); i++ {
		switch in := ft.In(i); {
		case in.Kind() == reflect.String:
			if key != nil && i == 0 {
				args = append(args, key)
			} else {
				args = append(args, g.str())
			}
		case in.Kind() == reflect.Int:
			args = append(args, []int{0, 1, 2, 6, 9, 10, -1, math.MaxInt, math.MinInt, 3, 100}[g.n(11)])
		case in.Kind() == reflect.Ptr && in.Elem().Kind() == reflect.String:
			if g.chance(0.3) {
				args = append(args, (*string)(nil))
			} else {
				s := g.str()
				args = append(args, &s)
			}
		default:
			return nil
		}
	}
	return args
}

var readPrefixes = []string{"Get", "Is", "Has", "Len", "Values", "Clone"}

// probe calls every read of o; key is nil for values and arrays.
func probe(t *T, g *Gen, o interface{}, key interface{}, kind, desc string) {
	for _, name := range opNames(o, readPrefixes...) {
		f, ok := op(o, name)
		if !ok {
			continue
		}
		args := argsFor(g, f, key)
		if len(args) != f.Type().NumIn() {
			continue
		}
		r := invoke(t, o, name, args...)
		t.Event("reads")
		if !r.has || len(r.vals) == 0 {
			continue
		}
		t.Input(!mayAccept(name, kind), fmt.Sprintf("%T.%s of %s", o, name, desc))
		if r.failed() && !r.empty() {
			t.Fail("result with error", "%T.%s of %s returned %s", o, name, desc, r)
		}
		if _, isArray := o.(*hj.Array); isArray || name == "Clone" {
			continue // probeArray judges indexed reads, C14 the lists
		}
		rt := r.vals[0].Type()
		ptr := rt.Kind() == reflect.Ptr
		if kind == string(KNull) {
			switch {
			case ptr:
				if r.failed() || !r.isNil() {
					t.Fail("null pointer read", "%T.%s of %s returned %s", o, name, desc, r)
				}
			case rt.Kind() == reflect.Slice: // list values of nothing
			default:
				if !r.failed() {
					t.Fail("null value read", "%T.%s of %s returned %s, expected an error", o, name, desc, r)
				}
			}
			continue
		}
		if !mayAccept(name, kind) && !r.failed() {
			t.Fail("incompatible", "%T.%s of %s returned %s, expected an error", o, name, desc, r)
		}
	}
}

func cleanFailureCases(cfg *Config) []Case {
	a := batch(nil, "zoo", cfg.n(80, 1600), func(t *T) {
		g := newGen(t)
		for _, z := range zoo(g) {
			kind := kindOf(z.v)
			if kind == "wrapped" && g.chance(0.5) {
				continue
			}
			probe(t, g, hj.NewValue(z.v), nil, kind, z.name)
			m := hj.NewMap()
			k := g.str()
			if g.chance(0.5) {
				m.SetStringValue(k+"'", "other")
			}
			m.SetObjectForMap(k, z.v)
			probe(t, g, m, k, kind, "key holding "+z.name)
			probe(t, g, m, k+"?", string(KNull), "absent key beside "+z.name)
			probeArray(t, g, []interface{}{1, z.v, "s"}, z.name)
		}
	})
	a = batch(a, "absent", cfg.n(60, 1000), func(t *T) {
		g := newGen(t)
		for i := 0; i < 6; i++ {
			n := g.doc(3+g.n(12), true)
			m := g.builder().mapOf(n)
			for j := 0; j < 3; j++ {
				k := g.str()
				if g.chance(0.5) && len(n.Keys) > 0 {
					k = n.Keys[g.n(len(n.Keys))] + g.oneOf(" ", "x", "\x00")
				}
				if n.find(k) >= 0 {
					continue
				}
				probe(t, g, m, k, string(KNull), "absent key "+strconv.Quote(clip(k, 50)))
			}
			// a key set to a nil *Value, and one that was removed
			m.SetValue("nil value", nil)
			probe(t, g, m, "nil value", string(KNull), "key holding a nil *Value")
			m.SetIntValue("removed", 1)
			m.RemoveKey("removed")
			probe(t, g, m, "removed", string(KNull), "removed key")
		}
		probe(t, g, hj.NewMap(), "k", string(KNull), "key of an empty map")
		x := hj.NewMapValue()
		probe(t, g, &x, "", string(KNull), "empty key of an empty map")
	})
	a = batch(a, "documents", cfg.n(150, 2500), func(t *T) {
		g := newGen(t)
		for i := 0; i < 4; i++ {
			n := g.doc(4+g.n(14), true)
			m := g.builder().mapOf(n)
			for j, k := range n.Keys {
				kind := kindOf(g.builder().object(n.Vals[j], false))
				if n.Vals[j].K == KNull {
					kind = string(KNull)
				}
				probe(t, g, m, k, kind, "key holding "+clip(n.Vals[j].String(), 100))
				if v := m.GetValue(k); v != nil {
					probe(t, g, v, nil, kind, "value "+clip(n.Vals[j].String(), 100))
				}
			}
		}
	})
	a = batch(a, "indices", cfg.n(40, 600), func(t *T) {
		g := newGen(t)
		for i := 0; i < 12; i++ {
			n := g.arrNode(&docOpts{budget: g.n(14), maxDepth: 3, extra: true}, 0)
			arr := g.builder().arrayOf(n)
			probe(t, g, arr, nil, "array", clip(n.String(), 100))
			idx := []int{-1, -2, len(n.Vals), len(n.Vals) + 1, math.MaxInt, math.MinInt, len(n.Vals) + 1000, -len(n.Vals), -len(n.Vals) - 1, 1 << 32, 256, -256}
			for _, h := range cfg.Hot.Ints {
				idx = append(idx, int(h))
			}
			for _, x := range idx {
				if x >= 0 && x < len(n.Vals) || (x == 0 && len(n.Vals) > 0) {
					continue
				}
				for _, name := range []string{"GetStringValue", "GetMap"} {
					r := invoke(t, arr, name, x)
					t.Input(true, fmt.Sprintf("%s(%d) of %d elements", name, x, len(n.Vals)))
					if !r.failed() {
						t.Fail("index", "%s(%d) of an array of %d elements reported no error", name, x, len(n.Vals))
					}
					if !r.empty() {
						t.Fail("result with error", "%s(%d) returned %s", name, x, r)
					}
				}
			}
		}
	})
	a = batch(a, "cells", cfg.n(120, 2000), func(t *T) {
		g := newGen(t)
		z := zoo(g)
		for i := 0; i < 20; i++ {
			arr := hj.NewArray()
			var kinds, names []string
			for k := 0; k < 1+g.n(9); k++ {
				switch g.n(5) {
				case 0, 1:
					arr.AppendValue(nil)
					kinds, names = append(kinds, string(KNull)), append(names, "absent")
				case 2:
					arr.AppendNil()
					kinds, names = append(kinds, string(KNull)), append(names, "null")
				case 3:
					arr.AppendStringValue(g.str())
					kinds, names = append(kinds, "string"), append(names, "string")
				default:
					f := z[g.n(len(z))]
					arr.AppendValue(hj.NewValue(f.v))
					kinds, names = append(kinds, kindOf(f.v)), append(names, f.name)
				}
			}
			for at := range kinds {
				cellReads(t, arr, at, kinds[at], fmt.Sprintf("cells %q", names))
				t.Event("cells read")
			}
		}
	})
	truth := map[string]bool{"true": true, "1": true, "false": false, "0": false}
	boolText := func(t *T, text string) {
		want, ok := truth[text]
		t.Input(!ok, "boolean text "+strconv.Quote(clip(text, 200)))
		m := hj.NewMap()
		m.SetStringValue("v", text)
		m.SetString("p", &text)
		vv := hj.NewValueValue(text)
		for _, p := range []place{{"value", &vv, nil}, {"*value", hj.NewValue(text), nil}, {"value of a pointer", hj.NewValue(&text), nil}, {"map", m, []interface{}{"v"}}, {"map with a pointer", m, []interface{}{"p"}}} {
			for _, name := range []string{"GetBool", "GetBoolValue"} {
				if !p.has(name) {
					continue
				}
				r := p.call(t, name)
				t.Event("boolean texts")
				switch {
				case ok && (r.failed() || r.isNil() || reflect.Indirect(r.vals[0]).Bool() != want):
					t.Fail("boolean text", "%s of a %s holding %q returned %s", name, p.name, text, r)
				case !ok && !r.failed():
					t.Fail("boolean text", "%s of a %s holding %q returned %s, expected an error", name, p.name, clip(text, 300), r)
				case !ok && !r.empty():
					t.Fail("result with error", "%s of a %s holding %q returned %s", name, p.name, clip(text, 300), r)
				}
			}
		}
	}
	for _, w := range []string{"true", "false", "1", "0"} {
		w := w
		a = append(a, Case{Name: "boolean-text-" + w, Fn: func(t *T) {
			boolText(t, w)
			oneEdit(w, true, func(s string) { boolText(t, s) })
			for _, x := range append([]string{" ", "\n", "\x00", "true", "false", "1", "0", "00", ".0", "e0", "\"", "ish", "y", "s"}, cfg.Hot.Strings...) {
				for _, s := range []string{x, x + w, w + x, x + w + x, strings.ToUpper(w) + x, w + " " + x, strings.Repeat(w, 2) + x} {
					boolText(t, s)
				}
			}
			for i := 1; i < len(w); i++ {
				boolText(t, w[:i])
				boolText(t, w[i:])
				boolText(t, strings.ToUpper(w[:i])+w[i:])
				boolText(t, w[:i]+strings.ToUpper(w[i:]))
			}
		}})
	}
	a = batch(a, "boolean-text", cfg.n(30, 400), func(t *T) {
		g := newGen(t)
		for i := 0; i < 60; i++ {
			s := g.str()
			if g.chance(0.3) {
				s = g.oneOf("true", "false", "1", "0", "yes", "no", "on", "off", "t", "f", "-1", "2", "01", "+1") + g.oneOf("", " ", s)
			}
			boolText(t, s)
		}
	})
	// an array read as a list of errors: every element is text or the read fails
	a = batch(a, "lists of errors", cfg.n(60, 900), func(t *T) {
		g := newGen(t)
		var bad []forms
		for _, f := range zoo(g) {
			if k := kindOf(f.v); k == "map" || k == "array" {
				bad = append(bad, f)
			}
		}
		bad = append(bad, oddities()...)
		for i := 0; i < 15; i++ {
			arr := hj.NewArray()
			texts := []string{}
			n := g.n(7)
			for k := 0; k < n; k++ {
				s := g.errText()
				texts = append(texts, s)
				arr.AppendStringValue(s)
			}
			at, name := -1, "texts only"
			if i%3 > 0 {
				f := bad[g.n(len(bad))]
				name = f.name
				other := hj.NewArray()
				at = g.n(n + 1)
				for k := 0; k <= n; k++ {
					if k == at {
						other.AppendValue(hj.NewValue(f.v))
					}
					if k < n {
						other.AppendStringValue(texts[k])
					}
				}
				arr = other
			}
			t.Input(at >= 0, fmt.Sprintf("%d texts with a %s at %d", n, name, at))
			m := hj.NewMap()
			m.SetArray("p", arr)
			m.SetObjectForMap("v", *arr)
			for _, p := range []place{{"value of an array", hj.NewValue(*arr), nil}, {"value of *array", hj.NewValue(arr), nil}, {"map with an array", m, []interface{}{"v"}}, {"map with an *array", m, []interface{}{"p"}}} {
				if !p.has("GetErrors") {
					continue
				}
				r := p.call(t, "GetErrors")
				t.Event("lists of errors read")
				switch {
				case at < 0 && (r.failed() || fmt.Sprintf("%q", errTexts(r.vals[0].Interface().([]error))) != fmt.Sprintf("%q", texts)):
					t.Fail("errors", "GetErrors of a %s of the texts %q returned %s", p.name, texts, r)
				case at >= 0 && !r.failed():
					t.Fail("incompatible", "GetErrors of a %s with a %s at %d of %d returned %s, expected an error", p.name, name, at, n+1, r)
				case at >= 0 && !r.empty():
					t.Fail("result with error", "GetErrors of a %s with a %s at %d of %d returned %s", p.name, name, at, n+1, r)
				}
			}
		}
	})
	return a
}

// cellReads judges the two reads of one element of an array.
func cellReads(t *T, arr *hj.Array, i int, kind, desc string) {
	for _, name := range []string{"GetStringValue", "GetMap"} {
		r := invoke(t, arr, name, i)
		t.Input(true, fmt.Sprintf("Array.%s(%d) with %s", name, i, desc))
		if r.failed() && !r.empty() {
			t.Fail("result with error", "Array.%s(%d) with %s returned %s", name, i, desc, r)
		}
		want := map[string]string{"GetStringValue": "string", "GetMap": "map"}[name]
		switch {
		case kind == want && r.failed():
			t.Fail("rejected", "Array.%s(%d) with %s failed: %s", name, i, desc, errsText(r.errs))
		case kind == string(KNull) && name == "GetStringValue" && !r.failed():
			t.Fail("null value read", "Array.%s(%d) with %s returned %s, expected an error", name, i, desc, r)
		case kind == string(KNull) && !r.failed() && !r.isNil():
			t.Fail("null pointer read", "Array.%s(%d) with %s returned %s", name, i, desc, r)
		case kind != want && kind != string(KNull) && kind != "wrapped" && !r.failed():
			t.Fail("incompatible", "Array.%s(%d) with %s returned %s", name, i, desc, r)
		}
	}
}

func probeArray(t *T, g *Gen, objs []interface{}, desc string) {
	arr := hj.NewArray()
	for _, o := range objs {
		arr.AppendValue(hj.NewValue(o))
	}
	probe(t, g, arr, nil, "array", "array holding "+desc)
	for i := -1; i <= len(objs); i++ {
		if i >= 0 && i < len(objs) {
			cellReads(t, arr, i, kindOf(objs[i]), desc)
			continue
		}
		for _, name := range []string{"GetStringValue", "GetMap"} {
			r := invoke(t, arr, name, i)
			if !r.failed() {
				t.Fail("index", "Array.%s(%d) out of range gives no error", name, i)
			}
			if !r.empty() {
				t.Fail("result with error", "Array.%s(%d) with %s returned %s", name, i, desc, r)
			}
		}
	}
}

// ---------------------------------------------------------------- C13

// holds is the truth table: is predicate p true of a value of kind n.
func holds(p string, n *Node) (want, known bool) {
	isInt := n.K == KInt
	signed := isInt && !strings.HasPrefix(n.Ty, "u")
	switch p {
	case "IsNil", "IsNull":
		return n.K == KNull, true
	case "IsBool":
		return n.K == KBool, true
	case "IsBoolTrue":
		return n.K == KBool && n.B, true
	case "IsBoolFalse":
		return n.K == KBool && !n.B, true
	case "IsString":
		return n.K == KStr, true
	case "IsEmptyString":
		return n.K == KStr && n.S == "", true
	case "IsMap":
		return n.K == KMap, true
	case "IsArray":
		return n.K == KArr, true
	case "IsInteger":
		return isInt, true
	case "IsInt":
		return signed, true
	case "IsUInt":
		return isInt && !signed, true
	case "IsInt8", "IsInt16", "IsInt32", "IsInt64", "IsUInt8", "IsUInt16", "IsUInt32", "IsUInt64":
		return isInt && "Is"+title(n.Ty) == p, true
	case "IsFloat":
		return n.K == KF32 || n.K == KF64, true
	case "IsFloat32":
		return n.K == KF32, true
	case "IsFloat64":
		return n.K == KF64, true
	case "IsNumber":
		return isInt || n.K == KF32 || n.K == KF64, true
	}
	return false, false
}

var mapPredicates = []string{"IsNull", "IsBool", "IsEmptyString", "IsInteger", "IsInt", "IsInt8", "IsInt16", "IsInt32", "IsInt64", "IsUInt", "IsUInt8", "IsUInt16", "IsUInt32", "IsUInt64", "IsString", "IsMap", "IsBoolTrue", "IsBoolFalse", "IsFloat", "IsFloat32", "IsFloat64", "IsArray"}
var valuePredicates = append([]string{"IsNil", "IsNumber"}, mapPredicates[1:]...)

func checkPredicates(t *T, g *Gen, o interface{}, key interface{}, n *Node, where string) {
	names := valuePredicates
	var args []interface{}
	if key != nil {
		names = mapPredicates
		args = []interface{}{key}
	}
	for _, p := range names {
		want, _ := holds(p, n)
		r := invoke(t, o, p, args...)
		t.Input(want, p+" "+where+clip(n.String(), 200))
		t.Event(fmt.Sprintf("%s=%v", p, want))
		if r.vals[0].Bool() != want {
			t.Fail("predicate", "%s %s holding %s is %v", where, p, clip(n.String(), 300), !want)
		}
	}
	if key != nil {
		return
	}
	v := o.(*hj.Value)
	others := []string{"", "nil", "<nil>", "null", "map[]", n.S, n.S + " ", " " + n.S, strings.ToUpper(n.S), strings.ToLower(n.S), n.S + "\x00", strings.TrimSpace(n.S), "x" + n.S, "true", "1", g.str()}
	if len(n.S) > 0 {
		others = append(others, n.S[:len(n.S)-1], n.S[1:], n.S[:len(n.S)-1]+"~")
	}
	for _, s := range others {
		s := s
		want := n.K == KStr && n.S == s
		if invoke(t, v, "IsValueEqualToStringValue", s).vals[0].Bool() != want || invoke(t, v, "IsValueEqualToString", &s).vals[0].Bool() != want {
			t.Fail("text comparison", "%s holding %s compared with %q: expected %v", where, clip(n.String(), 300), clip(s, 300), want)
		}
		t.Event(fmt.Sprintf("text comparison=%v", want))
	}
	if n.K != KNull && invoke(t, v, "IsValueEqualToString", (*string)(nil)).vals[0].Bool() {
		t.Fail("text comparison", "%s holding %s equals a nil text", where, clip(n.String(), 300))
	}
}

func predicateNodes(g *Gen, cfg *Config) []*Node {
	res := []*Node{nNull(), nBool(true), nBool(false), nStr(""), nMap(), nArr(), nArr(nNull()), nF32(0), nF64(0), nF32(1.5), nF64(1), nF64(math.NaN()), nF64(math.Inf(1)), nF64(math.Inf(-1)), nF32(float32(math.NaN())), nF32(float32(math.Inf(1))), nF32(float32(math.Inf(-1))), nF64(math.Copysign(0, -1)), nTime(g.time()), nTime(time.Time{}), nErr(""), nErr("x"), nErr("nil"), {K: KErrs, L: []string{"a"}}, {K: KErrs}, {K: KStrs, L: []string{""}}, {K: KStrs}, {K: KStrs, L: []string{"a", "b"}}}
	for _, w := range wordStrings {
		res = append(res, nStr(w))
	}
	for _, w := range cfg.Hot.Strings {
		res = append(res, nStr(w), nErr(w), nStr(w+w))
	}
	for _, ty := range intTypes {
		lo, hi := intRange(ty)
		res = append(res, &Node{K: KInt, Ty: ty, I: hi}, &Node{K: KInt, Ty: ty, I: lo}, nInt(ty, 0), nInt(ty, 1), nInt(ty, 100))
		for _, h := range cfg.Hot.Ints {
			if fits(big.NewInt(h), ty) {
				res = append(res, nInt(ty, h))
			}
		}
	}
	return res
}

func predicateAll(t *T, g *Gen, n *Node) {
	b := g.builder()
	for _, ptr := range []bool{false, true} {
		if n.K == KTime && n.T.IsZero() && ptr {
			continue
		}
		o := b.object(n, ptr)
		checkPredicates(t, g, hj.NewValue(o), nil, n, "value")
		m := hj.NewMap()
		m.SetObjectForMap("k", o)
		checkPredicates(t, g, m, "k", n, "map key")
		checkPredicates(t, g, m, "K", nNull(), "absent key")
		a := hj.NewArrayOfValues(&[]interface{}{o})
		if a.Len() == 1 && (*a.GetValues())[0] != nil {
			checkPredicates(t, g, (*a.GetValues())[0], nil, n, "array element")
		}
	}
	for _, p := range places(g, n) {
		if len(p.args) > 0 {
			checkPredicates(t, g, p.o, p.args[0], n, p.name)
		} else {
			checkPredicates(t, g, p.o, nil, n, p.name)
		}
	}
}

func predicateCases(cfg *Config) []Case {
	var res []Case
	for part := 0; part < 24; part++ {
		part := part
		res = append(res, Case{Name: fmt.Sprintf("table-%d", part), Fn: func(t *T) {
			g := newGen(t)
			for i, n := range predicateNodes(g, t.cfg) {
				if i%24 == part {
					predicateAll(t, g, n)
				}
			}
		}})
	}
	res = batch(res, "random", cfg.n(600, 5000), func(t *T) {
		g := newGen(t)
		o := &docOpts{extra: true, anyBytes: true}
		for i := 0; i < 15; i++ {
			n := g.scalar(o)
			if g.chance(0.1) {
				n = g.mapNode(&docOpts{budget: 5, maxDepth: 3}, 0)
			} else if g.chance(0.1) {
				n = g.arrNode(&docOpts{budget: 5, maxDepth: 3}, 0)
			}
			predicateAll(t, g, n)
		}
	})
	// a value that changes kind again and again
	res = batch(res, "changing", cfg.n(300, 2500), func(t *T) {
		g := newGen(t)
		b := g.builder()
		o := &docOpts{extra: true}
		v, m := hj.NewValue(nil), hj.NewMap()
		model := nMap()
		for i := 0; i < 30; i++ {
			n := g.scalarOrBox(o)
			b.setValue(v, n)
			for k := g.n(3); k >= 0; k-- {
				checkPredicates(t, g, v, nil, n, "changed value")
			}
			k := fmt.Sprint("k", g.n(4))
			switch g.n(6) {
			case 0:
				m.RemoveKey(k)
				if j := model.find(k); j >= 0 {
					model.remove(j)
				}
			default:
				n2 := g.scalarOrBox(o)
				b.setMap(m, k, n2)
				model.set(k, n2)
			}
			if g.chance(0.5) {
				k = fmt.Sprint("k", g.n(4))
			}
			want := nNull()
			if j := model.find(k); j >= 0 {
				want = model.Vals[j]
			}
			checkPredicates(t, g, m, k, want, "changed key")
		}
	})
	// the variable behind a stored pointer changes between two questions
	res = batch(res, "variable", cfg.n(120, 1000), func(t *T) {
		g := newGen(t)
		for i := 0; i < 6; i++ {
			var kind Node
			switch g.n(5) {
			case 0, 1:
				kind = *nStr("")
			case 2:
				kind = *nBool(false)
			default:
				kind = *g.scalar(&docOpts{})
			}
			variable(t, g, func() *Node { return g.like(&kind) }, func(p place, n *Node) {
				if len(p.args) > 0 {
					checkPredicates(t, g, p.o, p.args[0], n, p.name)
				} else {
					checkPredicates(t, g, p.o, nil, n, p.name)
				}
			})
		}
	})
	res = batch(res, "parsed", cfg.n(200, 2000), func(t *T) {
		g := newGen(t)
		for i := 0; i < 6; i++ {
			text := g.jsonText(g.doc(4+g.n(14), false), textOpts{esc: g.n(2), ws: g.n(2)})
			m, errs := hj.Parse(text)
			if m == nil || len(errs) > 0 {
				continue
			}
			want, err := oracleParse(text)
			if err != nil || parsedDiff("$", want, observeMap(m)) != "" {
				continue // C01's business
			}
			got := observeMap(m)
			for j, k := range got.Keys {
				checkPredicates(t, g, m, k, got.Vals[j], "parsed key")
			}
		}
	})
	return res
}

// ---------------------------------------------------------------- C14

var bulkTypes = []string{"Int", "Int8", "Int16", "Int32", "Int64", "UInt", "UInt8", "UInt16", "UInt32", "UInt64", "Float32", "Float64", "Bool", "String"}

// direct says whether n is stored as exactly that type, and gives the value.
func direct(bt string, n *Node) (interface{}, bool) {
	switch bt {
	case "Bool":
		return n.B, n.K == KBool
	case "String":
		return n.S, n.K == KStr
	case "Float64":
		return n.F, n.K == KF64
	case "Float32":
		return nil, false
	}
	if n.K == KInt && title(n.Ty) == bt {
		return intOf(n, false), true
	}
	return nil, false
}

func checkBulk(t *T, arr *hj.Array, m *hj.Map, key string, model *Node, only string) {
	vals := *arr.GetValues()
	for _, bt := range bulkTypes {
		if only != "" && bt != only {
			continue
		}
		for _, suffix := range []string{"", "Value"} {
			name := "GetArrayOf" + bt + suffix
			if !sliceInOp(arr, name) {
				continue
			}
			// element by element
			bad := false
			var elems []reflect.Value
			for i, v := range vals {
				if v == nil {
					if suffix == "Value" {
						bad = true
					}
					elems = append(elems, reflect.Value{})
					continue
				}
				r := invoke(t, v, "Get"+bt+suffix)
				if r.failed() {
					bad = true
				}
				elems = append(elems, r.vals[0])
				if model.Vals[i].K == KNull && suffix == "Value" {
					bad = true
				}
			}
			rs := []got{invoke(t, arr, name)}
			where := []string{"array"}
			if sliceInOp(m, name) {
				rs = append(rs, invoke(t, m, name, key))
				where = append(where, "map")
			}
			for i, r := range rs {
				t.Event(fmt.Sprintf("%s bulk error=%v", where[i], bad))
				desc := func() string { return fmt.Sprintf("%s %s of %s", where[i], name, clip(model.String(), 800)) }
				if bad {
					if !r.failed() {
						t.Fail("no error", "%s: an element cannot be read, but no error: %s", desc(), r)
					}
					if !r.isNil() {
						t.Fail("list with error", "%s: a list comes with the error: %s", desc(), r)
					}
					continue
				}
				if r.failed() {
					t.Fail("error", "%s failed although every element can be read: %s", desc(), errsText(r.errs))
				}
				l := r.vals[0]
				if l.Kind() == reflect.Ptr {
					if l.IsNil() {
						t.Fail("no list", "%s returned no list and no error", desc())
					}
					l = l.Elem()
				}
				if l.Len() != len(vals) {
					t.Fail("length", "%s has %d entries for %d elements", desc(), l.Len(), len(vals))
				}
				for j := range vals {
					e := l.Index(j)
					null := model.Vals[j].K == KNull
					if e.Kind() == reflect.Ptr && e.IsNil() != (null || !elems[j].IsValid() || elems[j].IsNil()) {
						t.Fail("null entry", "%s: entry %d is nil=%v", desc(), j, e.IsNil())
					}
					if null && e.Kind() != reflect.Ptr {
						t.Fail("null entry", "%s: entry %d is a null read as a value", desc(), j)
					}
					if elems[j].IsValid() && !same(e, elems[j]) {
						t.Fail("entry", "%s: entry %d differs from the element read alone: %v, %v", desc(), j, reflect.Indirect(e), reflect.Indirect(elems[j]))
					}
					if want, ok := direct(bt, model.Vals[j]); ok && !same(reflect.Indirect(e), reflect.ValueOf(want)) {
						t.Fail("entry", "%s: entry %d is %v, stored was %v", desc(), j, reflect.Indirect(e), want)
					}
				}
			}
		}
	}
}

func (g *Gen) homogeneous(bt string, size int) *Node {
	a := nArr()
	for i := 0; i < size; i++ {
		switch bt {
		case "Bool":
			a.Vals = append(a.Vals, nBool(g.n(2) == 0))
		case "String":
			a.Vals = append(a.Vals, nStr(fmt.Sprint(i)+g.str()))
		case "Float32":
			a.Vals = append(a.Vals, nF32(float32(g.n(100000))/8))
		case "Float64":
			a.Vals = append(a.Vals, nF64(float64(i)+0.5))
		default:
			ty := strings.ToLower(bt)
			_, hi := intRange(ty)
			v := big.NewInt(int64(i))
			a.Vals = append(a.Vals, &Node{K: KInt, Ty: ty, I: v.Mod(v, hi)})
		}
	}
	return a
}

func (g *Gen) misfit(bt string) *Node {
	for {
		n := g.scalar(&docOpts{extra: true})
		switch g.n(4) {
		case 0:
			n = nMap()
		case 1:
			n = nArr(nInt("int", 1))
		}
		if n.K == KStr && bt != "String" {
			n.S = "not " + n.S
		}
		return n
	}
}

func bulkRun(t *T, g *Gen, model *Node, only string) {
	arr := g.builder().arrayOf(model)
	m := hj.NewMap()
	switch g.n(3) {
	case 0:
		m.SetArray("k", arr)
	case 1:
		m.SetArrayValue("k", *arr)
	default:
		m.SetObjectForMap("k", arr)
	}
	t.Input(len(model.Vals) > 1, only+clip(model.String(), 300))
	checkBulk(t, arr, m, "k", model, only)
}

func bulkCases(cfg *Config) []Case {
	a := batch(nil, "mixed", cfg.n(250, 4000), func(t *T) {
		g := newGen(t)
		for i := 0; i < 8; i++ {
			bulkRun(t, g, g.arrNode(&docOpts{budget: 2 + g.n(10), maxDepth: 2, extra: true}, 0), "")
		}
	})
	a = batch(a, "nearly", cfg.n(300, 6000), func(t *T) {
		g := newGen(t)
		for i := 0; i < 12; i++ {
			bt := bulkTypes[g.n(len(bulkTypes))]
			model := g.homogeneous(bt, 1+g.n(9))
			for k := g.n(3); k > 0; k-- {
				p := g.n(len(model.Vals))
				if g.chance(0.5) {
					model.Vals[p] = nNull()
				} else {
					model.Vals[p] = g.misfit(bt)
				}
			}
			if g.chance(0.3) {
				model.Vals[g.n(len(model.Vals))] = g.intNode()
			}
			bulkRun(t, g, model, bt)
		}
	})
	a = batch(a, "numeric text", cfg.n(80, 1500), func(t *T) {
		g := newGen(t)
		for i := 0; i < 8; i++ {
			model := nArr()
			for k := 1 + g.n(6); k > 0; k-- {
				switch g.n(4) {
				case 0:
					model.Vals = append(model.Vals, nStr(g.bigInt().String()))
				case 1:
					model.Vals = append(model.Vals, nStr(g.oneOf("true", "false", "1", "0", "yes", "", "1.5")))
				case 2:
					model.Vals = append(model.Vals, g.intNode())
				default:
					model.Vals = append(model.Vals, nStr(strconv.Itoa(g.n(200))))
				}
			}
			bulkRun(t, g, model, "")
		}
	})
	var sizes []Case
	szs := []int{}
	for i := 0; i <= 40; i++ {
		szs = append(szs, i)
	}
	szs = append(szs, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 500, 512, 1000, 1024, 1025)
	szs = append(szs, cfg.Hot.Sizes(5000)...)
	for _, s := range szs {
		s := s
		sizes = append(sizes, Case{Name: fmt.Sprintf("size-%d", s), Fn: func(t *T) {
			g := newGen(t)
			for _, bt := range bulkTypes {
				bulkRun(t, g, g.homogeneous(bt, s), bt)
				if s > 0 { // one bad or null element: first, last, somewhere
					spots := map[int]bool{0: true, s - 1: true, g.n(s): true}
					if s <= 20 {
						for i := 0; i < s; i++ {
							spots[i] = true
						}
					}
					for i := 0; i < s; i++ {
						if !spots[i] {
							continue
						}
						model := g.homogeneous(bt, s)
						model.Vals[i] = nNull()
						bulkRun(t, g, model, bt)
						model = g.homogeneous(bt, s)
						model.Vals[i] = g.misfit(bt)
						bulkRun(t, g, model, bt)
					}
				}
			}
		}})
	}
	// every number of elements that cannot be read, or are null
	cnts := []int{}
	for i := 1; i <= 45; i++ {
		cnts = append(cnts, i)
	}
	cnts = append(cnts, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 300)
	cnts = append(cnts, cfg.Hot.Sizes(1000)...)
	for _, c := range cnts {
		c := c
		sizes = append(sizes, Case{Name: fmt.Sprintf("bad-%d", c), Fn: func(t *T) {
			g := newGen(t)
			for _, bt := range bulkTypes {
				for way := 0; way < cfg.n(3, 6); way++ {
					bad := nNull()
					if way%3 != 0 {
						bad = g.misfit(bt)
					}
					good := g.homogeneous(bt, g.n(5))
					model := nArr()
					for i := 0; i < c; i++ {
						if way%3 == 2 {
							bad = g.misfit(bt)
						}
						model.Vals = append(model.Vals, bad)
					}
					model.Vals = append(model.Vals, good.Vals...)
					if g.chance(0.4) { // in any order
						g.r.Shuffle(len(model.Vals), func(i, j int) { model.Vals[i], model.Vals[j] = model.Vals[j], model.Vals[i] })
					}
					bulkRun(t, g, model, bt)
				}
			}
		}})
	}
	// nil *Value elements, and arrays edited between reads
	a = batch(a, "edited", cfg.n(100, 2000), func(t *T) {
		g := newGen(t)
		b := g.builder()
		bt := bulkTypes[g.n(len(bulkTypes))]
		model := g.homogeneous(bt, g.n(6))
		arr := b.arrayOf(model)
		m := hj.NewMap()
		m.SetArray("k", arr)
		for i := 0; i < 20; i++ {
			n := g.homogeneous(bt, 1).Vals[0]
			if g.chance(0.15) {
				n = g.misfit(bt)
			}
			switch c := g.n(5); {
			case c == 0 && len(model.Vals) > 0:
				p := g.n(len(model.Vals))
				arr.RemoveValueAtIndex(p)
				model.remove(p)
			case c == 1 && len(model.Vals) > 0:
				p := g.n(len(model.Vals))
				arr.SetValueAtIndex(p, b.valueOf(n))
				model.Vals[p] = n
			case c == 2 && len(model.Vals) > 0 && g.chance(0.4):
				p := g.n(len(model.Vals))
				arr.SetValueAtIndex(p, nil)
				model.Vals[p] = nNull()
			case c == 3 && g.chance(0.2):
				arr.AppendValue(nil)
				model.Vals = append(model.Vals, nNull())
			default:
				b.appendArray(arr, n)
				model.Vals = append(model.Vals, n)
			}
			t.Input(len(model.Vals) > 1, bt+clip(model.String(), 300))
			checkBulk(t, arr, m, "k", model, bt)
		}
	})
	return interleave(sizes, a)
}
