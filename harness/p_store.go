package main

// C17, C18, C22: what is stored through a typed set is what is read back; times;
// text read as a scalar.

import (
	"errors"
	"fmt"
	"math"
	"math/big"
	"reflect"
	"regexp"
	"strconv"
	"strings"
	"time"
	"unicode/utf8"

	hj "github.com/matehaxor03/holistic_json/json"
)

func init() {
	properties["C17"] = &Property{
		Rule:  "every typed setter and append found by reflection, by value and by pointer, on values, maps and arrays (fresh, reused and parsed), with boundary and random values of its type; read back through the object getter, the matching pointer and value getters and all predicates; non-trivial when the stored value is not null",
		Cases: storeCases,
	}
	properties["C18"] = &Property{
		Rule:        "times of many years, zones and fractions stored through every route, read back, serialised and parsed; texts of 0 to 9 fractional digits and texts that are no time; non-trivial when the time has a fraction or the text is a near miss",
		Assumptions: []string{"the texts now and zero, the all-zero date, one-digit hours, a comma before the fraction and more than nine digits are left unspecified"},
		Cases:       timeCases,
	}
	properties["C22"] = &Property{
		Rule:        "texts (canonical and odd integers, decimals, booleans, words, near misses, any Unicode) read through every scalar accessor of values, maps and arrays and compared with exact arithmetic; non-trivial when the text is not empty",
		Assumptions: []string{"an unsigned accessor reads the text NULL as null", "integers spelled with a plus sign, leading zeros or an integral fraction may be read exactly or rejected", "hexadecimal, infinite and underscored texts are unspecified for the double accessor"},
		Cases:       textCases,
	}
}

// ---------------------------------------------------------------- C17

// holder is something values are stored in.
type holder struct {
	name string
	o    interface{}   // *Value, *Map or *Array
	args []interface{} // the key, for maps
}

// stored gives the Value now holding what was last stored.
func (h holder) stored(t *T) *hj.Value {
	switch x := h.o.(type) {
	case *hj.Value:
		return x
	case *hj.Map:
		return x.GetValue(h.args[0].(string))
	case *hj.Array:
		l := *x.GetValues()
		if len(l) == 0 {
			t.Fail("lost", "an append left the array empty")
		}
		return l[len(l)-1]
	}
	return nil
}

var (
	typeMap     = reflect.TypeOf(hj.Map{})
	typeArray   = reflect.TypeOf(hj.Array{})
	typeValue   = reflect.TypeOf(hj.Value{})
	typeTime    = reflect.TypeOf(time.Time{})
	typeErr     = reflect.TypeOf((*error)(nil)).Elem()
	typeErrs    = reflect.TypeOf([]error(nil))
	typeFunc    = reflect.TypeOf((func(string) []error)(nil))
	typeAny     = reflect.TypeOf((*interface{})(nil)).Elem()
	skipSetters = map[string]bool{"SetValueAtIndex": true}
)

// nodesFor gives boundary and random content for a parameter type.
func nodesFor(g *Gen, pt reflect.Type, many int) []*Node {
	if pt.Kind() == reflect.Ptr {
		pt = pt.Elem()
	}
	var res []*Node
	add := func(n ...*Node) { res = append(res, n...) }
	o := &docOpts{extra: true, anyBytes: true}
	switch pt {
	case typeMap:
		add(nMap())
		for i := 0; i < many; i++ {
			add(g.mapNode(&docOpts{budget: 6, maxDepth: 3, extra: true}, 0))
		}
		return res
	case typeArray:
		add(nArr())
		for i := 0; i < many; i++ {
			add(g.arrNode(&docOpts{budget: 6, maxDepth: 3, extra: true}, 0))
		}
		return res
	case typeTime:
		for i := 0; i < many; i++ {
			add(nTime(g.time()))
		}
		return res
	case typeErr:
		for i := 0; i < many; i++ {
			add(nErr(g.errText()))
		}
		return res
	case typeErrs:
		for i := 0; i < many; i++ {
			l := []string{}
			for k := g.listLen() + g.n(2); k > 0; k-- {
				l = append(l, g.errText())
			}
			add(&Node{K: KErrs, L: l})
		}
		return res
	case typeAny, typeValue:
		for i := 0; i < many; i++ {
			add(g.value(&docOpts{budget: 4, maxDepth: 2, extra: true, anyBytes: true}, 0))
		}
		return res
	case typeFunc:
		return nil
	}
	switch pt.Kind() {
	case reflect.Bool:
		add(nBool(true), nBool(false))
	case reflect.String:
		for i := 0; i < many; i++ {
			add(nStr(g.text(o)))
		}
		for i := 0; i < 3; i++ {
			add(nStr(pickStr(g.r, wordStrings)))
		}
	case reflect.Float32:
		for i := 0; i < many; i++ {
			add(nF32(g.f32()))
		}
		add(nF32(float32(math.NaN())), nF32(float32(math.Inf(1))), nF32(float32(math.Inf(-1))), nF32(float32(math.Copysign(0, -1))), nF32(0))
	case reflect.Float64:
		for i := 0; i < many; i++ {
			add(nF64(g.f64()))
		}
		add(nF64(math.NaN()), nF64(math.Inf(1)), nF64(math.Inf(-1)), nF64(math.Copysign(0, -1)), nF64(0))
	default:
		ty := pt.Kind().String()
		lo, hi := intRange(ty)
		one := big.NewInt(1)
		for _, v := range []*big.Int{lo, hi, new(big.Int).Add(lo, one), new(big.Int).Sub(hi, one), big.NewInt(0), one} {
			add(&Node{K: KInt, Ty: ty, I: v})
		}
		for i := 0; i < many; i++ {
			for k := 0; k < 20; k++ {
				if v := g.bigInt(); fits(v, ty) {
					add(&Node{K: KInt, Ty: ty, I: v})
					break
				}
			}
		}
	}
	return res
}

// argFor makes the argument of a setter for n; nil when it has none of that shape.
func argFor(g *Gen, pt reflect.Type, n *Node) interface{} {
	b := g.builder()
	switch pt {
	case typeAny:
		return b.object(n, g.n(2) == 0)
	case typeErr:
		return errors.New(n.S)
	case typeValue:
		return *b.valueOf(n)
	case reflect.PtrTo(typeValue):
		return b.valueOf(n)
	}
	return b.object(n, pt.Kind() == reflect.Ptr)
}

// checkHeld compares every view of the stored value with n.
func checkHeld(t *T, g *Gen, h holder, n *Node, how string) {
	v := h.stored(t)
	where := how + " of " + h.name
	if d := diff(n, observeValue(v), true); d != "" {
		t.Fail("read back", "%s: %s", where, d)
	}
	readers := []place{}
	if v != nil {
		readers = append(readers, place{"value", v, nil})
	}
	if m, ok := h.o.(*hj.Map); ok {
		readers = append(readers, place{"map", m, h.args})
		if d := diff(n, observeObject(m.GetObjectForMap(h.args[0].(string))), true); d != "" {
			t.Fail("read back", "%s: GetObjectForMap: %s", where, d)
		}
	}
	for _, p := range readers {
		checkTyped(t, p, n, where)
		if g.chance(0.3) {
			var key interface{}
			if len(p.args) > 0 {
				key = p.args[0]
			}
			checkPredicates(t, g, p.o, key, n, where)
		}
	}
}

// checkTyped reads n through the getters that match its kind.
func checkTyped(t *T, p place, n *Node, where string) {
	read := func(name string) got {
		r := p.call(t, name)
		t.Event(name)
		if n.K == KNull {
			if strings.HasSuffix(name, "Value") {
				if !r.failed() {
					t.Fail("null by value", "%s: %s of a null gives no error: %s", where, name, r)
				}
			} else if r.failed() || !r.isNil() {
				t.Fail("null", "%s: %s of a null gives %s", where, name, r)
			}
			return r
		}
		if r.failed() {
			t.Fail("read error", "%s: %s failed: %s", where, name, errsText(r.errs))
		}
		return r
	}
	want := func(name string, v interface{}) {
		if !p.has(name) {
			return
		}
		r := read(name)
		if n.K == KNull {
			return
		}
		if r.isNil() || !same(reflect.Indirect(r.vals[0]), reflect.ValueOf(v)) {
			t.Fail("read back", "%s: %s returned %s, stored was %s", where, name, r, clip(n.String(), 300))
		}
	}
	both := func(base string, v interface{}) { want("Get"+base, v); want("Get"+base+"Value", v) }
	switch n.K {
	case KNull:
		for _, base := range []string{"Bool", "String", "Int", "Int8", "Int16", "Int32", "Int64", "UInt", "UInt8", "UInt16", "UInt32", "UInt64", "Float32", "Float64", "Time"} {
			both(base, nil)
		}
	case KBool:
		both("Bool", n.B)
	case KStr:
		both("String", n.S)
	case KInt:
		both(title(n.Ty), intOf(n, false))
	case KF64:
		both("Float64", n.F)
	case KF32:
		both("Float64", n.F)
		if six, ok := sixDecimals(n.F); ok {
			both("Float32", six)
		}
	case KTime:
		both("Time", n.T)
	case KErrs:
		if r := read("GetErrors"); fmt.Sprintf("%q", errTexts(r.vals[0].Interface().([]error))) != fmt.Sprintf("%q", n.L) {
			t.Fail("read back", "%s: GetErrors returned %s, stored was %s", where, r, clip(n.String(), 300))
		}
	case KMap:
		for _, name := range []string{"GetMap", "GetMapValue"} {
			if r := read(name); diff(n, observeObject(r.vals[0].Interface()), true) != "" {
				t.Fail("read back", "%s: %s: %s", where, name, diff(n, observeObject(r.vals[0].Interface()), true))
			}
		}
	case KArr:
		for _, name := range []string{"GetArray", "GetArrayValue"} {
			if r := read(name); diff(n, observeObject(r.vals[0].Interface()), true) != "" {
				t.Fail("read back", "%s: %s: %s", where, name, diff(n, observeObject(r.vals[0].Interface()), true))
			}
		}
	}
}

// given is a caller's pointer handed to a setter, with what it pointed at.
type given struct {
	how string
	ptr interface{}
	n   *Node
}

func checkGiven(t *T, gs []given) {
	for _, x := range gs {
		if d := diff(x.n, observeObject(x.ptr), true); d != "" {
			t.Fail("written through", "a variable stored with %s was changed by a later set: %s", x.how, d)
		}
	}
}

// store calls the setter on h.
func store(t *T, h holder, name string, args ...interface{}) {
	invoke(t, h.o, name, append(append([]interface{}{}, h.args...), args...)...)
	t.Event(fmt.Sprintf("%s.%s", strings.TrimPrefix(fmt.Sprintf("%T", h.o), "*json."), name))
}

func holderOf(g *Gen, which int, used bool) holder {
	switch which {
	case 0:
		v := hj.NewValue(nil)
		if used {
			v = g.builder().valueOf(g.scalar(&docOpts{extra: true}))
		}
		return holder{"value", v, nil}
	case 1:
		m := hj.NewMap()
		k := "k"
		if g.chance(0.5) {
			k = g.str()
		}
		if used {
			b := g.builder()
			b.setMap(m, "first", nStr("x"))
			b.setMap(m, k, g.scalar(&docOpts{extra: true}))
			b.setMap(m, "last"+k, nNull())
		}
		return holder{"map", m, []interface{}{k}}
	}
	a := hj.NewArray()
	if used {
		a = g.builder().arrayOf(g.arrNode(&docOpts{budget: 5, maxDepth: 2}, 1))
	}
	return holder{"array", a, nil}
}

// setterParam gives the type of the stored parameter; ok is false for others.
func setterParam(h holder, name string) (pt reflect.Type, none, ok bool) {
	f, found := op(h.o, name)
	if !found || skipSetters[name] {
		return nil, false, false
	}
	ft := f.Type()
	switch ft.NumIn() - len(h.args) {
	case 0:
		return nil, true, true
	case 1:
		return ft.In(len(h.args)), false, true
	}
	return nil, false, false
}

func storeCases(cfg *Config) []Case {
	var res []Case
	// every setter, alone
	for which := 0; which < 3; which++ {
		proto := []interface{}{hj.NewValue(nil), hj.NewMap(), hj.NewArray()}[which]
		for _, name := range opNames(proto, "Set", "Append") {
			which, name := which, name
			if skipSetters[name] {
				continue
			}
			res = append(res, Case{Name: fmt.Sprintf("%T.%s", proto, name), Fn: func(t *T) { setterAlone(t, which, name) }})
		}
	}
	res = batch(res, "history", cfg.n(4500, 9000), storeHistory)
	res = batch(res, "parsed", cfg.n(900, 3000), func(t *T) {
		// typed sets into a document that came from text
		g := newGen(t)
		for round := 0; round < 3; round++ {
			n := g.doc(6+g.n(14), false)
			m, errs := hj.Parse(g.jsonText(n, textOpts{ws: g.n(2)}))
			if m == nil || len(errs) > 0 {
				return // C01's business
			}
			model := observeMap(m)
			for i := 0; i < 12; i++ {
				k := g.key(&docOpts{}, model)
				if len(model.Keys) > 0 && g.chance(0.6) {
					k = model.Keys[g.n(len(model.Keys))]
				}
				h := holder{"parsed map", m, []interface{}{k}}
				if v := m.GetValue(k); v != nil && g.chance(0.4) {
					h = holder{"parsed value", v, nil}
				}
				name, x := randomStore(t, g, h)
				if x == nil {
					continue
				}
				checkHeld(t, g, h, x, name)
				model.set(k, x)
				if d := diff(model, observeMap(m), true); d != "" {
					t.Fail("other entries", "after %s of key %q in a parsed document: %s", name, clip(k, 100), d)
				}
				t.Input(true, name+x.String())
			}
		}
	})
	return res
}

func setterAlone(t *T, which int, name string) {
	g := newGen(t)
	many := t.cfg.n(40, 300)
	for _, used := range []bool{false, true} {
		h := holderOf(g, which, used)
		pt, none, ok := setterParam(h, name)
		if !ok {
			continue
		}
		if none {
			t.Input(false, name)
			store(t, h, name)
			checkHeld(t, g, h, nNull(), name)
			continue
		}
		if pt == typeFunc || pt == reflect.PtrTo(typeFunc) {
			checkFunc(t, h, name)
			continue
		}
		for _, n := range nodesFor(g, pt, many) {
			h := holderOf(g, which, used)
			t.Input(n.K != KNull, fmt.Sprintf("%s.%s(%s)", h.name, name, n))
			arg := argFor(g, pt, n)
			store(t, h, name, arg)
			checkHeld(t, g, h, n, name)
			// and again over itself
			store(t, h, name, argFor(g, pt, n))
			checkHeld(t, g, h, n, name+" twice")
			if pt.Kind() == reflect.Ptr || pt.Kind() == reflect.Interface {
				// the variable stored first is no part of the document now
				scribble(arg)
				checkHeld(t, g, h, n, name+" twice, the first variable changed")
				t.Event("replaced variable changed")
			}
		}
		switch pt.Kind() {
		case reflect.Ptr, reflect.Interface:
			h := holderOf(g, which, used)
			if pt.Kind() == reflect.Ptr {
				store(t, h, name, reflect.Zero(pt).Interface())
			} else {
				store(t, h, name, nil)
			}
			t.Input(false, name+" nil")
			t.Event("nil pointer stored")
			if h.o != nil && pt == reflect.PtrTo(typeValue) {
				// a nil *Value is a null entry
				if d := diff(nNull(), observeValue(h.stored(t)), true); d != "" {
					t.Fail("nil", "%s(nil) of %s: %s", name, h.name, d)
				}
				continue
			}
			checkHeld(t, g, h, nNull(), name+"(nil)")
		}
	}
}

func checkFunc(t *T, h holder, name string) {
	called := ""
	f := func(s string) []error { called = s; return []error{errors.New("from " + s)} }
	fp := &f
	pt, _, _ := setterParam(h, name)
	if pt == typeFunc {
		store(t, h, name, f)
	} else {
		store(t, h, name, fp)
	}
	t.Input(true, name+" func")
	r := invoke(t, h.o, "GetFunc", h.args...)
	if r.failed() || r.isNil() {
		t.Fail("func", "%s then GetFunc: %s", name, errsText(r.errs))
	}
	back := *(r.vals[0].Interface().(*func(string) []error))
	if es := back("arg"); called != "arg" || len(es) != 1 || es[0].Error() != "from arg" {
		t.Fail("func", "%s then GetFunc gives another function", name)
	}
	if pt != typeFunc {
		store(t, h, name, (*func(string) []error)(nil))
		if r := invoke(t, h.o, "GetFunc", h.args...); r.failed() || !r.isNil() {
			t.Fail("func", "%s(nil) then GetFunc: %s", name, r)
		}
	}
}

// randomStore calls a random setter of h with random content; nil when the
// setter picked does not apply.
func randomStore(t *T, g *Gen, h holder) (string, *Node) {
	names := opNames(h.o, "Set", "Append")
	name := names[g.n(len(names))]
	pt, none, ok := setterParam(h, name)
	if !ok || pt == typeFunc || pt == reflect.PtrTo(typeFunc) {
		return name, nil
	}
	if none {
		store(t, h, name)
		return name, nNull()
	}
	if pt.Kind() == reflect.Ptr && pt.Elem() != typeValue && g.chance(0.1) {
		store(t, h, name, reflect.Zero(pt).Interface())
		return name, nNull()
	}
	ns := nodesFor(g, pt, 2)
	n := ns[g.n(len(ns))]
	store(t, h, name, argFor(g, pt, n))
	return name, n
}

// storeHistory: many sets on the same few entries; each set changes its entry
// and nothing else, and never a variable stored before.
func storeHistory(t *T) {
	g := newGen(t)
	m, a, v := hj.NewMap(), hj.NewArray(), hj.NewValue(nil)
	vmodel := nNull()
	mmodel, amodel := nMap(), nArr()
	var gs []given
	keys := []string{"a", "b", g.str(), g.str(), ""}
	steps := 25 + g.n(30)
	var log []string
	for i := 0; i < steps; i++ {
		which := g.n(3)
		var h holder
		switch which {
		case 0:
			h = holder{"value", v, nil}
		case 1:
			h = holder{"map", m, []interface{}{keys[g.n(len(keys))]}}
			if mv := m.GetValue(h.args[0].(string)); mv != nil && g.chance(0.3) {
				h = holder{"value in map", mv, nil}
				which = 3
			}
		case 2:
			h = holder{"array", a, nil}
			if len(amodel.Vals) > 0 && g.chance(0.5) {
				if av := (*a.GetValues())[len(amodel.Vals)-1]; av != nil {
					h = holder{"value in array", av, nil}
					which = 4
				}
			}
		}
		names := opNames(h.o, "Set", "Append")
		name := names[g.n(len(names))]
		pt, none, ok := setterParam(h, name)
		if !ok || pt == typeFunc || pt == reflect.PtrTo(typeFunc) {
			continue
		}
		n := nNull()
		switch {
		case none:
			store(t, h, name)
		case pt.Kind() == reflect.Ptr && pt.Elem() != typeValue && g.chance(0.1):
			store(t, h, name, reflect.Zero(pt).Interface())
		case pt.Kind() == reflect.Ptr && len(gs) > 0 && g.chance(0.25):
			// the same variable stored in a second place
			var same []given
			for _, x := range gs {
				if reflect.TypeOf(x.ptr) == pt {
					same = append(same, x)
				}
			}
			if len(same) == 0 {
				continue
			}
			x := same[g.n(len(same))]
			n = x.n
			store(t, h, name, x.ptr)
			t.Event("same variable stored twice")
		default:
			ns := nodesFor(g, pt, 2)
			n = ns[g.n(len(ns))]
			if n.K == KStr && g.chance(0.5) {
				// nearly the text held now
				now := vmodel
				switch {
				case which == 1 && mmodel.find(h.args[0].(string)) >= 0:
					now = mmodel.Vals[mmodel.find(h.args[0].(string))]
				case which == 3:
					now = observeValue(h.o.(*hj.Value))
				case which == 2 || which == 4:
					if len(amodel.Vals) > 0 {
						now = amodel.Vals[len(amodel.Vals)-1]
					}
				}
				if now.K == KStr && len(now.S) > 1 {
					n = nStr(g.oneOf(g.sibling(now.S), now.S[:len(now.S)-1]+"~", now.S[:1]+strings.Repeat("z", len(now.S)-1)))
					t.Event("nearly the text held before")
				}
			}
			arg := argFor(g, pt, n)
			store(t, h, name, arg)
			if arg != nil && pt.Kind() == reflect.Ptr && pt.Elem() != typeValue {
				gs = append(gs, given{name, arg, n})
			}
		}
		log = append(log, h.name+"."+name)
		switch which {
		case 0:
			vmodel = n
		case 1:
			mmodel.set(h.args[0].(string), n)
		case 2:
			amodel.Vals = append(amodel.Vals, n)
		case 3:
			for j, k := range mmodel.Keys {
				if m.GetValue(k) == h.o {
					mmodel.Vals[j] = n
				}
			}
		case 4:
			amodel.Vals[len(amodel.Vals)-1] = n
		}
		hist := func() string { return clip(strings.Join(log[max(0, len(log)-6):], " "), 300) }
		if which < 3 {
			checkHeld(t, g, h, n, name)
		}
		for _, x := range []struct {
			name      string
			want, got *Node
		}{{"value", vmodel, observeValue(v)}, {"map", mmodel, observeMap(m)}, {"array", amodel, observeArray(a)}} {
			if d := diff(x.want, x.got, true); d != "" {
				t.Fail("other entries", "%s after %s: %s", x.name, hist(), d)
			}
		}
		checkGiven(t, gs)
	}
	t.Input(true, strings.Join(log, " ")+mmodel.String())
}

// ---------------------------------------------------------------- C18

const microForm = "2006-01-02 15:04:05.000000"

func sameTime(a, b time.Time) bool {
	return a.Equal(b) && a.Format(time.RFC3339Nano) == b.Format(time.RFC3339Nano)
}

// readTime reads through every time getter of p.
func readTime(t *T, p place, want time.Time, wall bool, what string) {
	for _, name := range []string{"GetTime", "GetTimeValue"} {
		if !p.has(name) {
			continue
		}
		r := p.call(t, name)
		t.Event(name)
		if r.failed() || r.isNil() {
			t.Fail("time", "%s: %s of %s: %s", what, name, p.name, r)
		}
		x := reflect.Indirect(r.vals[0]).Interface().(time.Time)
		if wall && x.Format("2006-01-02 15:04:05.000000000") != want.Format("2006-01-02 15:04:05.000000000") || !wall && !sameTime(x, want) {
			t.Fail("time", "%s: %s of %s returned %s, expected %s", what, name, p.name, x.Format(time.RFC3339Nano), want.Format(time.RFC3339Nano))
		}
	}
}

func readTimeError(t *T, p place, text string) {
	for _, name := range []string{"GetTime", "GetTimeValue"} {
		if !p.has(name) {
			continue
		}
		r := p.call(t, name)
		t.Event(name + " error")
		if !r.failed() {
			t.Fail("no time", "%s of %s holding %q returned %s", name, p.name, clip(text, 200), r)
		}
	}
	for d := 0; d <= 9; d++ {
		if r := invoke(t, p.o, "GetTimeWithDecimalPlaces", append(append([]interface{}{}, p.args...), d)...); !r.failed() {
			t.Fail("no time", "GetTimeWithDecimalPlaces(%d) of %s holding %q returned %s", d, p.name, clip(text, 200), r)
		}
	}
}

func timePlaces(g *Gen, x time.Time) []place {
	var res []place
	mk := func(name string, o interface{}, args ...interface{}) { res = append(res, place{name, o, args}) }
	c := x
	mk("NewValue(time)", hj.NewValue(x))
	mk("NewValue(*time)", hj.NewValue(&c))
	v := hj.NewValue("old")
	v.SetTime(&c)
	mk("SetTime", v)
	v = hj.NewValue(12)
	v.SetTimeValue(x)
	mk("SetTimeValue", v)
	m := hj.NewMap()
	c2, c3 := x, x
	m.SetTime("t", &c2)
	m.SetObjectForMap("v", x)
	m.SetObjectForMap("p", &c3)
	m.SetValue("w", hj.NewValue(x))
	for _, k := range []string{"t", "v", "p", "w"} {
		mk("map key "+k, m, k)
	}
	a := hj.NewArray()
	a.AppendValue(hj.NewValue(x))
	a.AppendValueValue(hj.NewValueValue(&c))
	mk("array element", (*a.GetValues())[0])
	mk("array element", (*a.GetValues())[1])
	return res
}

func checkTime(t *T, g *Gen, x time.Time) {
	t.Input(x.Nanosecond() != 0, x.Format(time.RFC3339Nano))
	for _, p := range timePlaces(g, x) {
		readTime(t, p, x, false, "stored "+x.Format(time.RFC3339Nano))
		d := g.n(10)
		r := invoke(t, p.o, "GetTimeWithDecimalPlaces", append(append([]interface{}{}, p.args...), d)...)
		if r.failed() || r.isNil() || !sameTime(*(r.vals[0].Interface().(*time.Time)), x) {
			t.Fail("time", "stored %s: GetTimeWithDecimalPlaces(%d) of %s: %s", x.Format(time.RFC3339Nano), d, p.name, r)
		}
	}
	// serialised and parsed
	form := x.Format(microForm)
	c := x
	inner := hj.NewMap()
	inner.SetTime("in", &c)
	arr := hj.NewArray()
	arr.AppendValue(hj.NewValue(x))
	arr.AppendMap(inner)
	m := hj.NewMap()
	m.SetTime("t", &c)
	m.SetArray("a", arr)
	m.SetObjectForMap("v", x)
	text := serialise(t, "", m.ToJSONString)
	want := fmt.Sprintf(`{"t":"%s","a":["%s",{"in":"%s"}],"v":"%s"}`, form, form, form, form)
	node, err := oracleParse(text)
	wantNode, _ := oracleParse(want)
	if err != nil || diff(wantNode, node, true) != "" {
		t.Fail("time text", "time %s is serialised as %s, expected %s", x.Format(time.RFC3339Nano), clip(text, 400), want)
	}
	t.Event("serialised")
	back, errs := hj.Parse(text)
	if back == nil || len(errs) > 0 {
		t.Fail("parse back", "%s: %s", text, errsText(errs))
	}
	wall := time.Date(x.Year(), x.Month(), x.Day(), x.Hour(), x.Minute(), x.Second(), x.Nanosecond()/1000*1000, time.UTC)
	readTime(t, place{"parsed key t", back, []interface{}{"t"}}, wall, true, "parsed "+form)
	readTime(t, place{"parsed key v", back, []interface{}{"v"}}, wall, true, "parsed "+form)
	pa, e := back.GetArray("a")
	if len(e) > 0 || pa == nil || pa.Len() != 2 {
		t.Fail("parse back", "%s: the array is gone: %s", text, errsText(e))
	}
	readTime(t, place{"parsed element", (*pa.GetValues())[0], nil}, wall, true, "parsed "+form)
	for _, k := range []string{"t", "v"} {
		if r := invoke(t, back, "GetTimeWithDecimalPlaces", k, 6); r.failed() || r.isNil() || r.vals[0].Interface().(*time.Time).Format(microForm) != form {
			t.Fail("time", "parsed %s: GetTimeWithDecimalPlaces(6): %s", form, r)
		}
	}
	for _, o := range []interface{}{x, &c, hj.NewValue(x), hj.NewValueValue(&c)} {
		s, e := hj.ConvertInterfaceValueToStringValue(o)
		if len(e) > 0 || s != form {
			t.Fail("time text", "time %s as text is %q, expected %q (%s)", x.Format(time.RFC3339Nano), s, form, errsText(e))
		}
	}
}

func textPlaces(text string) []place {
	c := text
	m := hj.NewMap()
	m.SetStringValue("v", text)
	m.SetString("p", &c)
	a := hj.NewArray()
	a.AppendStringValue(text)
	a.AppendString(&c)
	res := []place{{"map string", m, []interface{}{"v"}}, {"map *string", m, []interface{}{"p"}},
		{"value", hj.NewValue(text), nil}, {"*value", hj.NewValue(&c), nil},
		{"element", (*a.GetValues())[0], nil}, {"*element", (*a.GetValues())[1], nil}}
	return res
}

func checkTimeText(t *T, g *Gen, x time.Time, digits int) {
	layout := "2006-01-02 15:04:05"
	unit := 1
	for i := 0; i < 9-digits; i++ {
		unit *= 10
	}
	if digits > 0 {
		layout += "." + strings.Repeat("0", digits)
	}
	x = time.Date(x.Year(), x.Month(), x.Day(), x.Hour(), x.Minute(), x.Second(), x.Nanosecond()/unit*unit, time.UTC)
	text := x.Format(layout)
	if x.IsZero() {
		return
	}
	t.Input(digits > 0, text)
	ps := textPlaces(text)
	if m, errs := hj.Parse(`{"t":"` + text + `","a":["` + text + `"]}`); m != nil && len(errs) == 0 {
		ps = append(ps, place{"parsed", m, []interface{}{"t"}})
	}
	for _, p := range ps {
		readTime(t, p, x, true, "text "+text)
		r := invoke(t, p.o, "GetTimeWithDecimalPlaces", append(append([]interface{}{}, p.args...), digits)...)
		if r.failed() || r.isNil() || !r.vals[0].Interface().(*time.Time).Equal(x) {
			t.Fail("time", "text %s: GetTimeWithDecimalPlaces(%d) of %s: %s", text, digits, p.name, r)
		}
		// other digit counts: the exact time or an error
		d := g.n(10)
		r = invoke(t, p.o, "GetTimeWithDecimalPlaces", append(append([]interface{}{}, p.args...), d)...)
		if !r.failed() && (r.isNil() || !r.vals[0].Interface().(*time.Time).Equal(x)) {
			t.Fail("time", "text %s: GetTimeWithDecimalPlaces(%d) of %s: %s", text, d, p.name, r)
		}
	}
	t.Event(fmt.Sprintf("text with %d digits", digits))
}

// notTime breaks a valid time text for certain.
func (g *Gen) notTime() string {
	x := g.time()
	layout := "2006-01-02 15:04:05"
	if d := g.n(10); d > 0 {
		layout += "." + strings.Repeat("0", d)
	}
	s := x.Format(layout)
	put := func(i int, with string) string { return s[:i] + with + s[i+len(with):] }
	switch g.n(22) {
	case 0:
		return put(5, g.oneOf("00", "13", "14", "20", "99"))
	case 1:
		return put(8, g.oneOf("00", "32", "39", "99"))
	case 2:
		return put(5, g.oneOf("02-30", "02-31", "04-31", "06-31", "09-31", "11-31"))
	case 3: // 29 February of a common year
		return g.oneOf("2021", "1900", "2100", "2023") + "-02-29" + s[10:]
	case 4:
		return put(11, g.oneOf("24", "25", "60", "99"))
	case 5:
		return put(14, g.oneOf("60", "61", "99"))
	case 6:
		return put(17, g.oneOf("60", "61", "99"))
	case 7:
		return put([]int{4, 7}[g.n(2)], g.oneOf("/", " ", ":", "_", "."))
	case 8:
		return put([]int{13, 16}[g.n(2)], g.oneOf("-", " ", "/", "h"))
	case 9:
		return put(g.n(4), g.oneOf("x", "-", " ", "O"))
	case 10:
		return s + g.oneOf("x", "Z", " ", "-", " UTC", "\n", ":", "+00:00")
	case 11:
		return g.oneOf("x", " ", "-", "+", "\t", "1") + s
	case 12:
		return s[:g.n(19)]
	case 13:
		return ""
	case 14:
		return g.oneOf("time", "null", "true", "nil", "<nil>", "today", "NOW", "Zero", "0", "1", "12:00", "not a time", "2021", "2021-01-02", "01/02/2021", "yesterday", "nowadays", " now", "zero ")
	case 15:
		return g.runes(1+g.n(6)) + "x"
	case 16:
		return put(10, g.oneOf("-", "_", "x", "0"))
	case 17:
		return s[:19] + "."
	case 18:
		return s[:19] + "." + g.oneOf("x", "12x", "-1", " 5")
	case 19:
		return strings.Replace(s, ":", "", 1+g.n(2))
	case 20:
		return strings.Replace(s, "-", "", 1+g.n(2))
	default:
		return s + " " + s
	}
}

func timeCases(cfg *Config) []Case {
	res := batch(nil, "stored", cfg.n(750, 5000), func(t *T) {
		g := newGen(t)
		for i := 0; i < 12; i++ {
			checkTime(t, g, g.time())
		}
	})
	res = batch(res, "text", cfg.n(450, 3000), func(t *T) {
		g := newGen(t)
		for i := 0; i < 3; i++ {
			x := g.time()
			for d := 0; d <= 9; d++ {
				checkTimeText(t, g, x, d)
			}
		}
	})
	res = batch(res, "not a time", cfg.n(450, 3000), func(t *T) {
		g := newGen(t)
		for i := 0; i < 20; i++ {
			s := g.notTime()
			if _, err := time.Parse("2006-01-02 15:04:05", s); err == nil || s == "now" || s == "zero" || strings.HasPrefix(s, "0000-00-00") {
				continue
			}
			t.Input(len(s) > 10, s)
			for _, p := range textPlaces(s) {
				readTimeError(t, p, s)
			}
		}
	})
	// every boundary of the clock and the calendar
	res = append(res, Case{Name: "calendar", Fn: func(t *T) {
		g := newGen(t)
		years := []int{1, 2, 99, 100, 400, 999, 1000, 1582, 1600, 1699, 1700, 1899, 1900, 1969, 1970, 1999, 2000, 2001, 2004, 2024, 2038, 2100, 2262, 2263, 9999}
		for _, h := range t.cfg.Hot.Ints {
			if h >= 1 && h <= 9999 {
				years = append(years, int(h))
			}
		}
		for _, y := range years {
			for mo := time.January; mo <= time.December; mo++ {
				last := time.Date(y, mo+1, 0, 0, 0, 0, 0, time.UTC).Day()
				for _, d := range []int{1, last} {
					x := time.Date(y, mo, d, []int{0, 23, 12, 9, 10}[g.n(5)], []int{0, 59, 9, 10}[g.n(4)], []int{0, 59, 9, 10}[g.n(4)], []int{0, 1000, 999999000, 100000000, 123456789, 999999999, 1}[g.n(7)], time.UTC)
					if x.IsZero() {
						continue
					}
					checkTime(t, g, x)
				}
			}
		}
	}}, Case{Name: "clock", Fn: func(t *T) {
		g := newGen(t)
		fr := []int{0}
		for u := 1; u < 1e9; u *= 10 {
			fr = append(fr, u, 9*u, 1e9-u)
		}
		for _, h := range t.cfg.Hot.Ints {
			if h >= 0 && h < 1e9 {
				fr = append(fr, int(h), int(h)%1000*1000)
			}
		}
		for i := 0; i < 60; i++ {
			for _, f := range []int{fr[g.n(len(fr))], fr[i%len(fr)]} {
				x := time.Date(2021, 3, 4, i%24, i, 59-i, f, time.UTC)
				checkTime(t, g, x)
				checkTimeText(t, g, x, g.n(10))
			}
		}
	}}, Case{Name: "zones", Fn: func(t *T) {
		g := newGen(t)
		for off := -14 * 4; off <= 14*4; off++ {
			x := time.Date(2021, 12, 31, 23, 30, 0, 1000, time.FixedZone(g.oneOf("", "X", "UTC", "Local", "CET"), off*900))
			checkTime(t, g, x)
		}
		for _, off := range []int{1, -1, 59, 61, 3599, -3601, 12345} {
			checkTime(t, g, time.Date(2000, 1, 1, 0, 0, 0, 999999000, time.FixedZone("odd", off)))
		}
	}})
	return res
}

// ---------------------------------------------------------------- C22

var (
	canonInt = regexp.MustCompile(`^(0+|-?0*[1-9][0-9]*)$`)
	anyInt   = regexp.MustCompile(`^[+-]?[0-9]+(\.0*)?$`)
	decimal  = regexp.MustCompile(`^[+-]?([0-9]+(\.[0-9]*)?|\.[0-9]+)([eE][+-]?[0-9]+)?$`)
	plainDec = regexp.MustCompile(`^-?([0-9]+)(\.[0-9]+)?([eE][+-]?[0-9]+)?$`)
	exotic   = regexp.MustCompile(`(?i)^[+-]?(0x|inf|nan|.*_)`)
)

func textBool(t *T, p place, s string) {
	for _, name := range []string{"GetBool", "GetBoolValue"} {
		r := p.call(t, name)
		want, ok := map[string]bool{"true": true, "1": true, "false": false, "0": false}[s]
		t.Event(fmt.Sprintf("as bool, readable=%v", ok))
		if !ok {
			if !r.failed() {
				t.Fail("bool", "%s of %s holding %q returned %s", name, p.name, clip(s, 200), r)
			}
		} else if r.failed() || r.isNil() || reflect.Indirect(r.vals[0]).Bool() != want {
			t.Fail("bool", "%s of %s holding %q returned %s", name, p.name, s, r)
		}
	}
}

// intText says how an integer accessor may answer: must the number be read, may it.
func intText(s, ty string) (v *big.Int, must, may bool) {
	if !anyInt.MatchString(s) {
		return nil, false, false
	}
	x := s
	if i := strings.IndexByte(x, '.'); i >= 0 {
		x = x[:i]
	}
	v, ok := new(big.Int).SetString(strings.TrimPrefix(x, "+"), 10)
	if !ok || !fits(v, ty) {
		return nil, false, false
	}
	return v, canonInt.MatchString(s), true
}

func textInt(t *T, p place, s string) {
	for _, ty := range intTypes {
		if s == "NULL" && strings.HasPrefix(ty, "u") {
			continue
		}
		v, must, may := intText(s, ty)
		rs := []got{p.call(t, "Get"+title(ty)), p.call(t, "Get"+title(ty)+"Value")}
		if rs[0].failed() != rs[1].failed() {
			t.Fail("int", "Get%s and Get%sValue of %s holding %q disagree: %s / %s", title(ty), title(ty), p.name, clip(s, 200), rs[0], rs[1])
		}
		for _, r := range rs {
			t.Event(fmt.Sprintf("as %s, readable=%v", ty, may))
			if r.failed() {
				if must {
					t.Fail("int", "Get%s of %s holding %q failed: %s", title(ty), p.name, s, errsText(r.errs))
				}
				continue
			}
			if !may {
				t.Fail("int", "Get%s of %s holding %q returned %s", title(ty), p.name, clip(s, 200), r)
			}
			if x := goInt(r.vals[0]); x == nil || x.Cmp(v) != 0 {
				t.Fail("int", "Get%s of %s holding %q returned %s", title(ty), p.name, s, r)
			}
		}
	}
}

func textFloat(t *T, p place, s string) {
	if exotic.MatchString(s) {
		return
	}
	f, err := strconv.ParseFloat(s, 64)
	ok := decimal.MatchString(s) && err == nil
	must := ok && plainDec.MatchString(s)
	for _, name := range []string{"GetFloat64", "GetFloat64Value"} {
		r := p.call(t, name)
		t.Event(fmt.Sprintf("as double, readable=%v", ok))
		if r.failed() {
			if must {
				t.Fail("double", "%s of %s holding %q failed: %s", name, p.name, s, errsText(r.errs))
			}
			continue
		}
		if !ok {
			t.Fail("double", "%s of %s holding %q returned %s", name, p.name, clip(s, 200), r)
		}
		if x, fok := goFloat(r.vals[0]); !fok || x != f {
			t.Fail("double", "%s of %s holding %q returned %s, expected %v", name, p.name, s, r, f)
		}
	}
	// the single-precision accessor: a text that is no number is an error
	for _, name := range []string{"GetFloat32", "GetFloat32Value"} {
		if r := p.call(t, name); !r.failed() && !ok {
			t.Fail("single", "%s of %s holding %q returned %s", name, p.name, clip(s, 200), r)
		}
	}
}

func textRunes(t *T, p place, s string) {
	if !p.has("GetRunes") || !utf8.ValidString(s) {
		return
	}
	r := p.call(t, "GetRunes")
	if r.failed() || r.isNil() {
		t.Fail("runes", "GetRunes of %s holding %q: %s", p.name, clip(s, 200), r)
	}
	l := *(r.vals[0].Interface().(*[]*rune))
	want := []rune(s)
	if len(l) != len(want) {
		t.Fail("runes", "GetRunes of %s holding %q gives %d runes, expected %d", p.name, clip(s, 200), len(l), len(want))
	}
	for i := range want {
		if l[i] == nil || *l[i] != want[i] {
			t.Fail("runes", "GetRunes of %s holding %q: rune %d is wrong", p.name, clip(s, 200), i)
		}
	}
	t.Event("as runes")
}

func checkText(t *T, s string) {
	t.Input(s != "", s)
	ps := textPlaces(s)
	for _, p := range ps {
		textBool(t, p, s)
		textInt(t, p, s)
		textFloat(t, p, s)
		textRunes(t, p, s)
	}
}

func (g *Gen) scalarText() string {
	switch g.n(16) {
	case 0:
		return g.oneOf("true", "false", "1", "0", "True", "TRUE", "FALSE", "False", "t", "f", "T", "F", "yes", "no", "on", "off", "2", "-1", "01", "00", "10", " true", "true ", "true\n", "truefalse", "1.0", "0.0", "tru", "rue", "null", "NULL", "nil", "", "\"true\"", "11", "0x1", "true\x00")
	case 1, 2, 3:
		return g.bigInt().String()
	case 4:
		v := g.bigInt()
		return g.oneOf("+", "0", "00", " ", "-", "--", "+-", "") + v.String() + g.oneOf("", " ", ".0", ".5", "e0", "e1", "x", "\n", "_", ",0", "L", "u")
	case 5: // just outside a type
		ty := intTypes[g.n(len(intTypes))]
		lo, hi := intRange(ty)
		if g.chance(0.5) {
			return new(big.Int).Add(hi, big.NewInt(int64(g.n(5)))).String()
		}
		return new(big.Int).Sub(lo, big.NewInt(int64(g.n(5)))).String()
	case 6: // far outside
		return g.oneOf("", "-") + "1" + strings.Repeat("0", 17+g.n(40))
	case 7: // wraps to something small
		v := new(big.Int).Lsh(big.NewInt(1), []uint{8, 16, 32, 64, 128}[g.n(5)])
		v.Mul(v, big.NewInt(int64(1+g.n(3))))
		return v.Add(v, big.NewInt(int64(g.n(200)-100))).String()
	case 8:
		return strconv.FormatFloat(g.f64(), "efgEG"[g.n(5)], -1, 64)
	case 9:
		return g.decLit()
	case 10:
		return strconv.FormatFloat(g.f64(), 'f', g.n(25), 64)
	case 11:
		return g.oneOf("1e400", "-1e400", "1e-400", "1e309", "1.7976931348623157e308", "1.7976931348623159e308", "4.9e-324", "2e-324", "0e999", ".5", "5.", ".", "e5", "1e", "1e+", "-", "+", "1.2.3", "1,5", "١٢", "１２", "½", "1 2", "1e5.5", "--1", "0-1")
	case 12:
		return g.str()
	case 13:
		s := g.bigInt().String()
		i := g.n(len(s) + 1)
		return s[:i] + g.oneOf(" ", "_", ",", ".", "-", "+", "a", "\x00", "０") + s[i:]
	case 14:
		if len(g.hot.Ints) > 0 {
			return strconv.FormatInt(g.hot.Ints[g.n(len(g.hot.Ints))], 10)
		}
		return g.ascii(3)
	default:
		return strconv.Itoa(g.n(400) - 150)
	}
}

// padded: integers and decimals with any number of zeros before them.
func padded(part int) Case {
	return Case{Name: fmt.Sprintf("padded-%d", part), Fn: func(t *T) {
		g := newGen(t)
		for n := part; n <= 130; n += 4 {
			z := strings.Repeat("0", n)
			for _, d := range []string{"", "1", "7", "10", "127", "128", "255", "256", "65535", "65536", "2147483647", "4294967296", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", fmt.Sprint(g.n(1000))} {
				if z+d == "" || n > 40 && !g.chance(0.4) {
					continue
				}
				checkText(t, z+d)
				checkText(t, "-"+z+d)
				checkText(t, "+"+z+d)
				checkText(t, z+d+"."+strings.Repeat("0", g.n(n+1)))
				checkText(t, g.oneOf("", "-")+z+d+g.oneOf(".5", "e0", "e1", "e00"+fmt.Sprint(n), ".25e-1"))
			}
		}
	}}
}

func textCases(cfg *Config) []Case {
	var res []Case
	ints := interesting(cfg, cfg.thorough())
	for lo := 0; lo < len(ints); lo += 60 {
		part := ints[lo:min(len(ints), lo+60)]
		res = append(res, Case{Name: fmt.Sprintf("integers-%d", lo), Fn: func(t *T) {
			for _, v := range part {
				checkText(t, v.String())
			}
		}})
	}
	res = append(res, Case{Name: "just outside", Fn: func(t *T) {
		for _, ty := range intTypes {
			lo, hi := intRange(ty)
			for d := int64(-2); d <= 3; d++ {
				checkText(t, new(big.Int).Add(hi, big.NewInt(d)).String())
				checkText(t, new(big.Int).Sub(lo, big.NewInt(d)).String())
			}
		}
	}}, padded(1), padded(2), padded(3), padded(0), Case{Name: "words", Fn: func(t *T) {
		for _, s := range append(append([]string{}, wordStrings...), t.cfg.Hot.Strings...) {
			checkText(t, s)
		}
	}}, Case{Name: "every rune", Fn: func(t *T) {
		// the Unicode range in strides, and every boundary
		for c := rune(0); c <= 0x10ffff; c += 97 {
			if c >= 0xd800 && c < 0xe000 {
				continue
			}
			s := string([]rune{'a', c, c + 0, 'z'})
			v := place{"value", hj.NewValue(s), nil}
			t.Input(true, s)
			textRunes(t, v, s)
		}
		for _, c := range runePool {
			s := strings.Repeat(string(c), 3)
			t.Input(true, s)
			textRunes(t, place{"value", hj.NewValue(s), nil}, s)
		}
	}}, Case{Name: "long runes", Fn: func(t *T) {
		g := newGen(t)
		for _, n := range append(append([]int{}, sizePool...), t.cfg.Hot.Sizes(20000)...) {
			s := g.fill(n)
			if !utf8.ValidString(s) {
				continue
			}
			t.Input(n > 0, s)
			for _, p := range textPlaces(s) {
				textRunes(t, p, s)
			}
		}
	}})
	res = batch(res, "random", cfg.n(900, 6000), func(t *T) {
		g := newGen(t)
		for i := 0; i < 25; i++ {
			checkText(t, g.scalarText())
		}
	})
	// a text stored by pointer, read, changed and read again
	res = batch(res, "variable", cfg.n(180, 1000), func(t *T) {
		g := newGen(t)
		for i := 0; i < 3; i++ {
			integers := g.chance(0.5)
			variable(t, g, func() *Node {
				if integers {
					return nStr(g.oneOf(fmt.Sprint(g.n(300)), g.bigInt().String()))
				}
				return g.like(nStr(""))
			}, func(p place, n *Node) {
				for k := g.n(2); k >= 0; k-- {
					textBool(t, p, n.S)
					textInt(t, p, n.S)
					textFloat(t, p, n.S)
					textRunes(t, p, n.S)
				}
			})
		}
	})
	// bulk reads of texts
	res = batch(res, "bulk", cfg.n(450, 3000), func(t *T) {
		g := newGen(t)
		for i := 0; i < 8; i++ {
			arr := hj.NewArray()
			var texts []string
			for k := 1 + g.n(5); k > 0; k-- {
				s := g.bigInt().String()
				if g.chance(0.5) {
					s = strconv.Itoa(g.n(120))
				}
				if g.chance(0.15) {
					s = g.scalarText()
				}
				if g.chance(0.15) {
					s = g.oneOf("true", "false", "1", "0")
				}
				texts = append(texts, s)
				if g.chance(0.5) {
					arr.AppendStringValue(s)
				} else {
					arr.AppendString(&s)
				}
			}
			t.Input(true, fmt.Sprintf("%q", texts))
			m := hj.NewMap()
			m.SetArray("k", arr)
			for _, ty := range intTypes {
				var want []*big.Int
				must, may, skip := true, true, false
				for _, s := range texts {
					v, mu, ma := intText(s, ty)
					want, must, may = append(want, v), must && mu, may && ma
					skip = skip || s == "NULL"
				}
				if skip {
					continue
				}
				name := "GetArrayOf" + title(ty)
				for j, r := range []got{invoke(t, arr, name), invoke(t, arr, name+"Value"), invoke(t, m, name, "k")} {
					if r.failed() {
						if must {
							t.Fail("bulk", "%s of %q failed: %s", name, texts, errsText(r.errs))
						}
						continue
					}
					l := reflect.Indirect(r.vals[0])
					if !may || r.isNil() || l.Len() != len(texts) {
						t.Fail("bulk", "%s (%d) of %q returned %s", name, j, texts, r)
					}
					for x := range want {
						if v := goInt(l.Index(x)); v == nil || v.Cmp(want[x]) != 0 {
							t.Fail("bulk", "%s (%d) of %q entry %d is %v", name, j, texts, x, v)
						}
					}
				}
				t.Event("bulk integers")
			}
			bools := map[string]bool{"true": true, "1": true, "false": false, "0": false}
			ok := true
			for _, s := range texts {
				_, is := bools[s]
				ok = ok && is
			}
			for _, r := range []got{invoke(t, arr, "GetArrayOfBool"), invoke(t, arr, "GetArrayOfBoolValue"), invoke(t, m, "GetArrayOfBool", "k"), invoke(t, m, "GetArrayOfBoolValue", "k")} {
				if r.failed() != !ok {
					t.Fail("bulk", "bulk booleans of %q: %s", texts, r)
				}
				if ok {
					l := reflect.Indirect(r.vals[0])
					for x, s := range texts {
						if l.Len() != len(texts) || reflect.Indirect(l.Index(x)).Bool() != bools[s] {
							t.Fail("bulk", "bulk booleans of %q entry %d is wrong", texts, x)
						}
					}
				}
			}
		}
	})
	return res
}
