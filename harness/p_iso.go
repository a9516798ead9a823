package main

// C10, C15, C16: clones, concurrent use, reads without side effects.

import (
	"errors"
	"fmt"
	"math"
	"reflect"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	hj "github.com/matehaxor03/holistic_json/json"
)

func init() {
	properties["C10"] = &Property{
		Rule:  "documents of every supported kind of value, built through every route or parsed, are cloned as map, array and value; then everything reachable in the one is changed (containers, values, stored variables, handed-out pointers) and the other compared with the model, both ways round; non-trivial when the document holds at least three values",
		Cases: cloneCases,
	}
	properties["C15"] = &Property{
		Rule:  "under the race detector, goroutines run scripts on their own documents and readers share finished documents, with yields injected at random; every goroutine's results are compared with the same script run alone; non-trivial when at least two goroutines ran at once",
		Race:  true,
		Cases: concurrentCases,
	}
	properties["C16"] = &Property{
		Rule:  "every read found by reflection is called twice on every part of a document; results must repeat and the document (content, Go types, text) must stay the same; then lists and numbers that were handed out are overwritten; documents side by side are changed in turn; non-trivial when the document holds at least three values",
		Cases: pureCases,
	}
}

// ---------------------------------------------------------------- changing everything

// scribble writes through something that was handed to or obtained from the
// package: a pointer to a scalar, a slice, a container, a value.
func scribble(o interface{}) {
	switch x := o.(type) {
	case *hj.Map:
		if x != nil {
			vandalMap(x, 3)
		}
	case hj.Map:
		vandalMap(&x, 3)
	case *hj.Array:
		if x != nil {
			vandalArray(x, 3)
		}
	case hj.Array:
		vandalArray(&x, 3)
	case *hj.Value:
		if x != nil {
			x.SetStringValue("scribbled")
		}
	case []error:
		for i := range x {
			x[i] = errors.New("scribbled")
		}
	case []string:
		for i := range x {
			x[i] = "scribbled"
		}
	case *[]error:
		if x != nil {
			for i := range *x {
				(*x)[i] = errors.New("scribbled")
			}
			*x = append(*x, errors.New("more"))
		}
	case *[]string:
		if x != nil {
			for i := range *x {
				(*x)[i] = "scribbled"
			}
			*x = append(*x, "more")
		}
	case *error:
		if x != nil {
			*x = errors.New("scribbled")
		}
	case *time.Time:
		if x != nil {
			*x = x.AddDate(1, 1, 1)
		}
	default:
		v := reflect.ValueOf(o)
		if v.Kind() != reflect.Ptr || v.IsNil() {
			return
		}
		switch e := v.Elem(); e.Kind() {
		case reflect.String:
			e.SetString(e.String() + "~")
		case reflect.Bool:
			e.SetBool(!e.Bool())
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			e.SetInt(e.Int() ^ 5)
		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
			e.SetUint(e.Uint() ^ 5)
		case reflect.Float32, reflect.Float64:
			e.SetFloat(e.Float()/2 + 1)
		case reflect.Slice:
			scribbleList(e)
		}
	}
}

func scribbleList(l reflect.Value) {
	for i := 0; i < l.Len(); i++ {
		if e := l.Index(i); e.Kind() == reflect.Ptr && !e.IsNil() {
			scribble(e.Interface())
		}
	}
	for i := 0; i < l.Len(); i++ {
		l.Index(i).Set(reflect.Zero(l.Type().Elem()))
	}
}

// vandalValue changes what v holds, in place where that is possible, through the
// pointers its getters hand out, and finally by its setters.
func vandalValue(v *hj.Value, depth int) {
	if v == nil {
		return
	}
	switch {
	case v.IsMap():
		if m, _ := v.GetMap(); m != nil {
			vandalMap(m, depth-1)
		}
	case v.IsArray():
		if a, _ := v.GetArray(); a != nil {
			vandalArray(a, depth-1)
		}
	default:
		if s, _ := v.GetString(); s != nil {
			scribble(s)
		}
		if b, _ := v.GetBool(); b != nil {
			scribble(b)
		}
		if x, _ := v.GetTime(); x != nil {
			scribble(x)
		}
		if es, _ := v.GetErrors(); es != nil {
			scribble(es)
		}
		for _, name := range []string{"GetInt", "GetInt64", "GetUInt8", "GetUInt64", "GetFloat64", "GetFloat32", "GetRunes"} {
			if f, ok := op(v, name); ok {
				if r := f.Call(nil); len(r) == 2 && r[0].Kind() == reflect.Ptr && !r[0].IsNil() {
					scribble(r[0].Interface())
				}
			}
		}
		scribble(v.GetObject())
	}
	switch v.GetType() {
	case "string", "*string":
		v.SetIntValue(99)
	case "nil":
		v.SetStringValue("was null")
	default:
		v.SetStringValue("changed")
	}
}

func vandalMap(m *hj.Map, depth int) {
	if depth < -40 {
		return
	}
	keys := m.GetKeys()
	for _, name := range opNames(m, "GetArrayOf") {
		for _, k := range keys {
			if f, _ := op(m, name); f.Type().NumIn() == 1 {
				if r := f.Call([]reflect.Value{reflect.ValueOf(k)}); len(r) > 1 && !(r[0].Kind() == reflect.Ptr && r[0].IsNil()) {
					scribbleList(reflect.Indirect(r[0]))
				}
			}
		}
	}
	for _, k := range keys {
		vandalValue(m.GetValue(k), depth)
	}
	for i, k := range keys {
		switch i % 4 {
		case 0:
			m.SetStringValue(k, "overwritten")
		case 1:
			m.RemoveKey(k)
		case 2:
			m.SetNil(k)
		}
	}
	m.SetStringValue("vandal", "new")
	for i := range keys {
		keys[i] = "scribbled"
	}
}

func vandalArray(a *hj.Array, depth int) {
	if depth < -40 {
		return
	}
	for _, name := range opNames(a, "GetArrayOf") {
		if f, _ := op(a, name); f.Type().NumIn() == 0 {
			if r := f.Call(nil); len(r) > 1 && !(r[0].Kind() == reflect.Ptr && r[0].IsNil()) {
				scribbleList(reflect.Indirect(r[0]))
			}
		}
	}
	for _, v := range *a.GetValues() {
		vandalValue(v, depth)
	}
	n := a.Len()
	for i := 0; i < n; i += 2 {
		a.SetValueAtIndex(i, hj.NewValue("overwritten"))
	}
	if n > 2 {
		a.RemoveValueAtIndex(1)
	}
	a.AppendStringValue("vandal")
}

// ---------------------------------------------------------------- C10

// subject is a document in one of the three containers.
type subject struct {
	v *hj.Value
	m *hj.Map
	a *hj.Array
}

func (s subject) observe() *Node {
	switch {
	case s.m != nil:
		return observeMap(s.m)
	case s.a != nil:
		return observeArray(s.a)
	}
	return observeValue(s.v)
}

func (s subject) clone(t *T, what string) subject {
	var c subject
	var errs []error
	defer func() {
		if r := recover(); r != nil {
			if _, ours := r.(*violation); ours {
				panic(r)
			}
			t.Fail("panic", "Clone of %s panicked: %v", clip(what, 600), r)
		}
	}()
	switch {
	case s.m != nil:
		c.m, errs = s.m.Clone()
	case s.a != nil:
		c.a, errs = s.a.Clone()
	default:
		c.v, errs = s.v.Clone()
	}
	if len(errs) > 0 || c.m == nil && c.a == nil && c.v == nil {
		t.Fail("clone error", "Clone of %s failed: %s", clip(what, 600), errsText(errs))
	}
	return c
}

func (s subject) vandal() {
	switch {
	case s.m != nil:
		vandalMap(s.m, 0)
	case s.a != nil:
		vandalArray(s.a, 0)
	default:
		vandalValue(s.v, 0)
	}
}

func (s subject) text() (string, []error) {
	switch {
	case s.m != nil:
		return mapJSON(s.m)
	case s.a != nil:
		return arrayJSON(s.a)
	}
	return "", nil
}

func (b *builder) subject(n *Node) subject {
	switch {
	case n.K == KMap && b.pick(3) > 0:
		return subject{m: b.mapOf(n)}
	case n.K == KArr && b.pick(3) > 0:
		return subject{a: b.arrayOf(n)}
	}
	return subject{v: b.valueOf(n)}
}

func mustEqual(t *T, want *Node, s subject, what string) {
	if d := diff(want, s.observe(), true); d != "" {
		t.Fail("not independent", "%s: %s; document %s", what, d, clip(want.String(), 600))
	}
	t.Event(what)
}

// checkClone: mk makes the document anew for every round.
func checkClone(t *T, g *Gen, n *Node, mk func() (subject, []interface{})) {
	t.Input(n.count() > 2, n.String())
	desc := n.String()
	s, _ := mk()
	if diff(n, s.observe(), true) != "" {
		return // not what was asked for: another property's business
	}
	c := s.clone(t, desc)
	if d := diff(n, c.observe(), true); d != "" {
		t.Fail("clone differs", "%s; document %s", d, clip(desc, 600))
	}
	mustEqual(t, n, s, "original after cloning")
	if textable(n) {
		x, e1 := s.text()
		y, e2 := c.text()
		if x != y || len(e1) != len(e2) {
			t.Fail("clone differs", "the clone's text is %s, the original's %s", clip(y, 400), clip(x, 400))
		}
	}
	cc := c.clone(t, desc)
	c.vandal()
	mustEqual(t, n, s, "original after changing the clone")
	mustEqual(t, n, cc, "clone of the clone after changing the clone")
	s2, kept := mk()
	c2 := s2.clone(t, desc)
	for _, k := range kept {
		scribble(k)
	}
	mustEqual(t, n, c2, "clone after changing what was stored in the original")
	s2.vandal()
	mustEqual(t, n, c2, "clone after changing the original")
	s.vandal()
	mustEqual(t, n, cc, "clone of the clone after changing the original")
}

func cloneOf(t *T, g *Gen, n *Node) {
	var shared map[*Node]bool
	if (n.K == KMap || n.K == KArr) && len(n.Vals) > 0 && n.count() < 200 && g.chance(0.2) {
		shared = g.shareParts(n)
	}
	checkClone(t, g, n, func() (subject, []interface{}) {
		b := g.builder()
		b.keep = true
		b.shared, b.cells, b.objs = shared, map[*Node]*hj.Value{}, map[objKey]interface{}{}
		s := b.subject(n)
		return s, b.kept
	})
}

// cloneSteps: single changes, alternately to the original and to the clone,
// each against its own model.
func cloneSteps(t *T) {
	g := newGen(t)
	n := g.doc(5+g.n(18), true)
	b := g.builder()
	m := b.mapOf(n)
	c, errs := m.Clone()
	if c == nil || len(errs) > 0 {
		t.Fail("clone error", "Clone of %s failed: %s", clip(n.String(), 500), errsText(errs))
	}
	t.Input(n.count() > 2, n.String())
	type side struct {
		name string
		m    *hj.Map
		n    *Node
	}
	sides := []side{{"original", m, n.copy()}, {"clone", c, n.copy()}}
	var log histLog
	for i := 0; i < 25; i++ {
		s := sides[g.n(2)]
		// walk down to some container
		cm, ca, cn := s.m, (*hj.Array)(nil), s.n
		for cn.count() > 1 && g.chance(0.7) {
			var spots []int
			for j, v := range cn.Vals {
				if v.K == KMap || v.K == KArr {
					spots = append(spots, j)
				}
			}
			if len(spots) == 0 {
				break
			}
			j := spots[g.n(len(spots))]
			var v *hj.Value
			if cm != nil {
				v = cm.GetValue(cn.Keys[j])
			} else {
				v = (*ca.GetValues())[j]
			}
			cn = cn.Vals[j]
			cm, ca = nil, nil
			if cn.K == KMap {
				cm, _ = v.GetMap()
			} else {
				ca, _ = v.GetArray()
			}
			if cm == nil && ca == nil {
				t.Fail("lost", "a container of the %s cannot be read", s.name)
			}
		}
		x := g.scalar(&docOpts{extra: true})
		switch {
		case cm != nil:
			k := fmt.Sprint("n", g.n(4))
			if len(cn.Keys) > 0 && g.chance(0.7) {
				k = cn.Keys[g.n(len(cn.Keys))]
			}
			at := cn.find(k)
			switch {
			case at >= 0 && g.chance(0.4):
				cm.RemoveKey(k)
				cn.remove(at)
			case at >= 0 && cm.GetValue(k) != nil && g.chance(0.5):
				b.setValue(cm.GetValue(k), x)
				cn.Vals[at] = x
			default:
				b.setMap(cm, k, x)
				cn.set(k, x)
			}
			log.add("%s: key %q", s.name, k)
		default:
			l := len(cn.Vals)
			at := 0
			if l > 0 {
				at = g.n(l)
			}
			switch {
			case l > 0 && g.chance(0.3):
				ca.RemoveValueAtIndex(at)
				cn.remove(at)
			case l > 0 && (*ca.GetValues())[at] != nil && g.chance(0.6):
				b.setValue((*ca.GetValues())[at], x)
				cn.Vals[at] = x
			default:
				b.appendArray(ca, x)
				cn.Vals = append(cn.Vals, x)
			}
			log.add("%s: element %d", s.name, at)
		}
		for _, y := range sides {
			if d := diff(y.n, observeMap(y.m), true); d != "" {
				t.Fail("not independent", "%s after %s: %s", y.name, log.show(), d)
			}
		}
		t.Event("single change, both sides compared")
	}
}

// cloneKinds: every kind of value, alone in each container.
func cloneKinds(t *T) {
	g := newGen(t)
	var ns []*Node
	ns = append(ns, nNull(), nBool(true), nBool(false), nStr(""), nMap(), nArr(), nArr(nNull(), nNull()), nTime(g.time()), nTime(time.Date(2021, 1, 2, 3, 4, 5, 6, time.FixedZone("X", 3600))),
		nErr("x"), nErr(""), nErr("nil"), nErr("100%s"), &Node{K: KErrs, L: []string{"a", "%d", ""}}, &Node{K: KErrs, L: []string{}}, &Node{K: KStrs, L: []string{"a", "b"}}, &Node{K: KStrs, L: []string{"a"}}, &Node{K: KStrs, L: []string{"", "b", "%s"}}, &Node{K: KStrs, L: []string{}}, &Node{K: KErrs, L: []string{"a"}}, nF32(1.5), nF64(math.MaxFloat64), nF64(math.NaN()), nF64(math.Inf(1)), nF32(float32(math.Inf(-1))), nF64(math.Copysign(0, -1)))
	for _, w := range append(append([]string{}, wordStrings...), t.cfg.Hot.Strings...) {
		ns = append(ns, nStr(w), nErr(w))
	}
	for _, ty := range intTypes {
		lo, hi := intRange(ty)
		ns = append(ns, &Node{K: KInt, Ty: ty, I: lo}, &Node{K: KInt, Ty: ty, I: hi}, nInt(ty, 0), nInt(ty, 1))
	}
	for n := 3; n <= 40; n++ {
		l := []string{}
		for i := 0; i < n; i++ {
			l = append(l, g.errText())
		}
		ns = append(ns, &Node{K: KStrs, L: l}, &Node{K: KErrs, L: l})
	}
	for _, n := range ns {
		m := nMap()
		m.set("k", n)
		for i := 0; i < 4; i++ {
			cloneOf(t, g, n)
			cloneOf(t, g, m)
			cloneOf(t, g, nArr(n, n))
		}
		cloneOf(t, g, nArr(m, nArr(n), n))
	}
}

// cloneErrors: the error values of the standard library and lists with empty
// places; a clone need not keep the Go type, but it keeps the text.
func cloneErrors(t *T) {
	g := newGen(t)
	objs := map[string]func() interface{}{}
	for _, l := range libraryErrors() {
		l := l
		objs[l.name] = func() interface{} { return l.v }
	}
	for n := 1; n <= 12; n++ {
		at, text := g.n(n), g.errText()
		mk := func() []error {
			var l []error
			for i := 0; i < n; i++ {
				if i == at || (n > 3 && i == (at+2)%n) {
					l = append(l, nil)
				} else {
					l = append(l, errors.New(text+fmt.Sprint(i)))
				}
			}
			return l
		}
		objs[fmt.Sprint("list of ", n)] = func() interface{} { return mk() }
		objs[fmt.Sprint("pointer to a list of ", n)] = func() interface{} { l := mk(); return &l }
	}
	var names []string
	for k := range objs {
		names = append(names, k)
	}
	sort.Strings(names)
	textOf := func(o interface{}) string {
		var b strings.Builder
		es := hj.ConvertInterfaceValueToJSONStringValue(&b, o)
		return b.String() + errsText(es)
	}
	for _, name := range names {
		o := objs[name]()
		t.Input(true, name)
		v, m, a := hj.NewValue(o), hj.NewMap(), hj.NewArray()
		m.SetStringValue("a", "x")
		m.SetValue("k", hj.NewValue(o))
		m.SetNil("z")
		a.AppendIntValue(1)
		a.AppendValue(hj.NewValue(o))
		m.SetArray("in", a)
		vc, ve := v.Clone()
		mc, me := m.Clone()
		ac, ae := a.Clone()
		if vc == nil || mc == nil || ac == nil || len(ve)+len(me)+len(ae) > 0 {
			t.Fail("not cloned", "%s: value %s, map %s, array %s", name, errsText(ve), errsText(me), errsText(ae))
		}
		wv, wm, wa := textOf(v), textOf(m), textOf(a)
		same := func(when string) {
			for _, p := range [][2]string{{textOf(vc), wv}, {textOf(mc), wm}, {textOf(ac), wa}} {
				if p[0] != p[1] {
					t.Fail("clone differs", "%s %s: clone %s, original %s", name, when, clip(p[0], 300), clip(p[1], 300))
				}
			}
			t.Event("clone of an error compared")
		}
		same("after cloning")
		if l, ok := o.([]error); ok {
			for i := range l {
				l[i] = errors.New("scribbled")
			}
		}
		if l, ok := o.(*[]error); ok {
			for i := range *l {
				(*l)[i] = errors.New("scribbled")
			}
			*l = (*l)[:len(*l)-1]
		}
		v.SetStringValue("other")
		m.SetStringValue("k", "other")
		a.SetValueAtIndex(1, hj.NewValue("other"))
		same("after changing the original")
	}
}

func cloneCases(cfg *Config) []Case {
	a := []Case{{Name: "kinds", Fn: cloneKinds}, {Name: "errors", Fn: cloneErrors}}
	a = batch(a, "random", cfg.n(500, 10000), func(t *T) {
		g := newGen(t)
		for i := 0; i < 4; i++ {
			cloneOf(t, g, g.doc(2+g.n(25), true))
			cloneOf(t, g, g.value(&docOpts{budget: 6, maxDepth: 4, extra: true, anyBytes: true}, 0))
		}
	})
	a = batch(a, "steps", cfg.n(400, 8000), cloneSteps)
	a = batch(a, "parsed", cfg.n(150, 3000), func(t *T) {
		g := newGen(t)
		for i := 0; i < 4; i++ {
			text := g.jsonText(g.doc(3+g.n(20), false), textOpts{esc: g.n(2), ws: g.n(2)})
			m, errs := hj.Parse(text)
			if m == nil || len(errs) > 0 {
				continue
			}
			n := observeMap(m)
			checkClone(t, g, n, func() (subject, []interface{}) {
				m, _ := hj.Parse(text)
				return subject{m: m}, nil
			})
		}
	})
	a = batch(a, "history", cfg.n(150, 3000), func(t *T) {
		// cloning at random points of a history, the clones keep the state they had
		g := newGen(t)
		b := g.builder()
		m, model := hj.NewMap(), nMap()
		type snap struct {
			c subject
			n *Node
		}
		var snaps []snap
		pool := g.keyPool()
		for i := 0; i < 40; i++ {
			k := pool[g.n(len(pool))]
			if at := model.find(k); at >= 0 && g.chance(0.3) {
				m.RemoveKey(k)
				model.remove(at)
			} else {
				n := g.value(&docOpts{budget: 3, maxDepth: 3, extra: true}, 0)
				b.setMap(m, k, n)
				model.set(k, n)
			}
			if g.chance(0.25) {
				snaps = append(snaps, snap{subject{m: m}.clone(t, model.String()), model.copy()})
			}
			if len(snaps) > 0 && g.chance(0.1) {
				j := g.n(len(snaps))
				snaps[j].c.vandal()
				snaps = append(snaps[:j], snaps[j+1:]...)
			}
			for _, s := range snaps {
				mustEqual(t, s.n, s.c, "snapshot during a history")
			}
			if d := diff(model, observeMap(m), true); d != "" {
				t.Fail("not independent", "the original during a history: %s", d)
			}
		}
		t.Input(true, model.String())
	})
	var sweep []Case
	sweep = sweepCases(cfg, sweep, "shape", func(t *T, g *Gen, n *Node) {
		if n.count() > cfg.n(1100, 3000) && (n.count() > 3000 || len(cfg.Hot.raw) == 0) || n.depth() > 600 {
			return
		}
		cloneOf(t, g, n)
	})
	return interleave(a, sweep)
}

// ---------------------------------------------------------------- C16

// rawState is the document with the Go type of every value.
func rawState(o interface{}, b *strings.Builder) {
	switch x := o.(type) {
	case *hj.Map:
		if x == nil {
			b.WriteString("nil map")
			return
		}
		b.WriteString("{")
		for _, k := range x.GetKeys() {
			fmt.Fprintf(b, "%q:", k)
			rawState(x.GetValue(k), b)
			b.WriteString(",")
		}
		b.WriteString("}")
	case hj.Map:
		b.WriteString("by value ")
		rawState(&x, b)
	case *hj.Array:
		if x == nil {
			b.WriteString("nil array")
			return
		}
		b.WriteString("[")
		for _, v := range *x.GetValues() {
			rawState(v, b)
			b.WriteString(",")
		}
		b.WriteString("]")
	case hj.Array:
		b.WriteString("by value ")
		rawState(&x, b)
	case *hj.Value:
		if x == nil {
			b.WriteString("nil value")
			return
		}
		rawState(x.GetObject(), b)
	default:
		fmt.Fprintf(b, "%T ", o)
		observeObject(o).write(b)
	}
}

func state(o interface{}) string {
	var b strings.Builder
	rawState(o, &b)
	return b.String()
}

// skipRead: reads whose result is not meant to repeat.
func timeNow(o interface{}) bool {
	n := observeObject(o)
	return n.K == KStr && n.S == "now"
}

// readResult is what a read gave, and how to read it again.
type readResult struct {
	got
	name string
	was  string
	redo func() got
}

// readAll calls every read of o with the given key twice; lists of results are
// returned so that they can be overwritten afterwards.
// own puts the text that the document holds there into some text arguments.
func own(t *T, g *Gen, o interface{}, key interface{}, args []interface{}) {
	var asked []interface{}
	if key != nil {
		asked = []interface{}{key}
	}
	for i, arg := range args {
		p, isPtr := arg.(*string)
		_, isStr := arg.(string)
		if !(isPtr && p != nil || isStr && (key == nil || i > 0)) || !g.chance(0.6) {
			continue
		}
		if _, ok := op(o, "GetStringValue"); !ok {
			return
		}
		r := invoke(t, o, "GetStringValue", asked...)
		if r.failed() || len(r.vals) == 0 {
			return
		}
		s, is := r.vals[0].Interface().(string)
		if !is {
			return
		}
		t.Event("asked with the text held")
		if isPtr {
			*p = s
		} else {
			args[i] = s
		}
	}
}

func readAll(t *T, g *Gen, o interface{}, key interface{}, now bool) []readResult {
	var res []readResult
	for _, name := range opNames(o, readPrefixes...) {
		f, ok := op(o, name)
		if !ok || now && strings.HasPrefix(name, "GetTime") {
			continue
		}
		args := argsFor(g, f, key)
		if len(args) != f.Type().NumIn() {
			continue
		}
		own(t, g, o, key, args)
		a, b := invoke(t, o, name, args...), invoke(t, o, name, args...)
		t.Event("reads repeated")
		for _, arg := range args { // what a read was asked with is nobody's business afterwards
			if s, is := arg.(*string); is && s != nil {
				*s += "~"
			}
		}
		if !sameGot(a, b) {
			t.Fail("not repeatable", "%T.%s gives %s, then %s", o, name, a, b)
		}
		switch {
		case name == "GetKeys", strings.HasPrefix(name, "GetArrayOf"), name == "GetRunes",
			strings.HasPrefix(name, "GetInt"), strings.HasPrefix(name, "GetUInt"), strings.HasPrefix(name, "GetFloat"):
			if !a.failed() && len(a.vals) > 0 && !a.isNil() {
				name := name
				res = append(res, readResult{a, name, renderGot(b), func() got { return invoke(t, o, name, args...) }})
			}
		}
	}
	return res
}

// overwriteResult changes a list or number obtained from a document; strings
// and booleans inside lists are left alone, only the entries are replaced.
func overwriteResult(r readResult) {
	v := r.vals[0]
	if v.Kind() == reflect.Ptr {
		v = v.Elem()
	}
	switch v.Kind() {
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			e := v.Index(i)
			if e.Kind() == reflect.Ptr && !e.IsNil() {
				switch e.Elem().Kind() {
				case reflect.String, reflect.Bool:
				default:
					scribble(e.Interface())
				}
			}
		}
		for i := 0; i < v.Len(); i++ {
			v.Index(i).Set(reflect.Zero(v.Type().Elem()))
		}
		if r.vals[0].Kind() == reflect.Ptr {
			v.Set(v.Slice(0, 0))
		} else if v.Cap() > v.Len() {
			reflect.Append(v, reflect.Zero(v.Type().Elem()))
		}
	default:
		if r.vals[0].Kind() == reflect.Ptr {
			scribble(r.vals[0].Interface())
		}
	}
}

// walkReads reads everything reachable from o.
func walkReads(t *T, g *Gen, o interface{}, depth int, budget *int) []readResult {
	if *budget <= 0 || depth > 12 {
		return nil
	}
	*budget--
	switch x := o.(type) {
	case *hj.Map:
		var res []readResult
		keys := x.GetKeys()
		for i, k := range keys {
			if *budget <= 0 {
				break
			}
			if i < 4 || g.chance(0.3) {
				res = append(res, readAll(t, g, x, k, timeNow(x.GetObjectForMap(k)))...)
			}
		}
		res = append(res, readAll(t, g, x, "absent"+g.str(), false)...)
		for _, k := range keys {
			if v := x.GetValue(k); v != nil {
				res = append(res, walkReads(t, g, v, depth+1, budget)...)
			}
		}
		return res
	case *hj.Array:
		res := readAll(t, g, x, nil, false)
		for _, v := range *x.GetValues() {
			if v != nil {
				res = append(res, walkReads(t, g, v, depth+1, budget)...)
			}
		}
		return res
	case *hj.Value:
		res := readAll(t, g, x, nil, timeNow(x.GetObject()))
		switch c := x.GetObject().(type) {
		case *hj.Map, *hj.Array:
			if !reflect.ValueOf(c).IsNil() {
				res = append(res, walkReads(t, g, c, depth+1, budget)...)
			}
		case hj.Map:
			res = append(res, walkReads(t, g, &c, depth+1, budget)...)
		case hj.Array:
			res = append(res, walkReads(t, g, &c, depth+1, budget)...)
		}
		return res
	}
	return nil
}

func checkPure(t *T, g *Gen, o interface{}, what string) {
	before := state(o)
	text := func() string {
		switch x := o.(type) {
		case *hj.Map:
			s, e := mapJSON(x)
			return fmt.Sprint(s, len(e))
		case *hj.Array:
			s, e := arrayJSON(x)
			return fmt.Sprint(s, len(e))
		case *hj.Value:
			var b strings.Builder
			e := hj.ConvertInterfaceValueToJSONStringValue(&b, x)
			return fmt.Sprint(b.String(), len(e))
		}
		return ""
	}
	t1 := text()
	if after := state(o); after != before {
		t.Fail("changed by serialising", "%s: was %s, is %s", what, clip(before, 500), clip(after, 500))
	}
	budget := 40
	results := walkReads(t, g, o, 0, &budget)
	if after := state(o); after != before {
		t.Fail("changed by reads", "%s: was %s, is %s", what, clip(before, 500), clip(after, 500))
	}
	for _, r := range results {
		overwriteResult(r)
		t.Event("result overwritten " + r.name)
	}
	if after := state(o); after != before {
		// find which
		t.Fail("changed through a result", "%s: overwriting lists and numbers that reads returned: was %s, is %s", what, clip(before, 500), clip(after, 500))
	}
	for _, r := range results {
		if again := renderGot(r.redo()); again != r.was {
			t.Fail("read changed through a result", "%s: %s gave %s; after overwriting the lists and numbers that reads returned it gives %s", what, r.name, clip(r.was, 500), clip(again, 500))
		}
	}
	if t2 := text(); t1 != t2 {
		t.Fail("text changed", "%s: text was %s, is %s", what, clip(t1, 500), clip(t2, 500))
	}
	t.Event("document unchanged by reads")
}

// sideBySide: documents from one text or one recipe do not affect each other.
func sideBySide(t *T) {
	g := newGen(t)
	n := g.doc(3+g.n(20), false)
	if g.chance(0.15) {
		n = nMap()
	}
	// empties are the likeliest to be shared
	for i := g.n(4); i > 0; i-- {
		n.set(fmt.Sprint("e", i), []*Node{nMap(), nArr(), nStr(""), nNull(), nBool(true), nInt("uint8", 0), nArr(nMap(), nMap(), nArr(), nArr())}[g.n(7)])
	}
	text := g.jsonText(n, textOpts{ws: g.n(2), esc: g.n(2)})
	m1, e1 := hj.Parse(text)
	m2, e2 := hj.Parse(text)
	if len(e1)+len(e2) > 0 || m1 == nil || m2 == nil {
		return // C01's business
	}
	want, err := oracleParse(text)
	if err != nil {
		return
	}
	t.Input(n.count() > 2, text)
	if d := parsedDiff("$", want, observeMap(m1)); d != "" {
		return
	}
	s2 := state(m2)
	// one part of the first is changed: the rest of it stays
	got := observeMap(m1)
	if len(got.Keys) > 1 {
		i := g.n(len(got.Keys))
		k := got.Keys[i]
		vandalValue(m1.GetValue(k), 0)
		for j, other := range got.Keys {
			if j != i {
				if d := diff(got.Vals[j], observeValue(m1.GetValue(other)), true); d != "" {
					t.Fail("siblings", "changing key %q changed key %q of the same document: %s; text %s", clip(k, 60), clip(other, 60), d, clip(text, 400))
				}
			}
		}
		t.Event("sibling unchanged")
	}
	vandalMap(m1, 0)
	if s := state(m2); s != s2 {
		t.Fail("not isolated", "changing one parse of a text changed another: was %s, is %s", clip(s2, 400), clip(s, 400))
	}
	m3, e3 := hj.Parse(text)
	if m3 == nil || len(e3) > 0 {
		t.Fail("not isolated", "the text %s is parsed no more: %s", clip(text, 400), errsText(e3))
	}
	if s := state(m3); s != s2 {
		t.Fail("not isolated", "the same text parsed again: was %s, is %s", clip(s2, 400), clip(s, 400))
	}
	// writing through handed-out pointers
	for _, k := range m3.GetKeys() {
		if p, _ := m3.GetString(k); p != nil {
			*p += "!"
		}
		if p, _ := m3.GetBool(k); p != nil {
			*p = !*p
		}
	}
	if s := state(m2); s != s2 {
		t.Fail("not isolated", "writing through pointers of one parse changed another: was %s, is %s", clip(s2, 400), clip(s, 400))
	}
	m4, _ := hj.Parse(text)
	if s := state(m4); s != s2 {
		t.Fail("not isolated", "the same text parsed again after writing through pointers: was %s, is %s", clip(s2, 400), clip(s, 400))
	}
	t.Event("same text parsed apart")
}

// interleaved builds several documents in turns, each against its own model.
func interleaved(t *T) {
	g := newGen(t)
	b := g.builder()
	const k = 4
	var ms [k]*hj.Map
	var as [k]*hj.Array
	var mn, an [k]*Node
	for i := range ms {
		ms[i], as[i], mn[i], an[i] = hj.NewMap(), hj.NewArray(), nMap(), nArr()
		if i%2 == 1 {
			m, a := hj.NewMapValue(), hj.NewArrayValue()
			ms[i], as[i] = &m, &a
		}
	}
	for step := 0; step < 60; step++ {
		i := g.n(k)
		n := g.value(&docOpts{budget: 2, maxDepth: 2, extra: true}, 0)
		switch g.n(6) {
		case 0, 1:
			key := fmt.Sprint("k", g.n(5))
			b.setMap(ms[i], key, n)
			mn[i].set(key, n)
		case 2:
			key := fmt.Sprint("k", g.n(5))
			ms[i].RemoveKey(key)
			if at := mn[i].find(key); at >= 0 {
				mn[i].remove(at)
			}
		case 3, 4:
			b.appendArray(as[i], n)
			an[i].Vals = append(an[i].Vals, n)
		default:
			switch g.n(4) {
			case 0: // noise elsewhere: parsing, failing, serialising
				hj.Parse(g.jsonText(g.doc(4, false), textOpts{}))
			case 1:
				hj.Parse(g.str())
			case 2:
				mapJSON(ms[i])
			default:
				if c, _ := ms[i].Clone(); c != nil {
					vandalMap(c, 0)
				}
			}
		}
		if step%4 != 3 {
			continue
		}
		for j := range ms {
			if d := diff(mn[j], observeMap(ms[j]), true); d != "" {
				t.Fail("not isolated", "map %d of %d built in turns: %s", j, k, d)
			}
			if d := diff(an[j], observeArray(as[j]), true); d != "" {
				t.Fail("not isolated", "array %d of %d built in turns: %s", j, k, d)
			}
		}
		t.Event("documents built in turns compared")
	}
	t.Input(true, mn[0].String()+an[0].String())
}

func pureCases(cfg *Config) []Case {
	a := batch(nil, "built", cfg.n(320, 4000), func(t *T) {
		g := newGen(t)
		n := g.doc(3+g.n(14), true)
		b := g.builder()
		if g.chance(0.25) {
			b.withShared(g, n)
		}
		m := b.mapOf(n)
		t.Input(n.count() > 2, n.String())
		checkPure(t, g, m, "built document")
	})
	a = batch(a, "parsed", cfg.n(240, 3000), func(t *T) {
		g := newGen(t)
		text := g.jsonText(g.doc(3+g.n(14), false), textOpts{esc: g.n(2), ws: g.n(2)})
		m, errs := hj.Parse(text)
		if m == nil || len(errs) > 0 {
			return
		}
		t.Input(len(m.GetKeys()) > 1, text)
		checkPure(t, g, m, "parsed document")
	})
	a = batch(a, "arrays", cfg.n(400, 4000), func(t *T) {
		g := newGen(t)
		bt := bulkTypes[g.n(len(bulkTypes))]
		n := g.homogeneous(bt, 1+g.n(6))
		if g.chance(0.4) {
			n.Vals[g.n(len(n.Vals))] = nNull()
		}
		if g.chance(0.3) {
			n = g.arrNode(&docOpts{budget: 6, maxDepth: 2, extra: true}, 0)
		}
		t.Input(len(n.Vals) > 1, n.String())
		arr := g.builder().arrayOf(n)
		checkPure(t, g, arr, "array "+bt)
		m := hj.NewMap()
		m.SetArray("k", arr)
		checkPure(t, g, m, "map with an array "+bt)
	})
	a = batch(a, "values", cfg.n(300, 3000), func(t *T) {
		g := newGen(t)
		for i := 0; i < 4; i++ {
			n := g.scalar(&docOpts{extra: true, anyBytes: true})
			if g.chance(0.25) {
				n = nStr(g.fill(g.n(70)) + g.oneOf("", "é", "x"))
			}
			t.Input(n.K != KNull, n.String())
			for _, p := range places(g, n) {
				if v, ok := p.o.(*hj.Value); ok {
					checkPure(t, g, v, "value "+n.String())
				}
			}
		}
	})
	// every kind of thing that can be stored, unsupported ones too
	for part := 0; part < 8; part++ {
		part := part
		a = append(a, Case{Name: fmt.Sprintf("zoo-%d", part), Fn: func(t *T) {
			g := newGen(t)
			for i, f := range zoo(g) {
				if i%8 != part || timeNow(f.v) {
					continue
				}
				t.Input(true, "zoo "+f.name)
				v := hj.NewValue(f.v)
				m := hj.NewMap()
				m.SetObjectForMap("k", f.v)
				arr := hj.NewArrayOfValues(&[]interface{}{f.v, 1})
				before := fmt.Sprintf("%s %s %s", v.GetType(), m.GetType("k"), clip(state(m)+state(arr), 2000))
				for _, o := range []interface{}{v, m, arr} {
					var key interface{}
					if o == interface{}(m) {
						key = "k"
					}
					readAll(t, g, o, key, false)
				}
				mapJSON(m)
				arrayJSON(arr)
				if after := fmt.Sprintf("%s %s %s", v.GetType(), m.GetType("k"), clip(state(m)+state(arr), 2000)); after != before {
					t.Fail("changed by reads", "%s: was %s, is %s", f.name, before, after)
				}
			}
		}})
	}
	a = batch(a, "side by side", cfg.n(1600, 10000), sideBySide)
	a = batch(a, "in turns", cfg.n(600, 4000), interleaved)
	var sweep []Case
	sweep = sweepCases(cfg, sweep, "shape", func(t *T, g *Gen, n *Node) {
		if n.count() > 1500 || n.depth() > 300 {
			return
		}
		m := g.builder().mapOf(n)
		t.Input(n.count() > 2, clip(n.String(), 2000))
		before := state(m)
		t1, _ := mapJSON(m)
		m.Clone()
		m.Values()
		for _, name := range opNames(m, readPrefixes...) {
			f, _ := op(m, name)
			if args := argsFor(g, f, "a"); len(args) == f.Type().NumIn() {
				invoke(t, m, name, args...)
			}
		}
		t2, _ := mapJSON(m)
		if state(m) != before || t1 != t2 {
			t.Fail("changed by reads", "a document of shape %s", clip(before, 500))
		}
		t.Event("shape unchanged by reads")
	})
	return interleave(a, sweep)
}

// ---------------------------------------------------------------- C15

// renderGot writes a result down deeply, so that it can be compared later.
func renderGot(g got) string {
	var b strings.Builder
	var rec func(v reflect.Value)
	rec = func(v reflect.Value) {
		switch v.Kind() {
		case reflect.Ptr, reflect.Interface:
			if v.IsNil() {
				b.WriteString("nil")
				return
			}
		case reflect.Func:
			fmt.Fprintf(&b, "func nil=%v", v.IsNil())
			return
		case reflect.Chan, reflect.UnsafePointer:
			b.WriteString(v.Kind().String())
			return
		}
		switch x := v.Interface().(type) {
		case *hj.Map, hj.Map, *hj.Array, hj.Array, *hj.Value, hj.Value:
			rawState(x, &b)
			return
		case time.Time:
			b.WriteString(x.Format(time.RFC3339Nano))
			return
		case error:
			b.WriteString(x.Error())
			return
		}
		switch v.Kind() {
		case reflect.Ptr, reflect.Interface:
			rec(v.Elem())
		case reflect.Slice:
			b.WriteString("[")
			for i := 0; i < v.Len(); i++ {
				rec(v.Index(i))
				b.WriteString(",")
			}
			b.WriteString("]")
		default:
			fmt.Fprintf(&b, "%v", v)
		}
	}
	for _, v := range g.vals {
		rec(v)
		b.WriteString("; ")
	}
	b.WriteString(errsText(g.errs))
	return b.String()
}

// script is something a goroutine does; it gives what it saw.
type script struct {
	name string
	run  func(g *Gen, say func(string))
}

func safeRead(o interface{}, name string, args []interface{}) (res string) {
	defer func() {
		if r := recover(); r != nil {
			res = fmt.Sprintf("panic %v", r)
		}
	}()
	f, _ := op(o, name)
	in := make([]reflect.Value, len(args))
	for i, a := range args {
		in[i] = reflect.ValueOf(a)
	}
	out := f.Call(in)
	r := got{vals: out}
	if n := len(out); n > 1 && out[n-1].Type() == errSliceType {
		r.errs = out[n-1].Interface().([]error)
		r.vals = out[:n-1]
	}
	return renderGot(r)
}

func readScript(g *Gen, o interface{}, key interface{}, say func(string)) {
	names := opNames(o, readPrefixes...)
	for k := 0; k < 12; k++ {
		name := names[g.n(len(names))]
		f, _ := op(o, name)
		args := argsFor(g, f, key)
		if len(args) != f.Type().NumIn() {
			continue
		}
		say(name + "=" + safeRead(o, name, args))
	}
}

func readerScript(root interface{}, n *Node) script {
	return script{"reader", func(g *Gen, say func(string)) {
		for i := 0; i < 4; i++ {
			cur := root
			var key interface{}
			for depth := 0; depth < 10; depth++ {
				key = nil
				if m, ok := cur.(*hj.Map); ok {
					key = "absent"
					if ks := m.GetKeys(); len(ks) > 0 {
						key = ks[g.n(len(ks))]
					}
				}
				readScript(g, cur, key, say)
				if g.chance(0.3) {
					break
				}
				var next interface{}
				switch x := cur.(type) {
				case *hj.Map:
					if v := x.GetValue(key.(string)); v != nil {
						next = v
					}
				case *hj.Array:
					if vs := *x.GetValues(); len(vs) > 0 {
						if v := vs[g.n(len(vs))]; v != nil {
							next = v
						}
					}
				case *hj.Value:
					switch c := x.GetObject().(type) {
					case *hj.Map:
						if c != nil {
							next = c
						}
					case *hj.Array:
						if c != nil {
							next = c
						}
					case hj.Map:
						next = &c
					case hj.Array:
						next = &c
					}
				}
				if next == nil {
					break
				}
				cur = next
			}
			switch x := root.(type) {
			case *hj.Map:
				s, e := mapJSON(x)
				say(s + errsText(e))
				c, e := x.Clone()
				say(state(c) + errsText(e))
				say(strings.Join(x.GetKeys(), ","))
				say(state(x.Values()))
			case *hj.Array:
				s, e := arrayJSON(x)
				say(s + errsText(e))
				c, e := x.Clone()
				say(state(c) + errsText(e))
			}
		}
	}}
}

func (g *Gen) ownText() string {
	switch g.n(8) {
	case 0:
		return g.mutateBytes(g.jsonText(g.doc(3+g.n(12), false), textOpts{}))
	case 1:
		return g.jsonText(g.shaped(shapes[g.n(len(shapes))], g.n(40)), textOpts{})
	}
	return g.jsonText(g.doc(3+g.n(25), false), textOpts{esc: g.n(2), ws: g.n(2), numForm: true})
}

// ownScripts: goroutines with documents of their own.
var ownScripts = []script{
	{"parse", func(g *Gen, say func(string)) {
		for i := 0; i < 5; i++ {
			m, e := hj.Parse(g.ownText())
			if m != nil {
				say(state(m))
				s, e := mapJSON(m)
				say(s + errsText(e))
			}
			say(errsText(e))
		}
	}},
	{"build", func(g *Gen, say func(string)) {
		for i := 0; i < 4; i++ {
			n := g.doc(4+g.n(15), true)
			m := g.builder().mapOf(n)
			say(state(m))
			s, e := mapJSON(m)
			say(s + errsText(e))
			c, e := m.Clone()
			say(state(c) + errsText(e))
			vandalMap(m, 0)
			say(state(c))
		}
	}},
	{"history", func(g *Gen, say func(string)) {
		m, a := hj.NewMap(), hj.NewArray()
		b := g.builder()
		for i := 0; i < 40; i++ {
			k := fmt.Sprint("k", g.n(6))
			switch g.n(5) {
			case 0:
				ok, err := m.RemoveKey(k)
				say(fmt.Sprint(ok, err))
			case 1:
				ok, err := a.RemoveValueAtIndex(g.n(4))
				say(fmt.Sprint(ok, err))
			case 2:
				b.appendArray(a, g.scalar(&docOpts{extra: true}))
			default:
				b.setMap(m, k, g.scalar(&docOpts{extra: true}))
			}
			if i%8 == 0 {
				s, e := mapJSON(m)
				say(s + errsText(e))
				s, e = arrayJSON(a)
				say(s + errsText(e) + fmt.Sprint(a.Len()))
			}
		}
	}},
	{"read own", func(g *Gen, say func(string)) {
		n := g.doc(4+g.n(12), true)
		m := g.builder().mapOf(n)
		for _, k := range m.GetKeys() {
			readScript(g, m, k, say)
			if v := m.GetValue(k); v != nil {
				readScript(g, v, nil, say)
			}
		}
	}},
	{"render", func(g *Gen, say func(string)) {
		b := g.builder()
		for i := 0; i < 25; i++ {
			o := b.object(g.value(&docOpts{budget: 5, maxDepth: 3, extra: true}, 0), g.n(2) == 0)
			s, e := hj.ConvertInterfaceValueToStringValue(o)
			say(s + errsText(e))
			var w strings.Builder
			e = hj.ConvertInterfaceValueToJSONStringValue(&w, o)
			say(w.String() + errsText(e))
		}
	}},
	{"times and texts", func(g *Gen, say func(string)) {
		m := hj.NewMap()
		for i := 0; i < 12; i++ {
			x := g.time()
			m.SetTime("t", &x)
			m.SetStringValue("s", x.Format(microForm))
			m.SetStringValue("n", g.scalarText())
			say(safeRead(m, "GetTime", []interface{}{"t"}) + safeRead(m, "GetTime", []interface{}{"s"}))
			for _, name := range []string{"GetInt64", "GetUInt8", "GetFloat64", "GetFloat32", "GetBool", "GetRunes", "GetString"} {
				say(safeRead(m, name, []interface{}{"n"}))
			}
			s, e := mapJSON(m)
			say(s + errsText(e))
		}
	}},
	{"from Go", func(g *Gen, say func(string)) {
		for i := 0; i < 5; i++ {
			src := []interface{}{}
			for k := g.n(6); k > 0; k-- {
				v, _, _ := g.goValue()
				src = append(src, v)
			}
			a := hj.NewArrayOfValues(&src)
			say(state(a))
			one := map[string]interface{}{g.str(): g.n(100)}
			say(state(hj.NewMapOfValues(&one)))
		}
	}},
}

type run struct {
	s    script
	seed int64
}

// results of a run; yields are injected from a source of their own, so that the
// script's choices are the same alone and in company.
func (r run) results(t *T, yield *Gen) []string {
	g := &Gen{r: newRand(r.seed), hot: t.cfg.Hot}
	var res []string
	r.s.run(g, func(s string) {
		res = append(res, s)
		if yield != nil {
			switch yield.n(6) {
			case 0:
				runtime.Gosched()
			case 1:
				time.Sleep(time.Duration(yield.n(50)) * time.Microsecond)
			}
		}
	})
	return res
}

func together(t *T, runs []run, rounds int) {
	alone := make([][]string, len(runs))
	for i, r := range runs {
		alone[i] = r.results(t, nil)
	}
	seed := t.R.Int63()
	for round := 0; round < rounds; round++ {
		var wg sync.WaitGroup
		start := make(chan struct{})
		bad := make([]string, len(runs))
		for i, r := range runs {
			wg.Add(1)
			go func(i int, r run) {
				defer wg.Done()
				defer func() {
					if p := recover(); p != nil {
						bad[i] = fmt.Sprintf("%s panicked: %v", r.s.name, p)
					}
				}()
				var yield *Gen
				if (i+round)%3 != 0 {
					yield = &Gen{r: newRand(seed + int64(i*1000+round))}
				}
				<-start
				res := r.results(t, yield)
				if len(res) != len(alone[i]) {
					bad[i] = fmt.Sprintf("%s gave %d results, %d alone", r.s.name, len(res), len(alone[i]))
					return
				}
				for k := range res {
					if res[k] != alone[i][k] {
						bad[i] = fmt.Sprintf("%s: result %d is %s, alone it was %s", r.s.name, k, clip(res[k], 600), clip(alone[i][k], 600))
						return
					}
				}
			}(i, r)
		}
		close(start)
		wg.Wait()
		for _, b := range bad {
			if b != "" {
				t.Fail("differs from sequential", "%d goroutines: %s", len(runs), b)
			}
		}
		t.Event("rounds")
		for i, r := range runs {
			for range alone[i] {
				t.Event("results compared: " + r.s.name)
			}
		}
	}
	var names []string
	for _, r := range runs {
		names = append(names, r.s.name)
	}
	sort.Strings(names)
	t.Input(len(runs) > 1, fmt.Sprint(strings.Join(names, ","), seed))
}

func concurrentCases(cfg *Config) []Case {
	own := func(t *T, g *Gen, only int, n int) []run {
		var runs []run
		for i := 0; i < n; i++ {
			k := only
			if k < 0 {
				k = g.n(len(ownScripts))
			}
			runs = append(runs, run{ownScripts[k], t.R.Int63()})
		}
		return runs
	}
	shared := func(t *T, g *Gen) (interface{}, *Node) {
		switch g.n(5) {
		case 0:
			if m, e := hj.Parse(g.jsonText(g.doc(5+g.n(20), false), textOpts{ws: g.n(2)})); m != nil && len(e) == 0 {
				return m, nil
			}
		case 1:
			return g.builder().arrayOf(g.arrNode(&docOpts{budget: 12, maxDepth: 3, extra: true}, 0)), nil
		case 2:
			bt := bulkTypes[g.n(len(bulkTypes))]
			return g.builder().arrayOf(g.homogeneous(bt, 1+g.n(40))), nil
		case 3:
			n := g.doc(5+g.n(20), true)
			if c, e := g.builder().mapOf(n).Clone(); c != nil && len(e) == 0 {
				return c, nil
			}
		}
		return g.builder().mapOf(g.doc(5+g.n(25), true)), nil
	}
	var res []Case
	// first uses of the package, several at once
	for k := range ownScripts {
		k := k
		for i := 0; i < cfg.n(2, 8); i++ {
			res = append(res, Case{Name: fmt.Sprintf("first-use-%s-%d", ownScripts[k].name, i), Fresh: true, Fn: func(t *T) {
				seed := t.R.Int63()
				work := func(i int, keep func(got)) {
					g := &Gen{r: newRand(seed), hot: t.cfg.Hot}
					ownScripts[k].run(g, func(s string) { keep(got{vals: []reflect.Value{reflect.ValueOf(s)}}) })
				}
				tight(t, "first use: "+ownScripts[k].name, 6, work, work)
				t.Input(true, fmt.Sprint(k, seed))
			}})
		}
	}
	for i := 0; i < cfg.n(3, 12); i++ {
		res = append(res, Case{Name: fmt.Sprint("first-use-rejected-", i), Fresh: true, Fn: func(t *T) { rejected(t, 12) }},
			Case{Name: fmt.Sprint("first-use-failing-", i), Fresh: true, Fn: func(t *T) { failing(t, 12) }})
	}
	for k := range ownScripts {
		k := k
		res = batch(res, "own-"+ownScripts[k].name, cfg.n(7, 200), func(t *T) {
			g := newGen(t)
			together(t, own(t, g, k, 6), 2)
		})
	}
	res = batch(res, "own-mixed", cfg.n(28, 1000), func(t *T) {
		g := newGen(t)
		together(t, own(t, g, -1, 4+g.n(9)), 2)
	})
	res = batch(res, "shared", cfg.n(44, 2000), func(t *T) {
		g := newGen(t)
		o, n := shared(t, g)
		var runs []run
		for i := 0; i < 4+g.n(5); i++ {
			runs = append(runs, run{readerScript(o, n), t.R.Int63()})
		}
		before := state(o)
		together(t, runs, 2)
		if state(o) != before {
			t.Fail("changed by readers", "was %s, is %s", clip(before, 400), clip(state(o), 400))
		}
	})
	// first use of a document by several readers at once: lazily built state
	res = batch(res, "first read", cfg.n(120, 2000), func(t *T) {
		g := newGen(t)
		n := g.doc(5+g.n(15), true)
		seed := t.R.Int63()
		build := func() *hj.Map { return (&builder{pick: newRand(seed).Intn}).mapOf(n) }
		alone := build()
		want, we := mapJSON(alone)
		wc, _ := alone.Clone()
		wantState := state(wc)
		m := build()
		var wg sync.WaitGroup
		start := make(chan struct{})
		out := make([]string, 8)
		for i := range out {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				<-start
				switch i % 4 {
				case 0:
					s, e := mapJSON(m)
					out[i] = s + errsText(e)
				case 1:
					c, _ := m.Clone()
					out[i] = state(c)
				case 2:
					out[i] = state(m.Values()) + strings.Join(m.GetKeys(), ",")
				default:
					out[i] = state(m)
				}
			}(i)
		}
		close(start)
		wg.Wait()
		for i, o := range out {
			w := []string{want + errsText(we), wantState, state(alone.Values()) + strings.Join(alone.GetKeys(), ","), state(alone)}[i%4]
			if o != w {
				t.Fail("differs from sequential", "first reads: %s, alone %s", clip(o, 500), clip(w, 500))
			}
		}
		t.Input(true, n.String())
		t.Event("first reads compared")
	})
	// each read by several goroutines on a document nobody has read before
	names := map[string]bool{}
	for i, o := range []interface{}{(*hj.Map)(nil), (*hj.Array)(nil), (*hj.Value)(nil)} {
		for _, name := range opNames(o, append([]string{"ToJSON"}, readPrefixes...)...) {
			names[fmt.Sprint(i, name)] = true
		}
	}
	var list []string
	for n := range names {
		list = append(list, n)
	}
	sort.Strings(list)
	for lo := 0; lo < len(list); lo += 12 {
		part := list[lo:min(len(list), lo+12)]
		res = append(res, Case{Name: fmt.Sprintf("each-read-%d", lo), Fresh: lo%36 == 0, Fn: func(t *T) {
			g := newGen(t)
			rounds := t.cfg.n(4, 12)
			for _, full := range part {
				for r := 0; r < rounds; r++ {
					eachRead(t, g, full[0], full[1:], r)
				}
			}
		}})
	}
	for _, kind := range append([]string{"Error", "Time", "Null", "Mixed", "Key", "Escape", "Nested", "List"}, bulkTypes...) {
		kind := kind
		res = batch(res, "grind-"+kind, cfg.n(1, 4), func(t *T) { grind(t, kind) })
	}
	res = append(res, tourCases(cfg)...)
	res = batch(res, "rejected", cfg.n(12, 100), func(t *T) { rejected(t, 40) })
	res = batch(res, "failing", cfg.n(12, 100), func(t *T) { failing(t, 30) })
	// many goroutines, big and deep documents
	res = batch(res, "crowd", cfg.n(6, 60), func(t *T) {
		g := newGen(t)
		o, n := shared(t, g)
		runs := own(t, g, -1, 24)
		for i := 0; i < 8; i++ {
			runs = append(runs, run{readerScript(o, n), t.R.Int63()})
		}
		together(t, runs, 1)
	})
	for _, sh := range shapes {
		sh := sh
		sizes := []int{3, 17, 40}
		sizes = append(sizes, cfg.Hot.Sizes(600)...)
		if len(sizes) > 12 {
			sizes = sizes[:12]
		}
		for _, size := range sizes {
			size := size
			res = append(res, Case{Name: fmt.Sprintf("shape-%s-%d", sh, size), Fn: func(t *T) {
				g := newGen(t)
				n := g.shaped(sh, size)
				text := g.jsonText(n, textOpts{})
				m := g.builder().mapOf(n)
				var runs []run
				for i := 0; i < 6; i++ {
					runs = append(runs, run{script{"shape", func(g *Gen, say func(string)) {
						p, e := hj.Parse(text)
						if p != nil {
							say(state(p))
						}
						say(errsText(e))
						s, e := mapJSON(m)
						say(s + errsText(e))
						c, e := m.Clone()
						say(state(c) + errsText(e))
					}}, int64(i)})
				}
				together(t, runs, 1)
			}})
		}
	}
	return res
}

// tight runs the work on several goroutines that nothing orders, then the same
// work alone, and compares; results are rendered after all have finished, so
// that the rendering orders nothing either.
func tight(t *T, what string, n int, work func(i int, keep func(got)), again func(i int, keep func(got))) {
	one := func(f func(int, func(got)), i int) (res []got, bad interface{}) {
		defer func() { bad = recover() }()
		f(i, func(r got) { res = append(res, r) })
		return
	}
	res := make([][]got, n)
	bad := make([]interface{}, n)
	var wg sync.WaitGroup
	start := make(chan struct{})
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			<-start
			res[i], bad[i] = one(work, i)
		}(i)
	}
	close(start)
	wg.Wait()
	for i := 0; i < n; i++ {
		want, wantBad := one(again, i)
		if fmt.Sprint(bad[i]) != fmt.Sprint(wantBad) {
			t.Fail("differs from sequential", "%s: panic %v, alone %v", what, bad[i], wantBad)
		}
		if len(want) != len(res[i]) {
			t.Fail("differs from sequential", "%s: %d results, alone %d", what, len(res[i]), len(want))
		}
		for k := range want {
			if a, b := renderGot(res[i][k]), renderGot(want[k]); a != b {
				t.Fail("differs from sequential", "%s: result %d is %s, alone it was %s", what, k, clip(a, 600), clip(b, 600))
			}
		}
		t.EventN("unordered results compared", len(want))
	}
}

func callGot(f reflect.Value, args []interface{}) got {
	in := make([]reflect.Value, len(args))
	for i, a := range args {
		in[i] = reflect.ValueOf(a)
	}
	out := f.Call(in)
	r := got{vals: out}
	if n := len(out); n > 0 && out[n-1].Type() == errSliceType {
		r.errs = out[n-1].Interface().([]error)
		r.vals = out[:n-1]
	}
	return r
}

// eachRead lets four goroutines make one read everywhere in a document that has
// not been read since it was parsed, built or cloned.
func eachRead(t *T, g *Gen, kind byte, name string, round int) {
	n := &Node{K: KMap}
	parsed := round%4 == 1
	if parsed {
		n = g.doc(4, false)
		for i, x := range []*Node{nStr("x"), nStr("12"), nStr("2023-05-06T07:08:09.123456Z"), nBool(true), nNull(), nMap()} {
			n.set(fmt.Sprint("f", i), x)
		}
	} else {
		n = g.doc(4, true)
		for i, x := range []*Node{nStr("x"), nStr("12"), nStr("true"), nBool(true), nInt("int8", 5), nInt("uint64", 7), nF64(1.5), nTime(g.time()), nNull(), nArr(nInt("int", 1), nInt("int", 2)), nArr(nStr("a")), nMap(), nErr("e")} {
			n.set(fmt.Sprint("f", i), x)
		}
	}
	text := ""
	if parsed {
		text = g.jsonText(n, textOpts{numForm: true})
	}
	seed := t.R.Int63()
	build := func() *hj.Map {
		if parsed {
			m, _ := hj.Parse(text)
			return m
		}
		m := (&builder{pick: newRand(seed).Intn}).mapOf(n)
		if round%4 == 3 {
			m, _ = m.Clone()
		}
		return m
	}
	keys := append([]string{"absent"}, n.Keys...)
	work := func(m *hj.Map) func(int, func(got)) {
		return func(i int, keep func(got)) {
			args := newGen(&T{R: newRand(seed + 1), cfg: t.cfg})
			try := func(o interface{}, key interface{}) {
				f, ok := op(o, name)
				if !ok {
					return
				}
				if name == "ToJSONString" {
					var b strings.Builder
					es := f.Call([]reflect.Value{reflect.ValueOf(&b)})
					keep(got{vals: []reflect.Value{reflect.ValueOf(b.String())}, errs: es[0].Interface().([]error)})
					return
				}
				if a := argsFor(args, f, key); len(a) == f.Type().NumIn() {
					keep(callGot(f, a))
				}
			}
			if kind == '0' && f0(m, name) == 0 {
				for k := 0; k < 3; k++ {
					try(m, nil)
				}
				return
			}
			for _, k := range keys {
				if kind == '0' {
					try(m, k)
					continue
				}
				v := m.GetValue(k)
				switch {
				case v == nil:
				case kind == '2':
					try(v, nil)
				case v.IsArray():
					if a, _ := v.GetArray(); a != nil {
						try(a, nil)
					}
				}
			}
		}
	}
	shared, alone := build(), build()
	if shared == nil || alone == nil {
		t.Fail("not built", "%s", n)
	}
	tight(t, fmt.Sprintf("%c %s on %s", kind, name, n), 4, work(shared), work(alone))
	t.Input(true, fmt.Sprint(kind, name, round))
}

// f0 is the number of arguments of an operation of a map, 0 if it has none.
func f0(m *hj.Map, name string) int {
	f, ok := op(m, name)
	if !ok {
		return 0
	}
	return f.Type().NumIn()
}

// grind: more goroutines than processors do one thing to values of one kind,
// over and over and without a pause, until the scheduler has cut in at many
// places; each has values of its own and must keep getting the same results.
func grind(t *T, kind string) {
	g := newGen(t)
	list := func() *Node {
		a := nArr()
		for i := 0; i < 12; i++ {
			switch kind {
			case "Error":
				a.Vals = append(a.Vals, nErr(g.str()))
			case "Time":
				a.Vals = append(a.Vals, nTime(g.time()))
			case "Null":
				a.Vals = append(a.Vals, nNull())
			case "Mixed":
				a.Vals = append(a.Vals, g.scalar(&docOpts{extra: true}))
			case "Key", "Escape":
				a.Vals = append(a.Vals, nStr(g.oneOf("\"", "\\", "\n", "\x01", "\u00e9")+g.runes(6)))
			case "Nested":
				a.Vals = append(a.Vals, g.value(&docOpts{budget: 4, maxDepth: 3, extra: true}, 0))
			case "List":
				a.Vals = append(a.Vals, &Node{K: []Kind{KErrs, KStrs}[i%2], L: []string{g.str(), g.str()}})
			case "Float32":
				a.Vals = append(a.Vals, nF32(g.f32()))
			case "Float64":
				a.Vals = append(a.Vals, nF64(g.f64()))
			default:
				a.Vals = append(a.Vals, g.homogeneous(kind, 1).Vals...)
			}
		}
		return a
	}
	const workers = 20
	type step struct {
		name string
		run  func() string
	}
	steps := make([][]step, workers)
	want := make([][]string, workers)
	for i := range steps {
		n := list()
		b := g.builder()
		m, a := hj.NewMap(), b.arrayOf(n)
		var objs []interface{}
		for j, v := range n.Vals {
			k := fmt.Sprint(i, "-", j)
			if kind == "Key" {
				k = v.S + k
			}
			b.setMap(m, k, v)
			objs = append(objs, b.object(v, true), b.object(v, false))
		}
		keys := m.GetKeys()
		text, _ := mapJSON(m)
		add := func(name string, f func() string) { steps[i] = append(steps[i], step{name, f}) }
		add("map text", func() string { s, e := mapJSON(m); return s + errsText(e) })
		add("array text", func() string { s, e := arrayJSON(a); return s + errsText(e) })
		add("rendering", func() string {
			var w strings.Builder
			for _, o := range objs {
				s, e := hj.ConvertInterfaceValueToStringValue(o)
				w.WriteString(s)
				if e != nil {
					w.WriteString(errsText(e))
				}
				if e := hj.ConvertInterfaceValueToJSONStringValue(&w, o); e != nil {
					w.WriteString(errsText(e))
				}
			}
			return w.String()
		})
		add("parsing", func() string {
			p, e := hj.Parse(text)
			if p == nil {
				return errsText(e)
			}
			s, e := mapJSON(p)
			return s + errsText(e)
		})
		add("cloning", func() string {
			p, e := m.Clone()
			if p == nil {
				return errsText(e)
			}
			s, e := mapJSON(p)
			return s + errsText(e)
		})
		reads := []string{"GetString", "GetInt", "GetInt8Value", "GetUInt16", "GetUInt64Value", "GetFloat32", "GetFloat64Value", "GetBool", "GetTime", "GetRunes", "GetErrors"}
		add("reads", func() string {
			var w strings.Builder
			for j, k := range keys {
				w.WriteString(safeRead(m, reads[(i+j)%len(reads)], []interface{}{k}))
				w.WriteString(m.GetType(k))
			}
			return w.String()
		})
		for _, s := range steps[i] {
			want[i] = append(want[i], s.run())
		}
	}
	limit := time.Duration(t.cfg.n(50, 500)) * time.Millisecond
	for k := range steps[0] {
		stop := time.Now().Add(limit)
		bad := make([]string, workers)
		count := make([]int, workers)
		var wg sync.WaitGroup
		for i := range steps {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				defer func() {
					if p := recover(); p != nil {
						bad[i] = fmt.Sprintf("panic %v", p)
					}
				}()
				for bad[i] == "" {
					for c := 0; c < 8; c++ {
						if got := steps[i][k].run(); got != want[i][k] {
							bad[i] = fmt.Sprintf("%s, alone it was %s", clip(got, 600), clip(want[i][k], 600))
							return
						}
						count[i]++
					}
					if time.Now().After(stop) {
						return
					}
				}
			}(i)
		}
		wg.Wait()
		for i, b := range bad {
			if b != "" {
				t.Fail("differs from sequential", "%s of %s values by %d goroutines at once: %s", steps[i][k].name, kind, workers, b)
			}
			t.EventN("steady results compared: "+steps[i][k].name, count[i])
		}
	}
	t.Input(true, kind+fmt.Sprint(want[0]))
}

// rejected: texts that cannot be read, parsed at the same time.
func rejected(t *T, loops int) {
	g := newGen(t)
	var texts []string
	for i := 0; i < 6; i++ {
		switch g.n(5) {
		case 0:
			texts = append(texts, g.mutateBytes(g.jsonText(g.doc(3, false), textOpts{})))
		case 1:
			w := badWords[g.n(len(badWords))]
			texts = append(texts, g.oneOf("{\"a\":"+w+"}", "{\"a\":["+w+"]}", "{"+w+"}", w, "{\"a\":1"+w))
		case 2:
			texts = append(texts, g.oneOf("", "{", "}", "x", "{}}", "{{}", "[1]", "{\"a\"", "{\"a\":\"b", "{\"a\":[1,2}", "{\"a\":[1]]}", "{\"a\":{}", "{,}", "{\"a\"}", "{\"a\":}"))
		default:
			texts = append(texts, "{\"a\":"+g.oneOf("tru", "1x", "01", "'a'", "[1 2]", "[,]", "[1,]", "{\"b\":}", "{\"b\"}")+"}")
		}
	}
	same := g.chance(0.5)
	work := func(i int, keep func(got)) {
		for l := 0; l < loops; l++ {
			text := texts[l%len(texts)]
			if !same {
				text = texts[(l+i)%len(texts)]
			}
			m, es := hj.Parse(text)
			if l < 2*len(texts) {
				keep(got{vals: []reflect.Value{reflect.ValueOf(m)}, errs: es})
			}
		}
	}
	tight(t, "rejected texts", 6, work, work)
	t.Input(true, strings.Join(texts, "|"))
}

// failing: operations that report errors, each goroutine on its own objects.
func failing(t *T, loops int) {
	g := newGen(t)
	pick := g.n(10)
	work := func(i int, keep func(got)) {
		val := func(xs ...interface{}) got {
			r := got{}
			for _, x := range xs {
				if x == nil {
					x = "nil"
				}
				r.vals = append(r.vals, reflect.ValueOf(x))
			}
			return r
		}
		m, a := hj.NewMap(), hj.NewArray()
		m.SetStringValue("s", "not a number")
		a.AppendStringValue("x")
		c := make(chan int)
		for l := 0; l < loops; l++ {
			k := (pick + l) % 10
			if l%3 == 0 {
				k = pick
			}
			switch k {
			case 0:
				ok, e := m.RemoveKey("absent")
				keep(val(ok, e != nil))
			case 1:
				ok, e := a.RemoveValueAtIndex(5)
				keep(val(ok, e != nil))
			case 2:
				_, es := a.GetStringValue(7)
				keep(val(len(es)))
			case 3:
				_, es := m.GetInt64("s")
				keep(val(len(es)))
			case 4:
				_, es := hj.ConvertInterfaceValueToStringValue(c)
				keep(val(len(es)))
			case 5:
				var w strings.Builder
				es := hj.ConvertInterfaceValueToJSONStringValue(&w, c)
				keep(val(len(es)))
			case 6:
				_, es := m.GetMap("s")
				keep(val(len(es)))
			case 7:
				_, es := m.GetTime("s")
				keep(val(len(es)))
			case 8:
				_, es := m.GetArrayOfInt("s")
				keep(val(len(es)))
			default:
				_, es := m.GetBoolValue("absent")
				keep(val(len(es)))
			}
		}
	}
	tight(t, fmt.Sprint("failing operations ", pick), 6, work, work)
	t.Input(true, fmt.Sprint("failing", pick))
}
