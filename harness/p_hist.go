package main

// C08, C09, C21, C23: histories of operations against the reference model.

import (
	"fmt"
	"math"
	"reflect"
	"strings"
	"unicode/utf8"

	hj "github.com/matehaxor03/holistic_json/json"
)

func init() {
	properties["C08"] = &Property{
		Rule:  "histories of typed sets, overwrites, removals and re-insertions (all short ones over two keys, random ones over small key pools, long ones over thousands of keys) against an ordered dictionary; every view is compared after the steps; non-trivial when a key was overwritten, removed or inserted again",
		Cases: mapHistoryCases,
	}
	properties["C09"] = &Property{
		Rule:  "histories of typed appends, replacements and removals by index, in and out of range (all short ones, random ones, long ones) against a sequence; every view is compared after the steps; non-trivial when an element was replaced or removed or an index was out of range",
		Cases: arrayHistoryCases,
	}
	properties["C21"] = &Property{
		Rule:  "graphs of live maps and arrays: containers are attached by every route, fetched by every getter, changed through any handle, replaced and removed; after each step every handle must show the state of its container in a heap model; non-trivial when a change was made through a handle that is not the one stored",
		Cases: liveCases,
	}
	properties["C23"] = &Property{
		Rule:  "maps and arrays created from Go collections of every kind of value (wrapped, by pointer, null, nested), compared with the collection, then the collection is changed and ordinary histories are run on the result; non-trivial when the collection has at least two entries",
		Cases: fromGoCases,
	}
}

// ---------------------------------------------------------------- C08

// mapViews compares every view of m with the model; probes are keys that may be
// absent.
func mapViews(t *T, g *Gen, m *hj.Map, model *Node, probes []string, typed bool, hist func() string) {
	fail := func(sig, format string, args ...interface{}) {
		t.Fail(sig, "after %s: %s", hist(), fmt.Sprintf(format, args...))
	}
	keys := m.GetKeys()
	if len(keys) != len(model.Keys) {
		fail("keys", "GetKeys gives %s, expected %s", clip(fmt.Sprintf("%q", keys), 300), clip(fmt.Sprintf("%q", model.Keys), 300))
	}
	for i := range keys {
		if keys[i] != model.Keys[i] {
			fail("keys", "GetKeys gives %s, expected %s", clip(fmt.Sprintf("%q", keys), 300), clip(fmt.Sprintf("%q", model.Keys), 300))
		}
	}
	values := m.Values()
	if values == nil || values.Len() != len(keys) {
		fail("values", "Values() does not have %d entries", len(keys))
	}
	for i, k := range keys {
		n := model.Vals[i]
		if !m.HasKey(k) {
			fail("has key", "HasKey(%q) is false for a present key", clip(k, 100))
		}
		if d := diff(n, observeValue(m.GetValue(k)), true); d != "" {
			fail("value", "GetValue(%q): %s", clip(k, 100), d)
		}
		if d := diff(n, observeObject(m.GetObjectForMap(k)), true); d != "" {
			fail("value", "GetObjectForMap(%q): %s", clip(k, 100), d)
		}
		if m.IsNull(k) != (n.K == KNull) {
			fail("null", "IsNull(%q) is %v for %s", clip(k, 100), n.K != KNull, clip(n.String(), 200))
		}
		if d := diff(n, observeValue((*values.GetValues())[i]), true); d != "" {
			fail("values", "Values()[%d] (key %q): %s", i, clip(k, 100), d)
		}
		if typed {
			checkTyped(t, place{"map", m, []interface{}{k}}, n, "history")
		}
	}
	for _, k := range probes {
		if model.find(k) >= 0 {
			continue
		}
		if m.HasKey(k) || m.GetValue(k) != nil || m.GetObjectForMap(k) != nil || !m.IsNull(k) {
			fail("absent", "key %q is absent but: HasKey %v, GetValue nil %v, IsNull %v", clip(k, 100), m.HasKey(k), m.GetValue(k) == nil, m.IsNull(k))
		}
		if typed {
			checkTyped(t, place{"map", m, []interface{}{k}}, nNull(), "absent key")
		}
	}
	if m.IsNil() {
		fail("nil", "IsNil of a map is true")
	}
	t.Event("views of a map compared")
	if textable(model) {
		text, errs := mapJSON(m)
		if len(errs) > 0 {
			fail("text", "serialising failed: %s", errsText(errs))
		}
		if d := textDiff(jsonView(model), text); d != "" {
			fail("text", "serialised text %s: %s", clip(text, 300), d)
		}
	}
}

func mustRemove(t *T, m *hj.Map, k string, present bool, hist func() string) {
	ok, err := m.RemoveKey(k)
	t.Event(fmt.Sprintf("remove key present=%v", present))
	if ok != present || (err == nil) != present {
		t.Fail("remove result", "after %s: RemoveKey(%q) of a key present=%v gives %v, %v", hist(), clip(k, 100), present, ok, err)
	}
}

var keyPools = [][]string{
	{"a", "b"}, {"a", "b", "c"}, {"a", "A", "a ", " a", ""}, {"", " ", "  "}, {"1", "01", "1.0", "+1"},
	{"k1", "k2", "k3", "k4", "k5", "k6"}, {"key", "keys", "ke", "kez"}, {"é", "e\u0301", "e"}, {"null", "nil", "<nil>", "map[]"},
	{"a\"b", "a\\b", "a\nb", "a\x00b", "ab"}, {"x", "xx", "xxx", "xxxx"},
}

func (g *Gen) keyPool() []string {
	if g.chance(0.6) {
		return keyPools[g.n(len(keyPools))]
	}
	var res []string
	if g.chance(0.4) { // one text and texts that differ from it a little
		s := g.str()
		if g.chance(0.7) {
			s = g.fill([]int{8, 16, 32, 33, 63, 64, 65, 100, 128, 129, 255, 256, 257, 300, 512, 1000, 1024, 1025, 4096, 5000}[g.n(20)])
		}
		res = append(res, s)
		for i := 1 + g.n(6); i > 0; i-- {
			res = append(res, g.sibling(s))
		}
		return res
	}
	for i := 2 + g.n(8); i > 0; i-- {
		res = append(res, g.str())
	}
	return res
}

// sibling is s with one small difference.
func (g *Gen) sibling(s string) string {
	r := []rune(s)
	if len(r) == 0 || !utf8.ValidString(s) {
		return s + g.oneOf("x", " ", "0")
	}
	p := g.n(len(r))
	if g.chance(0.3) {
		p = []int{0, len(r) - 1, len(r) / 2}[g.n(3)]
	}
	x := append([]rune{}, r...)
	switch g.n(8) {
	case 0:
		x = append(x[:p], x[p+1:]...)
	case 1:
		x = append(x[:p], append([]rune{rune('a' + g.n(26))}, r[p:]...)...)
	case 2:
		q := g.n(len(r))
		x[p], x[q] = x[q], x[p]
	case 3:
		x[p] = []rune{'é', '\u0301', '\x00', '"', '\\', '\n', 0xfffd, 0x1f600, '.', '/', '*'}[g.n(11)]
	default:
		x[p] = rune('a' + (int(r[p])+1+g.n(20))%26)
	}
	return string(x)
}

type histLog []string

func (l *histLog) add(format string, args ...interface{}) {
	*l = append(*l, fmt.Sprintf(format, args...))
}

func (l *histLog) show() string {
	s := *l
	pre := ""
	if len(s) > 14 {
		pre = fmt.Sprintf("(%d steps) ... ", len(s)-14)
		s = s[len(s)-14:]
	}
	return pre + clip(strings.Join(s, "; "), 1500)
}

// freshMap: an empty map, a filled one, a parsed one, a clone, a copy.
func (g *Gen) freshMap() (*hj.Map, *Node, string) {
	switch g.n(8) {
	case 0:
		m := hj.NewMapValue()
		return &m, nMap(), "NewMapValue"
	case 1:
		n := g.mapNode(&docOpts{budget: 8, maxDepth: 2, extra: true}, 0)
		return g.builder().mapOf(n), n, "filled"
	case 2:
		if m, errs := hj.Parse(g.jsonText(g.doc(3+g.n(10), false), textOpts{})); m != nil && len(errs) == 0 {
			return m, observeMap(m), "parsed"
		}
	case 3:
		n := g.mapNode(&docOpts{budget: 8, maxDepth: 2}, 0)
		if c, errs := g.builder().mapOf(n).Clone(); c != nil && len(errs) == 0 {
			return c, n, "cloned"
		}
	case 4:
		m := *hj.NewMap()
		c := m
		return &c, nMap(), "copied"
	}
	return hj.NewMap(), nMap(), "NewMap"
}

func mapHistory(t *T, steps int, every int) {
	g := newGen(t)
	b := g.builder()
	pool := g.keyPool()
	m, model, how := g.freshMap()
	var log histLog
	log.add("%s %s", how, clip(model.String(), 200))
	if len(model.Keys) > 0 {
		pool = append(append([]string{}, pool...), model.Keys...)
	}
	var shared []*hj.Value
	var sharedN []*Node
	o := &docOpts{extra: true, anyBytes: true}
	lent := map[string]bool{} // keys whose cell is also elsewhere
	cell := func(k string) {
		v, at := m.GetValue(k), model.find(k)
		if v == nil || at < 0 || lent[k] {
			return
		}
		x := g.scalar(o)
		r := b.setValue(v, x)
		log.add("%s(%s) through the cell of %q", r, clip(x.String(), 60), k)
		model.set(k, x)
		t.Event("changed through a cell")
	}
	nontrivial := false
	for i := 0; i < steps; i++ {
		k := pool[g.n(len(pool))]
		at := model.find(k)
		nontrivial = nontrivial || at >= 0
		lend := lent[k]
		lent[k] = false
		switch c := g.n(22); {
		case c < 5:
			log.add("remove %q", k)
			mustRemove(t, m, k, at >= 0, log.show)
			if at >= 0 {
				model.remove(at)
			}
		case c == 5:
			log.add("SetValue(%q, nil)", k)
			m.SetValue(k, nil)
			model.set(k, nNull())
		case c == 6:
			log.add("SetNil(%q)", k)
			m.SetNil(k)
			model.set(k, nNull())
		case c == 7 && len(shared) > 0:
			j := g.n(len(shared))
			log.add("SetValue(%q, shared %s)", k, clip(sharedN[j].String(), 60))
			m.SetValue(k, shared[j])
			lent[k] = true
			model.set(k, sharedN[j])
		case c == 8:
			n := g.scalar(o)
			v := b.valueOf(n)
			shared, sharedN = append(shared, v), append(sharedN, n)
			log.add("SetValue(%q, %s)", k, clip(n.String(), 60))
			m.SetValue(k, v)
			lent[k] = true
			model.set(k, n)
		case c == 9 && at >= 0: // set to what it is
			log.add("set again %q", k)
			m.SetValue(k, m.GetValue(k))
			lent[k] = lend
		case c == 10 && len(model.Keys) > 0: // move a value to another key
			j := g.n(len(model.Keys))
			log.add("SetValue(%q, GetValue(%q))", k, model.Keys[j])
			m.SetValue(k, m.GetValue(model.Keys[j]))
			lent[k], lent[model.Keys[j]] = true, true
			model.set(k, model.Vals[j])
		case c == 20: // equal values under several keys, each its own
			lent[k] = lend
			n := g.scalar(o)
			if g.chance(0.4) {
				n = nNull()
			}
			for x := 0; x < 3; x++ {
				k := pool[g.n(len(pool))]
				r := b.setMap(m, k, n)
				log.add("%s(%q, %s)", r, k, clip(n.String(), 60))
				model.set(k, n)
				lent[k] = false
			}
			cell(model.Keys[g.n(len(model.Keys))])
		case c == 21 && at >= 0:
			lent[k] = lend
			cell(k)
		default:
			n := g.value(&docOpts{budget: 3, maxDepth: 2, extra: true, anyBytes: true}, 0)
			r := b.setMap(m, k, n)
			log.add("%s(%q, %s)", r, k, clip(n.String(), 60))
			model.set(k, n)
		}
		if every <= 1 || g.n(every) == 0 {
			mapViews(t, g, m, model, pool, g.chance(0.2), log.show)
		}
	}
	mapViews(t, g, m, model, pool, true, log.show)
	t.Input(nontrivial, strings.Join(log, ";"))
}

// mapExhaustive runs every sequence of n operations over two or three keys.
func mapExhaustive(t *T, keys []string, depth, part, parts int) {
	g := newGen(t)
	ops := 3 * len(keys)
	total := 1
	for i := 0; i < depth; i++ {
		total *= ops
	}
	for code := part; code < total; code += parts {
		m, model := hj.NewMap(), nMap()
		var log histLog
		c := code
		nontrivial := false
		for i := 0; i < depth; i++ {
			x := c % ops
			c /= ops
			k := keys[x/3]
			at := model.find(k)
			nontrivial = nontrivial || at >= 0
			switch x % 3 {
			case 0:
				log.add("set %q %d", k, i)
				m.SetIntValue(k, i)
				model.set(k, nInt("int", int64(i)))
			case 1:
				log.add("SetNil %q", k)
				m.SetNil(k)
				model.set(k, nNull())
			case 2:
				log.add("remove %q", k)
				mustRemove(t, m, k, at >= 0, log.show)
				if at >= 0 {
					model.remove(at)
				}
			}
		}
		mapViews(t, g, m, model, keys, false, log.show)
		t.Input(nontrivial, strings.Join(log, ";"))
	}
}

// mapBulk fills a map with n keys and takes it apart in a pattern.
func mapBulk(t *T, n int, pattern string) {
	g := newGen(t)
	m, model := hj.NewMap(), nMap()
	var log histLog
	key := func(i int) string { return fmt.Sprintf("%dk", i) }
	if g.chance(0.3) {
		key = func(i int) string { return fmt.Sprintf("k%x", i*7919) }
	}
	index := map[string]bool{}
	set := func(k string, v int64) {
		m.SetInt64Value(k, v)
		if !index[k] { // model.set without the linear search
			index[k] = true
			model.Keys = append(model.Keys, k)
			model.Vals = append(model.Vals, nInt("int64", v))
		} else {
			model.set(k, nInt("int64", v))
		}
	}
	drop := func(i int) {
		k := model.Keys[i]
		mustRemove(t, m, k, true, log.show)
		model.remove(i)
		delete(index, k)
	}
	log.add("insert %d keys", n)
	for i := 0; i < n; i++ {
		set(key(i), int64(i))
	}
	probes := []string{"", "k", key(n), key(n + 1), key(-1)}
	mapViews(t, g, m, model, probes, false, log.show)
	// a read right before and right after every single change
	for i := 0; i < 4 && len(model.Keys) > 0; i++ {
		at := []int{0, len(model.Keys) / 2, len(model.Keys) - 1, g.n(len(model.Keys)), g.n(len(model.Keys))}[g.n(5)]
		if k := model.Keys[at]; g.n(3) == 0 {
			drop(at)
			log.add("remove %q", k)
			if g.chance(0.5) {
				set(k, int64(1000+i))
				log.add("set %q", k)
			}
		} else {
			set(k, int64(-1000-i))
			log.add("set %q", k)
		}
		mapViews(t, g, m, model, probes, false, log.show)
	}
	log.add("pattern %s", pattern)
	limit := len(model.Keys)
	if limit > 150 {
		limit = 150
	}
	switch pattern {
	case "front":
		for i := 0; i < limit; i++ {
			drop(0)
		}
	case "back":
		for i := 0; i < limit; i++ {
			drop(len(model.Keys) - 1)
		}
	case "middle":
		for i := 0; i < limit; i++ {
			drop(len(model.Keys) / 2)
		}
	case "alternate":
		for i := 0; i < len(model.Keys) && i < 300; i++ {
			drop(i)
		}
	case "overwrite":
		for i := 0; i < limit; i++ {
			set(model.Keys[g.n(len(model.Keys))], int64(-i))
		}
	case "random":
		for i := 0; i < limit; i++ {
			switch g.n(3) {
			case 0:
				set(key(g.n(n+5)), int64(i))
			default:
				if len(model.Keys) > 0 {
					drop(g.n(len(model.Keys)))
				}
			}
		}
	case "one of each":
		for i := 0; i < len(model.Keys) && i < 40; i++ {
			v := model.Vals[i]
			k := model.Keys[i]
			drop(i)
			mustRemove(t, m, k, false, log.show)
			set(k, v.I.Int64())
		}
	}
	log.add("done")
	mapViews(t, g, m, model, probes, false, log.show)
	for i := 0; i < 5; i++ {
		set(key(g.n(n+3)), 77)
		set(fmt.Sprint("new", i), 1)
	}
	mapViews(t, g, m, model, probes, n <= 40, log.show)
	t.Input(n > 0, fmt.Sprintf("bulk %d %s", n, pattern))
}

var bulkPatterns = []string{"front", "back", "middle", "alternate", "overwrite", "random", "one of each"}

func histSizes(cfg *Config, limit int) []int {
	var res []int
	for i := 0; i <= 20; i++ {
		res = append(res, i)
	}
	for _, n := range sizePool {
		if n > 20 && n <= 600 {
			res = append(res, n)
		}
	}
	return append(res, cfg.Hot.Sizes(limit)...)
}

func mapHistoryCases(cfg *Config) []Case {
	var bulk []Case
	for _, n := range histSizes(cfg, 3000) {
		for pi, p := range bulkPatterns {
			if n > 70 && !cfg.thorough() && (n+pi)%3 != 0 {
				continue
			}
			n, p := n, p
			bulk = append(bulk, Case{Name: fmt.Sprintf("bulk-%d-%s", n, p), Fn: func(t *T) { mapBulk(t, n, p) }})
		}
	}
	var ex []Case
	depth := cfg.n(5, 7)
	for part := 0; part < 16; part++ {
		part := part
		ex = append(ex, Case{Name: fmt.Sprintf("all-two-keys-%d", part), Fn: func(t *T) { mapExhaustive(t, []string{"a", "b"}, depth, part, 16) }})
		ex = append(ex, Case{Name: fmt.Sprintf("all-three-keys-%d", part), Fn: func(t *T) { mapExhaustive(t, []string{"", "b", "c"}, depth-1, part, 16) }})
	}
	a := batch(nil, "history", cfg.n(12000, 60000), func(t *T) { mapHistory(t, 10+t.R.Intn(50), 1+t.R.Intn(4)) })
	a = batch(a, "long history", cfg.n(120, 600), func(t *T) { mapHistory(t, 400, 40) })
	return interleave(interleave(a, ex), bulk)
}

// ---------------------------------------------------------------- C09

func arrayViews(t *T, g *Gen, a *hj.Array, model *Node, typed bool, hist func() string) {
	fail := func(sig, format string, args ...interface{}) {
		t.Fail(sig, "after %s: %s", hist(), fmt.Sprintf(format, args...))
	}
	if a.Len() != len(model.Vals) {
		fail("length", "Len is %d, expected %d", a.Len(), len(model.Vals))
	}
	if d := diff(model, observeArray(a), true); d != "" {
		fail("elements", "%s", d)
	}
	if c, errs := a.GetArrayValue(); len(errs) > 0 || diff(model, observeArray(&c), true) != "" {
		fail("elements", "GetArrayValue: %s %s", errsText(errs), diff(model, observeArray(&c), true))
	}
	t.Event("views of an array compared")
	if textable(model) {
		text, errs := arrayJSON(a)
		if len(errs) > 0 {
			fail("text", "serialising failed: %s", errsText(errs))
		}
		if d := arrayTextDiff(model, text); d != "" {
			fail("text", "serialised text %s: %s", clip(text, 300), d)
		}
	}
	n := len(model.Vals)
	idx := []int{-1, n, n + 1, -n, -n - 1, math.MaxInt, math.MinInt, math.MaxInt32, math.MinInt32, 1 << 32, n + 1<<32}
	for _, h := range t.cfg.Hot.Ints {
		if len(idx) < 40 {
			idx = append(idx, int(h))
		}
	}
	for _, i := range idx {
		if i >= 0 && i < n {
			continue
		}
		if s, errs := a.GetStringValue(i); len(errs) == 0 || s != "" {
			fail("index", "GetStringValue(%d) of %d elements gives %q, %s", i, n, s, errsText(errs))
		}
		if m, errs := a.GetMap(i); len(errs) == 0 || m != nil {
			fail("index", "GetMap(%d) of %d elements gives no error", i, n)
		}
		t.Event("read outside the array")
	}
	for i := 0; i < n; i++ {
		if n > 30 && !typed && i > 3 && i < n-3 && g.n(8) > 0 {
			continue
		}
		e := model.Vals[i]
		s, errs := a.GetStringValue(i)
		if e.K == KStr && (len(errs) > 0 || s != e.S) {
			fail("indexed read", "GetStringValue(%d) gives %q, %s, expected %q", i, clip(s, 100), errsText(errs), clip(e.S, 100))
		} else if e.K != KStr && e.K != KErr && len(errs) == 0 {
			fail("indexed read", "GetStringValue(%d) of %s gives %q", i, clip(e.String(), 100), s)
		}
		m, errs := a.GetMap(i)
		if e.K == KMap && (len(errs) > 0 || m == nil || diff(e, observeMap(m), true) != "") {
			fail("indexed read", "GetMap(%d): %s", i, errsText(errs))
		} else if e.K != KMap && m != nil {
			fail("indexed read", "GetMap(%d) of %s gives a map", i, clip(e.String(), 100))
		}
		if typed {
			if v := (*a.GetValues())[i]; v != nil {
				checkTyped(t, place{"element", v, nil}, e, "history")
			}
		}
	}
}

// arrayTextDiff reads the text of an array by wrapping it in an object.
func arrayTextDiff(model *Node, text string) string {
	w := nMap()
	w.set("w", jsonView(model))
	return textDiff(w, `{"w":`+text+`}`)
}

func badIndexOp(t *T, a *hj.Array, i int, set bool, v *hj.Value, hist func() string) {
	var ok bool
	var err error
	name := "RemoveValueAtIndex"
	if set {
		name = "SetValueAtIndex"
		ok, err = a.SetValueAtIndex(i, v)
	} else {
		ok, err = a.RemoveValueAtIndex(i)
	}
	t.Event(name + " out of range")
	if ok || err == nil {
		t.Fail("index result", "after %s: %s(%d) outside the array gives %v, %v", hist(), name, i, ok, err)
	}
}

func goodIndexOp(t *T, a *hj.Array, i int, set bool, v *hj.Value, hist func() string) {
	var ok bool
	var err error
	name := "RemoveValueAtIndex"
	if set {
		name = "SetValueAtIndex"
		ok, err = a.SetValueAtIndex(i, v)
	} else {
		ok, err = a.RemoveValueAtIndex(i)
	}
	t.Event(name + " in range")
	if !ok || err != nil {
		t.Fail("index result", "after %s: %s(%d) of %d elements gives %v, %v", hist(), name, i, a.Len(), ok, err)
	}
}

func (g *Gen) freshArray() (*hj.Array, *Node, string) {
	switch g.n(8) {
	case 0:
		a := hj.NewArrayValue()
		return &a, nArr(), "NewArrayValue"
	case 1:
		n := g.arrNode(&docOpts{budget: 8, maxDepth: 2, extra: true}, 0)
		return g.builder().arrayOf(n), n, "filled"
	case 2:
		n := nMap()
		n.set("a", g.arrNode(&docOpts{budget: 8, maxDepth: 2}, 0))
		if m, errs := hj.Parse(g.jsonText(n, textOpts{})); m != nil && len(errs) == 0 {
			if a, e := m.GetArray("a"); a != nil && len(e) == 0 {
				return a, observeArray(a), "parsed"
			}
		}
	case 3:
		n := g.arrNode(&docOpts{budget: 8, maxDepth: 2}, 0)
		if c, errs := g.builder().arrayOf(n).Clone(); c != nil && len(errs) == 0 {
			return c, n, "cloned"
		}
	case 4:
		c := *hj.NewArray()
		return &c, nArr(), "copied"
	}
	return hj.NewArray(), nArr(), "NewArray"
}

func arrayHistory(t *T, steps, every int) {
	g := newGen(t)
	b := g.builder()
	a, model, how := g.freshArray()
	var log histLog
	log.add("%s %s", how, clip(model.String(), 200))
	var shared []*hj.Value
	var sharedN []*Node
	// own[i]: the cell of element i was put nowhere else
	own := make([]bool, len(model.Vals))
	for i := range own {
		own[i] = true
	}
	cell := func(at int) {
		v := (*a.GetValues())[at]
		if v == nil || !own[at] {
			return
		}
		x := g.scalar(&docOpts{extra: true})
		r := b.setValue(v, x)
		log.add("%s(%s) through the cell of %d", r, clip(x.String(), 60), at)
		model.Vals[at] = x
		t.Event("changed through a cell")
	}
	nontrivial := false
	bias := g.n(6) // how fast it grows
	for i := 0; i < steps; i++ {
		n := len(model.Vals)
		appendedShared := false
		switch c := g.n(15); {
		case c < 3 && n > 0:
			at := g.n(n)
			if g.chance(0.4) {
				at = []int{0, n - 1}[g.n(2)]
			}
			log.add("remove %d of %d", at, n)
			goodIndexOp(t, a, at, false, nil, log.show)
			model.remove(at)
			own = append(own[:at], own[at+1:]...)
			nontrivial = true
		case c < 5 && n > 0:
			at := g.n(n)
			if g.chance(0.4) {
				at = []int{0, n - 1}[g.n(2)]
			}
			x := g.value(&docOpts{budget: 3, maxDepth: 2, extra: true}, 0)
			log.add("set %d of %d to %s", at, n, clip(x.String(), 60))
			goodIndexOp(t, a, at, true, b.valueOf(x), log.show)
			model.Vals[at], own[at] = x, true
			nontrivial = true
		case c == 5 && n > 0:
			at := g.n(n)
			log.add("set %d of %d to nil", at, n)
			goodIndexOp(t, a, at, true, nil, log.show)
			model.Vals[at], own[at] = nNull(), true
		case c == 6 || c == 7:
			at := []int{-1, n, n + 1, -n, n + 7, math.MaxInt, math.MinInt, -n - 1, 1 << 32}[g.n(9)]
			if g.chance(0.3) && len(g.hot.Ints) > 0 {
				at = int(g.hot.Ints[g.n(len(g.hot.Ints))])
			}
			if at >= 0 && at < n {
				continue
			}
			set := g.chance(0.5)
			log.add("out of range %d of %d set=%v", at, n, set)
			badIndexOp(t, a, at, set, hj.NewValue("intruder"), log.show)
			nontrivial = true
		case c == 8 && len(shared) > 0:
			j := g.n(len(shared))
			log.add("append shared")
			a.AppendValue(shared[j])
			appendedShared = true
			model.Vals = append(model.Vals, sharedN[j])
		case c == 9:
			x := g.scalar(&docOpts{extra: true})
			v := b.valueOf(x)
			shared, sharedN = append(shared, v), append(sharedN, x)
			log.add("append %s", clip(x.String(), 60))
			a.AppendValue(v)
			appendedShared = true
			model.Vals = append(model.Vals, x)
		case c == 10 && n > 1: // move an element
			j, k := g.n(n), g.n(n)
			log.add("copy %d to %d", j, k)
			goodIndexOp(t, a, k, true, (*a.GetValues())[j], log.show)
			model.Vals[k] = model.Vals[j]
			own[j], own[k] = false, false
		case c == 12: // several equal elements in a row, each its own
			x := g.scalar(&docOpts{extra: true})
			if g.chance(0.4) {
				x = nNull()
			}
			for k := 2 + g.n(3); k > 0; k-- {
				r := b.appendArray(a, x)
				log.add("%s(%s)", r, clip(x.String(), 60))
				model.Vals, own = append(model.Vals, x), append(own, true)
			}
			cell(len(model.Vals) - 1 - g.n(2))
		case c == 11 && g.chance(0.3):
			log.add("append nil value")
			a.AppendValue(nil)
			model.Vals = append(model.Vals, nNull())
		default:
			if g.n(6) < bias && n > 12 {
				continue
			}
			x := g.value(&docOpts{budget: 3, maxDepth: 2, extra: true, anyBytes: true}, 0)
			r := b.appendArray(a, x)
			log.add("%s(%s)", r, clip(x.String(), 60))
			model.Vals = append(model.Vals, x)
		}
		for len(own) < len(model.Vals) { // appended
			own = append(own, !appendedShared)
		}
		if n := len(model.Vals); n > 0 && g.chance(0.15) {
			cell(g.n(n))
		}
		if every <= 1 || g.n(every) == 0 {
			arrayViews(t, g, a, model, g.chance(0.2), log.show)
		}
	}
	arrayViews(t, g, a, model, true, log.show)
	t.Input(nontrivial, strings.Join(log, ";"))
}

func arrayExhaustive(t *T, depth, part, parts int) {
	g := newGen(t)
	const ops = 9
	total := 1
	for i := 0; i < depth; i++ {
		total *= ops
	}
	for code := part; code < total; code += parts {
		a, model := hj.NewArray(), nArr()
		var log histLog
		c := code
		for i := 0; i < depth; i++ {
			x := c % ops
			c /= ops
			n := len(model.Vals)
			node := nInt("int", int64(i))
			switch x {
			case 0:
				log.add("append %d", i)
				a.AppendIntValue(i)
				model.Vals = append(model.Vals, node)
			case 1:
				log.add("append nil")
				a.AppendNil()
				model.Vals = append(model.Vals, nNull())
			case 2, 3, 4, 5, 6, 7, 8:
				at := []int{0, 1, n - 1, n, 0, 1, n - 1}[x-2]
				set := x < 6
				log.add("at %d of %d set=%v", at, n, set)
				if at < 0 || at >= n {
					badIndexOp(t, a, at, set, hj.NewValue("intruder"), log.show)
				} else {
					goodIndexOp(t, a, at, set, hj.NewValue(i), log.show)
					if set {
						model.Vals[at] = node
					} else {
						model.remove(at)
					}
				}
			}
		}
		arrayViews(t, g, a, model, false, log.show)
		t.Input(true, strings.Join(log, ";"))
	}
}

func arrayBulk(t *T, n int, pattern string) {
	g := newGen(t)
	a, model := hj.NewArray(), nArr()
	var log histLog
	log.add("append %d elements", n)
	mixed := g.chance(0.5)
	b := g.builder()
	for i := 0; i < n; i++ {
		x := nInt("int64", int64(i))
		if mixed && i%3 == 1 {
			x = nStr(fmt.Sprint("s", i))
		}
		b.appendArray(a, x)
		model.Vals = append(model.Vals, x)
	}
	arrayViews(t, g, a, model, false, log.show)
	limit := min(n, 200)
	drop := func(i int) { goodIndexOp(t, a, i, false, nil, log.show); model.remove(i) }
	set := func(i int, v int64) {
		goodIndexOp(t, a, i, true, hj.NewValue(v), log.show)
		model.Vals[i] = nInt("int64", v)
	}
	// a read right before and right after every single change
	for i := 0; i < 5 && len(model.Vals) > 0; i++ {
		at := []int{0, len(model.Vals) / 2, len(model.Vals) - 1, g.n(len(model.Vals)), g.n(len(model.Vals))}[g.n(5)]
		switch g.n(4) {
		case 0:
			drop(at)
			log.add("remove %d", at)
			if g.chance(0.5) {
				x := nInt("int64", int64(1000+i))
				b.appendArray(a, x)
				model.Vals = append(model.Vals, x)
				log.add("append")
			}
		default:
			set(at, int64(-1000-i))
			log.add("set %d", at)
		}
		arrayViews(t, g, a, model, false, log.show)
	}
	log.add("pattern %s", pattern)
	limit = min(len(model.Vals), 200)
	switch pattern {
	case "front":
		for i := 0; i < limit; i++ {
			drop(0)
		}
	case "back":
		for i := 0; i < limit; i++ {
			drop(len(model.Vals) - 1)
		}
	case "middle":
		for i := 0; i < limit; i++ {
			drop(len(model.Vals) / 2)
		}
	case "alternate":
		for i := 0; i < len(model.Vals) && i < 300; i++ {
			drop(i)
		}
	case "overwrite":
		for i := 0; i < limit; i++ {
			set(g.n(len(model.Vals)), int64(-i))
		}
	case "random":
		for i := 0; i < limit; i++ {
			if g.n(3) == 0 || len(model.Vals) == 0 {
				a.AppendInt64Value(int64(i))
				model.Vals = append(model.Vals, nInt("int64", int64(i)))
			} else {
				drop(g.n(len(model.Vals)))
			}
		}
	case "one of each":
		for i := 0; i < len(model.Vals) && i < 40; i++ {
			drop(i)
			a.AppendStringValue(fmt.Sprint(i))
			model.Vals = append(model.Vals, nStr(fmt.Sprint(i)))
		}
	}
	log.add("done")
	arrayViews(t, g, a, model, false, log.show)
	for i := 0; i < 5; i++ {
		a.AppendIntValue(i)
		model.Vals = append(model.Vals, nInt("int", int64(i)))
	}
	badIndexOp(t, a, len(model.Vals), true, hj.NewValue(1), log.show)
	badIndexOp(t, a, len(model.Vals), false, nil, log.show)
	arrayViews(t, g, a, model, n <= 40, log.show)
	t.Input(n > 0, fmt.Sprintf("bulk %d %s", n, pattern))
}

func arrayHistoryCases(cfg *Config) []Case {
	var bulk []Case
	for _, n := range histSizes(cfg, 8000) {
		for pi, p := range bulkPatterns {
			if n > 70 && !cfg.thorough() && (n+pi)%3 != 0 {
				continue
			}
			n, p := n, p
			bulk = append(bulk, Case{Name: fmt.Sprintf("bulk-%d-%s", n, p), Fn: func(t *T) { arrayBulk(t, n, p) }})
		}
	}
	var ex []Case
	depth := cfg.n(5, 6)
	for part := 0; part < 16; part++ {
		part := part
		ex = append(ex, Case{Name: fmt.Sprintf("all-%d", part), Fn: func(t *T) { arrayExhaustive(t, depth, part, 16) }})
	}
	a := batch(nil, "history", cfg.n(16000, 80000), func(t *T) { arrayHistory(t, 10+t.R.Intn(50), 1+t.R.Intn(4)) })
	a = batch(a, "long history", cfg.n(120, 600), func(t *T) { arrayHistory(t, 400, 40) })
	a = batch(a, "replacements", cfg.n(80, 600), func(t *T) {
		// nothing but replacements, often by the cell of a neighbour or by its own
		g := newGen(t)
		a, model := hj.NewArray(), nArr()
		size := 2 + g.n(8)
		for i := 0; i < size; i++ {
			n := nInt("int", int64(i))
			model.Vals = append(model.Vals, n)
			a.AppendValue(g.builder().valueOf(n))
		}
		var log histLog
		for i := 0; i < 320; i++ {
			at := g.n(size)
			from := at
			switch g.n(6) {
			case 0, 1, 2:
				from = (at + size - 1 + 2*g.n(2)) % size
			case 3:
				from = g.n(size)
			case 4:
				from = -1
			}
			var v *hj.Value
			n := nInt("int", int64(100+i))
			if from >= 0 {
				v, n = (*a.GetValues())[from], model.Vals[from]
			} else {
				v = g.builder().valueOf(n)
			}
			log.add("[%d] <- [%d]", at, from)
			goodIndexOp(t, a, at, true, v, log.show)
			model.Vals[at] = n
			if d := diff(model, observeArray(a), true); d != "" {
				t.Fail("content", "after %d replacements, %s: %s", i+1, log.show(), d)
			}
			t.Event("replacements")
		}
		t.Input(true, strings.Join(log, ";"))
	})
	return interleave(interleave(a, ex), bulk)
}

// ---------------------------------------------------------------- C21

// handle is one way to get at a container of the heap model.
type handle struct {
	node *Node // identity: the same container has the same *Node
	m    *hj.Map
	a    *hj.Array
	how  string
}

func (h handle) observe() *Node {
	if h.m != nil {
		return observeMap(h.m)
	}
	return observeArray(h.a)
}

type heap struct {
	t   *T
	g   *Gen
	hs  []handle
	log histLog
	// cells that hold containers, kept whether or not they are still in a document
	cells []heldCell
	via   int // changes made through a handle other than the first of its container
}

type heldCell struct {
	v    *hj.Value
	node *Node
	how  string
}

func (h *heap) keep(v *hj.Value, n *Node, how string) {
	h.cells = append(h.cells, heldCell{v, n, fmt.Sprintf("c%d %s", len(h.log), how)})
	if len(h.cells) > 8 {
		i := h.g.n(len(h.cells) - 2)
		h.cells = append(h.cells[:i], h.cells[i+1:]...)
	}
}

func (h *heap) add(x handle) {
	h.hs = append(h.hs, x)
	if len(h.hs) > 26 { // forget some, not the newest
		i := h.g.n(len(h.hs) - 4)
		h.hs = append(h.hs[:i], h.hs[i+1:]...)
	}
}

func reaches(from, to *Node) bool {
	if from == to {
		return true
	}
	for _, v := range from.Vals {
		if reaches(v, to) {
			return true
		}
	}
	return false
}

func (h *heap) check() {
	for i, x := range h.hs {
		if d := diff(x.node, x.observe(), true); d != "" {
			h.t.Fail("not live", "after %s: handle %d (%s): %s", h.log.show(), i, x.how, d)
		}
	}
	for i, x := range h.cells {
		if d := diff(x.node, observeValue(x.v), true); d != "" {
			h.t.Fail("not live", "after %s: cell %d (%s): %s", h.log.show(), i, x.how, d)
		}
	}
	h.t.Event("all handles compared")
	x := h.hs[h.g.n(len(h.hs))]
	if textable(x.node) {
		var text string
		var errs []error
		var d string
		if x.m != nil {
			text, errs = mapJSON(x.m)
			d = textDiff(jsonView(x.node), text)
		} else {
			text, errs = arrayJSON(x.a)
			d = arrayTextDiff(x.node, text)
		}
		if len(errs) > 0 || d != "" {
			h.t.Fail("text", "after %s: handle (%s) is serialised as %s: %s %s", h.log.show(), x.how, clip(text, 300), d, errsText(errs))
		}
	}
}

func (h *heap) note(x handle) {
	for _, y := range h.hs {
		if y.node == x.node {
			if y.m != x.m || y.a != x.a {
				h.via++
				h.t.Event("change through another handle")
			}
			return
		}
	}
}

// scalarChange makes a small change through handle x.
func (h *heap) scalarChange(x handle) {
	g := h.g
	b := g.builder()
	n := g.scalar(&docOpts{extra: true})
	h.note(x)
	if x.m != nil {
		k := fmt.Sprint("s", g.n(4))
		if len(x.node.Keys) > 0 && g.chance(0.4) {
			k = x.node.Keys[g.n(len(x.node.Keys))]
		}
		if at := x.node.find(k); at >= 0 && g.chance(0.3) {
			h.log.add("(%s) remove %q", x.how, k)
			x.m.RemoveKey(k)
			x.node.remove(at)
			return
		}
		h.log.add("(%s) set %q %s", x.how, k, clip(n.String(), 40))
		b.setMap(x.m, k, n)
		x.node.set(k, n)
		return
	}
	if l := len(x.node.Vals); l > 0 && g.chance(0.5) {
		at := g.n(l)
		if g.chance(0.5) {
			h.log.add("(%s) remove [%d]", x.how, at)
			x.a.RemoveValueAtIndex(at)
			x.node.remove(at)
		} else {
			h.log.add("(%s) set [%d] %s", x.how, at, clip(n.String(), 40))
			x.a.SetValueAtIndex(at, b.valueOf(n))
			x.node.Vals[at] = n
		}
		return
	}
	h.log.add("(%s) append %s", x.how, clip(n.String(), 40))
	b.appendArray(x.a, n)
	x.node.Vals = append(x.node.Vals, n)
}

// wrap gives a Value holding the container of c by some route.
func (h *heap) wrap(c handle) (*hj.Value, string) {
	if h.g.chance(0.4) {
		for _, x := range h.cells {
			if x.node == c.node {
				h.t.Event("cell put into another place")
				return x.v, "cell " + x.how
			}
		}
	}
	v, how := h.newWrap(c)
	if h.g.chance(0.3) {
		h.keep(v, c.node, how)
	}
	return v, how
}

func (h *heap) newWrap(c handle) (*hj.Value, string) {
	g := h.g
	v := hj.NewValue(nil)
	if c.m != nil {
		switch g.n(5) {
		case 0:
			return hj.NewValue(c.m), "NewValue(*Map)"
		case 1:
			return hj.NewValue(*c.m), "NewValue(Map)"
		case 2:
			v.SetMap(c.m)
			return v, "Value.SetMap"
		case 3:
			v.SetMapValue(*c.m)
			return v, "Value.SetMapValue"
		default:
			v.SetObject(c.m)
			return v, "SetObject"
		}
	}
	switch g.n(5) {
	case 0:
		return hj.NewValue(c.a), "NewValue(*Array)"
	case 1:
		return hj.NewValue(*c.a), "NewValue(Array)"
	case 2:
		v.SetArray(c.a)
		return v, "Value.SetArray"
	case 3:
		v.SetArrayValue(*c.a)
		return v, "Value.SetArrayValue"
	default:
		v.SetObject(c.a)
		return v, "SetObject"
	}
}

// attach stores c in p.
func (h *heap) attach(p, c handle) bool {
	if reaches(c.node, p.node) || p.node.count() > 150 || c.node.count() > 100 {
		return false
	}
	g := h.g
	h.note(p)
	route := ""
	if p.m != nil {
		k := fmt.Sprint("c", g.n(5))
		if len(p.node.Keys) > 0 && g.chance(0.2) {
			k = p.node.Keys[g.n(len(p.node.Keys))]
		}
		switch g.n(4) {
		case 0:
			if c.m != nil {
				p.m.SetMap(k, c.m)
			} else {
				p.m.SetArray(k, c.a)
			}
			route = "Set by pointer"
		case 1:
			if c.m != nil {
				p.m.SetMapValue(k, *c.m)
			} else {
				p.m.SetArrayValue(k, *c.a)
			}
			route = "Set by value"
		case 2:
			route = "SetObjectForMap"
			var o interface{}
			switch {
			case c.m != nil && g.chance(0.5):
				o = c.m
			case c.m != nil:
				o = *c.m
			case g.chance(0.5):
				o = c.a
			default:
				o = *c.a
			}
			p.m.SetObjectForMap(k, o)
		default:
			v, w := h.wrap(c)
			route = "SetValue " + w
			p.m.SetValue(k, v)
		}
		p.node.set(k, c.node)
		h.log.add("(%s) %q <- (%s) by %s", p.how, k, c.how, route)
		h.t.Event("attach " + route)
		return true
	}
	if l := len(p.node.Vals); l > 0 && g.chance(0.35) {
		at := g.n(l)
		v, w := h.wrap(c)
		p.a.SetValueAtIndex(at, v)
		p.node.Vals[at] = c.node
		h.log.add("(%s) [%d] <- (%s) by %s", p.how, at, c.how, w)
		h.t.Event("attach SetValueAtIndex " + w)
		return true
	}
	switch g.n(4) {
	case 0:
		if c.m != nil {
			p.a.AppendMap(c.m)
		} else {
			p.a.AppendArray(c.a)
		}
		route = "Append by pointer"
	case 1:
		if c.m != nil {
			p.a.AppendMapValue(*c.m)
		} else {
			p.a.AppendArrayValue(*c.a)
		}
		route = "Append by value"
	case 2:
		v, w := h.wrap(c)
		p.a.AppendValue(v)
		route = "AppendValue " + w
	default:
		v, w := h.wrap(c)
		p.a.AppendValueValue(*v)
		route = "AppendValueValue " + w
	}
	p.node.Vals = append(p.node.Vals, c.node)
	h.log.add("(%s) [] <- (%s) by %s", p.how, c.how, route)
	h.t.Event("attach " + route)
	return true
}

// fetch gets a handle on a container inside x by some getter.
func (h *heap) fetch(x handle) {
	g, t := h.g, h.t
	var spots []int
	for i, v := range x.node.Vals {
		if v.K == KMap || v.K == KArr {
			spots = append(spots, i)
		}
	}
	if len(spots) == 0 {
		return
	}
	at := spots[g.n(len(spots))]
	n := x.node.Vals[at]
	isMap := n.K == KMap
	how := ""
	var m *hj.Map
	var a *hj.Array
	var errs []error
	take := func(o interface{}) {
		switch c := o.(type) {
		case *hj.Map:
			m = c
		case hj.Map:
			m = &c
		case *hj.Array:
			a = c
		case hj.Array:
			a = &c
		}
	}
	fromValue := func(v *hj.Value) {
		if v == nil {
			t.Fail("lost", "after %s: the value holding a container is gone", h.log.show())
		}
		if g.chance(0.5) {
			h.keep(v, n, how)
		}
		switch g.n(3) {
		case 0:
			how += ".GetObject"
			take(v.GetObject())
		case 1:
			if isMap {
				how += ".GetMap"
				m, errs = v.GetMap()
			} else {
				how += ".GetArray"
				a, errs = v.GetArray()
			}
		default:
			if isMap {
				how += ".GetMapValue"
				c, e := v.GetMapValue()
				m, errs = &c, e
			} else {
				how += ".GetArrayValue"
				c, e := v.GetArrayValue()
				a, errs = &c, e
			}
		}
	}
	if x.m != nil {
		k := x.node.Keys[at]
		switch g.n(5) {
		case 0:
			if isMap {
				how = "GetMap"
				m, errs = x.m.GetMap(k)
			} else {
				how = "GetArray"
				a, errs = x.m.GetArray(k)
			}
		case 1:
			if isMap {
				how = "GetMapValue"
				c, e := x.m.GetMapValue(k)
				m, errs = &c, e
			} else {
				how = "GetArrayValue"
				c, e := x.m.GetArrayValue(k)
				a, errs = &c, e
			}
		case 2:
			how = "GetObjectForMap"
			take(x.m.GetObjectForMap(k))
		case 3:
			how = "Values"
			fromValue((*x.m.Values().GetValues())[at])
		default:
			how = "GetValue"
			fromValue(x.m.GetValue(k))
		}
	} else {
		if isMap && g.chance(0.4) {
			how = "Array.GetMap"
			m, errs = x.a.GetMap(at)
		} else {
			how = "GetValues"
			fromValue((*x.a.GetValues())[at])
		}
	}
	t.Event("fetch " + how)
	if len(errs) > 0 || m == nil && a == nil || (m != nil) != isMap {
		t.Fail("fetch", "after %s: %s of a container in (%s) failed: %s", h.log.show(), how, x.how, errsText(errs))
	}
	h.log.add("fetch %s of (%s)", how, x.how)
	h.add(handle{n, m, a, fmt.Sprintf("h%d %s", len(h.log), how)})
}

func (h *heap) fresh() {
	g := h.g
	if g.chance(0.5) {
		n := g.mapNode(&docOpts{budget: 4, maxDepth: 3}, 0)
		h.add(handle{n, g.builder().mapOf(n), nil, fmt.Sprintf("h%d new map", len(h.log))})
	} else {
		n := g.arrNode(&docOpts{budget: 4, maxDepth: 3}, 0)
		h.add(handle{n, nil, g.builder().arrayOf(n), fmt.Sprintf("h%d new array", len(h.log))})
	}
	h.log.add("new %s", clip(h.hs[len(h.hs)-1].node.String(), 80))
}

// copyHandle: the same container through a copy of the Go struct, or through a
// wrapping value.
func (h *heap) copyHandle(x handle) {
	g := h.g
	how := fmt.Sprintf("h%d copy of %s", len(h.log), strings.SplitN(x.how, " ", 2)[0])
	if x.m != nil {
		if g.chance(0.5) {
			c := *x.m
			h.add(handle{x.node, &c, nil, how})
		} else if m, e := hj.NewValue(x.m).GetMap(); len(e) == 0 && m != nil {
			h.add(handle{x.node, m, nil, how})
		}
		return
	}
	switch g.n(3) {
	case 0:
		c := *x.a
		h.add(handle{x.node, nil, &c, how})
	case 1:
		if a, e := hj.NewValue(x.a).GetArray(); len(e) == 0 && a != nil {
			h.add(handle{x.node, nil, a, how})
		}
	default:
		if a, e := x.a.GetArrayValue(); len(e) == 0 {
			h.add(handle{x.node, nil, &a, how})
		}
	}
}

func liveHistory(t *T, steps int) {
	g := newGen(t)
	h := &heap{t: t, g: g}
	switch g.n(3) {
	case 0:
		h.fresh()
		h.fresh()
	case 1:
		n := g.doc(6+g.n(16), false)
		h.add(handle{n, g.builder().mapOf(n), nil, "h0 built"})
		h.log.add("built %s", clip(n.String(), 200))
	default:
		text := g.jsonText(g.doc(6+g.n(16), false), textOpts{ws: g.n(2)})
		m, errs := hj.Parse(text)
		if m == nil || len(errs) > 0 {
			return // C01's business
		}
		h.add(handle{observeMap(m), m, nil, "h0 parsed"})
		h.log.add("parsed %s", clip(text, 200))
		h.fresh()
	}
	for i := 0; i < steps; i++ {
		x := h.hs[g.n(len(h.hs))]
		switch g.n(12) {
		case 0:
			h.fresh()
		case 1, 2, 3:
			h.fetch(x)
		case 4:
			h.copyHandle(x)
		case 5, 6, 7:
			h.attach(x, h.hs[g.n(len(h.hs))])
		default:
			h.scalarChange(x)
		}
		h.check()
	}
	t.Input(h.via > 0, strings.Join(h.log, ";"))
}

// deepLive: a chain of containers of every kind; a change at the bottom is seen
// from the top, and the detached part keeps what it had.
func deepLive(t *T, depth int) {
	g := newGen(t)
	h := &heap{t: t, g: g}
	root := handle{nMap(), hj.NewMap(), nil, "root"}
	h.hs = append(h.hs, root)
	cur := root
	var chain []handle
	for i := 0; i < depth; i++ {
		var c handle
		if g.chance(0.5) {
			c = handle{nMap(), hj.NewMap(), nil, fmt.Sprintf("map %d", i)}
		} else {
			c = handle{nArr(), nil, hj.NewArray(), fmt.Sprintf("array %d", i)}
		}
		h.attach(cur, c)
		chain = append(chain, c)
		cur = c
	}
	for i := 0; i < 6; i++ {
		h.hs = []handle{root, cur}
		h.scalarChange(cur)
		h.check()
		mid := chain[g.n(len(chain))]
		h.hs = []handle{root, mid, cur}
		h.scalarChange(mid)
		h.check()
	}
	t.Input(true, fmt.Sprintf("chain %d %s", depth, clip(root.node.String(), 200)))
}

// wideLive: a container among many siblings; every change through a handle is
// seen by the very next read from the top.
func wideLive(t *T, width int, levels int) {
	g := newGen(t)
	h := &heap{t: t, g: g}
	var root handle
	if g.chance(0.5) {
		root = handle{nMap(), hj.NewMap(), nil, "root"}
	} else {
		root = handle{nArr(), nil, hj.NewArray(), "root"}
	}
	h.hs = append(h.hs, root)
	filler := func(x handle, k int) {
		for i := 0; i < k; i++ {
			n := nInt("int64", int64(i))
			if x.m != nil {
				key := fmt.Sprintf("f%d-%d", len(x.node.Keys), i)
				x.m.SetInt64Value(key, int64(i))
				x.node.Keys = append(x.node.Keys, key)
			} else {
				x.a.AppendInt64Value(int64(i))
			}
			x.node.Vals = append(x.node.Vals, n)
		}
	}
	cur := root
	chain := []handle{root}
	for i := 0; i < levels; i++ {
		before := g.n(width + 1)
		filler(cur, before)
		var c handle
		if g.chance(0.5) {
			c = handle{nMap(), hj.NewMap(), nil, fmt.Sprintf("map %d", i)}
		} else {
			c = handle{nArr(), nil, hj.NewArray(), fmt.Sprintf("array %d", i)}
		}
		h.attach(cur, c)
		filler(cur, width-before)
		chain = append(chain, c)
		cur = c
	}
	filler(cur, g.n(4))
	h.hs = chain
	h.check()
	for i := 0; i < 6; i++ {
		x := chain[1+g.n(len(chain)-1)]
		h.scalarChange(x)
		h.check()
	}
	t.Input(true, fmt.Sprintf("wide %d levels %d", width, levels))
}

func liveCases(cfg *Config) []Case {
	a := batch(nil, "graph", cfg.n(18000, 90000), func(t *T) { liveHistory(t, 15+t.R.Intn(35)) })
	a = batch(a, "long", cfg.n(600, 3000), func(t *T) { liveHistory(t, 250) })
	var deep []Case
	ds := []int{1, 2, 3, 4, 5, 6, 7, 8, 10, 12, 16, 20, 32, 50, 64, 100, 128}
	ds = append(ds, cfg.Hot.Sizes(140)...)
	for _, d := range ds {
		if d == 0 {
			continue
		}
		d := d
		deep = append(deep, Case{Name: fmt.Sprintf("chain-%d", d), Fn: func(t *T) {
			for i := 0; i < 4; i++ {
				deepLive(t, d)
			}
		}})
	}
	for _, n := range histSizes(cfg, 1200) {
		n := n
		deep = append(deep, Case{Name: fmt.Sprintf("wide-%d", n), Fn: func(t *T) {
			wideLive(t, n, 1)
			if n < 150 {
				wideLive(t, n, 2)
				wideLive(t, n, 3)
			}
		}})
	}
	return interleave(deep, a)
}

// ---------------------------------------------------------------- C23

// goValue gives something to put in a Go collection, and what it should be.
func (g *Gen) goValue() (interface{}, *Node, *hj.Value) {
	n := g.value(&docOpts{budget: 4, maxDepth: 3, extra: true, anyBytes: true}, 0)
	b := g.builder()
	switch g.n(5) {
	case 0:
		v := b.valueOf(n)
		return v, n, v
	case 1:
		return *b.valueOf(n), n, nil
	case 2:
		return b.object(n, true), n, nil
	default:
		return b.object(n, false), n, nil
	}
}

func sameKeys(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	s := map[string]int{}
	for _, k := range a {
		s[k]++
	}
	for _, k := range b {
		s[k]--
		if s[k] < 0 {
			return false
		}
	}
	return true
}

func fromGoMap(t *T, size int) {
	g := newGen(t)
	src := map[string]interface{}{}
	want := map[string]*Node{}
	adopted := map[string]*hj.Value{}
	var lastV interface{}
	var lastN *Node
	var lastW *hj.Value
	for i := 0; i < size; i++ {
		k := g.str()
		if g.chance(0.5) || size > 30 {
			k = fmt.Sprint("k", i)
		}
		v, n, w := g.goValue()
		if i > 0 && g.n(6) == 0 {
			v, n, w = lastV, lastN, lastW
			t.Event("a Go value given twice")
		}
		lastV, lastN, lastW = v, n, w
		src[k], want[k] = v, n
		delete(adopted, k)
		if w != nil {
			adopted[k] = w
		}
	}
	m := hj.NewMapOfValues(&src)
	var log histLog
	log.add("NewMapOfValues of %d entries", len(src))
	if m == nil {
		t.Fail("nil", "NewMapOfValues gives nil")
	}
	keys := m.GetKeys()
	var wk []string
	for k := range want {
		wk = append(wk, k)
	}
	if !sameKeys(keys, wk) {
		t.Fail("keys", "NewMapOfValues of keys %s gives %s", clip(fmt.Sprintf("%q", wk), 300), clip(fmt.Sprintf("%q", keys), 300))
	}
	model := nMap()
	for _, k := range keys {
		model.Keys = append(model.Keys, k)
		model.Vals = append(model.Vals, want[k])
	}
	t.Input(len(src) > 1, model.String())
	probes := []string{"", "absent", "k0"}
	mapViews(t, g, m, model, probes, true, log.show)
	t.Event("map from a Go map")
	for k, v := range src {
		samePointer(t, v, m.GetObjectForMap(k), k)
	}
	for k, w := range adopted {
		if m.GetValue(k) != w && g.chance(1) {
			// adopted: a change of the wrapped value is a change of the entry
			t.Fail("adopted", "the wrapped value of key %q was not adopted", clip(k, 100))
		}
		if g.chance(0.3) {
			n := g.scalar(&docOpts{})
			g.builder().setValue(w, n)
			for k2, w2 := range adopted {
				if w2 == w {
					model.Vals[model.find(k2)] = n
				}
			}
			t.Event("adopted value changed")
		}
	}
	// the Go map changes
	for k := range src {
		switch g.n(4) {
		case 0:
			delete(src, k)
		case 1:
			src[k] = "changed"
		}
	}
	src["added"] = 1
	src[""] = "added"
	log.add("Go map changed")
	mapViews(t, g, m, model, append(probes, "added"), true, log.show)
	// and the other way round
	before := fmt.Sprint(len(src))
	m.SetStringValue("later", "x")
	model.set("later", nStr("x"))
	if _, is := src["later"]; is || fmt.Sprint(len(src)) != before {
		t.Fail("written back", "setting a key changed the Go map")
	}
	b := g.builder()
	for i := 0; i < 14; i++ {
		pool := append([]string{"later", "x", "y"}, model.Keys...)
		k := pool[g.n(len(pool))]
		at := model.find(k)
		if g.chance(0.4) {
			log.add("remove %q", k)
			mustRemove(t, m, k, at >= 0, log.show)
			if at >= 0 {
				model.remove(at)
			}
		} else {
			n := g.scalar(&docOpts{extra: true})
			log.add("set %q", k)
			b.setMap(m, k, n)
			model.set(k, n)
		}
		if size < 40 || i%5 == 0 {
			mapViews(t, g, m, model, probes, false, log.show)
		}
	}
	mapViews(t, g, m, model, probes, false, log.show)
	cloneLike(t, m, model)
}

// samePointer: a pointer that a map entry would hold as it is, is held as it is.
func samePointer(t *T, given, held interface{}, where string) {
	v := reflect.ValueOf(given)
	if v.Kind() != reflect.Ptr || v.IsNil() {
		return
	}
	if _, is := given.(*hj.Value); is {
		return
	}
	m := hj.NewMap()
	m.SetObjectForMap("k", given)
	if m.GetObjectForMap("k") == given && held != given {
		t.Fail("other pointer", "the %T given for %s is held as another %T", given, clip(where, 100), held)
	}
	t.Event("pointer held as given")
}

// cloneLike: documents built from Go collections clone like any other.
func cloneLike(t *T, m *hj.Map, model *Node) {
	c, errs := m.Clone()
	if c == nil || len(errs) > 0 {
		t.Fail("clone", "clone failed: %s", errsText(errs))
	}
	if d := diff(model, observeMap(c), true); d != "" {
		t.Fail("clone", "clone differs: %s", d)
	}
}

func fromGoSlice(t *T, size int) {
	g := newGen(t)
	spare := g.n(3)
	src := make([]interface{}, 0, size+spare) // room to append in place
	model := nArr()
	var adopted []*hj.Value
	for i := 0; i < size; i++ {
		v, n, w := g.goValue()
		if i > 0 && g.n(6) == 0 { // the same Go value again, mostly next to itself
			at := i - 1
			if g.n(3) == 0 {
				at = g.n(i)
			}
			v, n, w = src[at], model.Vals[at], adopted[at]
			t.Event("a Go value given twice")
		}
		src = append(src, v)
		model.Vals = append(model.Vals, n)
		adopted = append(adopted, w)
	}
	a := hj.NewArrayOfValues(&src)
	var log histLog
	log.add("NewArrayOfValues of %d elements", size)
	if a == nil {
		t.Fail("nil", "NewArrayOfValues gives nil")
	}
	t.Input(size > 1, model.String())
	arrayViews(t, g, a, model, true, log.show)
	t.Event("array from a Go slice")
	for i, v := range src {
		if c := (*a.GetValues())[i]; c != nil {
			samePointer(t, v, c.GetObject(), fmt.Sprint(i))
		}
	}
	for i, w := range adopted {
		if w == nil {
			continue
		}
		if (*a.GetValues())[i] != w {
			t.Fail("adopted", "the wrapped value at %d was not adopted", i)
		}
		if g.chance(0.3) {
			n := g.scalar(&docOpts{})
			g.builder().setValue(w, n)
			for j := range adopted {
				if adopted[j] == w {
					model.Vals[j] = n
				}
			}
			t.Event("adopted value changed")
		}
	}
	for i := range src {
		if g.chance(0.5) {
			src[i] = "changed"
		}
	}
	src = append(src, "added")
	if len(src) > 2 && g.chance(0.5) {
		src = src[1:]
	}
	log.add("Go slice changed")
	arrayViews(t, g, a, model, true, log.show)
	b := g.builder()
	for i := 0; i < 14; i++ {
		n := len(model.Vals)
		x := g.scalar(&docOpts{extra: true})
		switch c := g.n(3); {
		case c == 0 && n > 0:
			at := g.n(n)
			log.add("remove %d", at)
			goodIndexOp(t, a, at, false, nil, log.show)
			model.remove(at)
		case c == 1 && n > 0:
			at := g.n(n)
			log.add("set %d", at)
			goodIndexOp(t, a, at, true, b.valueOf(x), log.show)
			model.Vals[at] = x
		default:
			log.add("append")
			b.appendArray(a, x)
			model.Vals = append(model.Vals, x)
		}
		if size < 40 || i%5 == 0 {
			arrayViews(t, g, a, model, false, log.show)
		}
	}
	m, root := hj.NewMap(), nMap()
	m.SetArray("a", a)
	root.set("a", model)
	mapViews(t, g, m, root, nil, false, log.show)
	cloneLike(t, m, root)
}

func fromGoEmpty(t *T) {
	g := newGen(t)
	var nilMap map[string]interface{}
	empty := map[string]interface{}{}
	for i, src := range []*map[string]interface{}{nil, &nilMap, &empty} {
		m := hj.NewMapOfValues(src)
		if m == nil {
			t.Fail("nil", "NewMapOfValues of an empty collection gives nil")
		}
		model := nMap()
		hist := func() string { return fmt.Sprintf("empty Go map %d", i) }
		mapViews(t, g, m, model, []string{"", "a"}, true, hist)
		mustRemove(t, m, "a", false, hist)
		for j := 0; j < 8; j++ {
			n := g.scalar(&docOpts{extra: true})
			k := fmt.Sprint("k", g.n(4))
			g.builder().setMap(m, k, n)
			model.set(k, n)
			mapViews(t, g, m, model, []string{"", "a"}, true, hist)
		}
		t.Input(false, fmt.Sprint("empty map ", i))
	}
	var nilSlice []interface{}
	none := []interface{}{}
	roomy := make([]interface{}, 0, 8)
	for i, src := range []*[]interface{}{nil, &nilSlice, &none, &roomy} {
		a := hj.NewArrayOfValues(src)
		if a == nil {
			t.Fail("nil", "NewArrayOfValues of an empty collection gives nil")
		}
		model := nArr()
		hist := func() string { return fmt.Sprintf("empty Go slice %d", i) }
		arrayViews(t, g, a, model, true, hist)
		badIndexOp(t, a, 0, true, hj.NewValue(1), hist)
		badIndexOp(t, a, 0, false, nil, hist)
		for j := 0; j < 8; j++ {
			n := g.scalar(&docOpts{extra: true})
			g.builder().appendArray(a, n)
			model.Vals = append(model.Vals, n)
			arrayViews(t, g, a, model, true, hist)
		}
		t.Input(false, fmt.Sprint("empty slice ", i))
	}
}

// fromGoNulls: nil pointers and nil wrapped values are null entries.
func fromGoNulls(t *T) {
	g := newGen(t)
	var list []interface{}
	src := map[string]interface{}{}
	for _, f := range []interface{}{nil, (*string)(nil), (*bool)(nil), (*int)(nil), (*uint8)(nil), (*float64)(nil), (*hj.Map)(nil), (*hj.Array)(nil), hj.NewValue(nil), hj.NewValueValue(nil), hj.NewValue((*string)(nil)), (*hj.Value)(nil)} {
		src[fmt.Sprintf("%T%d", f, len(list))] = f
		list = append(list, f)
	}
	m := hj.NewMapOfValues(&src)
	model := nMap()
	for _, k := range m.GetKeys() {
		model.set(k, nNull())
	}
	if len(model.Keys) != len(src) {
		t.Fail("keys", "NewMapOfValues drops null entries: %q", model.Keys)
	}
	mapViews(t, g, m, model, nil, true, func() string { return "nulls in a Go map" })
	a := hj.NewArrayOfValues(&list)
	am := nArr()
	for range list {
		am.Vals = append(am.Vals, nNull())
	}
	arrayViews(t, g, a, am, true, func() string { return "nulls in a Go slice" })
	t.Input(true, "nulls")
}

// fromGoTwice: two documents from one collection do not share entries.
func fromGoTwice(t *T) {
	g := newGen(t)
	b := g.builder()
	src := map[string]interface{}{}
	var list []interface{}
	want := map[string]*Node{}
	lm := nArr()
	for i := 0; i < 2+g.n(6); i++ {
		n := g.scalar(&docOpts{extra: true})
		k := fmt.Sprint("k", i)
		src[k], want[k] = b.object(n, false), n
		list = append(list, b.object(n, g.chance(0.3)))
		lm.Vals = append(lm.Vals, n)
	}
	t.Input(true, lm.String())
	m1, m2 := hj.NewMapOfValues(&src), hj.NewMapOfValues(&src)
	a1, a2 := hj.NewArrayOfValues(&list), hj.NewArrayOfValues(&list)
	model2 := nMap()
	for _, k := range m2.GetKeys() {
		model2.set(k, want[k])
	}
	for _, k := range m1.GetKeys() {
		if g.chance(0.5) {
			b.setValue(m1.GetValue(k), nStr("other"))
		} else {
			m1.RemoveKey(k)
		}
	}
	mapViews(t, g, m2, model2, nil, true, func() string { return "changing a sibling built from the same Go map" })
	for _, v := range *a1.GetValues() {
		b.setValue(v, nStr("other"))
	}
	for a1.Len() > 0 {
		a1.RemoveValueAtIndex(0)
	}
	arrayViews(t, g, a2, lm, true, func() string { return "changing a sibling built from the same Go slice" })
}

func fromGoCases(cfg *Config) []Case {
	res := []Case{{Name: "empty", Fn: fromGoEmpty}, {Name: "nulls", Fn: fromGoNulls}}
	for _, n := range histSizes(cfg, 4000) {
		n := n
		res = append(res, Case{Name: fmt.Sprintf("map-%d", n), Fn: func(t *T) { fromGoMap(t, n) }},
			Case{Name: fmt.Sprintf("slice-%d", n), Fn: func(t *T) { fromGoSlice(t, n) }})
	}
	a := batch(nil, "map", cfg.n(8000, 16000), func(t *T) { fromGoMap(t, t.R.Intn(9)) })
	a = batch(a, "slice", cfg.n(8000, 16000), func(t *T) { fromGoSlice(t, t.R.Intn(9)) })
	a = batch(a, "twice", cfg.n(400, 2000), fromGoTwice)
	return interleave(res, a)
}

// textable: the content has a JSON text an independent parser reads back.
func textable(n *Node) bool { return finiteNode(n) && !hasInvalidUTF8(n) }
