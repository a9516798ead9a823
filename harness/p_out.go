package main

// C06, C07, C19, C20: serialising and rendering.

import (
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math"
	"math/big"
	"net/url"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"time"

	hj "github.com/matehaxor03/holistic_json/json"
)

const timeForm = "2006-01-02 15:04:05.000000"

// jsonView is what a document's JSON text must say: times and errors are text.
func jsonView(n *Node) *Node {
	switch n.K {
	case KTime:
		return nStr(n.T.Format(timeForm))
	case KErr:
		return nStr(n.S)
	case KErrs, KStrs:
		a := nArr()
		for _, s := range n.L {
			a.Vals = append(a.Vals, nStr(s))
		}
		return a
	case KMap, KArr:
		c := &Node{K: n.K, Keys: n.Keys}
		for _, v := range n.Vals {
			c.Vals = append(c.Vals, jsonView(v))
		}
		return c
	}
	return n
}

// textDiff reads the serialised text token by token with encoding/json and
// compares it with the content it must have. Floats must read back equal.
func textDiff(want *Node, text string) string {
	if !json.Valid([]byte(text)) {
		return "not valid JSON"
	}
	dec := json.NewDecoder(strings.NewReader(text))
	dec.UseNumber()
	if d := tokDiff("$", want, dec); d != "" {
		return d
	}
	if _, err := dec.Token(); err != io.EOF {
		return "content after the value"
	}
	return ""
}

func tokDiff(path string, want *Node, dec *json.Decoder) string {
	tok, err := dec.Token()
	if err != nil {
		return "at " + path + ": " + err.Error()
	}
	bad := func() string {
		return fmt.Sprintf("at %s: expected %s, text says %v (%T)", clip(path, 200), clip(want.String(), 200), clip(fmt.Sprintf("%q", fmt.Sprint(tok)), 200), tok)
	}
	switch want.K {
	case KNull:
		if tok != nil {
			return bad()
		}
	case KBool:
		if b, ok := tok.(bool); !ok || b != want.B {
			return bad()
		}
	case KStr:
		if s, ok := tok.(string); !ok || s != want.S {
			return bad()
		}
	case KInt:
		x, ok := tok.(json.Number)
		if !ok || !intLit.MatchString(string(x)) {
			return bad()
		}
		v, _ := new(big.Int).SetString(string(x), 10)
		if v.Cmp(want.I) != 0 {
			return bad()
		}
	case KF32:
		x, ok := tok.(json.Number)
		if !ok {
			return bad()
		}
		f, err := strconv.ParseFloat(string(x), 32)
		if err != nil || f != want.F {
			return bad()
		}
	case KF64:
		x, ok := tok.(json.Number)
		if !ok {
			return bad()
		}
		f, err := strconv.ParseFloat(string(x), 64)
		if err != nil || f != want.F {
			return bad()
		}
	case KMap:
		if tok != json.Delim('{') {
			return bad()
		}
		for i, k := range want.Keys {
			if !dec.More() {
				return fmt.Sprintf("at %s: text ends the object before key %q", clip(path, 200), clip(k, 100))
			}
			kt, err := dec.Token()
			if err != nil || kt != k {
				return fmt.Sprintf("at %s: key %d expected %q, text says %q", clip(path, 200), i, clip(k, 200), clip(fmt.Sprint(kt), 200))
			}
			if d := tokDiff(path+"."+strconv.Quote(k), want.Vals[i], dec); d != "" {
				return d
			}
		}
		if dec.More() {
			return "at " + clip(path, 200) + ": text has more keys than the document"
		}
		dec.Token()
	case KArr:
		if tok != json.Delim('[') {
			return bad()
		}
		for i, v := range want.Vals {
			if !dec.More() {
				return fmt.Sprintf("at %s: text has %d elements, expected %d", clip(path, 200), i, len(want.Vals))
			}
			if d := tokDiff(fmt.Sprintf("%s[%d]", path, i), v, dec); d != "" {
				return d
			}
		}
		if dec.More() {
			return "at " + clip(path, 200) + ": text has more elements than the document"
		}
		dec.Token()
	default:
		panic("no view for " + string(want.K))
	}
	return ""
}

// serialise appends to a builder that already holds text.
func serialise(t *T, prefix string, to func(b *strings.Builder) []error) string {
	var b strings.Builder
	b.WriteString(prefix)
	if errs := to(&b); len(errs) > 0 {
		t.Fail("error", "serialising a supported document failed: %s", errsText(errs))
	}
	if !strings.HasPrefix(b.String(), prefix) {
		t.Fail("prefix", "text already in the builder was changed: had %q, has %q", prefix, clip(b.String(), 300))
	}
	return b.String()[len(prefix):]
}

func finiteNode(n *Node) bool {
	if (n.K == KF32 || n.K == KF64) && (math.IsNaN(n.F) || math.IsInf(n.F, 0)) {
		return false
	}
	for _, v := range n.Vals {
		if !finiteNode(v) {
			return false
		}
	}
	return true
}

func init() {
	properties["C06"] = &Property{
		Rule:        "documents built through randomly chosen setters (by value, by pointer, wrapped), or parsed, with every supported kind, then serialised as map, array and value; the text is tokenised by encoding/json and compared; non-trivial when the document has more than two values",
		Assumptions: []string{"keys and strings are valid UTF-8", "encoding/json and strconv are the reference readers"},
		Cases:       serialiseCases,
	}
	properties["C07"] = &Property{
		Rule:  "a document is serialised, parsed, compared, and serialised again, three times over, the parsed document being the next original; non-trivial when the document has more than two values",
		Cases: roundTripCases,
	}
	properties["C19"] = &Property{
		Rule:        "each Go value of a supported kind is rendered bare, by pointer, wrapped in a Value and in a *Value, in the plain and the JSON form, and compared with an independent rendering; non-trivial when the value is not a zero value",
		Assumptions: []string{"the plain rendering of a wrapped null is not specified"},
		Cases:       renderCases,
	}
	properties["C20"] = &Property{
		Rule:  "a supported document with one unsupported Go value (or NaN or infinity) placed at a random place and depth must be reported by serialise and clone, its twin without it must not; non-trivial when the place is below the root or behind other values",
		Cases: unsupportedCases,
	}
}

// ---------------------------------------------------------------- C06

func checkSerialise(t *T, g *Gen, n *Node) {
	b := g.builder()
	if g.chance(0.2) && n.count() < 400 {
		b.withShared(g, n)
	}
	view := jsonView(n)
	desc := n.String()
	t.Input(n.count() > 2, clip(desc, 400))
	prefix := ""
	if g.chance(0.5) {
		prefix = g.str()
	}
	routes := []string{}
	run := func(route string, to func(sb *strings.Builder) []error) {
		routes = append(routes, route)
		t.Event("serialised:" + route)
		text := serialise(t, prefix, to)
		if d := textDiff(view, text); d != "" {
			t.Fail("content", "%s (%s)\ndocument %s\ntext %q", d, route, clip(desc, 1500), clip(text, 1500))
		}
	}
	if n.K == KMap {
		m := b.mapOf(n)
		run("map", m.ToJSONString)
		switch g.n(4) {
		case 0:
			run("map in renderer", func(sb *strings.Builder) []error { return hj.ConvertInterfaceValueToJSONStringValue(sb, m) })
		case 1:
			run("map value in renderer", func(sb *strings.Builder) []error { return hj.ConvertInterfaceValueToJSONStringValue(sb, *m) })
		case 2:
			run("wrapped map", func(sb *strings.Builder) []error {
				return hj.ConvertInterfaceValueToJSONStringValue(sb, hj.NewValue(m))
			})
		default:
			run("map again", m.ToJSONString)
		}
	} else {
		a := b.arrayOf(n)
		run("array", a.ToJSONString)
		if g.chance(0.5) {
			run("array in renderer", func(sb *strings.Builder) []error { return hj.ConvertInterfaceValueToJSONStringValue(sb, a) })
		}
	}
}

func serialiseCases(cfg *Config) []Case {
	a := batch(nil, "built", cfg.n(2800, 12000), func(t *T) {
		g := newGen(t)
		for i := 0; i < 20; i++ {
			n := g.doc(5+g.n(25), true)
			checkSerialise(t, g, n)
			checkSerialise(t, g, g.arrNode(&docOpts{budget: 4 + g.n(12), maxDepth: 4, extra: true}, 0))
		}
	})
	a = batch(a, "parsed", cfg.n(600, 2500), func(t *T) {
		g := newGen(t)
		for i := 0; i < 10; i++ {
			text := g.jsonText(g.doc(5+g.n(20), false), textOpts{ws: g.n(2), esc: g.n(2), numForm: g.n(2) == 0})
			want, err := oracleParse(text)
			if err != nil {
				continue
			}
			m, errs := hj.Parse(text)
			if m == nil || len(errs) > 0 {
				continue // C01's business
			}
			t.Input(want.count() > 2, clip(text, 400))
			t.Event("serialised:parsed")
			out := serialise(t, "", m.ToJSONString)
			// the document is what the accessors say it is
			if d := textDiff(jsonView(observeMap(m)), out); d != "" {
				t.Fail("content", "%s\nparsed from %q\ntext %q", d, clip(text, 1500), clip(out, 1500))
			}
		}
	})
	a = batch(a, "strings", cfg.n(1000, 4000), func(t *T) {
		g := newGen(t)
		for i := 0; i < 12; i++ {
			s, s2 := g.str(), g.str()
			n := nMap()
			n.set(s, nStr(s2))
			n.set(s2, nArr(nStr(s), nErr(s2), &Node{K: KErrs, L: []string{s, s2}}, nArr(nStr(s))))
			n.set(s+s2, nErr(s))
			checkSerialise(t, g, n)
		}
	})
	// every byte and rune class on its own and in company
	var bytesCases []Case
	for lo := 0; lo < 0x300; lo += 16 {
		lo := lo
		bytesCases = append(bytesCases, Case{Name: fmt.Sprintf("runes-%x", lo), Fn: func(t *T) {
			g := newGen(t)
			for r := lo; r < lo+16; r++ {
				for _, s := range []string{string(rune(r)), "a" + string(rune(r)) + "b", string(rune(r)) + string(rune(r)), "\\" + string(rune(r)), string(rune(r)) + "\"", string(rune(r)) + "n"} {
					n := nMap()
					n.set(s, nStr(s))
					checkSerialise(t, g, n)
				}
			}
		}})
	}
	nums := batch(nil, "numbers", cfg.n(800, 4000), func(t *T) {
		g := newGen(t)
		n := nMap()
		arr := nArr()
		for i := 0; i < 60; i++ {
			var x *Node
			switch g.n(4) {
			case 0:
				x = nF32(g.f32())
			case 1, 2:
				x = nF64(g.f64())
			default:
				x = g.intNode()
			}
			n.set(fmt.Sprint(i), x)
			arr.Vals = append(arr.Vals, x)
		}
		n.set("arr", arr)
		checkSerialise(t, g, n)
	})
	// each kind more than a hundred thousand times, the text checked in full
	var lots []Case
	for i := 0; i < 8; i++ {
		i := i
		lots = append(lots, Case{Name: fmt.Sprint("lots-", i), Fn: func(t *T) {
			g := newGen(t)
			ns := []*Node{nNull(), nBool(true), nBool(false), nStr(""), nStr("a\"b"), nF32(1.5), nF64(0.1), nTime(g.time()), nErr("x"), {K: KErrs, L: []string{"a"}}, {K: KStrs, L: []string{"a", "b"}}, nMap(), nArr()}
			for _, ty := range intTypes {
				ns = append(ns, nInt(ty, 3))
			}
			for j, n := range ns {
				if j%8 != i {
					continue
				}
				for _, ptr := range []bool{false, true} {
					if j%2 == 0 == ptr && !t.cfg.thorough() {
						continue
					}
					cell := hj.NewValue(g.builder().object(n, ptr))
					var sb strings.Builder
					if errs := hj.ConvertInterfaceValueToJSONStringValue(&sb, cell); len(errs) > 0 {
						t.Fail("error", "%s: %s", n, errsText(errs))
					}
					one := sb.String()
					if d := textDiff(jsonView(n), one); d != "" {
						t.Fail("content", "%s: %s", d, one)
					}
					const many = 105000
					a := hj.NewArray()
					for k := 0; k < many; k++ {
						a.AppendValue(cell)
					}
					t.Input(true, "lots of "+n.String())
					text, errs := arrayJSON(a)
					if len(errs) > 0 {
						t.Fail("error", "an array of %d times %s: %s", many, n, errsText(errs))
					}
					if text != "["+strings.Repeat(one+",", many-1)+one+"]" {
						t.Fail("content", "an array of %d times %s is not that many times %s", many, n, one)
					}
					t.Event("lots")
				}
			}
			if s := serialise(t, "", g.builder().mapOf(nMap()).ToJSONString); s != "{}" {
				t.Fail("content", "empty map after many serialisations: %q", s)
			}
		}})
	}
	// key sets with a pattern: all numbers, all one letter, in some order
	a = batch(a, "key sets", cfg.n(240, 1000), func(t *T) {
		g := newGen(t)
		n := nMap()
		style, size := g.n(7), 2+[]int{0, 2, 6, 8, 12, 30, 70}[g.n(7)]
		for k := 0; k < size; k++ {
			x := g.n(3 * size)
			var key string
			switch style {
			case 0:
				key = fmt.Sprint(x)
			case 1:
				key = fmt.Sprintf("%04d", x)
			case 2:
				key = fmt.Sprint(-x)
			case 3:
				key = fmt.Sprintf("key%d", x)
			case 4:
				key = strings.Repeat("a", x)
			case 5:
				key = string(rune('A' + x))
			default:
				key = fmt.Sprintf("%x", x*7)
			}
			n.set(key, g.scalar(&docOpts{extra: true}))
		}
		checkSerialise(t, g, n)
		w := nMap()
		w.set("in", n)
		checkSerialise(t, g, w)
	})
	a = interleave(a, lots)
	sw := sweepCases(cfg, nil, "sweep", func(t *T, g *Gen, n *Node) { checkSerialise(t, g, n) })
	return interleave(interleave(a, nums), interleave(sw, bytesCases))
}

// ---------------------------------------------------------------- C07

func roundTrip(t *T, g *Gen, n *Node, rounds int) {
	b := g.builder()
	if g.chance(0.2) && n.count() < 400 {
		b.withShared(g, n)
	}
	desc := n.String()
	t.Input(n.count() > 2, clip(desc, 400))
	cur := b.mapOf(n)
	want := jsonView(n)
	var last string
	for r := 0; r < rounds; r++ {
		text := serialise(t, "", cur.ToJSONString)
		if r > 0 && text != last {
			t.Fail("fixpoint", "serialising the parsed document gives another text\ndocument %s\nfirst  %q\nsecond %q", clip(desc, 1000), clip(last, 1500), clip(text, 1500))
		}
		last = text
		m, errs := hj.Parse(text)
		if m == nil || len(errs) > 0 {
			t.Fail("unreadable", "Parse rejects what ToJSONString wrote: %s\ndocument %s\ntext %q", errsText(errs), clip(desc, 1000), clip(text, 1500))
		}
		if d := contentDiff(want, observeMap(m)); d != "" {
			t.Fail("changed", "round trip changed the document %s\ndocument %s\ntext %q", d, clip(desc, 1000), clip(text, 1500))
		}
		t.Event("round trips")
		cur = m
	}
}

func roundTripCases(cfg *Config) []Case {
	a := batch(nil, "doc", cfg.n(600, 11000), func(t *T) {
		g := newGen(t)
		for i := 0; i < 10; i++ {
			roundTrip(t, g, g.doc(5+g.n(22), i%3 == 0), 2)
		}
	})
	a = batch(a, "bytes", cfg.n(80, 1500), func(t *T) {
		g := newGen(t)
		for i := 0; i < 8; i++ {
			o := &docOpts{budget: 10, maxDepth: 4, anyBytes: true}
			n := g.mapNode(o, 0)
			roundTrip(t, g, n, 2)
		}
	})
	b := batch(nil, "strings", cfg.n(220, 4000), func(t *T) {
		g := newGen(t)
		for i := 0; i < 10; i++ {
			s, s2 := g.str(), g.str()
			n := nMap()
			n.set(s, nStr(s2))
			n.set(s2, nArr(nStr(s), nArr(nStr(s2)), nMap()))
			in := nMap()
			in.set(s2+s, nStr(s))
			n.set(s+s2, in)
			roundTrip(t, g, n, 2)
		}
	})
	b = batch(b, "numbers", cfg.n(220, 4000), func(t *T) {
		g := newGen(t)
		n, arr := nMap(), nArr()
		for i := 0; i < 25; i++ {
			x := nF64(g.f64())
			switch g.n(3) {
			case 0:
				x = nF32(g.f32())
			case 1:
				x = g.intNode()
			}
			n.set(fmt.Sprint(i), x)
			arr.Vals = append(arr.Vals, x)
		}
		n.set("arr", arr)
		roundTrip(t, g, n, 2)
	})
	sw := sweepCases(cfg, nil, "sweep", func(t *T, g *Gen, n *Node) { roundTrip(t, g, n, 2) })
	return interleave(sw, interleave(a, b))
}

// ---------------------------------------------------------------- C19

type forms struct {
	name string
	v    interface{}
}

// formsOf gives the value bare, by pointer, wrapped.
func formsOf(n *Node) []forms {
	b := &builder{pick: func(int) int { return 0 }}
	bare, ptr := b.object(n, false), b.object(n, true)
	res := []forms{{"bare", bare}, {"pointer", ptr}}
	if n.K == KNull {
		return []forms{{"nil", nil}, {"nil *string", (*string)(nil)}, {"nil *int", (*int)(nil)}, {"nil *float64", (*float64)(nil)}, {"nil *bool", (*bool)(nil)}, {"nil *time", (*time.Time)(nil)}, {"nil *Map", (*hj.Map)(nil)}, {"nil *Array", (*hj.Array)(nil)}, {"nil *Value", (*hj.Value)(nil)}}
	}
	for _, f := range append([]forms{}, res...) {
		res = append(res, forms{"Value of " + f.name, hj.NewValueValue(f.v)}, forms{"*Value of " + f.name, hj.NewValue(f.v)})
	}
	return res
}

func plainOK(n *Node, s string) bool {
	switch n.K {
	case KNull:
		return s == "null"
	case KBool:
		return s == strconv.FormatBool(n.B)
	case KStr, KErr:
		return s == n.S
	case KInt:
		return s == n.I.String()
	case KTime:
		return s == n.T.Format(timeForm)
	case KF64:
		f, err := strconv.ParseFloat(s, 64)
		return (err == nil && f == n.F && !strings.ContainsAny(s, "xXpP")) || (math.IsNaN(n.F) && err == nil && math.IsNaN(f))
	case KF32:
		f, err := strconv.ParseFloat(s, 32)
		return (err == nil && f == n.F && !strings.ContainsAny(s, "xXpP")) || (math.IsNaN(n.F) && err == nil && math.IsNaN(f))
	}
	return false
}

func checkRender(t *T, n *Node) {
	t.Input(n.K != KNull && !(n.K == KStr && n.S == "") && !(n.K == KInt && n.I.Sign() == 0), clip(n.String(), 300))
	finite := finiteNode(n)
	first, plain := "", ""
	for i, f := range formsOf(n) {
		t.Event("rendered:" + string(n.K))
		var b strings.Builder
		b.WriteString("<")
		errs := hj.ConvertInterfaceValueToJSONStringValue(&b, f.v)
		if finite {
			if len(errs) > 0 {
				t.Fail("json error", "JSON rendering of %s (%s) failed: %s", clip(n.String(), 300), f.name, errsText(errs))
			}
			out := b.String()
			if !strings.HasPrefix(out, "<") {
				t.Fail("prefix", "text in the builder was changed: %q", clip(out, 300))
			}
			if d := textDiff(jsonView(n), out[1:]); d != "" {
				t.Fail("json", "JSON rendering of %s (%s) is %q: %s", clip(n.String(), 300), f.name, clip(out[1:], 300), d)
			}
			if i == 0 {
				first = out
			} else if out != first {
				t.Fail("json differs", "JSON renderings of %s differ: %q and (%s) %q", clip(n.String(), 300), clip(first, 300), f.name, clip(out, 300))
			}
		}
		if n.K == KErrs || n.K == KStrs || n.K == KMap || n.K == KArr {
			continue
		}
		s, errs := hj.ConvertInterfaceValueToStringValue(f.v)
		if len(errs) > 0 {
			t.Fail("plain error", "plain rendering of %s (%s) failed: %s", clip(n.String(), 300), f.name, errsText(errs))
		}
		if !plainOK(n, s) {
			t.Fail("plain", "plain rendering of %s (%s) is %q", clip(n.String(), 300), f.name, clip(s, 300))
		}
		if i == 0 {
			plain = s
		} else if s != plain {
			t.Fail("plain differs", "plain renderings of %s differ: %q and (%s) %q", clip(n.String(), 300), clip(plain, 300), f.name, clip(s, 300))
		}
		t.Event("plain:" + string(n.K))
	}
}

func renderCases(cfg *Config) []Case {
	a := batch(nil, "random", cfg.n(2000, 8000), func(t *T) {
		g := newGen(t)
		o := &docOpts{extra: true}
		for i := 0; i < 50; i++ {
			n := g.scalar(o)
			switch g.n(6) {
			case 0:
				l := []string{}
				for k := g.n(6); k > 0; k-- {
					l = append(l, g.str())
				}
				n = &Node{K: []Kind{KErrs, KStrs}[g.n(2)], L: l}
			case 1:
				n = nErr(g.str())
			}
			checkRender(t, n)
		}
	})
	var b []Case
	for _, ty := range intTypes {
		ty := ty
		b = append(b, Case{Name: "ints-" + ty, Fn: func(t *T) {
			one := big.NewInt(1)
			for k := uint(0); k <= 64; k++ {
				for d := int64(-2); d <= 2; d++ {
					v := new(big.Int).Lsh(one, k)
					v.Add(v, big.NewInt(d))
					for s := 0; s < 2; s++ {
						if fits(v, ty) {
							checkRender(t, &Node{K: KInt, Ty: ty, I: new(big.Int).Set(v)})
						}
						v.Neg(v)
					}
				}
			}
			for i := int64(-130); i < 1100; i++ {
				if fits(big.NewInt(i), ty) {
					checkRender(t, &Node{K: KInt, Ty: ty, I: big.NewInt(i)})
				}
			}
			for _, h := range cfg.Hot.Ints {
				if fits(big.NewInt(h), ty) {
					checkRender(t, &Node{K: KInt, Ty: ty, I: big.NewInt(h)})
				}
			}
		}})
	}
	b = append(b, Case{Name: "fixed", Fn: func(t *T) {
		checkRender(t, nNull())
		checkRender(t, nBool(true))
		checkRender(t, nBool(false))
		for _, w := range wordStrings {
			checkRender(t, nStr(validUTF8(w)))
			checkRender(t, nErr(validUTF8(w)))
		}
		for _, w := range cfg.Hot.Strings {
			checkRender(t, nStr(validUTF8(w)))
			checkRender(t, nErr(validUTF8(w)))
			checkRender(t, nStr("x"+validUTF8(w)+"y"))
		}
		for _, f := range []float64{math.NaN(), math.Inf(1), math.Inf(-1)} {
			checkRender(t, nF64(f))
			checkRender(t, nF32(float32(f)))
		}
	}})
	b = batch(b, "sizes", cfg.n(80, 200), func(t *T) {
		g := newGen(t)
		for _, s := range append(append([]int{}, sizePool...), cfg.Hot.Sizes(100000)...) {
			checkRender(t, nStr(g.fill(s)))
			if s < 3000 {
				l := []string{}
				for i := 0; i < s; i++ {
					l = append(l, fmt.Sprint(i))
				}
				if s < 300 || g.chance(0.2) {
					checkRender(t, &Node{K: KErrs, L: l})
					checkRender(t, &Node{K: KStrs, L: l})
				}
			}
		}
	})
	b = append(b, Case{Name: "lists", Fn: func(t *T) {
		// every length, with empty and awkward texts at every place
		g := newGen(t)
		for n := 0; n <= 40; n++ {
			for at := -1; at < n; at++ {
				l := []string{}
				for i := 0; i < n; i++ {
					l = append(l, fmt.Sprint("x", i))
				}
				if at >= 0 {
					l[at] = g.oneOf("", "", "", " ", "nil", "\"", "x0", "null", ",")
				}
				checkRender(t, &Node{K: KStrs, L: l})
				checkRender(t, &Node{K: KErrs, L: l})
			}
		}
	}})
	b = batch(b, "containers", cfg.n(240, 1000), func(t *T) {
		g := newGen(t)
		for i := 0; i < 10; i++ {
			checkRender(t, g.doc(4+g.n(8), true))
			checkRender(t, g.arrNode(&docOpts{budget: 6, maxDepth: 3, extra: true}, 0))
		}
	})
	b = batch(b, "absent errors", cfg.n(160, 400), func(t *T) {
		g := newGen(t)
		for i := 0; i < 40; i++ {
			var l []error // stays nil when nothing is added
			want := nArr()
			for k := g.n(6); k > 0; k-- {
				if g.chance(0.4) {
					l = append(l, nil)
					want.Vals = append(want.Vals, nNull())
				} else {
					s := g.str()
					l = append(l, errors.New(s))
					want.Vals = append(want.Vals, nStr(s))
				}
			}
			t.Input(len(l) > 1, want.String())
			m, a := hj.NewMap(), hj.NewArray()
			m.SetErrors("l", l)
			m.SetErrors("p", l)
			a.AppendValue(hj.NewValue(&l))
			inMap := nMap()
			inMap.set("l", want)
			inMap.set("p", want)
			var cm, ca interface{}
			if x, errs := m.Clone(); len(errs) == 0 {
				cm = x
			}
			if x, errs := a.Clone(); len(errs) == 0 {
				ca = x
			}
			for _, f := range []struct {
				name string
				v    interface{}
				want *Node
			}{{"bare", l, want}, {"pointer", &l, want}, {"Value", hj.NewValueValue(l), want}, {"*Value", hj.NewValue(l), want}, {"*Value of pointer", hj.NewValue(&l), want}, {"in a map", m, inMap}, {"in an array", a, nArr(want)}, {"in a cloned map", cm, inMap}, {"in a cloned array", ca, nArr(want)}} {
				t.Event("rendered: errors with absent ones")
				var sb strings.Builder
				errs := hj.ConvertInterfaceValueToJSONStringValue(&sb, f.v)
				if len(errs) > 0 {
					t.Fail("json error", "JSON rendering of %s (%s) failed: %s", clip(want.String(), 300), f.name, errsText(errs))
				}
				if d := textDiff(f.want, sb.String()); d != "" {
					t.Fail("json", "JSON rendering of an error list %s (%s) is %q: %s", clip(want.String(), 300), f.name, clip(sb.String(), 300), d)
				}
			}
		}
	})
	b = append(b, Case{Name: "library errors", Fn: func(t *T) {
		for _, le := range libraryErrors() {
			m, a := hj.NewMap(), hj.NewArray()
			m.SetObjectForMap("l", le.v)
			a.AppendValue(hj.NewValue(le.v))
			want := nStr(le.text)
			inMap := nMap()
			inMap.set("l", want)
			var cm, ca interface{}
			if x, errs := m.Clone(); len(errs) == 0 {
				cm = x
			}
			if x, errs := a.Clone(); len(errs) == 0 {
				ca = x
			}
			t.Input(true, le.name)
			for _, f := range []struct {
				name string
				v    interface{}
				want *Node
			}{{"bare", le.v, want}, {"Value", hj.NewValueValue(le.v), want}, {"*Value", hj.NewValue(le.v), want}, {"in a map", m, inMap}, {"in an array", a, nArr(want)}, {"in a cloned map", cm, inMap}, {"in a cloned array", ca, nArr(want)}} {
				t.Event("rendered: " + le.name)
				var sb strings.Builder
				errs := hj.ConvertInterfaceValueToJSONStringValue(&sb, f.v)
				if len(errs) > 0 || textDiff(f.want, sb.String()) != "" {
					t.Fail("json", "JSON rendering of a %s with the text %q (%s): %q %s", le.name, le.text, f.name, sb.String(), errsText(errs))
				}
				if f.want != want {
					continue
				}
				s, errs := hj.ConvertInterfaceValueToStringValue(f.v)
				if len(errs) > 0 || s != le.text {
					t.Fail("plain", "plain rendering of a %s with the text %q (%s): %q %s", le.name, le.text, f.name, s, errsText(errs))
				}
			}
		}
	}})
	return interleave(a, b)
}

type libraryError struct {
	name, text string
	v          interface{}
}

// libraryErrors are the errors of the standard library that the document
// model names as kinds of its own.
func libraryErrors() []libraryError {
	ue := &url.Error{Op: "Get", URL: "http://x/\"y\"", Err: errors.New("no \\ such")}
	e, q := errors.New("plain"), errors.New("a \"quoted\" \\ text\nof two lines")
	l := []libraryError{{"*url.Error", ue.Error(), ue}, {"*errors.errorString", e.Error(), e}, {"*errors.errorString, escaped", q.Error(), q}}
	zero := &exec.ExitError{ProcessState: &os.ProcessState{}, Stderr: []byte("the stderr")}
	l = append(l, libraryError{"*exec.ExitError", zero.Error(), zero}, libraryError{"exec.ExitError", zero.Error(), *zero})
	for _, sh := range []string{"exit 3", "kill -9 $$"} {
		if err, ok := exec.Command("/bin/sh", "-c", sh).Run().(*exec.ExitError); ok {
			l = append(l, libraryError{"*exec.ExitError of " + sh, err.Error(), err}, libraryError{"exec.ExitError of " + sh, err.Error(), *err})
		}
	}
	return l
}

// ---------------------------------------------------------------- C20

type odd struct{ A int }

type saysNil struct{}

type odds []error

type (
	oddString string
	oddInt    int
	oddBool   bool
	oddFloat  float64
)

func (saysNil) String() string { return "<nil>" }

func oddities() []forms {
	c := complex(1, 2)
	s := []int{1}
	mm := map[string]int{"a": 1}
	st := odd{1}
	r := []rune{'a'}
	is := []interface{}{1}
	ms := map[string]interface{}{"a": 1}
	var u uintptr = 4
	var nilInt *int
	var nilText *string
	var nilMap *hj.Map
	var nilTime *time.Time
	var nilAny interface{}
	var nilGo map[string]interface{}
	var nilList []interface{}
	var nilInts []int
	return []forms{
		{"empty map[string]int", map[string]int{}}, {"empty map[string]interface{}", map[string]interface{}{}}, {"Stringer", saysNil{}}, {"json.Number nil", json.Number("nil")},
		{"struct", st}, {"*struct", &st}, {"[]int", s}, {"*[]int", &s}, {"map[string]int", mm}, {"*map", &mm}, {"complex128", c}, {"*complex128", &c},
		{"chan", make(chan int)}, {"[2]int", [2]int{1, 2}}, {"[]interface{}", is}, {"*[]interface{}", &is}, {"map[string]interface{}", ms}, {"*map[string]interface{}", &ms}, {"[]byte", []byte("x")}, {"[]rune", r}, {"uintptr", u},
		{"time.Duration", time.Second}, {"complex64", complex64(1)}, {"func()", func() {}}, {"**int", func() **int { x := 1; p := &x; return &p }()}, {"json.Number", json.Number("1")},
		{"[]int{}", []int{}}, {"[]interface{}{}", []interface{}{}}, {"[][]string{}", [][]string{}}, {"*[]int{}", &[]int{}}, {"[]byte{}", []byte{}}, {"[0]int", [0]int{}}, {"*map[string]int{}", &map[string]int{}},
		{"zero odd", odd{}}, {"[]odd", []odd{{1}}}, {"[]error, named", odds{errors.New("a")}}, {"named string", oddString("a")}, {"named int", oddInt(3)}, {"named bool", oddBool(true)}, {"named float", oddFloat(1.5)}, {"[]time.Time", []time.Time{{}}}, {"[]*string", []*string{new(string)}}, {"zero uintptr", uintptr(0)}, {"zero named int", oddInt(0)}, {"empty named string", oddString("")}, {"false named bool", oddBool(false)},
		{"**int of nil", &nilInt}, {"**string of nil", &nilText}, {"**Map of nil", &nilMap}, {"**time of nil", &nilTime}, {"*interface{} of nil", &nilAny}, {"* of nil map", &nilGo}, {"* of nil []interface{}", &nilList}, {"* of nil []int", &nilInts}, {"[]*int", []*int{nil}},
		{"exec.Cmd", exec.Cmd{}}, {"struct{}", struct{}{}}, {"[]bool", []bool{true}}, {"[]float64", []float64{1}}, {"[][]string", [][]string{{"a"}}},
	}
}

func nonFinite() []forms {
	n, i, j := math.NaN(), math.Inf(1), math.Inf(-1)
	n32, i32 := float32(math.NaN()), float32(math.Inf(-1))
	return []forms{{"NaN", n}, {"*NaN", &n}, {"+Inf", i}, {"*+Inf", &i}, {"-Inf", j}, {"*-Inf", &j}, {"NaN32", n32}, {"*NaN32", &n32}, {"-Inf32", i32}, {"*-Inf32", &i32}}
}

// plant puts v at a random place of the real document; returns the path.
func plant(g *Gen, m *hj.Map, v interface{}) string {
	path := "$"
	var curM *hj.Map = m
	var curA *hj.Array
	for {
		// descend sometimes
		type child struct {
			name string
			m    *hj.Map
			a    *hj.Array
		}
		var kids []child
		if curM != nil {
			for _, k := range curM.GetKeys() {
				if x, e := curM.GetMap(k); e == nil && x != nil {
					kids = append(kids, child{"." + k, x, nil})
				} else if x, e := curM.GetArray(k); e == nil && x != nil {
					kids = append(kids, child{"." + k, nil, x})
				}
			}
		} else {
			for i, val := range *curA.GetValues() {
				if val == nil {
					continue
				}
				if x, e := val.GetMap(); e == nil && x != nil {
					kids = append(kids, child{fmt.Sprintf("[%d]", i), x, nil})
				} else if x, e := val.GetArray(); e == nil && x != nil {
					kids = append(kids, child{fmt.Sprintf("[%d]", i), nil, x})
				}
			}
		}
		if len(kids) == 0 || g.chance(0.3) {
			break
		}
		k := kids[g.n(len(kids))]
		path += k.name
		curM, curA = k.m, k.a
	}
	val := hj.NewValue(v)
	if curM != nil {
		keys := curM.GetKeys()
		k := g.str() + "!"
		if len(keys) > 0 && g.chance(0.6) {
			k = keys[g.n(len(keys))]
		}
		if g.chance(0.5) {
			curM.SetObjectForMap(k, v)
		} else {
			curM.SetValue(k, val)
		}
		return path + "." + k
	}
	n := curA.Len()
	if n > 0 && g.chance(0.6) {
		i := g.n(n)
		curA.SetValueAtIndex(i, val)
		return fmt.Sprintf("%s[%d]", path, i)
	}
	curA.AppendValue(val)
	return fmt.Sprintf("%s[%d]", path, n)
}

func unsupportedCases(cfg *Config) []Case {
	clean := func(t *T, g *Gen, n *Node, m *hj.Map) {
		if text, errs := mapJSON(m); len(errs) > 0 {
			t.Fail("spurious", "serialising a supported document failed: %s\n%s\n%s", errsText(errs), clip(n.String(), 1500), clip(text, 300))
		}
		c, errs := m.Clone()
		if len(errs) > 0 || c == nil {
			t.Fail("spurious", "cloning a supported document failed: %s\n%s", errsText(errs), clip(n.String(), 1500))
		}
		t.Event("clean twins")
	}
	dirty := func(t *T, n *Node, path string, f forms, m *hj.Map, cloneToo bool) {
		t.Input(strings.Count(path, ".")+strings.Count(path, "[") > 1 || n.count() > 2, path+"="+f.name+" in "+clip(n.String(), 250))
		if text, errs := mapJSON(m); len(errs) == 0 {
			t.Fail("dropped", "serialising did not report the %s at %s\n%s\ntext %q", f.name, clip(path, 300), clip(n.String(), 1500), clip(text, 1000))
		}
		t.Event("serialise reported:" + f.name)
		if cloneToo {
			if c, errs := m.Clone(); len(errs) == 0 || c != nil {
				t.Fail("dropped", "cloning did not report the %s at %s\n%s", f.name, clip(path, 300), clip(n.String(), 1500))
			}
			t.Event("clone reported:" + f.name)
		}
	}
	a := batch(nil, "planted", cfg.n(1000, 8000), func(t *T) {
		g := newGen(t)
		odds, nf := oddities(), nonFinite()
		for i := 0; i < 14; i++ {
			n := g.doc(3+g.n(20), true)
			m := g.builder().mapOf(n)
			clean(t, g, n, m)
			if g.chance(0.7) {
				f := odds[g.n(len(odds))]
				dirty(t, n, plant(g, m, f.v), f, m, true)
			} else {
				f := nf[g.n(len(nf))]
				dirty(t, n, plant(g, m, f.v), f, m, false)
			}
		}
	})
	var b []Case
	// every unsupported type in every fixed position
	for _, f := range append(oddities(), nonFinite()...) {
		f := f
		cl := true
		for _, x := range nonFinite() {
			if x.name == f.name {
				cl = false
			}
		}
		b = append(b, Case{Name: "positions-" + f.name, Fn: func(t *T) {
			for pos := 0; pos < 6; pos++ {
				for depth := 0; depth < 6; depth++ {
					for _, inArr := range []bool{false, true} {
						leaf := hj.NewMap()
						arr := hj.NewArray()
						for i := 0; i < 6; i++ {
							var v interface{} = i
							if i == pos {
								v = f.v
							}
							leaf.SetObjectForMap(fmt.Sprint("k", i), v)
							arr.AppendValue(hj.NewValue(v))
						}
						root := hj.NewMap()
						root.SetIntValue("first", 1)
						var cur interface{} = leaf
						if inArr {
							cur = arr
						}
						for d := 0; d < depth; d++ {
							if d%2 == 0 {
								w := hj.NewArray()
								w.AppendNil()
								w.AppendValue(hj.NewValue(cur))
								w.AppendIntValue(2)
								cur = w
							} else {
								w := hj.NewMap()
								w.SetNil("n")
								w.SetObjectForMap("d", cur)
								w.SetNil("o")
								cur = w
							}
						}
						root.SetObjectForMap("x", cur)
						root.SetBoolValue("last", true)
						dirty(t, nMap(), fmt.Sprintf("pos %d depth %d array %v", pos, depth, inArr), f, root, cl)
						// arrays and values report too
						if inArr && depth == 0 {
							if text, errs := arrayJSON(arr); len(errs) == 0 {
								t.Fail("dropped", "array with a %s at %d serialised without error: %q", f.name, pos, text)
							}
							if cl {
								if _, errs := arr.Clone(); len(errs) == 0 {
									t.Fail("dropped", "array with a %s at %d cloned without error", f.name, pos)
								}
							}
						}
					}
				}
			}
			var sb strings.Builder
			if errs := hj.ConvertInterfaceValueToJSONStringValue(&sb, f.v); len(errs) == 0 {
				t.Fail("dropped", "renderer accepts a %s: %q", f.name, sb.String())
			}
			if cl {
				if s, errs := hj.ConvertInterfaceValueToStringValue(f.v); len(errs) == 0 {
					t.Fail("dropped", "plain renderer accepts a %s: %q", f.name, s)
				}
				if _, errs := hj.NewValue(f.v).Clone(); len(errs) == 0 {
					t.Fail("dropped", "value with a %s cloned without error", f.name)
				}
			}
		}})
	}
	// one among many, at every place of a wide map and a wide array
	for i, f := range []forms{oddities()[4], {"[]int", []int{1}}, nonFinite()[0], nonFinite()[4], {"chan", make(chan int)}} {
		f := f
		b = append(b, Case{Name: fmt.Sprint("wide-", i), Fn: func(t *T) {
			n := t.cfg.n(300, 1100)
			m, a := hj.NewMap(), hj.NewArray()
			for k := 0; k < n; k++ {
				m.SetIntValue(fmt.Sprint("k", k), k)
				a.AppendIntValue(k)
			}
			root := hj.NewMap()
			root.SetArray("a", a)
			in := hj.NewMap()
			in.SetMap("m", m)
			good, bad := hj.NewValue(7), hj.NewValue(f.v)
			for k := 0; k < n; k++ {
				m.SetValue(fmt.Sprint("k", k), bad)
				a.SetValueAtIndex(k, bad)
				dirty(t, nMap(), fmt.Sprintf("key %d of %d", k, n), f, m, false)
				dirty(t, nMap(), fmt.Sprintf("element %d of %d", k, n), f, root, false)
				dirty(t, nMap(), fmt.Sprintf("key %d of %d, nested", k, n), f, in, false)
				if i != 2 && i != 3 && k%7 == 0 {
					dirty(t, nMap(), fmt.Sprintf("element %d of %d", k, n), f, root, true)
				}
				m.SetValue(fmt.Sprint("k", k), good)
				a.SetValueAtIndex(k, good)
			}
		}})
	}
	b = append(b, Case{Name: "nil builder", Fn: func(t *T) {
		g := newGen(t)
		for i := 0; i < 20; i++ {
			n := g.doc(i, true)
			if i == 0 {
				n = nMap()
			}
			m := g.builder().mapOf(n)
			if errs := m.ToJSONString(nil); len(errs) == 0 {
				t.Fail("nil builder", "Map.ToJSONString(nil) reports no error")
			}
			a := hj.NewArray()
			if i > 0 {
				a.AppendMap(m)
			}
			if errs := a.ToJSONString(nil); len(errs) == 0 {
				t.Fail("nil builder", "Array.ToJSONString(nil) reports no error")
			}
			for _, v := range []interface{}{nil, 1, "a", m, a, hj.NewValue(1), *m, *a} {
				if errs := hj.ConvertInterfaceValueToJSONStringValue(nil, v); len(errs) == 0 {
					t.Fail("nil builder", "ConvertInterfaceValueToJSONStringValue(nil, %T) reports no error", v)
				}
			}
			t.Input(true, fmt.Sprint("nil builder ", i))
		}
	}})
	sw := sweepCases(cfg, nil, "sweep", func(t *T, g *Gen, n *Node) {
		m := g.builder().mapOf(n)
		clean(t, g, n, m)
		odds := append(oddities(), nonFinite()...)
		i := g.n(len(odds))
		dirty(t, n, plant(g, m, odds[i].v), odds[i], m, i < len(oddities()))
	})
	return interleave(sw, interleave(a, b))
}
