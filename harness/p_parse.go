package main

// C01 to C05 and C03: reading JSON text.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/big"
	"strings"

	hj "github.com/matehaxor03/holistic_json/json"
)

func errsText(es []error) string {
	var p []string
	for _, e := range es {
		if e == nil {
			p = append(p, "<nil>")
		} else {
			p = append(p, e.Error())
		}
	}
	return clip(strings.Join(p, "; "), 400)
}

// parseTotal parses and checks the shape of the answer (one of map and errors).
func parseTotal(t *T, text string) (*hj.Map, []error) {
	m, errs := hj.Parse(text)
	if m == nil && len(errs) == 0 {
		t.Fail("neither", "Parse returned neither a map nor an error for %q", clip(text, 2000))
	}
	if m != nil && len(errs) > 0 {
		t.Fail("both", "Parse returned a map and errors (%s) for %q", errsText(errs), clip(text, 2000))
	}
	return m, errs
}

// mustParse parses a text the oracle accepts and compares.
func mustParse(t *T, text string, want *Node) *hj.Map {
	m, errs := hj.Parse(text)
	if len(errs) > 0 || m == nil {
		t.Fail("rejected", "Parse rejected a well-formed document: %s\ntext: %q", errsText(errs), clip(text, 3000))
	}
	if d := parsedDiff("$", want, observeMap(m)); d != "" {
		t.Fail("unfaithful", "%s\ntext: %q", d, clip(text, 3000))
	}
	return m
}

func batch(cases []Case, name string, n int, fn func(t *T)) []Case {
	for i := 0; i < n; i++ {
		cases = append(cases, Case{Name: fmt.Sprintf("%s-%d", name, i), Fn: fn})
	}
	return cases
}

func sweepCases(cfg *Config, cases []Case, name string, fn func(t *T, g *Gen, n *Node)) []Case {
	for _, ss := range shapeSweep(cfg) {
		ss := ss
		cases = append(cases, Case{Name: fmt.Sprintf("%s-%s-%d", name, ss.shape, ss.size), Fn: func(t *T) {
			g := newGen(t)
			t.Event("shape:" + ss.shape)
			fn(t, g, g.shaped(ss.shape, ss.size))
		}})
	}
	return cases
}

// interleave spreads the sweep over the random cases so a time limit cuts both.
func interleave(a, b []Case) []Case {
	var res []Case
	for len(a) > 0 || len(b) > 0 {
		if len(a) > 0 {
			res = append(res, a[0])
			a = a[1:]
		}
		if len(b) > 0 {
			res = append(res, b[0])
			b = b[1:]
		}
	}
	return res
}

func noteDoc(t *T, n *Node, text string) {
	t.Input(n.count() > 2, clip(text, 400))
	t.Event("documents")
	t.w.events["values"] += n.count()
}

func init() {
	properties["C01"] = &Property{
		Rule:        "a JSON text generated from a random document (nesting, duplicate keys, escapes, unicode, number forms, whitespace) or from a width/depth/length sweep, read by Parse and compared with an independent decoder; non-trivial when it holds more than two values",
		Assumptions: []string{"encoding/json's tokeniser is the reference for what a text means", "the root text starts with { and ends with }"},
		Cases: func(cfg *Config) []Case {
			check := func(t *T, g *Gen, n *Node, o textOpts, dupes bool) {
				text := g.join(g.tokens(n, o, dupes), o.ws)
				want, err := oracleParse(text)
				if err != nil {
					if err == errRange {
						return
					}
					panic("generator made a bad text: " + err.Error() + "\n" + text)
				}
				noteDoc(t, want, text)
				mustParse(t, text, want)
			}
			rnd := batch(nil, "doc", cfg.n(700, 12000), func(t *T) {
				g := newGen(t)
				for i := 0; i < 12; i++ {
					check(t, g, g.doc(6+g.n(30), false), textOpts{ws: []int{0, 0, 1}[g.n(3)], esc: g.n(2), numForm: g.n(2) == 0}, g.n(3) == 0)
				}
			})
			str := batch(nil, "strings", cfg.n(250, 4000), func(t *T) {
				g := newGen(t)
				// one string in every position: key, value, element, nested
				for i := 0; i < 10; i++ {
					s, s2 := g.str(), g.str()
					n := nMap()
					n.set(s, nStr(s2))
					n.set(s2, nArr(nStr(s), nStr(s2), nArr(nStr(s))))
					in := nMap()
					in.set(s, nMap())
					in.set(s2, nStr(s))
					n.set(s+s2, in)
					check(t, g, n, textOpts{esc: i % 2}, false)
				}
			})
			sw := sweepCases(cfg, nil, "sweep", func(t *T, g *Gen, n *Node) {
				check(t, g, n, textOpts{esc: g.n(2)}, false)
			})
			str = append(str, escapePieces(cfg)...)
			// keys that come back after many others, once or more often
			far := []int{3, 9, 17, 33, 50, 65, 70, 100, 129, 200, 260, 520}
			if cfg.thorough() {
				far = append(far, 1030, 3000)
			}
			for _, n := range append(far, cfg.Hot.Sizes(400)...) {
				n := max(n, 1)
				str = append(str, Case{Name: fmt.Sprintf("far-%d", n), Fn: func(t *T) {
					g := newGen(t)
					for round := 0; round < 4; round++ {
						var tk []string
						name := func(i int) string {
							return fmt.Sprintf("%q", fmt.Sprintf("%s%d", []string{"k", "", "é", "key "}[round], i))
						}
						put := func(i int) {
							if len(tk) > 0 {
								tk = append(tk, ",")
							}
							tk = append(tk, name(i), ":", g.oneOf("1", "-3", "\"x\"", "true", "null", "[1]", "{}", "0.5"))
						}
						for i := 0; i < n; i++ {
							put(i)
							for g.chance(min(0.5, 2/float64(n))) {
								put(g.n(i + 1))
							}
						}
						for _, i := range []int{0, 1, n / 2, n - 1, g.n(n), g.n(n)} {
							put(min(i, n-1))
						}
						in := strings.Join(tk, "")
						text := "{" + in + "}"
						if round%2 == 1 {
							text = `{"a":[{` + in + `}],"b":{` + in + `}}`
						}
						want, err := oracleParse(text)
						if err != nil {
							panic(err)
						}
						noteDoc(t, want, text)
						mustParse(t, text, want)
					}
				}})
			}
			return interleave(sw, interleave(rnd, str))
		},
	}

	properties["C02"] = &Property{
		Rule:        "number literals (boundaries of every integer width, powers of two and ten, random widths, decimals and exponents of every size, out-of-range literals) as object values, array elements and nested, alone and in company; non-trivial when the literal is not a single digit",
		Assumptions: []string{"strconv.ParseFloat is the reference for the nearest double", "only the amd64 build is exercised"},
		Cases:       numberCases,
	}

	properties["C03"] = &Property{
		Rule:        "arbitrary input strings: random bytes, token soup, every prefix of valid documents, byte and token mutations, extreme nesting, extreme lengths; the monitor sees panics, crashes, hangs, memory growth and the shape of the answer; non-trivial when longer than two bytes",
		Assumptions: []string{"a case that needs more than 90 s (thorough: 300 s), reproduced alone, or 3.5 GB counts as not terminating"},
		Cases:       totalityCases,
	}

	properties["C04"] = &Property{
		Rule:        "texts that are not one JSON object: exhaustive short token sequences and token/byte mutations of valid documents, judged by a reference recogniser that allows exactly the listed departures; non-trivial when the recogniser says it must be rejected",
		Assumptions: []string{"encoding/json.Valid is the reference for well-formed JSON"},
		Cases:       malformedCases,
	}

	properties["C05"] = &Property{
		Rule:  "a document's tokens joined compactly and with whitespace (every gap alone, all gaps, long runs), both parsed and compared including number types; non-trivial when the document has more than two values",
		Cases: whitespaceCases,
	}
}

// escapePieces: strings made of every kind of \u escape, alone, paired and
// unpaired, next to each other and to other text.
var pieces = []string{`\ud83d`, `\uDBFF`, `\ud800`, `\ude00`, `\uDFFF`, `\udc00`, `\ud83d\ude00`, `\uDBFF\uDFFF`, `\ud800\udc00`,
	`\u0041`, `\u00e9`, `\u20AC`, `\ud7ff`, `\ue000`, `\ufffd`, `\uffff`, `\u0000`, `\u0022`, `\u005c`, `\u007f`,
	`\n`, `\\`, `\"`, `\/`, `u`, `d83d`, `a`, ` `, "\u00e9", "\u20ac", "\U0001F600", "\uFFFD", `,`, `}`}

func escapeDoc(t *T, s string) {
	for _, text := range []string{`{"k":"` + s + `"}`, `{"` + s + `":1}`, `{"k":["` + s + `","x"]}`} {
		want, err := oracleParse(text)
		if err != nil {
			panic("escapePieces: " + err.Error() + " " + text)
		}
		t.Input(len(s) > 2, text)
		mustParse(t, text, want)
	}
}

func escapePieces(cfg *Config) []Case {
	var cases []Case
	for _, p := range pieces {
		p := p
		cases = append(cases, Case{Name: "pieces-" + fmt.Sprintf("%x", p), Fn: func(t *T) {
			escapeDoc(t, p)
			for _, q := range pieces {
				escapeDoc(t, p+q)
				for _, r := range pieces {
					if strings.HasPrefix(p, `\u`) || strings.HasPrefix(q, `\u`) {
						escapeDoc(t, p+q+r)
					}
				}
			}
		}})
	}
	return batch(cases, "piece-runs", cfg.n(60, 1500), func(t *T) {
		g := newGen(t)
		for i := 0; i < 20; i++ {
			var b strings.Builder
			for j := 0; j < 1+g.n(12); j++ {
				b.WriteString(pieces[g.n(len(pieces))])
			}
			escapeDoc(t, b.String())
		}
	})
}

// ---------------------------------------------------------------- C02

func litNode(t *T, lit string) (*Node, bool) {
	n, err := numberNode(lit)
	return n, err == nil
}

func (g *Gen) intLit() string { return g.bigInt().String() }

func (g *Gen) digits(n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte('0' + g.n(10))
	}
	return string(b)
}

// gramLit is any number the grammar allows, mostly within the range.
func (g *Gen) gramLit() string {
	part := func(max int) string {
		n := 1 + g.n(max)
		if g.chance(0.1) {
			n += g.n(300)
		}
		switch g.n(4) {
		case 0:
			return g.digits(n)
		case 1:
			return strings.Repeat("0", n)
		case 2:
			return strings.Repeat("0", n) + g.digits(1+g.n(3))
		default:
			return g.digits(1+g.n(3)) + strings.Repeat("0", n)
		}
	}
	x := g.oneOf("", "-") + g.oneOf("0", fmt.Sprint(1+g.n(9)), fmt.Sprint(1+g.n(9))+part(6))
	frac, exp := g.chance(0.6), g.chance(0.6)
	if frac || !exp {
		x += "." + part(6)
	}
	if exp {
		zeros := ""
		if g.chance(0.6) {
			zeros = strings.Repeat("0", 1+g.n(8)+g.n(2)*g.n(2)*g.n(60))
		}
		e := g.n(12)
		if g.chance(0.2) {
			e = g.n(310)
		}
		sign, digits := g.oneOf("", "+", "-"), fmt.Sprint(e)
		if g.chance(0.25) { // far below the range, or a multiple of nothing
			digits = fmt.Sprint(1+g.n(9)) + g.digits(2+g.n(12))
			if sign = "-"; g.chance(0.5) {
				sign = g.oneOf("", "+", "-")
				x = g.oneOf("", "-") + "0" + g.oneOf("", ".0", ".000")
			}
		}
		x += g.oneOf("e", "E") + sign + zeros + digits
	}
	return x
}

func (g *Gen) decLit() string {
	switch g.n(10) {
	case 8, 9:
		return g.gramLit()
	case 0:
		return g.numText(g.f64(), true)
	case 1:
		return g.numText(g.f64(), false)
	case 2:
		return g.intLit() + "." + g.digits(1+g.n(25))
	case 3:
		return g.intLit() + g.oneOf("e", "E") + g.oneOf("", "+", "-") + g.digits(1+g.n(2))
	case 4:
		return g.oneOf("", "-") + "0." + strings.Repeat("0", g.n(30)) + g.digits(1+g.n(20))
	case 5:
		return g.numText(float64(g.f32()), g.n(2) == 0)
	case 6:
		return g.oneOf("", "-") + fmt.Sprint(1+g.n(9)) + g.digits(g.n(40)) + "." + g.digits(1+g.n(3)) + g.oneOf("", "e-"+fmt.Sprint(g.n(330)))
	default:
		return fmt.Sprintf("%d.%0*d", g.n(100000)-50000, 1+g.n(8), g.n(10))
	}
}

func (g *Gen) outLit() string {
	switch g.n(5) {
	case 0:
		v := new(big.Int).SetUint64(^uint64(0))
		v.Add(v, big.NewInt(int64(1+g.n(3))))
		return v.String()
	case 1:
		v := big.NewInt(-1 << 63)
		v.Sub(v, big.NewInt(int64(1+g.n(3))))
		return v.String()
	case 2:
		return g.oneOf("", "-") + fmt.Sprint(1+g.n(9)) + g.digits(20+g.n(60))
	case 3:
		return g.oneOf("", "-") + fmt.Sprint(1+g.n(9)) + "." + g.digits(1+g.n(3)) + "e" + fmt.Sprint(309+g.n(5000))
	default:
		return g.oneOf("", "-") + fmt.Sprint(1+g.n(9)) + g.digits(310+g.n(50)) + ".0"
	}
}

func checkNumbers(t *T, lits []string) {
	// every literal as value, element, nested element and nested value
	var tx strings.Builder
	want := nMap()
	arr, in := nArr(), nMap()
	var parts, parts2 []string
	for i, l := range lits {
		n, ok := litNode(t, l)
		if !ok {
			panic("in-range literal expected: " + l)
		}
		arr.Vals = append(arr.Vals, n)
		parts = append(parts, l)
		k := fmt.Sprintf("k%d", i)
		in.set(k, n)
		parts2 = append(parts2, fmt.Sprintf("%q:%s", k, l))
		t.Input(len(l) > 1, l)
		t.Event("literal:" + string(n.K) + ":" + n.Ty)
	}
	tx.WriteString(`{"a":[` + strings.Join(parts, ",") + `],"m":{` + strings.Join(parts2, ",") + `}}`)
	want.set("a", arr)
	want.set("m", in)
	mustParse(t, tx.String(), want)
}

func numberCases(cfg *Config) []Case {
	var cases []Case
	// exact boundaries
	var lits []string
	one := big.NewInt(1)
	for b := uint(0); b <= 64; b++ {
		for d := int64(-2); d <= 2; d++ {
			v := new(big.Int).Lsh(one, b)
			v.Add(v, big.NewInt(d))
			for _, s := range []string{v.String(), new(big.Int).Neg(v).String()} {
				if _, err := numberNode(s); err == nil {
					lits = append(lits, s)
				}
			}
		}
	}
	for e := int64(0); e < 20; e++ {
		for d := int64(-1); d <= 1; d++ {
			v := new(big.Int).Exp(big.NewInt(10), big.NewInt(e), nil)
			v.Add(v, big.NewInt(d))
			for _, s := range []string{v.String(), new(big.Int).Neg(v).String()} {
				if _, err := numberNode(s); err == nil {
					lits = append(lits, s)
				}
			}
		}
	}
	for i := -400; i <= cfg.n(1100, 70000); i++ {
		lits = append(lits, fmt.Sprint(i))
	}
	for _, n := range cfg.Hot.Ints {
		lits = append(lits, fmt.Sprint(n))
		if n > 0 {
			lits = append(lits, fmt.Sprint(-n))
		}
	}
	lits = append(lits, "-0", "0", "0.0", "-0.0", "-0.000", "-0e0", "-0E5", "-0e-5", "-0e400", "-1e-400", "-2.4e-324", "0e0", "0E5", "1e2", "1E+2", "1e-2", "1e-400", "0.1", "0.10", "1.0", "100.0", "3.4028235e38", "3.4028236e38", "1.7976931348623157e308", "4.9e-324", "2.4e-324", "16777217.0", "16777217.5", "9007199254740993.0", "255.0", "256.5", "0.30000000000000004", "1.1754944e-38", "179769313486231570000.5")
	for _, f := range cfg.Hot.Floats {
		s := fmt.Sprintf("%f", f)
		if _, err := numberNode(s); err == nil {
			lits = append(lits, s)
		}
	}
	for i := 0; i < len(lits); i += 25 {
		j := i + 25
		if j > len(lits) {
			j = len(lits)
		}
		part := lits[i:j]
		cases = append(cases, Case{Name: fmt.Sprintf("fixed-%d", i), Fn: func(t *T) {
			checkNumbers(t, part)
			// each alone, as the last thing of the object and of an array
			for _, l := range part {
				n, _ := numberNode(l)
				w := nMap()
				w.set("k", n)
				mustParse(t, `{"k":`+l+`}`, w)
			}
		}})
	}
	var rnd []Case
	rnd = batch(rnd, "random", cfg.n(1800, 9000), func(t *T) {
		g := newGen(t)
		var l []string
		for i := 0; i < 20; i++ {
			x := g.intLit()
			if g.chance(0.6) {
				x = g.decLit()
			}
			if _, err := numberNode(x); err == nil {
				l = append(l, x)
			}
		}
		checkNumbers(t, l)
		// a repeated key has the last number, with the type of that literal
		for i := 0; i+1 < len(l); i++ {
			x, y := l[g.n(len(l))], l[i]
			n, _ := numberNode(y)
			z, _ := numberNode(x)
			w := nMap()
			w.set("j", z)
			w.set("k", n)
			mustParse(t, `{"j":`+x+`,"k":`+x+`,"k":`+y+`}`, w)
		}
	})
	var pairs []Case
	pairs = batch(pairs, "repeated", 4, func(t *T) {
		g := newGen(t)
		lits := []string{"0", "7", "255", "256", "65535", "65536", "4294967295", "4294967296", "18446744073709551615", "-0", "-1", "-128", "-129", "-32768", "-32769", "-2147483648", "-2147483649", "-9223372036854775808", "0.5", "1.0", "0.1", "1e300", "-2.5", "3e2", "0.0", "-0.0", "16777217.0", "0.30000000000000004"}
		for _, x := range lits {
			for _, y := range lits {
				mid := g.oneOf(`"z":0,`, "", `"k":null,`, `"k":"1",`, `"k":{},`, `"k":[1],`)
				n, _ := numberNode(y)
				w := nMap()
				w.set("k", n)
				if strings.HasPrefix(mid, `"z"`) {
					w.set("z", nInt("uint8", 0))
				}
				mustParse(t, `{"k":`+x+`,`+mid+`"k":`+y+`}`, w)
				w2 := nMap()
				o := nMap()
				o.set("k", n)
				w2.set("a", nArr(n, o))
				mustParse(t, `{"a":[`+y+`,{"k":`+x+`,"k":`+y+`}]}`, w2)
			}
		}
	})
	// literals that differ in one digit, wherever that is
	pairs = batch(pairs, "one digit", cfg.n(120, 600), func(t *T) {
		g := newGen(t)
		for i := 0; i < 4; i++ {
			base := g.intLit()
			if g.chance(0.4) {
				base = g.decLit()
			} else if g.chance(0.5) {
				base = g.oneOf("", "-") + fmt.Sprint(1+g.n(8)) + g.digits(4+g.n(14))
			}
			l := []string{base}
			for at := range base {
				if base[at] >= '0' && base[at] <= '9' {
					for k := 0; k < 2; k++ {
						l = append(l, base[:at]+fmt.Sprint(g.n(10))+base[at+1:])
					}
				}
			}
			var ok []string
			for _, x := range l {
				if _, err := numberNode(x); err == nil && json.Valid([]byte(x)) {
					ok = append(ok, x)
				}
			}
			g.r.Shuffle(len(ok), func(a, b int) { ok[a], ok[b] = ok[b], ok[a] })
			if len(ok) > 0 {
				checkNumbers(t, ok)
			}
		}
	})
	// columns: many literals of one type and then one of another
	pairs = batch(pairs, "columns", cfg.n(120, 600), func(t *T) {
		g := newGen(t)
		of := func(ty int) string {
			if ty >= 8 {
				return []string{"0.5", "2.5", "1e3", "-0.25", "0.1", "1e300", "-0", "12345678.9"}[g.n(8)]
			}
			lo, hi := []int64{0, 256, 65536, 1 << 32, -128, -32768, -1 << 31, -1 << 62}[ty], []int64{255, 65535, 1<<32 - 1, 1<<63 - 1, -1, -129, -32769, -1<<31 - 1}[ty]
			return fmt.Sprint(lo + g.r.Int63n(hi-lo+1))
		}
		for i := 0; i < 4; i++ {
			a, b := g.n(10), g.n(10)
			var l []string
			for k := 1 + []int{1, 2, 4, 6, 8, 12, 20, 40, 70, 130}[g.n(10)]; k > 0; k-- {
				l = append(l, of(a))
			}
			for k := 1 + g.n(3); k > 0; k-- {
				l = append(l, of(b))
				if g.chance(0.3) {
					l = append(l, of(a))
				}
			}
			checkNumbers(t, l)
		}
	})
	rnd = interleave(pairs, rnd)
	rnd = batch(rnd, "range", cfg.n(360, 1500), func(t *T) {
		g := newGen(t)
		for i := 0; i < 12; i++ {
			bad := g.outLit()
			if _, err := numberNode(bad); err == nil {
				continue
			}
			good := g.intLit()
			text := []string{
				`{"k":` + bad + `}`,
				`{"k":` + good + `,"j":` + bad + `}`,
				`{"j":` + bad + `,"k":` + good + `}`,
				`{"a":[` + bad + `]}`,
				`{"a":[` + good + `,` + bad + `]}`,
				`{"a":[` + bad + `,` + good + `],"k":1}`,
				`{"a":[[` + good + `,` + bad + `]]}`,
				`{"a":{"b":[{"c":` + bad + `}]}}`,
				`{"k": ` + bad + ` }`,
			}[g.n(9)]
			t.Input(true, text)
			t.Event("out of range")
			if m, _ := parseTotal(t, text); m != nil {
				t.Fail("range accepted", "number out of range accepted: %s\nobserved %s", text, observeMap(m))
			}
		}
	})
	return interleave(cases, rnd)
}

// ---------------------------------------------------------------- C03

// usable exercises a parsed map a little: everything must return.
func usable(t *T, m *hj.Map, text string) {
	n := observeMap(m)
	out, errs := mapJSON(m)
	if errs != nil {
		t.Fail("unusable", "parsed map cannot be serialised: %s\ntext %q", errsText(errs), clip(text, 2000))
	}
	c, errs := m.Clone()
	if errs != nil || c == nil {
		t.Fail("unusable", "parsed map cannot be cloned: %s\ntext %q", errsText(errs), clip(text, 2000))
	}
	if m.IsNil() {
		t.Fail("unusable", "parsed map says it is nil\ntext %q", clip(text, 2000))
	}
	for _, k := range n.Keys {
		if !m.HasKey(k) || m.GetValue(k) == nil {
			t.Fail("unusable", "parsed map lacks its own key %q\ntext %q", k, clip(text, 2000))
		}
	}
	_ = out
}

func totality(t *T, text string) {
	t.Input(len(text) > 2, clip(text, 400))
	m, _ := parseTotal(t, text)
	if m != nil {
		t.Event("accepted")
		usable(t, m, text)
	} else {
		t.Event("rejected")
	}
}

func (g *Gen) mutateBytes(s string) string {
	b := []byte(s)
	for k := 1 + g.n(4); k > 0 && len(b) > 0; k-- {
		i := g.n(len(b))
		switch g.n(6) {
		case 0:
			b = append(b[:i], b[i+1:]...)
		case 1:
			c := "{}[],:\"\\ntr0-1.eE \t\nu/x"[g.n(23)]
			b = append(b[:i], append([]byte{c}, b[i:]...)...)
		case 2:
			b[i] = byte(g.n(256))
		case 3:
			b[i] = "{}[],:\"\\ntr0-1.eE \t\nu/x"[g.n(23)]
		case 4:
			j := g.n(len(b))
			b[i], b[j] = b[j], b[i]
		default:
			j := i + g.n(len(b)-i)
			b = append(b[:i], append(append([]byte{}, b[i:j]...), b[i:]...)...)
		}
	}
	return string(b)
}

func totalityCases(cfg *Config) []Case {
	var a, b []Case
	a = batch(a, "mutated", cfg.n(450, 8000), func(t *T) {
		g := newGen(t)
		for i := 0; i < 20; i++ {
			text := g.mutateBytes(g.jsonText(g.doc(4+g.n(14), false), textOpts{ws: g.n(2), esc: g.n(2)}))
			if g.chance(0.5) && len(text) > 2 { // keep the envelope so the parser is reached
				text = "{" + text[1:len(text)-1] + "}"
			}
			totality(t, text)
		}
	})
	a = batch(a, "prefixes", cfg.n(80, 1500), func(t *T) {
		g := newGen(t)
		text := g.jsonText(g.doc(4+g.n(8), false), textOpts{ws: g.n(2), esc: g.n(2)})
		for i := 0; i <= len(text); i++ {
			totality(t, text[:i])
			if i%3 == 0 {
				totality(t, text[:i]+"}")
				totality(t, "{"+text[i:])
			}
		}
	})
	b = batch(b, "soup", cfg.n(450, 8000), func(t *T) {
		g := newGen(t)
		toks := []string{"{", "}", "[", "]", ",", ":", `"`, `"a"`, `"b"`, "1", "-", "null", "true", "false", "\\", "\\\"", "n", "r", "t", " ", "\n", "\x00", "\xff", "é", "1.5", "e", "\\u", "\\ud83d", `""`, `"a":`, "{}", "[]", "/"}
		for i := 0; i < 30; i++ {
			var s strings.Builder
			s.WriteString("{")
			for k := g.n(14); k > 0; k-- {
				s.WriteString(pickStr(g.r, toks))
				if len(g.hot.Strings) > 0 && g.chance(0.05) {
					s.WriteString(pickStr(g.r, g.hot.Strings))
				}
			}
			s.WriteString("}")
			totality(t, s.String())
		}
	})
	b = batch(b, "bytes", cfg.n(120, 2500), func(t *T) {
		g := newGen(t)
		for i := 0; i < 40; i++ {
			n := g.n(40)
			x := make([]byte, n)
			for j := range x {
				x[j] = byte(g.n(256))
			}
			totality(t, string(x))
			totality(t, "{"+string(x)+"}")
			totality(t, "{\""+string(x)+"\":\""+string(x)+"\"}")
			totality(t, "{\"a\":"+string(x)+"}")
		}
	})
	for i, doc := range neighbourDocs {
		doc := doc
		b = append(b, Case{Name: fmt.Sprintf("one-edit-%d", i), Fn: func(t *T) {
			oneEdit(doc, t.cfg.thorough(), func(s string) { totality(t, s) })
		}})
	}
	var big []Case
	add := func(name string, text func() string) {
		big = append(big, Case{Name: name, Fn: func(t *T) { totality(t, text()) }})
	}
	sizes := []int{1, 2, 3, 5, 10, 50, 100, 500, 1000, 3000}
	if cfg.thorough() {
		sizes = append(sizes, 10000, 30000)
	}
	for _, s := range cfg.Hot.Sizes(2000) {
		sizes = append(sizes, s)
	}
	for _, n := range sizes {
		n := n
		r := strings.Repeat
		add(fmt.Sprintf("open-%d", n), func() string { return r("{", n) })
		add(fmt.Sprintf("open-close-%d", n), func() string { return r("{", n) + r("}", n) })
		add(fmt.Sprintf("array-open-%d", n), func() string { return `{"a":` + r("[", n) + "}" })
		if n <= 1200 {
			add(fmt.Sprintf("array-nest-%d", n), func() string { return `{"a":` + r("[", n) + r("]", n) + "}" })
			add(fmt.Sprintf("map-nest-%d", n), func() string { return r(`{"a":`, n) + "1" + r("}", n) })
			add(fmt.Sprintf("mix-nest-%d", n), func() string { return r(`{"a":[`, n) + r("]}", n) })
		}
		add(fmt.Sprintf("array-over-close-%d", n), func() string { return `{"a":[` + r("]", n) + "}" })
		add(fmt.Sprintf("over-close-%d", n), func() string { return `{"a":1` + r("}", n) })
		add(fmt.Sprintf("quotes-%d", n), func() string { return "{" + r(`"`, n) + "}" })
		add(fmt.Sprintf("backslashes-%d", n), func() string { return `{"a":"` + r(`\`, n) + `"}` })
		add(fmt.Sprintf("backslashes-out-%d", n), func() string { return `{` + r(`\`, n) + `}` })
		add(fmt.Sprintf("commas-%d", n), func() string { return `{"a":[` + r(`,`, n) + `]}` })
		add(fmt.Sprintf("colons-%d", n), func() string { return `{"a"` + r(`:`, n) + `1}` })
		add(fmt.Sprintf("spaces-%d", n), func() string { return `{` + r(` `, n) + `}` })
		add(fmt.Sprintf("digits-%d", n), func() string { return `{"a":` + r(`9`, n) + `}` })
		add(fmt.Sprintf("long-key-%d", n), func() string { return `{"` + r(`k`, n) + `":1}` })
		add(fmt.Sprintf("unicode-%d", n), func() string { return `{"a":"` + r(`\ud83d`, n) + `"}` })
		add(fmt.Sprintf("zeros-%d", n), func() string { return `{"a":0.` + r(`0`, n) + `1}` })
		add(fmt.Sprintf("exp-%d", n), func() string { return `{"a":1e` + r(`9`, n) + `}` })
	}
	add("empty", func() string { return "" })
	// long runs of characters of every width where no string begins
	wide := []string{"a", "é", "ÿ", "€", "中", "😀", "\u0301", "\u00a0", "\ufeff", "\u2028", "\x80", "\xff", "\xc3", "\xe2\x82", "\xf0\x9f\x98", "aé", "a€", "a😀", "é€😀", "-", "0", "t", "true", "n", "1é", "\\é", "'", "\x00", "\x01"}
	for i, w := range wide {
		w := w
		var sizes []int
		for n := 1; n <= 140; n++ {
			sizes = append(sizes, n)
		}
		sizes = append(sizes, 200, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2000, 4096, 5000)
		if cfg.thorough() {
			sizes = append(sizes, 20000, 65535, 65536, 65537)
		}
		big = append(big, Case{Name: fmt.Sprintf("bare-%d", i), Fn: func(t *T) {
			g := newGen(t)
			for _, n := range sizes {
				x := strings.Repeat(w, n)
				for _, f := range []string{`{"k":%s}`, `{"k":[%s]}`, `{"k":[1,%s]}`, `{%s:1}`, `{%s}`, `{"k"%s:1}`, `{"k":1%s}`, `{"k":1,%s}`, `{"k":1,"j":%s}`, `{"k":"v"%s}`, `{"k":[]%s}`, `{"k":{}%s}`, `{"k":1}%s`, `%s{"k":1}`, `%s`, `{"k":true%s}`, `{"k":-1.%s}`, `{"k":{"j":%s}}`, `{"k":"\u%s"}`, `{"k":"%s}`, `{"%s}`, `{"%s":1,%s}`} {
					if n > 140 && !g.chance(0.4) {
						continue
					}
					totality(t, strings.Replace(f, "%s", x, -1))
				}
			}
		}})
	}
	return interleave(big, interleave(a, b))
}

// ---------------------------------------------------------------- C04

// variants of a text with the tolerated departures made harmless.
func tolerantForms(s string) []string {
	var res []string
	for mode := 0; mode < 4; mode++ {
		greedy, sep := mode&1 == 0, mode&2 == 0
		var b strings.Builder
		in := false
		changed := false
		for i := 0; i < len(s); i++ {
			c := s[i]
			if in {
				switch {
				case c == '\\' && i+1 < len(s):
					d := s[i+1]
					switch {
					case strings.IndexByte(`"\/bfnrt`, d) >= 0:
						b.WriteByte(c)
						b.WriteByte(d)
					default:
						b.WriteString("xx") // unknown or unicode escape: any text
					}
					i++
				case c == '"':
					in = false
					b.WriteByte(c)
				case c < 0x20:
					b.WriteByte('x')
				default:
					b.WriteByte(c)
				}
				continue
			}
			switch {
			case c == '"':
				in = true
				b.WriteByte(c)
			case c == '\\':
				changed = true
				if greedy && i+1 < len(s) && (s[i+1] == 'n' || s[i+1] == 'r' || s[i+1] == 't') {
					i++
				}
				if sep {
					b.WriteByte(' ')
				}
			default:
				b.WriteByte(c)
			}
		}
		res = append(res, b.String())
		if !changed {
			break
		}
	}
	return res
}

func mustReject(s string) bool {
	if !strings.HasPrefix(s, "{") || !strings.HasSuffix(s, "}") {
		return true
	}
	for _, f := range tolerantForms(s) {
		if json.Valid([]byte(f)) {
			return false
		}
	}
	return true
}

func checkMalformed(t *T, text string) {
	bad := mustReject(text)
	t.Input(bad, clip(text, 300))
	m, errs := hj.Parse(text)
	if bad {
		t.Event("must be rejected")
		if m != nil || len(errs) == 0 {
			seen := "no map"
			if m != nil {
				seen = observeMap(m).String()
			}
			t.Fail("accepted", "malformed text accepted: %q\nread as %s", clip(text, 2000), clip(seen, 1000))
		}
		return
	}
	if json.Valid([]byte(text)) {
		t.Event("well-formed control")
	} else {
		t.Event("tolerated")
	}
}

// small documents of every shape, for the texts around them
var neighbourDocs = []string{
	`{"a":1}`, `{"a":"b"}`, `{"a":[1,2]}`, `{"a":{"b":3}}`, `{"a":true,"b":null}`, `{"a":[],"b":{}}`, `{"a":[{"b":false}]}`,
	`{"a":{"b":{"c":"d"}}}`, `{"a":[[1],[[]]]}`, `{"a":-1.5e+3}`, `{"a\"b":"\u0041\\"}`, `{ "a" : [ 1 , "x" ] }`, `{"":"","a":[""]}`,
	`{"a":[{},{}],"b":[[],[]]}`, `{"a":[null,{"b":[-0.1]}]}`, `{"a":1,"b":{"c":2,"d":[3,{"e":4}]}}`, "{\"a\":1,\n\t\"b\": \"\"\n}", `{"a":{"b":[{"c":{"d":[]}}]}}`,
}

// oneEdit calls f with s after every removal, doubling and exchange of
// neighbours, and every replacement and insertion of a character.
func oneEdit(s string, all bool, f func(string)) {
	set := []byte("{}[]:,\"'\\/ \t\n\r\x00\x0b\x0c\x7f\x80\xff0159-+.eEx_=;()<>#!%*|&@~^$?`nrtufTFNalsb")
	if all {
		set = set[:0]
		for c := 0; c < 256; c++ {
			set = append(set, byte(c))
		}
	}
	for i := 0; i <= len(s); i++ {
		if i < len(s) {
			f(s[:i] + s[i+1:])
			f(s[:i+1] + s[i:])
			f(s[:i] + string(bytes.ToUpper([]byte{s[i]})) + s[i+1:])
		}
		if i+1 < len(s) {
			f(s[:i] + s[i+1:i+2] + s[i:i+1] + s[i+2:])
			f(s[:i] + s[i+2:])
		}
		for _, c := range set {
			if i < len(s) {
				f(s[:i] + string([]byte{c}) + s[i+1:])
			}
			f(s[:i] + string([]byte{c}) + s[i:])
		}
	}
}

// splitTokens cuts a document into its tokens, white space included.
func splitTokens(doc string) ([]string, bool) {
	var tk []string
	for i := 0; i < len(doc); {
		j := i + 1
		switch c := doc[i]; {
		case c == '"':
			for j < len(doc) && doc[j] != '"' {
				if doc[j] == '\\' {
					j++
				}
				j++
			}
			j++
		case strings.IndexByte("{}[]:,", c) < 0:
			for j < len(doc) && strings.IndexByte("{}[]:,\"", doc[j]) < 0 {
				j++
			}
		}
		if j > len(doc) {
			return nil, false
		}
		tk = append(tk, doc[i:j])
		i = j
	}
	return tk, true
}

var badWords = []string{"True", "NULL", "Null", "nULL", "TRUE", "tRue", "False", "FALSe", "nullnull", "truefalse", "none", "None", "nil", "yes", "null0", "-true", "+null", "FALSE", "nul", "nulll", "tru", "truee", "fals", "undefined", "NaN", "Infinity", "-Infinity", "01", "-01", "+1", "1.", ".5", "-", "--1", "1e", "1e+", "1.e5", "0x10", "1_000", "1a", "a1", "1-2", "1.2.3", "1e5.5", "00", "-.5", "1 2", "true false", "null null", "'a'", "`a`", "a", "abc", "é", "1,", "0b1", "0o7", "1f", "1L", "\"a\"b", "a\"b\"", "\"a\"\"b\"", "\"a\" \"b\"", "1\"a\"", "\"a\"1", "{}{}", "[][]", "{}[]", "1{}", "{}1", "\"a\"{}", "[]\"a\"", "[1]2", "1[2]", "//c", "/*c*/1", "#", "<a>", "(1)", "1;", "=1", ";", "$", "@", "infinity", "inf", "nan", "-null", "!true", "1.0.0", "1E", "1e-", "- 1", "1 .5", "1. 5", "tr ue", "n ull", "\u00a01", "\ufeff1", "\x0b1", "\x0c1", "\u20281"}

func malformedCases(cfg *Config) []Case {
	var a, b []Case
	// exhaustive short token sequences inside the braces
	toks := []string{"{", "}", "[", "]", ":", ",", `"a"`, "1", "null"}
	maxLen := 4
	if cfg.thorough() {
		maxLen = 5
	}
	total := 0
	for l, p := 1, 9; l <= maxLen; l, p = l+1, p*9 {
		total += p
	}
	chunk := 150
	for i := 0; i < total; i += chunk {
		i := i
		a = append(a, Case{Name: fmt.Sprintf("tokens-%d", i), Fn: func(t *T) {
			for k := i; k < i+chunk && k < total; k++ {
				// decode k into a sequence
				l, base, p := 1, k, 9
				for base >= p {
					base -= p
					p *= 9
					l++
				}
				var s strings.Builder
				s.WriteString("{")
				for j := 0; j < l; j++ {
					s.WriteString(toks[base%9])
					base /= 9
				}
				s.WriteString("}")
				checkMalformed(t, s.String())
			}
		}})
	}
	// one bad word in every position
	words := append([]string{}, badWords...)
	for _, h := range cfg.Hot.Strings {
		words = append(words, h, "1"+h, h+"1")
	}
	for i := 0; i < len(words); i += 3 {
		j := i + 3
		if j > len(words) {
			j = len(words)
		}
		part := words[i:j]
		b = append(b, Case{Name: fmt.Sprintf("words-%d", i), Fn: func(t *T) {
			for _, w := range part {
				for _, f := range []string{`{"k":%s}`, `{"k":%s,"j":1}`, `{"j":1,"k":%s}`, `{"a":[%s]}`, `{"a":[1,%s]}`, `{"a":[%s,1]}`, `{"a":[[%s]]}`, `{"a":{"b":%s}}`, `{%s:1}`, `{"j":1,%s:1}`, `{"k":1%s}`, `{"k":"v"%s}`, `{"k":[]%s}`, `{"k":{}%s}`, `{"k":[1]%s}`, `{"k":null%s,"z":1}`, `{%s"k":1}`, `{"k"%s:1}`, `{"k":%s 1}`, `{"k":1}%s}`, `%s{"k":1}`, `{"k":1}%s`, `{%s}`, `{"k":1,%s}`, `{"a":[1 %s]}`, `{"a":[%s 1]}`, `{"a":[{} %s]}`, `{"a":["x"%s,"y"]}`} {
					checkMalformed(t, strings.Replace(f, "%s", w, 1))
				}
			}
		}})
	}
	// the same departures far from the top, on every kind of level
	wrap := func(g *Gen, text string, depth int) string {
		pre, post := "", ""
		for d := 0; d < depth; d++ {
			var l, r string
			if g.chance(0.5) {
				l, r = "[", "]"
				if g.chance(0.3) {
					l += g.oneOf(`1,`, `"x",`, `[],`, `{},`, `null,`)
				}
				if g.chance(0.3) {
					r = g.oneOf(`,1`, `,"x"`, `,[]`, `,{}`, `,null`) + r
				}
			} else {
				l, r = `{"d":`, "}"
				if g.chance(0.3) {
					l = `{` + g.oneOf(`"a":1,`, `"b":"x",`, `"c":[],`, `"e":{},`, `"":null,`) + `"d":`
				}
				if g.chance(0.3) {
					r = `,` + g.oneOf(`"p":1`, `"q":"x"`, `"r":[]`, `"s":{}`, `"t":null`) + r
				}
			}
			pre, post = pre+l, r+post
		}
		return `{"top":` + pre + text + post + `}`
	}
	inner := []string{`[1,]`, `[,1]`, `[1,,2]`, `[,]`, `[[],]`, `[{},]`, `["",]`, `[null,]`, `{"a":1,}`, `{,"a":1}`, `{"a":1,,"b":2}`, `{,}`, `{"a":[],}`, `{"a":"",}`, `{"a":{},}`, `{"a"}`, `{"a":}`, `{:1}`, `{"a":1:2}`, `{"a"::1}`, `{"a" 1}`, `{"a":1 "b":2}`, `{1:2}`, `{a:1}`, `{"a",1}`, `["a":1]`, `[1 2]`, `["a" "b"]`, `[1 [2]]`, `[[1] 2]`, `[{} {}]`, `[1}`, `{"a":1]`, `[`, `]`, `{`, `}`, `[[]`, `[]]`, `{"a":{}`, `{}}`, `"`, `"a`, `a"`, `1 1`, `,`, `:`, ``, `[:]`, `[1:2]`, `{[]}`, `{{}}`, `{"a":1,"b"}`, `{"a":1,2}`, `["a",:]`, `{null:1}`, `{[]:1}`, `{"a":[1,]}`, `[{"a":1,}]`, `[tru]`, `[01]`, `[-]`, `[1.]`, `[+1]`, `[1e]`, `{"a":nul}`, `{"a":-}`, `[] []`, `{} {}`, `"a" "b"`, `"a""b"`, `[]1`, `1[]`, `"a"1`, `1"a"`, `[]"a"`, `null null`, `nulll`}
	b = batch(b, "deep", cfg.n(120, 2000), func(t *T) {
		g := newGen(t)
		depth := 1 + g.n(12)
		if g.chance(0.1) {
			depth = 13 + g.n(60)
		}
		for _, x := range inner {
			checkMalformed(t, wrap(g, x, depth))
		}
		for i := 0; i < 25; i++ {
			checkMalformed(t, wrap(g, pickStr(g.r, words), 1+g.n(12)))
		}
		for i := 0; i < 10; i++ {
			d := neighbourDocs[g.n(len(neighbourDocs))]
			p := g.n(len(d))
			checkMalformed(t, wrap(g, d[:p]+d[p+1:], depth))
			checkMalformed(t, wrap(g, d[:p]+g.oneOf("{", "}", "[", "]", ":", ",", "\"", "1", "n", "-", ".", "x")+d[p:], depth))
		}
	})
	b = batch(b, "mutated-tokens", cfg.n(500, 9000), func(t *T) {
		g := newGen(t)
		pool := []string{"{", "}", "[", "]", ":", ",", `"a"`, `"`, "1", "null", "true", "-", "\\", "x", ".", `""`, `"a":`, "1.5"}
		for i := 0; i < 18; i++ {
			tk := append([]string{}, g.tokens(g.doc(3+g.n(12), false), textOpts{esc: g.n(2), numForm: g.n(2) == 0}, g.n(3) == 0)...)
			for k := 1 + g.n(2)*g.n(2); k > 0 && len(tk) > 2; k-- {
				p := 1 + g.n(len(tk)-2) // inside the envelope mostly
				if g.chance(0.1) {
					p = g.n(len(tk))
				}
				switch g.n(7) {
				case 0: // drop
					tk = append(tk[:p:p], tk[p+1:]...)
				case 1: // duplicate
					tk = append(tk[:p:p], append([]string{tk[p]}, tk[p:]...)...)
				case 2: // replace
					tk[p] = pickStr(g.r, pool)
				case 3: // insert
					tk = append(tk[:p:p], append([]string{pickStr(g.r, pool)}, tk[p:]...)...)
				case 4: // swap
					q := 1 + g.n(len(tk)-2)
					tk[p], tk[q] = tk[q], tk[p]
				case 5: // flip a bracket
					for s := 0; s < len(tk); s++ {
						x := (p + s) % len(tk)
						if f, ok := map[string]string{"{": "[", "}": "]", "[": "{", "]": "}"}[tk[x]]; ok {
							tk[x] = f
							break
						}
					}
				default: // mangle one token
					x := tk[p]
					if len(x) > 1 && g.chance(0.5) {
						tk[p] = x[:len(x)-1]
					} else {
						tk[p] = x + g.oneOf("0", "1", "a", "-", ".", "e", "\"", ",", "+")
					}
				}
			}
			checkMalformed(t, g.join(tk, g.n(2)))
		}
	})
	b = batch(b, "mutated-bytes", cfg.n(250, 4500), func(t *T) {
		g := newGen(t)
		for i := 0; i < 25; i++ {
			text := g.mutateBytes(g.jsonText(g.doc(3+g.n(8), false), textOpts{ws: g.n(2), esc: g.n(2)}))
			checkMalformed(t, text)
			if len(text) > 2 {
				checkMalformed(t, "{"+text[1:len(text)-1]+"}")
			}
		}
	})
	b = batch(b, "envelope", cfg.n(60, 800), func(t *T) {
		g := newGen(t)
		for i := 0; i < 20; i++ {
			x := g.jsonText(g.doc(3+g.n(6), false), textOpts{})
			y := g.jsonText(g.doc(1+g.n(3), false), textOpts{})
			w := g.str()
			for _, s := range []string{x + y, x + "," + y, "[" + x + "]", x + w, w + x, x + "}", "{" + x, x + "]", x + " " + y, x + "\n" + y, "{" + x + "}", x + w + y, x[:len(x)-1] + "," + y[1:len(y)-1], x[:len(x)-1] + y[1:]} {
				if g.chance(0.5) {
					checkMalformed(t, s)
				}
			}
		}
	})
	// every text one edit away from a document that is one number, word or text
	lits := []string{`1e10`, `-1.5E-10`, `12.25`, `100`, `0`, `-0`, `0.5`, `-7`, `1E+5`, `true`, `false`, `null`, `"a"`, `""`, `"a\nb"`, `[]`, `{}`}
	for i, l := range lits {
		l := l
		b = append(b, Case{Name: fmt.Sprintf("literal-edit-%d", i), Fn: func(t *T) {
			forms := []string{`{"k":%s}`, `{"k":[1,%s,"x"]}`, `{"a":{"k": %s ,"l":1}}`, `{"k":[%s]}`, `{"k": %s }`, `{"k":[ %s ]}`}
			for _, f := range forms[:cfg.n(3, 6)] {
				oneEdit(l, true, func(x string) { checkMalformed(t, strings.Replace(f, "%s", x, 1)) })
			}
		}})
	}
	// a backslash and a character, or two characters, in every gap
	for i, doc := range neighbourDocs {
		doc := doc
		b = append(b, Case{Name: fmt.Sprintf("gap-%d", i), Fn: func(t *T) {
			g := newGen(t)
			tk, ok := splitTokens(doc)
			if !ok {
				panic("tokens: " + doc)
			}
			pool := []byte("{}[]:,\"'\\/ \t\n\r-+.eExnulltruefalse019*#;=<>()&|!?%$@^~`_\x00\x0b\x0c\x7f\x80\xa0\xc2\xef\xbb\xbf\xff")
			for gap := 0; gap <= len(tk); gap++ {
				l, r := strings.Join(tk[:gap], ""), strings.Join(tk[gap:], "")
				for c := 0; c < 256; c++ {
					checkMalformed(t, l+"\\"+string([]byte{byte(c)})+r)
				}
				for k := 0; k < cfg.n(150, 3000); k++ {
					checkMalformed(t, l+string([]byte{pool[g.n(len(pool))], pool[g.n(len(pool))]})+r)
				}
				for _, w := range []string{"//", "/**/", "/* a */", "// a\n", "#", "--", "<!-- -->", "\\/", "\\\"", "\\\\", "\\u0020", "\\b", "\\f", "\\x20", "\ufeff", "\u00a0", "\u2028", "\u3000", "&nbsp;", "\x0b", "\x0c", "\x85"} {
					checkMalformed(t, l+w+r)
				}
			}
		}})
	}
	// the departure comes after a lot of good text
	b = batch(b, "after-much", cfg.n(60, 600), func(t *T) {
		g := newGen(t)
		n := []int{10, 31, 32, 63, 64, 99, 100, 127, 128, 255, 256, 500, 1000, 1023, 1024, 2000, 4095, 4096, 5000, 16384}[g.n(20)]
		n += g.n(3) - 1
		shape := g.n(9)
		cheap := shape == 0 || shape == 4 || shape == 5 || shape == 7 // one long token
		if !cheap && n > 1100 {
			n = 1100
		}
		if cheap && g.chance(0.15) {
			n = 65530 + g.n(20)
		}
		left := 60000 // roughly the work for one case
		if cheap {
			left = 1500000
		}
		check := func(text string) {
			if left -= len(text); left > 0 {
				checkMalformed(t, text)
			}
		}
		rep := func(unit, sep string) string {
			var b strings.Builder
			for i := 0; b.Len() < n; i++ {
				if i > 0 {
					b.WriteString(sep)
				}
				if strings.Contains(unit, "%d") {
					fmt.Fprintf(&b, unit, i)
				} else {
					b.WriteString(unit)
				}
			}
			return b.String()
		}
		var pre, post string
		switch shape {
		case 0:
			pre, post = `{"p":"`+strings.Repeat("x", n)+`","q":`, `}`
		case 1:
			pre, post = `{"p":[`+rep("1", ",")+`],"q":`, `}`
		case 2:
			pre, post = `{`+rep(`"k%d":1`, ",")+`,"q":`, `}`
		case 3:
			pre, post = `{"p":[`+rep(`{"a":1}`, ",")+`,`, `]}`
		case 4:
			pre, post = `{`+strings.Repeat(g.oneOf(" ", "\n", "\t"), n)+`"q":`, `}`
		case 5:
			pre, post = `{"`+strings.Repeat("k", n)+`":`, `}`
		case 6:
			pre, post = `{"p":[`+rep(`[]`, ",")+`],"q":{"r":[`, `]}}`
		case 7:
			pre, post = `{"p":"`+rep(`\n\"`, "")+`","q":[`, `]}`
		default:
			pre, post = `{"p":{`+rep(`"k%d":"v%[1]d"`, ",")+`},"q":`, `}`
		}
		if g.chance(0.4) { // and much follows
			post = `,` + g.oneOf(`"z":1`, `"z":"`+strings.Repeat("y", n)+`"`) + `}`
			if strings.Contains(pre[len(pre)-6:], "[") || strings.HasSuffix(pre, ",") {
				post = `,` + rep("2", ",") + `]}`
				if strings.Contains(pre, `"r":[`) {
					post += "}"
				}
			}
		}
		for _, i := range g.r.Perm(len(inner)) {
			check(pre + inner[i] + post)
			if g.chance(0.1) {
				check(pre + `1` + pickStr(g.r, words) + post)
				check(pre + pickStr(g.r, words) + post)
			}
		}
		left += 20000
		if cheap {
			left += 700000
		}
		full := pre + `[{"a":"b"},1]` + post
		for i := 0; i < 30; i++ {
			p := len(full) - 1 - g.n(40)
			if g.chance(0.2) {
				p = g.n(len(full))
			}
			if p < 0 {
				continue
			}
			check(full[:p] + full[p+1:])
			check(full[:p] + g.oneOf("{", "}", "[", "]", ":", ",", "\"", "1", "n", "-", ".", "x") + full[p:])
		}
	})
	// every text one edit away from a document
	for i, doc := range neighbourDocs {
		doc := doc
		b = append(b, Case{Name: fmt.Sprintf("one-edit-%d", i), Fn: func(t *T) {
			oneEdit(doc, t.cfg.thorough(), func(s string) { checkMalformed(t, s) })
		}})
	}
	for i, w := range []string{"true", "false", "null"} {
		w := w
		b = append(b, Case{Name: fmt.Sprintf("letter-case-%d", i), Fn: func(t *T) {
			for m := 1; m < 1<<len(w); m++ {
				x := []byte(w)
				for j := range x {
					if m>>j&1 == 1 {
						x[j] -= 'a' - 'A'
					}
				}
				for _, f := range []string{`{"k":%s}`, `{"k":[%s]}`, `{"k":[1,%s,2]}`, `{"a":{"k":%s,"l":1}}`} {
					checkMalformed(t, strings.Replace(f, "%s", string(x), 1))
				}
			}
		}})
	}
	// far from the start: the defect sits deep, wide or late in the document
	b = batch(b, "late", cfg.n(50, 500), func(t *T) {
		g := newGen(t)
		size := []int{5, 20, 33, 64, 100, 129, 257}[g.n(7)]
		if hs := g.hot.Sizes(600); len(hs) > 0 && g.chance(0.5) {
			size = hs[g.n(len(hs))] + 1
		}
		n := g.shaped(shapes[g.n(len(shapes))], size)
		tk := g.tokens(n, textOpts{}, false)
		for k := 0; k < 3; k++ {
			c := append([]string{}, tk...)
			p := len(c) - 1 - g.n(len(c)/2)
			switch g.n(4) {
			case 0:
				c = append(c[:p:p], c[p+1:]...)
			case 1:
				c = append(c[:p:p], append([]string{g.oneOf("]", "}", "[", "{", ",", ":", "x", "1")}, c[p:]...)...)
			case 2:
				if f, ok := map[string]string{"{": "[", "}": "]", "[": "{", "]": "}"}[c[p]]; ok {
					c[p] = f
				} else {
					c[p] += "x"
				}
			default:
				c = append(c[:p:p], append([]string{c[p]}, c[p:]...)...)
			}
			checkMalformed(t, strings.Join(c, ""))
		}
	})
	return interleave(a, b)
}

// ---------------------------------------------------------------- C05

func whitespaceCases(cfg *Config) []Case {
	compare := func(t *T, want *Node, compact, text string) {
		t.Input(want.count() > 2, clip(text, 400))
		t.Event("spaced parses")
		m, errs := hj.Parse(text)
		if m == nil {
			t.Fail("rejected", "text with whitespace rejected: %s\ncompact %q\nspaced  %q", errsText(errs), clip(compact, 1500), clip(text, 1500))
		}
		if d := diff(want, observeMap(m), true); d != "" {
			t.Fail("differs", "%s\ncompact %q\nspaced  %q", d, clip(compact, 1500), clip(text, 1500))
		}
	}
	base := func(t *T, compact string) *Node {
		m, errs := hj.Parse(compact)
		if m == nil {
			t.Fail("rejected", "compact text rejected: %s\n%q", errsText(errs), clip(compact, 2000))
		}
		got := observeMap(m)
		if want, err := oracleParse(compact); err == nil {
			if d := parsedDiff("$", want, got); d != "" {
				t.Fail("unfaithful", "%s\n%q", d, clip(compact, 2000))
			}
		}
		return got
	}
	var a, b []Case
	a = batch(a, "random", cfg.n(400, 7000), func(t *T) {
		g := newGen(t)
		for i := 0; i < 8; i++ {
			tk := g.tokens(g.doc(4+g.n(14), false), textOpts{esc: g.n(2), numForm: g.n(2) == 0}, true)
			compact := strings.Join(tk, "")
			if _, err := oracleParse(compact); err != nil {
				continue
			}
			want := base(t, compact)
			compare(t, want, compact, g.join(tk, 1))
			compare(t, want, compact, g.join(tk, 2))
		}
	})
	b = batch(b, "each-gap", cfg.n(100, 1800), func(t *T) {
		g := newGen(t)
		tk := g.tokens(g.doc(2+g.n(8), false), textOpts{}, true)
		compact := strings.Join(tk, "")
		if _, err := oracleParse(compact); err != nil {
			return
		}
		want := base(t, compact)
		for gap := 1; gap < len(tk); gap++ {
			for _, w := range []string{" ", "\t", "\r", "\n", "\r\n", "\n\t", "  ", " \n \t "} {
				if len(tk) > 30 && !g.chance(0.4) {
					continue
				}
				compare(t, want, compact, strings.Join(tk[:gap], "")+w+strings.Join(tk[gap:], ""))
			}
		}
	})
	// every kind of token next to every gap, all whitespace characters
	kinds := []string{`1`, `-1`, `300`, `-70000`, `1.5`, `1e5`, `-0.25`, `""`, `"a"`, `" a "`, `"\\"`, `"\""`, `"a\n"`, `true`, `false`, `null`, `[]`, `{}`, `[1]`, `{"x":1}`, `[[]]`, `["\\",1]`, `18446744073709551615`, `-9223372036854775808`}
	for i, k1 := range kinds {
		k1 := k1
		b = append(b, Case{Name: fmt.Sprintf("kinds-%d", i), Fn: func(t *T) {
			g := newGen(t)
			for _, k2 := range kinds {
				tk := []string{"{", `"k"`, ":", k1, ",", `"l"`, ":", "[", k1, ",", k2, "]", ",", `"m"`, ":", k2, "}"}
				compact := strings.Join(tk, "")
				want := base(t, compact)
				for _, w := range []string{" ", "\t", "\r", "\n"} {
					compare(t, want, compact, strings.Join(tk, w))
				}
				gap := 1 + g.n(len(tk)-1)
				compare(t, want, compact, strings.Join(tk[:gap], "")+g.oneOf(" ", "\t", "\r", "\n", "\n ")+strings.Join(tk[gap:], ""))
			}
		}})
	}
	// the whitespace around a text also inside it, unescaped
	b = batch(b, "inside-and-outside", cfg.n(80, 1400), func(t *T) {
		g := newGen(t)
		for i := 0; i < 6; i++ {
			w := g.oneOf(" ", "\t", "\r", "\n", "\r\n", "\t ", " \t")
			raw := func() string {
				return `"` + g.oneOf("", "a", "\\\\", "b c", "é") + strings.Repeat(w, 1+g.n(3)) + g.oneOf("", "a", ",", ":", "}", "]", "\\\"", "1", w) + `"`
			}
			tk := []string{"{", raw(), ":", g.oneOf("1", raw(), "[]", "{}", "true", "-1.5"), ",", raw(), ":", "[", raw(), ",", "{", raw(), ":", raw(), "}", ",", g.oneOf("1", raw(), "null"), "]", ",", `"z"`, ":", g.oneOf("1", raw()), "}"}
			compact := strings.Join(tk, "")
			want := base(t, compact)
			for gap := 1; gap < len(tk); gap++ {
				for n := 1; n <= 3; n++ {
					compare(t, want, compact, strings.Join(tk[:gap], "")+strings.Repeat(w, n)+strings.Join(tk[gap:], ""))
				}
			}
			compare(t, want, compact, strings.Join(tk, w))
			compare(t, want, compact, g.join(tk, 2))
		}
	})
	// long runs
	runs := []int{1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 4096, 65536}
	runs = append(runs, cfg.Hot.Sizes(100000)...)
	for _, n := range runs {
		n := n
		b = append(b, Case{Name: fmt.Sprintf("run-%d", n), Fn: func(t *T) {
			g := newGen(t)
			docs := [][]string{{"{", `"k "`, ":", `" v "`, ",", `" \" "`, ":", "[", `"\\ "`, ",", `" , "`, "]", ",", `"\" \""`, ":", "{", `" : "`, ":", `"} "`, "}", "}"}, {"{", `"k"`, ":", `1`, ",", `"l l"`, ":", "[", `true`, ",", `"a b"`, "]", ",", `"m"`, ":", "{", "}", ",", `"n"`, ":", `-1.5`, "}"}}
			if n <= 5000 { // every kind of value, under a key and in an array
				var tk []string
				for i, k := range append(append([]string{}, kinds...), `1.0`, `-0.0`, `100.0e0`, `1E2`, `0`, `-0`) {
					sep := ","
					if i%3 == 0 {
						tk, sep = nil, "{"
					}
					tk = append(tk, sep, fmt.Sprintf(`"k%d"`, i), ":", k, ",", fmt.Sprintf(`"a%d"`, i), ":", "[", k, ",", k, "]")
					if i%3 == 2 {
						docs = append(docs, append(tk, "}"))
					}
				}
			}
			for _, tk := range docs {
				compact := strings.Join(tk, "")
				want := base(t, compact)
				for gap := 1; gap < len(tk); gap++ {
					if n > 1100 && !g.chance(0.2) {
						continue
					}
					w := strings.Repeat(g.oneOf(" ", "\t", "\r", "\n"), n)
					compare(t, want, compact, strings.Join(tk[:gap], "")+w+strings.Join(tk[gap:], ""))
				}
			}
		}})
	}
	return interleave(a, b)
}
