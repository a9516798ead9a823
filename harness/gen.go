package main

// Workload generators: strings, numbers, documents, texts; and the independent
// oracle that reads JSON texts (encoding/json tokens).

import (
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math"
	"math/big"
	"math/rand"
	"regexp"
	"strconv"
	"strings"
	"time"
	"unicode/utf8"
)

type Gen struct {
	r   *rand.Rand
	hot *Hot

	// what was generated lately, to be repeated: equal keys, values, numbers and
	// parts in one document are coincidences that independent choices never make
	said []string
	nums []*big.Int
}

// again gives a text related to one generated before.
func (g *Gen) again() string {
	s := g.said[g.n(len(g.said))]
	switch g.n(15) {
	case 6, 7, 8:
		return g.sibling(s)
	case 0:
		return strings.ToUpper(s)
	case 1:
		return s + g.oneOf(" ", "\x00", "\t", "a", "0", "\\", "\"", "\u0301", ".")
	case 2:
		return g.oneOf(" ", "\ufeff", "-", "a", "\"", "_") + s
	case 3:
		if r := []rune(s); len(r) > 1 {
			return string(r[:len(r)-1])
		}
	case 4:
		if r := []rune(s); len(r) > 1 {
			return string(r[1:])
		}
	case 5:
		q, _ := json.Marshal(s)
		return string(q)
	}
	return s
}

func (g *Gen) remember(s string) string {
	if len(s) < 1100 && utf8.ValidString(s) {
		if len(g.said) < 12 {
			g.said = append(g.said, s)
		} else {
			g.said[g.n(len(g.said))] = s
		}
	}
	return s
}

func newGen(t *T) *Gen { return &Gen{r: t.R, hot: t.cfg.Hot} }

func (g *Gen) n(n int) int                    { return g.r.Intn(max(n, 1)) }
func (g *Gen) chance(p float64) bool          { return g.r.Float64() < p }
func (g *Gen) builder() *builder              { return &builder{pick: g.r.Intn} }
func pickStr(r *rand.Rand, l []string) string { return l[r.Intn(len(l))] }
func (g *Gen) oneOf(l ...string) string       { return l[g.r.Intn(len(l))] }

var wordStrings = []string{
	"", " ", "a", "b", "k", "key", "name", "id", "value", "nil", "<nil>", "null", "NULL", "true", "false", "True", "0", "1", "-1", "00", "map[]", "[]", "{}", "[", "]", "{", "}",
	",", ":", "\"", "\\", "\\\\", "\"\"", "\\\"", "'", "`", "/", "\\/", "\\n", "\\u0041", "\\u", "%", "%s", "%d%!", "100%", "%!s(MISSING)", "%%", "&", "<", ">", "&amp;", "\u2028", "\u2029",
	"\x00", "\x01", "\x1f", "\x7f", "\b", "\f", "\n", "\r", "\t", "\r\n", " lead", "trail ", "a b", "a  b", "\ta", "a\t", "é", "ü", "ß", "日本語", "😀", "👩\u200d👩\u200d👧", "e\u0301", "\ufeff", "\ufffd", "\U0010ffff", "\u0080", "\u07ff", "\u0800", "\uffff",
	"n", "r", "t", "u", "\\n\\r\\t", "a,b", "a:b", "{\"a\":1}", "[1,2]", "\"a\":\"b\"", "1.5", "1e5", "-0", "NaN", "Infinity", "undefined", "zero", "now", "0000-00-00 00:00:00", "2021-01-02 03:04:05.123456", "json.Map", "*json.Map", "*string",
	"opening_quote", "closing_quote", "looking_for_value", "string", "error", "%!s(*string=<nil>)", "$", "$ref", ".", "a.b", "a/b", "__proto__", "constructor", "length", "{]", "[}", "}{", "][", "//", "/*x*/", "#", ";", "|", "\x7f\x80"[:1],
}

var runePool = []rune{'a', 'b', 'z', 'A', '0', '9', ' ', '"', '\\', '/', '{', '}', '[', ']', ',', ':', '\n', '\t', '\r', '\b', '\f', 0, 1, 0x1f, 0x7f, 0x80, 0xa0, 'é', 'ñ', 0x7ff, 0x800, '中', '語', 0x2028, 0xd7ff, 0xe000, 0xfeff, 0xfffd, 0xffff, 0x10000, '😀', 0x10ffff, 'n', 'r', 't', 'u', '%', '\'', '`'}

var sizePool = []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 15, 16, 17, 20, 23, 24, 31, 32, 33, 40, 48, 63, 64, 65, 80, 100, 127, 128, 129, 200, 255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097}

// str gives a valid UTF-8 string.
func (g *Gen) str() string {
	switch x := g.n(100); {
	case x < 30:
		return pickStr(g.r, wordStrings)
	case x < 50:
		return g.runes(g.n(12))
	case x < 65:
		return g.ascii(g.n(16))
	case x < 75:
		return pickStr(g.r, wordStrings) + pickStr(g.r, wordStrings)
	case x < 82:
		return g.runes(sizePool[g.n(27)])
	case x < 86:
		n := sizePool[g.n(len(sizePool)-9)]
		return g.ascii(n)
	case x < 90:
		w := pickStr(g.r, wordStrings)
		return strings.Repeat(w, 1+g.n(6))
	default:
		if len(g.hot.Strings) > 0 {
			return g.hotStr()
		}
		return g.runes(1 + g.n(5))
	}
}

func validUTF8(s string) string { return strings.ToValidUTF8(s, "?") }

func (g *Gen) hotStr() string {
	h := validUTF8(pickStr(g.r, g.hot.Strings))
	switch g.n(8) {
	case 0, 1, 2:
		return h
	case 3:
		return h + g.ascii(1+g.n(4))
	case 4:
		return g.ascii(1+g.n(4)) + h
	case 5:
		return g.ascii(1+g.n(3)) + h + g.ascii(1+g.n(3))
	case 6:
		return strings.Repeat(h, 1+g.n(4))
	default:
		if len(h) > 1 {
			return h[:len(h)-1-0]
		}
		return strings.ToUpper(h)
	}
}

func (g *Gen) runes(n int) string {
	var b strings.Builder
	for i := 0; i < n; i++ {
		switch g.n(4) {
		case 0:
			r := rune(g.n(0x110000))
			if r >= 0xd800 && r < 0xe000 {
				r = 'x'
			}
			b.WriteRune(r)
		case 1:
			b.WriteRune(rune(g.n(0x180)))
		default:
			b.WriteRune(runePool[g.n(len(runePool))])
		}
	}
	return b.String()
}

func (g *Gen) ascii(n int) string {
	b := make([]byte, n)
	mode := g.n(3)
	for i := range b {
		switch mode {
		case 0:
			b[i] = byte('a' + g.n(26))
		case 1:
			b[i] = byte(0x20 + g.n(0x5f))
		default:
			b[i] = "abcXYZ019_-. \\\"/"[g.n(16)]
		}
	}
	return string(b)
}

// bytesStr may be invalid UTF-8.
func (g *Gen) bytesStr() string {
	if g.chance(0.5) {
		return g.str()
	}
	b := make([]byte, g.n(10))
	for i := range b {
		b[i] = byte(g.n(256))
	}
	return string(b)
}

var intTypes = []string{"int8", "int16", "int32", "int64", "int", "uint8", "uint16", "uint32", "uint64", "uint"}

func intRange(ty string) (lo, hi *big.Int) {
	bits, signed := 64, true
	if strings.HasPrefix(ty, "u") {
		signed = false
	}
	switch {
	case strings.HasSuffix(ty, "8"):
		bits = 8
	case strings.HasSuffix(ty, "16"):
		bits = 16
	case strings.HasSuffix(ty, "32"):
		bits = 32
	}
	one := big.NewInt(1)
	if signed {
		hi = new(big.Int).Sub(new(big.Int).Lsh(one, uint(bits-1)), one)
		lo = new(big.Int).Neg(new(big.Int).Lsh(one, uint(bits-1)))
	} else {
		hi = new(big.Int).Sub(new(big.Int).Lsh(one, uint(bits)), one)
		lo = big.NewInt(0)
	}
	return
}

func fits(v *big.Int, ty string) bool {
	lo, hi := intRange(ty)
	return v.Cmp(lo) >= 0 && v.Cmp(hi) <= 0
}

// bigInt gives an integer anywhere in [-2^63, 2^64-1], biased to boundaries.
func (g *Gen) bigInt() *big.Int {
	one := big.NewInt(1)
	v := new(big.Int)
	switch x := g.n(100); {
	case x < 35: // power of two neighbourhood
		v.Lsh(one, uint(g.n(65)))
		v.Add(v, big.NewInt(int64(g.n(7)-3)))
	case x < 45: // power of ten neighbourhood
		v.Exp(big.NewInt(10), big.NewInt(int64(g.n(20))), nil)
		v.Add(v, big.NewInt(int64(g.n(5)-2)))
	case x < 60:
		v.SetInt64(int64(g.n(300)))
	case x < 65 && len(g.hot.Ints) > 0:
		v.SetInt64(g.hot.Ints[g.n(len(g.hot.Ints))])
		v.Abs(v)
	default: // random width
		v.SetUint64(g.r.Uint64() >> uint(g.n(64)))
	}
	if g.n(2) == 0 {
		v.Neg(v)
	}
	if !fits(v, "int64") && !fits(v, "uint64") {
		v.SetUint64(g.r.Uint64() >> uint(g.n(64)))
	}
	return v
}

func (g *Gen) intNode() *Node {
	for {
		v := g.bigInt()
		if len(g.nums) > 0 && g.chance(0.15) { // the same number as before, in any type
			v.Set(g.nums[g.n(len(g.nums))])
			if g.chance(0.2) {
				v.Neg(v)
			}
		} else if len(g.nums) < 8 {
			g.nums = append(g.nums, new(big.Int).Set(v))
		} else {
			g.nums[g.n(8)].Set(v)
		}
		ty := intTypes[g.n(len(intTypes))]
		if fits(v, ty) {
			return &Node{K: KInt, Ty: ty, I: v}
		}
		if g.chance(0.3) {
			lo, hi := intRange(ty)
			span := new(big.Int).Sub(hi, lo)
			v.Mod(v.Abs(v), span)
			v.Add(v, lo)
			return &Node{K: KInt, Ty: ty, I: v}
		}
	}
}

func (g *Gen) f64() float64 {
	switch x := g.n(100); {
	case x < 25: // few decimals
		d := g.n(12)
		f, _ := strconv.ParseFloat(fmt.Sprintf("%d.%0*d", g.n(2000)-1000, d+1, g.r.Int63n(int64(math.Pow10(d+1)))), 64)
		return f
	case x < 35:
		return []float64{0, math.Copysign(0, -1), 0.1, 0.5, -0.5, 1, -1, 1.5, 0.3, 2.0 / 3, 1e-7, 1e-6, 5e-7, 1e20, 1e21, 1e22, 1e100, 123456789.123456789, 16777216, 16777217, 9007199254740992, 9007199254740993, math.MaxFloat64, -math.MaxFloat64, math.SmallestNonzeroFloat64, math.MaxFloat32, -math.MaxFloat32, math.SmallestNonzeroFloat32, 3.4028236e38, 1e-45, 1e-46, 2.2250738585072014e-308, 4.35, 0.000001, 0.0000001, 1234567.891}[g.n(36)]
	case x < 55: // random bits
		for {
			f := math.Float64frombits(g.r.Uint64())
			if !math.IsNaN(f) && !math.IsInf(f, 0) {
				return f
			}
		}
	case x < 70:
		return float64(math.Float32frombits(g.r.Uint32() & 0xbfffffff))
	case x < 80:
		return float64(g.r.Int63n(1<<53)) * math.Pow(10, float64(g.n(30)-15))
	case x < 85:
		return math.Nextafter(float64(g.n(1000)), math.Inf(1-2*g.n(2)))
	case x < 90 && len(g.hot.Floats)+len(g.hot.Ints) > 0:
		if len(g.hot.Floats) > 0 && g.chance(0.5) {
			return g.hot.Floats[g.n(len(g.hot.Floats))]
		}
		if len(g.hot.Ints) > 0 {
			return float64(g.hot.Ints[g.n(len(g.hot.Ints))]) + []float64{0, 0.5, -0.5, 0.25}[g.n(4)]
		}
		fallthrough
	default:
		return (g.r.Float64() - 0.5) * math.Pow(10, float64(g.n(12)-4))
	}
}

func (g *Gen) f32() float32 {
	if g.chance(0.5) {
		for {
			f := math.Float32frombits(g.r.Uint32())
			if f == f && !math.IsInf(float64(f), 0) {
				return f
			}
		}
	}
	f := float32(g.f64())
	if math.IsInf(float64(f), 0) {
		return 1.5
	}
	return f
}

func (g *Gen) time() time.Time {
	var t time.Time
	switch g.n(6) {
	case 0:
		t = time.Date(1+g.n(9999), time.Month(1+g.n(12)), 1+g.n(28), g.n(24), g.n(60), g.n(60), g.n(1000000000), time.UTC)
	case 1:
		t = time.Date(1970+g.n(100), time.Month(1+g.n(12)), 1+g.n(31), g.n(24), g.n(60), g.n(60), g.n(1000000)*1000, time.UTC)
	case 2:
		t = time.Date(2000+4*g.n(10), 2, 29, 23, 59, 59, []int{0, 1, 999, 1000, 999999, 1000000, 999999999, 999999000, 500, 123456789}[g.n(10)], time.UTC)
	case 3:
		t = time.Unix(g.r.Int63n(4e9), int64(g.n(1000000000))).UTC()
	case 4:
		t = time.Date(2000, 1, 1, 0, 0, 0, 0, time.UTC)
	default:
		t = time.Date(1900+g.n(200), 12, 31, 23, 59, 59, g.n(1000000000), time.UTC)
	}
	if g.chance(0.3) {
		t = t.In(time.FixedZone("X", (g.n(28)-14)*3600+g.n(4)*900))
	}
	if t.Year() < 1 || t.Year() > 9999 {
		return time.Date(2020, 5, 6, 7, 8, 9, 0, time.UTC)
	}
	return t
}

// ---------------------------------------------------------------- documents

type docOpts struct {
	budget   int
	maxDepth int
	extra    bool // times and errors
	finite   bool
	anyBytes bool // keys and strings may be invalid UTF-8
	subs     []*Node
}

func (g *Gen) text(o *docOpts) string {
	if o.anyBytes && g.chance(0.15) {
		return g.bytesStr()
	}
	if len(g.said) > 0 && g.chance(0.12) {
		return g.again()
	}
	return g.remember(g.str())
}

func (g *Gen) scalar(o *docOpts) *Node {
	switch x := g.n(100); {
	case x < 12:
		return nNull()
	case x < 24:
		return nBool(g.n(2) == 0)
	case x < 50:
		return nStr(g.text(o))
	case x < 75:
		return g.intNode()
	case x < 82:
		return nF32(g.f32())
	case x < 92:
		return nF64(g.f64())
	default:
		if o.extra {
			switch g.n(4) {
			case 0, 1:
				return nTime(g.time())
			case 2:
				return nErr(g.errText())
			default:
				l := []string{}
				for i := g.listLen(); i > 0; i-- {
					l = append(l, g.errText())
				}
				return &Node{K: []Kind{KErrs, KStrs}[g.n(2)], L: l}
			}
		}
		return nStr(g.text(o))
	}
}

func (g *Gen) listLen() int {
	if g.chance(0.15) {
		return g.n(20)
	}
	return g.n(4)
}

func (g *Gen) errText() string {
	if g.chance(0.3) {
		return g.oneOf("boom", "100% sure", "%d", "nil", "<nil>", "map[]", "a\nb", "")
	}
	return g.str()
}

func (g *Gen) key(o *docOpts, n *Node) string {
	if len(n.Keys) > 0 && g.chance(0.12) {
		k := n.Keys[g.n(len(n.Keys))]
		switch g.n(7) {
		case 5, 6:
			return g.sibling(k)
		case 0:
			return k + " "
		case 1:
			return strings.ToUpper(k)
		case 2:
			return k + k
		case 3:
			return " " + k
		}
		return k
	}
	if g.chance(0.4) {
		return g.remember(g.ascii(1 + g.n(8)))
	}
	if g.chance(0.02) {
		return g.remember(g.ascii(60 + g.n(300)))
	}
	return g.text(o)
}

func (g *Gen) value(o *docOpts, depth int) *Node {
	if o.budget <= 0 || depth >= o.maxDepth {
		o.budget--
		return g.scalar(o)
	}
	if len(o.subs) > 0 && g.chance(0.06) { // a part with equal content
		n := o.subs[g.n(len(o.subs))].copy()
		o.budget -= n.count()
		return n
	}
	switch x := g.n(100); {
	case x < 18:
		return g.recall(o, g.mapNode(o, depth+1))
	case x < 36:
		return g.recall(o, g.arrNode(o, depth+1))
	}
	o.budget--
	return g.scalar(o)
}

func (g *Gen) recall(o *docOpts, n *Node) *Node {
	if n.count() > 12 {
		return n
	}
	if len(o.subs) < 4 {
		o.subs = append(o.subs, n.copy())
	} else {
		o.subs[g.n(4)] = n.copy()
	}
	return n
}

func (g *Gen) width(o *docOpts) int {
	w := g.n(6)
	if g.chance(0.1) {
		w = g.n(40)
	}
	if w > o.budget {
		w = o.budget
	}
	return w
}

func (g *Gen) mapNode(o *docOpts, depth int) *Node {
	n := nMap()
	o.budget--
	for i := g.width(o); i > 0; i-- {
		k := g.key(o, n)
		n.set(k, g.value(o, depth))
	}
	return n
}

func (g *Gen) arrNode(o *docOpts, depth int) *Node {
	n := nArr()
	o.budget--
	w := g.width(o)
	if g.chance(0.3) { // homogeneous
		k := g.n(4)
		for i := 0; i < w; i++ {
			o.budget--
			switch k {
			case 0:
				n.Vals = append(n.Vals, g.intNode())
			case 1:
				n.Vals = append(n.Vals, nStr(g.text(o)))
			case 2:
				n.Vals = append(n.Vals, nF64(g.f64()))
			default:
				n.Vals = append(n.Vals, nBool(g.n(2) == 0))
			}
		}
		return n
	}
	for i := 0; i < w; i++ {
		n.Vals = append(n.Vals, g.value(o, depth))
	}
	return n
}

// doc gives a document with a map root and about budget values.
func (g *Gen) doc(budget int, extra bool) *Node {
	o := &docOpts{budget: budget, maxDepth: 2 + g.n(6), extra: extra}
	n := nMap()
	o.budget--
	for i := 1 + g.n(7); i > 0 && o.budget > 0; i-- {
		n.set(g.key(o, n), g.value(o, 1))
	}
	if o.budget > 0 && g.chance(0.5) {
		n.set(g.key(o, n), g.arrNode(o, 1))
	}
	return n
}

// shareParts puts some parts of the tree in further places of it (never inside
// themselves) and returns those parts.
func (g *Gen) shareParts(root *Node) map[*Node]bool {
	type slot struct {
		p *Node
		i int
	}
	marked := map[*Node]bool{}
	for k := 1 + g.n(3); k > 0; k-- {
		var slots []slot
		var nodes []*Node
		seen := map[*Node]bool{}
		var walk func(n *Node)
		walk = func(n *Node) {
			if seen[n] {
				return
			}
			seen[n] = true
			nodes = append(nodes, n)
			for i, v := range n.Vals {
				slots = append(slots, slot{n, i})
				walk(v)
			}
		}
		walk(root)
		x := nodes[g.n(len(nodes))]
		if x == root || x.count() > 60 {
			continue
		}
		for j := 1 + g.n(3); j > 0; j-- {
			s := slots[g.n(len(slots))]
			if reaches(x, s.p) {
				continue
			}
			if s.p.K == KArr && g.chance(0.6) {
				s.p.Vals = append(s.p.Vals, x)
			} else {
				s.p.Vals[s.i] = x
			}
			marked[x] = true
		}
	}
	return marked
}

// shaped documents sweep one dimension: width, depth, string or key length.
func (g *Gen) shaped(shape string, size int) *Node {
	root := nMap()
	switch shape {
	case "wide-map":
		for i := 0; i < size; i++ {
			root.set(fmt.Sprintf("k%d", i), nInt("uint16", int64(i)))
		}
	case "wide-map-inner":
		in := nMap()
		for i := 0; i < size; i++ {
			in.set(fmt.Sprintf("%dk", i), nStr(strconv.Itoa(i)))
		}
		root.set("a", in)
		root.set("z", nBool(true))
	case "wide-array":
		a := nArr()
		for i := 0; i < size; i++ {
			a.Vals = append(a.Vals, nInt("uint16", int64(i)))
		}
		root.set("a", a)
		root.set("z", nNull())
	case "mixed-array":
		a := nArr()
		for i := 0; i < size; i++ {
			o := &docOpts{budget: 3, maxDepth: 2}
			a.Vals = append(a.Vals, g.value(o, 1))
		}
		root.set("a", a)
	case "deep-array":
		cur := nArr(nInt("uint8", 7))
		for i := 1; i < size; i++ {
			cur = nArr(cur)
			if g.chance(0.2) {
				cur.Vals = append(cur.Vals, nInt("uint8", int64(i%200)))
			}
		}
		root.set("a", cur)
		root.set("b", nInt("uint8", 1))
	case "deep-map":
		cur := nMap()
		cur.set("x", nStr("leaf"))
		for i := 1; i < size; i++ {
			m := nMap()
			if g.chance(0.2) {
				m.set("l", nInt("uint8", int64(i%200)))
			}
			m.set("d", cur)
			if g.chance(0.2) {
				m.set("r", nBool(true))
			}
			cur = m
		}
		root.set("a", cur)
	case "deep-mixed":
		cur := nMap()
		cur.set("x", nNull())
		for i := 1; i < size; i++ {
			if i%2 == 0 {
				m := nMap()
				m.set("d", cur)
				cur = m
			} else {
				a := nArr(cur)
				if g.chance(0.3) {
					a.Vals = append(a.Vals, nStr("t"))
				}
				cur = a
			}
		}
		root.set("a", cur)
	case "long-string":
		root.set("s", nStr(g.fill(size)))
		root.set("z", nStr("end"))
	case "long-key":
		root.set(g.fill(size), nInt("uint8", 1))
		root.set("z", nStr("end"))
	case "long-array-string":
		root.set("a", nArr(nStr(g.fill(size)), nStr("x"), nStr(g.fill(size))))
	case "empties":
		a := nArr()
		for i := 0; i < size; i++ {
			if i%3 == 0 {
				a.Vals = append(a.Vals, nMap())
			} else if i%3 == 1 {
				a.Vals = append(a.Vals, nArr())
			} else {
				a.Vals = append(a.Vals, nStr(""))
			}
		}
		root.set("a", a)
		root.set("m", nMap())
	case "siblings":
		for i := 0; i < size; i++ {
			m := nMap()
			m.set("v", nInt("uint16", int64(i)))
			m.set("w", nArr(nInt("uint16", int64(i)), nNull()))
			root.set(fmt.Sprintf("s%d", i), m)
		}
	}
	return root
}

var shapes = []string{"wide-map", "wide-map-inner", "wide-array", "mixed-array", "deep-array", "deep-map", "deep-mixed", "long-string", "long-key", "long-array-string", "empties", "siblings"}

// fill gives a string of exactly n bytes whose content is position dependent.
func (g *Gen) fill(n int) string {
	var b strings.Builder
	mode := g.n(4)
	for b.Len() < n {
		switch mode {
		case 0:
			b.WriteByte(byte('a' + b.Len()%26))
		case 1:
			s := g.oneOf("é", "日", "x", "\"", "\\", "\n", "😀")
			if b.Len()+len(s) > n {
				s = "y"
			}
			b.WriteString(s)
		case 2:
			b.WriteString(g.oneOf(" ", "a", ",", ":", "{", "}", "[", "]"))
		default:
			b.WriteByte(byte('A' + g.n(26)))
		}
	}
	return b.String()
}

// sweep lists (shape, size) pairs; sizes are dense when small, then around
// powers of two, then whatever new integer literals the sources hold.
type shapeSize struct {
	shape string
	size  int
}

func shapeSweep(cfg *Config) []shapeSize {
	var res []shapeSize
	for _, s := range shapes {
		limit, dense := 1100, 42
		switch s {
		case "deep-array", "deep-map", "deep-mixed":
			limit, dense = 300, 42
			if cfg.thorough() {
				limit = 700
			}
		case "long-string", "long-key", "long-array-string":
			limit = 70000
			dense = 70
		case "wide-map", "wide-map-inner", "siblings":
			limit = 520
			if cfg.thorough() {
				limit = 2100
			}
		}
		seen := map[int]bool{}
		add := func(n int) {
			if n >= 0 && n <= limit && !seen[n] {
				seen[n] = true
				res = append(res, shapeSize{s, n})
			}
		}
		for i := 0; i <= dense; i++ {
			add(i)
		}
		for p := 64; p <= limit; p *= 2 {
			add(p - 1)
			add(p)
			add(p + 1)
		}
		for _, n := range []int{50, 80, 96, 99, 100, 101, 150, 199, 200, 201, 250, 300, 400, 500, 501, 750, 1000, 1001, 4000, 10000, 50000} {
			add(n)
		}
		limit2 := limit
		switch s {
		case "wide-map", "wide-array":
			limit = 6000
			add(2100)
			add(5000)
		}
		switch s {
		case "deep-array", "deep-map", "deep-mixed":
			limit2 = 1200
		case "wide-map", "wide-map-inner", "wide-array", "mixed-array", "siblings", "empties":
			limit2 = 3000
		case "long-string", "long-key":
			limit2 = 300000
		}
		limit = limit2
		for _, n := range cfg.Hot.Sizes(limit) {
			add(n)
		}
	}
	return res
}

// ---------------------------------------------------------------- texts

type textOpts struct {
	ws      int // 0 none, 1 random, 2 heavy
	esc     int // 0 minimal, 1 random escapes
	numForm bool
}

func (g *Gen) ws(level int) string {
	if level == 0 {
		return ""
	}
	if level == 1 && g.chance(0.6) {
		return ""
	}
	n := 1 + g.n(3)
	if level == 2 && g.chance(0.02) {
		n = 50 + g.n(200)
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = " \t\r\n"[g.n(4)]
	}
	return string(b)
}

func (g *Gen) quote(s string, esc int) string {
	var b strings.Builder
	b.WriteByte('"')
	for _, r := range s {
		if esc == 1 && g.chance(0.15) {
			if r >= 0x10000 {
				r1, r2 := utf16Encode(r)
				b.WriteString(g.unicodeEscape(r1) + g.unicodeEscape(r2))
			} else {
				b.WriteString(g.unicodeEscape(r))
			}
			continue
		}
		switch r {
		case '"':
			b.WriteString(`\"`)
		case '\\':
			b.WriteString(`\\`)
		case '\n':
			b.WriteString(`\n`)
		case '\r':
			b.WriteString(`\r`)
		case '\t':
			b.WriteString(`\t`)
		case '\b':
			b.WriteString(`\b`)
		case '\f':
			b.WriteString(`\f`)
		case '/':
			if esc == 1 && g.chance(0.5) {
				b.WriteString(`\/`)
			} else {
				b.WriteByte('/')
			}
		default:
			if r < 0x20 {
				fmt.Fprintf(&b, `\u%04x`, r)
			} else {
				b.WriteRune(r)
			}
		}
	}
	b.WriteByte('"')
	return b.String()
}

// unicodeEscape is \u with the digits in either case, or in both.
func (g *Gen) unicodeEscape(r rune) string {
	b := []byte(fmt.Sprintf(`\u%04x`, r))
	mode := g.n(3)
	for i := 2; i < len(b); i++ {
		if b[i] >= 'a' && (mode == 1 || mode == 2 && g.chance(0.5)) {
			b[i] -= 'a' - 'A'
		}
	}
	return string(b)
}

func utf16Encode(r rune) (rune, rune) {
	r -= 0x10000
	return 0xd800 + (r>>10)&0x3ff, 0xdc00 + r&0x3ff
}

// numText writes a float in one of the forms JSON allows.
func (g *Gen) numText(f float64, form bool) string {
	if !form {
		s := strconv.FormatFloat(f, 'f', -1, 64)
		if !strings.Contains(s, ".") {
			s += ".0"
		}
		return s
	}
	switch g.n(5) {
	case 0:
		return strconv.FormatFloat(f, 'e', -1, 64)
	case 1:
		return strconv.FormatFloat(f, 'E', -1, 64)
	case 2:
		return strconv.FormatFloat(f, 'e', 20, 64)
	case 3:
		s := strconv.FormatFloat(f, 'f', -1, 64)
		if !strings.Contains(s, ".") {
			s += "."
		}
		return s + strings.Repeat("0", 1+g.n(4))
	default:
		s := strconv.FormatFloat(f, 'f', -1, 64)
		if !strings.Contains(s, ".") {
			s += g.oneOf(".0", "e0", "E+0", "e-0", ".000")
		}
		return s
	}
}

type writer struct {
	g      *Gen
	o      textOpts
	b      strings.Builder
	dupes  bool
	tokens []string // every token, for whitespace experiments
}

func (w *writer) tok(s string) { w.tokens = append(w.tokens, s) }

func (w *writer) node(n *Node) {
	switch n.K {
	case KNull:
		w.tok("null")
	case KBool:
		w.tok(strconv.FormatBool(n.B))
	case KStr:
		w.tok(w.g.quote(n.S, w.o.esc))
	case KInt:
		w.tok(n.I.String())
	case KF32, KF64:
		w.tok(w.g.numText(n.F, w.o.numForm))
	case KMap:
		w.tok("{")
		for i, k := range n.Keys {
			if i > 0 {
				w.tok(",")
			}
			w.tok(w.g.quote(k, w.o.esc))
			w.tok(":")
			w.node(n.Vals[i])
			if w.dupes && w.g.chance(0.1) {
				w.tok(",")
				w.tok(w.g.quote(n.Keys[w.g.n(i+1)], w.o.esc))
				w.tok(":")
				w.node(w.g.value(&docOpts{budget: 3, maxDepth: 2}, 1))
			}
		}
		w.tok("}")
	case KArr:
		w.tok("[")
		for i := range n.Vals {
			if i > 0 {
				w.tok(",")
			}
			w.node(n.Vals[i])
		}
		w.tok("]")
	default:
		panic("no JSON text for " + string(n.K))
	}
}

// tokens of the node's JSON text
func (g *Gen) tokens(n *Node, o textOpts, dupes bool) []string {
	w := &writer{g: g, o: o, dupes: dupes}
	w.node(n)
	return w.tokens
}

func (g *Gen) join(tokens []string, ws int) string {
	var b strings.Builder
	for i, t := range tokens {
		if i > 0 {
			b.WriteString(g.ws(ws))
		}
		b.WriteString(t)
	}
	return b.String()
}

func (g *Gen) jsonText(n *Node, o textOpts) string { return g.join(g.tokens(n, o, true), o.ws) }

// ---------------------------------------------------------------- oracle

var errRange = errors.New("number outside the representable range")

var intLit = regexp.MustCompile(`^-?(0|[1-9][0-9]*)$`)

// numberNode says what a JSON number literal means.
func numberNode(lit string) (*Node, error) {
	if intLit.MatchString(lit) {
		v, _ := new(big.Int).SetString(lit, 10)
		tys := []string{"uint8", "uint16", "uint32", "uint64"}
		if lit[0] == '-' {
			tys = []string{"int8", "int16", "int32", "int64"}
		}
		for _, ty := range tys {
			if fits(v, ty) {
				return &Node{K: KInt, Ty: ty, I: v}, nil
			}
		}
		return nil, errRange
	}
	f, err := strconv.ParseFloat(lit, 64)
	if err != nil {
		return nil, errRange
	}
	return nF64(f), nil
}

// float32Lossless: storing f as v loses nothing.
func float32Lossless(f float64, v float32) bool {
	return float64(v) == f || strconv.FormatFloat(float64(v), 'g', -1, 32) == strconv.FormatFloat(f, 'g', -1, 64)
}

// oracleParse reads a text with encoding/json: the whole text must be one
// object. Duplicate keys keep the first position and the last value.
func oracleParse(s string) (*Node, error) {
	if !json.Valid([]byte(s)) {
		return nil, errors.New("not valid JSON")
	}
	dec := json.NewDecoder(strings.NewReader(s))
	dec.UseNumber()
	n, err := oracleValue(dec)
	if err != nil {
		return nil, err
	}
	if _, err := dec.Token(); err != io.EOF {
		return nil, errors.New("trailing content")
	}
	return n, nil
}

func oracleValue(dec *json.Decoder) (*Node, error) {
	tok, err := dec.Token()
	if err != nil {
		return nil, err
	}
	switch x := tok.(type) {
	case nil:
		return nNull(), nil
	case bool:
		return nBool(x), nil
	case string:
		return nStr(x), nil
	case json.Number:
		return numberNode(string(x))
	case json.Delim:
		switch x {
		case '{':
			n := nMap()
			for dec.More() {
				kt, err := dec.Token()
				if err != nil {
					return nil, err
				}
				v, err := oracleValue(dec)
				if err != nil {
					return nil, err
				}
				n.set(kt.(string), v)
			}
			_, err := dec.Token()
			return n, err
		case '[':
			n := nArr()
			for dec.More() {
				v, err := oracleValue(dec)
				if err != nil {
					return nil, err
				}
				n.Vals = append(n.Vals, v)
			}
			_, err := dec.Token()
			return n, err
		}
	}
	return nil, fmt.Errorf("unexpected token %v", tok)
}

// parsedDiff compares what Parse stored with what the text means: integers with
// their exact type, decimals as float64 or lossless float32.
func parsedDiff(path string, want, got *Node) string {
	if want.K == KF64 && (got.K == KF64 || got.K == KF32) {
		if math.Signbit(got.F) != math.Signbit(want.F) {
			return fmt.Sprintf("at %s: expected the decimal %s, observed %s: the sign is lost", path, strconv.FormatFloat(want.F, 'g', -1, 64), got)
		}
		if got.K == KF64 && got.F == want.F {
			return ""
		}
		if got.K == KF32 && float32Lossless(want.F, float32(got.F)) {
			return ""
		}
		return fmt.Sprintf("at %s: expected the decimal %s, observed %s", path, strconv.FormatFloat(want.F, 'g', -1, 64), got)
	}
	if want.K == got.K && (want.K == KMap || want.K == KArr) && len(want.Vals) == len(got.Vals) {
		for i := range want.Vals {
			p := fmt.Sprintf("%s[%d]", path, i)
			if want.K == KMap {
				if want.Keys[i] != got.Keys[i] {
					return fmt.Sprintf("at %s: key %d expected %s, observed %s", clip(path, 200), i, clip(strconv.Quote(want.Keys[i]), 300), clip(strconv.Quote(got.Keys[i]), 300))
				}
				p = path + "." + strconv.Quote(want.Keys[i])
			}
			if d := parsedDiff(p, want.Vals[i], got.Vals[i]); d != "" {
				return d
			}
		}
		return ""
	}
	return diffAt(path, want, got, true)
}

// content: integers of any type, and floats by value.
func contentDiff(want, got *Node) string { return diff(want, got, false) }

func hasInvalidUTF8(n *Node) bool {
	if n.K == KStr && !utf8.ValidString(n.S) {
		return true
	}
	for _, k := range n.Keys {
		if !utf8.ValidString(k) {
			return true
		}
	}
	for _, v := range n.Vals {
		if hasInvalidUTF8(v) {
			return true
		}
	}
	return false
}

func newRand(seed int64) *rand.Rand { return rand.New(rand.NewSource(seed)) }
