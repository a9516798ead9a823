package main

// The reference model: what a document should contain, and how to observe what
// the real document contains.

import (
	"errors"
	"fmt"
	"math"
	"math/big"
	"strconv"
	"strings"
	"time"

	hj "github.com/matehaxor03/holistic_json/json"
)

type Kind string

const (
	KNull  Kind = "null"
	KBool  Kind = "bool"
	KStr   Kind = "string"
	KInt   Kind = "int" // any integer; Ty has the Go type
	KF32   Kind = "float32"
	KF64   Kind = "float64"
	KTime  Kind = "time"
	KErr   Kind = "error"
	KErrs  Kind = "errors"
	KStrs  Kind = "strings"
	KMap   Kind = "map"
	KArr   Kind = "array"
	KOther Kind = "other"
)

type Node struct {
	K    Kind
	B    bool
	S    string
	I    *big.Int
	Ty   string
	F    float64
	T    time.Time
	L    []string // error texts or strings
	Keys []string
	Vals []*Node
}

func nNull() *Node            { return &Node{K: KNull} }
func nBool(b bool) *Node      { return &Node{K: KBool, B: b} }
func nStr(s string) *Node     { return &Node{K: KStr, S: s} }
func nF64(f float64) *Node    { return &Node{K: KF64, F: f} }
func nF32(f float32) *Node    { return &Node{K: KF32, F: float64(f)} }
func nTime(t time.Time) *Node { return &Node{K: KTime, T: t} }
func nErr(s string) *Node     { return &Node{K: KErr, S: s} }
func nMap() *Node             { return &Node{K: KMap} }
func nArr(v ...*Node) *Node   { return &Node{K: KArr, Vals: v} }
func nInt(ty string, v int64) *Node {
	return &Node{K: KInt, Ty: ty, I: big.NewInt(v)}
}
func nUint(ty string, v uint64) *Node {
	return &Node{K: KInt, Ty: ty, I: new(big.Int).SetUint64(v)}
}

func (n *Node) find(key string) int {
	for i, k := range n.Keys {
		if k == key {
			return i
		}
	}
	return -1
}

// set follows the dictionary rule: overwrite in place, else append.
func (n *Node) set(key string, v *Node) {
	if i := n.find(key); i >= 0 {
		n.Vals[i] = v
		return
	}
	n.Keys = append(n.Keys, key)
	n.Vals = append(n.Vals, v)
}

func (n *Node) remove(i int) {
	if n.K == KMap {
		n.Keys = append(append([]string{}, n.Keys[:i]...), n.Keys[i+1:]...)
	}
	n.Vals = append(append([]*Node{}, n.Vals[:i]...), n.Vals[i+1:]...)
}

func (n *Node) copy() *Node {
	c := *n
	c.Keys = append([]string{}, n.Keys...)
	c.L = append([]string{}, n.L...)
	c.Vals = nil
	for _, v := range n.Vals {
		c.Vals = append(c.Vals, v.copy())
	}
	return &c
}

func (n *Node) count() int {
	c := 1
	for _, v := range n.Vals {
		c += v.count()
	}
	return c
}

func (n *Node) depth() int {
	d := 0
	for _, v := range n.Vals {
		if x := v.depth(); x > d {
			d = x
		}
	}
	return d + 1
}

func (n *Node) String() string {
	var b strings.Builder
	n.write(&b)
	return b.String()
}

func (n *Node) write(b *strings.Builder) {
	switch n.K {
	case KNull:
		b.WriteString("null")
	case KBool:
		fmt.Fprintf(b, "%v", n.B)
	case KStr:
		b.WriteString(strconv.Quote(n.S))
	case KInt:
		fmt.Fprintf(b, "%s(%s)", n.Ty, n.I)
	case KF32:
		fmt.Fprintf(b, "f32(%s)", strconv.FormatFloat(n.F, 'g', -1, 32))
	case KF64:
		fmt.Fprintf(b, "f64(%s)", strconv.FormatFloat(n.F, 'g', -1, 64))
	case KTime:
		b.WriteString("time(" + n.T.Format(time.RFC3339Nano) + ")")
	case KErr:
		b.WriteString("error(" + strconv.Quote(n.S) + ")")
	case KErrs, KStrs:
		fmt.Fprintf(b, "%s%q", n.K, n.L)
	case KMap:
		b.WriteString("{")
		for i := range n.Keys {
			if i > 0 {
				b.WriteString(",")
			}
			b.WriteString(strconv.Quote(n.Keys[i]))
			b.WriteString(":")
			n.Vals[i].write(b)
		}
		b.WriteString("}")
	case KArr:
		b.WriteString("[")
		for i := range n.Vals {
			if i > 0 {
				b.WriteString(",")
			}
			n.Vals[i].write(b)
		}
		b.WriteString("]")
	default:
		fmt.Fprintf(b, "%s:%s", n.K, n.S)
	}
}

// diff returns "" when equal, else where and how they differ. strict also
// compares the integer and float types.
func diff(want, got *Node, strict bool) string { return diffAt("$", want, got, strict) }

func diffAt(path string, want, got *Node, strict bool) string {
	bad := func() string {
		return fmt.Sprintf("at %s: expected %s, observed %s", clip(path, 200), clip(want.String(), 200), clip(got.String(), 200))
	}
	wk, gk := want.K, got.K
	if !strict {
		if wk == KF32 {
			wk = KF64
		}
		if gk == KF32 {
			gk = KF64
		}
	}
	if wk != gk {
		return bad()
	}
	switch wk {
	case KBool:
		if want.B != got.B {
			return bad()
		}
	case KStr, KErr, KOther:
		if want.S != got.S {
			return bad()
		}
	case KInt:
		if want.I.Cmp(got.I) != 0 || (strict && want.Ty != got.Ty) {
			return bad()
		}
	case KF32, KF64:
		switch {
		case want.K == got.K:
			if !sameFloat(want.F, got.F) {
				return bad()
			}
		case want.K == KF64: // stored as a float32 now: nothing may be lost
			if !float32Lossless(want.F, float32(got.F)) {
				return bad()
			}
		default:
			if !sameFloat(float64(float32(want.F)), float64(float32(got.F))) {
				return bad()
			}
		}
	case KTime:
		if !want.T.Equal(got.T) || want.T.Format("2006-01-02 15:04:05.000000000") != got.T.Format("2006-01-02 15:04:05.000000000") {
			return bad()
		}
	case KErrs, KStrs:
		if len(want.L) != len(got.L) {
			return bad()
		}
		for i := range want.L {
			if want.L[i] != got.L[i] {
				return bad()
			}
		}
	case KMap:
		if len(want.Keys) != len(got.Keys) {
			return fmt.Sprintf("at %s: expected %d keys %s, observed %d keys %s", clip(path, 200), len(want.Keys), clip(fmt.Sprintf("%q", want.Keys), 300), len(got.Keys), clip(fmt.Sprintf("%q", got.Keys), 300))
		}
		for i := range want.Keys {
			if want.Keys[i] != got.Keys[i] {
				return fmt.Sprintf("at %s: key %d expected %s, observed %s", clip(path, 200), i, clip(strconv.Quote(want.Keys[i]), 200), clip(strconv.Quote(got.Keys[i]), 200))
			}
			if d := diffAt(path+"."+strconv.Quote(want.Keys[i]), want.Vals[i], got.Vals[i], strict); d != "" {
				return d
			}
		}
	case KArr:
		if len(want.Vals) != len(got.Vals) {
			return fmt.Sprintf("at %s: expected %d elements, observed %d", clip(path, 200), len(want.Vals), len(got.Vals))
		}
		for i := range want.Vals {
			if d := diffAt(fmt.Sprintf("%s[%d]", path, i), want.Vals[i], got.Vals[i], strict); d != "" {
				return d
			}
		}
	}
	return ""
}

func sameFloat(a, b float64) bool {
	if math.IsNaN(a) || math.IsNaN(b) {
		return math.IsNaN(a) && math.IsNaN(b)
	}
	return a == b && math.Signbit(a) == math.Signbit(b)
}

// ---------------------------------------------------------------- observation

func observeMap(m *hj.Map) *Node {
	if m == nil {
		return nNull()
	}
	n := nMap()
	for _, k := range m.GetKeys() {
		n.Keys = append(n.Keys, k)
		n.Vals = append(n.Vals, observeValue(m.GetValue(k)))
	}
	return n
}

func observeArray(a *hj.Array) *Node {
	if a == nil {
		return nNull()
	}
	n := nArr()
	for _, v := range *a.GetValues() {
		n.Vals = append(n.Vals, observeValue(v))
	}
	return n
}

func observeValue(v *hj.Value) *Node {
	if v == nil {
		return nNull()
	}
	return observeObject(v.GetObject())
}

func errTexts(es []error) []string {
	r := []string{}
	for _, e := range es {
		if e == nil {
			r = append(r, "<nil>")
		} else {
			r = append(r, e.Error())
		}
	}
	return r
}

func observeObject(o interface{}) *Node {
	switch x := o.(type) {
	case nil:
		return nNull()
	case *hj.Map:
		return observeMap(x)
	case hj.Map:
		return observeMap(&x)
	case *hj.Array:
		return observeArray(x)
	case hj.Array:
		return observeArray(&x)
	case *hj.Value:
		return observeValue(x)
	case hj.Value:
		return observeValue(&x)
	case bool:
		return nBool(x)
	case *bool:
		if x != nil {
			return nBool(*x)
		}
	case string:
		return nStr(x)
	case *string:
		if x != nil {
			return nStr(*x)
		}
	case int:
		return nInt("int", int64(x))
	case *int:
		if x != nil {
			return nInt("int", int64(*x))
		}
	case int8:
		return nInt("int8", int64(x))
	case *int8:
		if x != nil {
			return nInt("int8", int64(*x))
		}
	case int16:
		return nInt("int16", int64(x))
	case *int16:
		if x != nil {
			return nInt("int16", int64(*x))
		}
	case int32:
		return nInt("int32", int64(x))
	case *int32:
		if x != nil {
			return nInt("int32", int64(*x))
		}
	case int64:
		return nInt("int64", x)
	case *int64:
		if x != nil {
			return nInt("int64", *x)
		}
	case uint:
		return nUint("uint", uint64(x))
	case *uint:
		if x != nil {
			return nUint("uint", uint64(*x))
		}
	case uint8:
		return nUint("uint8", uint64(x))
	case *uint8:
		if x != nil {
			return nUint("uint8", uint64(*x))
		}
	case uint16:
		return nUint("uint16", uint64(x))
	case *uint16:
		if x != nil {
			return nUint("uint16", uint64(*x))
		}
	case uint32:
		return nUint("uint32", uint64(x))
	case *uint32:
		if x != nil {
			return nUint("uint32", uint64(*x))
		}
	case uint64:
		return nUint("uint64", x)
	case *uint64:
		if x != nil {
			return nUint("uint64", *x)
		}
	case float32:
		return nF32(x)
	case *float32:
		if x != nil {
			return nF32(*x)
		}
	case float64:
		return nF64(x)
	case *float64:
		if x != nil {
			return nF64(*x)
		}
	case time.Time:
		return nTime(x)
	case *time.Time:
		if x != nil {
			return nTime(*x)
		}
	case []error:
		return &Node{K: KErrs, L: errTexts(x)}
	case *[]error:
		if x != nil {
			return &Node{K: KErrs, L: errTexts(*x)}
		}
	case []string:
		return &Node{K: KStrs, L: append([]string{}, x...)}
	case *[]string:
		if x != nil {
			return &Node{K: KStrs, L: append([]string{}, *x...)}
		}
	case *error:
		if x != nil && *x != nil {
			return nErr((*x).Error())
		}
	case error:
		return nErr(x.Error())
	default:
		return &Node{K: KOther, S: fmt.Sprintf("%T", o)}
	}
	return nNull()
}

// ---------------------------------------------------------------- building

// build makes a real document out of a model one. how picks the storing route
// for each node, so the same content is reached through different API calls.
type builder struct {
	pick func(n int) int // 0..n-1
	kept []interface{}   // with keep: everything handed to the package that can still be changed
	keep bool
	// nulls are never stored as an absent cell
	noNilCells bool
	// parts of the document that are one and the same thing in several places
	shared map[*Node]bool
	cells  map[*Node]*hj.Value
	objs   map[objKey]interface{}
}

type objKey struct {
	n   *Node
	ptr bool
}

// withShared makes some parts of n appear in further places of it, and has the
// builder store the very same cell or object there.
func (b *builder) withShared(g *Gen, n *Node) *builder {
	b.shared = g.shareParts(n)
	b.cells, b.objs = map[*Node]*hj.Value{}, map[objKey]interface{}{}
	return b
}

// object gives a Go value holding the node's content (by value or by pointer).
func (b *builder) object(n *Node, ptr bool) interface{} {
	if b.shared[n] {
		if o, found := b.objs[objKey{n, ptr}]; found && b.pick(4) > 0 {
			return o
		}
	}
	o := b.makeObject(n, ptr)
	if b.shared[n] {
		b.objs[objKey{n, ptr}] = o
	}
	if b.keep && o != nil {
		b.kept = append(b.kept, o)
	}
	return o
}

func intOf(n *Node, ptr bool) interface{} {
	i, u := n.I.Int64(), n.I.Uint64()
	switch n.Ty {
	case "int":
		x := int(i)
		if ptr {
			return &x
		}
		return x
	case "int8":
		x := int8(i)
		if ptr {
			return &x
		}
		return x
	case "int16":
		x := int16(i)
		if ptr {
			return &x
		}
		return x
	case "int32":
		x := int32(i)
		if ptr {
			return &x
		}
		return x
	case "int64":
		if ptr {
			return &i
		}
		return i
	case "uint":
		x := uint(u)
		if ptr {
			return &x
		}
		return x
	case "uint8":
		x := uint8(u)
		if ptr {
			return &x
		}
		return x
	case "uint16":
		x := uint16(u)
		if ptr {
			return &x
		}
		return x
	case "uint32":
		x := uint32(u)
		if ptr {
			return &x
		}
		return x
	case "uint64":
		if ptr {
			return &u
		}
		return u
	}
	panic("no such integer type " + n.Ty)
}

func (b *builder) makeObject(n *Node, ptr bool) interface{} {
	switch n.K {
	case KNull:
		if ptr {
			switch b.pick(4) {
			case 0:
				return (*string)(nil)
			case 1:
				return (*int64)(nil)
			case 2:
				return (*bool)(nil)
			}
		}
		return nil
	case KBool:
		x := n.B
		if ptr {
			return &x
		}
		return x
	case KStr:
		x := n.S
		if ptr {
			return &x
		}
		return x
	case KInt:
		return intOf(n, ptr)
	case KF32:
		x := float32(n.F)
		if ptr {
			return &x
		}
		return x
	case KF64:
		x := n.F
		if ptr {
			return &x
		}
		return x
	case KTime:
		x := n.T
		if ptr {
			return &x
		}
		return x
	case KErr:
		x := errors.New(n.S)
		if ptr {
			return &x
		}
		return x
	case KErrs:
		r := []error{}
		for _, s := range n.L {
			r = append(r, errors.New(s))
		}
		if ptr {
			return &r
		}
		return r
	case KStrs:
		r := append([]string{}, n.L...)
		if ptr {
			return &r
		}
		return r
	case KMap:
		m := b.mapOf(n)
		if ptr {
			return m
		}
		return *m
	case KArr:
		a := b.arrayOf(n)
		if ptr {
			return a
		}
		return *a
	}
	panic("cannot build " + string(n.K))
}

func (b *builder) mapOf(n *Node) *hj.Map {
	m := hj.NewMap()
	if b.pick(3) == 0 {
		x := hj.NewMapValue()
		m = &x
	}
	for i, k := range n.Keys {
		b.setMap(m, k, n.Vals[i])
	}
	return m
}

func (b *builder) arrayOf(n *Node) *hj.Array {
	a := hj.NewArray()
	if b.pick(3) == 0 {
		x := hj.NewArrayValue()
		a = &x
	}
	for _, v := range n.Vals {
		b.appendArray(a, v)
	}
	return a
}

func (b *builder) valueOf(n *Node) *hj.Value {
	if v := b.cells[n]; v != nil && b.shared[n] {
		return v
	}
	v := b.makeValue(n)
	if b.shared[n] {
		b.cells[n] = v
	}
	if b.keep {
		b.kept = append(b.kept, v)
	}
	return v
}

func (b *builder) makeValue(n *Node) *hj.Value {
	switch b.pick(3) {
	case 0:
		v := hj.NewValueValue(b.object(n, b.pick(2) == 0))
		return &v
	case 1:
		v := hj.NewValue(nil)
		b.setValue(v, n)
		return v
	}
	return hj.NewValue(b.object(n, b.pick(2) == 0))
}

// setMap stores n under k through one of the routes the API offers and returns
// the name of the route.
func (b *builder) setMap(m *hj.Map, k string, n *Node) string {
	if b.shared[n] && b.pick(3) > 0 {
		m.SetValue(k, b.valueOf(n))
		return "SetValue"
	}
	if n.K == KNull && !b.noNilCells && b.pick(8) == 0 {
		m.SetValue(k, nil)
		return "SetValue of nil"
	}
	switch b.pick(8) {
	case 0:
		m.SetValue(k, b.valueOf(n))
		return "SetValue"
	case 1:
		m.SetObjectForMap(k, b.object(n, b.pick(2) == 0))
		return "SetObjectForMap"
	}
	ptr := b.pick(2) == 0
	o := b.object(n, ptr)
	switch x := o.(type) {
	case nil:
		m.SetNil(k)
		return "SetNil"
	case bool:
		m.SetBoolValue(k, x)
		return "SetBoolValue"
	case *bool:
		m.SetBool(k, x)
		return "SetBool"
	case string:
		m.SetStringValue(k, x)
		return "SetStringValue"
	case *string:
		m.SetString(k, x)
		return "SetString"
	case int:
		m.SetIntValue(k, x)
		return "SetIntValue"
	case *int:
		m.SetInt(k, x)
		return "SetInt"
	case int8:
		m.SetInt8Value(k, x)
		return "SetInt8Value"
	case *int8:
		m.SetInt8(k, x)
		return "SetInt8"
	case int16:
		m.SetInt16Value(k, x)
		return "SetInt16Value"
	case *int16:
		m.SetInt16(k, x)
		return "SetInt16"
	case int32:
		m.SetInt32Value(k, x)
		return "SetInt32Value"
	case *int32:
		m.SetInt32(k, x)
		return "SetInt32"
	case int64:
		m.SetInt64Value(k, x)
		return "SetInt64Value"
	case *int64:
		m.SetInt64(k, x)
		return "SetInt64"
	case uint:
		m.SetUIntValue(k, x)
		return "SetUIntValue"
	case *uint:
		m.SetUInt(k, x)
		return "SetUInt"
	case uint8:
		m.SetUInt8Value(k, x)
		return "SetUInt8Value"
	case *uint8:
		m.SetUInt8(k, x)
		return "SetUInt8"
	case uint16:
		m.SetUInt16Value(k, x)
		return "SetUInt16Value"
	case *uint16:
		m.SetUInt16(k, x)
		return "SetUInt16"
	case uint32:
		m.SetUInt32Value(k, x)
		return "SetUInt32Value"
	case *uint32:
		m.SetUInt32(k, x)
		return "SetUInt32"
	case uint64:
		m.SetUInt64Value(k, x)
		return "SetUInt64Value"
	case *uint64:
		m.SetUInt64(k, x)
		return "SetUInt64"
	case float32:
		m.SetFloat32Value(k, x)
		return "SetFloat32Value"
	case *float32:
		m.SetFloat32(k, x)
		return "SetFloat32"
	case float64:
		m.SetFloat64Value(k, x)
		return "SetFloat64Value"
	case *float64:
		m.SetFloat64(k, x)
		return "SetFloat64"
	case *time.Time:
		m.SetTime(k, x)
		return "SetTime"
	case []error:
		m.SetErrors(k, x)
		return "SetErrors"
	case hj.Map:
		m.SetMapValue(k, x)
		return "SetMapValue"
	case *hj.Map:
		m.SetMap(k, x)
		return "SetMap"
	case hj.Array:
		m.SetArrayValue(k, x)
		return "SetArrayValue"
	case *hj.Array:
		m.SetArray(k, x)
		return "SetArray"
	}
	m.SetObjectForMap(k, o)
	return "SetObjectForMap"
}

func (b *builder) setValue(v *hj.Value, n *Node) string {
	ptr := b.pick(2) == 0
	o := b.object(n, ptr)
	if b.pick(8) == 0 {
		v.SetObject(o)
		return "SetObject"
	}
	switch x := o.(type) {
	case nil:
		v.SetNil()
		return "SetNil"
	case bool:
		v.SetBoolValue(x)
		return "SetBoolValue"
	case *bool:
		v.SetBool(x)
		return "SetBool"
	case string:
		v.SetStringValue(x)
		return "SetStringValue"
	case *string:
		v.SetString(x)
		return "SetString"
	case int:
		v.SetIntValue(x)
		return "SetIntValue"
	case *int:
		v.SetInt(x)
		return "SetInt"
	case int8:
		v.SetInt8Value(x)
		return "SetInt8Value"
	case *int8:
		v.SetInt8(x)
		return "SetInt8"
	case int16:
		v.SetInt16Value(x)
		return "SetInt16Value"
	case *int16:
		v.SetInt16(x)
		return "SetInt16"
	case int32:
		v.SetInt32Value(x)
		return "SetInt32Value"
	case *int32:
		v.SetInt32(x)
		return "SetInt32"
	case int64:
		v.SetInt64Value(x)
		return "SetInt64Value"
	case *int64:
		v.SetInt64(x)
		return "SetInt64"
	case uint:
		v.SetUIntValue(x)
		return "SetUIntValue"
	case *uint:
		v.SetUInt(x)
		return "SetUInt"
	case uint8:
		v.SetUInt8Value(x)
		return "SetUInt8Value"
	case *uint8:
		v.SetUInt8(x)
		return "SetUInt8"
	case uint16:
		v.SetUInt16Value(x)
		return "SetUInt16Value"
	case *uint16:
		v.SetUInt16(x)
		return "SetUInt16"
	case uint32:
		v.SetUInt32Value(x)
		return "SetUInt32Value"
	case *uint32:
		v.SetUInt32(x)
		return "SetUInt32"
	case uint64:
		v.SetUInt64Value(x)
		return "SetUInt64Value"
	case *uint64:
		v.SetUInt64(x)
		return "SetUInt64"
	case float32:
		v.SetFloat32Value(x)
		return "SetFloat32Value"
	case *float32:
		v.SetFloat32(x)
		return "SetFloat32"
	case float64:
		v.SetFloat64Value(x)
		return "SetFloat64Value"
	case *float64:
		v.SetFloat64(x)
		return "SetFloat64"
	case time.Time:
		v.SetTimeValue(x)
		return "SetTimeValue"
	case *time.Time:
		v.SetTime(x)
		return "SetTime"
	case []error:
		v.SetErrorsValue(x)
		return "SetErrorsValue"
	case *[]error:
		v.SetErrors(x)
		return "SetErrors"
	case *error:
		v.SetError(x)
		return "SetError"
	case hj.Map:
		v.SetMapValue(x)
		return "SetMapValue"
	case *hj.Map:
		v.SetMap(x)
		return "SetMap"
	case hj.Array:
		v.SetArrayValue(x)
		return "SetArrayValue"
	case *hj.Array:
		v.SetArray(x)
		return "SetArray"
	case error:
		v.SetErrorValue(x)
		return "SetErrorValue"
	}
	v.SetObject(o)
	return "SetObject"
}

func (b *builder) appendArray(a *hj.Array, n *Node) string {
	if b.shared[n] && b.pick(3) > 0 {
		a.AppendValue(b.valueOf(n))
		return "AppendValue"
	}
	if n.K == KNull && !b.noNilCells && b.pick(8) == 0 {
		a.AppendValue(nil)
		return "AppendValue of nil"
	}
	switch b.pick(8) {
	case 0:
		a.AppendValue(b.valueOf(n))
		return "AppendValue"
	case 1:
		a.AppendValueValue(*b.valueOf(n))
		return "AppendValueValue"
	}
	ptr := b.pick(2) == 0
	o := b.object(n, ptr)
	switch x := o.(type) {
	case nil:
		a.AppendNil()
		return "AppendNil"
	case bool:
		a.AppendBoolValue(x)
		return "AppendBoolValue"
	case *bool:
		a.AppendBool(x)
		return "AppendBool"
	case string:
		a.AppendStringValue(x)
		return "AppendStringValue"
	case *string:
		a.AppendString(x)
		return "AppendString"
	case int:
		a.AppendIntValue(x)
		return "AppendIntValue"
	case *int:
		a.AppendInt(x)
		return "AppendInt"
	case int8:
		a.AppendInt8Value(x)
		return "AppendInt8Value"
	case *int8:
		a.AppendInt8(x)
		return "AppendInt8"
	case int16:
		a.AppendInt16Value(x)
		return "AppendInt16Value"
	case *int16:
		a.AppendInt16(x)
		return "AppendInt16"
	case int32:
		a.AppendInt32Value(x)
		return "AppendInt32Value"
	case *int32:
		a.AppendInt32(x)
		return "AppendInt32"
	case int64:
		a.AppendInt64Value(x)
		return "AppendInt64Value"
	case *int64:
		a.AppendInt64(x)
		return "AppendInt64"
	case uint:
		a.AppendUIntValue(x)
		return "AppendUIntValue"
	case *uint:
		a.AppendUInt(x)
		return "AppendUInt"
	case uint8:
		a.AppendUInt8Value(x)
		return "AppendUInt8Value"
	case *uint8:
		a.AppendUInt8(x)
		return "AppendUInt8"
	case uint16:
		a.AppendUInt16Value(x)
		return "AppendUInt16Value"
	case *uint16:
		a.AppendUInt16(x)
		return "AppendUInt16"
	case uint32:
		a.AppendUInt32Value(x)
		return "AppendUInt32Value"
	case *uint32:
		a.AppendUInt32(x)
		return "AppendUInt32"
	case uint64:
		a.AppendUInt64Value(x)
		return "AppendUInt64Value"
	case *uint64:
		a.AppendUInt64(x)
		return "AppendUInt64"
	case float32:
		a.AppendFloat32Value(x)
		return "AppendFloat32Value"
	case *float32:
		a.AppendFloat32(x)
		return "AppendFloat32"
	case float64:
		a.AppendFloat64Value(x)
		return "AppendFloat64Value"
	case *float64:
		a.AppendFloat64(x)
		return "AppendFloat64"
	case hj.Map:
		a.AppendMapValue(x)
		return "AppendMapValue"
	case *hj.Map:
		a.AppendMap(x)
		return "AppendMap"
	case hj.Array:
		a.AppendArrayValue(x)
		return "AppendArrayValue"
	case *hj.Array:
		a.AppendArray(x)
		return "AppendArray"
	}
	a.AppendValue(hj.NewValue(o))
	return "AppendValue"
}

func mapJSON(m *hj.Map) (string, []error) {
	var b strings.Builder
	e := m.ToJSONString(&b)
	return b.String(), e
}

func arrayJSON(a *hj.Array) (string, []error) {
	var b strings.Builder
	e := a.ToJSONString(&b)
	return b.String(), e
}
