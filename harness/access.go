package main

// Reflection over the public surface: fields of function type (and methods) of
// Map, Array and Value are called by name, so that a harness does not depend on
// whether an operation is a field or a method.

import (
	"fmt"
	"math"
	"math/big"
	"reflect"
	"sort"
	"strings"
	"time"

	hj "github.com/matehaxor03/holistic_json/json"
)

// op finds the operation of o (a *Map, *Array or *Value) by name.
func op(o interface{}, name string) (reflect.Value, bool) {
	v := reflect.ValueOf(o)
	if i, ok := opAt[v.Type()][name]; ok {
		if i < 0 {
			return v.Method(-i - 1), true
		}
		f := v.Elem().Field(i)
		return f, !f.IsNil()
	}
	if f := v.Elem().FieldByName(name); f.IsValid() && f.Kind() == reflect.Func {
		if f.IsNil() {
			return f, false
		}
		return f, true
	}
	if m := v.MethodByName(name); m.IsValid() {
		return m, true
	}
	return reflect.Value{}, false
}

// opNames lists the operations with one of the prefixes.
func opNames(o interface{}, prefixes ...string) []string {
	all, ok := allOps[reflect.TypeOf(o)]
	if !ok {
		return listOps(reflect.TypeOf(o), prefixes)
	}
	var res []string
	for _, n := range all {
		for _, p := range prefixes {
			if strings.HasPrefix(n, p) {
				res = append(res, n)
				break
			}
		}
	}
	return res
}

// allOps is filled before anything runs and only read afterwards, so that it
// orders no goroutines.
var allOps = map[reflect.Type][]string{}

// opAt has where an operation is: field i, or method -i-1.
var opAt = map[reflect.Type]map[string]int{}

func init() {
	// nothing of the package runs here: first uses are left to the cases
	for _, o := range []interface{}{(*hj.Map)(nil), (*hj.Array)(nil), (*hj.Value)(nil)} {
		t := reflect.TypeOf(o)
		allOps[t] = listOps(t, []string{""})
		at := map[string]int{}
		for i := 0; i < t.NumMethod(); i++ {
			at[t.Method(i).Name] = -i - 1
		}
		for i := 0; i < t.Elem().NumField(); i++ {
			if f := t.Elem().Field(i); f.PkgPath == "" && f.Type.Kind() == reflect.Func {
				at[f.Name] = i
			}
		}
		opAt[t] = at
	}
}

func listOps(t reflect.Type, prefixes []string) []string {
	var res []string
	has := func(n string) bool {
		for _, p := range prefixes {
			if strings.HasPrefix(n, p) {
				return true
			}
		}
		return false
	}
	for i := 0; i < t.Elem().NumField(); i++ {
		f := t.Elem().Field(i)
		if f.PkgPath == "" && f.Type.Kind() == reflect.Func && has(f.Name) {
			res = append(res, f.Name)
		}
	}
	for i := 0; i < t.NumMethod(); i++ {
		if has(t.Method(i).Name) {
			res = append(res, t.Method(i).Name)
		}
	}
	sort.Strings(res)
	return res
}

func sliceInOp(o interface{}, name string) bool {
	_, ok := op(o, name)
	return ok
}

var errSliceType = reflect.TypeOf([]error(nil))

type got struct {
	vals []reflect.Value
	errs []error
	has  bool // the operation reports errors
}

// invoke calls the operation; a panic becomes a violation naming the call.
func invoke(t *T, o interface{}, name string, args ...interface{}) got {
	f, ok := op(o, name)
	if !ok {
		t.Fail("missing", "%T has no operation %s", o, name)
	}
	in := make([]reflect.Value, len(args))
	for i, a := range args {
		if a == nil {
			in[i] = reflect.Zero(f.Type().In(i))
		} else {
			in[i] = reflect.ValueOf(a)
		}
	}
	var out []reflect.Value
	func() {
		defer func() {
			if r := recover(); r != nil {
				t.Fail("panic", "%T.%s(%s) panicked: %v", o, name, clip(fmt.Sprintf("%#v", args), 200), r)
			}
		}()
		out = f.Call(in)
	}()
	g := got{vals: out}
	if n := len(out); n > 1 && out[n-1].Type() == errSliceType {
		g.has = true
		g.errs = out[n-1].Interface().([]error)
		g.vals = out[:n-1]
	}
	return g
}

func (g got) failed() bool { return len(g.errs) > 0 }

func (g got) isNil() bool {
	v := g.vals[0]
	switch v.Kind() {
	case reflect.Ptr, reflect.Slice, reflect.Map, reflect.Func, reflect.Interface:
		return v.IsNil()
	}
	return false
}

// empty: nil, zero, or a container without content.
func (g got) empty() bool {
	if g.isNil() {
		return true
	}
	switch x := g.vals[0].Interface().(type) {
	case hj.Map:
		return x.GetKeys == nil || len(x.GetKeys()) == 0
	case hj.Array:
		return x.Len == nil || x.Len() == 0
	case time.Time:
		return x.IsZero()
	}
	switch g.vals[0].Kind() {
	case reflect.Struct, reflect.Ptr, reflect.Slice, reflect.Map:
		return false
	}
	return g.vals[0].IsZero()
}

// goInt reads an integer (or pointer to one) out of a result.
func goInt(v reflect.Value) *big.Int {
	if v.Kind() == reflect.Ptr {
		if v.IsNil() {
			return nil
		}
		v = v.Elem()
	}
	switch v.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return big.NewInt(v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return new(big.Int).SetUint64(v.Uint())
	}
	return nil
}

func goFloat(v reflect.Value) (float64, bool) {
	if v.Kind() == reflect.Ptr {
		if v.IsNil() {
			return 0, false
		}
		v = v.Elem()
	}
	if v.Kind() == reflect.Float32 || v.Kind() == reflect.Float64 {
		return v.Float(), true
	}
	return 0, false
}

// same compares two results of reads.
func same(a, b reflect.Value) bool {
	if a.Type() != b.Type() {
		return false
	}
	switch a.Kind() {
	case reflect.Ptr:
		if a.IsNil() || b.IsNil() {
			return a.IsNil() == b.IsNil()
		}
		switch x := a.Interface().(type) {
		case *hj.Map:
			return diff(observeMap(x), observeMap(b.Interface().(*hj.Map)), true) == ""
		case *hj.Array:
			return diff(observeArray(x), observeArray(b.Interface().(*hj.Array)), true) == ""
		case *hj.Value:
			return diff(observeValue(x), observeValue(b.Interface().(*hj.Value)), true) == ""
		}
		return same(a.Elem(), b.Elem())
	case reflect.Slice:
		if a.Len() != b.Len() {
			return false
		}
		for i := 0; i < a.Len(); i++ {
			if !same(a.Index(i), b.Index(i)) {
				return false
			}
		}
		return true
	case reflect.Float32, reflect.Float64:
		x, y := a.Float(), b.Float()
		return x == y || (math.IsNaN(x) && math.IsNaN(y))
	case reflect.Func:
		return a.IsNil() == b.IsNil()
	case reflect.Interface:
		if a.IsNil() || b.IsNil() {
			return a.IsNil() == b.IsNil()
		}
		if x, ok := a.Interface().(error); ok {
			y, ok := b.Interface().(error)
			return ok && x.Error() == y.Error()
		}
		return diff(observeObject(a.Interface()), observeObject(b.Interface()), true) == ""
	}
	switch x := a.Interface().(type) {
	case hj.Map:
		y := b.Interface().(hj.Map)
		return diff(observeMap(&x), observeMap(&y), true) == ""
	case hj.Array:
		y := b.Interface().(hj.Array)
		return diff(observeArray(&x), observeArray(&y), true) == ""
	case time.Time:
		y := b.Interface().(time.Time)
		return x.Equal(y)
	}
	if a.Comparable() && b.Comparable() {
		return a.Equal(b)
	}
	return reflect.DeepEqual(a.Interface(), b.Interface())
}

func sameGot(a, b got) bool {
	if len(a.vals) != len(b.vals) || a.failed() != b.failed() {
		return false
	}
	for i := range a.vals {
		if !same(a.vals[i], b.vals[i]) {
			return false
		}
	}
	return true
}

func (g got) String() string {
	s := []string{}
	for _, v := range g.vals {
		if v.Kind() == reflect.Ptr && !v.IsNil() && v.Elem().Kind() != reflect.Struct {
			v = v.Elem()
		}
		switch v.Kind() {
		case reflect.Struct, reflect.Ptr:
			s = append(s, fmt.Sprintf("%s", observeObject(v.Interface())))
		default:
			s = append(s, fmt.Sprintf("%v", v))
		}
	}
	return clip(strings.Join(s, ","), 200) + " errors: " + errsText(g.errs)
}

// title of a type in accessor names: int8 -> Int8, uint -> UInt.
func title(ty string) string {
	if strings.HasPrefix(ty, "u") {
		return "UI" + ty[2:]
	}
	return strings.ToUpper(ty[:1]) + ty[1:]
}

// place is one way a stored scalar is read: a value of its own, a key of a map,
// the only element of an array.
type place struct {
	name string
	o    interface{}
	args []interface{}
}

func (p place) call(t *T, name string) got { return invoke(t, p.o, name, p.args...) }

func (p place) has(name string) bool {
	_, ok := op(p.o, name)
	return ok
}

// places stores n once in each container through the builder's routes.
func places(g *Gen, n *Node) []place {
	b := g.builder()
	m := hj.NewMap()
	k := "k"
	if g.chance(0.3) {
		k = g.str()
	}
	if g.chance(0.3) {
		m.SetNil("before" + k)
	}
	b.setMap(m, k, n)
	a := hj.NewArray()
	b.appendArray(a, n)
	res := []place{{"value", b.valueOf(n), nil}, {"map key", m, []interface{}{k}}}
	if v := (*a.GetValues())[0]; v != nil {
		res = append(res, place{"array element", v, nil})
	}
	if v := m.GetValue(k); v != nil {
		res = append(res, place{"map value", v, nil})
	}
	return res
}
