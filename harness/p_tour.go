package main

// C15: a tour of the rare paths. Every text and value here goes through parsing,
// building, reading, cloning and rendering on several goroutines that nothing
// orders, each with objects of its own, and then as one document that all read.

import (
	"errors"
	"fmt"
	"math"
	"net/url"
	"os/exec"
	"reflect"
	"strings"
	"time"

	hj "github.com/matehaxor03/holistic_json/json"
)

var tourTexts = []string{
	`{}`, `{ }`, `{"a":{}}`, `{"a":[]}`, `{"a":[{},[],{}]}`, `{"a":1,"a":2}`, `{"":""}`,
	`{"a":"\u12"}`, `{"a":"\uZZZZ"}`, `{"a":"\ud834\udd1e \ud834 \udd1e \ud834x"}`, `{"a":"\b\f\n\r\t\/\\\"\q"}`, `{"\u0041\n":"\u0041"}`,
	"{\"a\":\"\x01\x02\t\n\"}", "{\"a\":\"\xff\xfe\"}", "{\\n\"a\"\\t:\\r1\\n}", "{ \"a\" :\t[ 1 ,\r\n2 ] }",
	`{"a":-0,"b":-128,"c":-129,"d":-32768,"e":-32769,"f":-2147483648,"g":-2147483649,"h":-9223372036854775808}`,
	`{"a":255,"b":256,"c":65535,"d":65536,"e":4294967295,"f":4294967296,"g":18446744073709551615}`,
	`{"a":[-1,-129,-32769,-2147483649,0,256,65536,4294967296]}`,
	`{"a":1.5,"b":0.1,"c":1e10,"d":1E-7,"e":3.4028235e38,"f":1e300,"g":-0.0,"h":5e-324,"i":16777217.0}`,
	`{"a":[1.5,0.1,1e300,-0.0]}`, `{"a":true,"b":false,"c":null,"d":[true,false,null]}`,
	`{"a":18446744073709551616}`, `{"a":-9223372036854775809}`, `{"a":1e400}`, `{"a":[18446744073709551616]}`, `{"a":[-9223372036854775809]}`, `{"a":[-1e400]}`,
	`{"a":[1}]}`, `{"a":{"b":1]}`, `{"a":1]`, `[{"a":1}]`, `{"a":1}}`, `{"a":1}x}`, `{"a":1} {}`, `{"a":[}`, `{"a":}`, `{"a"}`, `{"a":1,}`, `{"a":[1,]}`, `{,}`, `{"a":[,]}`,
	`{"a" 1}`, `{"a":"b" "c":1}`, `{"a":1 2}`, `{"a":[1 2]}`, `{"a":"b"x}`, `{"a":x"b"}`, `{a:1}`, `{1:1}`, `{"a":nul}`, `{"a":01}`, `{"a":1.}`, `{"a":+1}`, `{"a":"b}`, `{"a":"b\"}`, `{"a:1}`, `{"a":[{}`, `{"a":[[1]}`,
	``, `{`, `}`, `x`, `{x`, `x}`, `[]`, `{"a":[1]"b":2}`, `{"a":{}"b":2}`, `{"a":{}{}}`, `{"a":[][]}`, `{"a":{[]}}`, `{{}}`, `{[]}`,
}

type tourNamed struct{ X int }

func (t tourNamed) Error() string { return "named" }

// tourValues: a fresh object each time.
var tourValues = []struct {
	name string
	mk   func() interface{}
}{
	{"nil", func() interface{} { return nil }},
	{"nil *string", func() interface{} { return (*string)(nil) }},
	{"nil *Map", func() interface{} { return (*hj.Map)(nil) }},
	{"nil *Array", func() interface{} { return (*hj.Array)(nil) }},
	{"nil *Value", func() interface{} { return (*hj.Value)(nil) }},
	{"empty string", func() interface{} { return "" }},
	{"text", func() interface{} { return "some \"text\"\n\x01" }},
	{"*text", func() interface{} { s := "some \"text\"\n"; return &s }},
	{"true text", func() interface{} { return "true" }},
	{"1 text", func() interface{} { s := "1"; return &s }},
	{"0 text", func() interface{} { return "0" }},
	{"NULL text", func() interface{} { return "NULL" }},
	{"number text", func() interface{} { return "-129" }},
	{"wide text", func() interface{} { return "18446744073709551615" }},
	{"wider text", func() interface{} { return "18446744073709551616" }},
	{"float text", func() interface{} { return "1.25e3" }},
	{"time text", func() interface{} { return "2023-05-06 07:08:09.123456" }},
	{"*time text", func() interface{} { s := "2023-05-06 07:08:09"; return &s }},
	{"time", func() interface{} { return time.Date(2023, 5, 6, 7, 8, 9, 123456789, time.UTC) }},
	{"*time", func() interface{} { x := time.Date(1, 2, 3, 4, 5, 6, 7, time.FixedZone("z", 3600)); return &x }},
	{"error", func() interface{} { return errors.New("e\"1") }},
	{"*error", func() interface{} { e := errors.New("e2"); return &e }},
	{"*error nil", func() interface{} { var e error; return &e }},
	{"fmt error", func() interface{} { return fmt.Errorf("e %d", 3) }},
	{"wrapping error", func() interface{} { return fmt.Errorf("e %w", errors.New("x")) }},
	{"url error", func() interface{} { return &url.Error{Op: "op", URL: "u", Err: errors.New("x")} }},
	{"named error", func() interface{} { return tourNamed{1} }},
	{"exit error", func() interface{} { return &exec.ExitError{} }},
	{"errors", func() interface{} { return []error{errors.New("a"), nil, errors.New("b")} }},
	{"*errors", func() interface{} { e := []error{errors.New("a"), errors.New("b")}; return &e }},
	{"strings", func() interface{} { return []string{"a", "", "b\n"} }},
	{"*strings", func() interface{} { s := []string{"a"}; return &s }},
	{"no strings", func() interface{} { return []string{} }},
	{"NaN", func() interface{} { return math.NaN() }},
	{"*Inf", func() interface{} { x := float32(math.Inf(-1)); return &x }},
	{"float32", func() interface{} { return float32(0.1) }},
	{"*float32", func() interface{} { x := float32(1e10); return &x }},
	{"float64", func() interface{} { return 0.1 }},
	{"*float64", func() interface{} { x := -1e300; return &x }},
	{"channel", func() interface{} { return make(chan int) }},
	{"struct", func() interface{} { return struct{ A int }{1} }},
	{"[]int", func() interface{} { return []int{1} }},
	{"map", func() interface{} { return map[string]interface{}{"a": 1} }},
	{"complex", func() interface{} { return complex(1, 2) }},
	{"**int", func() interface{} { x := 1; p := &x; return &p }},
	{"func", func() interface{} { return func(string) []error { return nil } }},
	{"*func", func() interface{} { f := func(string) []error { return nil }; return &f }},
	{"func(Map)", func() interface{} { return func(hj.Map) []error { return nil } }},
	{"schema", func() interface{} { return map[string]map[string][][]string{} }},
	{"Map", func() interface{} { m := hj.NewMapValue(); m.SetIntValue("a", 1); return m }},
	{"*Map", func() interface{} { m := hj.NewMap(); m.SetString("a", nil); return m }},
	{"empty Map", func() interface{} { return hj.NewMap() }},
	{"Array", func() interface{} { a := hj.NewArrayValue(); a.AppendStringValue("1"); a.AppendNil(); return a }},
	{"*Array", func() interface{} { a := hj.NewArray(); a.AppendIntValue(300); a.AppendBoolValue(true); return a }},
	{"*Array of times", func() interface{} {
		a := hj.NewArray()
		x := time.Date(2020, 1, 2, 3, 4, 5, 0, time.UTC)
		a.AppendValue(hj.NewValue(&x))
		return a
	}},
	{"bad Map", func() interface{} { m := hj.NewMap(); m.SetValue("a", hj.NewValue(make(chan int))); return m }},
	{"bad Array", func() interface{} { a := hj.NewArray(); a.AppendValue(hj.NewValue([]int{1})); return a }},
	{"*errors with nil", func() interface{} { e := []error{errors.New("a"), nil}; return &e }},
	{"Array with nil cell", func() interface{} { a := hj.NewArray(); a.AppendValue(nil); a.AppendValue(hj.NewValue(nil)); return a }},
	{"Map with nil cell", func() interface{} { m := hj.NewMap(); m.SetValue("a", nil); return m }},
	{"bad MapValue", func() interface{} { m := hj.NewMapValue(); m.SetValue("a", hj.NewValue(make(chan int))); return m }},
	{"bad ArrayValue", func() interface{} { a := hj.NewArrayValue(); a.AppendValue(hj.NewValue(math.Inf(1))); return a }},
	{"Value", func() interface{} { return hj.NewValueValue(5) }},
	{"*Value", func() interface{} { return hj.NewValue("5") }},
	{"*Value of nil", func() interface{} { return hj.NewValue(nil) }},
	{"bool", func() interface{} { return true }},
	{"*bool", func() interface{} { b := false; return &b }},
	{"int", func() interface{} { return math.MinInt64 }},
	{"*int", func() interface{} { x := math.MaxInt64; return &x }},
	{"int8", func() interface{} { return int8(-128) }},
	{"*int8", func() interface{} { x := int8(127); return &x }},
	{"int16", func() interface{} { return int16(-129) }},
	{"*int16", func() interface{} { x := int16(300); return &x }},
	{"int32", func() interface{} { return int32(-70000) }},
	{"*int32", func() interface{} { x := int32(70000); return &x }},
	{"int64", func() interface{} { return int64(math.MinInt64) }},
	{"*int64", func() interface{} { x := int64(1) << 40; return &x }},
	{"uint", func() interface{} { return uint(math.MaxUint64) }},
	{"*uint", func() interface{} { x := uint(1) << 40; return &x }},
	{"uint8", func() interface{} { return uint8(255) }},
	{"*uint8", func() interface{} { x := uint8(1); return &x }},
	{"uint16", func() interface{} { return uint16(65535) }},
	{"*uint16", func() interface{} { x := uint16(256); return &x }},
	{"uint32", func() interface{} { return uint32(math.MaxUint32) }},
	{"*uint32", func() interface{} { x := uint32(65536); return &x }},
	{"uint64", func() interface{} { return uint64(math.MaxUint64) }},
	{"*uint64", func() interface{} { x := uint64(1) << 63; return &x }},
}

func vals(xs ...interface{}) got {
	r := got{}
	for _, x := range xs {
		if x == nil {
			x = "nil"
		}
		r.vals = append(r.vals, reflect.ValueOf(x))
	}
	return r
}

// calm makes a call whose panic is a result like another.
func calm(f func() got) (r got) {
	defer func() {
		if p := recover(); p != nil {
			r = vals(fmt.Sprint("panic ", p))
		}
	}()
	return f()
}

func jsonOf(o interface{}) got {
	var w strings.Builder
	es := hj.ConvertInterfaceValueToJSONStringValue(&w, o)
	return got{vals: []reflect.Value{reflect.ValueOf(w.String())}, errs: es}
}

// everyRead makes each read of o once.
func everyRead(cfg *Config, o interface{}, key interface{}, keep func(got)) {
	g := &Gen{r: newRand(7), hot: cfg.Hot}
	for _, name := range opNames(o, readPrefixes...) {
		f, ok := op(o, name)
		if !ok {
			continue
		}
		if args := argsFor(g, f, key); len(args) == f.Type().NumIn() {
			keep(calm(func() got {
				r := callGot(f, args)
				for _, v := range r.vals { // a function is only looked at
					if p, is := v.Interface().(*func(string) []error); is {
						return vals(p == nil)
					}
				}
				return r
			}))
		}
	}
}

func tourCases(cfg *Config) []Case {
	var res []Case
	for lo := 0; lo < len(tourTexts); lo += 12 {
		part := tourTexts[lo:min(len(tourTexts), lo+12)]
		res = append(res, Case{Name: fmt.Sprint("tour-texts-", lo), Fresh: lo%24 == 0, Fn: func(t *T) {
			for _, text := range part {
				work := func(i int, keep func(got)) {
					for l := 0; l < 3; l++ {
						m, es := hj.Parse(text)
						keep(got{vals: []reflect.Value{reflect.ValueOf(m)}, errs: es})
						if m != nil {
							c, es := m.Clone()
							keep(got{vals: []reflect.Value{reflect.ValueOf(c)}, errs: es})
							keep(jsonOf(m))
							m.SetStringValue("own", "x")
							m.RemoveKey("own")
							keep(jsonOf(m))
						}
					}
				}
				tight(t, fmt.Sprintf("text %q", text), 6, work, work)
				t.Input(true, text)
			}
		}})
	}
	for lo := 0; lo < len(tourValues); lo += 6 {
		part := tourValues[lo:min(len(tourValues), lo+6)]
		res = append(res, Case{Name: fmt.Sprint("tour-values-", lo), Fresh: lo%24 == 0, Fn: func(t *T) {
			for _, v := range part {
				v := v
				t.Input(true, v.name)
				tight2 := func(what string, n int, work func(i int, keep func(got))) {
					tight(t, what+" "+v.name, n, work, work)
				}
				tight2("rendering", 6, func(i int, keep func(got)) {
					for l := 0; l < 2; l++ {
						keep(calm(func() got {
							s, es := hj.ConvertInterfaceValueToStringValue(v.mk())
							return got{vals: []reflect.Value{reflect.ValueOf(s)}, errs: es}
						}))
						keep(calm(func() got { return jsonOf(v.mk()) }))
					}
				})
				mkMap := func() *hj.Map {
					m := hj.NewMap()
					m.SetIntValue("before", 1)
					m.SetValue("v", hj.NewValue(v.mk()))
					return m
				}
				mkArray := func() *hj.Array {
					a := hj.NewArray()
					a.AppendStringValue("before")
					a.AppendValue(hj.NewValue(v.mk()))
					a.AppendNil()
					return a
				}
				mkOnly := func() *hj.Array {
					a := hj.NewArray()
					a.AppendValue(hj.NewValue(v.mk()))
					return a
				}
				whole := func(o interface{}, keep func(got)) {
					keep(calm(func() got { return jsonOf(o) }))
					for _, p := range []string{"Clone"} {
						if f, ok := op(o, p); ok {
							keep(calm(func() got { return callGot(f, nil) }))
						}
					}
				}
				tight2("own", 4, func(i int, keep func(got)) {
					m, a := mkMap(), mkArray()
					whole(m, keep)
					whole(a, keep)
					from := map[string]interface{}{"v": v.mk()}
					list := []interface{}{v.mk(), "x"}
					whole(hj.NewMapOfValues(&from), keep)
					whole(hj.NewArrayOfValues(&list), keep)
					m.SetObjectForMap("o", v.mk())
					ok, err := m.RemoveKey("v")
					keep(vals(ok, fmt.Sprint(err)))
					ok, err = m.RemoveKey("v")
					keep(vals(ok, fmt.Sprint(err)))
					m.SetNil("before")
					whole(m, keep)
					for _, at := range []int{-1, 1, 7} {
						ok, err := a.SetValueAtIndex(at, hj.NewValue(v.mk()))
						keep(vals(ok, fmt.Sprint(err)))
						ok, err = a.RemoveValueAtIndex(at)
						keep(vals(ok, fmt.Sprint(err)))
					}
					whole(a, keep)
				})
				for r := 0; r < t.cfg.n(1, 6); r++ {
					m, alone := mkMap(), mkMap()
					a, only := mkArray(), mkOnly()
					read := func(m *hj.Map) func(i int, keep func(got)) {
						return func(i int, keep func(got)) {
							if i%2 == r%2 {
								whole(m, keep)
							}
							everyRead(t.cfg, m, "v", keep)
							everyRead(t.cfg, m.GetValue("v"), nil, keep)
							whole(m, keep)
						}
					}
					tight(t, "shared "+v.name, 4, read(m), read(alone))
					readArray := func(i int, keep func(got)) {
						if i%2 == r%2 {
							whole(a, keep)
						}
						everyRead(t.cfg, a, nil, keep)
						everyRead(t.cfg, only, nil, keep)
						whole(a, keep)
						whole(only, keep)
					}
					tight(t, "shared array of "+v.name, 4, readArray, readArray)
				}
			}
		}})
	}
	return res
}
