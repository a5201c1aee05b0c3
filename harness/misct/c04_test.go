package misct

import (
	"fmt"
	"reflect"
	"sort"
	"strings"
	"testing"

	"github.com/GalaIO/P2Pcrawler/misc"
	"pgregory.net/rapid"
	"verif/harness/conv"
	"verif/harness/h"
	"verif/harness/ref"
)

func sortedKeys(d misc.Dict) []string {
	ks := make([]string, 0, len(d))
	for k := range d {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// wantTyped: f raises the library's error with code 201, naming key, no internals.
func wantTyped(rt *rapid.T, what, key string, f func()) {
	p, panicked := h.Panics(f)
	if !panicked {
		rt.Fatalf("%s did not raise an error", what)
	}
	e, ok := p.(*misc.Error)
	if !ok {
		rt.Fatalf("%s raised %T (%v), not the library's error", what, p, p)
	}
	text := e.Error()
	if !strings.HasPrefix(text, "201:") {
		rt.Fatalf("%s: the error text %q does not carry code 201", what, text)
	}
	if key != "" && !strings.Contains(text, key) {
		rt.Fatalf("%s: the error text %q does not name the key", what, text)
	}
	rest := strings.Replace(text, key, "", -1)
	if len(rest) < 8 {
		rt.Fatalf("%s: the error text %q does not name the problem", what, text)
	}
	for _, leak := range []string{"goroutine", ".go:", "runtime.", "stack", "\n"} {
		if strings.Contains(rest, leak) {
			rt.Fatalf("%s: the error text contains %q: %q", what, leak, text)
		}
	}
}

func wantValue(rt *rapid.T, what string, want ref.Value, f func() interface{}) {
	var got interface{}
	if p, panicked := h.Panics(func() { got = f() }); panicked {
		rt.Fatalf("%s raised %v", what, p)
	}
	if !conv.Same(got, want) {
		rt.Fatalf("%s = %#v, want %#v", what, got, want)
	}
}

func TestC04(t *testing.T) {
	h.Check(t, "dict", "a decoded dictionary and a present or absent key, all accessors; non-trivial: the key is present", 20000, 300000,
		func(rt *rapid.T, c *h.Case) {
			d := ref.GenDict(2).Draw(rt, "d")
			key := ref.GenStr().Draw(rt, "key")
			if rapid.IntRange(0, 3).Draw(rt, "present") > 0 {
				if rapid.Bool().Draw(rt, "new") || len(d) == 0 {
					d[key] = ref.GenValue(2).Draw(rt, "v")
				} else {
					ks := make([]string, 0)
					for k := range d {
						ks = append(ks, k)
					}
					sort.Strings(ks)
					key = rapid.SampledFrom(ks).Draw(rt, "k")
				}
			}
			m, err := misc.DecodeDict(string(ref.Encode(d)))
			if err != nil {
				rt.Fatalf("DecodeDict: %v", err)
			}
			v, present := d[key]
			c.Input("dict %q key %q", ref.Encode(d), key)
			c.NonTrivial(present)
			c.Label(fmt.Sprintf("%T", v), present)
			if got := m.Exist(key); got != present {
				rt.Fatalf("Exist(%q) = %v, want %v", key, got, present)
			}
			check := func(name string, isType bool, f func() interface{}) {
				what := fmt.Sprintf("%s(%q) of %#v", name, key, v)
				if present && isType {
					wantValue(rt, what, v, f)
				} else {
					wantTyped(rt, what, key, func() { f() })
				}
			}
			_, isInt := v.(int)
			_, isStr := v.(string)
			_, isList := v.(ref.List)
			_, isDict := v.(ref.Dict)
			check("GetVal", true, func() interface{} { return m.GetVal(key) })
			check("GetInteger", isInt, func() interface{} { return m.GetInteger(key) })
			check("GetString", isStr, func() interface{} { return m.GetString(key) })
			check("GetList", isList, func() interface{} { return m.GetList(key) })
			check("GetDict", isDict, func() interface{} { return m.GetDict(key) })
			di, ds := ref.GenInt().Draw(rt, "di"), ref.GenStr().Draw(rt, "ds")
			var wi, ws, wv ref.Value = di, ds, di
			if isInt {
				wi = v
			}
			if isStr {
				ws = v
			}
			if present {
				wv = v
			}
			wantValue(rt, "GetIntegerOrDefault", wi, func() interface{} { return m.GetIntegerOrDefault(key, di) })
			wantValue(rt, "GetStringOrDefault", ws, func() interface{} { return m.GetStringOrDefault(key, ds) })
			wantValue(rt, "GetValOrDefault", wv, func() interface{} { return m.GetValOrDefault(key, di) })
			if !conv.Same(m, d) {
				rt.Fatalf("reading changed the dictionary: %#v", m)
			}
		})
	h.Check(t, "list", "a decoded list, every index, all accessors; non-trivial: at least two elements of different kinds", 16000, 200000,
		func(rt *rapid.T, c *h.Case) {
			l := ref.GenList(2).Draw(rt, "l")
			m, err := misc.DecodeSlice(string(ref.Encode(l)))
			if err != nil {
				rt.Fatalf("DecodeSlice: %v", err)
			}
			c.Input("list %q", ref.Encode(l))
			kinds := map[string]bool{}
			for _, v := range l {
				kinds[fmt.Sprintf("%T", v)] = true
			}
			c.NonTrivial(len(kinds) >= 2)
			for _, i := range []int{-1 << 63, -5, -1, 0, 1, 2, 3, 4, 5, 6, 100, 1<<63 - 1} {
				if got, want := m.Exist(i), i >= 0 && i < len(l); got != want {
					rt.Fatalf("Exist(%d) on %d elements = %v", i, len(l), got)
				}
			}
			for i, v := range l {
				check := func(name string, isType bool, f func() interface{}) {
					what := fmt.Sprintf("%s(%d) of %#v", name, i, v)
					if isType {
						wantValue(rt, what, v, f)
					} else {
						wantTyped(rt, what, "", func() { f() })
					}
				}
				_, isInt := v.(int)
				_, isStr := v.(string)
				_, isList := v.(ref.List)
				_, isDict := v.(ref.Dict)
				check("GetVal", true, func() interface{} { return m.GetVal(i) })
				check("GetInteger", isInt, func() interface{} { return m.GetInteger(i) })
				check("GetString", isStr, func() interface{} { return m.GetString(i) })
				check("GetList", isList, func() interface{} { return m.GetList(i) })
				check("GetDict", isDict, func() interface{} { return m.GetDict(i) })
			}
		})
	// values a program stores itself, of every kind
	type number int
	type text string
	odd := []interface{}{nil, true, false, 1.5, float32(2), int8(3), int16(3), int32(3), int64(3), uint(3), uint8(3), uint64(3), number(3), text("t"),
		[]byte("b"), []interface{}{1}, []string{"a"}, []int{1}, map[string]interface{}{"a": 1}, map[string]int{"a": 1}, misc.List(nil), misc.Dict(nil), misc.List{}, misc.Dict{},
		&misc.Dict{"a": 1}, &misc.List{1}, (*int)(nil), error(nil), struct{}{}, [2]int{1, 2}, 'x', 0, "", -1, "0"}
	h.Check(t, "stored", "a dictionary and a list filled by the program with values of 35 kinds (nil, other widths, named types, foreign slices and maps, nil and empty containers) next to ordinary ones; all accessors on a present or absent key and on an index; non-trivial: the key is present", 16000, 200000,
		func(rt *rapid.T, c *h.Case) {
			value := func() interface{} {
				if rapid.IntRange(0, 2).Draw(rt, "odd") > 0 {
					return odd[rapid.IntRange(0, len(odd)-1).Draw(rt, "which")]
				}
				return conv.ToMisc(ref.GenValue(1).Draw(rt, "v"))
			}
			keys := []string{"a", "b", "", "a\x00", "length", "Length"}
			m, l := misc.Dict{}, misc.List{}
			for i := rapid.IntRange(0, 5).Draw(rt, "n"); i > 0; i-- {
				m[rapid.SampledFrom(keys).Draw(rt, "key")] = value()
			}
			for i := rapid.IntRange(1, 4).Draw(rt, "elements"); i > 0; i-- {
				l = append(l, value())
			}
			key, at := rapid.SampledFrom(keys).Draw(rt, "read"), rapid.IntRange(0, len(l)-1).Draw(rt, "at")
			c.Input("dict %#v key %q, list %#v index %d", m, key, l, at)
			check := func(what string, v interface{}, ok bool, name string, f func() interface{}) {
				if !ok {
					wantTyped(rt, what, name, func() { f() })
					return
				}
				var got interface{}
				if p, panicked := h.Panics(func() { got = f() }); panicked {
					rt.Fatalf("%s of %#v raised %v", what, v, p)
				}
				if !reflect.DeepEqual(got, v) {
					rt.Fatalf("%s = %#v, want %#v", what, got, v)
				}
			}
			v, present := m[key]
			c.NonTrivial(present)
			if got := m.Exist(key); got != present {
				rt.Fatalf("Exist(%q) = %v, want %v", key, got, present)
			}
			_, isInt := v.(int)
			_, isStr := v.(string)
			_, isList := v.(misc.List)
			_, isDict := v.(misc.Dict)
			check("GetVal", v, present, key, func() interface{} { return m.GetVal(key) })
			check("GetInteger", v, isInt, key, func() interface{} { return m.GetInteger(key) })
			check("GetString", v, isStr, key, func() interface{} { return m.GetString(key) })
			check("GetList", v, isList, key, func() interface{} { return m.GetList(key) })
			check("GetDict", v, isDict, key, func() interface{} { return m.GetDict(key) })
			di, ds := rapid.IntRange(-2, 2).Draw(rt, "di"), rapid.SampledFrom([]string{"", "d"}).Draw(rt, "ds")
			var wi, ws, wv interface{} = di, ds, ds
			if isInt {
				wi = v
			}
			if isStr {
				ws = v
			}
			if present {
				wv = v
			}
			check("GetIntegerOrDefault", wi, true, key, func() interface{} { return m.GetIntegerOrDefault(key, di) })
			check("GetStringOrDefault", ws, true, key, func() interface{} { return m.GetStringOrDefault(key, ds) })
			check("GetValOrDefault", wv, true, key, func() interface{} { return m.GetValOrDefault(key, ds) })
			e := l[at]
			_, isInt = e.(int)
			_, isStr = e.(string)
			_, isList = e.(misc.List)
			_, isDict = e.(misc.Dict)
			if !l.Exist(at) || l.Exist(len(l)) || l.Exist(-1) {
				rt.Fatalf("Exist on %#v: %v %v %v", l, l.Exist(at), l.Exist(len(l)), l.Exist(-1))
			}
			check("list GetVal", e, true, "", func() interface{} { return l.GetVal(at) })
			check("list GetInteger", e, isInt, "", func() interface{} { return l.GetInteger(at) })
			check("list GetString", e, isStr, "", func() interface{} { return l.GetString(at) })
			check("list GetList", e, isList, "", func() interface{} { return l.GetList(at) })
			check("list GetDict", e, isDict, "", func() interface{} { return l.GetDict(at) })
			all := true
			for _, e := range l {
				_, ok := e.(string)
				all = all && ok
			}
			if !all {
				// a list with something else than strings holds no answer, but an earlier match is one
				p, panicked := h.Panics(func() { l.ContainsString("no such element") })
				if e, ok := p.(*misc.Error); !panicked || !ok || !strings.HasPrefix(e.Error(), "201:") {
					rt.Fatalf("ContainsString on %#v: %v", l, p)
				}
			}
		})
	h.Check(t, "contains", "a list of strings and a target, equal to an element, to an element in other letter case, or unrelated; non-trivial: the list is not empty and the target has a letter", 16000, 200000,
		func(rt *rapid.T, c *h.Case) {
			word := rapid.StringMatching(`[a-cA-C_0]{0,4}`)
			l := rapid.SliceOfN(word, 0, 5).Draw(rt, "l")
			target := word.Draw(rt, "target")
			if len(l) > 0 && rapid.Bool().Draw(rt, "from") {
				target = rapid.SampledFrom(l).Draw(rt, "elem")
				switch rapid.IntRange(0, 3).Draw(rt, "case") {
				case 0:
					target = strings.ToUpper(target)
				case 1:
					target = strings.ToLower(target)
				case 2:
					target += "x"
				}
			}
			m := misc.List{}
			want := false
			for _, s := range l {
				m = append(m, s)
				if strings.ToLower(s) == strings.ToLower(target) {
					want = true
				}
			}
			c.Input("list %q target %q", l, target)
			c.NonTrivial(len(l) > 0 && strings.ToLower(target) != strings.ToUpper(target))
			c.Label("member", want)
			if got := m.ContainsString(target); got != want {
				rt.Fatalf("%q.ContainsString(%q) = %v", l, target, got)
			}
		})
}
