package misct

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"math/big"
	"net"
	"syscall"
	"testing"
	"time"

	"github.com/GalaIO/P2Pcrawler/misc"
	"pgregory.net/rapid"
	"verif/harness/conv"
	"verif/harness/h"
	"verif/harness/ref"
)

type aStruct struct{ A int }

type aStringer struct{}

func (aStringer) String() string               { return "text" }
func (aStringer) MarshalText() ([]byte, error) { return []byte("text"), nil }

// every value bencode cannot represent here
var unsupported = []struct {
	name string
	val  interface{}
}{
	{"nil", nil}, {"float64 0", 0.0}, {"float64", 1.5}, {"NaN", math.NaN()}, {"float32", float32(2)}, {"true", true}, {"false", false},
	{"int8", int8(1)}, {"int16", int16(1)}, {"int32", int32(7)}, {"int64", int64(8)}, {"uint", uint(9)}, {"uint8", uint8(1)}, {"uint16", uint16(1)}, {"uint32", uint32(1)}, {"uint64", uint64(math.MaxUint64)},
	{"complex", complex(1, 2)}, {"[]byte", []byte("abc")}, {"[]string", []string{"a"}}, {"[]interface{}", []interface{}{1}}, {"[]int", []int{1, 2}}, {"empty []int", []int{}},
	{"[2]int", [2]int{1, 2}}, {"map[string]interface{}", map[string]interface{}{"a": 1}}, {"map[string]string", map[string]string{"a": "b"}}, {"map[int]int", map[int]int{1: 1}},
	{"nil List", misc.List(nil)}, {"nil Dict", misc.Dict(nil)}, {"[]List", []misc.List{{1}}}, {"struct", aStruct{1}}, {"*struct", &aStruct{1}}, {"*int", new(int)}, {"*List", &misc.List{1}},
	{"*Dict", &misc.Dict{"a": 1}}, {"func", func() {}}, {"chan", make(chan int)}, {"error", errors.New("x")},
	// values that know how to print or marshal themselves are no byte strings either
	{"time.Duration", time.Second}, {"time.Time", time.Unix(1, 0)}, {"net.IP", net.IPv4(127, 0, 0, 1)}, {"*net.UDPAddr", &net.UDPAddr{Port: 1}}, {"*big.Int", big.NewInt(3)},
	{"json.RawMessage", json.RawMessage("1")}, {"bytes.Buffer", bytes.NewBufferString("x")}, {"Stringer", aStringer{}}, {"error code", syscall.ENOENT},
	{"nil []byte", []byte(nil)}, {"empty []byte", []byte{}}, {"[3]byte", [3]byte{1, 2, 3}}, {"[]rune", []rune("ab")}, {"nil []interface{}", []interface{}(nil)}, {"empty []interface{}", []interface{}{}},
	{"[]Dict", []misc.Dict{{"a": 1}}}, {"nil map", map[string]interface{}(nil)}, {"empty map", map[string]interface{}{}}, {"map[string]int", map[string]int{"a": 1}}, {"map[interface{}]interface{}", map[interface{}]interface{}{"a": 1}},
	{"map[string]Dict", map[string]misc.Dict{}}, {"nil *int", (*int)(nil)}, {"*string", new(string)}, {"*bool", new(bool)}, {"nil *Dict", (*misc.Dict)(nil)}, {"nil *List", (*misc.List)(nil)}, {"nil func", (func())(nil)},
	{"uintptr", uintptr(1)}, {"complex64", complex64(1)}, {"+Inf", math.Inf(1)}, {"float integer", 7.0}, {"struct{}", struct{}{}}, {"**int", new(*int)}, {"List of int8", misc.List{int8(1)}}, {"Dict of nil", misc.Dict{"a": nil}},
}

// plant replaces one node of v (a leaf or a whole subtree) by bad and says where.
func plant(rt *rapid.T, v interface{}, bad interface{}, where string) (interface{}, string) {
	switch x := v.(type) {
	case misc.List:
		i := rapid.IntRange(0, len(x)).Draw(rt, "index")
		if i == len(x) {
			return append(append(misc.List{}, x...), bad), fmt.Sprintf("%s[%d+]", where, i)
		}
		n, w := plant(rt, x[i], bad, fmt.Sprintf("%s[%d]", where, i))
		r := append(misc.List{}, x...)
		r[i] = n
		return r, w
	case misc.Dict:
		ks := sortedKeys(x)
		i := rapid.IntRange(0, len(ks)).Draw(rt, "key")
		r := misc.Dict{}
		for k, e := range x {
			r[k] = e
		}
		if i == len(ks) {
			r["planted"] = bad
			return r, where + ".planted"
		}
		n, w := plant(rt, x[ks[i]], bad, fmt.Sprintf("%s.%q", where, ks[i]))
		r[ks[i]] = n
		return r, w
	}
	return bad, where
}

func TestC03(t *testing.T) {
	h.Check(t, "planted", "a value of an unsupported type planted at a drawn position (leaf, subtree or extra element) of a generated list or dictionary; non-trivial: planted at least one level below the top container", 40000, 400000,
		func(rt *rapid.T, c *h.Case) {
			bad := rapid.SampledFrom(unsupported).Draw(rt, "bad")
			asList := rapid.Bool().Draw(rt, "list")
			var v ref.Value
			if asList {
				v = ref.GenList(3).Draw(rt, "v")
			} else {
				v = ref.GenDict(3).Draw(rt, "v")
			}
			m, where := plant(rt, conv.ToMisc(v), bad.val, "top")
			c.Input("%s at %s of %q", bad.name, where, ref.Encode(v))
			deep := 0
			for _, ch := range where {
				if ch == '[' || ch == '.' {
					deep++
				}
			}
			c.NonTrivial(deep >= 2)
			c.Label(bad.name, true)
			var text string
			var err error
			p, panicked := h.Panics(func() {
				if asList {
					text, err = misc.EncodeSlice(m.(misc.List))
				} else {
					text, err = misc.EncodeDict(m.(misc.Dict))
				}
			})
			if panicked {
				rt.Fatalf("encoding with %s at %s panicked: %v", bad.name, where, p)
			}
			if err == nil {
				rt.Fatalf("encoding with %s at %s returned %q without an error", bad.name, where, text)
			}
		})
	h.Check(t, "top", "nil containers passed directly; always non-trivial", 10, 20,
		func(rt *rapid.T, c *h.Case) {
			asList := rapid.Bool().Draw(rt, "list")
			c.Input("nil, list %v", asList)
			c.NonTrivial(true)
			var err error
			p, panicked := h.Panics(func() {
				if asList {
					_, err = misc.EncodeSlice(nil)
				} else {
					_, err = misc.EncodeDict(nil)
				}
			})
			if panicked || err == nil {
				rt.Fatalf("encoding a nil container: err %v, panic %v", err, p)
			}
		})
}
