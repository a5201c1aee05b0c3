package misct

import (
	"fmt"
	"strconv"
	"strings"
	"testing"

	"github.com/GalaIO/P2Pcrawler/misc"
	"pgregory.net/rapid"
	"verif/harness/conv"
	"verif/harness/h"
	"verif/harness/ref"
)

func genTail() *rapid.Generator[string] {
	return rapid.OneOf(rapid.Just(""), rapid.Just("e"), rapid.Just("de"), ref.GenStr(),
		rapid.Map(ref.GenDict(1), func(d ref.Dict) string { return string(ref.Encode(d)) }))
}

func hasOddString(v ref.Value) bool {
	odd := func(s string) bool {
		for i := 0; i < len(s); i++ {
			if s[i] == ':' || s[i] < 32 || s[i] > 126 {
				return true
			}
		}
		return false
	}
	switch x := v.(type) {
	case string:
		return odd(x)
	case ref.List:
		for _, e := range x {
			if hasOddString(e) {
				return true
			}
		}
	case ref.Dict:
		for k, e := range x {
			if odd(k) || hasOddString(e) {
				return true
			}
		}
	}
	return false
}

// checkEncoded: text is exactly one well-formed value equal to v.
func checkEncoded(rt *rapid.T, text string, err error, v ref.Value) {
	if err != nil {
		rt.Fatalf("encoding %#v failed: %v", v, err)
	}
	got, verdict := ref.ParseAll([]byte(text))
	if verdict != ref.Good {
		rt.Fatalf("encoding of %#v is %s bencode: %q", v, verdict, text)
	}
	if !ref.Equal(got, v) {
		rt.Fatalf("encoding of %#v denotes %#v: %q", v, got, text)
	}
}

func roundDict(rt *rapid.T, c *h.Case, d ref.Dict, tail string) {
	m := conv.ToMisc(d).(misc.Dict)
	text, err := misc.EncodeDict(m)
	checkEncoded(rt, text, err, d)
	if !conv.Same(m, d) {
		rt.Fatalf("encoding changed its argument: %#v became %#v", d, m)
	}
	back, err := misc.DecodeDict(text)
	if err != nil || !conv.Same(back, d) {
		rt.Fatalf("DecodeDict(%q) = %#v, %v; want %#v", text, back, err, d)
	}
	// the same dictionary holding something else is encoded as it is now
	if len(d) > 0 {
		k := rapid.SampledFrom(ref.Keys(d)).Draw(rt, "changed")
		d2 := ref.Dict{}
		for kk, v := range d {
			d2[kk] = v
		}
		v := ref.GenValue(1).Draw(rt, "new value")
		d2[k], m[k] = v, conv.ToMisc(v)
		text2, err := misc.EncodeDict(m)
		checkEncoded(rt, text2, err, d2)
	}
	// what a caller does to a result does not show in another one
	for k := range back {
		if l, ok := back[k].(misc.List); ok && len(l) > 0 {
			l[0] = "touched"
		}
		if m, ok := back[k].(misc.Dict); ok {
			m["touched"] = 1
		}
		delete(back, k)
	}
	back["touched"] = 1
	back, err = misc.DecodeDict(text)
	if err != nil || !conv.Same(back, d) {
		rt.Fatalf("DecodeDict(%q) a second time = %#v, %v; want %#v", text, back, err, d)
	}
	back, n, err := misc.DecodeDictNoLimit(text + tail)
	if err != nil || n != len(text) || !conv.Same(back, d) {
		rt.Fatalf("DecodeDictNoLimit(%q + %q) = %#v, %d, %v; want %#v and %d", text, tail, back, n, err, d, len(text))
	}
}

func roundList(rt *rapid.T, l ref.List) {
	m := conv.ToMisc(l).(misc.List)
	text, err := misc.EncodeSlice(m)
	checkEncoded(rt, text, err, l)
	back, err := misc.DecodeSlice(text)
	if err != nil || !conv.Same(back, l) {
		rt.Fatalf("DecodeSlice(%q) = %#v, %v", text, back, err)
	}
	// the same list holding something else is encoded as it is now
	if len(l) > 0 {
		i := rapid.IntRange(0, len(l)-1).Draw(rt, "changed")
		v := ref.GenValue(1).Draw(rt, "new element")
		l2 := append(ref.List(nil), l...)
		l2[i], m[i] = v, conv.ToMisc(v)
		text, err = misc.EncodeSlice(m)
		checkEncoded(rt, text, err, l2)
	}
}

// genSize draws sizes up to max with the surroundings of powers of two and ten
// well represented.
func drawSize(max int) *rapid.Generator[int] {
	return rapid.Custom(func(rt *rapid.T) int {
		n := 0
		switch rapid.IntRange(0, 2).Draw(rt, "how") {
		case 0:
			n = rapid.IntRange(0, max).Draw(rt, "n")
		case 1:
			n = 1<<uint(rapid.IntRange(4, 18).Draw(rt, "pow2")) + rapid.IntRange(-2, 2).Draw(rt, "off")
		case 2:
			n = 10
			for i := rapid.IntRange(0, 4).Draw(rt, "pow10"); i > 0; i-- {
				n *= 10
			}
			n += rapid.IntRange(-2, 2).Draw(rt, "off")
		}
		if n > max {
			n = max
		}
		return n
	})
}

// bigString is n bytes that repeat a drawn pattern.
func bigString(rt *rapid.T, n int) string {
	p := rapid.SliceOfN(rapid.Byte(), 1, 16).Draw(rt, "pattern")
	return strings.Repeat(string(p), n/len(p)+1)[:n]
}

func TestC01(t *testing.T) {
	h.Check(t, "dict", "dictionaries nested up to 4 deep, encoded, parsed by the reference parser and decoded back, also with trailing bytes; non-trivial: nested at least 2 deep or containing a string with ':' or binary bytes", 12000, 300000,
		func(rt *rapid.T, c *h.Case) {
			d := ref.GenDict(4).Draw(rt, "d")
			tail := genTail().Draw(rt, "tail")
			c.Input("dict %q tail %q", ref.Encode(d), tail)
			c.NonTrivial(ref.Depth(d) >= 2 || hasOddString(d))
			c.Label("tail", tail != "")
			roundDict(rt, c, d, tail)
		})
	h.Check(t, "list", "lists nested up to 4 deep; non-trivial as for dictionaries", 12000, 300000,
		func(rt *rapid.T, c *h.Case) {
			l := ref.GenList(4).Draw(rt, "l")
			c.Input("list %q", ref.Encode(l))
			c.NonTrivial(ref.Depth(l) >= 2 || hasOddString(l))
			roundList(rt, l)
		})
	h.Check(t, "scalar", "integers and strings through their own pair; non-trivial: every string with ':' or binary bytes and every integer of two digits or more", 20000, 400000,
		func(rt *rapid.T, c *h.Case) {
			if rapid.Bool().Draw(rt, "isInt") {
				i := ref.GenInt().Draw(rt, "i")
				c.Input("int %d", i)
				c.NonTrivial(i > 9 || i < -9)
				text, err := misc.EncodeInteger(i)
				checkEncoded(rt, text, err, i)
				back, err := misc.DecodeInteger(text)
				if err != nil || back != i {
					rt.Fatalf("DecodeInteger(%q) = %d, %v", text, back, err)
				}
				return
			}
			s := ref.GenStr().Draw(rt, "s")
			c.Input("string %q", s)
			c.NonTrivial(hasOddString(s))
			text, err := misc.EncodeString(s)
			checkEncoded(rt, text, err, s)
			back, err := misc.DecodeString(text)
			if err != nil || back != s {
				rt.Fatalf("DecodeString(%q) = %q, %v", text, back, err)
			}
		})
	h.Check(t, "deep", "chains of lists and dictionaries 5 to 400 deep, now and then to 9990, and containers of up to 300 elements; all non-trivial", 400, 8000,
		func(rt *rapid.T, c *h.Case) {
			n := rapid.IntRange(5, 400).Draw(rt, "depth")
			if rapid.IntRange(0, 40).Draw(rt, "very deep") == 0 {
				n = rapid.IntRange(400, 9990).Draw(rt, "levels")
			}
			shape := make([]bool, n)
			switch rapid.SampledFrom([]string{"mixed", "lists", "dicts", "runs"}).Draw(rt, "kind") {
			case "mixed":
				shape = rapid.SliceOfN(rapid.Bool(), n, n).Draw(rt, "shape")
			case "lists":
				for i := range shape {
					shape[i] = true
				}
			case "runs":
				k := rapid.IntRange(2, 200).Draw(rt, "run")
				for i := range shape {
					shape[i] = i/k%2 == 0
				}
			}
			bare := rapid.Bool().Draw(rt, "bare") // nothing beside the nested value
			wide := rapid.IntRange(0, 300).Draw(rt, "wide")
			var v ref.Value = ref.GenStr().Draw(rt, "leaf")
			l := ref.List{v}
			for i := 0; i < wide; i++ {
				l = append(l, i)
			}
			v = l
			for i, isList := range shape {
				switch {
				case isList && bare:
					v = ref.List{v}
				case isList:
					v = ref.List{v, i}
				case bare:
					v = ref.Dict{"k": v}
				default:
					v = ref.Dict{"k": v, "z": i}
				}
			}
			d := ref.Dict{"x": v}
			c.Input("depth %d, width %d, leaf %q", n, wide, l[0])
			c.NonTrivial(true)
			roundDict(rt, c, d, "")
			roundList(rt, ref.List{v})
		})
	h.Check(t, "huge", "strings of 0.4 to 40 MB through their own pair, as a dictionary's value, inside a list and followed by more; all non-trivial", 8, 80,
		func(rt *rapid.T, c *h.Case) {
			n := 400000 << uint(rapid.IntRange(0, 6).Draw(rt, "doublings"))
			n += h.Wide(0, n/2).Draw(rt, "more")
			s := bigString(rt, n)
			c.Input("string of %d bytes", n)
			c.NonTrivial(true)
			text, err := misc.EncodeString(s)
			if head := strconv.Itoa(n) + ":"; err != nil || len(text) != n+len(head) || text[:len(head)] != head || text[len(head):] != s {
				rt.Fatalf("encoding a string of %d bytes failed: %v, %d bytes", n, err, len(text))
			}
			if back, err := misc.DecodeString(text); err != nil || back != s {
				rt.Fatalf("decoding a string of %d bytes failed: %v, %d bytes", n, err, len(back))
			}
			whole, err := misc.EncodeDict(misc.Dict{"k": misc.List{s, 1}})
			if want := "d1:kl" + text + "i1eee"; err != nil || whole != want {
				rt.Fatalf("encoding a dictionary with a string of %d bytes failed: %v, %d bytes", n, err, len(whole))
			}
			d, next, err := misc.DecodeDictNoLimit(whole + "tail")
			if err != nil || next != len(whole) || !conv.Same(d, ref.Dict{"k": ref.List{s, 1}}) {
				rt.Fatalf("decoding a dictionary with a string of %d bytes failed: %v, next %d of %d", n, err, next, len(whole))
			}
			if d, err = misc.DecodeDict(whole); err != nil || !conv.Same(d, ref.Dict{"k": ref.List{s, 1}}) {
				rt.Fatalf("decoding a dictionary with a string of %d bytes failed: %v", n, err)
			}
		})
	h.Check(t, "concurrent", "2 to 8 goroutines, each with its own drawn dictionary and list, encode and decode 30 times at the same time; non-trivial: at least 3 goroutines", 150, 6000,
		func(rt *rapid.T, c *h.Case) {
			g := rapid.IntRange(2, 8).Draw(rt, "goroutines")
			c.NonTrivial(g >= 3)
			errs := make(chan string, g)
			var jobs []func() string
			for i := 0; i < g; i++ {
				d, l := ref.GenDict(3).Draw(rt, "d"), ref.GenList(3).Draw(rt, "l")
				c.Input("%q %q", ref.Encode(d), ref.Encode(l))
				md, ml := conv.ToMisc(d).(misc.Dict), conv.ToMisc(l).(misc.List)
				jobs = append(jobs, func() string {
					for k := 0; k < 30; k++ {
						text, err := misc.EncodeDict(md)
						if v, verdict := ref.ParseAll([]byte(text)); err != nil || verdict != ref.Good || !ref.Equal(v, d) {
							return fmt.Sprintf("encoding %#v gave %q, %v", d, text, err)
						}
						if back, err := misc.DecodeDict(text); err != nil || !conv.Same(back, d) {
							return fmt.Sprintf("DecodeDict(%q) = %#v, %v", text, back, err)
						}
						if back, n, err := misc.DecodeDictNoLimit(text + "i0e"); err != nil || n != len(text) || !conv.Same(back, d) {
							return fmt.Sprintf("DecodeDictNoLimit(%q) = %#v, %d, %v", text+"i0e", back, n, err)
						}
						text, err = misc.EncodeSlice(ml)
						if v, verdict := ref.ParseAll([]byte(text)); err != nil || verdict != ref.Good || !ref.Equal(v, l) {
							return fmt.Sprintf("encoding %#v gave %q, %v", l, text, err)
						}
						if back, err := misc.DecodeSlice(text); err != nil || !conv.Same(back, l) {
							return fmt.Sprintf("DecodeSlice(%q) = %#v, %v", text, back, err)
						}
					}
					return ""
				})
			}
			for _, j := range jobs {
				go func(j func() string) {
					defer func() {
						if p := recover(); p != nil {
							errs <- fmt.Sprintf("panic: %v", p)
						}
					}()
					errs <- j()
				}(j)
			}
			bad := ""
			for range jobs {
				if e := <-errs; e != "" {
					bad = e
				}
			}
			if bad != "" {
				rt.Fatal(bad)
			}
		})
	h.Check(t, "large", "strings around and beyond every power of ten up to 400 000 bytes, lists and dictionaries of up to 6000 elements, dictionary keys of up to 20 000 bytes, alone, nested and followed by more; non-trivial: at least 10 000 bytes", 120, 4000,
		func(rt *rapid.T, c *h.Case) {
			d := ref.Dict{}
			text := ""
			for i := rapid.IntRange(1, 3).Draw(rt, "parts"); i > 0; i-- {
				k := ref.GenStr().Draw(rt, "key")
				switch kind := rapid.IntRange(0, 4).Draw(rt, "kind"); kind {
				case 0:
					n := drawSize(400000).Draw(rt, "len")
					d[k] = bigString(rt, n)
					text += fmt.Sprintf(" string of %d", n)
				case 1:
					n := drawSize(6000).Draw(rt, "width")
					l := make(ref.List, n)
					fill := rapid.SampledFrom([]ref.Value{0, "", "ab", ref.List{}, ref.Dict{}, ref.List{"l"}, ref.Dict{"d": 1}}).Draw(rt, "fill")
					for j := range l {
						l[j] = fill
					}
					d[k] = l
					text += fmt.Sprintf(" list of %d", n)
				case 2:
					n := drawSize(6000).Draw(rt, "width")
					w := ref.Dict{}
					for j := 0; j < n; j++ {
						w[strconv.Itoa(j*7)+k] = j - n/2
					}
					d[k] = w
					text += fmt.Sprintf(" dict of %d", n)
				case 3:
					n := drawSize(20000).Draw(rt, "keyLen")
					d[bigString(rt, n)] = ref.GenValue(1).Draw(rt, "v")
					text += fmt.Sprintf(" key of %d", n)
				case 4:
					n := drawSize(400000).Draw(rt, "len")
					d[k] = ref.List{bigString(rt, n), ref.Dict{"x": bigString(rt, n/2)}}
					text += fmt.Sprintf(" nested strings of %d", n)
				}
			}
			tail := genTail().Draw(rt, "tail")
			size := len(ref.Encode(d))
			c.Input("%d bytes:%s, tail %q", size, text, tail)
			c.NonTrivial(size >= 10000)
			roundDict(rt, c, d, tail)
			for _, v := range d {
				if l, ok := v.(ref.List); ok {
					roundList(rt, l)
				}
				if s, ok := v.(string); ok {
					e, err := misc.EncodeString(s)
					checkEncoded(rt, e, err, s)
					if back, err := misc.DecodeString(e); err != nil || back != s {
						rt.Fatalf("DecodeString of a string of %d bytes: %d bytes, %v", len(s), len(back), err)
					}
				}
			}
		})
}
