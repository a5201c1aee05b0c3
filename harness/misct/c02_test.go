package misct

import (
	"fmt"
	"strconv"
	"strings"
	"testing"

	"github.com/GalaIO/P2Pcrawler/misc"
	"pgregory.net/rapid"
	"verif/harness/conv"
	"verif/harness/h"
	"verif/harness/ref"
)

// checkDecoders compares every decoder on s with the reference grammar and
// returns a complaint, or "".
func checkDecoders(s string) (complaint string) {
	cur := ""
	defer func() {
		if p := recover(); p != nil {
			complaint = fmt.Sprintf("%s(%q) panicked: %v", cur, s, p)
		}
	}()
	v, verdict := ref.ParseAll([]byte(s))
	whole := func(name string, want bool, got interface{}, err error) string {
		switch {
		case verdict == ref.Murky:
			return ""
		case verdict == ref.Good && want:
			if err != nil {
				return fmt.Sprintf("%s(%q) refuses well-formed input: %v", name, s, err)
			}
			if !conv.Same(got, v) {
				return fmt.Sprintf("%s(%q) = %#v, want %#v", name, s, got, v)
			}
		case err == nil:
			return fmt.Sprintf("%s(%q) = %#v without an error, the input is not one %s", name, s, got, name[6:])
		}
		return ""
	}
	cur = "DecodeInteger"
	i, err := misc.DecodeInteger(s)
	_, isInt := v.(int)
	if m := whole(cur, isInt, i, err); m != "" {
		return m
	}
	cur = "DecodeString"
	str, err := misc.DecodeString(s)
	_, isStr := v.(string)
	if m := whole(cur, isStr, str, err); m != "" {
		return m
	}
	cur = "DecodeSlice"
	l, err := misc.DecodeSlice(s)
	_, isList := v.(ref.List)
	if m := whole(cur, isList, l, err); m != "" {
		return m
	}
	cur = "DecodeDict"
	d, err := misc.DecodeDict(s)
	_, isDict := v.(ref.Dict)
	if m := whole(cur, isDict, d, err); m != "" {
		return m
	}
	cur = "DecodeDictNoLimit"
	d, n, err := misc.DecodeDictNoLimit(s)
	pv, pn, pverdict := ref.Parse([]byte(s))
	_, pIsDict := pv.(ref.Dict)
	switch {
	case pverdict == ref.Murky:
	case pverdict == ref.Good && pIsDict:
		if err != nil {
			return fmt.Sprintf("DecodeDictNoLimit(%q) refuses a well-formed dict: %v", s, err)
		}
		if n != pn || !conv.Same(d, pv) {
			return fmt.Sprintf("DecodeDictNoLimit(%q) = %#v, %d; want %#v, %d", s, d, n, pv, pn)
		}
	case err == nil:
		return fmt.Sprintf("DecodeDictNoLimit(%q) = %#v, %d without an error, the input does not start with a dict", s, d, n)
	}
	return ""
}

// mutate applies up to three edits to s.
func mutate(rt *rapid.T, s []byte) []byte {
	k := rapid.IntRange(1, 3).Draw(rt, "edits")
	for e := 0; e < k && len(s) > 0; e++ {
		i := rapid.IntRange(0, len(s)-1).Draw(rt, "at")
		t := append([]byte(nil), s...)
		switch rapid.IntRange(0, 7).Draw(rt, "edit") {
		case 7:
			pad := rapid.SampledFrom([]string{" ", "\n", "\r\n", "\x00", "\t", "\n\n", "  ", "\xef\xbb\xbf", "e", "0:", "\xff"}).Draw(rt, "pad")
			if rapid.Bool().Draw(rt, "front") {
				t = append([]byte(pad), t...)
			} else {
				t = append(t, pad...)
			}
		case 0:
			t = t[:i]
		case 1:
			t = append(t[:i], t[i+1:]...)
		case 2:
			t[i] = rapid.SampledFrom([]byte("ilde0123456789:-+ \x00\xff_x\r\n\t")).Draw(rt, "b")
		case 3:
			b := rapid.SampledFrom([]byte("ilde0123456789:-+ \x00\xff_x\r\n\t")).Draw(rt, "b")
			t = append(t[:i], append([]byte{b}, t[i:]...)...)
		case 4:
			j := rapid.IntRange(i, len(t)).Draw(rt, "to")
			t = append(t[:i], t[j:]...)
		case 5:
			j := rapid.IntRange(i, len(t)).Draw(rt, "to")
			t = append(t[:j], append(append([]byte(nil), t[i:j]...), t[j:]...)...)
		case 6:
			// stretch a digit into a large number
			t = append(t[:i], append([]byte(rapid.SampledFrom([]string{"9", "99", "4294967296", "9223372036854775807", "9223372036854775800", "18446744073709551616", "99999999999999999999999"}).Draw(rt, "num")), t[i:]...)...)
		}
		s = t
	}
	return s
}

func genTricky() *rapid.Generator[string] {
	num := rapid.OneOf(
		rapid.SampledFrom([]string{"", "-", "+", "0", "-0", "00", "01", "-01", "+1", "--1", "1-", "1-1", "1-0", "0x1", "1_0", " 1", "1 ", "1.0", "1e", "９",
			"9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "92233720368547758070", "00000000000000000000000"}),
		rapid.StringMatching(`[-+]?[0-9]{0,22}`))
	strLen := rapid.OneOf(rapid.SampledFrom([]string{"", "-1", "+1", "0", "1", "2", "00", "01", "9223372036854775807", "9223372036854775806", "4294967296", "18446744073709551617", "1_0", " 1", "1 "}),
		rapid.Map(rapid.IntRange(0, 12), strconv.Itoa))
	return rapid.Custom(func(rt *rapid.T) string {
		item := func() string {
			switch rapid.IntRange(0, 4).Draw(rt, "kind") {
			case 0:
				return "i" + num.Draw(rt, "num") + rapid.SampledFrom([]string{"e", "e", "e", "", "l"}).Draw(rt, "end")
			case 1:
				return strLen.Draw(rt, "len") + rapid.SampledFrom([]string{":", ":", ":", "", ";"}).Draw(rt, "sep") + rapid.StringMatching(`[a-e:0-9]{0,12}`).Draw(rt, "content")
			case 2:
				return rapid.SampledFrom([]string{"le", "de", "l", "d", "e", "d1:ae", "d1:a", "di1ei2ee", "dle1:ae", "ld1:ai1eee", "l:e", "d:i1ee", "d-1:ai1ee", "d1:a1:bi5ee"}).Draw(rt, "frag")
			case 3:
				return string(ref.Encode(ref.GenValue(2).Draw(rt, "v")))
			default:
				return strLen.Draw(rt, "len") + ":" + strings.Repeat("a", rapid.IntRange(0, 3).Draw(rt, "n"))
			}
		}
		s := item()
		switch rapid.IntRange(0, 4).Draw(rt, "wrap") {
		case 1:
			s = "l" + s + item() + "e"
		case 2:
			s = "d1:k" + s + "e"
		case 3:
			s = "d" + s + item() + "e"
		case 4:
			s = s + item()
		}
		return s
	})
}

func TestC02(t *testing.T) {
	h.Check(t, "wellformed", "encodings of generated values with dictionary keys in any order, accepted by exactly the matching decoder; non-trivial: longer than 4 bytes", 12000, 200000,
		func(rt *rapid.T, c *h.Case) {
			v := ref.GenValue(4).Draw(rt, "v")
			s := string(ref.EncodeOrder(v, func(k []string) []string { return rapid.Permutation(k).Draw(rt, "order") }))
			c.Input("%q", s)
			c.NonTrivial(len(s) > 4)
			if m := checkDecoders(s); m != "" {
				rt.Fatal(m)
			}
		})
	h.Check(t, "mutated", "one to three edits (truncate, delete, replace, insert, cut, repeat, huge number, white space or others in front or behind) of the encoding of a generated value; non-trivial: the reference grammar rejects the result", 30000, 600000,
		func(rt *rapid.T, c *h.Case) {
			v := ref.GenValue(3).Draw(rt, "v")
			s := string(mutate(rt, ref.Encode(v)))
			c.Input("%q", s)
			_, verdict := ref.ParseAll([]byte(s))
			c.NonTrivial(verdict == ref.Bad)
			c.Label(verdict.String(), true)
			if m := checkDecoders(s); m != "" {
				rt.Fatal(m)
			}
		})
	h.Check(t, "tricky", "integers and string lengths in every odd form (signs, zeros, overflow, missing parts), bare or inside containers; non-trivial: the reference grammar rejects the result", 30000, 600000,
		func(rt *rapid.T, c *h.Case) {
			s := genTricky().Draw(rt, "s")
			c.Input("%q", s)
			_, verdict := ref.ParseAll([]byte(s))
			c.NonTrivial(verdict == ref.Bad)
			c.Label(verdict.String(), true)
			if m := checkDecoders(s); m != "" {
				rt.Fatal(m)
			}
		})
	h.Check(t, "bytes", "arbitrary bytes, uniform or over the bencode alphabet; non-trivial: at least 2 bytes and starting like a bencode item", 20000, 400000,
		func(rt *rapid.T, c *h.Case) {
			var b []byte
			if rapid.Bool().Draw(rt, "alphabet") {
				b = rapid.SliceOfN(rapid.SampledFrom([]byte("ilde0129:-+a")), 0, 24).Draw(rt, "b")
			} else {
				b = rapid.SliceOfN(rapid.Byte(), 0, 60).Draw(rt, "b")
			}
			s := string(b)
			c.Input("%q", s)
			c.NonTrivial(len(s) >= 2 && strings.ContainsRune("ild0123456789", rune(s[0])))
			if m := checkDecoders(s); m != "" {
				rt.Fatal(m)
			}
		})
	h.Check(t, "large", "encodings of large values (strings to 200 000 bytes, wide containers, chains to 2000 deep), intact, cut short, with a length off by a little, or with bytes behind; non-trivial: the reference grammar rejects the result", 400, 12000,
		func(rt *rapid.T, c *h.Case) {
			s, what := "", ""
			switch rapid.IntRange(0, 3).Draw(rt, "kind") {
			case 0:
				n := drawSize(200000).Draw(rt, "len")
				claim := n + rapid.SampledFrom([]int{0, 0, 0, 1, -1, 2, 10, 100000}).Draw(rt, "off")
				s = strconv.Itoa(claim) + ":" + bigString(rt, n)
				what = fmt.Sprintf("string of %d announced as %d", n, claim)
			case 1:
				n := drawSize(2000).Draw(rt, "depth")
				unit := rapid.SampledFrom([]string{"l", "d1:k", "ld1:k", "d0:l"}).Draw(rt, "unit")
				leaf := rapid.SampledFrom([]string{"", "i7e", "1:x", "le"}).Draw(rt, "leaf")
				if unit[0] == 'd' && unit[len(unit)-1] != 'l' || unit == "ld1:k" {
					leaf = rapid.SampledFrom([]string{"i7e", "1:x", "le", ""}).Draw(rt, "leaf2")
				}
				k := n * (strings.Count(unit, "l") + strings.Count(unit, "d"))
				close := k + rapid.SampledFrom([]int{0, 0, 0, -1, 1}).Draw(rt, "off")
				if close < 0 {
					close = 0
				}
				s = strings.Repeat(unit, n) + leaf + strings.Repeat("e", close)
				what = fmt.Sprintf("%d times %q, %q, %d e", n, unit, leaf, close)
			case 2:
				n := drawSize(5000).Draw(rt, "width")
				e := rapid.SampledFrom([]string{"i1e", "0:", "le", "de", "2:xy", "i-3e"}).Draw(rt, "e")
				s = "l" + strings.Repeat(e, n) + rapid.SampledFrom([]string{"e", "e", "", "ee", "ie", "i01e"}).Draw(rt, "end")
				what = fmt.Sprintf("list of %d %q, %d bytes", n, e, len(s))
			case 3:
				n := drawSize(5000).Draw(rt, "width")
				var b strings.Builder
				b.WriteByte('d')
				for i := 0; i < n; i++ {
					k := strconv.Itoa(i * 3)
					b.WriteString(strconv.Itoa(len(k)) + ":" + k + "i" + k + "e")
				}
				b.WriteString(rapid.SampledFrom([]string{"e", "e", "", "ee", "i1ee", "1:xe", "le"}).Draw(rt, "end"))
				s = b.String()
				what = fmt.Sprintf("dict of %d, %d bytes", n, len(s))
			}
			switch rapid.IntRange(0, 4).Draw(rt, "wrap") {
			case 0:
				s = "d1:v" + s + "e"
				what = "dict with " + what
			case 1:
				s = "l" + s + "e"
				what = "list with " + what
			}
			if rapid.IntRange(0, 5).Draw(rt, "truncate") == 0 {
				s = s[:rapid.IntRange(0, len(s)).Draw(rt, "cut")]
				what += fmt.Sprintf(" cut to %d", len(s))
			}
			c.Input("%s", what)
			_, verdict := ref.ParseAll([]byte(s))
			c.NonTrivial(verdict == ref.Bad)
			c.Label(verdict.String(), true)
			if m := checkDecoders(s); m != "" {
				if len(m) > 3000 {
					m = m[:1500] + " ... " + m[len(m)-1500:]
				}
				rt.Fatalf("%s: %s", what, m)
			}
		})
	h.Check(t, "huge", "lists and dictionaries of 0.5 to 5 MB, mostly one string or very many small items, intact, cut short, with a length off by one, or with bytes behind; non-trivial: the reference grammar rejects the result", 24, 600,
		func(rt *rapid.T, c *h.Case) {
			n := h.Wide(500000, 5000000).Draw(rt, "bytes")
			off := rapid.SampledFrom([]int{0, 0, 0, 1, -1}).Draw(rt, "off")
			s := strconv.Itoa(n+off) + ":" + strings.Repeat("e", n)
			many := rapid.Bool().Draw(rt, "many items")
			if many {
				s = strings.Repeat(rapid.SampledFrom([]string{"i12e", "3:abc", "le", "d1:ki1ee"}).Draw(rt, "item"), n/6)
			}
			tail := rapid.SampledFrom([]string{"i1e", "1:x", "le", "i01e", ""}).Draw(rt, "last")
			end := rapid.SampledFrom([]string{"e", "e", "e", "", "ee", "ex"}).Draw(rt, "end")
			if rapid.Bool().Draw(rt, "dict") {
				if many {
					s = "l" + s + "e"
				}
				if tail != "" {
					tail = "1:z" + tail
				}
				s = "d1:a" + s + tail + end
			} else {
				s = "l" + s + tail + end
			}
			c.Input("%d bytes, %q...%q", len(s), s[:20], s[len(s)-20:])
			_, verdict := ref.ParseAll([]byte(s))
			c.NonTrivial(verdict == ref.Bad)
			c.Label(verdict.String(), true)
			if m := checkDecoders(s); m != "" {
				if len(m) > 3000 {
					m = m[:1500] + " ... " + m[len(m)-1500:]
				}
				rt.Fatal(m)
			}
		})
	h.Check(t, "deep", "1 to 8 000 000 lists and dictionaries inside one another (5 of 6 within 2000 of the 10 000 that must be decoded), all closed, one unclosed, none closed or one closed too often; deeper than 10 000 an error is as good as the value; non-trivial: more than 5000", 60, 1500,
		func(rt *rapid.T, c *h.Case) {
			unit := rapid.SampledFrom([]string{"l", "d1:k", "ld1:k", "d0:l"}).Draw(rt, "unit")
			per := strings.Count(unit, "l") + strings.Count(unit, "d")
			levels := rapid.OneOf(rapid.IntRange(8000, 12000), rapid.IntRange(9996, 10004)).Draw(rt, "levels")
			switch rapid.IntRange(0, 5).Draw(rt, "how deep") {
			case 0:
				levels = h.Wide(12000, 8000000).Draw(rt, "many levels")
			case 1:
				levels = rapid.IntRange(1, 8000).Draw(rt, "few levels")
			}
			n := levels / per
			k := n*per + 1 // with the outermost
			close := max(k+rapid.SampledFrom([]int{0, 0, 0, -1, 1, -k}).Draw(rt, "off"), 0)
			first := rapid.SampledFrom([]string{"d1:a", "l"}).Draw(rt, "first")
			s := first + strings.Repeat(unit, n) + "i7e" + strings.Repeat("e", close)
			c.Input("%q and %d times %q, closed %d times", first, n, unit, close)
			c.NonTrivial(k > 5000)
			c.Label("must be decoded", k <= 10000 && close == k)
			check := func(what string, v interface{}, err error, good bool) {
				if !good || k > 10000 && err != nil {
					if err == nil {
						rt.Fatalf("%s accepts %d levels closed %d times", what, k, close)
					}
					return
				}
				if err != nil {
					rt.Fatalf("%s refuses %d levels: %v", what, k, err)
				}
				depth := 0
				for v != nil && v != 7 {
					depth++
					switch x := v.(type) {
					case misc.List:
						if len(x) != 1 {
							rt.Fatalf("%s gives a list of %d at level %d", what, len(x), depth)
						}
						v = x[0]
					case misc.Dict:
						if len(x) != 1 {
							rt.Fatalf("%s gives a dictionary of %d at level %d", what, len(x), depth)
						}
						for _, v = range x {
						}
					default:
						rt.Fatalf("%s gives %v at level %d", what, v, depth)
					}
				}
				if v != 7 || depth != k {
					rt.Fatalf("%s gives %d levels and %v, want %d levels", what, depth, v, k)
				}
			}
			if first == "l" {
				v, err := misc.DecodeSlice(s)
				check("DecodeSlice", v, err, close == k)
				return
			}
			v, err := misc.DecodeDict(s)
			check("DecodeDict", v, err, close == k)
			v, m, err := misc.DecodeDictNoLimit(s)
			check("DecodeDictNoLimit", v, err, close >= k)
			if want := len(s) - (close - k); err == nil && m != want {
				rt.Fatalf("DecodeDictNoLimit says %d bytes, want %d", m, want)
			}
		})
	h.Check(t, "exhaustive", "one case is all strings over 'ilde012:-' that extend a generated prefix by up to 4 bytes (7381 strings each), so that short inputs are covered completely; non-trivial: always", 40, 400,
		func(rt *rapid.T, c *h.Case) {
			const alpha = "ilde012:-"
			prefix := string(rapid.SliceOfN(rapid.SampledFrom([]byte(alpha)), 0, h.Pick(3, 6)).Draw(rt, "prefix"))
			c.Input("prefix %q", prefix)
			c.NonTrivial(true)
			var rec func(s string, n int)
			rec = func(s string, n int) {
				if m := checkDecoders(s); m != "" {
					rt.Fatal(m)
				}
				if n == 0 {
					return
				}
				for i := 0; i < len(alpha); i++ {
					rec(s+alpha[i:i+1], n-1)
				}
			}
			rec(prefix, 4)
		})
}

// FuzzC02 is the coverage-guided variant used in the thorough tier.
func FuzzC02(f *testing.F) {
	for _, s := range []string{"i0e", "i-12e", "3:abc", "le", "de", "d1:ai1e1:bl1:cee", "d2:id20:aaaaaaaaaaaaaaaaaaaae", "i-0e", "9:x", "d1:a", "li1e"} {
		f.Add([]byte(s))
	}
	f.Fuzz(func(t *testing.T, b []byte) {
		if m := checkDecoders(string(b)); m != "" {
			t.Fatal(m)
		}
	})
}
