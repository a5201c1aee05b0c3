package ref

import (
	"math"
	"strings"

	"pgregory.net/rapid"
)

// GenInt draws integers with the extremes well represented.
func GenInt() *rapid.Generator[int] {
	return rapid.OneOf(rapid.IntRange(-20, 20), rapid.Int(), rapid.IntRange(-100000, 100000),
		rapid.SampledFrom([]int{0, -1, 1, -10, 10, -100, 100, 1000000, -1000000, math.MaxInt64, math.MinInt64, math.MaxInt32, math.MinInt32, 1 << 40}))
}

// GenStr draws byte strings: plain, bencode-like, and arbitrary binary.
func GenStr() *rapid.Generator[string] {
	return rapid.OneOf(
		rapid.StringMatching(`[a-z_]{0,8}`),
		rapid.Map(rapid.SliceOfN(rapid.Byte(), 0, 30), func(b []byte) string { return string(b) }),
		rapid.Map(rapid.SliceOfN(rapid.SampledFrom([]byte("ilde:0123-\x00\xff")), 0, 12), func(b []byte) string { return string(b) }),
		rapid.Map(rapid.SliceOfN(rapid.Byte(), 20, 20), func(b []byte) string { return string(b) }),
		rapid.Map(rapid.IntRange(90, 1100), func(n int) string { return strings.Repeat("x:", n/2) }),
	)
}

// GenValue draws a nested value of bounded depth.
func GenValue(depth int) *rapid.Generator[Value] {
	return rapid.Custom(func(t *rapid.T) Value {
		max := 3
		if depth <= 0 {
			max = 1
		}
		switch rapid.IntRange(0, max).Draw(t, "kind") {
		case 0:
			return GenInt().Draw(t, "int")
		case 1:
			return GenStr().Draw(t, "str")
		case 2:
			return GenList(depth-1).Draw(t, "list")
		default:
			return GenDict(depth-1).Draw(t, "dict")
		}
	})
}

// GenList draws a list.
func GenList(depth int) *rapid.Generator[List] {
	return rapid.Custom(func(t *rapid.T) List {
		n := rapid.IntRange(0, 5).Draw(t, "n")
		l := List{}
		for i := 0; i < n; i++ {
			l = append(l, GenValue(depth).Draw(t, "e"))
		}
		return l
	})
}

// GenDict draws a dictionary.
func GenDict(depth int) *rapid.Generator[Dict] {
	return rapid.Custom(func(t *rapid.T) Dict {
		n := rapid.IntRange(0, 5).Draw(t, "n")
		d := Dict{}
		for i := 0; i < n; i++ {
			d[GenStr().Draw(t, "k")] = GenValue(depth).Draw(t, "v")
		}
		return d
	})
}

// Depth of nesting of v.
func Depth(v Value) int {
	m := 0
	switch x := v.(type) {
	case List:
		for _, e := range x {
			if d := Depth(e); d > m {
				m = d
			}
		}
		return m + 1
	case Dict:
		for _, e := range x {
			if d := Depth(e); d > m {
				m = d
			}
		}
		return m + 1
	}
	return 0
}
