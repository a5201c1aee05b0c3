package dhtt

import (
	"testing"

	"pgregory.net/rapid"
	"verif/harness/h"
)

func TestMain(m *testing.M) { h.Main(m) }

func genId() *rapid.Generator[string] {
	return rapid.OneOf(
		rapid.Map(rapid.SliceOfN(rapid.Byte(), 20, 20), func(b []byte) string { return string(b) }),
		rapid.Map(rapid.SliceOfN(rapid.SampledFrom([]byte("aAbBe:0i\x00\xff\xc3")), 20, 20), func(b []byte) string { return string(b) }))
}
