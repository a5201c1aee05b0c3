package shimt

import (
	"testing"
	"time"

	"pgregory.net/rapid"
	"verif/harness/h"
	"verif/harness/node"
)

func TestMain(m *testing.M) { h.Main(m) }

const patience = 30 * time.Second

func gen20() *rapid.Generator[string] {
	return rapid.OneOf(rapid.Map(rapid.SliceOfN(rapid.Byte(), 20, 20), func(b []byte) string { return string(b) }), rapid.StringMatching(`[a-zA-Z0-9]{20}`))
}

func start(t *testing.T, o node.Opts) *node.Node {
	n, err := node.Start(o)
	if err != nil {
		t.Fatalf("%v", err)
	}
	return n
}
