package dhtt

import (
	"fmt"
	"regexp"
	"sync"
	"testing"

	"github.com/GalaIO/P2Pcrawler/dht"
	"pgregory.net/rapid"
	"verif/harness/h"
)

var hex4 = regexp.MustCompile(`^[0-9a-f]{4}$`)

func TestC15(t *testing.T) {
	h.Check(t, "cycle", "65536 ids drawn by 1 to 16 goroutines from a drawn start value, after drawing some; all must differ; non-trivial: more than one goroutine", 300, 1500,
		func(rt *rapid.T, c *h.Case) {
			init := uint16(rapid.OneOf(rapid.IntRange(0, 65535), rapid.SampledFrom([]int{0, 1, 255, 256, 1000, 32767, 65534, 65535})).Draw(rt, "init"))
			g := rapid.IntRange(1, 16).Draw(rt, "goroutines")
			pre := rapid.IntRange(0, 70000).Draw(rt, "before")
			c.Input("start %d, %d drawn before, %d goroutines", init, pre, g)
			c.NonTrivial(g > 1)
			gen := dht.NewTxIdGenerator(init)
			for i := 0; i < pre; i++ {
				gen.Next()
			}
			out := make([][]string, g)
			var wg sync.WaitGroup
			start := make(chan struct{})
			for i := 0; i < g; i++ {
				n := 65536 / g
				if i == 0 {
					n += 65536 % g
				}
				wg.Add(1)
				go func(i, n int) {
					defer wg.Done()
					<-start
					for j := 0; j < n; j++ {
						out[i] = append(out[i], gen.Next())
					}
				}(i, n)
			}
			close(start)
			wg.Wait()
			seen := make(map[string]string, 65536)
			for i := range out {
				for j, id := range out[i] {
					if !hex4.MatchString(id) {
						rt.Fatalf("transaction id %q is not four hexadecimal digits", id)
					}
					where := fmt.Sprintf("goroutine %d draw %d", i, j)
					if o, dup := seen[id]; dup {
						rt.Fatalf("id %s was drawn by %s and by %s within one cycle", id, o, where)
					}
					seen[id] = where
				}
			}
		})
	h.Check(t, "windows", "a run of 65536 to 140000 ids by one caller from a drawn start; equal ids must be at least 65536 apart; non-trivial: the run is longer than a cycle", 100, 400,
		func(rt *rapid.T, c *h.Case) {
			init := uint16(rapid.IntRange(0, 65535).Draw(rt, "init"))
			n := rapid.IntRange(65536, 140000).Draw(rt, "n")
			c.Input("start %d, %d ids", init, n)
			c.NonTrivial(n > 65536)
			gen := dht.NewTxIdGenerator(init)
			last := make(map[string]int, 65536)
			for i := 0; i < n; i++ {
				id := gen.Next()
				if j, ok := last[id]; ok && i-j < 65536 {
					rt.Fatalf("id %s repeats after %d draws", id, i-j)
				}
				last[id] = i
			}
		})
}
