package misct

import (
	"encoding/binary"
	"fmt"
	"sync"
	"testing"
	"time"

	"github.com/GalaIO/P2Pcrawler/misc"
	"pgregory.net/rapid"
	"verif/harness/h"
)

// stamp fills b with a pattern that belongs to holder id; stamped checks it.
func stamp(b []byte, id uint32) {
	for i := range b {
		b[i] = byte(id>>uint(8*(i%4))) ^ byte(i/4)
	}
}

func stamped(b []byte, id uint32) bool {
	for i := range b {
		if b[i] != byte(id>>uint(8*(i%4)))^byte(i/4) {
			return false
		}
	}
	return true
}

type held struct {
	b  []byte
	id uint32
}

func genSize(width int) *rapid.Generator[int] {
	return rapid.OneOf(rapid.Just(width), rapid.SampledFrom([]int{0, 1, 4, 8, 100, 1024, 32 * 1024}), rapid.IntRange(0, 64))
}

func TestC20(t *testing.T) {
	h.Check(t, "model", "up to 60 takes (default or given size) and returns (whole, shortened, emptied, or foreign buffers) against a model of who holds what; non-trivial: a buffer was reused after a return", 9000, 150000,
		func(rt *rapid.T, c *h.Case) {
			max := rapid.IntRange(0, 5).Draw(rt, "max")
			width := rapid.IntRange(0, 40).Draw(rt, "width")
			pool := misc.NewBytesPool(max, width)
			var out []held
			var keep [][]byte           // keeps every buffer alive, so that addresses stay unique
			returned := map[*byte]int{} // first byte -> size, of buffers given back and not handed out since
			trace := fmt.Sprintf("max %d width %d:", max, width)
			reused := false
			id := uint32(1)
			take := func(b []byte, want int, what string) {
				if len(b) != want {
					rt.Fatalf("%s: %s returned %d bytes", trace, what, len(b))
				}
				if len(b) > 0 {
					p := &b[0]
					for _, o := range out {
						if len(o.b) > 0 && &o.b[0] == p {
							rt.Fatalf("%s: %s handed out a buffer that is in use", trace, what)
						}
					}
					if s, ok := returned[p]; ok {
						reused = true
						if s != want {
							rt.Fatalf("%s: %s reused a buffer of %d bytes", trace, what, s)
						}
						delete(returned, p)
					}
				}
				keep = append(keep, b)
				id = id*2654435761 + 1
				stamp(b, id)
				out = append(out, held{b, id})
			}
			put := func(b []byte, what string) {
				if !h.Within(60*time.Second, func() { pool.Put(b) }) {
					rt.Fatalf("%s: %s blocked", trace, what)
				}
				if f := b[:cap(b)]; len(f) > 0 {
					returned[&f[0]] = len(f)
				}
			}
			n := rapid.IntRange(1, 60).Draw(rt, "ops")
			for i := 0; i < n; i++ {
				switch op := rapid.IntRange(0, 5).Draw(rt, "op"); {
				case op == 0:
					trace += " get"
					take(pool.Get(), width, "Get")
				case op <= 2:
					s := genSize(width).Draw(rt, "size")
					trace += fmt.Sprintf(" get(%d)", s)
					take(pool.GetBySize(s), s, "GetBySize")
				case op == 3 && rapid.IntRange(0, 3).Draw(rt, "foreign") == 0:
					s := genSize(width).Draw(rt, "size")
					b := make([]byte, s)
					keep = append(keep, b)
					trace += fmt.Sprintf(" putNew(%d)", s)
					put(b, "Put")
				case len(out) > 0:
					j := rapid.IntRange(0, len(out)-1).Draw(rt, "which")
					o := out[j]
					if !stamped(o.b, o.id) {
						rt.Fatalf("%s: a held buffer changed its contents", trace)
					}
					out = append(out[:j], out[j+1:]...)
					cut := rapid.SampledFrom([]int{len(o.b), len(o.b), len(o.b) / 2, 0}).Draw(rt, "cut")
					trace += fmt.Sprintf(" put(%d of %d)", cut, len(o.b))
					put(o.b[:cut], "Put")
				}
			}
			for _, o := range out {
				if !stamped(o.b, o.id) {
					rt.Fatalf("%s: a held buffer changed its contents", trace)
				}
			}
			c.Input("%s", trace)
			c.NonTrivial(reused)
			c.Label("reuse", reused)
		})
	h.Check(t, "retention", "a burst of takes of one size, all returned, then taken again, counting the ones that come back; non-trivial: more were returned than the pool may keep", 2400, 40000,
		func(rt *rapid.T, c *h.Case) {
			max := rapid.IntRange(0, 6).Draw(rt, "max")
			size := rapid.IntRange(1, 50).Draw(rt, "size")
			width := rapid.SampledFrom([]int{size, size + 1}).Draw(rt, "width")
			n := rapid.IntRange(1, 20).Draw(rt, "n")
			c.Input("max %d size %d width %d burst %d", max, size, width, n)
			c.NonTrivial(n > max)
			pool := misc.NewBytesPool(max, width)
			seen := map[*byte]bool{}
			var all [][]byte
			for i := 0; i < n; i++ {
				b := pool.GetBySize(size)
				seen[&b[0]] = true
				all = append(all, b)
			}
			if len(seen) != n {
				rt.Fatalf("only %d distinct buffers in %d takes", len(seen), n)
			}
			for _, b := range all {
				b := b
				if !h.Within(60*time.Second, func() { pool.Put(b[:len(b)/2]) }) {
					rt.Fatalf("Put blocked")
				}
			}
			back := 0
			again := map[*byte]bool{}
			var more [][]byte
			for i := 0; i < n+5; i++ {
				b := pool.GetBySize(size)
				if len(b) != size {
					rt.Fatalf("GetBySize(%d) returned %d bytes", size, len(b))
				}
				if again[&b[0]] {
					rt.Fatalf("the same buffer was handed out twice")
				}
				again[&b[0]] = true
				more = append(more, b)
				if seen[&b[0]] {
					back++
				}
			}
			if back > max {
				rt.Fatalf("%d buffers of one size were retained, the limit is %d", back, max)
			}
			_ = more
		})
	h.Check(t, "concurrent", "4 to 12 goroutines taking, stamping, checking and returning buffers of shared sizes; non-trivial: at least two goroutines used the same size", 450, 6000,
		func(rt *rapid.T, c *h.Case) {
			g := rapid.IntRange(4, 12).Draw(rt, "goroutines")
			max := rapid.IntRange(0, 4).Draw(rt, "max")
			sizes := rapid.SliceOfN(rapid.SampledFrom([]int{4, 8, 16, 33, 100, 257}), 1, 3).Draw(rt, "sizes")
			rounds := rapid.IntRange(20, 120).Draw(rt, "rounds")
			hold := rapid.IntRange(1, 3).Draw(rt, "hold")
			c.Input("%d goroutines, max %d, sizes %v, %d rounds holding %d", g, max, sizes, rounds, hold)
			c.NonTrivial(true)
			pool := misc.NewBytesPool(max, sizes[0])
			var wg sync.WaitGroup
			errs := make(chan string, g)
			start := make(chan struct{})
			for i := 0; i < g; i++ {
				wg.Add(1)
				go func(i int) {
					defer wg.Done()
					<-start
					for r := 0; r < rounds; r++ {
						var hs []held
						for k := 0; k < hold; k++ {
							var b []byte
							s := sizes[(i+r+k)%len(sizes)]
							if s == sizes[0] && r%2 == 0 {
								b = pool.Get()
							} else {
								b = pool.GetBySize(s)
							}
							if len(b) != s {
								errs <- fmt.Sprintf("asked for %d bytes, got %d", s, len(b))
								return
							}
							id := uint32(i)<<24 | uint32(r)<<4 | uint32(k)
							stamp(b, id)
							hs = append(hs, held{b, id})
						}
						for spin := 0; spin < 50; spin++ {
							binary.BigEndian.Uint32(hs[0].b)
						}
						for _, x := range hs {
							if !stamped(x.b, x.id) {
								errs <- fmt.Sprintf("a buffer of %d bytes changed while it was held", len(x.b))
								return
							}
							pool.Put(x.b[:len(x.b)-r%3])
						}
					}
				}(i)
			}
			close(start)
			if !h.Within(90*time.Second, wg.Wait) {
				rt.Fatalf("taking or returning buffers blocked")
			}
			select {
			case e := <-errs:
				rt.Fatal(e)
			default:
			}
		})
}
