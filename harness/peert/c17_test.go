package peert

import (
	"fmt"
	"runtime"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/GalaIO/P2Pcrawler/dht/peerwire"
	"pgregory.net/rapid"
	"verif/harness/h"
	"verif/harness/peer"
)

// bound on one fetch: 3 s to connect, 1 s of reading, 10 s of looping, with room.
const fetchBound = 40 * time.Second

func TestC17(t *testing.T) {
	h.Silence(t)
	check := func(rt *rapid.T, c *h.Case, n int) {
		var ss []*peer.Script
		text := ""
		for i := 0; i < n; i++ {
			s := peer.GenScript(rt)
			ss = append(ss, s)
			text += "(" + s.Text + ") "
		}
		c.Input("%s", text)
		c.NonTrivial(true)
		var before, after runtime.MemStats
		runtime.ReadMemStats(&before)
		errs := make([]string, n)
		var good, bad atomic.Int64
		var wg sync.WaitGroup
		for i := range ss {
			srv := peer.MustListen("127.0.0.1", ss[i].Run)
			defer srv.Close()
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				var got []byte
				var err error
				t0 := time.Now()
				p, panicked := h.Panics(func() {
					got, err = peerwire.FetchMetaData(srv.Addr.String(), peerwire.LocalPeerId, []byte(ss[i].Hash))
				})
				if err == nil {
					good.Add(1)
				} else {
					bad.Add(1)
				}
				switch d := time.Since(t0); {
				case panicked:
					errs[i] = fmt.Sprintf("the fetch panicked: %v", p)
				case err == nil && peer.Hash(got) != ss[i].Hash:
					errs[i] = fmt.Sprintf("the fetch returned %d bytes that do not hash to the info hash", len(got))
				case err != nil && len(got) > 0:
					errs[i] = fmt.Sprintf("the fetch failed with %v and returned %d bytes", err, len(got))
				case d > fetchBound:
					errs[i] = fmt.Sprintf("the fetch took %v", d)
				}
			}(i)
		}
		if !h.Within(100*time.Second, wg.Wait) {
			rt.Fatalf("a fetch did not end within 100 s: %s", text)
		}
		runtime.ReadMemStats(&after)
		for i := int64(0); i < good.Load(); i++ {
			c.Label("fetches that returned data", true)
		}
		for i := int64(0); i < bad.Load(); i++ {
			c.Label("fetches that failed", true)
		}
		var sent int64
		for i := range errs {
			if errs[i] != "" {
				rt.Fatalf("peer (%s): %s", ss[i].Text, errs[i])
			}
			sent += ss[i].Sent.Load()
		}
		// allocations, not residency: 16 MB for a fetch and 64 times what the peers sent
		if used := int64(after.TotalAlloc - before.TotalAlloc); used > int64(n)*(16<<20)+64*sent {
			rt.Fatalf("%d fetches allocated %d MB while their peers sent %d bytes: %s", n, used>>20, sent, text)
		}
	}
	h.Check(t, "hostile", "12 to 24 hostile peers at the same time, each with drawn faults in handshake, extension handshake, sizes, pieces, framing, floods, stalls and a hang-up or lasting silence at any byte; all non-trivial", 70, 1000,
		func(rt *rapid.T, c *h.Case) { check(rt, c, rapid.IntRange(12, 24).Draw(rt, "peers")) })
	h.Check(t, "tampered", "a peer that conforms in everything but serves metadata (20 bytes to 12 MB) that is not what the info hash stands for: bytes changed anywhere, pieces exchanged, cut, extended, empty pieces, or quite another; the fetch must fail and return nothing; non-trivial: more than one piece", 250, 8000,
		func(rt *rapid.T, c *h.Case) {
			size := rapid.OneOf(rapid.IntRange(20, 400), rapid.IntRange(1, 400000), rapid.IntRange(1, 400000), rapid.Map(rapid.IntRange(1, 20), func(n int) int { return n * peer.PieceSize })).Draw(rt, "size")
			if rapid.IntRange(0, 9).Draw(rt, "large") == 0 {
				size = rapid.IntRange(400000, 12<<20).Draw(rt, "size")
			}
			orig := peer.DrawMeta(rt, size)
			meta := append([]byte(nil), orig...)
			at := func(max int) int {
				return rapid.OneOf(rapid.IntRange(0, max), rapid.IntRange(0, min(max, 8)), rapid.IntRange(max-min(max, 8), max)).Draw(rt, "at")
			}
			what := ""
			switch rapid.IntRange(0, 7).Draw(rt, "how") {
			case 0, 1:
				for i := rapid.IntRange(1, 3).Draw(rt, "bytes"); i > 0; i-- {
					k := at(size - 1)
					meta[k] ^= byte(rapid.IntRange(1, 255).Draw(rt, "x"))
					what += fmt.Sprintf("byte %d changed ", k)
				}
			case 2:
				n := peer.Pieces(size)
				i, j := rapid.IntRange(0, n-1).Draw(rt, "i"), rapid.IntRange(0, n-1).Draw(rt, "j")
				a, b := append([]byte(nil), peer.Piece(meta, i)...), append([]byte(nil), peer.Piece(meta, j)...)
				if len(a) == len(b) {
					copy(peer.Piece(meta, i), b)
					copy(peer.Piece(meta, j), a)
				}
				what = fmt.Sprintf("pieces %d and %d exchanged", i, j)
			case 3:
				meta = meta[:at(size-1)]
				what = fmt.Sprintf("cut to %d", len(meta))
			case 4:
				meta = append(meta, rapid.SliceOfN(rapid.Byte(), 1, 20).Draw(rt, "more")...)
				what = "extended"
			case 5:
				meta = append([]byte{rapid.Byte().Draw(rt, "first")}, meta...)
				what = "shifted"
			case 6:
				k := at(size - 1)
				for i := k; i < size; i++ {
					meta[i] = 0
				}
				what = fmt.Sprintf("zero from %d", k)
			case 7:
				meta = peer.Meta(size, rapid.Byte().Draw(rt, "other content"))
				what = "another content"
			}
			ask := peer.Hash(orig)
			if string(meta) == string(orig) || len(meta) == 0 {
				// nothing was changed: then the hash is
				meta = orig
				b := []byte(ask)
				b[rapid.IntRange(0, 19).Draw(rt, "hash byte")] ^= byte(1 << rapid.IntRange(0, 7).Draw(rt, "bit"))
				ask = string(b)
				what = "the hash differs in one bit"
			}
			p := peer.Plan{Meta: meta, Ask: ask, ExtId: rapid.IntRange(1, 255).Draw(rt, "extId"), Reserved: [8]byte{5: 0x10}, Merge: rapid.Bool().Draw(rt, "merge")}
			c.Input("%d bytes, %s", size, what)
			c.NonTrivial(peer.Pieces(len(meta)) > 1)
			c.Label("large", size > 1<<20)
			srv := peer.MustListen("127.0.0.1", p.Script(func(s string) {}))
			defer srv.Close()
			var got []byte
			var err error
			if p, panicked := h.Panics(func() {
				got, err = peerwire.FetchMetaData(srv.Addr.String(), peerwire.LocalPeerId, []byte(ask))
			}); panicked {
				rt.Fatalf("the fetch panicked: %v", p)
			}
			if err == nil || len(got) > 0 {
				rt.Fatalf("metadata of %d bytes that does not hash to the info hash (%s) was fetched: %d bytes, error %v", len(meta), what, len(got), err)
			}
		})
}
