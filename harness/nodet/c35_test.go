package nodet

import (
	"encoding/hex"
	"fmt"
	"os"
	"path/filepath"
	"sync"
	"testing"
	"time"

	"pgregory.net/rapid"
	"verif/harness/h"
	"verif/harness/netx"
	"verif/harness/node"
	"verif/harness/peer"
	"verif/harness/ref"
)

// ways a peer treats the crawler
const (
	hangsUp = iota
	refuses // lacks the extension bit
	serves
	keepsSilent
)

// TestC35: every accepted announcement is followed up exactly once, whatever the load.
func TestC35(t *testing.T) {
	h.Silence(t)
	serial := 0
	h.Check(t, "followed up", "a crawler with 1 to 12 fetch workers, 1 to 50 RPC workers and an info hash queue of 1 to 1000; 20 to 1100 announcements of different torrents at peers that hang up, refuse, serve or keep silent, some announced at several peers, some repeated at the same peer, pings and get_peers in between, the peers at first all waiting in some cases; every announced pair of torrent and peer is connected to once (repeated ones at least once and at most as often as announced), nothing else is, every query is answered once, what is served is stored; non-trivial: more announcements than fetch workers and queue places", 14, 700,
		func(rt *rapid.T, c *h.Case) {
			serial++
			o := node.Opts{FetchPool: rapid.OneOf(rapid.IntRange(1, 4), rapid.IntRange(1, 12)).Draw(rt, "fetchers"), WorkPool: rapid.SampledFrom([]int{1, 2, 8, 50}).Draw(rt, "rpc workers"), Queue: rapid.SampledFrom([]int{1, 2, 10, 100, 1000, 1000}).Draw(rt, "queue")}
			most := 150
			if o.Queue == 1000 {
				most = 600
			}
			gated := rapid.IntRange(0, 2).Draw(rt, "peers wait") > 0
			n := h.Wide(20, most).Draw(rt, "announcements")
			if gated && o.Queue == 1000 {
				n = h.Wide(300, 1100).Draw(rt, "many announcements")
			}
			ports := rapid.IntRange(1, 5).Draw(rt, "peers")
			type pair struct {
				hash string
				peer int
			}
			var mu sync.Mutex
			modes := map[string]int{}
			metas := map[string][]byte{}
			asked := map[pair]int{}
			var unknown []string
			// closed once every query is answered, or soon after: until then, in some
			// cases, nobody serves the crawler, so that its queue fills up
			gate := make(chan struct{})
			var open sync.Once
			if !gated {
				open.Do(func() { close(gate) })
			}
			defer open.Do(func() { close(gate) })
			var servers []*peer.Server
			for i := 0; i < ports; i++ {
				i := i
				servers = append(servers, peer.MustListen("127.0.0.1", func(pc *peer.Conn) {
					b := make([]byte, 68)
					waited := false
					select {
					case <-gate:
					default:
						waited = true
						<-gate
					}
					pc.SetReadDeadline(time.Now().Add(20 * time.Second))
					peeked, err := pc.R.Peek(68)
					if err != nil {
						return
					}
					copy(b, peeked)
					hash := string(b[28:48])
					mu.Lock()
					if waited && modes[hash] == serves {
						// it may have been given up: nothing is promised
						modes[hash] = refuses
					}
					mode, ok := modes[hash]
					meta := metas[hash]
					if !ok {
						unknown = append(unknown, hash)
					}
					asked[pair{hash, i}]++
					mu.Unlock()
					switch mode {
					case refuses:
						pc.Write(peer.HandShake([8]byte{}, hash, "-VF0001-abcdefghijkl"))
						pc.Idle(5 * time.Second)
					case keepsSilent:
						pc.Idle(5 * time.Second)
					case serves:
						peer.Plan{Meta: meta, ExtId: 3, Reserved: [8]byte{5: 0x10}}.Script(func(string) {})(pc)
					}
				}))
				defer servers[i].Close()
			}
			want := map[pair]int{}
			silent, repeats, several := 0, 0, 0
			type query struct {
				tx, data string
				from     int
			}
			var qs []query
			add := func(msg ref.Dict) {
				tx := fmt.Sprintf("%d.%d", serial, len(qs))
				msg["t"] = tx
				qs = append(qs, query{tx, string(ref.Encode(msg)), rapid.IntRange(0, 1).Draw(rt, "from")})
			}
			hashes := []string{}
			served := rapid.IntRange(0, 3).Draw(rt, "served share")
			for len(qs) < n {
				var p pair
				if len(hashes) > 0 && rapid.IntRange(0, 9).Draw(rt, "again") == 0 {
					p.hash = rapid.SampledFrom(hashes).Draw(rt, "which")
				} else {
					mode := rapid.SampledFrom([]int{hangsUp, hangsUp, hangsUp, refuses}).Draw(rt, "mode")
					if silent < 3*o.FetchPool && rapid.IntRange(0, 6).Draw(rt, "silent") == 0 {
						mode = keepsSilent
						silent++
					}
					if rapid.IntRange(1, 6).Draw(rt, "serve") <= served {
						mode = serves
					}
					m := []byte(fmt.Sprintf("%d/%d/%d %s", serial, len(hashes), time.Now().UnixNano(), genBytes(0, 40).Draw(rt, "meta")))
					p.hash = peer.Hash(m)
					mu.Lock()
					modes[p.hash], metas[p.hash] = mode, m
					mu.Unlock()
					hashes = append(hashes, p.hash)
				}
				p.peer = rapid.IntRange(0, ports-1).Draw(rt, "peer")
				want[p]++
				if want[p] > 1 {
					repeats++
				}
				add(ref.Dict{"y": "q", "q": "announce_peer", "a": ref.Dict{"id": gen20().Draw(rt, "id"), "info_hash": p.hash, "port": servers[p.peer].Addr.Port, "token": "t"}})
				switch rapid.IntRange(0, 19).Draw(rt, "else") {
				case 0:
					add(ref.Dict{"y": "q", "q": "ping", "a": ref.Dict{"id": gen20().Draw(rt, "id")}})
				case 1:
					add(ref.Dict{"y": "q", "q": "get_peers", "a": ref.Dict{"id": gen20().Draw(rt, "id"), "info_hash": p.hash}})
				}
			}
			several = len(want) - len(hashes)
			c.Input("%+v, %d queries about %d torrents at %d peers, %d repeated, %d at further peers, %d silent, peers wait first: %v", o, len(qs), len(hashes), ports, repeats, several, silent, gated)
			c.NonTrivial(len(want) > o.FetchPool+o.Queue || (o.Queue == 1000 && len(want) > 100))
			c.Label("overflows the queue", len(want) > o.FetchPool+o.Queue)
			nd := start(rt, o)
			defer nd.Kill()
			socks := []*netx.Sock{netx.MustOpen("127.0.0.1"), netx.MustOpen("127.0.0.1")}
			for _, s := range socks {
				defer s.Close()
			}
			drops := netx.Drops(nd.Port, socks[0].Addr.Port, socks[1].Addr.Port)
			lost := func() {
				if netx.Drops(nd.Port, socks[0].Addr.Port, socks[1].Addr.Port) != drops {
					rt.Skip("the kernel dropped datagrams")
				}
			}
			for i, q := range qs {
				socks[q.from].Send(nd.Addr, q.data)
				if i%20 == 19 {
					time.Sleep(time.Millisecond)
				}
			}
			pending := func() (left []pair) {
				mu.Lock()
				defer mu.Unlock()
				for p := range want {
					if asked[p] == 0 {
						left = append(left, p)
					}
				}
				return
			}
			replies := func() int { return len(socks[0].All()) + len(socks[1].All()) }
			if gated {
				h.Eventually(1500*time.Millisecond, func() bool { return replies() >= len(qs) })
				open.Do(func() { close(gate) })
			}
			// each silent peer holds a worker for some time
			limit := patience + time.Duration(10*(silent+repeats)/o.FetchPool)*time.Second
			ok := h.Eventually(limit, func() bool { return len(pending()) == 0 && replies() >= len(qs) })
			if !nd.Alive() {
				rt.Fatalf("the crawler died: %s", nd.Stderr())
			}
			if !ok {
				lost()
				left := pending()
				if len(left) > 0 {
					rt.Fatalf("%d of %d announcements were not followed up within %v, such as that of %x", len(left), len(want), limit, left[0].hash)
				}
				rt.Fatalf("%d of %d queries were answered within %v", replies(), len(qs), limit)
			}
			var missing string
			stored := func() bool {
				mu.Lock()
				defer mu.Unlock()
				missing = ""
				for hash, mode := range modes {
					if mode == serves {
						b, _ := os.ReadFile(filepath.Join(nd.Dir, "torrent", hex.EncodeToString([]byte(hash))+".torrent"))
						if string(b) != string(metas[hash]) {
							missing = fmt.Sprintf("%x: %q instead of %q", hash, b, metas[hash])
							return false
						}
					}
				}
				return true
			}
			if !h.Eventually(limit, stored) {
				rt.Fatalf("what a peer served is not stored: %s", missing)
			}
			h.Eventually(5*time.Second, func() bool {
				mu.Lock()
				defer mu.Unlock()
				for p := range want {
					if asked[p] < want[p] {
						return false
					}
				}
				return true
			})
			time.Sleep(20 * time.Millisecond)
			mu.Lock()
			defer mu.Unlock()
			if len(unknown) > 0 {
				rt.Fatalf("a peer was asked for %x, which nobody announced", unknown[0])
			}
			for p, k := range asked {
				if k > want[p] {
					rt.Fatalf("peer %d was asked %d times for %x, announced %d times", p.peer, k, p.hash, want[p])
				}
			}
			got := map[string]int{}
			for i, s := range socks {
				for _, d := range s.All() {
					m, err := reply(d)
					if err != nil {
						rt.Fatalf("%v", err)
					}
					if m["y"] != "r" {
						rt.Fatalf("the query was answered with %q", d.Data)
					}
					got[fmt.Sprintf("%s to %d", m["t"], i)]++
				}
			}
			for _, q := range qs {
				if k := got[fmt.Sprintf("%s to %d", q.tx, q.from)]; k != 1 {
					rt.Fatalf("query %s was answered %d times", q.tx, k)
				}
			}
			if len(got) != len(qs) {
				rt.Fatalf("%d queries got replies to %d", len(qs), len(got))
			}
		})
}
