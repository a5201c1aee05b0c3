package nodet

import (
	"fmt"
	"net"
	"sync"
	"testing"
	"time"

	"github.com/GalaIO/P2Pcrawler/config"
	"github.com/GalaIO/P2Pcrawler/dht/krpc"
	"github.com/GalaIO/P2Pcrawler/misc"
	"pgregory.net/rapid"
	"verif/harness/h"
	"verif/harness/netx"
	"verif/harness/node"
	"verif/harness/peer"
)

// gauge counts who is inside, and since when there are more than limit.
type gauge struct {
	mu    sync.Mutex
	in    int
	max   int
	limit int
	since time.Time
	over  time.Duration // longest time above the limit
}

func (g *gauge) step(d int) {
	g.mu.Lock()
	defer g.mu.Unlock()
	now := time.Now()
	if g.in > g.limit && now.Sub(g.since) > g.over {
		g.over = now.Sub(g.since)
	}
	was := g.in
	g.in += d
	if g.in > g.limit && was <= g.limit {
		g.since = now
	}
	if g.in > g.max {
		g.max = g.in
	}
}

func (g *gauge) read() (max int, over time.Duration, in int) {
	g.mu.Lock()
	defer g.mu.Unlock()
	return g.max, g.over, g.in
}

func TestC33(t *testing.T) {
	h.Silence(t)
	h.Check(t, "fetches", "a crawler with 1 to 12 fetch workers, 1 or 8 RPC workers and a queue of 1 to 1000; up to three times as many silent peers announced at once; while they keep silent at most that many are connected to, and that many are if there are enough peers; afterwards an honest peer is still fetched from; non-trivial: more peers than workers", 14, 600,
		func(rt *rapid.T, c *h.Case) {
			limit := rapid.OneOf(rapid.IntRange(1, 4), rapid.IntRange(1, 12)).Draw(rt, "fetchers")
			n := rapid.IntRange(1, 3*limit+1).Draw(rt, "peers")
			o := node.Opts{FetchPool: limit, WorkPool: rapid.SampledFrom([]int{1, 8}).Draw(rt, "rpc workers"), Queue: rapid.SampledFrom([]int{1, 3, 1000}).Draw(rt, "queue")}
			c.Input("%+v, %d silent peers", o, n)
			c.NonTrivial(n > limit)
			// a loaded machine may let a peer notice the end of a connection late,
			// or let the crawler start fetches late: believed when it repeats
			var why string
			for try := 0; try < 4; try++ {
				nd, err := node.Start(o)
				if err != nil {
					rt.Fatalf("%v", err)
				}
				g := &gauge{limit: limit}
				var servers []*peer.Server
				sock := netx.MustOpen("127.0.0.1")
				for i := 0; i < n; i++ {
					servers = append(servers, peer.MustListen("127.0.0.1", func(pc *peer.Conn) {
						if _, err := pc.ReadHandShake(); err != nil {
							return
						}
						g.step(1)
						defer g.step(-1)
						pc.SetReadDeadline(time.Now().Add(60 * time.Second))
						for {
							if _, err := pc.ReadMsg(); err != nil {
								return
							}
						}
					}))
				}
				for i, s := range servers {
					sock.Send(nd.Addr, announceMsg(fmt.Sprintf("%020d", i), s.Addr.Port))
				}
				want := min(limit, n)
				h.Eventually(time.Duration(5+2*n/limit)*time.Second, func() bool {
					for _, s := range servers {
						if s.Accepted() == 0 {
							return false
						}
					}
					_, _, in := g.read()
					return in == 0
				})
				max, over, _ := g.read()
				why = ""
				switch {
				case over > 500*time.Millisecond:
					why = fmt.Sprintf("for %v the crawler was fetching from more than %d peers, up to %d", over, limit, max)
				case max < want:
					why = fmt.Sprintf("the crawler never fetched from more than %d of %d peers at a time", max, n)
				}
				if why == "" {
					// nobody is kept out by the ones who kept silent
					m := peer.Meta(100, 7)
					plan := peer.Plan{Meta: m, ExtId: 3, Reserved: [8]byte{5: 0x10}}
					srv := peer.MustListen("127.0.0.1", plan.Script(func(string) {}))
					if !h.Eventually(20*time.Second, func() bool {
						if srv.Accepted() == 0 {
							sock.Send(nd.Addr, announceMsg(peer.Hash(m), srv.Addr.Port))
							time.Sleep(300 * time.Millisecond)
						}
						return srv.Accepted() > 0
					}) {
						why = "a peer announced after the silent ones is not contacted"
					}
					srv.Close()
				}
				for _, s := range servers {
					s.Close()
				}
				sock.Close()
				nd.Kill()
				if why == "" {
					return
				}
			}
			rt.Fatalf("in every of 4 attempts: %s", why)
		})
	h.Check(t, "burst", "a crawler with 1 to 120 fetch workers and a queue of 1 to 1000; 50 to 400 announcements of different torrents at silent peers at once; for three seconds at most that many fetches run at a time, and that many do; all non-trivial", 4, 160,
		func(rt *rapid.T, c *h.Case) {
			limit := rapid.OneOf(rapid.IntRange(1, 12), rapid.IntRange(13, 120)).Draw(rt, "fetchers")
			n := rapid.IntRange(max(50, 2*limit), 400).Draw(rt, "announcements")
			o := node.Opts{FetchPool: limit, WorkPool: rapid.SampledFrom([]int{1, 8, 50}).Draw(rt, "rpc workers"), Queue: rapid.SampledFrom([]int{1, 30, 1000, 1000}).Draw(rt, "queue")}
			c.Input("%+v, %d announcements", o, n)
			c.NonTrivial(true)
			why := ""
			for try := 0; try < 4; try++ {
				nd, err := node.Start(o)
				if err != nil {
					rt.Fatalf("%v", err)
				}
				g := &gauge{limit: limit}
				sock := netx.MustOpen("127.0.0.1")
				srv := peer.MustListen("127.0.0.1", func(pc *peer.Conn) {
					if _, err := pc.ReadHandShake(); err != nil {
						return
					}
					g.step(1)
					defer g.step(-1)
					pc.SetReadDeadline(time.Now().Add(60 * time.Second))
					for {
						if _, err := pc.ReadMsg(); err != nil {
							return
						}
					}
				})
				for i := 0; i < n; i++ {
					sock.Send(nd.Addr, announceMsg(fmt.Sprintf("%020d", i), srv.Addr.Port))
					if i%50 == 49 {
						time.Sleep(time.Millisecond)
					}
				}
				time.Sleep(3 * time.Second)
				g.step(0)
				max, over, _ := g.read()
				why = ""
				switch {
				case over > 500*time.Millisecond:
					why = fmt.Sprintf("for %v the crawler was fetching from more than %d peers, up to %d", over, limit, max)
				case max < limit:
					why = fmt.Sprintf("the crawler never ran more than %d of %d fetches at a time", max, n)
				}
				srv.Close()
				sock.Close()
				nd.Kill()
				if why == "" {
					return
				}
			}
			rt.Fatalf("in every of 4 attempts: %s", why)
		})
	h.Check(t, "handlers", "an RPC server with 1 to 64 workers by its configuration, or 8, that gets 1 to 250 queries at once whose handlers wait at a gate; at most that many wait at a time, and that many do if there are enough; then all are answered; non-trivial: more queries than workers", 60, 2500,
		func(rt *rapid.T, c *h.Case) {
			n := rapid.OneOf(rapid.IntRange(1, 30), rapid.IntRange(30, 250)).Draw(rt, "queries")
			workers := rapid.SampledFrom([]int{8, 8, 1, 2, 5, 16, 17, 32, 64}).Draw(rt, "workers")
			node.WriteJSON("conf/config.json", node.Conf(node.Opts{WorkPool: workers}, 1))
			config.ResetConfig()
			if got := config.DhtConfig().WorkPoolSize; got != workers {
				h.Infra("the configuration was not read again: %d workers instead of %d", got, workers)
			}
			c.Input("%d queries, %d workers", n, workers)
			c.NonTrivial(n > workers)
			s := krpc.NewRpcServer("127.0.0.1:0")
			defer s.Close()
			sock := netx.MustOpen("127.0.0.1")
			defer sock.Close()
			if err := s.Query(sock.Addr, krpc.NewBaseRequest("pr", "ping", misc.Dict{"id": "x"}, func(*krpc.RpcContext) {})); err != nil {
				rt.Fatalf("%v", err)
			}
			d, ok := sock.Recv(patience)
			if !ok {
				rt.Fatalf("a query was not sent")
			}
			var addr *net.UDPAddr = d.From
			gate := make(chan struct{})
			opened := false
			defer func() {
				if !opened {
					close(gate)
				}
			}()
			g := &gauge{limit: workers}
			s.RegisteHandler("ping", func(ctx *krpc.RpcContext) {
				g.step(1)
				<-gate
				g.step(-1)
				ctx.WriteAs(krpc.WithResponse(ctx.Request().TxId(), misc.Dict{"id": "abcdefghij0123456789"}))
			})
			go s.Listen()
			sock.Reset()
			drops := netx.Drops(addr.Port, sock.Addr.Port)
			for i := 0; i < n; i++ {
				sock.Send(addr, node.PingMsg(fmt.Sprint(i)))
			}
			want := min(n, workers)
			reached := h.Eventually(patience, func() bool { _, _, in := g.read(); return in >= want })
			if !reached && netx.Drops(addr.Port, sock.Addr.Port) != drops {
				rt.Skip("the kernel dropped datagrams")
			}
			time.Sleep(time.Duration(rapid.IntRange(0, 5).Draw(rt, "ms")) * time.Millisecond)
			max, _, in := g.read()
			if in != want || max > workers {
				rt.Fatalf("%d handlers run at the same time, want %d of %d (at most %d)", in, want, n, max)
			}
			opened = true
			close(gate)
			if !h.Eventually(patience, func() bool { return len(sock.All()) >= n }) && netx.Drops(addr.Port, sock.Addr.Port) == drops {
				rt.Fatalf("%d of %d queries were answered", len(sock.All()), n)
			}
		})
}
