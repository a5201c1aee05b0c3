package krpct

import (
	"fmt"
	"sort"
	"sync"
	"testing"
	"time"

	"github.com/GalaIO/P2Pcrawler/dht/krpc"
	"github.com/GalaIO/P2Pcrawler/misc"
	"pgregory.net/rapid"
	"verif/harness/conv"
	"verif/harness/h"
	"verif/harness/netx"
	"verif/harness/ref"
)

var caseNo int

// hit is one run of a query's handler.
type hit struct {
	query int
	ctx   *krpc.RpcContext
}

func genTx(rt *rapid.T) string {
	return string(rapid.OneOf(rapid.SliceOfN(rapid.Byte(), 0, 3), rapid.SliceOfN(rapid.SampledFrom([]byte("0aA:e")), 2, 4)).Draw(rt, "tx"))
}

func TestC08(t *testing.T) {
	h.Silence(t)
	server, addr := startRpc()
	defer server.Close()
	var socks []*netx.Sock
	for i := 0; i < 4; i++ {
		s := netx.MustOpen(fmt.Sprintf("127.0.0.%d", 1+i))
		defer s.Close()
		socks = append(socks, s)
	}
	var mu sync.Mutex
	var late []string
	h.Check(t, "correlate", "1 to 14 queries (drawn ids, some replaced by a later query with the same id) sent to up to 4 nodes; then responses to a drawn subset, in drawn order, from any node, mixed with responses to unknown ids, error messages, queries and garbage; non-trivial: at least two responses to outstanding queries and one distractor", 1200, 40000,
		func(rt *rapid.T, c *h.Case) {
			caseNo++
			prefix := fmt.Sprintf("%d/", caseNo)
			n := rapid.IntRange(1, 14).Draw(rt, "queries")
			type query struct {
				tx, q string
				body  ref.Dict
				to    int
			}
			var qs []query
			var hits []hit
			closed := false
			owner := map[string]int{}
			for _, s := range socks {
				s.Reset()
			}
			for i := 0; i < n; i++ {
				i := i
				q := query{tx: prefix + genTx(rt), q: rapid.SampledFrom([]string{"ping", "find_node", "get_peers", "announce_peer", "vote"}).Draw(rt, "q"), body: ref.GenDict(1).Draw(rt, "body"), to: rapid.IntRange(0, 3).Draw(rt, "to")}
				if i > 0 && rapid.IntRange(0, 5).Draw(rt, "sameTx") == 0 {
					q.tx = qs[rapid.IntRange(0, i-1).Draw(rt, "of")].tx
				}
				qs = append(qs, q)
				owner[q.tx] = i
				req := krpc.NewBaseRequest(q.tx, q.q, conv.ToMisc(q.body).(misc.Dict), func(ctx *krpc.RpcContext) {
					mu.Lock()
					defer mu.Unlock()
					if closed {
						late = append(late, fmt.Sprintf("handler of query %d (%q) of an earlier case ran again", i, q.tx))
					}
					hits = append(hits, hit{i, ctx})
				})
				sock := socks[q.to]
				before := len(sock.All())
				if err := server.Query(sock.Addr, req); err != nil {
					rt.Fatalf("Query(%q): %v", q.tx, err)
				}
				want := ref.Dict{"t": q.tx, "y": "q", "q": q.q, "a": q.body}
				// late error replies to the distractors of an earlier case are not it
				var d netx.Datagram
				if !h.Eventually(patience, func() bool {
					for _, x := range sock.All()[before:] {
						if !isErrorReply(x.Data) {
							d = x
							return true
						}
					}
					return false
				}) {
					rt.Fatalf("query %q was not sent to its address", q.tx)
				}
				if v, verdict := ref.ParseAll([]byte(d.Data)); verdict != ref.Good || !ref.Equal(v, want) {
					rt.Fatalf("the query %#v was sent as %q", want, d.Data)
				}
				if d.From.String() != addr.String() {
					rt.Fatalf("the query was sent from %v, the server is %v", d.From, addr)
				}
			}
			// responses
			type resp struct {
				query int // -1: must run nothing
				from  int
				body  ref.Dict
				data  string
			}
			var plan []resp
			for i := range qs {
				if owner[qs[i].tx] != i {
					continue // a later query has the id
				}
				if rapid.IntRange(0, 3).Draw(rt, "answered") > 0 {
					body := ref.GenDict(2).Draw(rt, "rbody")
					for k := rapid.IntRange(0, 3).Draw(rt, "known"); k > 0; k-- {
						key := rapid.SampledFrom([]string{"code", "msg", "nodes", "values", "token", "e", "r", "t", "y", "q", "a", "error", "p", "ip", "id2", "target", "info_hash", "nodes6"}).Draw(rt, "field")
						body[key] = ref.GenValue(1).Draw(rt, "fieldValue")
					}
					body["id"] = rapid.StringMatching(`[a-z]{20}`).Draw(rt, "id")
					msg := ref.Dict{"t": qs[i].tx, "y": "r", "r": body}
					for k := rapid.IntRange(0, 2).Draw(rt, "extra"); k > 0; k-- {
						msg[rapid.SampledFrom([]string{"v", "ip", "ro", "p", "x", "a", "q", "e"}).Draw(rt, "top")] = ref.GenValue(1).Draw(rt, "topValue")
					}
					if len(ref.Encode(msg)) > 1024 { // datagrams the server reads in full
						body = ref.Dict{"id": body["id"], "cut": i}
						msg = ref.Dict{"t": qs[i].tx, "y": "r", "r": body}
					}
					plan = append(plan, resp{i, rapid.IntRange(0, 3).Draw(rt, "from"), body, string(ref.Encode(msg))})
				}
			}
			answered := len(plan)
			extra := rapid.IntRange(0, 5).Draw(rt, "distractors")
			for i := 0; i < extra; i++ {
				tx := qs[rapid.IntRange(0, n-1).Draw(rt, "near")].tx
				good := ref.Dict{"id": "abcdefghij0123456789"}
				var data string
				switch rapid.IntRange(0, 6).Draw(rt, "distractor") {
				case 0:
					data = string(ref.Encode(ref.Dict{"t": tx + "x", "y": "r", "r": good}))
				case 1:
					data = string(ref.Encode(ref.Dict{"t": tx[:len(tx)-1] + "\x00!", "y": "r", "r": good}))
				case 2:
					data = string(ref.Encode(ref.Dict{"t": tx, "y": "e", "e": ref.List{201, "no"}}))
				case 3:
					data = string(ref.Encode(ref.Dict{"t": tx, "y": rapid.SampledFrom([]string{"q", "x", "", "R", "rr"}).Draw(rt, "y"), "q": "ping", "a": good, "r": good}))
				case 4:
					s := string(ref.Encode(ref.Dict{"t": tx, "y": "r", "r": good}))
					data = s[:rapid.IntRange(0, len(s)-1).Draw(rt, "cut")]
				case 5:
					data = string(ref.Encode(ref.Dict{"t": 7, "y": "r", "r": good}))
				case 6:
					data = string(ref.Encode(ref.Dict{"t": tx, "r": good}))
				}
				plan = append(plan, resp{-1, rapid.IntRange(0, 3).Draw(rt, "from"), nil, data})
			}
			plan = rapid.Permutation(plan).Draw(rt, "order")
			trace := ""
			for _, p := range plan {
				trace += fmt.Sprintf(" [%d %q]", p.from, p.data)
			}
			c.Input("%d queries %q, datagrams:%s", n, qs, trace)
			c.NonTrivial(answered >= 2 && extra > 0)
			c.Label("replaced id", len(owner) < n)
			drops := netx.Drops(addr.Port)
			for _, p := range plan {
				socks[p.from].Send(addr, p.data)
			}
			count := func() int { mu.Lock(); defer mu.Unlock(); return len(hits) }
			if !h.Eventually(patience, func() bool { return count() >= answered }) && netx.Drops(addr.Port) != drops {
				rt.Skip("the kernel dropped datagrams")
			}
			time.Sleep(time.Millisecond)
			mu.Lock()
			defer mu.Unlock()
			closed = true
			if len(late) > 0 {
				rt.Fatal(late[0])
			}
			ran := map[int]int{}
			for _, x := range hits {
				ran[x.query]++
				q := qs[x.query]
				var p *resp
				for i := range plan {
					if plan[i].query == x.query {
						p = &plan[i]
					}
				}
				if p == nil {
					rt.Fatalf("the handler of query %d (%q) ran, no response was meant for it", x.query, q.tx)
				}
				r, s := x.ctx.Request(), x.ctx.Response()
				if r.TxId() != q.tx || r.Type() != q.q || !conv.Same(r.Body(), q.body) {
					rt.Fatalf("the handler of %#v got request %q %q %v", q, r.TxId(), r.Type(), r.Body())
				}
				if s == nil || s.Error() || s.TxId() != q.tx || !conv.Same(s.Body(), p.body) {
					rt.Fatalf("the handler of %q got response %v, want %#v", q.tx, s, p.body)
				}
				if a := x.ctx.RemoteAddr(); a.String() != socks[p.from].Addr.String() {
					rt.Fatalf("the handler of %q was told address %v, the response came from %v", q.tx, a, socks[p.from].Addr)
				}
			}
			for _, p := range plan {
				if p.query >= 0 && ran[p.query] != 1 {
					rt.Fatalf("the handler of query %d (%q) ran %d times after its response %q", p.query, qs[p.query].tx, ran[p.query], p.data)
				}
			}
		})
	h.Check(t, "slow", "60 queries whose responses come 0 to 8 s (quick) or 0 to 75 s (thorough) after them; every handler runs once, soon after its response; all non-trivial", 1, 4,
		func(rt *rapid.T, c *h.Case) {
			caseNo++
			longest := h.Pick(8000, 75000)
			type plan struct {
				tx    string
				after time.Duration
				from  int
			}
			var plans []plan
			text := ""
			for i := 0; i < 60; i++ {
				p := plan{fmt.Sprintf("%d.%d", caseNo, i), time.Duration(h.Wide(0, longest).Draw(rt, "ms")) * time.Millisecond, rapid.IntRange(0, 3).Draw(rt, "node")}
				if i == 0 {
					p.after = time.Duration(longest) * time.Millisecond
				}
				plans = append(plans, p)
				text += fmt.Sprintf(" %v", p.after)
			}
			c.Input("responses after%s", text)
			c.NonTrivial(true)
			runs := map[string]int{}
			early := map[string]bool{}
			sent := map[string]bool{}
			for _, p := range plans {
				p := p
				if err := server.Query(socks[p.from].Addr, krpc.NewBaseRequest(p.tx, "find_node", misc.Dict{"id": "x"}, func(ctx *krpc.RpcContext) {
					mu.Lock()
					defer mu.Unlock()
					runs[p.tx]++
					early[p.tx] = early[p.tx] || !sent[p.tx]
				})); err != nil {
					rt.Fatalf("%v", err)
				}
			}
			sort.Slice(plans, func(i, j int) bool { return plans[i].after < plans[j].after })
			drops := netx.Drops(addr.Port)
			t0 := time.Now()
			for _, p := range plans {
				time.Sleep(time.Until(t0.Add(p.after)))
				mu.Lock()
				sent[p.tx] = true
				mu.Unlock()
				socks[p.from].Send(addr, string(ref.Encode(ref.Dict{"t": p.tx, "y": "r", "r": ref.Dict{"id": "abcdefghij0123456789"}})))
			}
			ok := h.Eventually(patience, func() bool { mu.Lock(); defer mu.Unlock(); return len(runs) == len(plans) })
			if !ok && netx.Drops(addr.Port) != drops {
				rt.Skip("the kernel dropped datagrams")
			}
			mu.Lock()
			defer mu.Unlock()
			for _, p := range plans {
				if runs[p.tx] != 1 || early[p.tx] {
					rt.Fatalf("the handler of a query ran %d times for its response %v later (before it: %v)", runs[p.tx], p.after, early[p.tx])
				}
			}
		})
	h.Check(t, "instant", "20 to 60 concurrent queries from several goroutines, each answered by the node from its receive loop at once; every handler runs once; all non-trivial", 60, 2500,
		func(rt *rapid.T, c *h.Case) {
			caseNo++
			g := rapid.IntRange(2, 6).Draw(rt, "goroutines")
			per := rapid.IntRange(5, 10).Draw(rt, "queries")
			c.Input("%d goroutines, %d queries each", g, per)
			c.NonTrivial(true)
			s := netx.MustOpen("127.0.0.1")
			defer s.Close()
			s.OnRecv(func(d netx.Datagram) {
				v, verdict := ref.ParseAll([]byte(d.Data))
				m, ok := v.(ref.Dict)
				if verdict != ref.Good || !ok {
					return
				}
				tx, _ := m["t"].(string)
				s.Send(addr, string(ref.Encode(ref.Dict{"t": tx, "y": "r", "r": ref.Dict{"id": "abcdefghij0123456789", "echo": tx}})))
			})
			runs := map[string]int{}
			var wg sync.WaitGroup
			errs := make(chan string, g*per)
			drops := netx.Drops(addr.Port, s.Addr.Port)
			for i := 0; i < g; i++ {
				wg.Add(1)
				go func(i int) {
					defer wg.Done()
					for j := 0; j < per; j++ {
						tx := fmt.Sprintf("%d.%d.%d", caseNo, i, j)
						err := server.Query(s.Addr, krpc.NewBaseRequest(tx, "ping", misc.Dict{"id": "x"}, func(ctx *krpc.RpcContext) {
							b := ctx.Response().Body()
							if e := b.GetStringOrDefault("echo", "?"); e != tx || ctx.Response().TxId() != tx {
								errs <- fmt.Sprintf("query %q got the response to %q", tx, e)
							}
							mu.Lock()
							runs[tx]++
							mu.Unlock()
						}))
						if err != nil {
							errs <- err.Error()
						}
					}
				}(i)
			}
			wg.Wait()
			if !h.Eventually(patience, func() bool { mu.Lock(); defer mu.Unlock(); return len(runs) == g*per }) {
				if netx.Drops(addr.Port, s.Addr.Port) != drops {
					rt.Skip("the kernel dropped datagrams")
				}
				rt.Fatalf("%d of %d queries got their response", len(runs), g*per)
			}
			select {
			case e := <-errs:
				rt.Fatal(e)
			default:
			}
			mu.Lock()
			defer mu.Unlock()
			for tx, k := range runs {
				if k != 1 {
					rt.Fatalf("handler of %q ran %d times", tx, k)
				}
			}
		})
}

func isErrorReply(data string) bool {
	v, _ := ref.ParseAll([]byte(data))
	d, _ := v.(ref.Dict)
	return d["y"] == "e"
}
