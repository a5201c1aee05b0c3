package krpct

import (
	"fmt"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/GalaIO/P2Pcrawler/dht/krpc"
	"github.com/GalaIO/P2Pcrawler/misc"
	"pgregory.net/rapid"
	"verif/harness/h"
	"verif/harness/netx"
	"verif/harness/ref"
)

type step struct {
	next      int  // calls of Next
	pre, post bool // writes a reply before, after continuing
}

func genSteps(rt *rapid.T, name string, max int) []step {
	n := rapid.IntRange(0, max).Draw(rt, name)
	if rapid.IntRange(0, 99).Draw(rt, "long") == 0 {
		n = rapid.IntRange(max, 40*max).Draw(rt, name)
	}
	var r []step
	for i := 0; i < n; i++ {
		r = append(r, step{rapid.SampledFrom([]int{1, 1, 0, 2}).Draw(rt, "next"), rapid.IntRange(0, 3).Draw(rt, "pre") == 0, rapid.IntRange(0, 3).Draw(rt, "post") == 0})
	}
	return r
}

// expect runs the chain model: log of effects and the last reply written.
func expect(chain []step) (log []string, reply string) {
	var rec func(i int)
	rec = func(i int) {
		if i == len(chain) {
			return
		}
		s := chain[i]
		log = append(log, fmt.Sprintf("%d+", i))
		if s.pre {
			reply = fmt.Sprintf("%d+", i)
		}
		if s.next > 0 {
			rec(i + 1)
		}
		log = append(log, fmt.Sprintf("%d-", i))
		if s.post {
			reply = fmt.Sprintf("%d-", i)
		}
		if s.next == 0 {
			rec(i + 1)
		}
	}
	rec(0)
	return
}

type recorder struct {
	mu  sync.Mutex
	log []string
}

func (r *recorder) add(s string) { r.mu.Lock(); r.log = append(r.log, s); r.mu.Unlock() }
func (r *recorder) take() []string {
	r.mu.Lock()
	defer r.mu.Unlock()
	l := r.log
	r.log = nil
	return l
}

func (s step) handler(i int, r *recorder, done func()) krpc.RpcHandlerFunc {
	return func(ctx *krpc.RpcContext) {
		r.add(fmt.Sprintf("%d+", i))
		write := func(v string) {
			ctx.WriteAs(krpc.WithResponse(ctx.Request().TxId(), misc.Dict{"id": "abcdefghij0123456789", "by": v}))
		}
		if s.pre {
			write(fmt.Sprintf("%d+", i))
		}
		for k := 0; k < s.next; k++ {
			ctx.Next()
		}
		r.add(fmt.Sprintf("%d-", i))
		if s.post {
			write(fmt.Sprintf("%d-", i))
		}
		if done != nil {
			done()
		}
	}
}

func TestC09(t *testing.T) {
	h.Silence(t)
	h.Check(t, "chain", "chains of up to 10, one in a hundred of up to 400, middleware and a handler, each continuing 0, 1 or 2 times and writing replies before or after, run through NewReqContext; non-trivial: at least 3 middleware of which one does not continue exactly once", 20000, 300000,
		func(rt *rapid.T, c *h.Case) {
			steps := append(genSteps(rt, "middleware", 10), step{0, true, false})
			c.Input("%v", steps)
			odd := false
			for _, s := range steps[:len(steps)-1] {
				odd = odd || s.next != 1
			}
			c.NonTrivial(len(steps) > 3 && odd)
			r := &recorder{}
			var chain []krpc.RpcHandlerFunc
			for i, s := range steps {
				chain = append(chain, s.handler(i, r, nil))
			}
			ctx := krpc.NewReqContext(chain, krpc.NewBaseRequest("t", "ping", misc.Dict{}, nil), nil, nil)
			ctx.Next()
			log, reply := expect(steps)
			if got := strings.Join(r.take(), " "); got != strings.Join(log, " ") {
				rt.Fatalf("effects %s, want %s", got, strings.Join(log, " "))
			}
			b := ctx.Response().Body()
			if got := b.GetStringOrDefault("by", ""); got != reply {
				rt.Fatalf("the reply was written by %s, want %s", got, reply)
			}
		})
	h.Check(t, "server", "a server with drawn request and response middleware, registered in drawn portions; 1 to 4 queries received and 1 to 4 responses received, one at a time; non-trivial: both chains have at least 2 middleware", 300, 3000,
		func(rt *rapid.T, c *h.Case) {
			reqSteps := append(genSteps(rt, "reqMiddleware", 6), step{0, true, false})
			respSteps := append(genSteps(rt, "respMiddleware", 6), step{0, false, false})
			c.Input("request %v response %v", reqSteps, respSteps)
			c.NonTrivial(len(reqSteps) > 2 && len(respSteps) > 2)
			server, addr := startRpc()
			defer server.Close()
			sock := netx.MustOpen("127.0.0.1")
			defer sock.Close()
			rq, rs := &recorder{}, &recorder{}
			register := func(n int, use func(...krpc.RpcHandlerFunc), mk func(i int) krpc.RpcHandlerFunc) {
				for i := 0; i < n; {
					k := rapid.IntRange(1, n-i).Draw(rt, "portion")
					var part []krpc.RpcHandlerFunc
					for j := 0; j < k; j++ {
						part = append(part, mk(i+j))
					}
					use(part...)
					i += k
				}
			}
			nq, nr := len(reqSteps)-1, len(respSteps)-1
			finished := make(chan struct{}, 100)
			outermost := func(i int) func() {
				if i == 0 {
					return func() { finished <- struct{}{} }
				}
				return nil
			}
			register(nq, server.UseReqHandlerMiddleware, func(i int) krpc.RpcHandlerFunc { return reqSteps[i].handler(i, rq, nil) })
			register(nr, server.UseRespHandlerMiddleware, func(i int) krpc.RpcHandlerFunc { return respSteps[i].handler(i, rs, outermost(i)) })
			server.RegisteHandler("ping", reqSteps[nq].handler(nq, rq, nil))
			wantLog, reply := expect(reqSteps)
			wantResp, _ := expect(respSteps)
			events := rapid.SliceOfN(rapid.Bool(), 1, 8).Draw(rt, "events")
			drops := netx.Drops(addr.Port, sock.Addr.Port)
			lost := func() bool { return netx.Drops(addr.Port, sock.Addr.Port) != drops }
			for e, isQuery := range events {
				tx := fmt.Sprintf("c9-%d", e)
				if isQuery {
					sock.Reset()
					sock.Send(addr, string(ref.Encode(ref.Dict{"t": tx, "y": "q", "q": "ping", "a": ref.Dict{"id": "abcdefghij0123456789"}})))
					d, ok := sock.Recv(patience)
					for ok && isQueryMsg(d.Data) { // one the server itself sent before
						d, ok = sock.Recv(patience)
					}
					if !ok {
						if lost() {
							rt.Skip("the kernel dropped datagrams")
						}
						rt.Fatalf("the query was not answered; effects so far %v", rq.take())
					}
					if got := strings.Join(rq.take(), " "); got != strings.Join(wantLog, " ") {
						rt.Fatalf("effects of a query %s, want %s", got, strings.Join(wantLog, " "))
					}
					want := ref.Dict{"t": tx, "y": "r", "r": ref.Dict{"id": "abcdefghij0123456789", "by": reply}}
					if v, _ := ref.ParseAll([]byte(d.Data)); !ref.Equal(v, want) {
						rt.Fatalf("reply %q, want the one written by %s", d.Data, reply)
					}
					if l := rs.take(); len(l) > 0 {
						rt.Fatalf("response middleware ran for a query: %v", l)
					}
					continue
				}
				done := finished
				if err := server.Query(sock.Addr, krpc.NewBaseRequest(tx, "ping", misc.Dict{"id": "x"}, respSteps[nr].handler(nr, rs, outermost(nr)))); err != nil {
					rt.Fatalf("Query: %v", err)
				}
				sock.Send(addr, string(ref.Encode(ref.Dict{"t": tx, "y": "r", "r": ref.Dict{"id": "abcdefghij0123456789"}})))
				_ = done
				full := func() bool {
					rs.mu.Lock()
					defer rs.mu.Unlock()
					return len(rs.log) >= len(wantResp)
				}
				if !h.Eventually(patience, full) {
					if lost() {
						rt.Skip("the kernel dropped datagrams")
					}
					rt.Fatalf("effects of a response %v, want %v", rs.take(), wantResp)
				}
				if got := strings.Join(rs.take(), " "); got != strings.Join(wantResp, " ") {
					rt.Fatalf("effects of a response %s, want %s", got, strings.Join(wantResp, " "))
				}
				if l := rq.take(); len(l) > 0 {
					rt.Fatalf("request middleware ran for a response: %v", l)
				}
			}
		})
	h.Check(t, "concurrent", "a server with 0 to 6 drawn request and response middleware, registered one by one or together, and a handler per method; 6 to 40 queries of drawn methods and responses to queries with handlers of their own arrive at once, while middleware pause; per transaction the effects and the reply are those of its own method's or query's chain; non-trivial: both chains have middleware and there are queries of two methods and two responses", 250, 6000,
		func(rt *rapid.T, c *h.Case) {
			reqSteps := append(genSteps(rt, "reqMiddleware", 6), step{0, true, false})
			respSteps := append(genSteps(rt, "respMiddleware", 6), step{0, false, false})
			pause := time.Duration(rapid.IntRange(0, 3).Draw(rt, "pause")) * 100 * time.Microsecond
			single := rapid.Bool().Draw(rt, "single")
			type event struct {
				method int // -1: a response
				tx     string
			}
			ms := []string{"ping", "find_node", "get_peers", "announce_peer"}
			var events []event
			kinds, responses := map[int]bool{}, 0
			for i := rapid.IntRange(6, 40).Draw(rt, "events"); i > 0; i-- {
				e := event{rapid.IntRange(-2, len(ms)-1).Draw(rt, "event"), fmt.Sprintf("c%d", i)}
				if e.method < 0 {
					e.method = -1
					responses++
				} else {
					kinds[e.method] = true
				}
				events = append(events, e)
			}
			c.Input("request %v response %v pause %v single %v events %v", reqSteps, respSteps, pause, single, events)
			c.NonTrivial(len(reqSteps) > 1 && len(respSteps) > 1 && len(kinds) > 1 && responses > 1)
			server, addr := startRpc()
			defer server.Close()
			sock := netx.MustOpen("127.0.0.1")
			defer sock.Close()
			var mu sync.Mutex
			logs := map[string][]string{}
			note := func(ctx *krpc.RpcContext, s string) {
				mu.Lock()
				tx := ctx.Request().TxId()
				logs[tx] = append(logs[tx], s)
				mu.Unlock()
			}
			mk := func(s step, i int, last string) krpc.RpcHandlerFunc {
				return func(ctx *krpc.RpcContext) {
					note(ctx, fmt.Sprintf("%d%s+", i, last))
					write := func(v string) {
						ctx.WriteAs(krpc.WithResponse(ctx.Request().TxId(), misc.Dict{"id": "abcdefghij0123456789", "by": v}))
					}
					if s.pre {
						write(fmt.Sprintf("%d%s+", i, last))
					}
					if pause > 0 {
						time.Sleep(pause)
					}
					for k := 0; k < s.next; k++ {
						ctx.Next()
					}
					note(ctx, fmt.Sprintf("%d%s-", i, last))
					if s.post {
						write(fmt.Sprintf("%d%s-", i, last))
					}
				}
			}
			register := func(steps []step, use func(...krpc.RpcHandlerFunc)) {
				var all []krpc.RpcHandlerFunc
				for i, s := range steps[:len(steps)-1] {
					all = append(all, mk(s, i, ""))
					if single {
						use(all[i])
					}
				}
				if !single && len(all) > 0 {
					use(all...)
				}
			}
			register(reqSteps, server.UseReqHandlerMiddleware)
			register(respSteps, server.UseRespHandlerMiddleware)
			nq, nr := len(reqSteps)-1, len(respSteps)-1
			for _, m := range ms {
				server.RegisteHandler(m, mk(reqSteps[nq], nq, m))
			}
			wantLog := func(steps []step, last string) string {
				l, _ := expect(steps)
				for i := range l {
					l[i] = rename(l[i], len(steps)-1, last)
				}
				return strings.Join(l, " ")
			}
			_, lastReply := expect(reqSteps)
			drops := netx.Drops(addr.Port, sock.Addr.Port)
			// the queries whose responses come
			for _, e := range events {
				if e.method < 0 {
					if err := server.Query(sock.Addr, krpc.NewBaseRequest(e.tx, "ping", misc.Dict{"id": "x"}, mk(respSteps[nr], nr, e.tx))); err != nil {
						rt.Fatalf("Query: %v", err)
					}
				}
			}
			sock.Reset()
			for _, e := range events {
				if e.method < 0 {
					sock.Send(addr, string(ref.Encode(ref.Dict{"t": e.tx, "y": "r", "r": ref.Dict{"id": "abcdefghij0123456789"}})))
				} else {
					sock.Send(addr, string(ref.Encode(ref.Dict{"t": e.tx, "y": "q", "q": ms[e.method], "a": ref.Dict{"id": "abcdefghij0123456789"}})))
				}
			}
			complete := func() bool {
				mu.Lock()
				defer mu.Unlock()
				for _, e := range events {
					want := len(reqSteps) * 2
					if e.method < 0 {
						want = len(respSteps) * 2
					}
					if len(logs[e.tx]) < want {
						return false
					}
				}
				return true
			}
			replies := func() map[string]ref.Value {
				r := map[string]ref.Value{}
				for _, d := range sock.All() {
					v, _ := ref.ParseAll([]byte(d.Data))
					m, _ := v.(ref.Dict)
					if tx, ok := m["t"].(string); ok && m["y"] == "r" {
						r[tx] = v
					}
				}
				return r
			}
			answered := func() bool {
				r := replies()
				for _, e := range events {
					if e.method >= 0 && r[e.tx] == nil {
						return false
					}
				}
				return true
			}
			if !(h.Eventually(patience, complete) && h.Eventually(patience, answered)) && netx.Drops(addr.Port, sock.Addr.Port) != drops {
				rt.Skip("the kernel dropped datagrams")
			}
			time.Sleep(time.Millisecond)
			mu.Lock()
			defer mu.Unlock()
			r := replies()
			for _, e := range events {
				want := wantLog(respSteps, e.tx)
				if e.method >= 0 {
					want = wantLog(reqSteps, ms[e.method])
				}
				if got := strings.Join(logs[e.tx], " "); got != want {
					rt.Fatalf("event %v had effects %s, want %s", e, got, want)
				}
				if e.method < 0 {
					continue
				}
				wantReply := ref.Dict{"t": e.tx, "y": "r", "r": ref.Dict{"id": "abcdefghij0123456789", "by": rename(lastReply, nq, ms[e.method])}}
				if !ref.Equal(r[e.tx], wantReply) {
					rt.Fatalf("the reply to %v is %#v, want %#v", e, r[e.tx], wantReply)
				}
			}
		})
}

func isQueryMsg(data string) bool {
	v, _ := ref.ParseAll([]byte(data))
	m, _ := v.(ref.Dict)
	return m["y"] == "q"
}

// rename turns the effect "7+" of the last step into "7name+".
func rename(effect string, last int, name string) string {
	n := fmt.Sprint(last)
	if effect[:len(effect)-1] == n {
		return n + name + effect[len(n):]
	}
	return effect
}
