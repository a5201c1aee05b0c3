package krpct

import (
	"fmt"
	"net"
	"strings"
	"sync"
	"testing"

	"github.com/GalaIO/P2Pcrawler/dht/krpc"
	"github.com/GalaIO/P2Pcrawler/misc"
	"pgregory.net/rapid"
	"verif/harness/conv"
	"verif/harness/h"
	"verif/harness/netx"
	"verif/harness/ref"
)

// sentMsg is what a handler must see for as long as it keeps its context.
type sentMsg struct {
	tx   string
	q    string // "" for a response
	body ref.Dict
	from string
}

func (m sentMsg) String() string {
	return fmt.Sprintf("%q %q %q %s", m.tx, m.q, ref.Encode(m.body), m.from)
}

// seen describes a kept context the same way, copying nothing.
func seen(ctx *krpc.RpcContext, isResp bool) string {
	a := ctx.RemoteAddr().String()
	tx, q, body := ctx.Request().TxId(), ctx.Request().Type(), ctx.Request().Body()
	if isResp {
		r := ctx.Response()
		tx, q, body = r.TxId(), "", r.Body()
	}
	v, ok := conv.FromMisc(body)
	if !ok {
		return fmt.Sprintf("strange body %#v", body)
	}
	return sentMsg{strings.Clone(tx), strings.Clone(q), v.(ref.Dict), a}.String()
}

func TestC10(t *testing.T) {
	h.Silence(t)
	server, addr := startRpc()
	defer server.Close()
	var mu sync.Mutex
	var kept []*krpc.RpcContext
	var first []string
	var isResp []bool
	gate := make(chan struct{})
	close(gate)
	keep := func(ctx *krpc.RpcContext) {
		r := ctx.Response() != nil // a query has none before it is answered
		s := seen(ctx, r)
		mu.Lock()
		kept = append(kept, ctx)
		isResp = append(isResp, r)
		first = append(first, s)
		g := gate
		mu.Unlock()
		<-g // a slow handler
		if !r {
			ctx.WriteAs(krpc.WithResponse(ctx.Request().TxId(), misc.Dict{"id": "abcdefghij0123456789"}))
		}
	}
	for _, q := range []string{"ping", "find_node", "get_peers", "announce_peer"} {
		server.RegisteHandler(q, keep)
	}
	var socks []*netx.Sock
	for i := 0; i < 4; i++ {
		s := netx.MustOpen(fmt.Sprintf("127.0.0.%d", 1+i))
		defer s.Close()
		socks = append(socks, s)
	}
	serial := 0
	// deliver sends one message and returns what a handler must see
	mk := func(rt *rapid.T) (int, string, sentMsg, bool) {
		serial++
		from := rapid.IntRange(0, 3).Draw(rt, "from")
		body := ref.Dict{"id": rapid.StringMatching(`[a-z]{20}`).Draw(rt, "id"), "n": serial}
		// long and short strings, so that messages of different sizes reuse a buffer
		fill := rapid.SampledFrom([]string{"A", "B", "c:", "0e"}).Draw(rt, "fill")
		body["fill"] = strings.Repeat(fill, rapid.OneOf(rapid.IntRange(0, 20), rapid.IntRange(0, 400)).Draw(rt, "len"))
		if rapid.Bool().Draw(rt, "nested") {
			body["l"] = ref.List{fmt.Sprint("in list ", serial), ref.Dict{"k": fmt.Sprint("in dict ", serial)}}
		}
		m := sentMsg{tx: fmt.Sprintf("%s%d", strings.Repeat("t", rapid.IntRange(0, 12).Draw(rt, "txLen")), serial), body: body, from: socks[from].Addr.String()}
		isResp := rapid.IntRange(0, 3).Draw(rt, "response") == 0
		if isResp {
			return from, string(ref.Encode(ref.Dict{"t": m.tx, "y": "r", "r": body})), m, true
		}
		m.q = rapid.SampledFrom([]string{"ping", "find_node", "get_peers", "announce_peer"}).Draw(rt, "q")
		return from, string(ref.Encode(ref.Dict{"t": m.tx, "y": "q", "q": m.q, "a": body})), m, false
	}
	run := func(rt *rapid.T, c *h.Case, n int, blast bool) {
		mu.Lock()
		kept, first, isResp = nil, nil, nil
		slow := rapid.Bool().Draw(rt, "slow")
		g := make(chan struct{})
		gate = g
		mu.Unlock()
		opened := false
		open := func() {
			if !opened {
				opened = true
				close(g)
			}
		}
		defer open()
		// at most 4 handlers may be held back, the pool has 8 workers
		if !slow || n > 4 {
			if !slow {
				open()
			}
		}
		var want []string
		drops := netx.Drops(addr.Port)
		count := func() int { mu.Lock(); defer mu.Unlock(); return len(kept) }
		type out struct {
			from int
			data string
		}
		// what runs no handler and must not touch what others keep
		junk := func() out {
			return out{rapid.IntRange(0, 3).Draw(rt, "junk from"), rapid.SampledFrom([]string{
				"", "garbage", "d1:t2:aae", "d1:t2:aa1:y1:ze", "d1:t2:aa1:yi1ee", "i1e", "le", "d", "d1:y1:q1:t", strings.Repeat("junk", 256),
				"d1:rd2:id20:abcdefghij0123456789e1:t9:never-was1:y1:re", "d1:rde1:t2:aa1:y1:re", "d1:eli201e1:xe1:t2:aa1:y1:ee", "d1:t2:aa1:y1:ee",
				"d1:q4:ping1:t2:aa1:y1:qe", "d1:q4:nope1:t2:aa1:y1:qe", "d1:ad2:id3:abce1:q4:ping1:t2:aa1:y1:qe"}).Draw(rt, "junk")}
		}
		junky := rapid.IntRange(0, 2).Draw(rt, "junky") == 0
		var pending []out
		for i := 0; i < n; i++ {
			from, data, m, isResp := mk(rt)
			if isResp {
				if err := server.Query(&net.UDPAddr{IP: net.IPv4(127, 0, 0, 1), Port: socks[from].Addr.Port}, krpc.NewBaseRequest(m.tx, "ping", misc.Dict{"id": "x"}, keep)); err != nil {
					rt.Fatalf("Query: %v", err)
				}
			}
			want = append(want, m.String())
			for k := 0; junky && k < 3 && rapid.Bool().Draw(rt, "more junk"); k++ {
				o := junk()
				if blast {
					pending = append(pending, o)
				} else {
					socks[o.from].Send(addr, o.data)
				}
			}
			if blast {
				pending = append(pending, out{from, data})
				continue
			}
			socks[from].Send(addr, data)
			if slow && i >= 3 {
				open()
			}
			if !h.Eventually(patience, func() bool { return count() >= len(want) }) {
				if netx.Drops(addr.Port) != drops {
					rt.Skip("the kernel dropped datagrams")
				}
				rt.Fatalf("message %s was not handled", m)
			}
		}
		if blast {
			open()
			var wg sync.WaitGroup
			for s := range socks {
				wg.Add(1)
				go func(s int) {
					defer wg.Done()
					for _, p := range pending {
						if p.from == s {
							socks[s].Send(addr, p.data)
						}
					}
				}(s)
			}
			wg.Wait()
			if !h.Eventually(patience, func() bool { return count() >= len(want) }) && netx.Drops(addr.Port) != drops {
				rt.Skip("the kernel dropped datagrams")
			}
		}
		open()
		mu.Lock()
		defer mu.Unlock()
		c.Input("%d messages, slow %v, junk %v, first %s", n, slow, junky, want[0])
		c.NonTrivial(n >= 5)
		if d := diff(first, want); d != "" {
			rt.Fatalf("handled messages differ from the sent ones: %s", d)
		}
		for i, ctx := range kept {
			if s := seen(ctx, isResp[i]); s != first[i] {
				rt.Fatalf("a kept message changed from %s to %s", first[i], s)
			}
		}
	}
	h.Check(t, "kept", "4 to 40 queries and responses of 60 to 900 bytes from 4 addresses, one after the other, every handler's context kept and compared after all of them; in half of the cases the first handlers are still running meanwhile, in a third undecodable and unusable datagrams arrive in between; non-trivial: at least 5 messages", 250, 8000,
		func(rt *rapid.T, c *h.Case) { run(rt, c, rapid.IntRange(4, 40).Draw(rt, "n"), false) })
	h.Check(t, "blast", "10 to 60 messages sent at once from 4 sockets and handled by 8 workers, in a third of the cases among undecodable and unusable datagrams; the multiset of handled messages must be the sent one; all non-trivial", 250, 8000,
		func(rt *rapid.T, c *h.Case) { run(rt, c, rapid.IntRange(10, 60).Draw(rt, "n"), true) })
}
