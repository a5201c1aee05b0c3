package krpct

import (
	"errors"
	"fmt"
	"os"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/GalaIO/P2Pcrawler/config"
	"github.com/GalaIO/P2Pcrawler/dht/krpc"
	"github.com/GalaIO/P2Pcrawler/misc"
	"pgregory.net/rapid"
	"verif/harness/h"
	"verif/harness/netx"
	"verif/harness/node"
	"verif/harness/ref"
)

// ways a handler ends
const (
	replies = iota
	silent
	raises      // the library's error
	raisesCause // the library's error for a cause
	panicsText
	panicsError
	panicsNilMap
	panicsIndex
	panicsType
	panicsNilPointer
	unencodable
	ways
)

var wayNames = []string{"replies", "silent", "raises", "raises for a cause", "panics with a text", "panics with an error", "writes to a nil map", "indexes out of range", "asserts a wrong type", "follows a nil pointer", "writes a reply that cannot be encoded"}

// outcome is how one message's handling goes on.
type outcome struct {
	way   int
	at    int // which handler of the chain fails
	after bool
	first bool // a reply was written before failing
	text  string
}

func (o outcome) String() string {
	return fmt.Sprintf("%s (handler %d, after %v, replied before %v, %q)", wayNames[o.way], o.at, o.after, o.first, o.text)
}

func (o outcome) fail(ctx *krpc.RpcContext) {
	switch o.way {
	case raises:
		misc.PanicBizErr(o.text)
	case raisesCause:
		misc.PanicBizErrNonNil(errors.New("cause"), o.text, 5, "param")
	case panicsText:
		panic(o.text)
	case panicsError:
		panic(errors.New(o.text))
	case panicsNilMap:
		var m map[string]int
		m[o.text] = 1
	case panicsIndex:
		var l []int
		_ = l[len(o.text)]
	case panicsType:
		var v interface{} = o.text
		_ = v.(int)
	case panicsNilPointer:
		var e *outcome
		_ = e.text
	case unencodable:
		ctx.WriteAs(krpc.WithResponse(ctx.Request().TxId(), misc.Dict{"id": nid, "x": misc.List{1, 2.5}}))
	}
}

const nid = "abcdefghij0123456789"

func TestC34(t *testing.T) {
	h.Silence(t)
	os.MkdirAll("conf", 0777)
	setWorkers := func(n int) {
		node.WriteJSON("conf/config.json", node.Conf(node.Opts{WorkPool: n}, 1))
		config.ResetConfig()
		if got := config.DhtConfig().WorkPoolSize; got != n {
			h.Infra("the configuration was not read again: %d workers instead of %d", got, n)
		}
	}
	serial := 0
	h.Check(t, "failing", "a server with 1 to 8 workers and 0 to 4 middleware for either direction that gets 2 to 40 queries and responses, each of which a drawn handler of its chain fails on in a drawn way (the library's error, another panic, a Go runtime error, a reply that cannot be encoded, no reply at all) before or after the handlers behind it, or that are handled; one at a time or at once; every query gets its reply, its error or nothing, every response's handler runs if nothing before it fails, nothing else is sent; non-trivial: at least 2 failing queries and one that is answered", 400, 15000,
		func(rt *rapid.T, c *h.Case) {
			serial++
			workers := rapid.SampledFrom([]int{1, 1, 2, 3, 8}).Draw(rt, "workers")
			setWorkers(workers)
			nq, nr := rapid.IntRange(0, 4).Draw(rt, "request middleware"), rapid.IntRange(0, 4).Draw(rt, "response middleware")
			n := rapid.OneOf(rapid.IntRange(2, 12), rapid.IntRange(2, 40)).Draw(rt, "messages")
			oneByOne := rapid.Bool().Draw(rt, "one by one")
			server, addr := startRpc()
			defer server.Close()
			socks := []*netx.Sock{netx.MustOpen("127.0.0.1"), netx.MustOpen("127.0.0.2")}
			for _, s := range socks {
				defer s.Close()
			}
			var mu sync.Mutex
			outcomes := map[string]outcome{}
			ran := map[string][]int{} // which handlers ran
			handler := func(i int) krpc.RpcHandlerFunc {
				return func(ctx *krpc.RpcContext) {
					tx := ctx.Request().TxId()
					mu.Lock()
					o := outcomes[tx]
					ran[tx] = append(ran[tx], i)
					mu.Unlock()
					if o.first {
						ctx.WriteAs(krpc.WithResponse(tx, misc.Dict{"id": nid, "by": "early"}))
					}
					if o.at == i && !o.after {
						o.fail(ctx)
					}
					ctx.Next()
					if o.at == i && o.after {
						o.fail(ctx)
					}
				}
			}
			last := func(i int) krpc.RpcHandlerFunc {
				inner := handler(i)
				return func(ctx *krpc.RpcContext) {
					tx := ctx.Request().TxId()
					mu.Lock()
					o := outcomes[tx]
					mu.Unlock()
					if o.way == replies {
						ctx.WriteAs(krpc.WithResponse(tx, misc.Dict{"id": nid, "by": tx}))
					}
					inner(ctx)
				}
			}
			for i := 0; i < nq; i++ {
				server.UseReqHandlerMiddleware(handler(i))
			}
			for i := 0; i < nr; i++ {
				server.UseRespHandlerMiddleware(handler(i))
			}
			ms := []string{"ping", "find_node", "get_peers", "announce_peer"}
			for _, m := range ms {
				server.RegisteHandler(m, last(nq))
			}
			type message struct {
				query bool
				tx    string
				from  int
				o     outcome
			}
			var msgs []message
			failing, answered := 0, 0
			for i := 0; i < n; i++ {
				m := message{query: rapid.IntRange(0, 3).Draw(rt, "kind") > 0, tx: fmt.Sprintf("%d.%d", serial, i), from: rapid.IntRange(0, 1).Draw(rt, "from")}
				depth := nq
				if !m.query {
					depth = nr
				}
				m.o = outcome{way: rapid.OneOf(rapid.Just(replies), rapid.IntRange(0, ways-1), rapid.IntRange(0, ways-1)).Draw(rt, "way"), at: rapid.IntRange(0, depth).Draw(rt, "at"), after: rapid.Bool().Draw(rt, "after"),
					text: rapid.SampledFrom([]string{"no such thing", "x", "", "bad %s %d", "\xff\x00", "wrong info_hash", strings.Repeat("long ", 60)}).Draw(rt, "text")}
				if m.o.way != silent && m.o.way != unencodable {
					m.o.first = rapid.IntRange(0, 3).Draw(rt, "first") == 0
				}
				if m.query && m.o.way == replies {
					answered++
				} else if m.query {
					failing++
				}
				msgs = append(msgs, m)
				c.Label(wayNames[m.o.way], true)
			}
			text := ""
			for _, m := range msgs {
				text += fmt.Sprintf(" query %v: %s;", m.query, m.o)
			}
			c.Input("%d workers, middleware %d and %d, one by one %v:%s", workers, nq, nr, oneByOne, text)
			c.NonTrivial(failing >= 2 && answered > 0)
			mu.Lock()
			for _, m := range msgs {
				outcomes[m.tx] = m.o
			}
			mu.Unlock()
			// the queries the responses answer
			drops := netx.Drops(addr.Port, socks[0].Addr.Port, socks[1].Addr.Port)
			lost := func() bool {
				return netx.Drops(addr.Port, socks[0].Addr.Port, socks[1].Addr.Port) != drops
			}
			for _, m := range msgs {
				if !m.query {
					if err := server.Query(socks[m.from].Addr, krpc.NewBaseRequest(m.tx, "ping", misc.Dict{"id": nid}, last(nr))); err != nil {
						rt.Fatalf("Query: %v", err)
					}
					if d, ok := socks[m.from].Recv(patience); !ok {
						if lost() {
							rt.Skip("the kernel dropped datagrams")
						}
						rt.Fatalf("a query was not sent")
					} else if !isQueryMsg(d.Data) {
						rt.Fatalf("sent %q instead of a query", d.Data)
					}
				}
			}
			handled := func(m message) bool {
				mu.Lock()
				defer mu.Unlock()
				return len(ran[m.tx]) > 0
			}
			reach := func(m message) int { // handlers that run
				depth := nq
				if !m.query {
					depth = nr
				}
				if m.o.way != replies && m.o.way != silent && m.o.way != unencodable && !m.o.after {
					return m.o.at + 1
				}
				return depth + 1
			}
			done := func(m message) bool {
				mu.Lock()
				defer mu.Unlock()
				return len(ran[m.tx]) >= reach(m)
			}
			for _, m := range msgs {
				d := ref.Dict{"t": m.tx, "y": "r", "r": ref.Dict{"id": nid}}
				if m.query {
					d = ref.Dict{"t": m.tx, "y": "q", "q": rapid.SampledFrom(ms).Draw(rt, "method"), "a": ref.Dict{"id": nid}}
				}
				socks[m.from].Send(addr, string(ref.Encode(d)))
				if oneByOne && !h.Eventually(patience, func() bool { return done(m) }) {
					if lost() {
						rt.Skip("the kernel dropped datagrams")
					}
					rt.Fatalf("message %s (%s): handlers %v ran, %d should; ran at all: %v", m.tx, m.o, ran[m.tx], reach(m), handled(m))
				}
			}
			for _, m := range msgs {
				if !h.Eventually(patience, func() bool { return done(m) }) {
					if lost() {
						rt.Skip("the kernel dropped datagrams")
					}
					mu.Lock()
					defer mu.Unlock()
					rt.Fatalf("message %s (%s): handlers %v ran, %d should", m.tx, m.o, ran[m.tx], reach(m))
				}
			}
			// every worker still works: this many must be answered at once
			got := []map[string][]string{{}, {}}
			collect := func(i int, until func() bool, wait time.Duration) {
				end := time.Now().Add(wait)
				for !until() && time.Now().Before(end) {
					left := time.Until(end)
					if left > 50*time.Millisecond {
						left = 50 * time.Millisecond
					}
					d, ok := socks[i].Recv(left)
					if !ok {
						continue
					}
					v, verdict := ref.ParseAll([]byte(d.Data))
					m, isDict := v.(ref.Dict)
					tx, _ := m["t"].(string)
					if verdict == ref.Bad || !isDict || tx == "" {
						rt.Fatalf("sent %q, which is no KRPC message", d.Data)
					}
					got[i][tx] = append(got[i][tx], d.Data)
				}
			}
			mu.Lock()
			for k := 0; k < workers; k++ {
				outcomes[fmt.Sprintf("end%d.%d", serial, k)] = outcome{way: replies, at: -1}
			}
			mu.Unlock()
			for k := 0; k < workers; k++ {
				socks[0].Send(addr, string(ref.Encode(ref.Dict{"t": fmt.Sprintf("end%d.%d", serial, k), "y": "q", "q": "ping", "a": ref.Dict{"id": nid}})))
			}
			all := func() bool {
				for k := 0; k < workers; k++ {
					if len(got[0][fmt.Sprintf("end%d.%d", serial, k)]) == 0 {
						return false
					}
				}
				for _, m := range msgs {
					if m.query && (m.o.way == replies || m.o.way == raises || m.o.way == raisesCause) && m.from == 0 && len(got[0][m.tx]) == 0 {
						return false
					}
				}
				return true
			}
			collect(0, all, patience)
			all1 := func() bool {
				for _, m := range msgs {
					if m.query && (m.o.way == replies || m.o.way == raises || m.o.way == raisesCause) && m.from == 1 && len(got[1][m.tx]) == 0 {
						return false
					}
				}
				return true
			}
			collect(1, all1, patience)
			if (!all() || !all1()) && lost() {
				rt.Skip("the kernel dropped datagrams")
			}
			if !all() {
				for k := 0; k < workers; k++ {
					if len(got[0][fmt.Sprintf("end%d.%d", serial, k)]) == 0 {
						rt.Fatalf("%d queries afterwards were not all answered", workers)
					}
				}
			}
			collect(0, func() bool { return false }, 5*time.Millisecond)
			collect(1, func() bool { return false }, 5*time.Millisecond)
			for _, m := range msgs {
				mu.Lock()
				handlers := ran[m.tx]
				mu.Unlock()
				for i, k := range handlers {
					if i != k {
						rt.Fatalf("message %s (%s): handlers %v ran", m.tx, m.o, handlers)
					}
				}
				if len(handlers) != reach(m) {
					rt.Fatalf("message %s (%s): handlers %v ran, %d should", m.tx, m.o, handlers, reach(m))
				}
				sent := got[m.from][m.tx]
				if len(got[1-m.from][m.tx]) > 0 {
					rt.Fatalf("message %s was answered to another address: %q", m.tx, got[1-m.from][m.tx])
				}
				switch {
				case !m.query:
					if len(sent) > 0 {
						rt.Fatalf("a response (%s) was answered with %q", m.o, sent)
					}
				case m.o.way == replies:
					want := ref.Dict{"t": m.tx, "y": "r", "r": ref.Dict{"id": nid, "by": m.tx}}
					if len(sent) != 1 {
						rt.Fatalf("a query (%s) was answered with %q", m.o, sent)
					}
					v, _ := ref.ParseAll([]byte(sent[0]))
					early := ref.Dict{"t": m.tx, "y": "r", "r": ref.Dict{"id": nid, "by": "early"}}
					if m.o.first {
						want = early // every handler writes it, the last one as well
					}
					if !ref.Equal(v, want) {
						rt.Fatalf("a query (%s) was answered with %q", m.o, sent)
					}
				case m.o.way == raises || m.o.way == raisesCause:
					if len(sent) != 1 {
						rt.Fatalf("a query (%s) was answered with %q, want one error message", m.o, sent)
					}
					v, _ := ref.ParseAll([]byte(sent[0]))
					d, _ := v.(ref.Dict)
					e, _ := d["e"].(ref.List)
					if d["y"] != "e" || len(e) != 2 || e[0] != 203 {
						rt.Fatalf("a query (%s) was answered with %q, want an error message of code 203", m.o, sent)
					}
					txt, _ := e[1].(string)
					if txt == "" || !strings.Contains(txt, m.o.text) {
						rt.Fatalf("a query (%s) was answered with %q, which lacks the error's text", m.o, sent)
					}
					for _, leak := range []string{"goroutine", ".go:", "runtime."} {
						if strings.Contains(txt, leak) {
							rt.Fatalf("a query (%s) was answered with internals: %q", m.o, sent)
						}
					}
				default:
					for _, s := range sent { // an error message would be fine, too
						v, _ := ref.ParseAll([]byte(s))
						if d, _ := v.(ref.Dict); d["y"] != "e" || len(sent) > 1 {
							rt.Fatalf("a query (%s) was answered with %q", m.o, sent)
						}
					}
				}
			}
			for i := range got {
				for tx, sent := range got[i] {
					if _, known := outcomes[tx]; !known {
						rt.Fatalf("a message nobody caused: %q", sent)
					}
				}
			}
		})
}
