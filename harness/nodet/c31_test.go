package nodet

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"net"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/GalaIO/P2Pcrawler/dht/krpc"
	"github.com/GalaIO/P2Pcrawler/dht/peerwire"
	"github.com/GalaIO/P2Pcrawler/misc"
	"pgregory.net/rapid"
	"verif/harness/h"
	"verif/harness/netx"
	"verif/harness/node"
	"verif/harness/peer"
	"verif/harness/ref"
)

// stacksWith counts the goroutines of this process with text in their stack,
// and returns one of them.
func stacksWith(text string) (int, string) {
	b := make([]byte, 1<<20)
	for {
		n := runtime.Stack(b, true)
		if n < len(b) {
			b = b[:n]
			break
		}
		b = make([]byte, 2*len(b))
	}
	k, one := 0, ""
	for _, g := range strings.Split(string(b), "\n\n") {
		if strings.Contains(g, text) {
			k++
			one = g
		}
	}
	return k, one
}

func announceMsg(hash string, port int) string {
	return string(ref.Encode(ref.Dict{"t": "an", "y": "q", "q": "announce_peer", "a": ref.Dict{"id": "abcdefghij0123456789", "info_hash": hash, "port": port, "token": "t"}}))
}

func getPeersMsg(tx, hash string) string {
	return string(ref.Encode(ref.Dict{"t": tx, "y": "q", "q": "get_peers", "a": ref.Dict{"id": "abcdefghij0123456789", "info_hash": hash}}))
}

// stops waiting for fetches of hostile peers, the longest of which takes some
// 14 s by the crawler's own limits.
const settle = 60 * time.Second

func TestC31(t *testing.T) {
	h.Silence(t)
	h.Check(t, "crawler", "a crawler (its garbage collector off, so that nothing is closed by accident) with 4 to 40 fetch workers; up to 40 announcements by honest, hostile, silent, absent and refusing peers, with up to 30 junk datagrams in between; afterwards the process has as many descriptors open as before; non-trivial: at least 5 peers were contacted", 6, 300,
		func(rt *rapid.T, c *h.Case) {
			fetchers := rapid.IntRange(4, 40).Draw(rt, "fetchers")
			var scripts []*peer.Script
			var honest [][]byte
			text := ""
			for i := rapid.IntRange(4, 20).Draw(rt, "hostile"); i > 0; i-- {
				s := peer.GenScript(rt)
				scripts = append(scripts, s)
				text += "(" + s.Text + ") "
			}
			for i := rapid.IntRange(1, 10).Draw(rt, "honest"); i > 0; i-- {
				honest = append(honest, peer.Meta(rapid.OneOf(rapid.IntRange(1, 300), rapid.IntRange(16384, 90000)).Draw(rt, "size"), rapid.Byte().Draw(rt, "content")))
			}
			absent := rapid.IntRange(0, 10).Draw(rt, "absent")
			var junk []string
			for i := rapid.IntRange(0, 30).Draw(rt, "junk"); i > 0; i-- {
				junk = append(junk, genJunk(rt, "no"))
			}
			c.Input("%d fetchers, %d honest, %d absent, %d junk datagrams, hostile: %s", fetchers, len(honest), absent, len(junk), text)
			n, err := node.Start(node.Opts{FetchPool: fetchers, Env: []string{"GOGC=off", "GOMEMLIMIT=3GiB"}})
			if err != nil {
				rt.Fatalf("%v", err)
			}
			defer n.Kill()
			sock := netx.MustOpen("127.0.0.1")
			defer sock.Close()
			stored := func(m []byte) bool {
				b, err := os.ReadFile(filepath.Join(n.Dir, "torrent", hex.EncodeToString([]byte(peer.Hash(m)))+".torrent"))
				return err == nil && bytes.Equal(b, m)
			}
			serve := func(script func(*peer.Conn)) *peer.Server { return peer.MustListen("127.0.0.1", script) }
			plan := func(m []byte) func(*peer.Conn) {
				return peer.Plan{Meta: m, ExtId: 3, Reserved: [8]byte{5: 0x10}}.Script(func(string) {})
			}
			// one fetch and one logged hash, to open what is opened once
			warm := []byte("warm-up")
			w := serve(plan(warm))
			defer w.Close()
			for try := 0; !h.Eventually(3*time.Second, func() bool { return stored(warm) }); try++ {
				if try == 5 {
					rt.Fatalf("the first torrent is not stored; %s", n.Stderr())
				}
				sock.Send(n.Addr, announceMsg(peer.Hash(warm), w.Addr.Port))
			}
			before, same := n.FDs(), 0
			h.Eventually(5*time.Second, func() bool {
				time.Sleep(20 * time.Millisecond)
				if f := n.FDs(); f != before {
					before, same = f, 0
				}
				same++
				return same > 15
			})
			var servers []*peer.Server
			var msgs []string
			for _, s := range scripts {
				srv := serve(s.Run)
				defer srv.Close()
				servers = append(servers, srv)
				msgs = append(msgs, announceMsg(s.Hash, srv.Addr.Port))
			}
			for _, m := range honest {
				srv := serve(plan(m))
				defer srv.Close()
				servers = append(servers, srv)
				msgs = append(msgs, announceMsg(peer.Hash(m), srv.Addr.Port))
			}
			for i := 0; i < absent; i++ {
				msgs = append(msgs, announceMsg(fmt.Sprintf("%020d", i), 1+i%9))
			}
			msgs = append(msgs, junk...)
			msgs = rapid.Permutation(msgs).Draw(rt, "order")
			for i, m := range msgs {
				sock.Send(n.Addr, m)
				if i%10 == 9 {
					time.Sleep(time.Millisecond)
				}
			}
			contacted := 0
			h.Eventually(20*time.Second, func() bool {
				contacted = 0
				for _, s := range servers {
					if s.Accepted() > 0 {
						contacted++
					}
				}
				return contacted == len(servers)
			})
			c.NonTrivial(contacted >= 5)
			if !h.Eventually(settle, func() bool { return n.FDs() <= before }) {
				rt.Fatalf("the crawler has %d descriptors open long after its fetches, before them it had %d", n.FDs(), before)
			}
			if err := n.Ready(patience); err != nil {
				rt.Fatalf("afterwards: %v", err)
			}
		})
	h.Check(t, "fetches", "20 to 80 fetches at the same time from hostile peers; when all have returned, no goroutine of the fetcher is left and every peer's connection is closed; all non-trivial", 10, 400,
		func(rt *rapid.T, c *h.Case) {
			var wg sync.WaitGroup
			text := ""
			var servers []*peer.Server
			for i := rapid.IntRange(20, 80).Draw(rt, "n"); i > 0; i-- {
				s := peer.GenScript(rt)
				text += "(" + s.Text + ") "
				closed := make(chan bool, 16)
				srv := peer.MustListen("127.0.0.1", func(pc *peer.Conn) {
					s.Run(pc)
					closed <- true
				})
				defer srv.Close()
				servers = append(servers, srv)
				wg.Add(1)
				go func() {
					defer wg.Done()
					h.Panics(func() { peerwire.FetchMetaData(srv.Addr.String(), peerwire.LocalPeerId, []byte(s.Hash)) })
				}()
			}
			c.Input("%s", text)
			c.NonTrivial(true)
			if !h.Within(100*time.Second, wg.Wait) {
				rt.Fatalf("a fetch did not end within 100 s: %s", text)
			}
			const mark = "P2Pcrawler/dht/peerwire"
			if !h.Eventually(settle, func() bool { n, _ := stacksWith(mark); return n == 0 }) {
				n, one := stacksWith(mark)
				rt.Fatalf("%d goroutines of the fetcher are left, one is %s", n, one)
			}
		})
	h.Check(t, "rpc", "an RPC server that gets 20 to 120 valid, broken, unknown and undecodable datagrams and responses, some handled slowly, sends queries that are and are not answered; afterwards it has as many goroutines as before; non-trivial: at least 30 datagrams", 40, 1500,
		func(rt *rapid.T, c *h.Case) {
			var msgs []string
			for i := rapid.IntRange(20, 120).Draw(rt, "datagrams"); i > 0; i-- {
				if rapid.Bool().Draw(rt, "junk") {
					msgs = append(msgs, genJunk(rt, "no"))
				} else {
					msgs = append(msgs, genQuery(rt, methods).data)
				}
			}
			asked := rapid.IntRange(0, 10).Draw(rt, "queries")
			// the first handlers take that long
			pause := time.Duration(rapid.SampledFrom([]int{0, 0, 30, 300, 1200}).Draw(rt, "pause")) * time.Millisecond
			c.Input("%d datagrams, the first handlers take %v, %d queries: %q", len(msgs), pause, asked, msgs)
			c.NonTrivial(len(msgs) >= 30)
			s := krpc.NewRpcServer("127.0.0.1:0")
			sock := netx.MustOpen("127.0.0.1")
			defer sock.Close()
			if err := s.Query(sock.Addr, krpc.NewBaseRequest("pr", "ping", misc.Dict{"id": "x"}, func(*krpc.RpcContext) {})); err != nil {
				rt.Fatalf("%v", err)
			}
			d, ok := sock.Recv(patience)
			if !ok {
				rt.Fatalf("a query was not sent")
			}
			addr := d.From
			defer s.Close()
			var slow, warm atomic.Int32
			for _, m := range methods[:3] {
				s.RegisteHandler(m, func(ctx *krpc.RpcContext) {
					if warm.Load() > 0 {
						time.Sleep(20 * time.Millisecond)
					} else if slow.Add(-1) >= 0 {
						time.Sleep(pause)
					}
					ctx.WriteAs(krpc.WithResponse(ctx.Request().TxId(), misc.Dict{"id": "abcdefghij0123456789"}))
				})
			}
			go s.Listen()
			ping := func(tx string) {
				sock.Reset()
				sock.Send(addr, node.PingMsg(tx))
				if !h.Eventually(patience, func() bool {
					for _, d := range sock.All() {
						if m, err := reply(d); err == nil && m["t"] == tx {
							return true
						}
					}
					return false
				}) {
					rt.Fatalf("the server does not answer")
				}
			}
			const mark = "P2Pcrawler/"
			// all workers are busy once
			warm.Store(1)
			for i := 0; i < 30; i++ {
				sock.Send(addr, node.PingMsg("\x00all"))
			}
			ping("\x00warm")
			warm.Store(0)
			slow.Store(10)
			before, _ := stacksWith(mark)
			for i, m := range msgs {
				sock.Send(addr, m)
				if i%20 == 19 {
					time.Sleep(time.Millisecond)
				}
			}
			for i := 0; i < asked; i++ {
				tx := fmt.Sprintf("q%d", i)
				if err := s.Query(sock.Addr, krpc.NewBaseRequest(tx, "ping", misc.Dict{"id": "x"}, func(*krpc.RpcContext) {})); err != nil {
					rt.Fatalf("%v", err)
				}
				if i%2 == 0 {
					sock.Send(addr, string(ref.Encode(ref.Dict{"t": tx, "y": "r", "r": ref.Dict{"id": "x"}})))
				}
			}
			// nobody is at this address, sending to it must not hang on to anything either
			s.Query(&net.UDPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 1}, krpc.NewBaseRequest("no", "ping", misc.Dict{"id": "x"}, func(*krpc.RpcContext) {}))
			time.Sleep(time.Millisecond)
			ping("\x00done")
			if !h.Eventually(settle, func() bool { n, _ := stacksWith(mark); return n <= before }) {
				n, one := stacksWith(mark)
				rt.Fatalf("%d goroutines where %d were before, one is %s", n, before, one)
			}
		})
}
