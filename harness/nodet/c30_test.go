package nodet

import (
	"fmt"
	"net"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
	"verif/harness/h"
	"verif/harness/netx"
	"verif/harness/node"
	"verif/harness/peer"
	"verif/harness/ref"
)

// the shutdown time is 5 s; the rest is for a loaded machine.
const shutdownBound = 20 * time.Second

func TestC30(t *testing.T) {
	h.Check(t, "signal", "a crawler with drawn pool and queue sizes, bootstrap nodes, a flood of queries, up to 100 announcements per peer that stalls, and responses; SIGINT or SIGTERM, once or up to 300 times in a row, after a drawn time; non-trivial: there was traffic", 300, 6000,
		func(rt *rapid.T, c *h.Case) {
			var hosts []string
			boot := netx.MustOpen("127.0.0.1")
			defer boot.Close()
			if rapid.Bool().Draw(rt, "bootstrap") {
				hosts = append(hosts, boot.Addr.String())
			}
			o := node.Opts{Bootstrap: hosts, WorkPool: rapid.SampledFrom([]int{1, 2, 8, 50}).Draw(rt, "workers"), FetchPool: rapid.SampledFrom([]int{1, 2, 10}).Draw(rt, "fetchers"), Queue: rapid.SampledFrom([]int{1, 5, 1000}).Draw(rt, "queue"), Flag: rapid.Bool().Draw(rt, "flag")}
			flood := rapid.IntRange(0, 3).Draw(rt, "flooders")
			stalled := rapid.IntRange(0, 3).Draw(rt, "stalled peers")
			announced := rapid.OneOf(rapid.IntRange(1, 5), rapid.IntRange(20, 100)).Draw(rt, "announcements")
			delay := time.Duration(rapid.OneOf(rapid.Just(0), rapid.IntRange(0, 20000), rapid.IntRange(0, 200000)).Draw(rt, "delay µs")) * time.Microsecond
			sig := rapid.SampledFrom([]syscall.Signal{syscall.SIGINT, syscall.SIGTERM}).Draw(rt, "signal")
			times := rapid.SampledFrom([]int{1, 1, 2, 5, 300}).Draw(rt, "times")
			gap := time.Duration(rapid.OneOf(rapid.Just(0), rapid.IntRange(0, 300), rapid.IntRange(0, 3000)).Draw(rt, "gap µs")) * time.Microsecond
			c.Input("%+v, %d flooders, %d stalled peers announcing %d times, %v after %v, %d times, %v apart", o, flood, stalled, announced, sig, delay, times, gap)
			c.NonTrivial(flood+stalled > 0)
			n, err := node.Start(o)
			if node.PortTaken(err) {
				rt.Skip("port taken")
			}
			if err != nil {
				rt.Fatalf("%v", err)
			}
			defer n.Kill()
			stop := make(chan bool)
			var wg sync.WaitGroup
			for i := 0; i < stalled; i++ {
				p := peer.MustListen("127.0.0.1", func(pc *peer.Conn) { pc.ReadHandShake(); <-stop })
				defer p.Close()
				for j := 0; j < announced; j++ {
					boot.Send(n.Addr, string(ref.Encode(ref.Dict{"t": "st", "y": "q", "q": "announce_peer", "a": ref.Dict{"id": "abcdefghij0123456789", "info_hash": fmt.Sprintf("%014d%d%05d", 0, i, j), "port": p.Addr.Port, "token": "t"}})))
				}
			}
			for i := 0; i < flood; i++ {
				s := netx.MustOpen("127.0.0.1")
				defer s.Close()
				wg.Add(1)
				go func() {
					defer wg.Done()
					for k := 0; ; k++ {
						select {
						case <-stop:
							return
						default:
						}
						q := methods[k%4]
						s.Conn.WriteToUDP(ref.Encode(ref.Dict{"t": "fl", "y": "q", "q": q, "a": ref.Dict{"id": "abcdefghij0123456789", "target": "abcdefghij0123456789", "info_hash": "abcdefghij0123456789", "port": 1, "token": "t"}}), n.Addr)
						if k%50 == 49 {
							time.Sleep(time.Millisecond)
						}
					}
				}()
			}
			time.Sleep(delay)
			alive := n.Alive()
			for i := 0; i < times && (i == 0 || n.Alive()); i++ {
				n.Signal(sig)
				time.Sleep(gap)
			}
			code, ended := n.Wait(shutdownBound)
			close(stop)
			wg.Wait()
			switch {
			case !alive:
				rt.Fatalf("the crawler ended before the signal: %s", n.Stderr())
			case !ended:
				rt.Fatalf("the crawler runs %v after the signal", shutdownBound)
			case code != 0 || strings.Contains(n.Stderr(), "goroutine "):
				rt.Fatalf("the crawler ended with status %d: %s", code, n.Stderr())
			}
			if !h.Eventually(patience, func() bool {
				l, err := net.ListenUDP("udp", &net.UDPAddr{Port: n.Port})
				if err == nil {
					l.Close()
				}
				return err == nil
			}) {
				rt.Fatalf("port %d is still taken", n.Port)
			}
		})
	h.Check(t, "early", "a crawler with 1 to 40 bootstrap nodes; SIGINT or SIGTERM, once or up to 300 times in a row, as soon as one of them, drawn, hears from it, which is before it serves; non-trivial: not the last one", 60, 2000,
		func(rt *rapid.T, c *h.Case) {
			k := rapid.SampledFrom([]int{1, 2, 5, 40}).Draw(rt, "bootstrap nodes")
			which := rapid.IntRange(0, k-1).Draw(rt, "which")
			sig := rapid.SampledFrom([]syscall.Signal{syscall.SIGINT, syscall.SIGTERM}).Draw(rt, "signal")
			times := rapid.SampledFrom([]int{1, 1, 2, 5, 300}).Draw(rt, "times")
			gap := time.Duration(rapid.OneOf(rapid.Just(0), rapid.IntRange(0, 300), rapid.IntRange(0, 3000)).Draw(rt, "gap µs")) * time.Microsecond
			flag := rapid.Bool().Draw(rt, "flag")
			c.Input("%v %d times %v apart at query %d of %d, --config %v", sig, times, gap, which, k, flag)
			c.NonTrivial(which < k-1)
			var socks []*netx.Sock
			var hosts []string
			for i := 0; i < k; i++ {
				s := netx.MustOpen("127.0.0.1")
				defer s.Close()
				socks = append(socks, s)
				hosts = append(hosts, s.Addr.String())
			}
			n := node.Launch(node.Opts{Bootstrap: hosts, Flag: flag}, netx.FreeUDPPort())
			defer n.Kill()
			_, heard := socks[which].Recv(patience)
			if !heard && strings.Contains(n.Stderr(), "address already in use") {
				rt.Skip("port taken")
			}
			if !heard {
				rt.Fatalf("a bootstrap node hears nothing; %s", n.Stderr())
			}
			for i := 0; i < times && (i == 0 || n.Alive()); i++ {
				n.Signal(sig)
				time.Sleep(gap)
			}
			code, ended := n.Wait(shutdownBound)
			switch {
			case !ended:
				rt.Fatalf("the crawler runs %v after the signal", shutdownBound)
			case code != 0 || strings.Contains(n.Stderr(), "goroutine "):
				rt.Fatalf("the crawler ended with status %d: %s", code, n.Stderr())
			}
		})
}
