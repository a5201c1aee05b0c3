package krpct

import (
	"fmt"
	"net"
	"runtime"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/GalaIO/P2Pcrawler/dht/krpc"
	"pgregory.net/rapid"
	"verif/harness/h"
	"verif/harness/netx"
)

func genPayload() *rapid.Generator[string] {
	return rapid.Custom(func(rt *rapid.T) string {
		n := rapid.OneOf(rapid.IntRange(0, 40), rapid.IntRange(0, 1024), rapid.SampledFrom([]int{0, 1, 99, 100, 101, 1023, 1024})).Draw(rt, "len")
		seed := rapid.SliceOfN(rapid.Byte(), 4, 4).Draw(rt, "seed")
		b := make([]byte, n)
		x := uint32(seed[0])<<24 | uint32(seed[1])<<16 | uint32(seed[2])<<8 | uint32(seed[3])
		for i := range b {
			x = x*1664525 + 1013904223
			b[i] = byte(x >> 24)
		}
		return string(b)
	})
}

func short(s string) string {
	if len(s) > 24 {
		return fmt.Sprintf("%x... (%d bytes)", s[:24], len(s))
	}
	return fmt.Sprintf("%x", s)
}

func startUdp(host string) (*krpc.UdpServer, *net.UDPAddr) {
	s := krpc.StartUdpServer(host + ":0")
	a := probePort(func(to *net.UDPAddr) error { return s.SendPacket([]byte("probe"), to) })
	if a == nil {
		h.Infra("cannot find the port of the server")
	}
	return s, a
}

// multiset difference in words, "" when equal
func diff(got, want []string) string {
	g := append([]string(nil), got...)
	w := append([]string(nil), want...)
	sort.Strings(g)
	sort.Strings(w)
	i, j := 0, 0
	for i < len(g) || j < len(w) {
		switch {
		case i == len(g) || (j < len(w) && w[j] < g[i]):
			return "missing " + w[j]
		case j == len(w) || g[i] < w[j]:
			return "unexpected " + g[i]
		}
		i++
		j++
	}
	return ""
}

func TestC29(t *testing.T) {
	h.Silence(t)
	dualStack := netx.DualStack()
	localhost := false
	if a, err := net.ResolveUDPAddr("udp", "localhost:1"); err == nil {
		localhost = a.IP.Equal(net.IPv4(127, 0, 0, 1))
	}
	h.Check(t, "deliver", "up to 60 datagrams of 0 to 1024 bytes, or up to 180 short ones, in a drawn interleaving from up to 4 IPv4 and IPv6 sockets to a server on one or all addresses, all kept by the receiver and compared at the end, twice over; then datagrams sent by the server to those sockets; then close, after which no goroutine of the server is left; non-trivial: at least 10 datagrams of at least 3 different lengths", 450, 5000,
		func(rt *rapid.T, c *h.Case) {
			ns := rapid.IntRange(1, 4).Draw(rt, "sockets")
			dual := dualStack && rapid.Bool().Draw(rt, "all addresses")
			var socks []*netx.Sock
			for i := 0; i < ns; i++ {
				ip := fmt.Sprintf("127.0.0.%d", 1+rapid.IntRange(0, 2).Draw(rt, "ip"))
				if dual && rapid.IntRange(0, 2).Draw(rt, "v6") == 0 {
					ip = "::1"
				}
				s := netx.MustOpen(ip)
				defer s.Close()
				socks = append(socks, s)
			}
			type msg struct {
				from int
				data string
			}
			rounds := rapid.IntRange(1, 3).Draw(rt, "rounds")
			var batches [][]msg
			lens := map[int]bool{}
			total := 0
			for r := 0; r < rounds; r++ {
				n := rapid.OneOf(rapid.IntRange(0, 60), rapid.IntRange(0, 60), rapid.IntRange(90, 180)).Draw(rt, "n")
				var b []msg
				for i := 0; i < n; i++ {
					m := msg{rapid.IntRange(0, ns-1).Draw(rt, "from"), ""}
					if n < 90 {
						m.data = genPayload().Draw(rt, "data")
					} else { // more than is read at once; short, so that the kernel has room
						m.data = fmt.Sprintf("%d.%d %x", r, i, rapid.Byte().Draw(rt, "data"))
					}
					lens[len(m.data)] = true
					b = append(b, m)
					total++
				}
				batches = append(batches, b)
			}
			c.Input("%d sockets, batches %v", ns, fmt.Sprintf("%x", batches))
			c.NonTrivial(total >= 10 && len(lens) >= 3)

			before := runtime.NumGoroutine()
			server, addr := startUdp(map[bool]string{false: "127.0.0.1", true: ""}[dual])
			defer server.Close()
			ports := []int{addr.Port}
			for _, s := range socks {
				ports = append(ports, s.Addr.Port)
			}
			drops := netx.Drops(ports...)
			var kept []*krpc.RecvPacket
			var want []string
			name := func(a *net.UDPAddr, data string) string { return fmt.Sprintf("%v %x", a, data) }
			for _, b := range batches {
				for _, m := range b {
					socks[m.from].Send(addr, m.data)
					want = append(want, name(socks[m.from].Addr, m.data))
				}
				end := time.After(h.Patience(patience))
				for len(kept) < len(want) {
					select {
					case p := <-server.RecvChan():
						kept = append(kept, p)
					case <-end:
						if netx.Drops(ports...) != drops {
							rt.Skip("the kernel dropped datagrams")
						}
						rt.Fatalf("%d of %d datagrams were delivered", len(kept), len(want))
					}
				}
			}
			var got []string
			for _, p := range kept {
				got = append(got, name(p.Addr, string(p.Bytes)))
			}
			if d := diff(got, want); d != "" {
				rt.Fatalf("delivered datagrams differ from the sent ones: %s", d)
			}
			select {
			case p := <-server.RecvChan():
				rt.Fatalf("a datagram nobody sent was delivered: %s", name(p.Addr, string(p.Bytes)))
			case <-time.After(time.Millisecond):
			}
			// sending
			for _, s := range socks {
				s.Reset()
			}
			sent := make([][]string, ns)
			k := rapid.IntRange(0, 20).Draw(rt, "sends")
			for i := 0; i < k; i++ {
				to, data := rapid.IntRange(0, ns-1).Draw(rt, "to"), genPayload().Draw(rt, "data")
				if rapid.IntRange(0, 5).Draw(rt, "big") == 0 { // a response may be larger than what is taken
					n := rapid.OneOf(rapid.IntRange(1024, 2000), rapid.IntRange(1024, 30000)).Draw(rt, "size")
					data = strings.Repeat(data+"#", n/(len(data)+1)+1)[:n]
				}
				keep := []byte(data)
				var err error
				if rapid.Bool().Draw(rt, "byHost") {
					host := socks[to].Addr.String()
					if localhost && socks[to].Addr.IP.Equal(net.IPv4(127, 0, 0, 1)) && rapid.Bool().Draw(rt, "byName") {
						host = fmt.Sprint("localhost:", socks[to].Addr.Port)
					}
					err = server.SendPacketToHost(keep, host)
				} else {
					err = server.SendPacket(keep, socks[to].Addr)
				}
				if err != nil {
					rt.Fatalf("sending %d bytes to %v: %v", len(data), socks[to].Addr, err)
				}
				for j := range keep {
					keep[j] = '#' // the sender may reuse its buffer
				}
				from := addr
				if socks[to].V6() {
					from = &net.UDPAddr{IP: net.IPv6loopback, Port: addr.Port}
				}
				sent[to] = append(sent[to], name(from, data))
			}
			for i, s := range socks {
				var got []string
				if !h.Eventually(patience, func() bool { return len(s.All()) >= len(sent[i]) }) {
					if netx.Drops(ports...) != drops {
						rt.Skip("the kernel dropped datagrams")
					}
				}
				for _, d := range s.All() {
					got = append(got, name(d.From, d.Data))
				}
				if d := diff(got, sent[i]); d != "" {
					rt.Fatalf("datagrams arriving at %v differ from the sent ones: %s", s.Addr, d)
				}
			}
			// closing
			closers := rapid.IntRange(1, 3).Draw(rt, "closers")
			var wg sync.WaitGroup
			bad := make(chan interface{}, closers)
			for i := 0; i < closers; i++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					if p, panicked := h.Panics(func() { server.Close() }); panicked {
						bad <- p
					}
				}()
			}
			if !h.Within(patience, wg.Wait) {
				rt.Fatalf("closing blocked")
			}
			if p, panicked := h.Panics(func() { server.Close() }); panicked {
				rt.Fatalf("closing again panicked: %v", p)
			}
			select {
			case p := <-bad:
				rt.Fatalf("closing panicked: %v", p)
			default:
			}
			for _, s := range socks {
				s.Reset()
			}
			if server.SendPacket([]byte("late"), socks[0].Addr) == nil {
				rt.Fatalf("SendPacket on a closed server reports no error")
			}
			if server.SendPacketToHost([]byte("late"), socks[0].Addr.String()) == nil {
				rt.Fatalf("SendPacketToHost on a closed server reports no error")
			}
			for _, s := range socks {
				if !s.V6() {
					s.Conn.WriteToUDP([]byte("after close"), addr)
				}
			}
			var again net.PacketConn
			if !h.Eventually(patience, func() bool {
				var err error
				if dual {
					again, err = net.ListenUDP("udp", &net.UDPAddr{Port: addr.Port})
				} else {
					again, err = net.ListenUDP("udp4", addr)
				}
				if err != nil && !strings.Contains(err.Error(), "in use") {
					h.Infra("bind: %v", err)
				}
				return err == nil
			}) {
				rt.Fatalf("the port of a closed server cannot be bound again")
			}
			again.Close()
			select {
			case p, ok := <-server.RecvChan():
				if ok {
					rt.Fatalf("delivered after closing: %s", name(p.Addr, string(p.Bytes)))
				}
			case <-time.After(time.Millisecond):
			}
			for _, s := range socks {
				s.Close()
			}
			if !h.Eventually(patience, func() bool { return runtime.NumGoroutine() <= before-ns }) {
				rt.Fatalf("the closed server still has goroutines: %d, before it started %d", runtime.NumGoroutine()+ns, before)
			}
			if a := socks[0].All(); len(a) > 0 {
				rt.Fatalf("sent after closing: %s", short(a[0].Data))
			}
		})
}
