package shimt

import (
	"fmt"
	"net"
	"sort"
	"strconv"
	"strings"
	"testing"
	"time"

	"github.com/GalaIO/P2Pcrawler/dht"
	"github.com/GalaIO/P2Pcrawler/dht/krpc"
	"github.com/GalaIO/P2Pcrawler/misc"
	"pgregory.net/rapid"
	"verif/harness/h"
	"verif/harness/netx"
	"verif/harness/node"
	"verif/harness/peer"
	"verif/harness/ref"
)

func TestC16(t *testing.T) {
	h.Silence(t)
	h.Check(t, "address", "the address derived from announce_peer contexts with drawn IPv4 (4 and 16 bytes) and IPv6 sources, ports (also 0, negative and beyond 65535, for which no port may be dialled) and implied_port values, compared with the host and port BEP 5 means; non-trivial: IPv6 or implied_port present", 20000, 200000,
		func(rt *rapid.T, c *h.Case) {
			src := &net.UDPAddr{Port: rapid.IntRange(1, 65535).Draw(rt, "source port")}
			switch rapid.IntRange(0, 3).Draw(rt, "family") {
			case 0:
				src.IP = net.IP(rapid.SliceOfN(rapid.Byte(), 4, 4).Draw(rt, "ip"))
			case 1:
				src.IP = net.IP(rapid.SliceOfN(rapid.Byte(), 4, 4).Draw(rt, "ip")).To16()
			case 2:
				src.IP = net.IP(rapid.SliceOfN(rapid.Byte(), 16, 16).Draw(rt, "ip"))
			case 3:
				src.IP = net.ParseIP(rapid.SampledFrom([]string{"::1", "fe80::1", "2001:db8::", "::ffff:1.2.3.4", "64:ff9b::1", "2001:db8:0:1:1:1:1:1", "::"}).Draw(rt, "ip"))
				if src.IP[0] == 0xfe {
					src.Zone = rapid.SampledFrom([]string{"", "eth0", "2"}).Draw(rt, "zone")
				}
			}
			port := rapid.OneOf(rapid.IntRange(1, 65535), rapid.SampledFrom([]int{1, 80, 255, 256, 65535}), rapid.SampledFrom([]int{0, -1, -80, 65536, 65536 + 80, 1 << 31, 1<<32 + 6881}), rapid.IntRange(-1<<40, 1<<40)).Draw(rt, "port")
			body := misc.Dict{"id": "abcdefghij0123456789", "info_hash": "mnopqrstuvwxyz123456", "port": port, "token": "t"}
			implied, has := 0, rapid.Bool().Draw(rt, "implied")
			if has {
				implied = rapid.OneOf(rapid.IntRange(-2, 3), rapid.Int()).Draw(rt, "implied_port")
				body["implied_port"] = implied
			}
			c.Input("source %v, port %d, implied_port %v %d", src, port, has, implied)
			c.NonTrivial(has || src.IP.To4() == nil)
			c.Label("port no TCP port", port < 1 || port > 65535)
			got := dht.VerifParseFetchAddr(krpc.NewReqContext(nil, krpc.NewBaseRequest("aa", "announce_peer", body, nil), nil, src))
			want := port
			if implied > 0 {
				want = src.Port
			}
			host, p, err := net.SplitHostPort(got)
			if want < 1 || want > 65535 {
				// nothing can be dialled; no other port may take its place
				if k, e := strconv.Atoi(p); err == nil && e == nil && k >= 1 && k <= 65535 {
					rt.Fatalf("the address for port %d is %q", want, got)
				}
				return
			}
			if err != nil {
				rt.Fatalf("%q is no address to dial: %v", got, err)
			}
			zone := ""
			if i := strings.IndexByte(host, '%'); i >= 0 {
				host, zone = host[:i], host[i+1:]
			}
			if ip := net.ParseIP(host); ip == nil || !ip.Equal(src.IP) || zone != src.Zone || p != fmt.Sprint(want) {
				rt.Fatalf("the address is %q, want host %v zone %q port %d", got, src.IP, src.Zone, want)
			}
		})
	n := start(t, node.Opts{FetchPool: 20})
	defer n.Kill()
	// every announcer has its UDP socket, a TCP listener at the same port and two at others
	type site struct {
		udp   *netx.Sock
		peers []*peer.Server
	}
	var sites []site
	for _, ip := range []string{"127.0.0.1", "127.0.0.2", "127.0.0.3", "127.1.2.3"} {
		for try := 0; ; try++ {
			u := netx.MustOpen(ip)
			s, err := peer.Listen(ip, u.Addr.Port, nil)
			if err != nil {
				u.Close()
				if try > 50 {
					h.Infra("%v", err)
				}
				continue
			}
			sites = append(sites, site{u, []*peer.Server{s, peer.MustListen(ip, nil), peer.MustListen(ip, nil)}})
			break
		}
	}
	all := func() map[string]int {
		m := map[string]int{}
		for i, s := range sites {
			for j, p := range s.peers {
				for _, r := range p.Requests() {
					m[fmt.Sprintf("peer %d.%d asked for %x", i, j, r.InfoHash())]++
				}
			}
		}
		return m
	}
	h.Check(t, "dialled", "1 to 15 announce_peer queries at once from 4 loopback addresses for drawn info hashes, ports of 3 listeners per address (some made invalid: 0, negated, shifted by 65536) and implied_port values; the listener meant, and no other, gets one connection that asks for that info hash; non-trivial: at least 3 announcements, one with implied_port", 1000, 10000,
		func(rt *rapid.T, c *h.Case) {
			want := all() // connections so far
			k := rapid.IntRange(1, 15).Draw(rt, "announcements")
			implied := 0
			text := ""
			send := func(i, s int, a ref.Dict) {
				sites[s].udp.Send(n.Addr, string(ref.Encode(ref.Dict{"t": fmt.Sprint(i), "y": "q", "q": "announce_peer", "a": a})))
			}
			for i := 0; i < k; i++ {
				s := rapid.IntRange(0, len(sites)-1).Draw(rt, "from")
				p := rapid.IntRange(0, 2).Draw(rt, "listener")
				hash := gen20().Draw(rt, "info_hash")
				a := ref.Dict{"id": gen20().Draw(rt, "id"), "info_hash": hash, "port": sites[s].peers[p].Addr.Port, "token": "t"}
				switch v := rapid.IntRange(-1, 5).Draw(rt, "implied_port"); {
				case v > 3:
				case v > 0:
					a["implied_port"] = v
					p = 0
					implied++
				default:
					a["implied_port"] = v
				}
				if p != 0 || a["implied_port"] == nil || a["implied_port"].(int) <= 0 {
					if v := rapid.IntRange(0, 19).Draw(rt, "bad port"); v < 4 {
						// none of these is a port, so nobody is asked
						a["port"] = []int{0, -a["port"].(int), a["port"].(int) + 65536, a["port"].(int) - 65536}[v]
						text += fmt.Sprintf(" %d:%v %x", s, a["port"], hash)
						send(i, s, a)
						continue
					}
				}
				text += fmt.Sprintf(" %d.%d %x", s, p, hash)
				want[fmt.Sprintf("peer %d.%d asked for %x", s, p, hash)]++
				send(i, s, a)
			}
			c.Input("%s", text)
			c.NonTrivial(k >= 3 && implied > 0)
			total := 0
			for _, v := range want {
				total += v
			}
			drops := netx.Drops(n.Port)
			h.Eventually(patience, func() bool {
				got := 0
				for _, v := range all() {
					got += v
				}
				return got >= total || !n.Alive() || netx.Drops(n.Port) != drops
			})
			if netx.Drops(n.Port) != drops {
				time.Sleep(100 * time.Millisecond)
				rt.Skip("the kernel dropped datagrams")
			}
			time.Sleep(2 * time.Millisecond)
			var diff []string
			got := all()
			for k, v := range want {
				if got[k] != v {
					diff = append(diff, fmt.Sprintf("%s: %d times, want %d", k, got[k], v))
				}
			}
			for k, v := range got {
				if want[k] == 0 {
					diff = append(diff, fmt.Sprintf("%s: %d times, want none", k, v))
				}
			}
			sort.Strings(diff)
			if len(diff) > 0 {
				rt.Fatalf("%s; %s", strings.Join(diff, "; "), n.Stderr())
			}
		})
	if v6, err := net.ListenPacket("udp6", "[::1]:0"); err == nil {
		defer v6.Close()
		l, err := net.Listen("tcp6", "[::1]:0")
		if err != nil {
			return
		}
		hashes := make(chan string, 100)
		go func() {
			for {
				cn, err := l.Accept()
				if err != nil {
					return
				}
				b := make([]byte, 68)
				cn.SetReadDeadline(time.Now().Add(10 * time.Second))
				k := 0
				for k < 68 {
					m, err := cn.Read(b[k:])
					k += m
					if err != nil {
						break
					}
				}
				cn.Close()
				hashes <- string(b[28:48])
			}
		}()
		defer l.Close()
		h.Check(t, "ipv6", "announce_peer queries from ::1 for drawn info hashes; the listener at ::1 is asked for them; all non-trivial", 80, 500,
			func(rt *rapid.T, c *h.Case) {
				hash := gen20().Draw(rt, "info_hash")
				c.Input("%x", hash)
				c.NonTrivial(true)
				msg := ref.Encode(ref.Dict{"t": "v6", "y": "q", "q": "announce_peer", "a": ref.Dict{"id": "abcdefghij0123456789", "info_hash": hash, "port": l.Addr().(*net.TCPAddr).Port, "token": "t"}})
				if _, err := v6.WriteTo(msg, &net.UDPAddr{IP: net.IPv6loopback, Port: n.Port}); err != nil {
					rt.Skip(err.Error())
				}
				select {
				case g := <-hashes:
					if g != hash {
						rt.Fatalf("asked for %x, announced %x", g, hash)
					}
				case <-time.After(h.Patience(patience)):
					rt.Fatalf("the listener at ::1 was not asked; %s", n.Stderr())
				}
			})
	}
}
