package shimt

import (
	"net"
	"testing"

	"github.com/GalaIO/P2Pcrawler/dht"
	"github.com/GalaIO/P2Pcrawler/dht/krpc"
	"github.com/GalaIO/P2Pcrawler/misc"
	"pgregory.net/rapid"
	"verif/harness/conv"
	"verif/harness/h"
	"verif/harness/ref"
)

func genId() *rapid.Generator[string] {
	return rapid.OneOf(
		rapid.Map(rapid.SliceOfN(rapid.Byte(), 20, 20), func(b []byte) string { return string(b) }),
		rapid.Map(rapid.SliceOfN(rapid.SampledFrom([]byte("aAbBe:0i\x00\xff\xc3")), 20, 20), func(b []byte) string { return string(b) }))
}

type endpoint struct {
	ip   [4]byte
	port int
}

func genEndpoint() *rapid.Generator[endpoint] {
	return rapid.Custom(func(rt *rapid.T) endpoint {
		var e endpoint
		copy(e.ip[:], rapid.OneOf(rapid.SliceOfN(rapid.Byte(), 4, 4), rapid.SliceOfN(rapid.SampledFrom([]byte{0, 1, 10, 127, 128, 255, '\n', ':'}), 4, 4)).Draw(rt, "ip"))
		e.port = rapid.OneOf(rapid.IntRange(0, 65535), rapid.SampledFrom([]int{0, 1, 255, 256, 257, 6881, 32767, 32768, 65280, 65535})).Draw(rt, "port")
		return e
	})
}

func (e endpoint) udp(sixteen bool) *net.UDPAddr {
	ip := net.IP(append([]byte(nil), e.ip[:]...))
	if sixteen {
		ip = ip.To16()
	}
	return &net.UDPAddr{IP: ip, Port: e.port}
}

func (e endpoint) wire() string {
	return string(e.ip[:]) + string([]byte{byte(e.port >> 8), byte(e.port)})
}

func sameAddr(a *net.UDPAddr, e endpoint) bool {
	return a != nil && a.IP.To4() != nil && string(a.IP.To4()) == string(e.ip[:]) && a.Port == e.port
}

func wantRaw(rt *rapid.T, what string, got misc.Dict, want ref.Dict) {
	if !conv.Same(got, want) {
		rt.Fatalf("%s builds %#v, want %#v", what, got, want)
	}
}

func TestC12(t *testing.T) {
	h.Check(t, "nodes", "lists of up to 20 nodes, now and then 1000, with arbitrary ids, addresses (4- and 16-byte form) and ports, some listed again (the same record, the same id, the same address), encoded and parsed, also with up to 25 trailing bytes; non-trivial: at least two nodes with a port above 255", 16000, 200000,
		func(rt *rapid.T, c *h.Case) {
			n := rapid.IntRange(0, 20).Draw(rt, "n")
			if rapid.IntRange(0, 60).Draw(rt, "many") == 0 {
				n = rapid.IntRange(20, 1000).Draw(rt, "n")
			}
			var nodes []*dht.NodeInfo
			var eps []endpoint
			var ids []string
			want := ""
			big := 0
			for i := 0; i < n; i++ {
				// one in six is one listed before: the same record, or its id or address again
				old, again := 0, 0
				if i > 0 && rapid.IntRange(0, 5).Draw(rt, "again") == 0 {
					old, again = i-1-rapid.IntRange(0, min(i-1, 3)).Draw(rt, "back"), rapid.IntRange(1, 4).Draw(rt, "how")
				}
				if again == 1 {
					nodes, eps, ids = append(nodes, nodes[old]), append(eps, eps[old]), append(ids, ids[old])
					want += ids[old] + eps[old].wire()
					continue
				}
				id, e := genId().Draw(rt, "id"), genEndpoint().Draw(rt, "addr")
				if again&2 != 0 {
					id = ids[old]
				}
				if again > 2 {
					e = eps[old]
				}
				nodes = append(nodes, dht.NewNodeInfo(id, e.udp(rapid.Bool().Draw(rt, "sixteen"))))
				eps, ids = append(eps, e), append(ids, id)
				want += id + e.wire()
				if e.port > 255 {
					big++
				}
			}
			tail := string(rapid.SliceOfN(rapid.Byte(), 0, 25).Draw(rt, "tail"))
			c.Input("nodes %x, trailing %x", want, tail)
			c.NonTrivial(big >= 2)
			got := dht.VerifJoinNodeInfos(nodes)
			if got != want {
				rt.Fatalf("encoded %x, want %x", got, want)
			}
			for i, b := range dht.VerifParseNodeInfo(want + tail) {
				if i >= n {
					rt.Fatalf("parsed more than %d nodes from %x", n, want+tail)
				}
				if b.Id != ids[i] || !sameAddr(b.Addr, eps[i]) {
					rt.Fatalf("node %d of %x parsed as %x %v", i, want, b.Id, b.Addr)
				}
			}
			if m := len(dht.VerifParseNodeInfo(want + tail)); m != n {
				rt.Fatalf("parsed %d nodes from %d", m, n)
			}
			tx, self, tok := ref.GenStr().Draw(rt, "tx"), genId().Draw(rt, "self"), ref.GenStr().Draw(rt, "token")
			wantRaw(rt, "WithFindNodeResponse", dht.WithFindNodeResponse(tx, self, nodes).RawData(), ref.Dict{"t": tx, "y": "r", "r": ref.Dict{"id": self, "nodes": want}})
			wantRaw(rt, "WithGetPeersNodesResponse", dht.WithGetPeersNodesResponse(tx, self, tok, nodes).RawData(), ref.Dict{"t": tx, "y": "r", "r": ref.Dict{"id": self, "token": tok, "nodes": want}})
		})
	h.Check(t, "peers", "lists of up to 30 peers, now and then 1000, some listed again; non-trivial: at least two", 12000, 150000,
		func(rt *rapid.T, c *h.Case) {
			n := rapid.IntRange(0, 30).Draw(rt, "n")
			if rapid.IntRange(0, 60).Draw(rt, "many") == 0 {
				n = rapid.IntRange(30, 1000).Draw(rt, "n")
			}
			var addrs []*net.UDPAddr
			var eps []endpoint
			want := ref.List{}
			for i := 0; i < n; i++ {
				if i > 0 && rapid.IntRange(0, 5).Draw(rt, "again") == 0 {
					old := i - 1 - rapid.IntRange(0, min(i-1, 3)).Draw(rt, "back")
					a := addrs[old]
					if rapid.Bool().Draw(rt, "copy") {
						a = eps[old].udp(rapid.Bool().Draw(rt, "sixteen"))
					}
					addrs, eps, want = append(addrs, a), append(eps, eps[old]), append(want, eps[old].wire())
					continue
				}
				e := genEndpoint().Draw(rt, "addr")
				addrs = append(addrs, e.udp(rapid.Bool().Draw(rt, "sixteen")))
				eps = append(eps, e)
				want = append(want, e.wire())
			}
			c.Input("peers %x", want)
			c.NonTrivial(n >= 2)
			got := dht.VerifJoinPeerInfos(addrs)
			if !conv.Same(got, want) {
				rt.Fatalf("encoded %x, want %x", got, want)
			}
			back := dht.VerifParsePeerInfo(conv.ToMisc(want).(misc.List))
			if len(back) != n {
				rt.Fatalf("parsed %d peers from %d", len(back), n)
			}
			for i, a := range back {
				if !sameAddr(a, eps[i]) {
					rt.Fatalf("peer %d of %x parsed as %v", i, want, a)
				}
			}
			tx, self, tok := ref.GenStr().Draw(rt, "tx"), genId().Draw(rt, "self"), ref.GenStr().Draw(rt, "token")
			wantRaw(rt, "WithGetPeersValsResponse", dht.WithGetPeersValsResponse(tx, self, tok, addrs).RawData(), ref.Dict{"t": tx, "y": "r", "r": ref.Dict{"id": self, "token": tok, "values": want}})
		})
	h.Check(t, "messages", "every constructor with drawn arguments; all non-trivial", 12000, 150000,
		func(rt *rapid.T, c *h.Case) {
			s := func(name string) string { return ref.GenStr().Draw(rt, name) }
			tx, self, target, hash, tok := s("tx"), s("self"), s("target"), s("hash"), s("token")
			port := ref.GenInt().Draw(rt, "port")
			which := rapid.IntRange(0, 7).Draw(rt, "which")
			c.Input("%d tx %q self %q target %q hash %q token %q port %d", which, tx, self, target, hash, tok, port)
			c.NonTrivial(true)
			called := 0
			handler := func(*krpc.RpcContext) { called++ }
			query := func(what string, r krpc.Request, q string, a ref.Dict) {
				wantRaw(rt, what, r.RawData(), ref.Dict{"t": tx, "y": "q", "q": q, "a": a})
				if r.TxId() != tx || r.Type() != q || !conv.Same(r.Body(), a) {
					rt.Fatalf("%s: TxId %q Type %q Body %v", what, r.TxId(), r.Type(), r.Body())
				}
				r.Handler()(nil)
				if called != 1 {
					rt.Fatalf("%s does not carry the given handler", what)
				}
				text, err := misc.EncodeDict(r.RawData())
				v, verdict := ref.ParseAll([]byte(text))
				if err != nil || verdict != ref.Good || !ref.Equal(v, ref.Dict{"t": tx, "y": "q", "q": q, "a": a}) {
					rt.Fatalf("%s encodes to %q, %v", what, text, err)
				}
			}
			reply := func(what string, r krpc.Response, y string, body ref.Value, isErr bool) {
				wantRaw(rt, what, r.RawData(), ref.Dict{"t": tx, "y": y, y: body})
				if r.TxId() != tx || r.Error() != isErr {
					rt.Fatalf("%s: TxId %q Error %v", what, r.TxId(), r.Error())
				}
				if !isErr && (r.NodeId() != self || !conv.Same(r.Body(), body)) {
					rt.Fatalf("%s: NodeId %q Body %v", what, r.NodeId(), r.Body())
				}
			}
			switch which {
			case 0:
				query("WithPingMsg", dht.WithPingMsg(tx, self, handler), "ping", ref.Dict{"id": self})
			case 1:
				query("WithFindNodeMsg", dht.WithFindNodeMsg(tx, self, target, handler), "find_node", ref.Dict{"id": self, "target": target})
			case 2:
				query("WithGetPeersMsg", dht.WithGetPeersMsg(tx, self, hash, handler), "get_peers", ref.Dict{"id": self, "info_hash": hash})
			case 3:
				query("WithAnnouncePeerMsg", dht.WithAnnouncePeerMsg(tx, self, hash, tok, port, handler), "announce_peer", ref.Dict{"id": self, "info_hash": hash, "token": tok, "port": port, "implied_port": 0})
			case 4:
				reply("WithPingResponse", dht.WithPingResponse(tx, self), "r", ref.Dict{"id": self}, false)
			case 5:
				reply("WithAnnouncePeerResponse", dht.WithAnnouncePeerResponse(tx, self), "r", ref.Dict{"id": self}, false)
			case 6:
				msg := "m" + target
				reply("WithErr", krpc.WithErr(tx, port, msg), "e", ref.List{port, msg}, true)
			case 7:
				msg := "m" + target
				reply("WithParamErr", krpc.WithParamErr(tx, msg), "e", ref.List{203, msg}, true)
			}
		})
}
