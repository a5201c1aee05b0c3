package shimt

import (
	"bytes"
	"fmt"
	"testing"

	"github.com/GalaIO/P2Pcrawler/dht/peerwire"
	"github.com/GalaIO/P2Pcrawler/misc"
	"pgregory.net/rapid"
	"verif/harness/conv"
	"verif/harness/h"
	"verif/harness/peer"
	"verif/harness/ref"
)

func bin(rt *rapid.T, name string, min, max int) []byte {
	return rapid.SliceOfN(rapid.Byte(), min, max).Draw(rt, name)
}

// decodeExt takes an extension message apart by BEP 10.
func decodeExt(b []byte) (id int, dict ref.Dict, data []byte, err error) {
	if len(b) < 6 {
		return 0, nil, nil, fmt.Errorf("%d bytes", len(b))
	}
	n := int(b[0])<<24 | int(b[1])<<16 | int(b[2])<<8 | int(b[3])
	if n != len(b)-4 {
		return 0, nil, nil, fmt.Errorf("the prefix says %d, %d bytes follow", n, len(b)-4)
	}
	if b[4] != 20 {
		return 0, nil, nil, fmt.Errorf("message id %d", b[4])
	}
	v, next, verdict := ref.Parse(b[6:])
	d, ok := v.(ref.Dict)
	if verdict != ref.Good || !ok {
		return 0, nil, nil, fmt.Errorf("no dictionary in %q", b)
	}
	return int(b[5]), d, b[6+next:], nil
}

func TestC19(t *testing.T) {
	h.Silence(t)
	h.Check(t, "handshake", "built handshakes against the BEP 3 layout; parsing of generated handshakes with any reserved bytes, ids and hashes; non-trivial: every case", 20000, 200000,
		func(rt *rapid.T, c *h.Case) {
			pid, ih := bin(rt, "peerId", 20, 20), bin(rt, "infoHash", 20, 20)
			var res [8]byte
			copy(res[:], rapid.OneOf(rapid.SliceOfN(rapid.Byte(), 8, 8), rapid.SampledFrom([][]byte{{}, {5: 0x10}, {5: 0xef, 7: 0}, {4: 0x10, 6: 0x10, 7: 0}, {5: 0x30}, {0xff, 0xff, 0xff, 0xff, 0xff, 0xef, 0xff, 0xff}})).Draw(rt, "reserved"))
			c.Input("peer id %x, info hash %x, reserved %x", pid, ih, res)
			c.NonTrivial(true)
			got := peerwire.VerifWithHandShake(append([]byte(nil), pid...), append([]byte(nil), ih...))
			if len(got) != 68 || got[0] != 19 || string(got[1:20]) != "BitTorrent protocol" || got[25]&0x10 == 0 || !bytes.Equal(got[28:48], ih) || !bytes.Equal(got[48:68], pid) {
				rt.Fatalf("handshake %x", got)
			}
			raw := peer.HandShake(res, string(ih), string(pid))
			for _, x := range [][]byte{got, raw} {
				m := peerwire.VerifParseHandShake(append([]byte(nil), x...))
				if m.Protocol() != "BitTorrent protocol" || !bytes.Equal(m.PeerId(), pid) || !bytes.Equal(m.InfoHash(), ih) {
					rt.Fatalf("%x parsed as %q %x %x", x, m.Protocol(), m.PeerId(), m.InfoHash())
				}
				if m.SupportExtended() != (x[25]&0x10 != 0) {
					rt.Fatalf("%x: SupportExtended %v", x, m.SupportExtended())
				}
			}
		})
	h.Check(t, "extended", "built extension handshakes with drawn dictionaries (up to 70 KB) against BEP 10 and back; and generated ones parsed; non-trivial: at least one extension and one other field", 20000, 150000,
		func(rt *rapid.T, c *h.Case) {
			m := ref.Dict{}
			for i := rapid.IntRange(0, 4).Draw(rt, "exts"); i > 0; i-- {
				m[rapid.OneOf(rapid.SampledFrom([]string{"ut_metadata", "ut_pex", "lt_donthave"}), ref.GenStr()).Draw(rt, "ext")] = rapid.IntRange(0, 255).Draw(rt, "id")
			}
			var d ref.Dict
			if rapid.IntRange(0, 4).Draw(rt, "dict") > 0 {
				d = ref.GenDict(2).Draw(rt, "fields")
				if rapid.Bool().Draw(rt, "size") {
					d["metadata_size"] = rapid.IntRange(1, 1<<40).Draw(rt, "metadata_size")
				}
				if rapid.IntRange(0, 19).Draw(rt, "long") == 0 {
					d["v"] = string(peer.Meta(rapid.OneOf(rapid.IntRange(16000, 70000), rapid.IntRange(65400, 65600)).Draw(rt, "length"), 3))
				}
				delete(d, "m")
			}
			c.Input("m %q, fields %.2000q", ref.Encode(m), ref.Encode(d))
			c.NonTrivial(len(m) > 0 && len(d) > 0)
			want := ref.Dict{"m": m}
			for k, v := range d {
				want[k] = v
			}
			var dict misc.Dict
			if d != nil {
				dict = conv.ToMisc(d).(misc.Dict)
			}
			got := peerwire.VerifWithExtended(conv.ToMisc(m).(misc.Dict), dict)
			id, gd, rest, err := decodeExt(got)
			if err != nil || id != 0 || len(rest) != 0 || !ref.Equal(gd, want) {
				rt.Fatalf("extension handshake %q: id %d, rest %q, %v", got, id, rest, err)
			}
			for _, x := range [][]byte{got, peer.Ext(0, want, nil)} {
				p := peerwire.VerifParseExtended(append([]byte(nil), x[4:]...))
				if !conv.Same(p.Metadata(), m) || !conv.Same(p.Dict(), want) {
					rt.Fatalf("%q parsed as %v %v", x, p.Metadata(), p.Dict())
				}
			}
		})
	h.Check(t, "metadata", "built metadata messages of all types, extension ids, piece numbers, sizes and data (binary, bencode-like, up to 140 KB) against BEP 9 and back; and generated ones with other key orders and fields parsed; non-trivial: a data message", 25000, 200000,
		func(rt *rapid.T, c *h.Case) {
			id := rapid.IntRange(0, 255).Draw(rt, "id")
			typ := rapid.IntRange(0, 2).Draw(rt, "type")
			piece := rapid.OneOf(rapid.IntRange(0, 20), rapid.IntRange(0, 1<<31)).Draw(rt, "piece")
			var data []byte
			total := 0
			if typ == 1 {
				data = rapid.OneOf(rapid.SliceOfN(rapid.Byte(), 1, 60), rapid.SliceOfN(rapid.SampledFrom([]byte("eeed4:i1l:")), 1, 20),
					rapid.Map(rapid.IntRange(1, 16384), func(n int) []byte { return peer.Meta(n, byte(n)) }), rapid.Just(peer.Meta(16384, 1)),
					rapid.Map(rapid.OneOf(rapid.IntRange(16385, 140000), rapid.IntRange(65400, 65600)), func(n int) []byte { return peer.Meta(n, byte(n)) })).Draw(rt, "data")
				total = rapid.OneOf(rapid.IntRange(1, 100000), rapid.Just(len(data)), rapid.IntRange(1, 1<<40)).Draw(rt, "total")
			}
			c.Input("id %d, type %d, piece %d, total %d, %d bytes of data", id, typ, piece, total, len(data))
			c.NonTrivial(typ == 1)
			var got []byte
			if typ == 1 {
				got = peerwire.VerifWithFetch(id, peerwire.ExFecthMetaType(typ), piece, total, append([]byte(nil), data...))
			} else {
				got = peerwire.VerifWithFetch(id, peerwire.ExFecthMetaType(typ), piece, total)
			}
			want := ref.Dict{"msg_type": typ, "piece": piece}
			if typ == 1 {
				want["total_size"] = total
			}
			gid, gd, rest, err := decodeExt(got)
			if err != nil || gid != id || !ref.Equal(gd, want) || !bytes.Equal(rest, data) {
				rt.Fatalf("metadata message %q: id %d, rest of %d bytes, %v", got, gid, len(rest), err)
			}
			if rapid.Bool().Draw(rt, "more") {
				want["x"+rapid.StringMatching(`[a-z]{0,2}`).Draw(rt, "k")] = ref.GenValue(2).Draw(rt, "v")
			}
			enc := ref.EncodeOrder(want, func(k []string) []string { return rapid.Permutation(k).Draw(rt, "keys") })
			other := append(append([]byte{20, byte(id)}, enc...), data...)
			for _, x := range [][]byte{got[4:], other} {
				m := peerwire.VerifParseFetch(append([]byte(nil), x...))
				if m.ExMessageId() != id || int(m.MsgType()) != typ || m.PieceNum() != piece || !bytes.Equal(m.Data(), data) || (typ == 1 && m.TotalSize() != total) {
					rt.Fatalf("%q parsed as id %d, type %d, piece %d, total %d, %d bytes of data", x, m.ExMessageId(), m.MsgType(), m.PieceNum(), m.TotalSize(), len(m.Data()))
				}
			}
		})
	h.Check(t, "types", "the message type of arbitrary peer messages; all non-trivial", 2500, 5000,
		func(rt *rapid.T, c *h.Case) {
			b := bin(rt, "message", 1, 40)
			c.Input("%x", b)
			c.NonTrivial(true)
			if got := peerwire.VerifParsePrefixLen(b).PeerMsgType(); int(got) != int(b[0]) {
				rt.Fatalf("%x has type %d", b, got)
			}
		})
}
