package peert

import (
	"bytes"
	"fmt"
	"sync"
	"testing"
	"time"

	"github.com/GalaIO/P2Pcrawler/dht/peerwire"
	"pgregory.net/rapid"
	"verif/harness/h"
	"verif/harness/peer"
	"verif/harness/ref"
)

// genSize draws metadata sizes around the piece boundaries, up to max pieces.
func genSize(max int) *rapid.Generator[int] {
	return rapid.OneOf(rapid.IntRange(1, 300), rapid.Custom(func(t *rapid.T) int {
		n := rapid.IntRange(1, max).Draw(t, "pieces")*peer.PieceSize + rapid.SampledFrom([]int{0, 0, -1, 1, -2, 100}).Draw(t, "off")
		return n
	}), rapid.IntRange(1, max*peer.PieceSize))
}

// other messages a peer may send at any time.
func genOther(rt *rapid.T) []byte {
	body := func(min, max int) []byte { return rapid.SliceOfN(rapid.Byte(), min, max).Draw(rt, "body") }
	switch rapid.IntRange(0, 14).Draw(rt, "other") {
	case 0:
		return []byte{0, 0, 0, 0} // keep-alive
	case 1:
		return make([]byte, 4*rapid.IntRange(1, 60).Draw(rt, "keep-alives"))
	case 13: // an extension nobody agreed on, without a dictionary
		return peer.Msg(append([]byte{20, byte(rapid.IntRange(2, 255).Draw(rt, "foreign"))}, body(0, 3)...))
	case 14:
		return peer.Msg([]byte{rapid.SampledFrom([]byte{5, 10, 19, 21, 255}).Draw(rt, "type")})
	case 2:
		return peer.Msg(append([]byte{5}, body(1, 60)...)) // bitfield
	case 3:
		return peer.Msg(append([]byte{5}, bytes.Repeat(body(1, 1), rapid.IntRange(1, 16000).Draw(rt, "n"))...))
	case 10: // a bitfield or message of later protocols, up to the 32 KB taken
		n := rapid.OneOf(rapid.IntRange(16000, 32767), rapid.IntRange(32760, 32767), rapid.IntRange(16380, 16400)).Draw(rt, "n")
		return peer.Msg(append([]byte{rapid.SampledFrom([]byte{5, 5, 7, 21, 200, 255}).Draw(rt, "type")}, bytes.Repeat(body(1, 1), n)...))
	case 12: // the bitfield of a torrent with very many pieces
		n := rapid.OneOf(rapid.IntRange(32760, 32780), rapid.IntRange(32768, 220000)).Draw(rt, "n")
		return peer.Msg(append([]byte{5}, bytes.Repeat(body(1, 1), n)...))
	case 11: // an extension nobody agreed on
		return peer.Ext(rapid.IntRange(30, 255).Draw(rt, "foreign"), ref.Dict{"added": string(body(0, 12)), "msg_type": rapid.IntRange(0, 2).Draw(rt, "type"), "piece": 0}, body(0, 20))
	case 4:
		return peer.Msg(append([]byte{4}, body(4, 4)...)) // have
	case 5:
		return peer.Msg([]byte{rapid.SampledFrom([]byte{0, 1, 2, 3, 14, 15}).Draw(rt, "flag")})
	case 6:
		return peer.Msg(append([]byte{9}, body(2, 2)...)) // port
	case 7:
		return peer.Msg(append([]byte{17}, body(4, 4)...)) // allowed fast
	case 8:
		return peer.Msg(append([]byte{6}, body(12, 12)...)) // request
	}
	return append([]byte{0, 0, 0, 0}, peer.Msg(append([]byte{4}, body(4, 4)...))...)
}

// genPlan draws a conforming peer.
func genPlan(rt *rapid.T, max int) (p peer.Plan, text string) {
	size := genSize(max).Draw(rt, "size")
	p.Meta = peer.DrawMeta(rt, size)
	n := peer.Pieces(size)
	p.ExtId = rapid.OneOf(rapid.IntRange(1, 5), rapid.IntRange(1, 255)).Draw(rt, "extId")
	copy(p.Reserved[:], rapid.OneOf(rapid.Just(make([]byte, 8)), rapid.SliceOfN(rapid.Byte(), 8, 8)).Draw(rt, "reserved"))
	p.Reserved[5] |= 0x10
	p.PeerId = string(rapid.OneOf(rapid.SliceOfN(rapid.Byte(), 20, 20), rapid.SampledFrom([][]byte{make([]byte, 20), []byte("-VF0001-abcdefghijkl")})).Draw(rt, "peer id"))
	p.Extra = ref.Dict{}
	for i := rapid.IntRange(0, 5).Draw(rt, "fields"); i > 0; i-- {
		switch rapid.IntRange(0, 6).Draw(rt, "field") {
		case 0:
			p.Extra["v"] = rapid.SampledFrom([]string{"", "µTorrent 3.5", "lt:1.2", "x\x00y"}).Draw(rt, "v")
		case 1:
			p.Extra["p"] = rapid.IntRange(0, 65535).Draw(rt, "p")
		case 2:
			p.Extra["reqq"] = rapid.IntRange(0, 2000).Draw(rt, "reqq")
		case 3:
			p.Extra["yourip"] = string(rapid.SliceOfN(rapid.Byte(), 4, 4).Draw(rt, "ip"))
		case 4:
			p.Extra["e"] = rapid.IntRange(0, 1).Draw(rt, "e")
		case 5:
			p.Extra["ipv6"] = string(rapid.SliceOfN(rapid.Byte(), 16, 16).Draw(rt, "ip"))
		case 6:
			p.Extra["x"+rapid.StringMatching(`[a-z]{0,3}`).Draw(rt, "k")] = ref.GenValue(2).Draw(rt, "value")
		}
	}
	if rapid.IntRange(0, 9).Draw(rt, "long handshake") == 0 {
		p.Extra["xx"] = string(make([]byte, rapid.OneOf(rapid.IntRange(500, 32000), rapid.IntRange(30000, 32000), rapid.IntRange(16000, 17000)).Draw(rt, "bytes")))
		if len(ref.Encode(p.Extra)) > 32300 { // the longest message that is taken has 32768 bytes
			p.Extra = ref.Dict{"xx": p.Extra["xx"]}
		}
	}
	p.ExtraM = ref.Dict{}
	for _, k := range rapid.SliceOfNDistinct(rapid.SampledFrom([]string{"ut_pex", "lt_donthave", "ut_holepunch", "upload_only", "LT_metadata", "ut_comment"}), 0, 4, rapid.ID[string]).Draw(rt, "exts") {
		id := rapid.IntRange(0, 20).Draw(rt, "id")
		if id == p.ExtId {
			id = 0
		}
		p.ExtraM[k] = id
	}
	p.Early = rapid.Bool().Draw(rt, "early")
	for i := rapid.IntRange(0, 4).Draw(rt, "before"); i > 0; i-- {
		p.Before = append(p.Before, genOther(rt))
	}
	if rapid.Bool().Draw(rt, "mixed") {
		for i := rapid.IntRange(1, 4).Draw(rt, "between"); i > 0; i-- {
			switch rapid.IntRange(0, 7).Draw(rt, "ext") {
			case 0: // the peer asks for the metadata itself
				p.Between = append(p.Between, peer.Ext(1, ref.Dict{"msg_type": 0, "piece": rapid.IntRange(0, 5).Draw(rt, "ask")}, nil))
			case 1: // an update of its extension handshake
				d := ref.Dict{"m": ref.Dict{"ut_metadata": p.ExtId, "ut_pex": 0}}
				if rapid.Bool().Draw(rt, "size again") {
					d["metadata_size"] = size
				}
				p.Between = append(p.Between, peer.Ext(0, d, nil))
			default:
				p.Between = append(p.Between, genOther(rt))
			}
		}
	}
	order := "as requested"
	if rapid.Bool().Draw(rt, "reorder") {
		ids := make([]int, n)
		for i := range ids {
			ids[i] = i
		}
		p.Order = rapid.Permutation(ids).Draw(rt, "order")
		order = fmt.Sprint(p.Order)
	}
	total := size + n*100
	for i := 0; i < n && len(p.Between) > 0; i++ {
		total += len(p.Between[i%len(p.Between)])
	}
	for _, b := range p.Before {
		total += len(b)
	}
	if rapid.IntRange(0, 3).Draw(rt, "segmented") > 0 {
		floor := total/200 + 1 // a bounded number of writes, so that a fetch takes some ten ms
		for i := rapid.IntRange(1, 6).Draw(rt, "cuts"); i > 0; i-- {
			p.Cuts = append(p.Cuts, floor+rapid.OneOf(rapid.IntRange(0, 5), rapid.IntRange(0, 100), rapid.IntRange(0, 20000)).Draw(rt, "cut"))
		}
		p.Pause = time.Duration(rapid.IntRange(0, 200).Draw(rt, "pause")) * time.Microsecond
	}
	p.Merge = rapid.Bool().Draw(rt, "merge")
	text = fmt.Sprintf("%d bytes in %d pieces, ut_metadata %d, early %v, %d messages before, %d kinds between, order %s, writes of %v, merge %v, handshake %.300q", size, n, p.ExtId, p.Early, len(p.Before), len(p.Between), order, p.Cuts, p.Merge, ref.Encode(p.Extra))
	return
}

// attempt runs the plans at the same time and compares the results. A fetch
// that failed only after most of its second of patience passed is slow.
func attempt(plans []peer.Plan) (complaint string, slow bool) {
	var mu sync.Mutex
	report := func(s string) {
		mu.Lock()
		if complaint == "" {
			complaint, slow = s, false
		}
		mu.Unlock()
	}
	var wg sync.WaitGroup
	for i := range plans {
		s := peer.MustListen("127.0.0.1", plans[i].Script(report))
		defer s.Close()
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			t0 := time.Now()
			got, err := peerwire.FetchMetaData(s.Addr.String(), peerwire.LocalPeerId, []byte(peer.Hash(plans[i].Meta)))
			d := time.Since(t0)
			if err == nil && !bytes.Equal(got, plans[i].Meta) {
				report(fmt.Sprintf("fetch %d returned %d bytes that are not the metadata", i, len(got)))
			}
			if err != nil {
				mu.Lock()
				defer mu.Unlock()
				if complaint == "" || slow {
					complaint, slow = fmt.Sprintf("fetch %d failed after %v: %v", i, d.Round(time.Millisecond), err), d > 800*time.Millisecond
				}
			}
		}(i)
	}
	wg.Wait()
	return
}

func fetchAll(rt *rapid.T, plans []peer.Plan) {
	for i := 0; ; i++ {
		complaint, slow := attempt(plans)
		if complaint == "" {
			return
		}
		// a loaded machine may not serve a peer within the crawler's second
		if !slow || i == 4 {
			rt.Fatal(complaint)
		}
		time.Sleep(time.Duration(i) * time.Second)
	}
}

func TestC18(t *testing.T) {
	h.Silence(t)
	h.Check(t, "single", "a conforming peer with drawn metadata size (1 byte to 24 pieces, around multiples of 16384), extension ids, handshake fields, piece order, interleaved messages, repeated handshakes, write sizes and pauses; non-trivial: more than one piece, or segmented writes, or messages in between", 700, 20000,
		func(rt *rapid.T, c *h.Case) {
			p, text := genPlan(rt, 24)
			c.Input("%s", text)
			c.NonTrivial(peer.Pieces(len(p.Meta)) > 1 || len(p.Cuts) > 0 || len(p.Between) > 0)
			c.Label("several pieces", peer.Pieces(len(p.Meta)) > 1)
			c.Label("reordered", p.Order != nil)
			c.Label("exact multiple", len(p.Meta)%peer.PieceSize == 0)
			fetchAll(rt, []peer.Plan{p})
		})
	h.Check(t, "parallel", "2 to 8 conforming peers fetched from at the same time; all non-trivial", 150, 5000,
		func(rt *rapid.T, c *h.Case) {
			var plans []peer.Plan
			text := ""
			for i := rapid.IntRange(2, 8).Draw(rt, "fetches"); i > 0; i-- {
				p, s := genPlan(rt, 12)
				plans = append(plans, p)
				text += "(" + s + ") "
			}
			c.Input("%s", text)
			c.NonTrivial(true)
			fetchAll(rt, plans)
		})
	h.Check(t, "large", "a conforming peer with 1 to 20 MB of metadata, most of them with the bitfield of that many pieces; all non-trivial", 10, 250,
		func(rt *rapid.T, c *h.Case) {
			n := rapid.OneOf(rapid.IntRange(1<<20, 8<<20), rapid.IntRange(8<<20, 20<<20)).Draw(rt, "size")
			p := peer.Plan{Meta: peer.Meta(n, 1), ExtId: rapid.IntRange(1, 255).Draw(rt, "extId"), Reserved: [8]byte{5: 0x10}, Merge: rapid.Bool().Draw(rt, "merge"), Early: rapid.Bool().Draw(rt, "early")}
			if rapid.IntRange(0, 3).Draw(rt, "bitfield") > 0 {
				// one bit per piece, the metadata has 20 bytes per piece
				p.Before = [][]byte{peer.Msg(append([]byte{5}, bytes.Repeat([]byte{0xff}, (n/20+7)/8)...))}
			}
			c.Input("%d bytes, ut_metadata %d, early %v, %d messages before", n, p.ExtId, p.Early, len(p.Before))
			c.NonTrivial(true)
			fetchAll(rt, []peer.Plan{p})
		})
}
