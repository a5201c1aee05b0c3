package nodet

import (
	"fmt"
	"strings"
	"testing"
	"time"

	"pgregory.net/rapid"
	"verif/harness/h"
	"verif/harness/netx"
	"verif/harness/node"
	"verif/harness/ref"
)

// hostile are datagrams known to be nasty to bencode and KRPC code.
var hostile = []string{
	"", "d", "e", "de", "l", "le", "i", "ie", "i-e", "0:", ":", "1:", "-1:", "d1:", "d1:y", "d1:y1:q", "d1:y1:qe", "d1:y1:re", "d1:y1:ee",
	"d1:yi1ee", "d1:yle", "d1:ydee", "d1:t2:aa1:y1:q1:q4:pinge", "99999999999999999999:", "d99999999999999999999:xe", "9223372036854775807:x", "d9223372036854775807:xe",
	"d1:t9223372036854775807:x1:y1:qe", "i99999999999999999999e", "i9223372036854775808e", "d1:yi99999999999999999999999ee",
	"d1:t2:aa1:y1:q1:q4:ping1:ad2:id20:abcdefghij01234567", "d1:ad2:id-1:e1:y1:q1:t1:ae", "di1e1:ye", "dle1:ye", "dde1:ye", "d1:y1:q1:y1:re",
	"d1:t2:aa1:y1:e1:ei5ee", "d1:t2:aa1:y1:e1:elee", "d1:y1:e1:t2:aae", "d1:t2:aa1:y1:r1:rdee", "d1:t2:aa1:y1:r1:ri1ee", "d1:y1:r1:rd2:idi5eee",
	"d1:t0:1:y1:r1:rd2:id0:ee", "d1:t1:\x001:y1:\x001:q1:\x00e", "13:d1:y1:q1:q4:p",
}

// genJunk draws any datagram at all; tx is the id of a query the crawler really sent.
func genJunk(rt *rapid.T, tx string) string {
	valid := func() string {
		switch rapid.IntRange(0, 3).Draw(rt, "base") {
		case 0:
			return string(ref.Encode(ref.Dict{"t": tx, "y": "r", "r": genRespBody(rt)}))
		case 1:
			q, _ := genBroken(rt)
			return q.data
		}
		return genQuery(rt, methods).data
	}
	switch rapid.IntRange(0, 10).Draw(rt, "junk") {
	case 0:
		return genBytes(0, 60).Draw(rt, "bytes")
	case 1:
		return rapid.SampledFrom(hostile).Draw(rt, "hostile")
	case 2:
		s := valid()
		return s[:rapid.IntRange(0, len(s)-1).Draw(rt, "cut")]
	case 3, 4:
		b := []byte(valid())
		for i := rapid.IntRange(1, 4).Draw(rt, "edits"); i > 0 && len(b) > 0; i-- {
			at := rapid.IntRange(0, len(b)-1).Draw(rt, "at")
			x := rapid.OneOf(rapid.Byte(), rapid.SampledFrom([]byte("0123456789:ideql-"))).Draw(rt, "byte")
			switch rapid.IntRange(0, 2).Draw(rt, "edit") {
			case 0:
				b[at] = x
			case 1:
				b = append(b[:at], b[at+1:]...)
			default:
				b = append(b[:at], append([]byte{x}, b[at:]...)...)
			}
		}
		return string(b)
	case 5: // deep nesting
		n := rapid.IntRange(10, 1000).Draw(rt, "depth")
		return rapid.SampledFrom([]string{"", "d1:a"}).Draw(rt, "head") + strings.Repeat(rapid.SampledFrom([]string{"l", "d1:a", "d0:"}).Draw(rt, "open"), n) + strings.Repeat("e", rapid.SampledFrom([]int{0, n, n + 1}).Draw(rt, "close"))
	case 6: // oversized
		n := rapid.SampledFrom([]int{1023, 1024, 1025, 2000, 9000, 60000, 65000}).Draw(rt, "size")
		return (rapid.SampledFrom([]string{"", "d1:y1:q1:t", "d1:ad2:id", valid()}).Draw(rt, "head") + strings.Repeat(rapid.SampledFrom([]string{"x", "1:a", "li1e", "9"}).Draw(rt, "fill"), n))[:n]
	case 7: // wrong types at the top
		d := ref.Dict{"t": tx, "y": "q", "q": "ping", "a": ref.Dict{"id": "abcdefghij0123456789"}, "r": genRespBody(rt), "e": ref.List{201, "x"}}
		for i := rapid.IntRange(1, 3).Draw(rt, "n"); i > 0; i-- {
			d[rapid.SampledFrom([]string{"t", "y", "q", "a", "r", "e"}).Draw(rt, "key")] = ref.GenValue(2).Draw(rt, "v")
		}
		if rapid.Bool().Draw(rt, "kind") {
			d["y"] = rapid.SampledFrom([]string{"r", "e", "Q", "", "qq", "z"}).Draw(rt, "y")
		}
		return string(ref.Encode(d))
	case 8: // responses and errors
		t := rapid.OneOf(rapid.Just(tx), rapid.SampledFrom([]string{"", "\x00", "a"}), genTx()).Draw(rt, "t")
		if rapid.IntRange(0, 3).Draw(rt, "err") == 0 {
			var e ref.Value = ref.List{rapid.OneOf(rapid.SampledFrom([]int{201, 202, 203, 204, 0, -1, 301}), ref.GenInt()).Draw(rt, "code"), rapid.OneOf(rapid.SampledFrom([]string{"Generic Error", "Server Error", "Protocol Error", "Method Unknown", ""}), ref.GenStr()).Draw(rt, "text")}
			if rapid.IntRange(0, 2).Draw(rt, "odd") == 0 {
				e = ref.GenValue(2).Draw(rt, "e")
			}
			return string(ref.Encode(ref.Dict{"t": t, "y": "e", "e": e}))
		}
		return string(ref.Encode(ref.Dict{"t": t, "y": "r", "r": genRespBody(rt)}))
	case 9: // valid with trailing bytes
		return valid() + genBytes(1, 30).Draw(rt, "tail")
	}
	return valid()
}

// genRespBody draws the body of a response, good or hostile. Its nodes are
// all in a documentation network.
func genRespBody(rt *rapid.T) ref.Value {
	if rapid.IntRange(0, 9).Draw(rt, "noDict") == 0 {
		return ref.GenValue(1).Draw(rt, "body")
	}
	d := ref.Dict{"id": rapid.OneOf(gen20(), genBytes(0, 30)).Draw(rt, "id")}
	switch rapid.IntRange(0, 7).Draw(rt, "nodes") {
	case 0:
	case 1:
		d["nodes"] = ref.GenInt().Draw(rt, "n")
	case 2:
		d["nodes"] = ref.GenList(1).Draw(rt, "n")
	default:
		s := ""
		for i := rapid.OneOf(rapid.IntRange(0, 12), rapid.IntRange(0, 12), rapid.IntRange(12, 37)).Draw(rt, "count"); i > 0; i-- {
			s += gen20().Draw(rt, "nid") + "\xc0\x00\x02" + genBytes(3, 3).Draw(rt, "rest")
		}
		if rapid.Bool().Draw(rt, "partial") {
			s += genBytes(1, 19).Draw(rt, "tail")
		}
		d["nodes"] = s
	}
	if rapid.IntRange(0, 4).Draw(rt, "values") == 0 {
		d["values"] = ref.GenValue(2).Draw(rt, "v")
	}
	if rapid.IntRange(0, 9).Draw(rt, "noId") == 0 {
		delete(d, "id")
	}
	return d
}

// maybeQuery reports whether the crawler may take the datagram for a query:
// what it can read of it begins with a dictionary whose y is "q".
func maybeQuery(data string) bool {
	if len(data) > 1024 {
		data = data[:1024]
	}
	v, _, verdict := ref.Parse([]byte(data))
	if verdict == ref.Bad {
		return false
	}
	d, ok := v.(ref.Dict)
	return verdict == ref.Murky || (ok && d["y"] == "q")
}

func TestC07(t *testing.T) {
	boot := netx.MustOpen("127.0.0.9")
	n := start(t, node.Opts{Bootstrap: []string{boot.Addr.String()}, WorkPool: 4})
	defer n.Kill()
	// the id of a query the crawler sent
	first, ok := boot.Recv(patience)
	m, err := reply(first)
	if !ok || err != nil {
		t.Fatalf("the crawler did not send a query to its bootstrap node: %q %v", first.Data, err)
	}
	tx := m["t"].(string)
	asker := netx.MustOpen("127.0.0.1")
	queries := netx.MustOpen("127.0.0.2")
	mute := netx.MustOpen("127.0.0.3")
	serial := 0
	h.Check(t, "junk", "1 to 30 drawn datagrams: arbitrary and hostile bytes, truncated, mutated, oversized, deeply nested, mistyped messages, responses to unknown and to real queries, errors, broken and valid queries; afterwards the process lives, answers a ping, and the socket that sent no query got nothing; non-trivial: at least 5 datagrams that are no queries", 4500, 60000,
		func(rt *rapid.T, c *h.Case) {
			serial++
			k := rapid.IntRange(1, 30).Draw(rt, "datagrams")
			text, nonQuery := "", 0
			queries.Reset()
			for i := 0; i < k; i++ {
				d := genJunk(rt, tx)
				if len(d) > 100 {
					text += fmt.Sprintf(" %q...(%d)", d[:100], len(d))
				} else {
					text += fmt.Sprintf(" %q", d)
				}
				c.Label("datagrams", true)
				if maybeQuery(d) {
					queries.Send(n.Addr, d)
				} else {
					mute.Send(n.Addr, d)
					nonQuery++
				}
			}
			c.Input("%s", text)
			c.NonTrivial(nonQuery >= 5)
			// serves: sent again, as the flood may fill the kernel's buffer
			id := fmt.Sprintf("s%d", serial)
			served := false
			for i := 0; i < 10 && !served; i++ {
				asker.Send(n.Addr, node.PingMsg(id))
				end := time.Now().Add(3 * time.Second)
				for time.Now().Before(end) && !served {
					d, ok := asker.Recv(time.Until(end))
					if !ok || !n.Alive() {
						break
					}
					if m, err := reply(d); err == nil && m["t"] == id && m["y"] == "r" {
						served = true
					}
				}
				if !n.Alive() {
					rt.Fatalf("the crawler died: %s", n.Stderr())
				}
			}
			asker.Reset()
			if !served {
				rt.Fatalf("the crawler does not answer a ping any more")
			}
			if got := mute.All(); len(got) > 0 {
				mute.Reset()
				rt.Fatalf("a datagram that is no query was answered with %q", got[0].Data)
			}
		})
}
