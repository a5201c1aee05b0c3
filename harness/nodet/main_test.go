package nodet

import (
	"fmt"
	"strconv"
	"strings"
	"testing"
	"time"

	"pgregory.net/rapid"
	"verif/harness/h"
	"verif/harness/netx"
	"verif/harness/node"
	"verif/harness/ref"
)

func TestMain(m *testing.M) { h.Main(m) }

const patience = 30 * time.Second

// start is node.Start that fails the test.
func start(t interface {
	Fatalf(string, ...interface{})
	Helper()
}, o node.Opts) *node.Node {
	t.Helper()
	n, err := node.Start(o)
	if err != nil {
		t.Fatalf("%v", err)
	}
	return n
}

func sockets(n int) []*netx.Sock {
	var r []*netx.Sock
	for i := 0; i < n; i++ {
		r = append(r, netx.MustOpen(fmt.Sprintf("127.0.0.%d", 1+i)))
	}
	return r
}

// genTx draws transaction ids: usual, empty, binary, bencode-like, long.
func genTx() *rapid.Generator[string] {
	return rapid.OneOf(
		rapid.StringMatching(`[a-z0-9]{2,4}`),
		rapid.Map(rapid.SliceOfN(rapid.Byte(), 0, 4), func(b []byte) string { return string(b) }),
		rapid.Map(rapid.SliceOfN(rapid.SampledFrom([]byte("1:e0id\x00\xff%s")), 1, 10), func(b []byte) string { return string(b) }),
		rapid.Map(rapid.SliceOfN(rapid.Byte(), 20, 200), func(b []byte) string { return string(b) }),
		rapid.Map(rapid.IntRange(0, 900), func(n int) string { return strings.Repeat("t:", n/2) }),
	)
}

func genBytes(min, max int) *rapid.Generator[string] {
	return rapid.Map(rapid.SliceOfN(rapid.Byte(), min, max), func(b []byte) string { return string(b) })
}

// gen20 draws 20 bytes: random, with bencode characters, or repetitive.
func gen20() *rapid.Generator[string] {
	return rapid.OneOf(genBytes(20, 20), rapid.StringMatching(`[a-zA-Z0-9]{20}`),
		rapid.Custom(func(rt *rapid.T) string {
			own, _ := node.OwnId.Load().(string)
			s := rapid.SampledFrom([]string{own, own, strings.Repeat("\x00", 20), strings.Repeat("\xff", 20), "abcdefghij0123456789", "mnopqrstuvwxyz123456"}).Draw(rt, "special")
			if len(s) != 20 {
				s = strings.Repeat("\x00", 20)
			}
			return s
		}),
		rapid.Map(rapid.SliceOfN(rapid.SampledFrom([]byte("0:e\x00\xff%\"\\\n")), 20, 20), func(b []byte) string { return string(b) }))
}

var methods = []string{"ping", "find_node", "get_peers", "announce_peer"}

// query is a generated valid query.
type query struct {
	tx, q string
	msg   ref.Dict
	data  string
}

// genArgs draws the arguments of a valid query.
func genArgs(rt *rapid.T, q string) ref.Dict {
	a := ref.Dict{"id": gen20().Draw(rt, "id")}
	switch q {
	case "find_node":
		a["target"] = gen20().Draw(rt, "target")
	case "get_peers":
		a["info_hash"] = gen20().Draw(rt, "info_hash")
	case "announce_peer":
		a["info_hash"] = gen20().Draw(rt, "info_hash")
		// nothing listens there, so that fetches end at once
		a["port"] = rapid.IntRange(1, 9).Draw(rt, "port")
		a["token"] = genBytes(0, 20).Draw(rt, "token")
		switch rapid.IntRange(0, 5).Draw(rt, "implied") {
		case 0:
			a["implied_port"] = 1
		case 1, 2:
			a["implied_port"] = 0
		}
	}
	return a
}

// genQuery draws a valid query of up to 1024 bytes.
func genQuery(rt *rapid.T, qs []string) query {
	q := query{tx: genTx().Draw(rt, "tx"), q: rapid.SampledFrom(qs).Draw(rt, "q")}
	a := genArgs(rt, q.q)
	q.msg = ref.Dict{"t": q.tx, "y": "q", "q": q.q, "a": a}
	if rapid.IntRange(0, 2).Draw(rt, "extras") == 0 {
		for i := rapid.IntRange(1, 3).Draw(rt, "n"); i > 0; i-- {
			k := rapid.SampledFrom([]string{"want", "scrape", "seed", "v", "ro", "x", "", "idx", "ip", "r", "e", "name"}).Draw(rt, "k")
			v := ref.GenValue(2).Draw(rt, "v")
			if rapid.Bool().Draw(rt, "top") {
				q.msg[k] = v
			} else {
				a[k] = v
			}
		}
	}
	q.encode(rt)
	if len(q.data) > 1024 {
		if len(q.tx) > 700 {
			q.tx = q.tx[:700]
		}
		q.msg = ref.Dict{"t": q.tx, "y": "q", "q": q.q, "a": genArgs(rt, q.q)}
		q.encode(rt)
	}
	if len(q.data) < 900 && rapid.IntRange(0, 9).Draw(rt, "pad") == 0 {
		// fill up to a size at or close to the limit
		size := 1024 - rapid.OneOf(rapid.IntRange(0, 3), rapid.IntRange(0, 100)).Draw(rt, "below")
		where := q.msg
		if rapid.Bool().Draw(rt, "inArgs") {
			where = q.msg["a"].(ref.Dict)
		}
		key := rapid.SampledFrom([]string{"zz", "0", "pad"}).Draw(rt, "padKey")
		if _, taken := where[key]; !taken {
			n := size - len(q.data) - len(key) - 2 // "k:key", "nnn:" and the padding
			for over := 5; over > 0; over-- {
				if m := n - over; m > 0 && len(strconv.Itoa(m))+1 == over {
					where[key] = strings.Repeat("p", m)
				}
			}
			q.encode(rt)
			if len(q.data) > 1024 {
				delete(where, key)
				q.encode(rt)
			}
		}
	}
	return q
}

func (q *query) encode(rt *rapid.T) {
	if rapid.IntRange(0, 3).Draw(rt, "sorted") > 0 {
		q.data = string(ref.Encode(q.msg))
		return
	}
	q.data = string(ref.EncodeOrder(q.msg, func(k []string) []string { return rapid.Permutation(k).Draw(rt, "keys") }))
}

// reply parses a datagram of the crawler.
func reply(d netx.Datagram) (ref.Dict, error) {
	v, verdict := ref.ParseAll([]byte(d.Data))
	m, ok := v.(ref.Dict)
	if verdict != ref.Good || !ok {
		return nil, fmt.Errorf("the reply %q is not one bencoded dictionary", d.Data)
	}
	if _, ok := m["t"].(string); !ok {
		return nil, fmt.Errorf("the reply %q has no transaction id", d.Data)
	}
	return m, nil
}

// exchange sends the datagrams of every socket at once and collects the
// replies by socket, until want datagrams came, and then those that a ping
// sent afterwards does not overtake. It is skipped when the kernel drops any.
func exchange(rt *rapid.T, n *node.Node, socks []*netx.Sock, out [][]string, want []int) [][]netx.Datagram {
	ports := []int{n.Port}
	for _, s := range socks {
		ports = append(ports, s.Addr.Port)
		s.Reset()
	}
	drops := netx.Drops(ports...)
	done := make(chan bool)
	for i, s := range socks {
		go func(i int, s *netx.Sock) {
			for k, d := range out[i] {
				s.Send(n.Addr, d)
				if k%20 == 19 {
					time.Sleep(time.Millisecond)
				}
			}
			done <- true
		}(i, s)
	}
	for range socks {
		<-done
	}
	got := h.Eventually(patience, func() bool {
		for i, s := range socks {
			if len(s.All()) < want[i] {
				return false
			}
		}
		return true
	})
	if !n.Alive() {
		rt.Fatalf("the crawler died: %s", n.Stderr())
	}
	if !got && netx.Drops(ports...) != drops {
		rt.Skip("the kernel dropped datagrams")
	}
	// a surplus reply would be sent about now
	const fin = "\x00fin\x00verif"
	socks[0].Send(n.Addr, node.PingMsg(fin))
	if !h.Eventually(patience, func() bool {
		for _, d := range socks[0].All() {
			if m, err := reply(d); err == nil && m["t"] == fin {
				return true
			}
		}
		return !n.Alive()
	}) {
		if netx.Drops(ports...) != drops {
			rt.Skip("the kernel dropped datagrams")
		}
		rt.Fatalf("a valid ping sent after the others is not answered")
	}
	time.Sleep(time.Millisecond)
	var r [][]netx.Datagram
	for _, s := range socks {
		var x []netx.Datagram
		for _, d := range s.All() {
			if m, err := reply(d); err == nil && m["t"] == fin {
				continue
			}
			x = append(x, d)
		}
		r = append(r, x)
	}
	return r
}
