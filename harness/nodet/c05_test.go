package nodet

import (
	"fmt"
	"net"
	"testing"

	"pgregory.net/rapid"
	"verif/harness/h"
	"verif/harness/netx"
	"verif/harness/node"
	"verif/harness/ref"
)

// checkReplies compares the replies a socket got with its queries.
func checkReplies(n *node.Node, id *string, qs []query, got []netx.Datagram) error {
	open := map[string][]query{}
	for _, q := range qs {
		open[q.tx] = append(open[q.tx], q)
	}
	for _, d := range got {
		if d.From.Port != n.Port || !(d.From.IP.Equal(n.Addr.IP) || d.From.IP.Equal(net.IPv6loopback)) {
			return fmt.Errorf("a reply came from %v, the crawler is %v", d.From, n.Addr)
		}
		m, err := reply(d)
		if err != nil {
			return err
		}
		tx := m["t"].(string)
		if len(open[tx]) == 0 {
			return fmt.Errorf("surplus reply or unknown transaction id: %q", d.Data)
		}
		q := open[tx][0]
		open[tx] = open[tx][1:]
		r, ok := m["r"].(ref.Dict)
		if m["y"] != "r" || !ok {
			return fmt.Errorf("the reply to %q is not a response: %q", q.data, d.Data)
		}
		rid, _ := r["id"].(string)
		if len(rid) != 20 {
			return fmt.Errorf("the reply to %q has the node id %q", q.data, rid)
		}
		if *id == "" {
			*id = rid
		}
		if *id != rid {
			return fmt.Errorf("the node's own id changed from %q to %q", *id, rid)
		}
		switch q.q {
		case "find_node":
			if s, ok := r["nodes"].(string); !ok || len(s)%26 != 0 {
				return fmt.Errorf("the reply to %q has nodes %#v", q.data, r["nodes"])
			}
		case "get_peers":
			if _, ok := r["token"].(string); !ok {
				return fmt.Errorf("the reply to %q has token %#v", q.data, r["token"])
			}
			s, nodes := r["nodes"].(string)
			_, values := r["values"].(ref.List)
			if !(nodes && len(s)%26 == 0) && !values {
				return fmt.Errorf("the reply to %q has neither nodes nor values: %q", q.data, d.Data)
			}
		}
	}
	for _, l := range open {
		if len(l) > 0 {
			return fmt.Errorf("no reply to %q", l[0].data)
		}
	}
	return nil
}

// byTx gives queries with equal ids on one socket a common method, so that
// every reply can be judged.
func byTx(qs []query, q query) query {
	for _, x := range qs {
		if x.tx == q.tx {
			return x
		}
	}
	return q
}

func TestC05(t *testing.T) {
	n := start(t, node.Opts{})
	defer n.Kill()
	socks := sockets(4)
	// the crawler listens on IPv6 as well where there is IPv6
	if netx.DualStack() {
		socks = append(socks, netx.MustOpen("::1"))
	}
	var id string
	run := func(rt *rapid.T, c *h.Case, max int, turns bool) {
		k := rapid.IntRange(1, max).Draw(rt, "queries")
		qs := make([][]query, len(socks))
		out := make([][]string, len(socks))
		want := make([]int, len(socks))
		kinds := map[string]bool{}
		text := ""
		for i := 0; i < k; i++ {
			s := rapid.IntRange(0, len(socks)-1).Draw(rt, "from")
			var q query
			if len(qs[s]) > 0 && rapid.IntRange(0, 4).Draw(rt, "repeat") == 0 {
				q = rapid.SampledFrom(qs[s]).Draw(rt, "same")
			} else {
				q = byTx(qs[s], genQuery(rt, methods))
			}
			kinds[q.q] = true
			text += fmt.Sprintf(" %d:%q", s, q.data)
			qs[s] = append(qs[s], q)
			out[s] = append(out[s], q.data)
			want[s]++
			if turns {
				one := make([][]string, len(socks))
				one[s] = []string{q.data}
				w := make([]int, len(socks))
				w[s] = 1
				c.Input("%q", q.data)
				got := exchange(rt, n, socks, one, w)
				for j := range socks {
					var mine []query
					if j == s {
						mine = []query{q}
					}
					if err := checkReplies(n, &id, mine, got[j]); err != nil {
						rt.Fatalf("socket %d: %v", j, err)
					}
				}
			}
		}
		c.NonTrivial(len(kinds) >= 2 || (turns && k >= 2))
		if turns {
			return
		}
		c.Input("%d queries:%s", k, text)
		got := exchange(rt, n, socks, out, want)
		for i := range socks {
			if err := checkReplies(n, &id, qs[i], got[i]); err != nil {
				rt.Fatalf("socket %d: %v", i, err)
			}
		}
	}
	h.Check(t, "sequence", "1 to 5 valid queries of drawn methods, ids, extra fields and key orders from 4 IPv4 addresses and ::1, one in five a repetition, each awaited; non-trivial: at least 2 queries", 500, 12000,
		func(rt *rapid.T, c *h.Case) { run(rt, c, 5, true) })
	h.Check(t, "batch", "1 to 40 valid queries sent at once from 4 IPv4 addresses and ::1, one in five a repetition; non-trivial: at least two methods", 700, 15000,
		func(rt *rapid.T, c *h.Case) { run(rt, c, 40, false) })
}
