package dhtt

import (
	"fmt"
	"net"
	"testing"

	"github.com/GalaIO/P2Pcrawler/dht"
	"pgregory.net/rapid"
	"verif/harness/h"
	"verif/harness/ref"
)

func flip(id string, bit int) string {
	b := []byte(id)
	b[bit/8] ^= 1 << uint(7-bit%8)
	return string(b)
}

// genNear draws an id whose common prefix with host is drawn first.
func genNear(host string, pool func() []string) *rapid.Generator[string] {
	return rapid.Custom(func(rt *rapid.T) string {
		switch rapid.IntRange(0, 9).Draw(rt, "idKind") {
		case 0:
			if p := pool(); len(p) > 0 {
				return rapid.SampledFrom(p).Draw(rt, "again")
			}
		case 1:
			if p := pool(); len(p) > 0 {
				// one bit away from a known id; bit 2 of a byte is the letter-case bit
				id := rapid.SampledFrom(p).Draw(rt, "near")
				return flip(id, 8*rapid.IntRange(0, 19).Draw(rt, "byte")+rapid.SampledFrom([]int{2, 2, 7, 0}).Draw(rt, "bit"))
			}
		case 2:
			return genId().Draw(rt, "any")
		case 3:
			return host
		}
		p := rapid.OneOf(rapid.IntRange(0, 4), rapid.IntRange(0, 159), rapid.IntRange(150, 159)).Draw(rt, "prefix")
		id := flip(host, p)
		b := []byte(id)
		// vary what is behind the first differing bit
		for i := p/8 + 1; i < 20; i++ {
			if rapid.IntRange(0, 2).Draw(rt, "vary") == 0 {
				b[i] = byte(rapid.IntRange(0, 255).Draw(rt, "b"))
			}
		}
		if rest := 7 - p%8; rest > 0 {
			b[p/8] ^= byte(rapid.IntRange(0, 1<<uint(rest)-1).Draw(rt, "low"))
		}
		return string(b)
	})
}

func addr(i int) *net.UDPAddr {
	return &net.UDPAddr{IP: net.IPv4(10, 0, byte(i>>8), byte(i)).To4(), Port: 1000 + i}
}

// genAddr draws an address that shares the host, the port, both or neither with
// one seen before; fresh is an address not seen before.
func genAddr(rt *rapid.T, seen []*net.UDPAddr, fresh *net.UDPAddr) *net.UDPAddr {
	if len(seen) == 0 {
		return fresh
	}
	o := rapid.SampledFrom(seen).Draw(rt, "known address")
	switch rapid.IntRange(0, 11).Draw(rt, "address") {
	case 0, 1:
		return &net.UDPAddr{IP: o.IP, Port: o.Port}
	case 2, 3:
		return &net.UDPAddr{IP: o.IP, Port: fresh.Port}
	case 4:
		return &net.UDPAddr{IP: o.IP, Port: o.Port ^ 1}
	case 5:
		return &net.UDPAddr{IP: fresh.IP, Port: o.Port}
	}
	return fresh
}

func key(n *dht.NodeInfo) ref.RNode { return ref.RNode{Id: n.Id, Addr: n.Addr.String()} }

// checkTable compares every observation with the model.
func checkTable(rt *rapid.T, table *dht.RouteTable, m *ref.Table, ids []string, what string) {
	if got, want := table.Size(), m.Size(); got != want {
		rt.Fatalf("%s: Size() = %d, the table holds %d nodes", what, got, want)
	}
	if got, want := table.Full(), m.Full(); got != want {
		rt.Fatalf("%s: Full() = %v, want %v", what, got, want)
	}
	for _, id := range ids {
		got := table.Find(id)
		if stored := m.HasId(id); (got != nil) != stored {
			rt.Fatalf("%s: Find(%x) = %v, stored %v", what, id, got, stored)
		} else if stored && (got.Id != id || !m.Has(key(got))) {
			rt.Fatalf("%s: Find(%x) = %x %v, which is not a stored node with that id", what, id, got.Id, got.Addr)
		}
	}
}

// answer is what a lookup returned, and what it held then.
type answer struct {
	got  []*dht.NodeInfo
	held []ref.RNode
	what string
}

func note(got []*dht.NodeInfo, what string) answer {
	a := answer{got: got, what: what}
	for _, n := range got {
		a.held = append(a.held, key(n))
	}
	return a
}

// unchanged: what the table does later does not reach into an answer given before.
func (a answer) unchanged(rt *rapid.T) {
	for i, n := range a.got {
		if n == nil || key(n) != a.held[i] {
			rt.Fatalf("%s: a node of the answer changed later, from %x to %v", a.what, a.held[i], n)
		}
	}
}

func checkClosest(rt *rapid.T, table *dht.RouteTable, m *ref.Table, id string, k int, what string) {
	seen := map[ref.RNode]bool{}
	hit := false
	for _, n := range table.FindClosest(id, k) {
		if n == nil {
			rt.Fatalf("%s: FindClosest(%x, %d) returned a nil node", what, id, k)
		}
		if !m.Has(key(n)) {
			rt.Fatalf("%s: FindClosest(%x, %d) returned %x %v, which is not stored", what, id, k, n.Id, n.Addr)
		}
		if seen[key(n)] {
			rt.Fatalf("%s: FindClosest(%x, %d) returned %x twice", what, id, k, n.Id)
		}
		seen[key(n)] = true
		hit = hit || n.Id == id
	}
	if m.HasId(id) && !hit && k > 0 {
		rt.Fatalf("%s: FindClosest(%x, %d) leaves out the node stored under that id", what, id, k)
	}
}

func TestC13(t *testing.T) {
	h.Check(t, "insertions", "up to 150 insertions of ids with drawn common prefixes, repeats, one-bit and letter-case neighbours, same id at other hosts, ports or both, into tables of bucket size 1 to 8 and capacity 0 to 160, compared after every step with a Kademlia model; non-trivial: at least one split and one rejection", 4800, 40000,
		func(rt *rapid.T, c *h.Case) {
			k := rapid.IntRange(1, 8).Draw(rt, "k")
			capacity := rapid.OneOf(rapid.IntRange(0, 4), rapid.IntRange(0, 160), rapid.Just(160)).Draw(rt, "capacity")
			host := dht.NewNodeInfo(genId().Draw(rt, "host"), addr(0))
			table := dht.NewRouteTable(host, k, capacity)
			m := ref.NewTable(key(host), k, capacity)
			n := rapid.OneOf(rapid.IntRange(1, 20), rapid.IntRange(20, 150)).Draw(rt, "n")
			ids := []string{host.Id}
			var nodes []*dht.NodeInfo
			seen := []*net.UDPAddr{host.Addr}
			checkTable(rt, table, m, ids, "empty table")
			rejected, again, trace := 0, 0, ""
			var answers []answer
			for i := 0; i < n; i++ {
				id := genNear(host.Id, func() []string { return ids }).Draw(rt, "id")
				a := genAddr(rt, seen, addr(i+1))
				seen = append(seen, a)
				node := dht.NewNodeInfo(id, a)
				if len(nodes) > 0 && rapid.IntRange(0, 9).Draw(rt, "repeat") == 0 {
					o := rapid.SampledFrom(nodes).Draw(rt, "node")
					node = dht.NewNodeInfo(o.Id, &net.UDPAddr{IP: o.Addr.IP, Port: o.Addr.Port})
				}
				trace += fmt.Sprintf(" %x@%v", node.Id, node.Addr)
				ids = append(ids, node.Id)
				nodes = append(nodes, node)
				known := m.Has(key(node))
				stored := m.Add(key(node))
				err := table.AddNode(node)
				what := fmt.Sprintf("k %d capacity %d host %x after%s", k, capacity, host.Id, trace)
				if known {
					again++
				} else if (err == nil) != stored {
					rt.Fatalf("%s: AddNode = %v, stored by the Kademlia rule: %v", what, err, stored)
				}
				if !stored {
					rejected++
				}
				probe := []string{node.Id, flip(node.Id, rapid.IntRange(0, 159).Draw(rt, "probe"))}
				if i == n-1 || i%16 == 0 {
					probe = append(probe, ids...)
				}
				checkTable(rt, table, m, probe, what)
				if i == n-1 || i%16 == 0 {
					checkClosest(rt, table, m, host.Id, 1000, what)
				}
				if i%4 == 0 {
					target, kk := probe[0], rapid.IntRange(1, 20).Draw(rt, "kk")
					answers = append(answers, note(table.FindClosest(target, kk), fmt.Sprintf("%s: FindClosest(%x, %d)", what, target, kk)))
				}
				checkClosest(rt, table, m, probe[rapid.IntRange(0, 1).Draw(rt, "target")], rapid.IntRange(1, 20).Draw(rt, "kk"), what)
			}
			for _, a := range answers {
				a.unchanged(rt)
			}
			c.Input("k %d capacity %d host %x nodes%s", k, capacity, host.Id, trace)
			c.NonTrivial(m.Splits > 0 && rejected > 0)
			c.Label("split", m.Splits > 0)
			c.Label("rejected", rejected > 0)
			c.Label("duplicate", again > 0)
			c.Label("full", m.Full())
		})
	h.Check(t, "bucket", "up to 30 additions to one bucket of capacity 0 to 10, partly of known nodes, and every observation after each, compared with a list; non-trivial: an addition was refused and a known node probed", 3600, 30000,
		func(rt *rapid.T, c *h.Case) {
			capacity := rapid.IntRange(0, 10).Draw(rt, "capacity")
			b := dht.NewBucket(capacity)
			var m []ref.RNode
			refused, known := 0, 0
			n := rapid.IntRange(0, 30).Draw(rt, "n")
			trace := ""
			for i := 0; i <= n; i++ {
				same := func(what string, got []*dht.NodeInfo) {
					if len(got) != len(m) {
						rt.Fatalf("%s gives %d nodes, the bucket has %d", what, len(got), len(m))
					}
					left := map[ref.RNode]int{}
					for _, x := range m {
						left[x]++
					}
					for _, x := range got {
						if x == nil {
							rt.Fatalf("%s gives a nil node", what)
						}
						if left[key(x)]--; left[key(x)] < 0 {
							rt.Fatalf("%s gives %x %v, the bucket has %v", what, x.Id, x.Addr, m)
						}
					}
				}
				same("All", b.All())
				var seen []*dht.NodeInfo
				b.Iterator(func(x *dht.NodeInfo) { seen = append(seen, x) })
				same("Iterator", seen)
				if b.Size() != len(m) || b.Full() != (len(m) >= capacity) {
					rt.Fatalf("Size %d Full %v with %d of %d nodes", b.Size(), b.Full(), len(m), capacity)
				}
				node := dht.NewNodeInfo(genId().Draw(rt, "id"), addr(rapid.IntRange(0, 3).Draw(rt, "addr")))
				if len(m) > 0 && rapid.IntRange(0, 2).Draw(rt, "known") == 0 {
					o := rapid.SampledFrom(b.All()).Draw(rt, "node")
					node.Id = o.Id
					node.Addr = genAddr(rt, []*net.UDPAddr{o.Addr}, addr(rapid.IntRange(0, 3).Draw(rt, "other")))
				}
				exists := false
				for _, x := range m {
					exists = exists || x == key(node)
				}
				if exists {
					known++
				}
				if got := b.Exist(node); got != exists {
					rt.Fatalf("Exist(%x %v) = %v after%s", node.Id, node.Addr, got, trace)
				}
				trace += fmt.Sprintf(" %x@%v", node.Id, node.Addr)
				if ok := b.Add(node); ok != (len(m) < capacity) {
					rt.Fatalf("Add = %v with %d of %d nodes", ok, len(m), capacity)
				} else if ok {
					m = append(m, key(node))
				} else {
					refused++
				}
			}
			c.Input("capacity %d nodes%s", capacity, trace)
			c.NonTrivial(refused > 0 && known > 0)
		})
}
