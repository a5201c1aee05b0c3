package nodet

import (
	"fmt"
	"net"
	"testing"
	"time"

	"pgregory.net/rapid"
	"verif/harness/h"
	"verif/harness/netx"
	"verif/harness/node"
	"verif/harness/ref"
)

// compact is one entry of a nodes string.
func compact(id string, a *net.UDPAddr) string {
	return id + string(a.IP.To4()) + string([]byte{byte(a.Port >> 8), byte(a.Port)})
}

// findNode checks that a datagram is a find_node query of the crawler and
// returns its transaction id and the crawler's id.
func findNode(n *node.Node, d netx.Datagram) (tx, id string, err error) {
	m, err := reply(d)
	if err != nil {
		return "", "", err
	}
	a, _ := m["a"].(ref.Dict)
	id, _ = a["id"].(string)
	target, _ := a["target"].(string)
	if m["y"] != "q" || m["q"] != "find_node" || len(id) != 20 || len(target) != 20 {
		return "", "", fmt.Errorf("%q is no find_node query", d.Data)
	}
	if d.From.Port != n.Port {
		return "", "", fmt.Errorf("the query %q came from %v, the crawler is at port %d", d.Data, d.From, n.Port)
	}
	return m["t"].(string), id, nil
}

// genNear draws an id that shares p bits with local.
func genNear(rt *rapid.T, local string, p int) string {
	b := make([]byte, 20)
	copy(b, rapid.SliceOfN(rapid.Byte(), 20, 20).Draw(rt, "bytes"))
	if p >= 160 {
		return local
	}
	for i := 0; i < p/8; i++ {
		b[i] = local[i]
	}
	i, bit := p/8, p%8
	for k := 0; k < bit; k++ {
		mask := byte(0x80 >> k)
		b[i] = b[i]&^mask | local[i]&mask
	}
	mask := byte(0x80 >> bit)
	b[i] = b[i]&^mask | (local[i]^mask)&mask
	return string(b)
}

// world is a crawler among simulated nodes.
type world struct {
	n      *node.Node
	boots  []*netx.Sock
	fakes  []*netx.Sock
	decoys []*netx.Sock
	id     string
	mux    *netx.Sock
	serial int
}

func newWorld(rt *rapid.T, boots, fakes, pool int, flag bool) *world {
	w := &world{}
	var hosts []string
	for i := 0; i < boots; i++ {
		s := netx.MustOpen(fmt.Sprintf("127.0.0.%d", 20+i))
		w.boots = append(w.boots, s)
		hosts = append(hosts, s.Addr.String())
	}
	for i := 0; i < fakes; i++ {
		s := netx.MustOpen(fmt.Sprintf("127.%d.0.%d", i%3, 1+i))
		w.fakes = append(w.fakes, s)
		// who mixes up the byte order, the port or the address ends here
		if p := s.Addr.Port>>8 | s.Addr.Port&0xff<<8; p > 0 && p != s.Addr.Port {
			if d, err := netx.Open(s.Addr.IP.String(), p); err == nil {
				w.decoys = append(w.decoys, d)
			}
		}
	}
	w.mux = netx.MustOpen("127.0.0.1")
	n, err := node.Start(node.Opts{Bootstrap: hosts, WorkPool: pool, Flag: flag})
	if err != nil {
		for _, l := range [][]*netx.Sock{w.boots, w.fakes, w.decoys, {w.mux}} {
			for _, s := range l {
				s.Close()
			}
		}
		if node.PortTaken(err) {
			return newWorld(rt, boots, fakes, pool, flag)
		}
		rt.Fatalf("%v", err)
	}
	w.n = n
	return w
}

func (w *world) close() {
	w.n.Kill()
	for _, l := range [][]*netx.Sock{w.boots, w.fakes, w.decoys, {w.mux}} {
		for _, s := range l {
			s.Close()
		}
	}
}

// barrier returns when a crawler with one worker handled all that was sent
// before on the same socket.
func (w *world) barrier(rt *rapid.T, s *netx.Sock) {
	w.serial++
	tx := fmt.Sprintf("\x00b%d", w.serial)
	s.Send(w.n.Addr, node.PingMsg(tx))
	if !h.Eventually(patience, func() bool {
		for _, d := range s.All() {
			if m, err := reply(d); err == nil && m["t"] == tx {
				return true
			}
		}
		return !w.n.Alive()
	}) {
		rt.Fatalf("the crawler stopped answering")
	}
	if !w.n.Alive() {
		rt.Fatalf("the crawler died: %s", w.n.Stderr())
	}
}

// queries are the datagrams a socket got that are no replies to barriers.
func queries(s *netx.Sock) []netx.Datagram {
	var r []netx.Datagram
	for _, d := range s.All() {
		if m, err := reply(d); err == nil && m["y"] != "q" {
			continue
		}
		r = append(r, d)
	}
	return r
}

// entry of a response, for the text.
type entry struct {
	id   string
	addr *net.UDPAddr
	fake int // -1: not one of ours
}

func TestC11(t *testing.T) {
	h.Check(t, "model", "one crawler with one worker and 1 to 3 bootstrap nodes; up to 12, or 20 to 40, responses to its queries, in drawn order, each with up to 35 entries, what a datagram holds: new ids of drawn prefix length at 12 simulated nodes, duplicates, same id elsewhere, unreachable addresses, port 0, a partial entry, or malformed bodies; every entry the reference table newly accepts is queried exactly once and nobody else is; non-trivial: at least two responses that list nodes and one entry that is rejected or unreachable", 130, 5000,
		func(rt *rapid.T, c *h.Case) {
			w := newWorld(rt, rapid.IntRange(1, 3).Draw(rt, "bootstraps"), 12, 1, rapid.Bool().Draw(rt, "flag"))
			defer w.close()
			type open struct {
				s  *netx.Sock
				tx string
			}
			var outstanding []open
			take := func(s *netx.Sock, d netx.Datagram) {
				tx, id, err := findNode(w.n, d)
				if err != nil {
					rt.Fatal(err)
				}
				if w.id == "" {
					w.id = id
				}
				if id != w.id {
					rt.Fatalf("the crawler's id changed from %q to %q", w.id, id)
				}
				outstanding = append(outstanding, open{s, tx})
			}
			for _, b := range w.boots {
				d, ok := b.Recv(patience)
				if !ok {
					rt.Fatalf("bootstrap node %v was not queried", b.Addr)
				}
				take(b, d)
			}
			table := ref.NewTable(ref.RNode{Id: w.id, Addr: fmt.Sprintf(":%d", w.n.Port)}, 8, 160)
			seen := make([]int, len(w.fakes))
			bootSeen := make([]int, len(w.boots))
			for i := range bootSeen {
				bootSeen[i] = 1
			}
			var known []entry
			text := ""
			listing, refused := 0, 0
			responses, most, far := rapid.IntRange(1, 12).Draw(rt, "responses"), 6, 30
			if rapid.IntRange(0, 12).Draw(rt, "long") == 0 { // hundreds of nodes become known
				responses, most, far = rapid.IntRange(20, 40).Draw(rt, "responses"), 30, 159
			}
			for r := responses; r > 0; r-- {
				o := outstanding[rapid.IntRange(0, len(outstanding)-1).Draw(rt, "which")]
				body := ref.Dict{"id": gen20().Draw(rt, "responder")}
				want := make([]int, len(w.fakes))  // queries that must come
				maybe := make([]int, len(w.fakes)) // queries that may come, for nodes known before
				var added []entry
				if kind := rapid.IntRange(0, 9).Draw(rt, "body"); kind == 0 {
					body["nodes"] = rapid.SampledFrom([]ref.Value{5, ref.List{"x"}, ref.Dict{}, "", "short", string(make([]byte, 25))}).Draw(rt, "malformed")
					text += " malformed"
				} else {
					nodes := ""
					k := rapid.OneOf(rapid.IntRange(0, most), rapid.IntRange(0, most), rapid.IntRange(0, 35), rapid.IntRange(31, 35)).Draw(rt, "entries")
					text += " ["
					for i := 0; i < k; i++ {
						var e entry
						e.fake = rapid.IntRange(0, len(w.fakes)-1).Draw(rt, "node")
						e.addr = w.fakes[e.fake].Addr
						kind := rapid.IntRange(0, 11).Draw(rt, "entry")
						switch {
						case kind == 0 && len(known) > 0:
							e = known[rapid.IntRange(0, len(known)-1).Draw(rt, "dup")]
						case kind == 1 && len(known) > 0:
							e.id = known[rapid.IntRange(0, len(known)-1).Draw(rt, "same id")].id
						default:
							if kind == 2 {
								e.fake = -1
								e.addr = &net.UDPAddr{IP: net.IPv4(192, 0, 2, byte(i)), Port: 9}
							}
							if kind == 3 {
								e.fake = -1
								e.addr = &net.UDPAddr{IP: e.addr.IP, Port: 0}
							}
							if kind == 4 {
								e.fake = -1
								e.addr = &net.UDPAddr{IP: net.IPv4(0, 0, 0, 0), Port: 0}
							}
							e.id = genNear(rt, w.id, rapid.OneOf(rapid.IntRange(0, 3), rapid.IntRange(0, far), rapid.SampledFrom([]int{159, 160, 8, 16, 7})).Draw(rt, "prefix"))
						}
						nodes += compact(e.id, e.addr)
						n := ref.RNode{Id: e.id, Addr: e.addr.String()}
						had := table.Has(n)
						ok := table.Add(n)
						text += fmt.Sprintf(" %d@%d", ref.PrefixLen(e.id, w.id), e.fake)
						if !ok {
							text += "(full)"
						}
						if !ok || e.fake < 0 {
							refused++
						}
						if e.fake >= 0 && ok && !had {
							want[e.fake]++
						}
						if e.fake >= 0 && had {
							maybe[e.fake]++
						}
						added = append(added, e)
						known = append(known, e)
					}
					if rapid.IntRange(0, 3).Draw(rt, "partial") == 0 {
						nodes += genBytes(1, 25).Draw(rt, "tail")
						text += " partial"
					}
					text += " ]"
					if k > 0 {
						listing++
					}
					body["nodes"] = nodes
				}
				c.Input("%s", text)
				text = ""
				msg := string(ref.Encode(ref.Dict{"t": o.tx, "y": "r", "r": body}))
				if len(msg) > 1024 {
					h.Infra("response of %d bytes", len(msg))
				}
				o.s.Send(w.n.Addr, msg)
				w.barrier(rt, o.s)
				for i, s := range w.fakes {
					var got []netx.Datagram
					h.Eventually(patience, func() bool { got = queries(s)[seen[i]:]; return len(got) >= want[i] })
					if len(got) < want[i] || len(got) > want[i]+maybe[i] {
						rt.Fatalf("node %d (%v) got %d queries after a response listing %s, want %d", i, s.Addr, len(got), show(added, w.id), want[i])
					}
					for _, d := range got {
						take(s, d)
					}
					seen[i] += len(got)
				}
				for i, s := range w.boots {
					if got := queries(s); len(got) != bootSeen[i] {
						rt.Fatalf("bootstrap node %v, which no response listed, got %q", s.Addr, got[bootSeen[i]].Data)
					}
				}
				for _, s := range append(w.decoys, w.mux) {
					if got := queries(s); len(got) > 0 {
						rt.Fatalf("%v, which nobody mentioned, got %q", s.Addr, got[0].Data)
					}
				}
			}
			c.NonTrivial(listing >= 2 && refused > 0)
			c.Label("split", table.Splits > 0)
			c.Label("more than 100 nodes known", table.Size() > 100)
			c.Label("rejections", table.Rejected > 0)
		})
	h.Check(t, "concurrent", "a crawler with 8 workers; 2 to 12 responses sent at once, which together list up to 7 new nodes, several of them more than once, and unreachable ones; every node is queried; non-trivial: at least 3 listed nodes and 3 responses", 60, 2500,
		func(rt *rapid.T, c *h.Case) {
			w := newWorld(rt, 2, 7, 8, false)
			defer w.close()
			var txs []string
			for _, b := range w.boots {
				d, ok := b.Recv(patience)
				if !ok {
					rt.Fatalf("bootstrap node %v was not queried", b.Addr)
				}
				tx, id, err := findNode(w.n, d)
				if err != nil {
					rt.Fatal(err)
				}
				w.id = id
				txs = append(txs, tx)
			}
			// at most 7 ids, one per node: the first bucket holds them all
			var ids []string
			for range w.fakes {
				ids = append(ids, gen20().Draw(rt, "id"))
			}
			listed := map[int]bool{}
			msgs := make([][]string, len(w.boots))
			k := rapid.IntRange(2, 12).Draw(rt, "responses")
			text := ""
			for i := 0; i < k; i++ {
				nodes := ""
				text += " ["
				for j := rapid.IntRange(1, 5).Draw(rt, "entries"); j > 0; j-- {
					f := rapid.IntRange(0, len(w.fakes)-1).Draw(rt, "node")
					nodes += compact(ids[f], w.fakes[f].Addr)
					listed[f] = true
					text += fmt.Sprint(f, " ")
				}
				b := rapid.IntRange(0, 1).Draw(rt, "from")
				text += "]"
				msgs[b] = append(msgs[b], string(ref.Encode(ref.Dict{"t": txs[b], "y": "r", "r": ref.Dict{"id": gen20().Draw(rt, "responder"), "nodes": nodes}})))
			}
			c.Input("%s", text)
			c.NonTrivial(len(listed) >= 3 && k >= 3)
			done := make(chan bool)
			for b := range w.boots {
				go func(b int) {
					for _, m := range msgs[b] {
						w.boots[b].Send(w.n.Addr, m)
					}
					done <- true
				}(b)
			}
			<-done
			<-done
			for i, s := range w.fakes {
				if listed[i] {
					if !h.Eventually(patience, func() bool { return len(queries(s)) > 0 || !w.n.Alive() }) || !w.n.Alive() {
						rt.Fatalf("node %d was listed and never queried; %s", i, w.n.Stderr())
					}
				}
			}
			time.Sleep(2 * time.Millisecond)
			for i, s := range w.fakes {
				for _, d := range queries(s) {
					if _, id, err := findNode(w.n, d); err != nil || id != w.id {
						rt.Fatalf("node %d got %q: %v", i, d.Data, err)
					}
					if !listed[i] {
						rt.Fatalf("node %d, which nobody mentioned, got %q", i, d.Data)
					}
				}
			}
		})
}

func show(es []entry, local string) string {
	s := ""
	for _, e := range es {
		s += fmt.Sprintf("[%d bits, node %d, %v] ", ref.PrefixLen(e.id, local), e.fake, e.addr)
	}
	return s
}
