package nodet

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"pgregory.net/rapid"
	"verif/harness/h"
	"verif/harness/node"
	"verif/harness/peer"
	"verif/harness/ref"
)

// announcer is a peer that announces one torrent.
type announcer struct {
	kind   string
	server *peer.Server
	port   int
	sock   int

	reforms bool // the first connection is served badly
}

// barrier holds callers until n came or a while passed.
type barrier struct {
	n    int
	mu   sync.Mutex
	here int
	open chan bool
}

func (b *barrier) wait() {
	if b.n == 0 {
		return
	}
	b.mu.Lock()
	if b.here == 0 {
		b.open = make(chan bool)
	}
	open := b.open
	if b.here++; b.here == b.n {
		b.here = 0
		close(open)
	}
	b.mu.Unlock()
	select {
	case <-open:
	case <-time.After(200 * time.Millisecond):
	}
}

// dishonest draws a peer that does not give the metadata whose hash it
// announces.
func dishonest(rt *rapid.T, hash string, meta []byte) (string, func(*peer.Conn)) {
	hs := peer.HandShake([8]byte{5: 0x10}, hash, "-XX0001-abcdefghijkl")
	size := len(meta)
	ext := func(n int) []byte {
		return peer.Ext(0, ref.Dict{"m": ref.Dict{"ut_metadata": 2}, "metadata_size": n}, nil)
	}
	say := func(b ...[]byte) func(*peer.Conn) {
		return func(c *peer.Conn) {
			c.ReadHandShake()
			for _, x := range b {
				c.Write(x)
			}
			c.SetReadDeadline(time.Now().Add(500 * time.Millisecond))
			c.ReadMsg()
			c.ReadMsg()
		}
	}
	pieces := func(m []byte) []byte {
		var b []byte
		for i := 0; i < peer.Pieces(len(m)); i++ {
			b = append(b, peer.Data(1, m, i)...)
		}
		return b
	}
	other := append([]byte(nil), meta...)
	other[rapid.IntRange(0, size-1).Draw(rt, "at")] ^= byte(rapid.IntRange(1, 255).Draw(rt, "x"))
	switch k := rapid.IntRange(0, 9).Draw(rt, "dishonest"); k {
	case 0:
		return "one byte wrong", say(hs, ext(size), pieces(other))
	case 1:
		other = append(other, 'x')
		return "too long", say(hs, ext(size+1), pieces(other))
	case 2:
		return "cut short", say(hs, ext(size), pieces(meta[:size-1]))
	case 3:
		return "claims less", say(hs, ext(max(1, size-1)), pieces(meta[:max(1, size-1)]))
	case 4:
		return "hangs up", func(c *peer.Conn) { c.ReadHandShake(); c.Write(hs); c.Write(ext(size)) }
	case 5:
		return "stalls", func(c *peer.Conn) { c.ReadHandShake(); c.Write(hs); time.Sleep(1500 * time.Millisecond) }
	case 6:
		return "garbage", say(bytes.Repeat([]byte("garbage!"), 40))
	case 7:
		return "rejects", say(hs, ext(size), peer.Ext(1, ref.Dict{"msg_type": 2, "piece": 0}, nil))
	case 8:
		return "bad piece number", say(hs, ext(size), peer.Ext(1, ref.Dict{"msg_type": 1, "piece": rapid.SampledFrom([]int{-1, 1 << 20, peer.Pieces(size)}).Draw(rt, "piece"), "total_size": size}, meta[:1]))
	}
	m := peer.Meta(size, byte(size)+1)
	return "other metadata", say(hs, ext(size), pieces(m))
}

func TestC24(t *testing.T) {
	n := start(t, node.Opts{FetchPool: 4})
	defer n.Kill()
	dir := filepath.Join(n.Dir, "torrent")
	socks := sockets(4)
	stored := map[string][]byte{} // hex hash to contents
	past := map[string]bool{}     // the names stored before the directory was removed
	forget := func() {
		for name := range stored {
			past[name] = true
		}
		stored = map[string][]byte{}
	}
	serial := 0
	right := func(name string, b []byte) bool {
		// a second fetch of an earlier case may end after the directory was removed
		if past[name] && name == hex.EncodeToString([]byte(peer.Hash(b))) {
			return true
		}
		m, ok := stored[name]
		return ok && bytes.Equal(b, m)
	}
	// wrong describes a file that should not be as it is
	wrong := func() string {
		es, err := os.ReadDir(dir)
		if err != nil {
			return ""
		}
		for _, e := range es {
			b, err := os.ReadFile(filepath.Join(dir, e.Name()))
			if err != nil {
				return err.Error()
			}
			name := strings.TrimSuffix(e.Name(), ".torrent")
			if e.Name() == name || !right(name, b) {
				return fmt.Sprintf("%s with %d bytes that hash to %x", e.Name(), len(b), peer.Hash(b))
			}
		}
		return ""
	}
	files := func() map[string]string {
		r := map[string]string{}
		es, _ := os.ReadDir(dir)
		for _, e := range es {
			if b, err := os.ReadFile(filepath.Join(dir, e.Name())); err == nil {
				r[e.Name()] = string(b)
			}
		}
		return r
	}
	h.Check(t, "stored", "2 to 6 torrents (20 bytes to 5 pieces, some 1 to 3 MB), each announced by 1 to 3 peers at once: honest, or dishonest in one of ten ways, first dishonest and then, announced again, honest, or not listening; in half of the cases honest peers send their last pieces at the same moment; four fetch workers; the torrent directory removed before in a third of the cases, files of other sizes left under some of the names; every torrent with an honest peer is stored exactly, no other file exists; non-trivial: honest and dishonest peers", 55, 2500,
		func(rt *rapid.T, c *h.Case) {
			serial++
			if rapid.IntRange(0, 2).Draw(rt, "remove") == 0 {
				// a late second fetch may store a file while this removes them
				if !h.Eventually(10*time.Second, func() bool { return os.RemoveAll(dir) == nil }) {
					h.Infra("%v", os.RemoveAll(dir))
				}
				forget()
			}
			type torrent struct {
				meta  []byte
				hash  string
				peers []announcer
			}
			var ts []torrent
			text, honest, bad := "", 0, 0
			old := map[string]string{} // contents left under a name
			// honest peers may send their last pieces at the same moment
			var gate barrier
			if rapid.Bool().Draw(rt, "together") {
				gate.n = rapid.IntRange(2, 4).Draw(rt, "at once")
				text += fmt.Sprintf(" (last pieces of %d at once)", gate.n)
			}
			for i := rapid.IntRange(2, 6).Draw(rt, "torrents"); i > 0; i-- {
				size := rapid.OneOf(rapid.IntRange(20, 400), rapid.IntRange(16380, 80000), rapid.SampledFrom([]int{16384, 32768, 65536, 131072})).Draw(rt, "size")
				if rapid.IntRange(0, 9).Draw(rt, "big") == 0 {
					size = rapid.OneOf(rapid.IntRange(1<<20, 3<<20), rapid.Map(rapid.IntRange(64, 192), func(n int) int { return n << 14 })).Draw(rt, "bytes")
				}
				m := peer.DrawMeta(rt, size)
				copy(m, fmt.Sprintf("%d.%d", serial, i))
				x := torrent{meta: m, hash: peer.Hash(m)}
				text += fmt.Sprintf(" %d bytes:", size)
				ok := false
				for j := rapid.IntRange(1, 3).Draw(rt, "announcers"); j > 0; j-- {
					s := rapid.IntRange(0, len(socks)-1).Draw(rt, "from")
					ip := socks[s].Addr.IP.String()
					a := announcer{sock: s, kind: "honest"}
					plan := peer.Plan{Meta: m, ExtId: rapid.IntRange(1, 9).Draw(rt, "extId"), Reserved: [8]byte{5: 0x10}, Hold: gate.wait}
					switch rapid.IntRange(0, 5).Draw(rt, "kind") {
					case 0, 1, 2:
						a.server = peer.MustListen(ip, plan.Script(func(string) {}))
						a.port = a.server.Addr.Port
						honest++
						ok = true
					case 3:
						// announces again once its bad connection ended
						what, f := dishonest(rt, x.hash, m)
						var served atomic.Int64
						a.kind = "honest after " + what
						a.server = peer.MustListen(ip, func(c *peer.Conn) {
							if served.Add(1) == 1 {
								f(c)
							} else {
								plan.Script(func(string) {})(c)
							}
						})
						a.port = a.server.Addr.Port
						a.reforms = true
						honest++
						bad++
						ok = true
					case 4:
						var f func(*peer.Conn)
						a.kind, f = dishonest(rt, x.hash, m)
						a.server = peer.MustListen(ip, f)
						a.port = a.server.Addr.Port
						bad++
					default:
						a.kind, a.port = "absent", rapid.IntRange(1, 9).Draw(rt, "port")
						bad++
					}
					if a.server != nil {
						defer a.server.Close()
					}
					text += " " + a.kind
					x.peers = append(x.peers, a)
				}
				if ok && rapid.IntRange(0, 3).Draw(rt, "old file") == 0 {
					// left there by something else, it is replaced as a whole
					k := rapid.SampledFrom([]int{0, 1, size - 1, size, size + 1, size + 5000}).Draw(rt, "old size")
					if err := os.MkdirAll(dir, 0777); err != nil {
						h.Infra("%v", err)
					}
					old[hex.EncodeToString([]byte(x.hash))+".torrent"] = strings.Repeat("?", k)
					if err := os.WriteFile(filepath.Join(dir, hex.EncodeToString([]byte(x.hash))+".torrent"), bytes.Repeat([]byte{'?'}, k), 0666); err != nil {
						h.Infra("%v", err)
					}
					text += fmt.Sprintf(" (old file of %d)", k)
				}
				if ok {
					stored[hex.EncodeToString([]byte(x.hash))] = m
				}
				ts = append(ts, x)
			}
			c.Input("%s", text)
			c.NonTrivial(honest > 0 && bad > 0)
			announce := func(x torrent, a announcer) {
				socks[a.sock].Send(n.Addr, string(ref.Encode(ref.Dict{"t": "an", "y": "q", "q": "announce_peer", "a": ref.Dict{"id": "abcdefghij0123456789", "info_hash": x.hash, "port": a.port, "token": "t"}})))
			}
			for _, x := range ts {
				for _, a := range x.peers {
					announce(x, a)
				}
			}
			// peers that serve well the second time announce again
			h.Eventually(12*time.Second, func() bool {
				for _, x := range ts {
					for _, a := range x.peers {
						if a.reforms && (a.server.Accepted() == 0 || a.server.Busy() > 0) {
							return false
						}
					}
				}
				return true
			})
			for _, x := range ts {
				for _, a := range x.peers {
					if a.reforms {
						announce(x, a)
					}
				}
			}
			have := func(x torrent) bool {
				b, err := os.ReadFile(filepath.Join(dir, hex.EncodeToString([]byte(x.hash))+".torrent"))
				return err == nil && bytes.Equal(b, x.meta)
			}
			for _, x := range ts {
				_, expected := stored[hex.EncodeToString([]byte(x.hash))]
				for try := 0; expected && !have(x); try++ {
					if try == 6 {
						rt.Fatalf("the torrent of %d bytes, announced by an honest peer, is not stored; %s", len(x.meta), n.Stderr())
					}
					if try > 0 {
						// whatever kept this one away, none may be stored wrongly
						bad := ""
						if !h.Eventually(4*time.Second, func() bool {
							bad = ""
							for name, b := range files() {
								if o, left := old[name]; !right(strings.TrimSuffix(name, ".torrent"), []byte(b)) && !(left && b == o) {
									bad = fmt.Sprintf("%s with %d bytes that hash to %x", name, len(b), peer.Hash([]byte(b)))
								}
							}
							return bad == ""
						}) {
							rt.Fatalf("torrent/ holds %s", bad)
						}
					}
					if try > 0 { // a loaded machine may not serve a peer within the crawler's second
						for _, a := range x.peers {
							if a.kind == "honest" || a.reforms {
								announce(x, a)
							}
						}
					}
					// busy peers hold back a worker for up to a second each
					h.Eventually(12*time.Second, func() bool { return have(x) || !n.Alive() })
					if !n.Alive() {
						rt.Fatalf("the crawler died: %s", n.Stderr())
					}
				}
			}
			// let the other fetches end
			h.Eventually(20*time.Second, func() bool {
				for _, x := range ts {
					for _, a := range x.peers {
						if a.server != nil && (a.server.Busy() > 0 || len(a.server.Requests()) == 0) {
							return false
						}
					}
				}
				return true
			})
			if !h.Eventually(5*time.Second, func() bool { return wrong() == "" }) {
				w := wrong()
				os.RemoveAll(dir)
				forget()
				rt.Fatalf("torrent/ holds %s", w)
			}
		})
}
