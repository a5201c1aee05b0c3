package nodet

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
	"verif/harness/h"
	"verif/harness/netx"
	"verif/harness/node"
	"verif/harness/peer"
	"verif/harness/ref"
)

func TestC32(t *testing.T) {
	h.Check(t, "restarts", "2 to 4 runs of the crawler in one directory, each with 0 to 5 new torrents (20 bytes to 6 MB) announced by honest peers and 0 to 30 get_peers queries, ended by SIGKILL, SIGINT or SIGTERM at a drawn moment while they are fetched, stored and logged, as soon as a new file shows up, or when all is done; after a kill a file it was writing gets any further length, and some of the torrents not stored are left cut off at a drawn byte; in between everything stored and logged before must still be there; at the end every torrent is stored; non-trivial: a run was killed with traffic", 100, 3000,
		func(rt *rapid.T, c *h.Case) {
			dir := node.Scratch()
			defer os.RemoveAll(dir)
			port := netx.FreeUDPPort()
			conf := filepath.Join(dir, "conf/config.json")
			node.WriteJSON(conf, node.Conf(node.Opts{FetchPool: rapid.SampledFrom([]int{1, 4}).Draw(rt, "fetchers")}, port))
			confText, _ := os.ReadFile(conf)
			sock := netx.MustOpen("127.0.0.1")
			defer sock.Close()
			type torrent struct {
				meta []byte
				hash string
				srv  *peer.Server
			}
			var ts []torrent
			file := func(x torrent) string {
				return filepath.Join(dir, "torrent", hex.EncodeToString([]byte(x.hash))+".torrent")
			}
			have := func(x torrent) bool {
				b, err := os.ReadFile(file(x))
				return err == nil && bytes.Equal(b, x.meta)
			}
			// a stored file is whole, or what a write had done of it
			wrong := func(x torrent) bool {
				b, err := os.ReadFile(file(x))
				return err == nil && !bytes.HasPrefix(x.meta, b)
			}
			logText := func() string {
				b, _ := os.ReadFile(filepath.Join(dir, "logs", "infohash.log"))
				return string(b)
			}
			whole := map[string]torrent{} // stored when the last run ended
			log, id, text, serial := "", "", "", 0
			answeredAll := map[string]bool{} // hashes whose get_peers was answered
			begin := func() *node.Node {
				n := node.Run(dir, port)
				if err := n.Ready(60 * time.Second); err != nil {
					n.End()
					if node.PortTaken(err) {
						rt.Skip("port taken")
					}
					rt.Fatalf("run after (%s): %v", text, err)
				}
				sock.Reset()
				sock.Send(n.Addr, node.PingMsg("id"))
				d, ok := sock.Recv(patience)
				if !ok {
					n.End()
					rt.Fatalf("no answer to a ping")
				}
				m, err := reply(d)
				r, _ := m["r"].(ref.Dict)
				now, _ := r["id"].(string)
				if err != nil || len(now) != 20 || (id != "" && now != id) {
					n.End()
					rt.Fatalf("the node's id changed from %q to %q over a restart (%v)", id, now, err)
				}
				id = now
				for _, x := range whole {
					if !have(x) {
						n.End()
						rt.Fatalf("%s was stored whole before the restart and is not any more", file(x))
					}
				}
				if l := logText(); !strings.HasPrefix(l, log) {
					n.End()
					rt.Fatalf("the crawl log of %d bytes does not continue the %d bytes of the runs before", len(l), len(log))
				}
				if b, _ := os.ReadFile(conf); !bytes.Equal(b, confText) {
					n.End()
					rt.Fatalf("the configuration file was changed")
				}
				return n
			}
			announce := func(n *node.Node, x torrent) { sock.Send(n.Addr, announceMsg(x.hash, x.srv.Addr.Port)) }
			killed := false
			for run := rapid.IntRange(1, 3).Draw(rt, "runs"); run > 0; run-- {
				n := begin()
				fresh := rapid.IntRange(0, 5).Draw(rt, "torrents")
				for i := 0; i < fresh; i++ {
					size := rapid.OneOf(rapid.IntRange(20, 400), rapid.IntRange(16380, 80000), rapid.IntRange(1<<20, 6<<20)).Draw(rt, "size")
					m := peer.DrawMeta(rt, size)
					copy(m, fmt.Sprintf("%d.%d", run, i))
					plan := peer.Plan{Meta: m, ExtId: 4, Reserved: [8]byte{5: 0x10}}
					x := torrent{meta: m, hash: peer.Hash(m), srv: peer.MustListen("127.0.0.1", plan.Script(func(string) {}))}
					defer x.srv.Close()
					ts = append(ts, x)
				}
				sock.Reset()
				for _, x := range ts {
					if !have(x) {
						announce(n, x)
					}
				}
				asked := map[string]string{}
				for i := rapid.IntRange(0, 30).Draw(rt, "queries"); i > 0; i-- {
					serial++
					hash := fmt.Sprintf("%020d", serial)
					tx := fmt.Sprintf("g%d", serial)
					asked[tx] = hash
					sock.Send(n.Addr, getPeersMsg(tx, hash))
				}
				how := rapid.SampledFrom([]string{"killed", "killed", "killed", "SIGTERM", "SIGINT"}).Draw(rt, "end")
				var delay time.Duration
				if rapid.IntRange(0, 3).Draw(rt, "finish") == 0 {
					h.Eventually(4*time.Second, func() bool {
						for _, x := range ts {
							if !have(x) {
								return false
							}
						}
						return true
					})
				} else if how == "killed" && rapid.IntRange(0, 2).Draw(rt, "while writing") > 0 {
					// as soon as a file shows up that was not there
					old := map[string]bool{}
					for _, x := range whole {
						old[filepath.Base(file(x))] = true
					}
					for t0 := time.Now(); time.Since(t0) < 60*time.Millisecond; {
						es, _ := os.ReadDir(filepath.Join(dir, "torrent"))
						found := false
						for _, e := range es {
							found = found || !old[e.Name()]
						}
						if found {
							break
						}
					}
					how = "killed while writing"
				} else {
					delay = time.Duration(rapid.OneOf(rapid.IntRange(0, 3000), rapid.IntRange(0, 60000)).Draw(rt, "delay µs")) * time.Microsecond
					time.Sleep(delay)
				}
				if !n.Alive() {
					rt.Fatalf("the crawler ended by itself: %s", n.Stderr())
				}
				text += fmt.Sprintf(" %d torrents, %d queries, %s after %v;", fresh, len(asked), how, delay)
				// what came back up to here was answered before the end
				switch how {
				case "killed", "killed while writing":
					n.End()
					killed = killed || len(asked)+fresh > 0
				case "SIGTERM":
					n.Signal(syscall.SIGTERM)
				case "SIGINT":
					n.Signal(syscall.SIGINT)
				}
				if code, ended := n.Wait(shutdownBound); !ended || (!strings.HasPrefix(how, "killed") && code != 0) {
					n.End()
					rt.Fatalf("the crawler did not end well after %s: ended %v, status %d, %s", how, ended, code, n.Stderr())
				}
				time.Sleep(time.Millisecond)
				for _, d := range sock.All() {
					if m, err := reply(d); err == nil && m["y"] == "r" {
						if hash, ok := asked[m["t"].(string)]; ok {
							answeredAll[hash] = true
						}
					}
				}
				log = logText()
				for hash := range answeredAll {
					if strings.Count(log, hex.EncodeToString([]byte(hash))) != 1 {
						rt.Fatalf("the log has %d lines for %q, whose get_peers was answered before the crawler was ended (%s)", strings.Count(log, hex.EncodeToString([]byte(hash))), hash, text)
					}
				}
				for _, x := range ts {
					if have(x) {
						whole[x.hash] = x
					}
				}
				for _, x := range whole {
					if !have(x) {
						rt.Fatalf("%s was stored whole and is not any more", file(x))
					}
				}
				for _, x := range ts {
					if wrong(x) {
						rt.Fatalf("after (%s) %s has contents that are not the torrent of %d bytes nor its beginning", text, file(x), len(x.meta))
					}
				}
				// a kill between the creation and the end of a write leaves
				// any part of the torrent: too short a time to be hit often
				if strings.HasPrefix(how, "killed") {
					names := map[string]bool{}
					for _, x := range ts {
						names[filepath.Base(file(x))] = true
					}
					es, _ := os.ReadDir(filepath.Join(dir, "torrent"))
					for _, e := range es {
						// the crawler's own file for what it was writing
						if names[e.Name()] || len(ts) == 0 {
							continue
						}
						path := filepath.Join(dir, "torrent", e.Name())
						left, err := os.ReadFile(path)
						if err != nil {
							rt.Fatal(err)
						}
						for _, x := range ts {
							if bytes.HasPrefix(x.meta, left) {
								n := rapid.OneOf(rapid.Just(len(x.meta)), rapid.IntRange(len(left), len(x.meta))).Draw(rt, "written")
								if err := os.WriteFile(path, x.meta[:n], 0666); err != nil {
									rt.Fatal(err)
								}
								text += fmt.Sprintf(" %s was left with %d bytes and got %d;", e.Name(), len(left), n)
								c.Label("killed while writing", true)
								break
							}
						}
					}
					for _, x := range ts {
						if have(x) || rapid.IntRange(0, 1).Draw(rt, "cut off") == 0 {
							continue
						}
						n := rapid.OneOf(rapid.Just(0), rapid.IntRange(0, len(x.meta)-1)).Draw(rt, "cut at")
						if err := os.MkdirAll(filepath.Dir(file(x)), 0777); err != nil {
							rt.Fatal(err)
						}
						if err := os.WriteFile(file(x), x.meta[:n], 0666); err != nil {
							rt.Fatal(err)
						}
						text += fmt.Sprintf(" a torrent of %d bytes is cut off at %d;", len(x.meta), n)
					}
				}
			}
			c.Input("%s", text)
			c.NonTrivial(killed)
			n := begin()
			defer n.End()
			for i := len(ts) - 1; i > 0; i-- {
				j := rapid.IntRange(0, i).Draw(rt, "order")
				ts[i], ts[j] = ts[j], ts[i]
			}
			for _, x := range ts {
				for try := 0; !have(x); try++ {
					if wrong(x) {
						b, _ := os.ReadFile(file(x))
						rt.Fatalf("after (%s) %s has %d bytes that are not the torrent of %d bytes nor its beginning", text, file(x), len(b), len(x.meta))
					}
					if try == 6 {
						rt.Fatalf("after (%s) a torrent of %d bytes announced again is not stored; %s", text, len(x.meta), n.Stderr())
					}
					announce(n, x)
					h.Eventually(5*time.Second, func() bool { return have(x) || !n.Alive() })
				}
			}
		})
	h.Check(t, "again", "one or two torrents (1 to 8 MB) that are stored are announced again, and the crawler is killed at a drawn moment after their last piece was sent, up to some ten ms; they are still stored; non-trivial: the crawler fetched again", 40, 1500,
		func(rt *rapid.T, c *h.Case) {
			dir := node.Scratch()
			defer os.RemoveAll(dir)
			port := netx.FreeUDPPort()
			node.WriteJSON(filepath.Join(dir, "conf/config.json"), node.Conf(node.Opts{FetchPool: 4}, port))
			sock := netx.MustOpen("127.0.0.1")
			defer sock.Close()
			n := node.Run(dir, port)
			defer n.End()
			if err := n.Ready(60 * time.Second); err != nil {
				if node.PortTaken(err) {
					rt.Skip("port taken")
				}
				rt.Fatal(err)
			}
			served := make(chan bool, 100)
			type torrent struct {
				meta []byte
				path string
				srv  *peer.Server
			}
			var ts []torrent
			have := func() int {
				k := 0
				for _, x := range ts {
					if b, err := os.ReadFile(x.path); err == nil && bytes.Equal(b, x.meta) {
						k++
					}
				}
				return k
			}
			for i := rapid.IntRange(1, 2).Draw(rt, "torrents"); i > 0; i-- {
				m := peer.Meta(rapid.IntRange(1<<20, 8<<20).Draw(rt, "size"), rapid.Byte().Draw(rt, "content"))
				plan := peer.Plan{Meta: m, ExtId: 4, Reserved: [8]byte{5: 0x10}, Hold: func() { served <- true }}
				srv := peer.MustListen("127.0.0.1", plan.Script(func(string) {}))
				defer srv.Close()
				ts = append(ts, torrent{m, filepath.Join(dir, "torrent", hex.EncodeToString([]byte(peer.Hash(m)))+".torrent"), srv})
			}
			announce := func() {
				for _, x := range ts {
					sock.Send(n.Addr, announceMsg(peer.Hash(x.meta), x.srv.Addr.Port))
				}
			}
			for try := 0; have() < len(ts); try++ {
				if try == 6 {
					rt.Fatalf("not stored; %s", n.Stderr())
				}
				announce()
				h.Eventually(5*time.Second, func() bool { return have() == len(ts) })
			}
			quiet := func() bool {
				for _, x := range ts {
					if x.srv.Busy() > 0 {
						return false
					}
				}
				return true
			}
			h.Eventually(5*time.Second, quiet)
			time.Sleep(20 * time.Millisecond)
			for len(served) > 0 {
				<-served
			}
			delay := time.Duration(rapid.IntRange(0, 40000).Draw(rt, "delay µs")) * time.Microsecond
			announce()
			again := false
			select {
			case <-served:
				again = true
				time.Sleep(delay)
			case <-time.After(3 * time.Second):
			}
			n.End()
			n.Wait(shutdownBound)
			c.Input("%d torrents of %d bytes, killed after %v", len(ts), len(ts[0].meta), delay)
			c.NonTrivial(again)
			if have() != len(ts) {
				rt.Fatalf("a torrent of %d bytes that was stored whole is cut off after the crawler was killed %v after it got the torrent again", len(ts[0].meta), delay)
			}
		})
}
