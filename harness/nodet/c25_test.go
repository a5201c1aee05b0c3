package nodet

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"testing"
	"time"

	"pgregory.net/rapid"
	"verif/harness/h"
	"verif/harness/netx"
	"verif/harness/node"
	"verif/harness/ref"
)

// crawlLog reads logs/infohash.log of a crawler from an offset on.
type crawlLog struct {
	path string
	off  int64
}

func (l *crawlLog) rest(rt *rapid.T) string {
	f, err := os.Open(l.path)
	if os.IsNotExist(err) {
		return ""
	}
	if err != nil {
		h.Infra("%v", err)
	}
	defer f.Close()
	st, err := f.Stat()
	if err != nil {
		h.Infra("%v", err)
	}
	if st.Size() < l.off {
		rt.Fatalf("lines written before are gone: the log had %d bytes and has %d", l.off, st.Size())
	}
	b := make([]byte, st.Size()-l.off)
	if _, err := f.ReadAt(b, l.off); err != nil && len(b) > 0 {
		h.Infra("%v", err)
	}
	return string(b)
}

// line turns a log line into the text expected of it.
func line(s string) (string, error) {
	var m map[string]interface{}
	d := json.NewDecoder(strings.NewReader(s))
	d.UseNumber()
	if err := d.Decode(&m); err != nil || d.More() {
		return "", fmt.Errorf("the log line %q is not one JSON object", s)
	}
	addr, ok1 := m["addr"].(string)
	hash, ok2 := m["infoHash"].(string)
	if !ok1 || !ok2 {
		return "", fmt.Errorf("the log line %q lacks addr or infoHash", s)
	}
	r := fmt.Sprint(m["msg"], " ", addr, " ", hash)
	if m["msg"] == "announce_peer" {
		port, ok := m["port"].(json.Number)
		if !ok {
			return "", fmt.Errorf("the log line %q has no numeric port", s)
		}
		r += " " + port.String()
	}
	return r, nil
}

func TestC25(t *testing.T) {
	n := start(t, node.Opts{})
	defer n.Kill()
	socks := sockets(5)
	log := &crawlLog{path: filepath.Join(n.Dir, "logs", "infohash.log")}
	dirty := false
	h.Check(t, "log", "1 to 60 datagrams at once from 5 addresses: valid queries of all methods (some repeated, some with many more arguments, announcements also with ports beyond 16 bits), broken ones, responses, errors and garbage; the lines added to the log are exactly those of the accepted get_peers and announce_peer queries; non-trivial: at least two such lines and one datagram without", 700, 25000,
		func(rt *rapid.T, c *h.Case) {
			if dirty {
				time.Sleep(500 * time.Millisecond)
				log.off += int64(len(log.rest(rt)))
			}
			dirty = true
			k := rapid.OneOf(rapid.IntRange(1, 8), rapid.IntRange(1, 60)).Draw(rt, "datagrams")
			out := make([][]string, len(socks))
			want := make([]int, len(socks))
			expect := map[string]int{}
			lines, others := 0, 0
			text := ""
			var last query
			for i := 0; i < k; i++ {
				s := rapid.IntRange(0, len(socks)-1).Draw(rt, "from")
				var data, key string
				switch kind := rapid.IntRange(0, 11).Draw(rt, "kind"); {
				case kind <= 7 || (kind == 8 && last.data == ""):
					last = genQuery(rt, append([]string{"get_peers", "announce_peer"}, methods...))
					if a := last.msg["a"].(ref.Dict); a["implied_port"] != nil {
						if _, valid := a["implied_port"].(int); valid {
							a["implied_port"] = 0
							last.encode(rt)
						}
					}
					if a := last.msg["a"].(ref.Dict); a["port"] != nil && len(last.data) < 1000 && rapid.IntRange(0, 2).Draw(rt, "any port") == 0 {
						// nothing listens at any of these either
						a["port"] = rapid.SampledFrom([]int{0, -1, 65536, 65537, 131071, 1 << 31, 1<<32 + 1, 1 << 53, 1<<63 - 1, -1 << 63}).Draw(rt, "no port")
						last.encode(rt)
					}
					if a := last.msg["a"].(ref.Dict); rapid.IntRange(0, 5).Draw(rt, "crowd") == 0 && len(last.data) < 600 {
						for i := rapid.IntRange(3, 12).Draw(rt, "fields"); i > 0; i-- {
							a[fmt.Sprint("f", i)] = i
						}
						last.encode(rt)
					}
					data = last.data
				case kind == 8:
					data = last.data
				case kind == 9:
					var q query
					q, _ = genBroken(rt)
					data = q.data
					want[s]++
				case kind == 10:
					m := ref.Dict{"t": genTx().Draw(rt, "tx"), "y": "r", "r": ref.Dict{"id": gen20().Draw(rt, "id"), "info_hash": gen20().Draw(rt, "info_hash")}}
					if rapid.Bool().Draw(rt, "error") {
						m = ref.Dict{"t": genTx().Draw(rt, "tx"), "y": "e", "e": ref.List{201, "x"}}
					}
					data = string(ref.Encode(m))
				default:
					data = "d1:ad2:id20:" + genBytes(0, 60).Draw(rt, "garbage")
				}
				if last.data == data {
					want[s]++
					a := last.msg["a"].(ref.Dict)
					switch last.q {
					case "get_peers":
						key = fmt.Sprintf("get_peer %v %s", socks[s].Addr, hex.EncodeToString([]byte(a["info_hash"].(string))))
					case "announce_peer":
						key = fmt.Sprintf("announce_peer %v %s %d", socks[s].Addr, hex.EncodeToString([]byte(a["info_hash"].(string))), a["port"])
					}
				}
				if key != "" {
					expect[key]++
					lines++
				} else {
					others++
				}
				out[s] = append(out[s], data)
				text += fmt.Sprintf(" %d:%q", s, data)
			}
			c.Input("%d datagrams:%s", k, text)
			c.NonTrivial(lines >= 2 && others >= 1)
			got := exchange(rt, n, socks, out, want)
			for i := range socks {
				if len(got[i]) < want[i] {
					rt.Fatalf("%d replies to socket %d, want %d", len(got[i]), i, want[i])
				}
			}
			h.Eventually(5*time.Second, func() bool { return strings.Count(log.rest(rt), "\n") >= lines })
			added := log.rest(rt)
			log.off += int64(len(added))
			if added != "" && !strings.HasSuffix(added, "\n") {
				rt.Fatalf("the log ends in an unfinished line: %q", added[max(0, len(added)-300):])
			}
			for _, s := range strings.Split(strings.TrimSuffix(added, "\n"), "\n") {
				if s == "" && added == "" {
					continue
				}
				key, err := line(s)
				if err != nil {
					rt.Fatal(err)
				}
				if expect[key]--; expect[key] < 0 {
					rt.Fatalf("surplus log line %q", s)
				}
			}
			for key, left := range expect {
				if left > 0 {
					rt.Fatalf("no log line %q; added were %q", key, added)
				}
			}
			dirty = false
		})
	h.Check(t, "odd", "one get_peers or announce_peer query at a time whose info hash is 0 to 300 arbitrary bytes; if it is answered by a response, exactly its line with the whole hash is added, and if by an error, none; non-trivial: the hash is not 20 bytes long and the query was accepted", 60, 3000,
		func(rt *rapid.T, c *h.Case) {
			if dirty {
				time.Sleep(500 * time.Millisecond)
				log.off += int64(len(log.rest(rt)))
			}
			dirty = true
			hash := rapid.OneOf(genBytes(0, 40), genBytes(40, 300), genBytes(20, 20)).Draw(rt, "info_hash")
			method := rapid.SampledFrom([]string{"get_peers", "announce_peer"}).Draw(rt, "q")
			s := socks[rapid.IntRange(0, len(socks)-1).Draw(rt, "from")]
			c.Input("%s %q", method, hash)
			msg := getPeersMsg("odd", hash)
			want := fmt.Sprintf("get_peer %v %s", s.Addr, hex.EncodeToString([]byte(hash)))
			if method == "announce_peer" {
				msg = announceMsg(hash, 1)
				want = fmt.Sprintf("announce_peer %v %s 1", s.Addr, hex.EncodeToString([]byte(hash)))
			}
			got := exchange(rt, n, []*netx.Sock{s}, [][]string{{msg}}, []int{1})[0]
			if len(got) != 1 {
				rt.Fatalf("%d replies", len(got))
			}
			m, err := reply(got[0])
			if err != nil {
				rt.Fatal(err)
			}
			accepted := m["y"] == "r"
			c.NonTrivial(accepted && len(hash) != 20)
			if accepted {
				h.Eventually(5*time.Second, func() bool { return log.rest(rt) != "" })
			}
			added := log.rest(rt)
			log.off += int64(len(added))
			dirty = false
			switch {
			case !accepted && added == "":
			case !accepted:
				rt.Fatalf("the query was refused and %q was added", added)
			default:
				key, err := line(strings.TrimSuffix(added, "\n"))
				if err != nil || key != want || !strings.HasSuffix(added, "\n") {
					rt.Fatalf("want a line %q; added was %q", want, added)
				}
			}
		})
	h.Check(t, "long", "one crawler that gets 40 000 to 60 000 get_peers and announce_peer queries, a hundred at a time; the log has exactly their lines; all non-trivial", 1, 6,
		func(rt *rapid.T, c *h.Case) {
			n := start(rt, node.Opts{WorkPool: 8})
			defer n.Kill()
			log := &crawlLog{path: filepath.Join(n.Dir, "logs", "infohash.log")}
			total := rapid.IntRange(400, 600).Draw(rt, "hundreds")
			if h.Tier() == "thorough" {
				total *= 8
			}
			c.Input("%d00 queries", total)
			c.NonTrivial(true)
			sock := netx.MustOpen("127.0.0.1")
			defer sock.Close()
			answered := 0
			expect := map[string]int{}
			for i := 0; i < total; i++ {
				var out []string
				at := map[string]string{}
				for j := 0; j < 100; j++ {
					hash := fmt.Sprintf("%020d", i*100+j)
					tx := fmt.Sprint("t", i*100+j)
					if (i+j)%3 > 0 {
						out = append(out, getPeersMsg(tx, hash))
						at[tx] = fmt.Sprintf("get_peer %v %s", sock.Addr, hex.EncodeToString([]byte(hash)))
					} else {
						out = append(out, strings.Replace(announceMsg(hash, 1), "1:t2:an", fmt.Sprintf("1:t%d:%s", len(tx), tx), 1))
						at[tx] = fmt.Sprintf("announce_peer %v %s 1", sock.Addr, hex.EncodeToString([]byte(hash)))
					}
				}
				for j, d := range out {
					sock.Send(n.Addr, d)
					if j%25 == 24 {
						time.Sleep(500 * time.Microsecond)
					}
				}
				for len(at) > 0 {
					d, ok := sock.Recv(time.Second)
					if !ok {
						break // lost on the way, if the log has no line either
					}
					m, err := reply(d)
					if err != nil {
						rt.Fatal(err)
					}
					tx, _ := m["t"].(string)
					if key, ok := at[tx]; ok {
						delete(at, tx)
						expect[key]++
						answered++
					}
				}
				if answered < (i+1)*50 {
					rt.Fatalf("%d of %d queries were answered; %s", answered, (i+1)*100, n.Stderr())
				}
			}
			h.Eventually(5*time.Second, func() bool { return strings.Count(log.rest(rt), "\n") >= answered })
			seen := map[string]bool{}
			text := log.rest(rt)
			for _, s := range strings.Split(strings.TrimSuffix(text, "\n"), "\n") {
				key, err := line(s)
				if err != nil {
					rt.Fatal(err)
				}
				if seen[key] {
					rt.Fatalf("the query of %q was sent once and is logged twice", s)
				}
				seen[key] = true
			}
			for key := range expect {
				if !seen[key] {
					rt.Fatalf("%d queries were answered and the log of %d bytes has %d lines, none is %q", answered, len(text), len(seen), key)
				}
			}
		})
}
