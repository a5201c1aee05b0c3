package conft

import (
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"path/filepath"
	"reflect"
	"strings"
	"testing"
	"time"

	"pgregory.net/rapid"
	"verif/harness/h"
	"verif/harness/netx"
	"verif/harness/node"
)

var sections = []string{"dht", "fetchTorrent", "pprof", "logger"}

// genFile draws a configuration document with a subset of the sections, and
// what it sets.
func genFile(rt *rapid.T, defaults values) (map[string]interface{}, values, int) {
	v := defaults
	doc := map[string]interface{}{}
	num := rapid.OneOf(rapid.IntRange(0, 65535), rapid.SampledFrom([]int{1, 6881, 21000, 1 << 20, 1<<31 - 1}))
	text := rapid.OneOf(rapid.SampledFrom([]string{"Info", "debug", "TRACE", ""}), rapid.StringN(0, 12, -1))
	key := func(s string) string {
		if rapid.IntRange(0, 5).Draw(rt, "lower") == 0 {
			return strings.ToLower(s)
		}
		return s
	}
	n := 0
	if rapid.Bool().Draw(rt, "dht") {
		n++
		v.Port, v.WorkPool = num.Draw(rt, "port"), num.Draw(rt, "pool")
		v.Bootstrap = rapid.SliceOfN(rapid.OneOf(rapid.StringMatching(`[a-z]{1,8}\.[a-z]{2,3}:[1-9][0-9]{1,3}`), rapid.StringN(0, 10, -1),
			rapid.SampledFrom([]string{"a.b:1", "a.b:1", "A.b:1", " a.b:1", "a.b:1 ", "b.a:2", "", "1.2.3.4:5", "[::1]:6881", "a.b:1,b.a:2", "a.b:01"})), 0, 5).Draw(rt, "boot")
		doc[key("dht")] = map[string]interface{}{key("Port"): v.Port, key("WorkPoolSize"): v.WorkPool, key("BootstrapNodes"): v.Bootstrap}
	}
	if rapid.Bool().Draw(rt, "fetch") {
		n++
		v.Queue, v.FetchPool = num.Draw(rt, "queue"), num.Draw(rt, "fpool")
		doc[key("fetchTorrent")] = map[string]interface{}{key("InfoHashQueueSize"): v.Queue, key("WorkPoolSize"): v.FetchPool}
	}
	if rapid.Bool().Draw(rt, "pprof") {
		n++
		v.PProf = rapid.Bool().Draw(rt, "run")
		doc[key("pprof")] = map[string]interface{}{key("NeedRun"): v.PProf}
	}
	if rapid.Bool().Draw(rt, "logger") {
		n++
		v.Level = text.Draw(rt, "level")
		doc[key("logger")] = map[string]interface{}{key("Level"): v.Level}
	}
	return doc, v, n
}

func same(a, b values) bool {
	if len(a.Bootstrap) == 0 && len(b.Bootstrap) == 0 {
		a.Bootstrap, b.Bootstrap = nil, nil
	}
	return reflect.DeepEqual(a, b)
}

var all = []int{0, 1, 2, 3}

// levels in rising severity, as they are printed.
var levels = []string{"Debug", "Info", "Warn", "Error", "Panic", "Trace"}

func TestC26(t *testing.T) {
	dir := node.Scratch()
	first, err := see(dir, []step{{Order: all}})
	os.RemoveAll(dir)
	if err != nil {
		t.Fatalf("without a configuration file: %v", err)
	}
	defaults := first[0]
	order := rapid.Permutation(all)

	h.Check(t, "persisted", "a run without a configuration file (with or without a conf directory), then 1 to 3 later runs in the same directory: all see the same values; non-trivial: all", 36, 300,
		func(rt *rapid.T, c *h.Case) {
			d := node.Scratch()
			defer os.RemoveAll(d)
			mk := rapid.Bool().Draw(rt, "conf")
			if mk {
				os.Mkdir(filepath.Join(d, "conf"), 0777)
			}
			runs := rapid.IntRange(2, 4).Draw(rt, "runs")
			c.Input("conf exists %v, %d runs", mk, runs)
			c.NonTrivial(true)
			for i := 0; i < runs; i++ {
				o := order.Draw(rt, "order")
				c.Input("order %v", o)
				v, err := see(d, []step{{Order: o}})
				if err != nil {
					rt.Fatalf("run %d: %v", i, err)
				}
				if !same(v[0], defaults) {
					rt.Fatalf("run %d sees %v, the first run without a file saw %v", i, v[0], defaults)
				}
				if _, err := os.Stat(filepath.Join(d, "conf", "config.json")); err != nil {
					rt.Fatalf("run %d: no persisted file: %v", i, err)
				}
			}
		})

	h.Check(t, "switch", "a process with a drawn conf/config.json that reads its settings in a drawn order, then switches 0 to 4 times to a drawn file with a drawn subset of the sections, reading all or some sections after each; non-trivial: a switch, and a file that leaves sections out", 450, 6000,
		func(rt *rapid.T, c *h.Case) {
			d := node.Scratch()
			defer os.RemoveAll(d)
			var steps []step
			var want []values
			partial := false
			n := rapid.IntRange(0, 4).Draw(rt, "switches")
			text := ""
			for i := 0; i <= n; i++ {
				doc, v, k := genFile(rt, defaults)
				partial = partial || k < 4
				s := step{Order: order.Draw(rt, "order")}
				path := filepath.Join(d, "conf", "config.json")
				if i > 0 {
					rel := rapid.SampledFrom([]string{"a.json", "sub/dir/b.json", "conf/c.json", "conf.d/config.json"}).Draw(rt, "path")
					rel = fmt.Sprintf("%d%s", i, rel)
					path = filepath.Join(d, rel)
					s.File = rel
					if rapid.Bool().Draw(rt, "absolute") {
						s.File = path
					}
				}
				if i < n && rapid.IntRange(0, 2).Draw(rt, "some") == 0 {
					s.Order = s.Order[:rapid.IntRange(0, 3).Draw(rt, "reads")]
				}
				node.WriteJSON(path, doc)
				steps = append(steps, s)
				want = append(want, v)
				text += fmt.Sprintf(" %s reads %v of %v with %d sections;", s.File, s.Order, v, k)
			}
			c.Input("%s", text)
			c.NonTrivial(n > 0 && partial)
			got, err := see(d, steps)
			if err != nil {
				rt.Fatal(err)
			}
			for i := range got {
				w := values{}
				for _, s := range steps[i].Order {
					switch s {
					case 0:
						w.Port, w.WorkPool, w.Bootstrap = want[i].Port, want[i].WorkPool, want[i].Bootstrap
					case 1:
						w.Queue, w.FetchPool = want[i].Queue, want[i].FetchPool
					case 2:
						w.PProf = want[i].PProf
					case 3:
						w.Level = want[i].Level
					}
				}
				if !same(got[i], w) {
					rt.Fatalf("after switch %d (to %q) sections %v read as %v, want %v", i, steps[i].File, steps[i].Order, got[i], w)
				}
			}
		})

	h.Check(t, "program", "the crawler program with conf/config.json, or with another file given by --config next to it: it serves on the port of the file in force and contacts exactly that file's 0 to 3 bootstrap nodes from there, also when it has no bootstrap nodes at all; what it prints while it serves is of that file's log level and above, and it serves profiles if and only if that file says so; non-trivial: --config", 120, 900,
		func(rt *rapid.T, c *h.Case) {
			var socks []*netx.Sock
			var hosts [2][]string
			k := rapid.IntRange(0, 3).Draw(rt, "boots")
			for i := 0; i < k+1; i++ {
				s := netx.MustOpen("127.0.0.1")
				defer s.Close()
				socks = append(socks, s)
				which := 0
				if i == k {
					which = 1
				}
				hosts[which] = append(hosts[which], s.Addr.String())
			}
			flag := rapid.IntRange(0, 3).Draw(rt, "flag") > 0
			rel := rapid.SampledFrom([]string{"my.json", "conf/my.json", "x/y/config.json", "./other.json"}).Draw(rt, "path")
			absolute := rapid.Bool().Draw(rt, "absolute")
			form := rapid.SampledFrom([]string{"=", " "}).Draw(rt, "form")
			c.Input("flag %v %s absolute %v form %q, %d bootstrap nodes", flag, rel, absolute, form, k)
			c.NonTrivial(flag)
			// what the file in force leaves out does not come from the other one
			omit := ""
			if k == 0 && flag {
				omit = rapid.SampledFrom([]string{"", "BootstrapNodes"}).Draw(rt, "omit")
				c.Input("without %q", omit)
			}
			level := rapid.IntRange(0, len(levels)-1).Draw(rt, "log level")
			otherLevel := rapid.IntRange(0, len(levels)-1).Draw(rt, "other log level")
			profile := rapid.IntRange(0, 2).Draw(rt, "pprof") == 0
			otherProfile := rapid.IntRange(0, 2).Draw(rt, "other pprof") == 0
			if profile || otherProfile && !flag {
				// somebody else may have the port, which is fixed
				l, err := net.Listen("tcp", ":10080")
				if err != nil {
					profile = false
				} else {
					l.Close()
				}
			}
			cased := func(s string) string {
				return rapid.SampledFrom([]string{s, strings.ToUpper(s), strings.ToLower(s)}).Draw(rt, "case")
			}
			name, otherName := cased(levels[level]), cased(levels[otherLevel])
			c.Input("level %s, in the other %s; profiles %v, in the other %v", name, otherName, profile, otherProfile)
			var n *node.Node
			var otherPort int
			for try := 0; ; try++ {
				d := node.Scratch()
				port := netx.FreeUDPPort()
				otherPort = netx.FreeUDPPort()
				conf := node.Conf(node.Opts{Bootstrap: hosts[0]}, port)
				other := node.Conf(node.Opts{Bootstrap: hosts[1]}, otherPort)
				conf["logger"] = map[string]interface{}{"Level": name}
				other["logger"] = map[string]interface{}{"Level": otherName}
				conf["pprof"] = map[string]interface{}{"NeedRun": profile}
				other["pprof"] = map[string]interface{}{"NeedRun": otherProfile}
				if omit != "" {
					delete(conf["dht"].(map[string]interface{}), omit)
				}
				var args []string
				if flag {
					node.WriteJSON(filepath.Join(d, "conf/config.json"), other)
					node.WriteJSON(filepath.Join(d, rel), conf)
					p := rel
					if absolute {
						p = filepath.Join(d, rel)
					}
					if form == "=" {
						args = []string{"--config=" + p}
					} else {
						args = []string{"--config", p}
					}
				} else {
					node.WriteJSON(filepath.Join(d, "conf/config.json"), conf)
					if rel != "conf/my.json" {
						node.WriteJSON(filepath.Join(d, rel), other)
					}
				}
				n = node.RunOut(d, port, args...)
				err := n.Ready(30 * time.Second)
				if err == nil {
					break
				}
				n.Kill()
				if try == 2 || !node.PortTaken(err) {
					rt.Fatalf("at the configured port %d: %v", port, err)
				}
			}
			defer n.Kill()
			if !h.Eventually(20*time.Second, func() bool {
				for _, s := range socks[:k] {
					if len(s.All()) == 0 {
						return false
					}
				}
				return true
			}) {
				rt.Fatalf("a configured bootstrap node heard nothing")
			}
			if omit != "" {
				time.Sleep(30 * time.Millisecond)
			}
			for _, g := range socks[k].All() {
				rt.Fatalf("the bootstrap node of the file not in force got %q from %v", g.Data, g.From)
			}
			for _, s := range socks[:k] {
				for _, g := range s.All() {
					if g.From.Port != n.Port {
						rt.Fatalf("a bootstrap node got %q from port %d, configured is %d", g.Data, g.From.Port, n.Port)
					}
				}
			}
			// what it prints from here on is due to a query, a response without
			// one and something that is no message
			from := len(n.Stdout())
			s := netx.MustOpen("127.0.0.1")
			defer s.Close()
			s.Send(n.Addr, "what?")
			s.Send(n.Addr, "d1:rd2:id20:abcdefghij0123456789e1:t2:zz1:y1:re")
			if !h.Eventually(20*time.Second, func() bool {
				s.Send(n.Addr, node.PingMsg("pp"))
				_, ok := s.Recv(200 * time.Millisecond)
				return ok
			}) {
				rt.Fatalf("the crawler answers no more")
			}
			printed := func(want string) bool {
				for _, l := range strings.Split(n.Stdout()[from:], "\r\n") {
					if w := strings.Fields(l); len(w) > 2 && strings.TrimSuffix(w[2], ":") == want {
						return true
					}
				}
				return false
			}
			for i, l := range levels {
				switch {
				case i < level:
					if printed(l) {
						rt.Fatalf("at log level %s the crawler prints %q", name, n.Stdout()[from:])
					}
				case l == "Info" && !h.Eventually(10*time.Second, func() bool { return printed(l) }):
					rt.Fatalf("at log level %s the crawler prints nothing of level %s: %q", name, l, n.Stdout()[from:])
				}
			}
			ports := n.Listening()
			if profile {
				h.Eventually(5*time.Second, func() bool { ports = n.Listening(); return len(ports) > 0 })
				if len(ports) == 0 {
					rt.Fatalf("profiles are configured but the crawler listens on no TCP port")
				}
				r, err := http.Get(fmt.Sprintf("http://127.0.0.1:%d/debug/pprof/cmdline", ports[0]))
				if err != nil {
					rt.Fatalf("profiles are not served: %v", err)
				}
				b, _ := io.ReadAll(r.Body)
				r.Body.Close()
				if r.StatusCode != 200 || len(b) == 0 {
					rt.Fatalf("profiles are not served: %s %q", r.Status, b)
				}
			} else if len(ports) > 0 {
				rt.Fatalf("no profiles are configured but the crawler listens on TCP ports %v", ports)
			}
		})
}
