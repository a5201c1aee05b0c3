package misct

import (
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"testing"

	"github.com/GalaIO/P2Pcrawler/misc"
	"pgregory.net/rapid"
	"verif/harness/h"
)

// capture runs f with os.Stdout replaced by a pipe.
func capture(f func()) string {
	r, w, err := os.Pipe()
	if err != nil {
		h.Infra("pipe: %v", err)
	}
	old := os.Stdout
	os.Stdout = w
	res := make(chan string, 1)
	go func() {
		b, _ := io.ReadAll(r)
		res <- string(b)
	}()
	func() {
		defer func() { os.Stdout = old; w.Close() }()
		f()
	}()
	s := <-res
	r.Close()
	return s
}

var severities = []struct {
	level misc.LogLevel
	name  string
	call  func(l misc.Logger, msg string, ctx misc.Dict)
}{
	{misc.DEBUG, "debug", func(l misc.Logger, m string, c misc.Dict) { l.Debug(m, c) }},
	{misc.INFO, "info", func(l misc.Logger, m string, c misc.Dict) { l.Info(m, c) }},
	{misc.WARN, "warn", func(l misc.Logger, m string, c misc.Dict) { l.Warn(m, c) }},
	{misc.ERROR, "error", func(l misc.Logger, m string, c misc.Dict) { l.Error(m, c) }},
	{misc.PANIC, "panic", func(l misc.Logger, m string, c misc.Dict) { l.Panic(m, c) }},
	{misc.TRACE, "trace", func(l misc.Logger, m string, c misc.Dict) { l.Trace(m, c) }},
}

func TestC28(t *testing.T) {
	h.Check(t, "console", "level, severity, prefix, message and context drawn; messages contain format verbs; non-trivial: severity and level differ or the context has entries", 6000, 150000,
		func(rt *rapid.T, c *h.Case) {
			level := misc.LogLevel(rapid.IntRange(0, 5).Draw(rt, "level"))
			sev := severities[rapid.IntRange(0, 5).Draw(rt, "severity")]
			prefix := rapid.StringMatching(`(<[0-9%]{1,6}>)?`).Draw(rt, "prefix")
			word := rapid.StringMatching(`[XYZxyz0-9%_:|, ]{0,12}`)
			msg := "m<" + word.Draw(rt, "msg") + ">"
			var ctx misc.Dict
			var wants []string
			if k := rapid.IntRange(-1, 4).Draw(rt, "ctx"); k >= 0 {
				ctx = misc.Dict{}
				for i := 0; i < k; i++ {
					key := fmt.Sprintf("key%d%s", i, word.Draw(rt, "key"))
					var val interface{}
					var text string
					switch rapid.IntRange(0, 5).Draw(rt, "kind") {
					case 0:
						text = "v" + word.Draw(rt, "val")
						if rapid.IntRange(0, 9).Draw(rt, "long") == 0 {
							text = strings.Repeat(text+"-", drawSize(20000).Draw(rt, "size")/(len(text)+1)+1)
						}
						val = text
					case 1:
						n := rapid.Int().Draw(rt, "int")
						val, text = n, fmt.Sprint(n)
					case 2:
						text = "e" + word.Draw(rt, "err")
						val = errors.New(text)
					case 3: // only the key is sure to show
					case 4:
						n := rapid.Bool().Draw(rt, "bool")
						val, text = n, fmt.Sprint(n)
					case 5:
						n := rapid.IntRange(0, 1<<40).Draw(rt, "inner")
						val, text = misc.Dict{"in": misc.List{n}}, fmt.Sprint(n)
					}
					ctx[key] = val
					wants = append(wants, key, text)
				}
			}
			c.Input("level %d severity %s prefix %q msg %q ctx %.300q", level, sev.name, prefix, msg, wants)
			c.NonTrivial(sev.level != level || len(ctx) > 0)
			var panicked bool
			out := capture(func() {
				l := misc.NewConsoleLoggerFactory().NewLogger("x", level)
				if prefix != "" {
					l = l.SetPrefix(prefix)
				}
				_, panicked = h.Panics(func() { sev.call(l, msg, ctx) })
			})
			if panicked != (sev.level == misc.PANIC) {
				rt.Fatalf("severity %s at level %d: panicked %v", sev.name, level, panicked)
			}
			if sev.level < level {
				if out != "" {
					rt.Fatalf("severity %s printed at level %d: %q", sev.name, level, out)
				}
				return
			}
			for _, w := range append([]string{prefix, msg}, wants...) {
				if !strings.Contains(out, w) {
					rt.Fatalf("severity %s at level %d: %q lacks %q", sev.name, level, out, w)
				}
			}
			for _, s := range severities {
				if strings.Contains(strings.ToLower(out), s.name) != (s.name == sev.name) {
					rt.Fatalf("severity %s at level %d is printed as %q", sev.name, level, out)
				}
			}
			if n := strings.Count(out, msg); n != 1 {
				rt.Fatalf("the message was printed %d times: %q", n, out)
			}
		})
	h.Check(t, "levels", "level names in drawn letter case; non-trivial: mixed case", 600, 10000,
		func(rt *rapid.T, c *h.Case) {
			sev := severities[rapid.IntRange(0, 5).Draw(rt, "level")]
			b := []byte(sev.name)
			up := 0
			for i := range b {
				if rapid.Bool().Draw(rt, "upper") {
					b[i] -= 32
					up++
				}
			}
			c.Input("%s", b)
			c.NonTrivial(up > 0 && up < len(b))
			if got := misc.TransLogLevel(string(b)); got != sev.level {
				rt.Fatalf("TransLogLevel(%q) = %d, want %d", b, got, sev.level)
			}
		})
	var fresh atomic.Int64
	h.Check(t, "shared", "4 to 16 goroutines asking for up to 6 fresh names each, in drawn order, while the level changes; the logger of a name must be one and have the configured level; all non-trivial", 400, 8000,
		func(rt *rapid.T, c *h.Case) {
			g := rapid.IntRange(4, 16).Draw(rt, "goroutines")
			names := rapid.IntRange(1, 6).Draw(rt, "names")
			base := fresh.Add(1)
			orders := make([][]int, g)
			for i := range orders {
				orders[i] = rapid.SliceOfN(rapid.IntRange(0, names-1), 1, 12).Draw(rt, "order")
			}
			level := misc.LogLevel(rapid.IntRange(0, 5).Draw(rt, "level"))
			c.Input("%d goroutines, %d names, level %d, %v", g, names, level, orders)
			c.NonTrivial(true)
			misc.SetLevel(level)
			got := make([][]misc.Logger, g)
			var wg sync.WaitGroup
			start := make(chan struct{})
			for i := 0; i < g; i++ {
				wg.Add(1)
				go func(i int) {
					defer wg.Done()
					<-start
					for _, n := range orders[i] {
						got[i] = append(got[i], misc.GetLogger(logName(base, n)))
					}
				}(i)
			}
			close(start)
			wg.Wait()
			first := map[int]misc.Logger{}
			for i := range orders {
				for j, n := range orders[i] {
					l := got[i][j]
					if l == nil {
						rt.Fatalf("GetLogger returned nil")
					}
					if first[n] == nil {
						first[n] = l
					} else if first[n] != l {
						rt.Fatalf("name %d has two loggers", n)
					}
				}
			}
			for n, l := range first {
				if misc.GetLogger(logName(base, n)) != l {
					rt.Fatalf("name %d changed its logger", n)
				}
				for m, k := range first {
					if m != n && k == l {
						rt.Fatalf("names %d and %d share a logger", m, n)
					}
				}
				out := capture(func() { l.Warn("probe", nil) })
				if (out != "") != (misc.WARN >= level) {
					rt.Fatalf("a logger created at level %d: warning printed %q", level, out)
				}
			}
		})
	h.Check(t, "change", "histories of asking for loggers (some with a prefix), changing the level and printing with any logger obtained so far, at any severity; a message shows if and only if its severity is at least the level set last, with the logger's prefix; non-trivial: a logger obtained before a change of the level prints after it", 800, 20000,
		func(rt *rapid.T, c *h.Case) {
			type logger struct {
				l      misc.Logger
				prefix string
				at     int
			}
			var all []logger
			base := fresh.Add(1)
			level := misc.LogLevel(rapid.IntRange(0, 5).Draw(rt, "level"))
			misc.SetLevel(level)
			changes := 0
			for i := rapid.IntRange(2, 14).Draw(rt, "steps"); i > 0; i-- {
				op := rapid.IntRange(0, 5).Draw(rt, "op")
				switch {
				case op < 2 || len(all) == 0:
					n := rapid.IntRange(0, 3).Draw(rt, "name")
					x := logger{misc.GetLogger(logName(base, n)), "", changes}
					c.Input("get %d", n)
					if rapid.Bool().Draw(rt, "prefixed") {
						x.prefix = fmt.Sprintf("<p%d>", rapid.IntRange(0, 99).Draw(rt, "prefix"))
						x.l = x.l.SetPrefix(x.prefix)
						c.Input("prefix %s", x.prefix)
					}
					all = append(all, x)
				case op == 2:
					level = misc.LogLevel(rapid.IntRange(0, 5).Draw(rt, "to"))
					misc.SetLevel(level)
					changes++
					c.Input("level %d", level)
				default:
					k := rapid.IntRange(0, len(all)-1).Draw(rt, "which")
					x := all[k]
					sev := severities[rapid.IntRange(0, 5).Draw(rt, "severity")]
					c.Input("%s by %d", sev.name, k)
					if x.at < changes {
						c.NonTrivial(true)
					}
					var panicked bool
					out := capture(func() { _, panicked = h.Panics(func() { sev.call(x.l, "<probe>", nil) }) })
					if panicked != (sev.level == misc.PANIC) {
						rt.Fatalf("severity %s at level %d: panicked %v", sev.name, level, panicked)
					}
					if (out != "") != (sev.level >= level) || out != "" && !(strings.Contains(out, "<probe>") && strings.Contains(out, x.prefix) && (x.prefix != "" || !strings.Contains(out, "<p<"))) {
						rt.Fatalf("severity %s at level %d by the logger with prefix %q printed %q", sev.name, level, x.prefix, out)
					}
				}
			}
		})
	names := []string{"DEBUG", "INFO", "WARN", "ERROR", "PANIC", "TRACE"}
	type file struct {
		l     misc.Logger
		path  string
		off   int64
		level int
	}
	var files []*file
	for i, n := range names {
		for k, n := range []string{n, strings.ToLower(n), n[:1] + strings.ToLower(n[1:])} {
			name := fmt.Sprintf("f%d-%d", i, k)
			files = append(files, &file{misc.NewZapLogger(name, n), filepath.Join("logs", name+".log"), 0, i})
		}
	}
	h.Check(t, "file", "messages of drawn severities, prefixes, texts and contexts given to a file logger of drawn level by 1 to 4 goroutines; each adds exactly one JSON line with text and context if its severity is at least the level, and none otherwise; non-trivial: some are written and some not, or several goroutines", 1200, 30000,
		func(rt *rapid.T, c *h.Case) {
			f := files[rapid.IntRange(0, len(files)-1).Draw(rt, "logger")]
			g := rapid.SampledFrom([]int{1, 1, 2, 4}).Draw(rt, "goroutines")
			type entry struct {
				sev    int
				prefix string
				msg    string
				ctx    misc.Dict
			}
			word := rapid.StringMatching(`[a-zA-Z0-9%_:|, "\\{}<>&\n\t\x{e9}\x{2028}]{0,16}`)
			runs := make([][]entry, g)
			want := map[string]int{}
			written, dropped := 0, 0
			for i := range runs {
				for k := rapid.IntRange(1, 5).Draw(rt, "messages"); k > 0; k-- {
					e := entry{sev: rapid.IntRange(0, 5).Draw(rt, "severity"), prefix: rapid.StringMatching(`([a-z%]{1,6})?`).Draw(rt, "prefix"), msg: word.Draw(rt, "msg")}
					res := map[string]interface{}{}
					if n := rapid.IntRange(-1, 4).Draw(rt, "ctx"); n >= 0 {
						e.ctx = misc.Dict{}
						for j := 0; j < n; j++ {
							key := fmt.Sprintf("key%d%s", j, word.Draw(rt, "key"))
							switch rapid.IntRange(0, 3).Draw(rt, "kind") {
							case 0:
								v := word.Draw(rt, "val")
								if rapid.IntRange(0, 9).Draw(rt, "long") == 0 {
									v = strings.Repeat(v+"-", drawSize(20000).Draw(rt, "size")/(len(v)+1)+1)
								}
								e.ctx[key], res[key] = v, v
							case 1:
								v := rapid.IntRange(-1<<50, 1<<50).Draw(rt, "int")
								e.ctx[key], res[key] = v, float64(v)
							case 2:
								v := rapid.Bool().Draw(rt, "bool")
								e.ctx[key], res[key] = v, v
							case 3:
								v := word.Draw(rt, "inner")
								e.ctx[key], res[key] = misc.Dict{"in": misc.List{v}}, map[string]interface{}{"in": []interface{}{v}}
							}
						}
					}
					c.Input("%s %q %q %.300q", severities[e.sev].name, e.prefix, e.msg, e.ctx)
					runs[i] = append(runs[i], e)
					if e.sev < f.level {
						dropped++
						continue
					}
					written++
					text := e.msg
					if e.prefix != "" {
						text = "[" + e.prefix + "]" + e.msg
					}
					j, _ := json.Marshal([]interface{}{text, res})
					want[string(j)]++
				}
			}
			c.Input("level %s, %d goroutines", names[f.level], g)
			c.NonTrivial(g > 1 || written > 0 && dropped > 0)
			var wg sync.WaitGroup
			bad := make([]string, g)
			for i := range runs {
				wg.Add(1)
				go func(i int) {
					defer wg.Done()
					for _, e := range runs[i] {
						l := f.l
						if e.prefix != "" {
							l = l.SetPrefix(e.prefix)
						}
						if _, p := h.Panics(func() { severities[e.sev].call(l, e.msg, e.ctx) }); p != (e.sev == int(misc.PANIC)) {
							bad[i] = fmt.Sprintf("severity %s at level %s: panicked %v", severities[e.sev].name, names[f.level], p)
						}
					}
				}(i)
			}
			wg.Wait()
			f.l.Flush()
			for _, b := range bad {
				if b != "" {
					rt.Fatal(b)
				}
			}
			b, err := os.ReadFile(f.path)
			if err != nil && !(os.IsNotExist(err) && written == 0) {
				rt.Fatalf("no log file after %d messages: %v", written, err)
			}
			if int64(len(b)) < f.off {
				rt.Fatalf("the log file shrank from %d to %d bytes", f.off, len(b))
			}
			added := string(b[f.off:])
			f.off = int64(len(b))
			if added != "" && !strings.HasSuffix(added, "\n") {
				rt.Fatalf("the log ends in the middle of a line: %q", added)
			}
			for _, line := range strings.Split(strings.TrimSuffix(added, "\n"), "\n") {
				if line == "" {
					continue
				}
				m := map[string]interface{}{}
				if err := json.Unmarshal([]byte(line), &m); err != nil {
					rt.Fatalf("the log line %q is not JSON: %v", line, err)
				}
				msg := m["msg"]
				for _, k := range []string{"level", "ts", "msg", "stacktrace", "caller", "logger"} {
					delete(m, k)
				}
				j, _ := json.Marshal([]interface{}{msg, m})
				if want[string(j)]--; want[string(j)] < 0 {
					rt.Fatalf("surplus log line %q", line)
				}
			}
			for j, n := range want {
				if n > 0 {
					rt.Fatalf("no log line for %s", j)
				}
			}
		})
}

// logName is one of some fresh names, some of which differ by little.
func logName(base int64, n int) string {
	return fmt.Sprint(base, []string{"a", "A", " a", "a.b", "Ä/é", "LONG" + strings.Repeat("x", 300)}[n])
}
