package nodet

import (
	"fmt"
	"strings"
	"testing"

	"pgregory.net/rapid"
	"verif/harness/h"
	"verif/harness/netx"
	"verif/harness/node"
	"verif/harness/ref"
)

// notStr draws a value that is no string, notInt one that is no integer.
func notStr(rt *rapid.T) ref.Value {
	return rapid.OneOf(rapid.Map(ref.GenInt(), func(i int) ref.Value { return i }), rapid.Map(ref.GenList(1), func(l ref.List) ref.Value { return l }), rapid.Map(ref.GenDict(1), func(d ref.Dict) ref.Value { return d })).Draw(rt, "notStr")
}

func notInt(rt *rapid.T) ref.Value {
	return rapid.OneOf(rapid.Map(ref.GenStr(), func(i string) ref.Value { return i }), rapid.Map(ref.GenList(1), func(l ref.List) ref.Value { return l }), rapid.Map(ref.GenDict(1), func(d ref.Dict) ref.Value { return d })).Draw(rt, "notInt")
}

func notDict(rt *rapid.T) ref.Value {
	return rapid.OneOf(rapid.Map(ref.GenStr(), func(i string) ref.Value { return i }), rapid.Map(ref.GenInt(), func(i int) ref.Value { return i }), rapid.Map(ref.GenList(1), func(l ref.List) ref.Value { return l })).Draw(rt, "notDict")
}

// genBroken draws a query that must be refused, and says how it is broken.
func genBroken(rt *rapid.T) (query, string) {
	q := query{tx: genTx().Draw(rt, "tx"), q: rapid.SampledFrom(methods).Draw(rt, "q")}
	a := genArgs(rt, q.q)
	q.msg = ref.Dict{"t": q.tx, "y": "q", "q": q.q, "a": a}
	kinds := []string{"method", "no args", "args type", "no id", "id type", "id length"}
	if q.q == "get_peers" || q.q == "announce_peer" {
		kinds = append(kinds, "no info_hash", "info_hash type")
	}
	if q.q == "announce_peer" {
		kinds = append(kinds, "no port", "port type")
	}
	n := rapid.SampledFrom([]int{1, 1, 1, 2}).Draw(rt, "breaks")
	how := ""
	for i := 0; i < n; i++ {
		k := rapid.SampledFrom(kinds).Draw(rt, "break")
		how += k + " "
		switch k {
		case "method":
			m := rapid.OneOf(
				rapid.SampledFrom([]string{"", "vote", "PING", "Ping", "find-node", "ping ", " ping", "pin", "pingg", "get_peers\x00", "announce", "sample_infohashes", "get", "put", "%s%d", "r"}),
				rapid.StringMatching(`[a-z_]{1,20}`), genBytes(0, 12), rapid.Map(rapid.IntRange(30, 600), func(n int) string { return strings.Repeat("m", n) })).Draw(rt, "method")
			for _, x := range methods {
				if m == x {
					m += "x"
				}
			}
			q.q = m
			q.msg["q"] = m
		case "no args":
			delete(q.msg, "a")
		case "args type":
			q.msg["a"] = notDict(rt)
		case "no id":
			delete(a, "id")
		case "id type":
			a["id"] = notStr(rt)
		case "id length":
			l := rapid.OneOf(rapid.SampledFrom([]int{0, 19, 21, 40, 1}), rapid.IntRange(0, 100)).Draw(rt, "len")
			if l == 20 {
				l = 19
			}
			a["id"] = genBytes(l, l).Draw(rt, "id")
		case "no info_hash":
			delete(a, "info_hash")
		case "info_hash type":
			a["info_hash"] = notStr(rt)
		case "no port":
			delete(a, "port")
		case "port type":
			a["port"] = notInt(rt)
		}
	}
	q.encode(rt)
	if len(q.data) > 1024 {
		q.q = "vote"
		q.msg = ref.Dict{"t": q.tx, "y": "q", "q": q.q, "a": ref.Dict{"id": "abcdefghij0123456789"}}
		q.encode(rt)
		how = "method"
	}
	return q, how
}

// internals must not show in the text of an error message.
var internals = []string{"goroutine ", ".go:", "/repo", "runtime.", "runtime error", "stacks:", "debug.Stack", "P2Pcrawler/", "interface {}", "0xc0", "/usr/", "/root", "/tmp"}

func checkError(q query, d netx.Datagram) error {
	m, err := reply(d)
	if err != nil {
		return err
	}
	e, _ := m["e"].(ref.List)
	if m["y"] != "e" || len(e) != 2 {
		return fmt.Errorf("the reply to %q is no error message: %q", q.data, d.Data)
	}
	text, ok := e[1].(string)
	if e[0] != 203 || !ok {
		return fmt.Errorf("the reply to %q has error %q, want code 203 and a text", q.data, ref.Encode(e))
	}
	if q.q != "" {
		text = strings.ReplaceAll(text, q.q, "")
	}
	if len(text) > 200 || strings.ContainsAny(text, "\r\n\t") {
		return fmt.Errorf("the error text in reply to %q is not short: %q", q.data, text)
	}
	for _, s := range internals {
		if strings.Contains(text, s) {
			return fmt.Errorf("the error text in reply to %q shows internals: %q", q.data, text)
		}
	}
	return nil
}

func TestC06(t *testing.T) {
	n := start(t, node.Opts{})
	defer n.Kill()
	socks := sockets(3)
	h.Check(t, "broken", "1 to 12 queries at once from 3 addresses, each a valid one broken in one or two drawn ways, mixed with valid ones; every broken one gets one error reply; non-trivial: at least one query broken below its method", 800, 30000,
		func(rt *rapid.T, c *h.Case) {
			k := rapid.IntRange(1, 12).Draw(rt, "queries")
			broken := make([]map[string]query, len(socks))
			valid := make([][]query, len(socks))
			out := make([][]string, len(socks))
			want := make([]int, len(socks))
			text, deep := "", false
			seen := map[string]bool{}
			for i := 0; i < k; i++ {
				s := rapid.IntRange(0, len(socks)-1).Draw(rt, "from")
				var q query
				bad := rapid.IntRange(0, 4).Draw(rt, "bad") > 0
				how := "valid"
				if bad {
					q, how = genBroken(rt)
				} else {
					q = genQuery(rt, methods)
				}
				if key := fmt.Sprint(s, q.tx); seen[key] {
					continue
				} else {
					seen[key] = true
				}
				text += fmt.Sprintf(" %d %s:%q", s, how, q.data)
				deep = deep || (bad && !strings.HasPrefix(how, "method"))
				if bad {
					if broken[s] == nil {
						broken[s] = map[string]query{}
					}
					broken[s][q.tx] = q
				} else {
					valid[s] = append(valid[s], q)
				}
				out[s] = append(out[s], q.data)
				want[s]++
			}
			c.Input("%s", text)
			c.NonTrivial(deep)
			got := exchange(rt, n, socks, out, want)
			var id string
			for i := range socks {
				var rest []netx.Datagram
				for _, d := range got[i] {
					m, err := reply(d)
					if err != nil {
						rt.Fatal(err)
					}
					q, ok := broken[i][m["t"].(string)]
					if !ok {
						rest = append(rest, d)
						continue
					}
					if err := checkError(q, d); err != nil {
						rt.Fatal(err)
					}
					delete(broken[i], q.tx)
				}
				for _, q := range broken[i] {
					rt.Fatalf("no reply to %q", q.data)
				}
				if err := checkReplies(n, &id, valid[i], rest); err != nil {
					rt.Fatal(err)
				}
			}
		})
}
