package misct

import (
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"strings"
	"testing"
	"time"

	"github.com/GalaIO/P2Pcrawler/misc"
	"pgregory.net/rapid"
	"verif/harness/h"
)

type named struct{ s string }

func (n named) String() string { return n.s }

type failure struct{ s string }

func (f failure) Error() string  { return f.s }
func (f failure) String() string { return "not this" }

type text string

// shown is a value and what ToString gives for it.
type shown struct {
	v    interface{}
	want string
}

func genText() *rapid.Generator[string] {
	return rapid.OneOf(rapid.StringN(0, 12, 40), rapid.Map(rapid.SliceOfN(rapid.Byte(), 0, 30), func(b []byte) string { return string(b) }),
		rapid.SampledFrom([]string{"", "%d %s", "a|b", ", params: ", "stacks:", "\r\n", "200:", strings.Repeat("x", 5000)}))
}

func asJSON(v interface{}) shown {
	b, err := json.Marshal(v)
	if err != nil {
		return shown{v, err.Error()}
	}
	return shown{v, string(b)}
}

func genShown(rt *rapid.T) shown {
	s := genText().Draw(rt, "text")
	switch rapid.IntRange(0, 13).Draw(rt, "kind") {
	case 0, 1, 2:
		return shown{s, s}
	case 3:
		return shown{errors.New(s), s}
	case 4:
		return shown{failure{s}, s}
	case 5:
		return shown{named{s}, s}
	case 6:
		d := time.Duration(rapid.Int64().Draw(rt, "duration"))
		return shown{d, d.String()}
	case 7:
		return asJSON(rapid.Int().Draw(rt, "int"))
	case 8:
		return asJSON(rapid.Float64().Draw(rt, "float"))
	case 9:
		return asJSON(text(s))
	case 10:
		return asJSON([]byte(s))
	case 11:
		return asJSON(misc.Dict{s: misc.List{1, s, nil}, "z": rapid.Bool().Draw(rt, "bool")})
	case 12:
		return asJSON(rapid.SampledFrom([]interface{}{nil, true, math.Inf(1), math.NaN(), misc.List{}, misc.Dict{}, struct{ A, b int }{1, 2}, func() {}, make(chan int), map[int]int{2: 1}}).Draw(rt, "odd"))
	}
	return asJSON(&struct{ S string }{s})
}

func describe(l []shown) string {
	r := ""
	for _, s := range l {
		r += fmt.Sprintf(" %T %q", s.v, s.want)
	}
	return r
}

func TestC36(t *testing.T) {
	h.Silence(t)
	h.Check(t, "errors", "an error built or raised in one of the five ways with a drawn code, text, up to 5 parameters of 13 kinds and a cause that is nil or not; its type, code, text and parameters in order, cause last, a stack trace exactly when it is a system error; nothing raised without a cause; read twice; non-trivial: at least two parameters", 60000, 600000,
		func(rt *rapid.T, c *h.Case) {
			msg := genText().Draw(rt, "msg")
			var params []shown
			for i := rapid.IntRange(0, 5).Draw(rt, "params"); i > 0; i-- {
				params = append(params, genShown(rt))
			}
			var args []interface{}
			for _, p := range params {
				args = append(args, p.v)
			}
			var cause error
			if rapid.Bool().Draw(rt, "cause") {
				cause = rapid.SampledFrom([]error{errors.New("the cause"), failure{"it failed"}, os.ErrNotExist}).Draw(rt, "which")
			}
			way := rapid.IntRange(0, 4).Draw(rt, "way")
			c.Input("way %d, text %q, cause %v,%s", way, msg, cause, describe(params))
			c.NonTrivial(len(params) >= 2)
			code, stack := misc.GenericErr, false
			var e *misc.Error
			raise := func(f func()) bool {
				p, panicked := h.Panics(f)
				if !panicked {
					return false
				}
				var ok bool
				if e, ok = p.(*misc.Error); !ok {
					rt.Fatalf("raised a %T (%v), not the library's error", p, p)
				}
				return true
			}
			want := params
			withCause := false
			switch way {
			case 0:
				code = misc.ErrCode(rapid.OneOf(rapid.IntRange(200, 204), rapid.Int()).Draw(rt, "code"))
				stack = rapid.Bool().Draw(rt, "stack")
				e = misc.NewError(code, msg, stack, args...)
			case 1:
				stack = true
				if !raise(func() { misc.PanicSysErr(msg, args...) }) {
					rt.Fatalf("PanicSysErr raised nothing")
				}
			case 2:
				if !raise(func() { misc.PanicBizErr(msg, args...) }) {
					rt.Fatalf("PanicBizErr raised nothing")
				}
			case 3:
				stack, withCause = true, true
				if raised := raise(func() { misc.PanicSysErrNonNil(cause, msg, args...) }); raised != (cause != nil) {
					rt.Fatalf("PanicSysErrNonNil with cause %v raised: %v", cause, raised)
				}
			default:
				withCause = true
				if raised := raise(func() { misc.PanicBizErrNonNil(cause, msg, args...) }); raised != (cause != nil) {
					rt.Fatalf("PanicBizErrNonNil with cause %v raised: %v", cause, raised)
				}
			}
			if e == nil {
				return
			}
			if withCause {
				want = append(append([]shown{}, params...), shown{cause, cause.Error()})
			}
			head := fmt.Sprintf("%d:%s", int(code), msg)
			if len(want) > 0 {
				head += ", params: "
				for _, p := range want {
					head += p.want + "|"
				}
			}
			for i := 0; i < 2; i++ {
				got := e.Error()
				if !stack && got != head {
					rt.Fatalf("the error reads %q, want %q", got, head)
				}
				if stack && (!strings.HasPrefix(got, head) || !strings.Contains(got[len(head):], "goroutine ")) {
					rt.Fatalf("the system error reads %.300q, want %.300q and a stack trace", got, head)
				}
			}
		})
	h.Check(t, "text", "values of 13 kinds shown as text, byte strings of up to 5000 bytes converted to bytes, to text and to hexadecimal and back, and xor of two of them; compared with encoding/json, encoding/hex and a byte-wise model; inputs unchanged; non-trivial: at least 2 bytes in both strings", 80000, 800000,
		func(rt *rapid.T, c *h.Case) {
			v := genShown(rt)
			a, b := genText().Draw(rt, "a"), genText().Draw(rt, "b")
			c.Input("%T %q, %q, %q", v.v, v.want, a, b)
			c.NonTrivial(len(a) >= 2 && len(b) >= 2)
			if got := misc.ToString(v.v); got != v.want {
				rt.Fatalf("ToString(%T) = %q, want %q", v.v, got, v.want)
			}
			if got := misc.Str2Hex(a); got != hex.EncodeToString([]byte(a)) {
				rt.Fatalf("Str2Hex(%q) = %q", a, got)
			}
			bs := misc.Str2Bytes(a)
			if len(bs) != len(a) || cap(bs) < len(bs) || string(bs) != a {
				rt.Fatalf("Str2Bytes(%q) = %q", a, bs)
			}
			if got := misc.Bytes2Str([]byte(a)); got != a {
				rt.Fatalf("Bytes2Str(%q) = %q", a, got)
			}
			x, y := []byte(a), []byte(b)
			got := misc.Xor(x, y)
			n := len(a)
			if len(b) < n {
				n = len(b)
			}
			if len(got) != n {
				rt.Fatalf("Xor of %d and %d bytes has %d", len(a), len(b), len(got))
			}
			for i := range got {
				if got[i] != a[i]^b[i] {
					rt.Fatalf("Xor(%q, %q) = %q", a, b, got)
				}
			}
			for i := range got {
				got[i] = 0x55
			}
			if string(x) != a || string(y) != b {
				rt.Fatalf("Xor changed its arguments or shares memory with them")
			}
		})
	serial := 0
	h.Check(t, "files", "a drawn tree of directories and files of 0 to 5000 bytes; existing, removed and never made paths are asked about; non-trivial: a file, a directory and an absent path", 1600, 15000,
		func(rt *rapid.T, c *h.Case) {
			serial++
			base := filepath.Join("c36", fmt.Sprint(serial))
			if err := os.MkdirAll(base, 0777); err != nil {
				h.Infra("%v", err)
			}
			defer os.RemoveAll(base)
			type entry struct {
				path string
				kind int // 0 absent, 1 file, 2 directory
				size int
			}
			var es []entry
			dirs := []string{base}
			kinds := map[int]bool{}
			for i := rapid.IntRange(1, 8).Draw(rt, "entries"); i > 0; i-- {
				e := entry{filepath.Join(rapid.SampledFrom(dirs).Draw(rt, "in"), fmt.Sprintf("%s%d", rapid.SampledFrom([]string{"a", "b c", "é", ".h", "x.torrent"}).Draw(rt, "name"), i)), rapid.IntRange(0, 2).Draw(rt, "kind"), rapid.SampledFrom([]int{0, 1, 10, 5000}).Draw(rt, "size")}
				kinds[e.kind] = true
				switch e.kind {
				case 1:
					if err := os.WriteFile(e.path, make([]byte, e.size), 0666); err != nil {
						h.Infra("%v", err)
					}
				case 2:
					if err := misc.Mkdir(e.path); err != nil {
						rt.Fatalf("Mkdir(%q): %v", e.path, err)
					}
					if err := misc.Mkdir(e.path); err == nil {
						rt.Fatalf("Mkdir(%q) made it twice", e.path)
					}
					dirs = append(dirs, e.path)
				}
				es = append(es, e)
			}
			c.Input("%+v", es)
			c.NonTrivial(len(kinds) == 3)
			for _, e := range es {
				if got := misc.IsExist(e.path); got != (e.kind > 0) {
					rt.Fatalf("IsExist of %+v = %v", e, got)
				}
				if got := misc.IsDir(e.path); got != (e.kind == 2) {
					rt.Fatalf("IsDir of %+v = %v", e, got)
				}
				got := misc.GetFileSize(e.path)
				if (e.kind == 0 && got != -1) || (e.kind == 1 && got != int64(e.size)) {
					rt.Fatalf("GetFileSize of %+v = %d", e, got)
				}
			}
		})
}
