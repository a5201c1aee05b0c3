package peer

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"math"
	"strings"
	"sync/atomic"
	"time"

	"pgregory.net/rapid"
	"verif/harness/ref"
)

// step is one thing a hostile peer does.
type step struct {
	kind string
	data []byte
	wait time.Duration
	reps int
}

// Script is a hostile peer: it may read the handshake, then runs its steps.
type Script struct {
	readFirst bool
	steps     []step
	cutAt     int  // hang up after this many bytes, -1: never
	mute      bool // or fall silent instead
	linger    bool
	hold      bool // stay connected without reading
	Text      string
	Hash      string // what the crawler asks for
	Sent      *atomic.Int64
}

// Run plays the script on one connection.
func (s *Script) Run(c *Conn) {
	if s.readFirst {
		if _, err := c.ReadHandShake(); err != nil {
			return
		}
	}
	left := s.cutAt
	if left == 0 {
		c.Idle(60 * time.Second)
		return
	}
	end := time.Now().Add(12 * time.Second)
	for _, st := range s.steps {
		if st.wait > 0 {
			time.Sleep(st.wait)
		}
		for i := 0; i < st.reps && time.Now().Before(end); i++ {
			b := st.data
			if left >= 0 && len(b) > left {
				b = b[:left]
			}
			c.SetWriteDeadline(time.Now().Add(3 * time.Second))
			n, err := c.Write(b)
			s.Sent.Add(int64(n))
			if left >= 0 {
				left -= n
			}
			if left == 0 && s.mute {
				c.Idle(60 * time.Second)
			}
			if err != nil || left == 0 {
				return
			}
		}
	}
	if s.hold {
		c.Idle(60 * time.Second)
		return
	}
	if s.linger {
		c.SetReadDeadline(end)
		io.Copy(io.Discard, c.R)
	}
}

// Nasty are integers that break careless code.
var Nasty = []int{0, 1, -1, 2, 15, 16, 17, 2047, 2048, 16384, 16385, 65536, 1 << 20, math.MaxInt32, math.MinInt32, math.MaxInt32 + 1, math.MaxInt64, math.MinInt64, math.MaxInt64 - 16383, 1 << 40, 33 << 20, 32 << 20}

// GenScript draws a hostile peer for metadata meta.
func GenScript(rt *rapid.T) *Script {
	size := rapid.OneOf(rapid.IntRange(1, 200), rapid.IntRange(16300, 70000), rapid.SampledFrom([]int{16384, 32768})).Draw(rt, "size")
	meta := Meta(size, rapid.Byte().Draw(rt, "content"))
	n := Pieces(size)
	s := &Script{hold: rapid.IntRange(0, 9).Draw(rt, "hold") == 0, readFirst: rapid.IntRange(0, 4).Draw(rt, "readFirst") > 0, cutAt: -1, linger: rapid.IntRange(0, 3).Draw(rt, "linger") > 0, Hash: Hash(meta), Sent: new(atomic.Int64)}
	text := []string{fmt.Sprintf("%d bytes", size)}
	add := func(kind string, data []byte) {
		s.steps = append(s.steps, step{kind: kind, data: data, reps: 1})
		text = append(text, kind)
	}
	// which parts have faults
	focus := rapid.SampledFrom([]string{"hep", "hep", "h", "e", "e", "p", "p", "p", "p", ""}).Draw(rt, "focus")
	pick := func(part string, max int) int {
		if !strings.Contains(focus, part[:1]) {
			return max
		}
		return rapid.IntRange(0, max).Draw(rt, part)
	}
	// handshake
	res := [8]byte{5: 0x10}
	hs := HandShake(res, s.Hash, "-XX0001-abcdefghijkl")
	switch pick("handshake", 11) {
	case 0:
		add("handshake of other length", append(hs, 0)[:rapid.IntRange(0, 69).Draw(rt, "len")])
	case 1:
		b := append([]byte(nil), hs...)
		b[0] = rapid.Byte().Draw(rt, "protocol length")
		add(fmt.Sprintf("handshake with protocol length %d", b[0]), b)
	case 2:
		b := append([]byte(nil), hs...)
		b[rapid.IntRange(0, 67).Draw(rt, "at")] ^= rapid.Byte().Draw(rt, "x")
		add("handshake with a changed byte", b)
	case 3:
		add("arbitrary bytes", rapid.SliceOfN(rapid.Byte(), 0, 200).Draw(rt, "bytes"))
	case 4:
		add("handshake without extensions", HandShake([8]byte{}, s.Hash, "-XX0001-abcdefghijkl"))
	default:
		add("handshake", hs)
	}
	// extension handshake
	ext := ref.Dict{"m": ref.Dict{"ut_metadata": 3}, "metadata_size": size}
	switch pick("extHandshake", 14) {
	case 0, 9:
		v := rapid.OneOf(rapid.SampledFrom(Nasty), rapid.Int(), rapid.Map(rapid.IntRange(18, 44), func(b int) int { return 1<<b + 77 })).Draw(rt, "metadata_size")
		s.hold = rapid.Bool().Draw(rt, "hold")
		ext["metadata_size"] = v
		add(fmt.Sprintf("metadata_size %d", v), Ext(0, ext, nil))
	case 1:
		v := size + rapid.SampledFrom([]int{-1, 1, 16384, -16384, 100}).Draw(rt, "off")
		ext["metadata_size"] = v
		add(fmt.Sprintf("metadata_size %d", v), Ext(0, ext, nil))
	case 2:
		ext["metadata_size"] = ref.GenValue(1).Draw(rt, "metadata_size")
		add("metadata_size of some type", Ext(0, ext, nil))
	case 3:
		delete(ext, rapid.SampledFrom([]string{"m", "metadata_size"}).Draw(rt, "missing"))
		add("handshake field missing", Ext(0, ext, nil))
	case 4:
		ext["m"] = ref.GenValue(2).Draw(rt, "m")
		add("m of some value", Ext(0, ext, nil))
	case 5:
		v := rapid.SampledFrom(Nasty).Draw(rt, "id")
		ext["m"] = ref.Dict{"ut_metadata": v}
		add(fmt.Sprintf("ut_metadata %d", v), Ext(0, ext, nil))
	case 6:
		b := Ext(0, ext, nil)
		add("truncated extension handshake", Msg(b[4:4+rapid.IntRange(1, len(b)-5).Draw(rt, "cut")]))
	case 7:
		add("no extension handshake", nil)
	case 8:
		ext["metadata_size"] = size + 1
		add("two extension handshakes", append(Ext(0, ext, nil), Ext(0, ref.Dict{"m": ref.Dict{"ut_metadata": 3}, "metadata_size": size}, nil)...))
	default:
		add("extension handshake", Ext(0, ext, nil))
	}
	// pieces and noise
	piece := func(i int) []byte { return append([]byte(nil), Piece(meta, i)...) }
	for i := 0; i < n; i++ {
		d := ref.Dict{"msg_type": 1, "piece": i, "total_size": size}
		b := piece(i)
		switch pick("piece", 21) {
		case 0:
			b[rapid.IntRange(0, len(b)-1).Draw(rt, "at")] ^= byte(rapid.IntRange(1, 255).Draw(rt, "x"))
			add("corrupt piece", Ext(1, d, b))
		case 1:
			add("short piece", Ext(1, d, b[:rapid.IntRange(0, len(b)-1).Draw(rt, "len")]))
		case 2:
			add("long piece", Ext(1, d, append(b, rapid.SliceOfN(rapid.Byte(), 1, 20).Draw(rt, "more")...)))
		case 3:
			add("missing piece", nil)
		case 4:
			v := rapid.OneOf(rapid.SampledFrom(Nasty), rapid.IntRange(-3, n+3)).Draw(rt, "number")
			d["piece"] = v
			add(fmt.Sprintf("piece numbered %d", v), Ext(1, d, b))
		case 5:
			add("wrong piece twice", append(Ext(1, d, b), Ext(1, d, bytes.Repeat([]byte("z"), len(b)))...))
		case 6:
			add("garbage then piece", append(Ext(1, d, bytes.Repeat([]byte("z"), len(b))), Ext(1, d, b)...))
		case 7:
			d["msg_type"] = rapid.SampledFrom([]int{2, 0, 3, -1, math.MaxInt64}).Draw(rt, "type")
			add(fmt.Sprintf("piece of type %v", d["msg_type"]), Ext(1, d, b))
		case 8:
			d[rapid.SampledFrom([]string{"msg_type", "piece", "total_size"}).Draw(rt, "field")] = ref.GenValue(1).Draw(rt, "v")
			add("piece with a strange field", Ext(1, d, b))
		case 9:
			delete(d, rapid.SampledFrom([]string{"msg_type", "piece", "total_size"}).Draw(rt, "field"))
			add("piece without a field", Ext(1, d, b))
		case 10:
			m := Ext(1, d, b)
			add("piece cut short", Msg(m[4:4+rapid.IntRange(1, len(m)-5).Draw(rt, "cut")]))
		case 11:
			var p [4]byte
			v := rapid.OneOf(rapid.SampledFrom([]uint32{32768, 32769, 1 << 20, math.MaxUint32, 1 << 31}), rapid.Uint32()).Draw(rt, "prefix")
			binary.BigEndian.PutUint32(p[:], v)
			add(fmt.Sprintf("length prefix %d", v), append(p[:], Ext(1, d, b)[4:]...))
		case 12, 13:
			no := Ext(1, ref.Dict{"msg_type": 2, "piece": i}, nil)
			if rapid.Bool().Draw(rt, "then the piece") {
				add("reject, then the piece", append(no, Ext(1, d, b)...))
			} else {
				add("reject", no)
			}
		default:
			add("piece", Ext(1, d, b))
		}
	}
	// order
	if rapid.IntRange(0, 3).Draw(rt, "shuffled") == 0 {
		s.steps = append(s.steps[:1:1], rapid.Permutation(s.steps[1:]).Draw(rt, "order")...)
		text = append(text, "shuffled")
	}
	// noise, floods and stalls
	for i := rapid.SampledFrom([]int{0, 0, 0, 1, 2}).Draw(rt, "noise"); i > 0; i-- {
		var st step
		switch rapid.IntRange(0, 6).Draw(rt, "kind") {
		case 0:
			st = step{kind: "keep-alives", data: bytes.Repeat([]byte{0}, 4000), reps: rapid.IntRange(1, 200).Draw(rt, "reps")}
		case 1:
			st = step{kind: "arbitrary message", data: Msg(rapid.SliceOfN(rapid.Byte(), 0, 100).Draw(rt, "bytes")), reps: 1}
		case 2:
			st = step{kind: "message of one byte", data: Msg([]byte{20}), reps: rapid.IntRange(1, 3).Draw(rt, "reps")}
		case 3:
			st = step{kind: "flood of other messages", data: bytes.Repeat(Msg(bytes.Repeat([]byte{7}, 16393)), 4), reps: rapid.IntRange(1, 300).Draw(rt, "reps")}
		case 4:
			st = step{kind: "stall", wait: time.Duration(rapid.IntRange(1, 1500).Draw(rt, "ms")) * time.Millisecond}
		case 5:
			deep := rapid.IntRange(100, 16000).Draw(rt, "depth")
			st = step{kind: "deep dictionary", data: Msg(append([]byte{20, byte(rapid.IntRange(0, 1).Draw(rt, "ext"))}, strings.Repeat("l", deep)...)), reps: 1}
		case 6:
			st = step{kind: "hostile dictionary", data: Msg(append([]byte{20, byte(rapid.IntRange(0, 1).Draw(rt, "ext"))}, rapid.SampledFrom([]string{"d99999999999999999999:", "d9223372036854775807:x", "i99999999999999999999e", "d1:m", "", "d", "le", "d8:msg_typei1e5:piecei0e10:total_sizei-1ee", "d8:msg_typei1e5:piecei-1eeXX"}).Draw(rt, "dict")...)), reps: 1}
		}
		at := rapid.IntRange(0, len(s.steps)).Draw(rt, "where")
		s.steps = append(s.steps[:at:at], append([]step{st}, s.steps[at:]...)...)
		text = append(text, st.kind+fmt.Sprintf(" at %d", at))
	}
	if rapid.IntRange(0, 3).Draw(rt, "hang up") == 0 {
		total := 0
		for _, st := range s.steps {
			total += len(st.data)
		}
		s.cutAt = rapid.IntRange(0, total).Draw(rt, "cut")
		if rapid.Bool().Draw(rt, "early cut") {
			s.cutAt = min(s.cutAt, rapid.IntRange(0, 200).Draw(rt, "early"))
		}
		s.mute = s.cutAt == 0 || rapid.Bool().Draw(rt, "mute")
		text = append(text, fmt.Sprintf("hang up after %d bytes, or fall silent %v", s.cutAt, s.mute))
	}
	// ask for another hash
	if rapid.IntRange(0, 5).Draw(rt, "other hash") == 0 {
		b := []byte(s.Hash)
		b[rapid.IntRange(0, 19).Draw(rt, "at")] ^= byte(1 << rapid.IntRange(0, 7).Draw(rt, "bit"))
		s.Hash = string(b)
		text = append(text, "another hash asked for")
	}
	if s.hold {
		text = append(text, "holds the connection without reading")
	}
	s.Text = strings.Join(text, ", ")
	return s
}
