// Package peer has simulated BitTorrent peers that serve metadata by BEP 9,
// well or badly.
package peer

import (
	"bufio"
	"crypto/sha1"
	"encoding/binary"
	"fmt"
	"io"
	"net"
	"sync"
	"time"

	"pgregory.net/rapid"
	"verif/harness/h"
	"verif/harness/ref"
)

const PieceSize = 16384

// Hash is the info hash of metadata.
func Hash(meta []byte) string { s := sha1.Sum(meta); return string(s[:]) }

// Request is what the crawler asked for on one connection.
type Request struct {
	HandShake []byte // first 68 bytes
	From      string
	At        time.Time
}

// InfoHash of the handshake.
func (r Request) InfoHash() string {
	if len(r.HandShake) < 48 {
		return ""
	}
	return string(r.HandShake[28:48])
}

// Server listens on TCP and runs a script per connection.
type Server struct {
	L     net.Listener
	Addr  *net.TCPAddr
	mu    sync.Mutex
	reqs  []Request
	conns map[net.Conn]bool
	busy  int
	all   int
	quit  chan struct{}
	once  sync.Once
}

// Listen starts serving at ip:port (0: any) with script. A nil script reads the
// handshake and hangs up.
func Listen(ip string, port int, script func(c *Conn)) (*Server, error) {
	l, err := net.ListenTCP("tcp", &net.TCPAddr{IP: net.ParseIP(ip), Port: port})
	if err != nil {
		return nil, err
	}
	s := &Server{L: l, Addr: l.Addr().(*net.TCPAddr), conns: map[net.Conn]bool{}, quit: make(chan struct{})}
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			s.mu.Lock()
			s.conns[c] = true
			s.busy++
			s.all++
			s.mu.Unlock()
			go func() {
				defer func() {
					c.Close()
					s.mu.Lock()
					delete(s.conns, c)
					s.busy--
					s.mu.Unlock()
				}()
				pc := &Conn{Conn: c, R: bufio.NewReaderSize(c, 1<<16), s: s}
				if script == nil {
					pc.ReadHandShake()
					return
				}
				script(pc)
			}()
		}
	}()
	return s, nil
}

// MustListen is Listen on a free port that ends the run on failure.
func MustListen(ip string, script func(c *Conn)) *Server {
	s, err := Listen(ip, 0, script)
	if err != nil {
		h.Infra("listen: %v", err)
	}
	return s
}

// Requests returns the handshakes received so far, in order.
func (s *Server) Requests() []Request {
	s.mu.Lock()
	defer s.mu.Unlock()
	return append([]Request(nil), s.reqs...)
}

// Busy is the number of connections being served.
func (s *Server) Busy() int {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.busy
}

// Close stops listening and cuts every connection.
func (s *Server) Close() {
	s.L.Close()
	s.once.Do(func() { close(s.quit) })
	s.mu.Lock()
	defer s.mu.Unlock()
	for c := range s.conns {
		c.Close()
	}
}

// Conn is a connection the crawler opened.
type Conn struct {
	net.Conn
	R *bufio.Reader
	s *Server
}

// Idle keeps the connection for d, without reading, unless the server closes.
func (c *Conn) Idle(d time.Duration) {
	select {
	case <-c.s.quit:
	case <-time.After(d):
	}
}

// ReadHandShake reads the crawler's handshake and notes it.
func (c *Conn) ReadHandShake() ([]byte, error) {
	c.SetReadDeadline(time.Now().Add(20 * time.Second))
	b := make([]byte, 68)
	n, err := io.ReadFull(c.R, b)
	c.s.mu.Lock()
	c.s.reqs = append(c.s.reqs, Request{b[:n], c.RemoteAddr().String(), time.Now()})
	c.s.mu.Unlock()
	return b[:n], err
}

// ReadMsg reads one length-prefixed message.
func (c *Conn) ReadMsg() ([]byte, error) {
	var p [4]byte
	if _, err := io.ReadFull(c.R, p[:]); err != nil {
		return nil, err
	}
	n := binary.BigEndian.Uint32(p[:])
	if n > 1<<20 {
		return nil, fmt.Errorf("the crawler sent a message of %d bytes", n)
	}
	b := make([]byte, n)
	_, err := io.ReadFull(c.R, b)
	return b, err
}

// HandShake encodes a handshake.
func HandShake(reserved [8]byte, infoHash, peerId string) []byte {
	b := append([]byte{19}, "BitTorrent protocol"...)
	b = append(b, reserved[:]...)
	b = append(b, infoHash...)
	return append(b, peerId...)
}

// Msg frames a message.
func Msg(payload []byte) []byte {
	b := make([]byte, 4, 4+len(payload))
	binary.BigEndian.PutUint32(b, uint32(len(payload)))
	return append(b, payload...)
}

// Ext frames an extension message.
func Ext(id int, dict ref.Dict, data []byte) []byte {
	p := append([]byte{20, byte(id)}, ref.Encode(dict)...)
	return Msg(append(p, data...))
}

// Pieces is the number of pieces of n bytes.
func Pieces(n int) int { return (n + PieceSize - 1) / PieceSize }

// Piece is piece i of meta.
func Piece(meta []byte, i int) []byte {
	e := (i + 1) * PieceSize
	if e > len(meta) {
		e = len(meta)
	}
	return meta[i*PieceSize : e]
}

// Data is the message that carries piece i to a crawler that takes metadata
// messages under id.
func Data(id int, meta []byte, i int) []byte {
	return Ext(id, ref.Dict{"msg_type": 1, "piece": i, "total_size": len(meta)}, Piece(meta, i))
}

// Meta makes n bytes of metadata that look like an info dictionary when there
// is room.
func Meta(n int, seed byte) []byte {
	b := make([]byte, n)
	x := uint32(seed)*2654435761 + uint32(n)
	for i := range b {
		x = x*1664525 + 1013904223
		b[i] = byte(x >> 24)
	}
	return b
}

// Plan is a conforming peer.
type Plan struct {
	Meta     []byte
	Ask      string   // info hash the crawler asks for; that of Meta if empty
	ExtId    int      // id the peer assigns to ut_metadata
	Reserved [8]byte  // must have the extension bit
	PeerId   string   // 20 bytes; a default if empty
	Extra    ref.Dict // more fields of the extension handshake
	ExtraM   ref.Dict // more extensions in m
	Early    bool     // extension handshake sent before the crawler's arrived
	Before   [][]byte // framed messages sent before the extension handshake
	Between  [][]byte // framed messages sent round robin before pieces
	Order    []int    // order the pieces are sent in; nil: as requested
	Cuts     []int    // sizes of the writes, cycled; nil: one write per message
	Merge    bool     // pieces are written together with what is sent around them
	Pause    time.Duration
	Hold     func() // called when all pieces were asked for, before the last is sent
}

// Script serves p. Problems with what the crawler sends are reported once.
func (p Plan) Script(report func(string)) func(c *Conn) {
	return func(c *Conn) {
		t0 := time.Now()
		hs, err := c.ReadHandShake()
		if err != nil {
			return
		}
		hash := p.Ask
		if hash == "" {
			hash = Hash(p.Meta)
		}
		want := HandShake([8]byte{}, hash, "")
		if string(hs[:20]) != string(want[:20]) || string(hs[28:48]) != string(want[28:48]) || hs[25]&0x10 == 0 {
			report(fmt.Sprintf("the crawler's handshake is %q, expected info hash %q and the extension bit", hs, hash))
			return
		}
		w := &writer{c: c, cuts: p.Cuts, pause: p.Pause}
		id := p.PeerId
		if id == "" {
			id = "-VF0001-abcdefghijkl"
		}
		w.put(HandShake(p.Reserved, hash, id))
		m := ref.Dict{"ut_metadata": p.ExtId}
		for k, v := range p.ExtraM {
			m[k] = v
		}
		ext := ref.Dict{"m": m, "metadata_size": len(p.Meta)}
		for k, v := range p.Extra {
			ext[k] = v
		}
		announce := func() {
			for _, b := range p.Before {
				w.put(b)
			}
			w.put(Ext(0, ext, nil))
			w.flush()
		}
		if p.Early {
			announce()
		} else {
			w.flush()
		}
		theirs := 0 // the crawler's id of ut_metadata
		n := Pieces(len(p.Meta))
		asked := make([]bool, n)
		sent := make([]bool, n)
		count, between := 0, 0
		send := func(i int) {
			sent[i] = true
			if len(p.Between) > 0 {
				w.put(p.Between[between%len(p.Between)])
				between++
			}
			w.put(Data(theirs, p.Meta, i))
			if !p.Merge {
				w.flush()
			}
		}
		for count < n {
			// a crawler that awaits pieces before it asks for more gets them
			c.SetReadDeadline(time.Now().Add(100 * time.Millisecond))
			if _, err := c.R.Peek(4); err != nil {
				if e, ok := err.(net.Error); !ok || !e.Timeout() || time.Since(t0) > 20*time.Second {
					return
				}
				for _, j := range p.Order {
					if asked[j] && !sent[j] {
						send(j)
					}
				}
				w.flush()
				continue
			}
			c.SetReadDeadline(time.Now().Add(20 * time.Second))
			b, err := c.ReadMsg()
			if err != nil {
				return
			}
			if len(b) < 2 || b[0] != 20 {
				continue
			}
			v, next, verdict := ref.Parse(b[2:])
			d, ok := v.(ref.Dict)
			if verdict != ref.Good || !ok || next != len(b)-2 {
				report(fmt.Sprintf("the crawler sent the extension message %q", b))
				return
			}
			switch int(b[1]) {
			case 0:
				mm, _ := d["m"].(ref.Dict)
				theirs, _ = mm["ut_metadata"].(int)
				if theirs < 1 || theirs > 255 {
					report(fmt.Sprintf("the crawler's extension handshake is %q", b))
					return
				}
				if !p.Early {
					announce()
				}
			case p.ExtId:
				i, ok := d["piece"].(int)
				if d["msg_type"] != 0 || !ok || i < 0 || i >= n {
					report(fmt.Sprintf("the crawler asked %q for metadata of %d pieces", b, n))
					return
				}
				if asked[i] {
					continue
				}
				asked[i] = true
				count++
				if count == n && p.Hold != nil {
					p.Hold()
				}
				if p.Order == nil {
					send(i)
				} else if count == n {
					for _, j := range p.Order {
						if !sent[j] {
							send(j)
						}
					}
				}
			default:
				report(fmt.Sprintf("the crawler sent extension message %q, the peer's ut_metadata id is %d", b, p.ExtId))
				return
			}
		}
		w.flush()
		io.Copy(io.Discard, c.R)
	}
}

// writer cuts what is put into writes of drawn sizes.
type writer struct {
	c     *Conn
	buf   []byte
	cuts  []int
	next  int
	slept int
	pause time.Duration
}

func (w *writer) put(b []byte) { w.buf = append(w.buf, b...) }

func (w *writer) flush() {
	for len(w.buf) > 0 {
		n := len(w.buf)
		if len(w.cuts) > 0 {
			if k := w.cuts[w.next%len(w.cuts)]; k < n {
				n = k
			}
			w.next++
		}
		if _, err := w.c.Write(w.buf[:n]); err != nil {
			return
		}
		w.buf = w.buf[n:]
		if w.pause > 0 && len(w.buf) > 0 && w.slept < 100 {
			w.slept++
			time.Sleep(w.pause)
		}
	}
}

// Accepted is the number of connections so far.
func (s *Server) Accepted() int {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.all
}

// DrawMeta draws metadata of n bytes, in a third of the cases with an info
// hash that begins or ends with a byte careless code treats specially.
func DrawMeta(rt *rapid.T, n int) []byte {
	m := Meta(n, rapid.Byte().Draw(rt, "content"))
	if n < 3 || n > 200000 || rapid.IntRange(0, 2).Draw(rt, "special hash") > 0 {
		return m
	}
	at := rapid.SampledFrom([]int{0, 19}).Draw(rt, "at")
	want := rapid.SampledFrom([]byte{0, ' ', '\n', 0xff, '0', 'd'}).Draw(rt, "hash byte")
	for i := 0; i < 2000 && Hash(m)[at] != want; i++ {
		m[n-1], m[n-2], m[n-3] = byte(i), byte(i>>8), 'h'
	}
	return m
}
