// Package netx has the UDP helpers of the checks.
package netx

import (
	"fmt"
	"net"
	"os"
	"strconv"
	"strings"
	"sync"
	"time"

	"verif/harness/h"
)

// Datagram is a received datagram.
type Datagram struct {
	From *net.UDPAddr
	Data string
	At   time.Time
}

// Sock is a UDP socket on loopback that collects what it receives.
type Sock struct {
	Conn *net.UDPConn
	Addr *net.UDPAddr
	mu   sync.Mutex
	cond *sync.Cond
	got  []Datagram
	next int
	hook func(Datagram)
}

// Open binds ip:port (port 0: any).
func Open(ip string, port int) (*Sock, error) {
	network := "udp4"
	if strings.Contains(ip, ":") {
		network = "udp6"
	}
	c, err := net.ListenUDP(network, &net.UDPAddr{IP: net.ParseIP(ip), Port: port})
	if err != nil {
		return nil, err
	}
	c.SetReadBuffer(4 << 20)
	s := &Sock{Conn: c, Addr: c.LocalAddr().(*net.UDPAddr)}
	s.cond = sync.NewCond(&s.mu)
	go s.loop()
	return s, nil
}

// MustOpen is Open that ends the run as a harness error.
func MustOpen(ip string) *Sock {
	s, err := Open(ip, 0)
	if err != nil {
		h.Infra("bind %s: %v", ip, err)
	}
	return s
}

// OnRecv runs f for every datagram received from now on, before it is queued.
func (s *Sock) OnRecv(f func(Datagram)) {
	s.mu.Lock()
	s.hook = f
	s.mu.Unlock()
}

func (s *Sock) loop() {
	buf := make([]byte, 70000)
	for {
		n, from, err := s.Conn.ReadFromUDP(buf)
		if err != nil {
			if strings.Contains(err.Error(), "closed") {
				return
			}
			continue
		}
		d := Datagram{from, string(buf[:n]), time.Now()}
		s.mu.Lock()
		hook := s.hook
		s.mu.Unlock()
		if hook != nil {
			hook(d)
		}
		s.mu.Lock()
		s.got = append(s.got, d)
		s.cond.Broadcast()
		s.mu.Unlock()
	}
}

// DualStack reports whether a socket bound to a port of all addresses receives
// from and answers to ::1 here.
func DualStack() bool {
	a, err := net.ListenUDP("udp", &net.UDPAddr{})
	if err != nil {
		return false
	}
	defer a.Close()
	b, err := Open("::1", 0)
	if err != nil {
		return false
	}
	defer b.Close()
	to := &net.UDPAddr{IP: net.IPv6loopback, Port: a.LocalAddr().(*net.UDPAddr).Port}
	if _, err := b.Conn.WriteToUDP([]byte("x"), to); err != nil {
		return false
	}
	buf := make([]byte, 10)
	a.SetReadDeadline(time.Now().Add(5 * time.Second))
	_, from, err := a.ReadFromUDP(buf)
	if err != nil {
		return false
	}
	a.WriteToUDP([]byte("y"), from)
	_, ok := b.Recv(5 * time.Second)
	return ok
}

// V6 reports whether the socket is an IPv6 one.
func (s *Sock) V6() bool { return s.Addr.IP.To4() == nil }

// Send sends one datagram, from an IPv6 socket to the IPv6 loopback address.
func (s *Sock) Send(to *net.UDPAddr, data string) {
	if s.V6() && to.IP.To4() != nil {
		to = &net.UDPAddr{IP: net.IPv6loopback, Port: to.Port}
	}
	for i := 0; ; i++ {
		_, err := s.Conn.WriteToUDP([]byte(data), to)
		if err == nil {
			return
		}
		if i > 50 {
			h.Infra("send to %v: %v", to, err)
		}
		time.Sleep(time.Millisecond)
	}
}

// Recv returns the next datagram not returned yet, waiting up to d.
func (s *Sock) Recv(d time.Duration) (Datagram, bool) {
	d = h.Patience(d)
	end := time.Now().Add(d)
	t := time.AfterFunc(d, func() { s.mu.Lock(); s.cond.Broadcast(); s.mu.Unlock() })
	defer t.Stop()
	s.mu.Lock()
	defer s.mu.Unlock()
	for s.next >= len(s.got) {
		if !time.Now().Before(end) {
			return Datagram{}, false
		}
		s.cond.Wait()
	}
	s.next++
	return s.got[s.next-1], true
}

// All returns everything received so far.
func (s *Sock) All() []Datagram {
	s.mu.Lock()
	defer s.mu.Unlock()
	return append([]Datagram(nil), s.got...)
}

// Reset forgets what was received.
func (s *Sock) Reset() {
	s.mu.Lock()
	s.got, s.next = nil, 0
	s.mu.Unlock()
}

func (s *Sock) Close() { s.Conn.Close() }

// Drops sums the datagrams the kernel dropped at the given local UDP ports, so
// that a lost datagram is not mistaken for one that was never sent.
func Drops(ports ...int) int {
	total := 0
	for _, f := range []string{"/proc/net/udp", "/proc/net/udp6"} {
		b, err := os.ReadFile(f)
		if err != nil {
			continue
		}
		for _, line := range strings.Split(string(b), "\n")[1:] {
			w := strings.Fields(line)
			if len(w) < 13 {
				continue
			}
			i := strings.LastIndexByte(w[1], ':')
			p, err := strconv.ParseInt(w[1][i+1:], 16, 32)
			if err != nil {
				continue
			}
			for _, q := range ports {
				if int(p) == q {
					n, _ := strconv.Atoi(w[len(w)-1])
					total += n
				}
			}
		}
	}
	return total
}

// FreeUDPPort returns a port that was free on every local address just now.
func FreeUDPPort() int {
	for i := 0; i < 50; i++ {
		c, err := net.ListenUDP("udp", &net.UDPAddr{})
		if err != nil {
			continue
		}
		p := c.LocalAddr().(*net.UDPAddr).Port
		c.Close()
		return p
	}
	h.Infra("no free UDP port")
	return 0
}

func Local(port int) *net.UDPAddr { return &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1).To4(), Port: port} }

var _ = fmt.Sprint
