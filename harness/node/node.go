// Package node runs the crawler program the driver built.
package node

import (
	"encoding/json"
	"fmt"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync/atomic"
	"syscall"
	"time"

	"verif/harness/h"
	"verif/harness/netx"
	"verif/harness/ref"
)

// Opts of a crawler. Zero values take small defaults.
type Opts struct {
	Bootstrap []string
	WorkPool  int
	FetchPool int
	Queue     int
	Flag      bool // give the configuration by --config, next to another ./conf/config.json
	Env       []string
}

// Node is a running crawler.
type Node struct {
	Dir  string
	Port int
	Addr *net.UDPAddr
	cmd  *exec.Cmd
	done chan struct{}
}

// Conf is the configuration document of o.
func Conf(o Opts, port int) map[string]interface{} {
	pick := func(v, d int) int {
		if v == 0 {
			return d
		}
		return v
	}
	if o.Bootstrap == nil {
		o.Bootstrap = []string{}
	}
	return map[string]interface{}{
		"dht":          map[string]interface{}{"Port": port, "WorkPoolSize": pick(o.WorkPool, 8), "BootstrapNodes": o.Bootstrap},
		"fetchTorrent": map[string]interface{}{"InfoHashQueueSize": pick(o.Queue, 10000), "WorkPoolSize": pick(o.FetchPool, 10)},
		"pprof":        map[string]interface{}{"NeedRun": false},
		"logger":       map[string]interface{}{"Level": "Info"},
	}
}

// Command is the crawler program with arguments, in dir.
func Command(dir string, args ...string) *exec.Cmd {
	bin := os.Getenv("VERIF_CRAWLER")
	if bin == "" {
		h.Infra("no crawler binary")
	}
	c := exec.Command(bin, args...)
	c.Dir = dir
	return c
}

// Scratch makes a directory for a crawler.
func Scratch() string {
	d, err := os.MkdirTemp("", "node")
	if err != nil {
		h.Infra("%v", err)
	}
	return d
}

// WriteJSON writes v to a file, making its directory.
func WriteJSON(path string, v interface{}) {
	b, err := json.Marshal(v)
	if err == nil {
		os.MkdirAll(filepath.Dir(path), 0777)
		err = os.WriteFile(path, b, 0666)
	}
	if err != nil {
		h.Infra("%v", err)
	}
}

// Launch starts a crawler without waiting for it to serve.
func Launch(o Opts, port int) *Node {
	dir := Scratch()
	args := []string{}
	if o.Flag {
		other := o
		other.Bootstrap = nil
		WriteJSON(filepath.Join(dir, "conf/config.json"), Conf(other, netx.FreeUDPPort()))
		WriteJSON(filepath.Join(dir, "other/my.json"), Conf(o, port))
		args = []string{"--config", "other/my.json"}
	} else {
		WriteJSON(filepath.Join(dir, "conf/config.json"), Conf(o, port))
	}
	return RunEnv(dir, port, o.Env, args...)
}

// Run starts the crawler program in dir, where its configuration gives port.
func Run(dir string, port int, args ...string) *Node { return RunEnv(dir, port, nil, args...) }

// RunEnv is Run with more environment variables.
func RunEnv(dir string, port int, env []string, args ...string) *Node {
	return run(dir, port, env, "", args)
}

// RunOut is Run with the standard output kept in the file "stdout".
func RunOut(dir string, port int, args ...string) *Node {
	return run(dir, port, nil, "stdout", args)
}

func run(dir string, port int, env []string, stdout string, args []string) *Node {
	n := &Node{Dir: dir, Port: port, Addr: netx.Local(port), done: make(chan struct{})}
	n.cmd = Command(n.Dir, args...)
	if env != nil {
		n.cmd.Env = append(os.Environ(), env...)
	}
	errf, err := os.Create(filepath.Join(n.Dir, "stderr"))
	if err != nil {
		h.Infra("%v", err)
	}
	n.cmd.Stderr = errf
	if stdout != "" {
		outf, err := os.Create(filepath.Join(n.Dir, stdout))
		if err != nil {
			h.Infra("%v", err)
		}
		defer outf.Close()
		n.cmd.Stdout = outf
	}
	if err := n.cmd.Start(); err != nil {
		h.Infra("start the crawler: %v", err)
	}
	errf.Close()
	go func() {
		n.cmd.Wait()
		close(n.done)
	}()
	return n
}

// Start starts a crawler and waits until it answers. The error says why there
// is none.
func Start(o Opts) (*Node, error) {
	var last error
	for i := 0; i < 3; i++ {
		n := Launch(o, netx.FreeUDPPort())
		if last = n.Ready(60 * time.Second); last == nil {
			return n, nil
		}
		n.Kill()
		if len(o.Bootstrap) > 0 {
			break // the bootstrap nodes heard from it, a second try would confuse them
		}
	}
	return nil, last
}

// PortTaken tells that the drawn port was not free after all.
func PortTaken(err error) bool {
	return err != nil && strings.Contains(err.Error(), "address already in use")
}

// PingMsg is a valid ping with transaction id tx.
func PingMsg(tx string) string {
	return string(ref.Encode(ref.Dict{"t": tx, "y": "q", "q": "ping", "a": ref.Dict{"id": "abcdefghij0123456789"}}))
}

// OwnId is the id the crawler last gave as its own, for queries that carry it.
var OwnId atomic.Value

// Ready waits until the crawler answers a ping.
func (n *Node) Ready(d time.Duration) error {
	s := netx.MustOpen("127.0.0.1")
	defer s.Close()
	end := time.Now().Add(d)
	wait := 20 * time.Millisecond
	for i := 0; time.Now().Before(end); i++ {
		s.Send(n.Addr, PingMsg("rd"))
		if d, ok := s.Recv(wait); ok {
			if v, _ := ref.ParseAll([]byte(d.Data)); v != nil {
				m, _ := v.(ref.Dict)
				r, _ := m["r"].(ref.Dict)
				if id, _ := r["id"].(string); len(id) == 20 {
					OwnId.Store(id)
				}
			}
			return nil
		}
		if !n.Alive() {
			return fmt.Errorf("the crawler ended by itself: %s", n.Stderr())
		}
		if wait < time.Second {
			wait *= 2
		}
	}
	return fmt.Errorf("the crawler does not answer pings: %s", n.Stderr())
}

// Alive reports whether the process is running.
func (n *Node) Alive() bool {
	select {
	case <-n.done:
		return false
	default:
		return true
	}
}

// FDs is the number of descriptors the process has open.
func (n *Node) FDs() int {
	es, err := os.ReadDir(fmt.Sprintf("/proc/%d/fd", n.cmd.Process.Pid))
	if err != nil {
		return -1
	}
	return len(es)
}

// Stdout is what the process printed so far, if RunOut started it.
func (n *Node) Stdout() string {
	b, _ := os.ReadFile(filepath.Join(n.Dir, "stdout"))
	return string(b)
}

// Listening returns the TCP ports the process listens on.
func (n *Node) Listening() []int {
	inodes := map[string]int{}
	for _, f := range []string{"/proc/net/tcp", "/proc/net/tcp6"} {
		b, _ := os.ReadFile(f)
		for _, l := range strings.Split(string(b), "\n") {
			w := strings.Fields(l)
			if len(w) < 10 || w[3] != "0A" {
				continue
			}
			port, err := strconv.ParseInt(w[1][strings.LastIndex(w[1], ":")+1:], 16, 32)
			if err == nil {
				inodes["socket:["+w[9]+"]"] = int(port)
			}
		}
	}
	var r []int
	fd := fmt.Sprintf("/proc/%d/fd", n.cmd.Process.Pid)
	es, _ := os.ReadDir(fd)
	for _, e := range es {
		if l, err := os.Readlink(filepath.Join(fd, e.Name())); err == nil {
			if p, ok := inodes[l]; ok {
				r = append(r, p)
			}
		}
	}
	return r
}

// End kills the process and keeps its directory.
func (n *Node) End() {
	n.cmd.Process.Kill()
	<-n.done
}

// Signal sends sig.
func (n *Node) Signal(sig os.Signal) { n.cmd.Process.Signal(sig) }

// Wait waits for the end of the process and returns its exit status.
func (n *Node) Wait(d time.Duration) (code int, ended bool) {
	select {
	case <-n.done:
		if ws, ok := n.cmd.ProcessState.Sys().(syscall.WaitStatus); ok && ws.Signaled() {
			return -int(ws.Signal()), true
		}
		return n.cmd.ProcessState.ExitCode(), true
	case <-time.After(d):
		return 0, false
	}
}

// Kill ends the process and removes its directory.
func (n *Node) Kill() {
	n.cmd.Process.Kill()
	<-n.done
	os.RemoveAll(n.Dir)
}

// Stderr is the tail of what the process wrote to stderr.
func (n *Node) Stderr() string {
	b, _ := os.ReadFile(filepath.Join(n.Dir, "stderr"))
	s := strings.TrimSpace(string(b))
	if len(s) > 1500 {
		s = s[:1500]
	}
	return s
}
