package h

import (
	"fmt"
	"os"
	"runtime"
	"sync/atomic"
	"time"
)

var caseStart atomic.Int64

func init() {
	go func() {
		for {
			time.Sleep(time.Second)
			s := caseStart.Load()
			if s != 0 && time.Since(time.Unix(0, s)) > stuckAfter {
				buf := make([]byte, 1<<20)
				n := runtime.Stack(buf, true)
				if n > 20000 {
					n = 20000
				}
				fmt.Fprintf(os.Stderr, "VERIF-STUCK: one case did not end within %v\n%s\n", stuckAfter, buf[:n])
				os.Exit(4)
			}
		}
	}()
}

const stuckAfter = 120 * time.Second

// Within runs f and reports whether it came back within d.
func Within(d time.Duration, f func()) bool {
	done := make(chan struct{})
	go func() {
		defer close(done)
		f()
	}()
	select {
	case <-done:
		return true
	case <-time.After(Patience(d)):
		return false
	}
}

// Eventually polls cond until it holds or d passed.
func Eventually(d time.Duration, cond func() bool) bool {
	end := time.Now().Add(Patience(d))
	for {
		if cond() {
			return true
		}
		if time.Now().After(end) {
			return cond()
		}
		time.Sleep(2 * time.Millisecond)
	}
}

// Silence sends what the code under test prints to /dev/null for the rest of
// the test; the test framework keeps its own handle of stdout.
func Silence(t interface{ Cleanup(func()) }) {
	null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	if err != nil {
		return
	}
	old := os.Stdout
	os.Stdout = null
	t.Cleanup(func() { os.Stdout = old })
}
