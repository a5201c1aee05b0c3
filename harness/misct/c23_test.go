package misct

import (
	"context"
	"fmt"
	"os"
	"os/signal"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"github.com/GalaIO/P2Pcrawler/misc"
	"pgregory.net/rapid"
	"verif/harness/h"
)

type waiter interface {
	WaitShutdown(time.Duration)
	Status() misc.ShutdownStatus
	Clean(...misc.CleanFunc)
}

func TestC23(t *testing.T) {
	// a signal the code under test does not take must not end this process
	signal.Notify(make(chan os.Signal, 1), syscall.SIGINT, syscall.SIGTERM)
	h.Check(t, "default", "the process-wide shutdown context, once: cleanups registered in several calls, context installed with InitShutdownCtx; non-trivial: always", 1, 1,
		func(rt *rapid.T, c *h.Case) {
			n := rapid.IntRange(2, 5).Draw(rt, "n")
			c.Input("%d cleanups", n)
			c.NonTrivial(true)
			ctx, cancel := context.WithCancel(context.Background())
			misc.InitShutdownCtx(ctx)
			var mu sync.Mutex
			runs := map[string]int{}
			for i := 0; i < n; i++ {
				name := fmt.Sprint(i)
				misc.RegisterShutDownClean(func() { mu.Lock(); runs[name]++; mu.Unlock() }, func() { mu.Lock(); runs[name+"b"]++; mu.Unlock() })
			}
			ret := make(chan struct{})
			go func() { misc.Wait4Shutdown(120 * time.Second); close(ret) }()
			time.Sleep(30 * time.Millisecond)
			select {
			case <-ret:
				rt.Fatalf("the wait returned before any trigger")
			default:
			}
			cancel()
			select {
			case <-ret:
			case <-time.After(h.Patience(patience)):
				rt.Fatalf("the wait did not return")
			}
			mu.Lock()
			defer mu.Unlock()
			if len(runs) != 2*n {
				rt.Fatalf("%d of %d cleanups ran", len(runs), 2*n)
			}
			for k, v := range runs {
				if v != 1 {
					rt.Fatalf("cleanup %s ran %d times", k, v)
				}
			}
		})
	h.Check(t, "wait", "0 to 7, now and then up to 300, cleanups registered in drawn batches, each quick, sleeping, waiting for all the others to have started, or blocked past the timeout; triggered by a context done before or during the wait or by one or several SIGINT or SIGTERM before or during it; non-trivial: at least two cleanups", 150, 4000,
		func(rt *rapid.T, c *h.Case) {
			kinds := rapid.SliceOfN(rapid.IntRange(0, 3), 0, 7).Draw(rt, "kinds")
			if rapid.IntRange(0, 7).Draw(rt, "many") == 0 {
				kinds = make([]int, rapid.IntRange(8, 300).Draw(rt, "n"))
				for i := range kinds {
					kinds[i] = i % 3
				}
			}
			mode := rapid.SampledFrom([]string{"finish", "barrier", "timeout"}).Draw(rt, "mode")
			trigger := rapid.SampledFrom([]string{"done", "cancel", "deadline", "SIGINT", "SIGTERM", "SIGINT", "SIGTERM"}).Draw(rt, "trigger")
			// a signal may come before anybody waits, and more of them may follow
			early := trigger[:3] == "SIG" && rapid.IntRange(0, 2).Draw(rt, "early") == 0
			more := 0
			if trigger[:3] == "SIG" && rapid.IntRange(0, 2).Draw(rt, "more") == 0 {
				more = rapid.IntRange(1, 3).Draw(rt, "signals")
			}
			if mode == "timeout" && len(kinds) == 0 {
				mode = "finish"
			}
			timeout := 120 * time.Second
			if mode == "timeout" {
				timeout = time.Duration(rapid.OneOf(rapid.IntRange(20, 120), rapid.SampledFrom([]int{0, 1, 30})).Draw(rt, "timeoutMs")) * time.Millisecond
			}
			quiet := time.Duration(rapid.IntRange(0, 20).Draw(rt, "quietMs")) * time.Millisecond
			cuts := rapid.SliceOfN(rapid.Bool(), len(kinds), len(kinds)).Draw(rt, "batches")
			c.Input("cleanups %v batches %v mode %s trigger %s (early %v, %d more) timeout %v", kinds, cuts, mode, trigger, early, more, timeout)
			c.NonTrivial(len(kinds) >= 2)
			c.Label(mode, true)
			c.Label(trigger, true)

			ctx, cancel := context.WithCancel(context.Background())
			defer cancel()
			if trigger == "done" {
				cancel()
			}
			if trigger == "deadline" {
				ctx, cancel = context.WithTimeout(context.Background(), quiet)
				defer cancel()
			}
			var sc waiter = misc.WithShutdownContext(ctx)
			if sc.Status() != misc.Running {
				rt.Fatalf("status %v before shutdown", sc.Status())
			}
			n := len(kinds)
			runs := make([]atomic.Int32, n)
			var started, finished atomic.Int32
			gate := make(chan struct{})
			allStarted := make(chan struct{})
			var badStatus atomic.Int32
			badStatus.Store(-1)
			var fns []misc.CleanFunc
			for i, k := range kinds {
				i, k := i, k
				fns = append(fns, func() {
					runs[i].Add(1)
					if s := sc.Status(); s != misc.Shutdowning && mode != "timeout" {
						badStatus.Store(int32(s))
					}
					if int(started.Add(1)) == n {
						close(allStarted)
					}
					switch {
					case mode == "timeout" && (k == 3 || i == 0):
						<-gate
					case mode == "barrier":
						<-allStarted
					case k == 1:
						time.Sleep(time.Millisecond)
					case k == 2:
						time.Sleep(8 * time.Millisecond)
					}
					finished.Add(1)
				})
			}
			for i := 0; i < n; {
				j := i + 1
				for j < n && !cuts[j] {
					j++
				}
				sc.Clean(fns[i:j]...)
				i = j
			}
			ret := make(chan time.Duration, 1)
			var t0 atomic.Int64
			kill := func() {
				sigs := map[string]syscall.Signal{"SIGINT": syscall.SIGINT, "SIGTERM": syscall.SIGTERM}
				for i := 0; i <= more; i++ {
					syscall.Kill(os.Getpid(), sigs[trigger])
				}
			}
			if early {
				kill()
				time.Sleep(quiet)
			}
			t0.Store(time.Now().UnixNano())
			go func() {
				sc.WaitShutdown(timeout)
				ret <- time.Since(time.Unix(0, t0.Load()))
			}()
			if trigger == "cancel" || trigger[:3] == "SIG" && !early {
				time.Sleep(quiet)
				select {
				case <-ret:
					rt.Fatalf("the wait returned before any trigger")
				default:
				}
				if started.Load() != 0 || sc.Status() != misc.Running {
					rt.Fatalf("before the trigger: %d cleanups started, status %v", started.Load(), sc.Status())
				}
				t0.Store(time.Now().UnixNano())
				switch trigger {
				case "cancel":
					cancel()
				default:
					kill()
				}
			}
			opened := false
			defer func() {
				if !opened {
					close(gate)
				}
			}()
			var took time.Duration
			select {
			case took = <-ret:
			case <-time.After(h.Patience(patience)):
				rt.Fatalf("the wait did not return (timeout %v, %d of %d cleanups finished)", timeout, finished.Load(), n)
			}
			if sc.Status() != misc.Shutdowned {
				rt.Fatalf("status %v after the wait", sc.Status())
			}
			if s := badStatus.Load(); s >= 0 {
				rt.Fatalf("status %v while a cleanup runs", s)
			}
			if mode == "timeout" {
				if took < timeout*9/10 {
					rt.Fatalf("the wait returned after %v, before the timeout %v, with unfinished cleanups", took, timeout)
				}
				opened = true
				close(gate)
				if took > timeout+punctual && lateAgain(timeout, func(timeout time.Duration) time.Duration {
					ctx, cancel := context.WithCancel(context.Background())
					cancel()
					w := misc.WithShutdownContext(ctx)
					hold := make(chan struct{})
					defer close(hold)
					w.Clean(func() { <-hold })
					t0 := time.Now()
					w.WaitShutdown(timeout)
					return time.Since(t0)
				}) {
					rt.Fatalf("the wait returned after %v, its timeout is %v", took, timeout)
				}
				if !h.Eventually(patience, func() bool { return int(finished.Load()) == n }) {
					rt.Fatalf("only %d of %d cleanups ran", finished.Load(), n)
				}
			} else if int(finished.Load()) != n {
				rt.Fatalf("the wait returned with %d of %d cleanups finished", finished.Load(), n)
			}
			for i := range runs {
				if runs[i].Load() != 1 {
					rt.Fatalf("cleanup %d ran %d times", i, runs[i].Load())
				}
			}
		})
	h.Check(t, "long", "16 contexts at a time, done from the start, whose cleanups take up to 7 s, with timeouts of 0.7 to 4 s; all non-trivial", 3, 40,
		func(rt *rapid.T, c *h.Case) {
			patient(rt, c, func(timeout, work time.Duration) (time.Duration, bool) {
				ctx, cancel := context.WithCancel(context.Background())
				cancel()
				sc := misc.WithShutdownContext(ctx)
				var finished atomic.Int32
				for _, d := range []time.Duration{work, 0, work / 2, work} {
					d := d
					sc.Clean(func() { time.Sleep(d); finished.Add(1) })
				}
				t0 := time.Now()
				sc.WaitShutdown(timeout)
				return time.Since(t0), finished.Load() == 4
			})
		})
}
