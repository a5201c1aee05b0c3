package misct

import (
	"context"
	"fmt"
	"runtime"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/GalaIO/P2Pcrawler/misc"
	"pgregory.net/rapid"
	"verif/harness/h"
)

const patience = 40 * time.Second // what a correct pool needs is milliseconds

// punctual is how much later than its timeout a call may come back.
const punctual = 250 * time.Millisecond

// lateAgain tells a call that is always late from one on a busy machine: it
// reports whether each of five more calls is late, with growing allowance.
func lateAgain(timeout time.Duration, call func(timeout time.Duration) time.Duration) bool {
	if timeout > 30*time.Millisecond {
		timeout = 30 * time.Millisecond
	}
	for i := 0; i < 5; i++ {
		if call(timeout) <= timeout+punctual+time.Duration(i)*20*time.Millisecond {
			return false
		}
	}
	return true
}

// patient draws 16 waits with timeouts and work of up to seconds and runs them
// at the same time. wait returns how long it took and whether all the work was
// finished when it did. A wait that looks wrong is tried again alone.
func patient(rt *rapid.T, c *h.Case, wait func(timeout, work time.Duration) (took time.Duration, finished bool)) {
	type plan struct{ timeout, work time.Duration }
	var plans []plan
	text := ""
	for i := 0; i < 16; i++ {
		p := plan{timeout: time.Duration(rapid.IntRange(700, 4000).Draw(rt, "timeoutMs")) * time.Millisecond}
		if rapid.Bool().Draw(rt, "longer") {
			p.work = p.timeout + time.Duration(rapid.IntRange(600, 3000).Draw(rt, "moreMs"))*time.Millisecond
		} else {
			p.work = time.Duration(rapid.IntRange(0, int(p.timeout/time.Millisecond)-600).Draw(rt, "workMs")) * time.Millisecond
		}
		plans = append(plans, p)
		text += fmt.Sprintf(" %v of %v", p.work, p.timeout)
	}
	c.Input("work and timeouts%s", text)
	c.NonTrivial(true)
	judge := func(p plan) string {
		took, finished := wait(p.timeout, p.work)
		switch {
		case p.work < p.timeout && !finished:
			return fmt.Sprintf("the wait returned after %v, before work of %v was finished, although its timeout is %v", took, p.work, p.timeout)
		case p.work < p.timeout && took > p.work+500*time.Millisecond:
			return fmt.Sprintf("the wait for work of %v returned after %v", p.work, took)
		case p.work > p.timeout && took < p.timeout*9/10:
			return fmt.Sprintf("the wait returned after %v, its timeout is %v and the work takes %v", took, p.timeout, p.work)
		case p.work > p.timeout && took > p.timeout+500*time.Millisecond:
			return fmt.Sprintf("the wait returned after %v, its timeout is %v", took, p.timeout)
		}
		return ""
	}
	bad := make([]string, len(plans))
	var wg sync.WaitGroup
	for i := range plans {
		wg.Add(1)
		go func(i int) { defer wg.Done(); bad[i] = judge(plans[i]) }(i)
	}
	if !h.Within(patience, wg.Wait) {
		rt.Fatalf("a wait did not return")
	}
	for i, p := range plans {
		for k := 0; k < 3 && bad[i] != ""; k++ {
			bad[i] = judge(p)
		}
		if bad[i] != "" {
			rt.Fatal(bad[i])
		}
	}
}

// gone waits for the number of goroutines to come down to what it was.
func gone(before int) bool {
	return h.Eventually(patience, func() bool { return runtime.NumGoroutine() <= before })
}

type meter struct {
	mu       sync.Mutex
	runs     map[int]int
	running  int
	maxAtOne int
}

func newMeter() *meter { return &meter{runs: map[int]int{}} }

func (m *meter) enter(id int) {
	m.mu.Lock()
	m.runs[id]++
	m.running++
	if m.running > m.maxAtOne {
		m.maxAtOne = m.running
	}
	m.mu.Unlock()
}

func (m *meter) leave() {
	m.mu.Lock()
	m.running--
	m.mu.Unlock()
}

func (m *meter) count(id int) int {
	m.mu.Lock()
	defer m.mu.Unlock()
	return m.runs[id]
}

func (m *meter) peak() int {
	m.mu.Lock()
	defer m.mu.Unlock()
	return m.maxAtOne
}

func refused(pool *misc.WorkPool, ran *atomic.Int32) bool {
	_, p := h.Panics(func() { pool.AsyncSubmit(func() { ran.Add(1) }) })
	return p
}

func TestC22(t *testing.T) {
	h.Check(t, "run", "1 to 6 submitters, up to 60 tasks that return at once, yield or sleep, some submitting further tasks, on a pool of 1 to 8, 16, 64 or 600, then one or several shutdowns; non-trivial: more tasks than workers", 400, 15000,
		func(rt *rapid.T, c *h.Case) {
			size := rapid.OneOf(rapid.IntRange(1, 8), rapid.IntRange(1, 8), rapid.SampledFrom([]int{16, 64, 600})).Draw(rt, "size")
			subs := rapid.IntRange(1, 6).Draw(rt, "submitters")
			plan := rapid.SliceOfN(rapid.IntRange(0, 4), 0, 60).Draw(rt, "tasks")
			downs := rapid.IntRange(1, 4).Draw(rt, "shutdowns")
			c.Input("size %d, %d submitters, tasks %v, %d shutdowns", size, subs, plan, downs)
			c.NonTrivial(len(plan) > size)
			before := runtime.NumGoroutine()
			pool := misc.NewWorkPool(context.Background(), "p", size)
			if pool.Status() != misc.Running {
				rt.Fatalf("a new pool is not running")
			}
			m := newMeter()
			var wg sync.WaitGroup
			var done sync.WaitGroup
			done.Add(len(plan))
			refusedEarly := make(chan string, subs)
			for s := 0; s < subs; s++ {
				wg.Add(1)
				go func(s int) {
					defer wg.Done()
					for i := s; i < len(plan); i += subs {
						id, kind := i, plan[i]
						if p, bad := h.Panics(func() {
							pool.AsyncSubmit(func() {
								m.enter(id)
								switch kind {
								case 1:
									time.Sleep(100 * time.Microsecond)
								case 2:
									time.Sleep(2 * time.Millisecond)
								}
								m.leave()
								done.Done()
							})
						}); bad {
							refusedEarly <- fmt.Sprintf("task %d was refused by a running pool: %v", id, p)
							return
						}
					}
				}(s)
			}
			if !h.Within(patience, wg.Wait) {
				rt.Fatalf("submitting did not finish")
			}
			select {
			case e := <-refusedEarly:
				rt.Fatal(e)
			default:
			}
			shutdownFirst := rapid.Bool().Draw(rt, "shutdownBeforeDone")
			if !shutdownFirst && !h.Within(patience, done.Wait) {
				rt.Fatalf("accepted tasks did not all run")
			}
			var dwg sync.WaitGroup
			panics := make(chan interface{}, downs)
			for i := 0; i < downs; i++ {
				dwg.Add(1)
				go func() {
					defer dwg.Done()
					if p, bad := h.Panics(func() { pool.Shutdown(120 * time.Second) }); bad {
						panics <- p
					}
				}()
			}
			if !h.Within(patience, dwg.Wait) {
				rt.Fatalf("shutdown did not return although every task ends")
			}
			select {
			case p := <-panics:
				rt.Fatalf("concurrent shutdown panicked: %v", p)
			default:
			}
			if !h.Within(patience, done.Wait) {
				rt.Fatalf("accepted tasks did not all run after shutdown")
			}
			for i := range plan {
				if n := m.count(i); n != 1 {
					rt.Fatalf("task %d ran %d times", i, n)
				}
			}
			if p := m.peak(); p > size {
				rt.Fatalf("%d tasks ran at a time in a pool of %d", p, size)
			}
			if pool.Status() != misc.Shutdowned {
				rt.Fatalf("status %v after shutdown", pool.Status())
			}
			var ran atomic.Int32
			if !refused(pool, &ran) {
				rt.Fatalf("a shut down pool accepted a task")
			}
			pool.Shutdown(time.Second) // harmless again
			if !gone(before) {
				rt.Fatalf("goroutines of the pool are left: %d, before it was made %d", runtime.NumGoroutine(), before)
			}
		})
	h.Check(t, "blocked", "a pool of 1 to 6, 20, 100, 500 or 2000 with some workers blocked by tasks that wait on a gate, others queued behind; shutdown with a short timeout, a submission meanwhile, then the gate opens; non-trivial: tasks were queued at shutdown", 60, 1500,
		func(rt *rapid.T, c *h.Case) {
			size := rapid.OneOf(rapid.IntRange(1, 6), rapid.IntRange(1, 6), rapid.SampledFrom([]int{20, 100, 500, 2000})).Draw(rt, "size")
			blocked := rapid.OneOf(rapid.Just(size), h.Wide(0, size)).Draw(rt, "blocked")
			queued := rapid.OneOf(rapid.Just(size), h.Wide(0, size)).Draw(rt, "queued")
			ms := rapid.OneOf(rapid.SampledFrom([]int{0, 0, 1}), rapid.IntRange(20, 150), rapid.IntRange(20, 150)).Draw(rt, "timeout")
			c.Input("size %d, %d blocked, %d queued behind, shutdown timeout %dms", size, blocked, queued, ms)
			c.NonTrivial(blocked == size && queued > 0)
			before := runtime.NumGoroutine()
			pool := misc.NewWorkPool(context.Background(), "p", size)
			m := newMeter()
			gate := make(chan struct{})
			opened := false
			open := func() {
				if !opened {
					opened = true
					close(gate)
				}
			}
			defer open()
			var entered, done sync.WaitGroup
			entered.Add(blocked)
			done.Add(blocked + queued)
			for i := 0; i < blocked; i++ {
				i := i
				pool.AsyncSubmit(func() { m.enter(i); entered.Done(); <-gate; m.leave(); done.Done() })
			}
			if !h.Within(patience, entered.Wait) {
				rt.Fatalf("%d tasks in a pool of %d do not run at the same time", blocked, size)
			}
			var qdone sync.WaitGroup
			qdone.Add(queued)
			for i := 0; i < queued; i++ {
				i := blocked + i
				if !h.Within(patience, func() {
					pool.AsyncSubmit(func() { m.enter(i); m.leave(); qdone.Done(); done.Done() })
				}) {
					rt.Fatalf("submitting task %d blocked", i)
				}
			}
			if blocked < size && !h.Within(patience, qdone.Wait) {
				rt.Fatalf("tasks do not run although %d of %d workers are free", size-blocked, size)
			}
			t0 := time.Now()
			timeout := time.Duration(ms) * time.Millisecond
			var mid time.Duration
			back := make(chan struct{})
			go func() { pool.Shutdown(timeout); mid = time.Since(t0); close(back) }()
			if !h.Eventually(patience, func() bool { return pool.Status() != misc.Running }) {
				rt.Fatalf("the pool is running although shutdown was called")
			}
			var late atomic.Int32
			turnedDown := false
			if !h.Within(patience, func() { turnedDown = refused(pool, &late) }) {
				rt.Fatalf("submitting to a pool that shuts down blocks")
			}
			if !turnedDown {
				rt.Fatalf("a pool that shuts down accepted a task")
			}
			if !h.Within(patience, func() { <-back }) {
				rt.Fatalf("shutdown with timeout %v did not return", timeout)
			}
			if mid > timeout+punctual && lateAgain(timeout, func(timeout time.Duration) time.Duration {
				pool := misc.NewWorkPool(context.Background(), "p", 1)
				hold := make(chan struct{})
				defer close(hold)
				pool.AsyncSubmit(func() { <-hold })
				t0 := time.Now()
				pool.Shutdown(timeout)
				return time.Since(t0)
			}) {
				rt.Fatalf("shutdown returned after %v, its timeout is %v", mid, timeout)
			}
			if blocked > 0 && mid < timeout*9/10 {
				rt.Fatalf("shutdown returned after %v, before its timeout %v, while tasks are still running", mid, timeout)
			}
			if pool.Status() != misc.Shutdowned {
				rt.Fatalf("status %v after shutdown", pool.Status())
			}
			var ran atomic.Int32
			if !refused(pool, &ran) {
				rt.Fatalf("a shut down pool accepted a task")
			}
			open()
			if !h.Within(patience, done.Wait) {
				rt.Fatalf("tasks accepted before shutdown never ran")
			}
			if !gone(before) {
				rt.Fatalf("goroutines of the pool are left: %d, before it was made %d", runtime.NumGoroutine(), before)
			}
			for i := 0; i < blocked+queued; i++ {
				if n := m.count(i); n != 1 {
					rt.Fatalf("task %d ran %d times", i, n)
				}
			}
			if p := m.peak(); p > size {
				rt.Fatalf("%d tasks ran at a time in a pool of %d", p, size)
			}
		})
	h.Check(t, "full", "a pool of 1 to 64 that several submitters fill with more tasks than fit, all waiting at a gate for milliseconds, now and then for up to 4 s; exactly as many run as the pool has workers until the gate opens, then all run; all non-trivial", 40, 1500,
		func(rt *rapid.T, c *h.Case) {
			size := rapid.OneOf(rapid.IntRange(1, 6), rapid.SampledFrom([]int{16, 17, 33, 64})).Draw(rt, "size")
			subs := rapid.IntRange(1, 5).Draw(rt, "submitters")
			n := 2*size + rapid.IntRange(1, 2*subs+size).Draw(rt, "more")
			c.Input("size %d, %d submitters, %d tasks", size, subs, n)
			c.NonTrivial(true)
			before := runtime.NumGoroutine()
			pool := misc.NewWorkPool(context.Background(), "p", size)
			m := newMeter()
			gate := make(chan struct{})
			opened := false
			open := func() {
				if !opened {
					opened = true
					close(gate)
				}
			}
			defer open()
			var wg, done sync.WaitGroup
			done.Add(n)
			for s := 0; s < subs; s++ {
				wg.Add(1)
				go func(s int) {
					defer wg.Done()
					for i := s; i < n; i += subs {
						i := i
						pool.AsyncSubmit(func() { m.enter(i); <-gate; m.leave(); done.Done() })
					}
				}(s)
			}
			if !h.Eventually(patience, func() bool { return m.peak() >= size }) {
				rt.Fatalf("only %d of %d tasks run at a time in a pool of %d", m.peak(), n, size)
			}
			ms := rapid.IntRange(1, 15).Draw(rt, "ms")
			if h.Wide(0, 11).Draw(rt, "long wait") == 7 {
				ms = h.Wide(300, 4000).Draw(rt, "long ms")
			}
			time.Sleep(time.Duration(ms) * time.Millisecond)
			if p := m.peak(); p > size {
				rt.Fatalf("%d tasks ran at a time in a pool of %d", p, size)
			}
			open()
			if !h.Within(patience, wg.Wait) || !h.Within(patience, done.Wait) {
				rt.Fatalf("not all of %d tasks were taken and run", n)
			}
			for i := 0; i < n; i++ {
				if k := m.count(i); k != 1 {
					rt.Fatalf("task %d ran %d times", i, k)
				}
			}
			if p := m.peak(); p > size {
				rt.Fatalf("%d tasks ran at a time in a pool of %d", p, size)
			}
			pool.Shutdown(120 * time.Second)
			if !gone(before) {
				rt.Fatalf("goroutines of the pool are left: %d, before it was made %d", runtime.NumGoroutine(), before)
			}
		})
	h.Check(t, "cancel", "the context of the pool is cancelled at a drawn moment while tasks run; non-trivial: tasks were running or queued", 60, 1500,
		func(rt *rapid.T, c *h.Case) {
			size := rapid.IntRange(1, 5).Draw(rt, "size")
			n := rapid.IntRange(0, 2*size).Draw(rt, "tasks")
			early := rapid.IntRange(0, 5).Draw(rt, "early") == 0
			c.Input("size %d, %d tasks, cancelled before creation %v", size, n, early)
			c.NonTrivial(n > 0)
			before := runtime.NumGoroutine()
			ctx, cancel := context.WithCancel(context.Background())
			defer cancel()
			if early {
				cancel()
			}
			pool := misc.NewWorkPool(ctx, "p", size)
			m := newMeter()
			accepted := map[int]bool{}
			for i := 0; i < n; i++ {
				i := i
				_, bad := h.Panics(func() {
					pool.AsyncSubmit(func() { m.enter(i); time.Sleep(time.Millisecond); m.leave() })
				})
				if bad && !early {
					rt.Fatalf("task %d was refused by a running pool", i)
				}
				accepted[i] = !bad
			}
			cancel()
			if !h.Eventually(patience, func() bool { return pool.Status() == misc.Shutdowned }) {
				rt.Fatalf("the pool is not shut down after its context was cancelled: status %v", pool.Status())
			}
			var ran atomic.Int32
			if !refused(pool, &ran) {
				rt.Fatalf("a cancelled pool accepted a task")
			}
			if !gone(before) {
				rt.Fatalf("goroutines of the pool are left: %d, before it was made %d", runtime.NumGoroutine(), before)
			}
			for i, a := range accepted {
				got := m.count(i)
				if got > 1 || (got == 0 && a && !early) {
					rt.Fatalf("task %d (accepted %v) ran %d times", i, a, got)
				}
			}
		})
	h.Check(t, "race", "submitters keep submitting while 1 to 4 goroutines shut the pool down; every call comes back, tasks accepted before the first shutdown call run once, none twice; non-trivial: at least one submission was refused", 200, 6000,
		func(rt *rapid.T, c *h.Case) {
			size := rapid.IntRange(1, 4).Draw(rt, "size")
			subs := rapid.IntRange(1, 5).Draw(rt, "submitters")
			downs := rapid.IntRange(1, 4).Draw(rt, "shutdowns")
			lead := rapid.IntRange(0, 300).Draw(rt, "leadMicros")
			c.Input("size %d, %d submitters, %d shutdowns after %dus", size, subs, downs, lead)
			before := runtime.NumGoroutine()
			pool := misc.NewWorkPool(context.Background(), "p", size)
			m := newMeter()
			var downStarted atomic.Bool
			var mustRun sync.Map
			var refusals atomic.Int32
			var wg sync.WaitGroup
			for s := 0; s < subs; s++ {
				wg.Add(1)
				go func(s int) {
					defer wg.Done()
					for i := 0; i < 5000; i++ {
						id := s*100000 + i
						_, bad := h.Panics(func() { pool.AsyncSubmit(func() { m.enter(id); m.leave() }) })
						if bad {
							refusals.Add(1)
							return
						}
						if !downStarted.Load() {
							mustRun.Store(id, true)
						}
					}
				}(s)
			}
			panics := make(chan interface{}, downs)
			for i := 0; i < downs; i++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					time.Sleep(time.Duration(lead) * time.Microsecond)
					downStarted.Store(true)
					if p, bad := h.Panics(func() { pool.Shutdown(120 * time.Second) }); bad {
						panics <- p
					}
				}()
			}
			if !h.Within(patience, wg.Wait) {
				rt.Fatalf("a submission or a shutdown did not come back")
			}
			select {
			case p := <-panics:
				rt.Fatalf("concurrent shutdown panicked: %v", p)
			default:
			}
			c.NonTrivial(refusals.Load() > 0)
			missing := -1
			if !h.Eventually(patience, func() bool {
				missing = -1
				mustRun.Range(func(k, _ interface{}) bool {
					if m.count(k.(int)) == 0 {
						missing = k.(int)
						return false
					}
					return true
				})
				return missing == -1
			}) {
				rt.Fatalf("task %d was accepted before any shutdown and never ran", missing)
			}
			if !gone(before) {
				rt.Fatalf("goroutines of the pool are left: %d, before it was made %d", runtime.NumGoroutine(), before)
			}
			m.mu.Lock()
			defer m.mu.Unlock()
			for id, n := range m.runs {
				if n > 1 {
					rt.Fatalf("task %d ran %d times", id, n)
				}
			}
			if m.maxAtOne > size {
				rt.Fatalf("%d tasks ran at a time in a pool of %d", m.maxAtOne, size)
			}
		})
	h.Check(t, "long", "16 pools at a time whose tasks take up to 7 s and that are shut down with timeouts of 0.7 to 4 s; all non-trivial", 3, 40,
		func(rt *rapid.T, c *h.Case) {
			patient(rt, c, func(timeout, work time.Duration) (time.Duration, bool) {
				pool := misc.NewWorkPool(context.Background(), "p", 2)
				var finished atomic.Int32
				for _, d := range []time.Duration{work, 0, work / 2} {
					d := d
					pool.AsyncSubmit(func() { time.Sleep(d); finished.Add(1) })
				}
				t0 := time.Now()
				pool.Shutdown(timeout)
				return time.Since(t0), finished.Load() == 3
			})
		})
}
