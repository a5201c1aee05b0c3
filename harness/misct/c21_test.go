package misct

import (
	"fmt"
	"math/rand"
	"reflect"
	"sync"
	"testing"
	"time"

	"github.com/GalaIO/P2Pcrawler/misc"
	"github.com/anishathalye/porcupine"
	"pgregory.net/rapid"
	"verif/harness/h"
	"verif/harness/ref"
)

type mapOp struct {
	kind int // 0 put, 1 get, 2 del
	key  string
	val  int
}

type mapRes struct {
	val int
	ok  bool
}

// one key of the map: absent or holding a value
type regState struct {
	val int
	ok  bool
}

var mapModel = porcupine.Model{
	Partition: func(history []porcupine.Operation) [][]porcupine.Operation {
		by := map[string][]porcupine.Operation{}
		var keys []string
		for _, o := range history {
			k := o.Input.(mapOp).key
			if by[k] == nil {
				keys = append(keys, k)
			}
			by[k] = append(by[k], o)
		}
		var r [][]porcupine.Operation
		for _, k := range keys {
			r = append(r, by[k])
		}
		return r
	},
	Init: func() interface{} { return regState{} },
	Step: func(state, input, output interface{}) (bool, interface{}) {
		s, op, res := state.(regState), input.(mapOp), output.(mapRes)
		switch op.kind {
		case 0:
			return true, regState{op.val, true}
		case 2:
			return true, regState{}
		}
		return res.ok == s.ok && (!s.ok || res.val == s.val), s
	},
	Equal: func(a, b interface{}) bool { return a.(regState) == b.(regState) },
}

func runOp(rt *rapid.T, m *misc.SyncMap, op mapOp) (r mapRes) {
	switch op.kind {
	case 0:
		m.Put(op.key, op.val)
	case 1:
		v, ok := m.Get(op.key)
		r.ok = ok
		if ok {
			i, isInt := v.(int)
			if !isInt {
				i = -1
			}
			r.val = i
		}
	case 2:
		m.Del(op.key)
	}
	return
}

// sameValue also compares values Go cannot compare; functions by their result.
func sameValue(a, b interface{}) bool {
	if f, ok := a.(func() int); ok {
		g, ok := b.(func() int)
		return ok && f() == g()
	}
	return reflect.DeepEqual(a, b)
}

func TestC21(t *testing.T) {
	h.Check(t, "sequential", "up to 80 puts, gets and deletes over few arbitrary keys against Go's map; values include nil and uncomparable ones (slices, maps, functions); non-trivial: a get after a put or delete of the same key", 3000, 150000,
		func(rt *rapid.T, c *h.Case) {
			keys := rapid.SliceOfN(ref.GenStr(), 1, 4).Draw(rt, "keys")
			m := misc.NewSyncMap(rapid.IntRange(0, 20).Draw(rt, "cap"))
			model := map[string]interface{}{}
			touched := map[string]bool{}
			n := rapid.IntRange(1, 80).Draw(rt, "n")
			trace := ""
			for i := 0; i < n; i++ {
				k := rapid.SampledFrom(keys).Draw(rt, "key")
				i := i
				switch rapid.IntRange(0, 3).Draw(rt, "op") {
				case 0, 1:
					var v interface{} = i
					switch rapid.IntRange(0, 15).Draw(rt, "value") {
					case 0:
						v = nil
					case 1: // values that cannot be compared
						v = []int{i}
					case 2:
						v = map[string]int{"i": i}
					case 3:
						v = func() int { return i }
					case 4:
						v = [1]interface{}{[]byte{byte(i)}}
					case 5:
						v = fmt.Sprint(i)
					case 6:
						v = &i
					}
					m.Put(k, v)
					model[k] = v
					touched[k] = true
					trace += fmt.Sprintf(" put %q %v", k, v)
				case 2:
					m.Del(k)
					delete(model, k)
					touched[k] = true
					trace += fmt.Sprintf(" del %q", k)
				}
				for _, k := range keys {
					got, ok := m.Get(k)
					want, wok := model[k]
					if ok != wok || !sameValue(got, want) {
						rt.Fatalf("after%s: Get(%q) = %v, %v; want %v, %v", trace, k, got, ok, want, wok)
					}
				}
			}
			c.Input("%s", trace)
			c.NonTrivial(len(touched) > 0)
		})
	h.Check(t, "many", "1 to 70 000 keys put, some put again or deleted in between, and all read at the end, against Go's map; non-trivial: more than 2000 keys", 15, 600,
		func(rt *rapid.T, c *h.Case) {
			n := rapid.OneOf(rapid.IntRange(1, 3000), rapid.IntRange(3000, 70000)).Draw(rt, "keys")
			every := rapid.SampledFrom([]int{0, 2, 3, 1000}).Draw(rt, "deleted")
			again := rapid.SampledFrom([]int{0, 5, 4000}).Draw(rt, "put again")
			m := misc.NewSyncMap(rapid.SampledFrom([]int{0, 16, 100}).Draw(rt, "cap"))
			c.Input("%d keys, every %dth deleted, put again %d later", n, every, again)
			c.NonTrivial(n > 2000)
			model := map[string]int{}
			for i := 0; i < n; i++ {
				k := fmt.Sprintf("%04x", i)
				m.Put(k, i)
				model[k] = i
				if again > 0 && i >= again && i%3 == 0 {
					k := fmt.Sprintf("%04x", i-again)
					m.Put(k, -i)
					model[k] = -i
				}
				if every > 0 && i%every == 0 {
					k := fmt.Sprintf("%04x", i/2)
					m.Del(k)
					delete(model, k)
				}
			}
			for i := 0; i < n; i++ {
				k := fmt.Sprintf("%04x", i)
				got, ok := m.Get(k)
				want, wok := model[k]
				if ok != wok || (ok && got != want) {
					rt.Fatalf("Get(%q) = %v, %v; want %v, %v", k, got, ok, want, wok)
				}
			}
		})
	h.Check(t, "independent", "200 000 to 500 000 random keys of 4 to 40 bytes, each put once, some deleted, and all read at the end; so many that 32 bits of any of them are not enough to tell them apart; all non-trivial", 2, 60,
		func(rt *rapid.T, c *h.Case) {
			n := h.Wide(200000, 500000).Draw(rt, "keys")
			rnd := rand.New(rand.NewSource(rapid.Int64().Draw(rt, "content")))
			size := rapid.SampledFrom([]int{8, 12, 20, 40, 0}).Draw(rt, "bytes")
			c.Input("%d keys of %d bytes (0: mixed)", n, size)
			c.NonTrivial(true)
			m := misc.NewSyncMap(100)
			model := make(map[string]int, n)
			buf := make([]byte, 40)
			for i := 0; i < n; i++ {
				rnd.Read(buf)
				k := size
				if k == 0 {
					k = 4 + rnd.Intn(37)
				}
				key := string(buf[:k])
				m.Put(key, i)
				model[key] = i
			}
			i := 0
			for k := range model {
				if i++; i%1000 == 0 {
					m.Del(k)
					delete(model, k)
					if got, ok := m.Get(k); ok {
						rt.Fatalf("Get(%q) = %v after it was deleted", k, got)
					}
				}
			}
			for k, want := range model {
				if got, ok := m.Get(k); !ok || got != want {
					rt.Fatalf("Get(%q) = %v, %v; want %v", k, got, ok, want)
				}
			}
		})
	h.Check(t, "linearizable", "2 to 6 goroutines, 4 to 14 operations each on 1 to 3 keys, history checked for linearizability with porcupine; non-trivial: operations of different goroutines overlapped in time", 400, 20000,
		func(rt *rapid.T, c *h.Case) {
			g := rapid.IntRange(2, 6).Draw(rt, "goroutines")
			nk := rapid.IntRange(1, 3).Draw(rt, "keys")
			m := misc.NewSyncMap(0)
			plans := make([][]mapOp, g)
			val := 0
			for i := range plans {
				n := rapid.IntRange(4, 14).Draw(rt, "n")
				for j := 0; j < n; j++ {
					val++
					plans[i] = append(plans[i], mapOp{rapid.IntRange(0, 2).Draw(rt, "op"), fmt.Sprint("k", rapid.IntRange(0, nk-1).Draw(rt, "key")), val})
				}
			}
			c.Input("%v", plans)
			hist := make([][]porcupine.Operation, g)
			var wg sync.WaitGroup
			start := make(chan struct{})
			t0 := time.Now()
			for i := 0; i < g; i++ {
				wg.Add(1)
				go func(i int) {
					defer wg.Done()
					<-start
					for _, op := range plans[i] {
						call := int64(time.Since(t0))
						res := runOp(rt, m, op)
						hist[i] = append(hist[i], porcupine.Operation{ClientId: i, Input: op, Output: res, Call: call, Return: int64(time.Since(t0))})
					}
				}(i)
			}
			close(start)
			if !h.Within(60*time.Second, wg.Wait) {
				rt.Fatalf("an operation blocked: %v", plans)
			}
			var all []porcupine.Operation
			overlap := false
			for _, hs := range hist {
				for _, o := range hs {
					for _, p := range all {
						if p.ClientId != o.ClientId && p.Call < o.Return && o.Call < p.Return {
							overlap = true
						}
					}
				}
				all = append(all, hs...)
			}
			c.NonTrivial(overlap)
			if porcupine.CheckOperationsTimeout(mapModel, all, 60*time.Second) == porcupine.Illegal {
				rt.Fatalf("history is not linearizable: %v", all)
			}
		})
	h.Check(t, "stress", "8 goroutines each owning one key and all writing a shared one, 300 rounds; every goroutine must read its own latest value; all non-trivial", 30, 1000,
		func(rt *rapid.T, c *h.Case) {
			m := misc.NewSyncMap(rapid.IntRange(0, 4).Draw(rt, "cap"))
			delEvery := rapid.IntRange(2, 9).Draw(rt, "delEvery")
			c.Input("delete every %d rounds", delEvery)
			c.NonTrivial(true)
			var wg sync.WaitGroup
			bad := make(chan string, 8)
			for i := 0; i < 8; i++ {
				wg.Add(1)
				go func(i int) {
					defer wg.Done()
					own := fmt.Sprint("own", i)
					for r := 0; r < 300; r++ {
						m.Put("shared", i)
						m.Put(own, r)
						if v, ok := m.Get(own); !ok || v != r {
							bad <- fmt.Sprintf("goroutine %d read %v, %v instead of its own %d", i, v, ok, r)
							return
						}
						if r%delEvery == 0 {
							m.Del(own)
							m.Del("shared")
							if v, ok := m.Get(own); ok {
								bad <- fmt.Sprintf("goroutine %d read %v after its own delete", i, v)
								return
							}
						}
						m.Get("shared")
					}
				}(i)
			}
			wg.Wait()
			select {
			case e := <-bad:
				rt.Fatal(e)
			default:
			}
		})
}
