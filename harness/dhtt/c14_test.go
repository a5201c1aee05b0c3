package dhtt

import (
	"fmt"
	"sync"
	"testing"
	"time"

	"github.com/GalaIO/P2Pcrawler/dht"
	"pgregory.net/rapid"
	"verif/harness/h"
	"verif/harness/ref"
)

func TestC14(t *testing.T) {
	h.Check(t, "concurrent", "2 to 10 goroutines inserting up to 25 nodes each, partly the same ones, between lookups, into tables of small buckets, race detector on; non-trivial: at least one node was rejected or inserted by two goroutines", 800, 8000,
		func(rt *rapid.T, c *h.Case) {
			k := rapid.IntRange(1, 8).Draw(rt, "k")
			capacity := rapid.OneOf(rapid.IntRange(0, 4), rapid.IntRange(0, 160)).Draw(rt, "capacity")
			g := rapid.IntRange(2, 10).Draw(rt, "goroutines")
			host := dht.NewNodeInfo(genId().Draw(rt, "host"), addr(0))
			ids := []string{host.Id}
			var all []*dht.NodeInfo
			byId := map[string]int{host.Id: 1}
			plans := make([][]*dht.NodeInfo, g)
			shared := false
			for i := range plans {
				n := rapid.IntRange(1, 25).Draw(rt, "n")
				for j := 0; j < n; j++ {
					if len(all) > 0 && rapid.IntRange(0, 4).Draw(rt, "share") == 0 {
						plans[i] = append(plans[i], rapid.SampledFrom(all).Draw(rt, "node"))
						shared = true
						continue
					}
					id := genNear(host.Id, func() []string { return nil }).Draw(rt, "id")
					if byId[id] > 0 {
						continue
					}
					byId[id]++
					node := dht.NewNodeInfo(id, addr(len(all)+1))
					all = append(all, node)
					ids = append(ids, id)
					plans[i] = append(plans[i], node)
				}
			}
			c.Input("k %d capacity %d, %d goroutines, %d distinct nodes, first %x", k, capacity, g, len(all), ids[len(ids)-1])
			valid := map[ref.RNode]bool{key(host): true}
			for _, n := range all {
				valid[key(n)] = true
			}
			table := dht.NewRouteTable(host, k, capacity)
			errs := make(chan string, g)
			results := make([]map[*dht.NodeInfo]bool, g) // any insertion succeeded
			var wg sync.WaitGroup
			start := make(chan struct{})
			for i := 0; i < g; i++ {
				wg.Add(1)
				go func(i int) {
					defer wg.Done()
					defer func() {
						if p := recover(); p != nil {
							errs <- fmt.Sprintf("panic: %v", p)
						}
					}()
					<-start
					res := map[*dht.NodeInfo]bool{}
					last := 0
					for j, n := range plans[i] {
						err := table.AddNode(n)
						res[n] = res[n] || err == nil
						if err == nil {
							f := table.Find(n.Id)
							if f == nil || key(f) != key(n) {
								errs <- fmt.Sprintf("node %x was inserted and Find returns %v", n.Id, f)
								return
							}
						}
						if s := table.Size(); s < last {
							errs <- fmt.Sprintf("the size went from %d to %d", last, s)
							return
						} else {
							last = s
						}
						seen := map[ref.RNode]bool{}
						for _, x := range table.FindClosest(ids[(i*7+j*3)%len(ids)], 1+j%30) {
							if x == nil || !valid[key(x)] || seen[key(x)] {
								errs <- fmt.Sprintf("FindClosest returned %v: nil, never inserted or twice", x)
								return
							}
							seen[key(x)] = true
						}
						if f := table.Find(ids[(i+j)%len(ids)]); f != nil && f.Id != ids[(i+j)%len(ids)] {
							errs <- fmt.Sprintf("Find(%x) returned %x", ids[(i+j)%len(ids)], f.Id)
							return
						}
						table.Full()
					}
					results[i] = res
				}(i)
			}
			close(start)
			if !h.Within(60*time.Second, wg.Wait) {
				rt.Fatalf("insertions or lookups blocked")
			}
			select {
			case e := <-errs:
				rt.Fatal(e)
			default:
			}
			stored := map[*dht.NodeInfo]bool{}
			for _, r := range results {
				for n, ok := range r {
					stored[n] = stored[n] || ok
				}
			}
			class := func(id string) int {
				p := ref.PrefixLen(id, host.Id)
				if p > capacity {
					return capacity
				}
				return p
			}
			count := map[int]int{class(host.Id): 1}
			exact := map[int]int{160: 1}
			total := 1
			for n, ok := range stored {
				if ok {
					count[class(n.Id)]++
					exact[ref.PrefixLen(n.Id, host.Id)]++
					total++
				}
			}
			if s := table.Size(); s != total {
				rt.Fatalf("%d insertions of distinct nodes succeeded (local node included), the size is %d", total, s)
			}
			rejected := 0
			for n, ok := range stored {
				f := table.Find(n.Id)
				if ok && (f == nil || key(f) != key(n)) {
					rt.Fatalf("inserted node %x is lost: Find returns %v", n.Id, f)
				}
				if !ok {
					rejected++
					if f != nil {
						rt.Fatalf("node %x is stored although every insertion of it failed", n.Id)
					}
					if count[class(n.Id)] < k {
						rt.Fatalf("node %x was rejected but its bucket holds only %d of %d nodes", n.Id, count[class(n.Id)], k)
					}
				}
			}
			for p, m := range count {
				if m > k {
					rt.Fatalf("bucket %d holds %d nodes, the limit is %d", p, m, k)
				}
			}
			if f := table.Find(host.Id); f == nil || key(f) != key(host) {
				rt.Fatalf("the local node is lost")
			}
			full := map[ref.RNode]int{}
			for _, x := range table.FindClosest(host.Id, 100000) {
				full[key(x)]++
				if full[key(x)] > 1 {
					rt.Fatalf("node %x is stored twice", x.Id)
				}
			}
			c.NonTrivial(rejected > 0 || shared)
			c.Label("rejected", rejected > 0)
			c.Label("shared", shared)
		})
}
