package xmapreduce

// race: C18

import (
	"context"
	"fmt"
	"math/rand"
	"os"
	"reflect"
	"strconv"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/chenquan/go-pkg/xbarrier"
)

func vBag(x []interface{}) map[interface{}]int {
	m := map[interface{}]int{}
	for _, e := range x {
		m[e]++
	}
	return m
}

func TestVerif_C18_map(t *testing.T) {
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	r := rand.New(rand.NewSource(seed + 31))
	rounds := 250
	if os.Getenv("VERIF_TIER") == "thorough" {
		rounds = 5000
	}
	evals, fails := 0, 0
	defer func() { fmt.Printf("VERIF-EVAL %d\n", evals) }()
	fail := func(f string, a ...interface{}) {
		if fails++; fails < 12 {
			fmt.Printf("VERIF-FAIL "+f+"\n", a...)
		}
		t.Fail()
	}
	for i := 0; i < rounds; i++ {
		evals++
		items := make([]interface{}, r.Intn(60))
		for k := range items {
			items[k] = r.Intn(30)
			if r.Intn(20) == 0 {
				items[k] = nil
			}
		}
		n := 1 + r.Intn(6)
		opts := []Option{WithWorkerSize(n)}
		if r.Intn(5) == 0 {
			opts, n = nil, 16
		}
		slow := r.Intn(3)
		writes := r.Intn(3)
		var mu sync.Mutex
		var calls, want []interface{}
		var in, max int32
		for _, e := range items {
			for w := 0; w < writes; w++ {
				want = append(want, fmt.Sprint(e, "/", w))
			}
		}
		generate := func(source chan<- interface{}) {
			for _, e := range items {
				source <- e
			}
		}
		mapf := func(e interface{}, w xbarrier.Writer) {
			k := atomic.AddInt32(&in, 1)
			for {
				m := atomic.LoadInt32(&max)
				if k <= m || atomic.CompareAndSwapInt32(&max, m, k) {
					break
				}
			}
			mu.Lock()
			calls = append(calls, e)
			mu.Unlock()
			for j := 0; j < writes; j++ {
				if !w.Write(fmt.Sprint(e, "/", j)) {
					mu.Lock()
					fail("Write fails though the context is alive")
					mu.Unlock()
				}
			}
			if slow == 0 {
				time.Sleep(50 * time.Microsecond)
			}
			if slow == 2 && i%3 == 0 { // let one more in than may run
				for u := 0; u < 40 && int(atomic.LoadInt32(&in)) <= n; u++ {
					time.Sleep(50 * time.Microsecond)
				}
			}
			atomic.AddInt32(&in, -1)
		}
		var c <-chan interface{}
		if i%3 == 0 {
			c = MapStream(context.Background(), generate, mapf, opts...).Chan()
		} else {
			c = Map(context.Background(), generate, mapf, opts...)
		}
		var got []interface{}
		to := time.After(20 * time.Second)
		closed := false
		for !closed {
			select {
			case e, ok := <-c:
				if !ok {
					closed = true
					break
				}
				got = append(got, e)
			case <-to:
				fail("Map over %v with %d workers does not end", items, n)
				return
			}
		}
		if k := atomic.LoadInt32(&in); k != 0 {
			fail("Map over %v with %d workers ends its output with %d map functions running", items, n, k)
		}
		if m := atomic.LoadInt32(&max); int(m) > n {
			fail("Map over %d items with %d workers runs %d at once", len(items), n, m)
		}
		mu.Lock()
		if !reflect.DeepEqual(vBag(calls), vBag(items)) {
			fail("Map over %v with %d workers maps %v", items, n, calls)
		}
		mu.Unlock()
		if !reflect.DeepEqual(vBag(got), vBag(want)) {
			fail("Map over %v with %d workers yields %v, want %v", items, n, got, want)
		}
	}
}
