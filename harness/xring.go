package xring

// race: C02

import (
	"fmt"
	"math/rand"
	"os"
	"runtime"
	"strconv"
	"sync"
	"testing"
)

func vTier(a, b int) int {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return b
	}
	return a
}

func TestVerif_C01_history(t *testing.T) {
	evals, fails := 0, 0
	defer func() { fmt.Printf("VERIF-EVAL %d\n", evals) }()
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	r := rand.New(rand.NewSource(int64(seed) + 1))
	fail := func(f string, a ...interface{}) {
		fails++
		if fails < 12 {
			fmt.Printf("VERIF-FAIL "+f+"\n", a...)
		}
		t.Fail()
	}
	for _, n := range []int{0, -1, -2, -1 << 62} {
		evals++
		func() {
			defer func() {
				if recover() == nil {
					fail("NewRing(%d) did not panic", n)
				}
			}()
			NewRing(n)
		}()
	}
	one := func(n, k int, every int) {
		ring := NewRing(n)
		var all []interface{}
		type snap struct {
			got  []interface{}
			want []interface{}
			at   int
		}
		var snaps []snap
		chk := func() {
			evals++
			lo := len(all) - n
			if lo < 0 {
				lo = 0
			}
			want := append([]interface{}{}, all[lo:]...)
			got := ring.Take()
			ok := len(got) == len(want)
			for i := 0; ok && i < len(got); i++ {
				ok = got[i] == want[i]
			}
			if !ok {
				fail("NewRing(%d) after %d Adds of 0,1,2,...: Take=%v want %v", n, len(all), got, want)
			}
			if len(snaps) < 8 {
				snaps = append(snaps, snap{got, want, len(all)})
			}
		}
		defer func() {
			if p := recover(); p != nil {
				fail("NewRing(%d), %d Adds: panic %v", n, len(all), p)
			}
		}()
		chk()
		for i := 0; i < k; i++ {
			var v interface{} = i
			if i%7 == 3 {
				v = nil
			}
			ring.Add(v)
			all = append(all, v)
			if every <= 1 || r.Intn(every) == 0 || i == k-1 {
				chk()
			}
		}
		for _, s := range snaps {
			for i := range s.got {
				if s.got[i] != s.want[i] {
					fail("NewRing(%d): slice taken after %d Adds changed after %d Adds: %v want %v", n, s.at, len(all), s.got, s.want)
					break
				}
			}
			for i := range s.got {
				s.got[i] = "overwritten"
			}
		}
		chk()
	}
	for n := 1; n <= 12; n++ {
		one(n, 5*n+3, 1)
	}
	for i := 0; i < vTier(150, 3000); i++ {
		one(1+r.Intn(70), r.Intn(400), 20)
	}
	one(1000, 3500, 200)
	one(4097, 9000, 900)
}

// Many writers and readers: every Take must be a window of one total order.
// With per-writer increasing values this means: per writer the values in a
// Take are increasing and gap free, and Takes by one reader never go back.
func TestVerif_C02_concurrent(t *testing.T) {
	var mu sync.Mutex
	evals, fails := 0, 0
	defer func() { fmt.Printf("VERIF-EVAL %d\n", evals) }()
	fail := func(f string, a ...interface{}) {
		mu.Lock()
		defer mu.Unlock()
		fails++
		if fails < 12 {
			fmt.Printf("VERIF-FAIL "+f+"\n", a...)
		}
		t.Fail()
	}
	type item struct{ w, k int }
	for round := 0; round < vTier(120, 1500); round++ {
		n := 1 + round%9
		writers := 1 + round%4
		per := 60
		ring := NewRing(n)
		var wg sync.WaitGroup
		for w := 0; w < writers; w++ {
			wg.Add(1)
			go func(w int) {
				defer wg.Done()
				for k := 0; k < per; k++ {
					ring.Add(item{w, k})
					if k%5 == w {
						runtime.Gosched()
					}
				}
			}(w)
		}
		for rd := 0; rd < 3; rd++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer func() {
					if p := recover(); p != nil {
						fail("Take (ring of %d, %d writers) panicked: %v", n, writers, p)
					}
				}()
				last := make([]int, writers)
				for i := range last {
					last[i] = -1
				}
				prev := 0
				for q := 0; q < 40; q++ {
					got := ring.Take()
					if len(got) < prev || len(got) > n {
						fail("ring of %d: Take went from %d to %d elements", n, prev, len(got))
					}
					prev = len(got)
					seen := make([]int, writers)
					for i := range seen {
						seen[i] = -1
					}
					for _, e := range got {
						it, ok := e.(item)
						if !ok {
							fail("ring of %d: Take returned %v", n, got)
							return
						}
						if seen[it.w] >= 0 && it.k != seen[it.w]+1 {
							fail("ring of %d: Take %v is no window of any order of the Adds", n, got)
							return
						}
						seen[it.w] = it.k
					}
					for w := range seen {
						if seen[w] >= 0 {
							if seen[w] < last[w] {
								fail("ring of %d: Take %v went back", n, got)
							}
							last[w] = seen[w]
						}
					}
					runtime.Gosched()
				}
			}()
		}
		wg.Wait()
		evals++
		// nothing lost: the final window ends with the newest values
		got := ring.Take()
		if len(got) != n && len(got) != writers*per {
			fail("ring of %d after %d concurrent Adds holds %d", n, writers*per, len(got))
		}
		if writers == 1 {
			for i, e := range got {
				if e != (interface{})(item{0, per - len(got) + i}) {
					fail("ring of %d: single writer, final window %v", n, got)
					break
				}
			}
		}
	}
	// every Add counts: the last element belongs to the last value of a writer,
	// and with n >= total all values are there exactly once
	for round := 0; round < vTier(60, 600); round++ {
		ring := NewRing(400)
		var wg sync.WaitGroup
		for w := 0; w < 4; w++ {
			wg.Add(1)
			go func(w int) {
				defer wg.Done()
				for k := 0; k < 100; k++ {
					ring.Add(item{w, k})
				}
			}(w)
		}
		wg.Wait()
		evals++
		m := map[interface{}]int{}
		for _, e := range ring.Take() {
			m[e]++
		}
		if len(m) != 400 {
			fail("4 writers x 100 Adds into a ring of 400: %d distinct values kept", len(m))
		}
	}
	// the lock is released on every return, also when a call panics
	ring := NewRing(2)
	done := make(chan struct{})
	go func() {
		ring.Take()
		ring.Add(1)
		ring.Take()
		ring.Add(2)
		close(done)
	}()
	<-done
	evals++
}
