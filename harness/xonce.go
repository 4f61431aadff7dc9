package xonce

// race: C08

import (
	"errors"
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"sync"
	"sync/atomic"
	"testing"
	"time"
)

func vTier(a, b int) int {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return b
	}
	return a
}

// vIn runs f and reports whether it ended in time and what it panicked with.
func vIn(d time.Duration, f func()) (ended bool, p interface{}) {
	done := make(chan interface{}, 1)
	go func() {
		defer func() { done <- recover() }()
		f()
	}()
	select {
	case p = <-done:
		return true, p
	case <-time.After(d):
		return false, nil
	}
}

func TestVerif_C08_once(t *testing.T) {
	evals, fails := 0, 0
	defer func() { fmt.Printf("VERIF-EVAL %d\n", evals) }()
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	r := rand.New(rand.NewSource(int64(seed) + 8))
	fail := func(f string, a ...interface{}) {
		fails++
		if fails < 12 {
			fmt.Printf("VERIF-FAIL "+f+"\n", a...)
		}
		t.Fail()
	}
	type S struct{ a, b int }
	x := 5
	pool := []interface{}{1, "a", 2.5, 'c', &x, S{1, 2}, errors.New("e"), true, false, 0, "", struct{}{}, (*int)(nil), int8(3), uint64(1), []int(nil), map[string]int{}, S{}, 1}
	same := func(a, b interface{}) bool { return fmt.Sprintf("%T %#v", a, a) == fmt.Sprintf("%T %#v", b, b) }

	// histories of one goroutine
	for k := 0; k < vTier(400, 4000) && fails < 12; k++ {
		n := 1 + r.Intn(6)
		var ws []interface{}
		for i := 0; i < n; i++ {
			ws = append(ws, pool[r.Intn(len(pool))])
		}
		if k < len(pool)*len(pool) {
			ws = []interface{}{pool[k%len(pool)], pool[k/len(pool)], pool[k%len(pool)]}
		}
		reads := r.Intn(2) == 0
		ended, p := vIn(10*time.Second, func() {
			v := NewValue()
			for i, w := range ws {
				evals++
				if got := v.Write(w); got != (i == 0) {
					fail("Value: Write number %d of %#v returned %v", i+1, ws, got)
				}
				for j := 0; reads && j < 2; j++ {
					if got := v.Value(); !same(got, ws[0]) {
						fail("Value after writes %#v: Value()=%#v want %#v", ws[:i+1], got, ws[0])
					}
				}
			}
			if got := v.Value(); !same(got, ws[0]) {
				fail("Value after writes %#v: Value()=%#v want %#v", ws, got, ws[0])
			}
		})
		if !ended || p != nil {
			fail("Value, writes %#v: ended=%v panic=%v", ws, ended, p)
		}
		ended, p = vIn(10*time.Second, func() {
			c := NewChan()
			early := r.Intn(2) == 0
			for i, w := range ws {
				evals++
				if got := c.Write(w); got != (i == 0) {
					fail("Chan: Write number %d of %#v returned %v", i+1, ws, got)
				}
				if i == 0 && early {
					if got, ok := <-c.Chan(); !ok || !same(got, ws[0]) {
						fail("Chan after write %#v: received %#v,%v", ws[0], got, ok)
					}
				}
			}
			if !early {
				if got, ok := <-c.Chan(); !ok || !same(got, ws[0]) {
					fail("Chan after writes %#v: received %#v,%v want %#v", ws, got, ok, ws[0])
				}
			}
			for i := 0; i < 3; i++ {
				if got, ok := <-c.Chan(); ok || got != nil {
					fail("Chan after writes %#v: received %#v,%v after the value", ws, got, ok)
				}
			}
		})
		if !ended || p != nil {
			fail("Chan, writes %#v: ended=%v panic=%v", ws, ended, p)
		}
	}

	// concurrent writers of different types and readers
	for k := 0; k < vTier(1500, 15000) && fails < 12; k++ {
		n := 2 + r.Intn(6)
		off := r.Intn(len(pool))
		v, c := NewValue(), NewChan()
		var wv, wc int32 = -1, -1
		var nv, nc int32
		var wg sync.WaitGroup
		start := make(chan struct{})
		var panics atomic.Value
		for i := 0; i < n; i++ {
			i := i
			w := pool[(off+i)%len(pool)]
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer func() {
					if p := recover(); p != nil {
						panics.Store(fmt.Sprint(p))
					}
				}()
				<-start
				if v.Write(w) {
					atomic.AddInt32(&nv, 1)
					atomic.StoreInt32(&wv, int32(i))
				}
				if got := v.Value(); got == nil {
					panics.Store("Value() is nil after a Write returned")
				}
				if c.Write(w) {
					atomic.AddInt32(&nc, 1)
					atomic.StoreInt32(&wc, int32(i))
				}
			}()
		}
		var got []interface{}
		closed := make(chan struct{})
		ch := c.Chan()
		go func() {
			<-start
			for x := range ch {
				got = append(got, x)
			}
			close(closed)
		}()
		first := make(chan interface{}, 1)
		go func() {
			<-start
			for {
				if a := v.Value(); a != nil {
					first <- a
					return
				}
			}
		}()
		close(start)
		ended, _ := vIn(20*time.Second, func() { wg.Wait(); <-closed })
		evals++
		if !ended {
			fail("%d concurrent writers of %#v: a Write or the receiver never ends", n, pool[off])
			continue
		}
		if p := panics.Load(); p != nil {
			fail("%d concurrent writers: %v", n, p)
			continue
		}
		if nv != 1 || nc != 1 {
			fail("%d concurrent writers: %d Value writes and %d Chan writes returned true", n, nv, nc)
			continue
		}
		want := pool[(off+int(wv))%len(pool)]
		if a := <-first; !same(a, want) || !same(v.Value(), want) {
			fail("%d concurrent writers: Value() was %#v, is %#v, the winner wrote %#v", n, a, v.Value(), want)
		}
		want = pool[(off+int(wc))%len(pool)]
		if len(got) != 1 || !same(got[0], want) {
			fail("%d concurrent writers: the channel delivered %#v, the winner wrote %#v", n, got, want)
		}
	}
}
