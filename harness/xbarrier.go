package xbarrier

// race: C16

import (
	"context"
	"fmt"
	"os"
	"testing"
	"time"
)

func vTier(a, b int) int {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return b
	}
	return a
}

// vIn runs f and reports whether it ended in time and what it panicked with.
func vIn(d time.Duration, f func()) (ended bool, p interface{}) {
	done := make(chan interface{}, 1)
	go func() {
		defer func() { done <- recover() }()
		f()
	}()
	select {
	case p = <-done:
		return true, p
	case <-time.After(d):
		return false, nil
	}
}

func TestVerif_C16_barriers(t *testing.T) {
	evals, fails := 0, 0
	defer func() { fmt.Printf("VERIF-EVAL %d\n", evals) }()
	fail := func(f string, a ...interface{}) {
		fails++
		if fails < 12 {
			fmt.Printf("VERIF-FAIL "+f+"\n", a...)
		}
		t.Fail()
	}
	x := 1
	vals := []interface{}{1, "a", nil, 2.5, &x, struct{}{}, false, 0, []int(nil)}
	for rep := 0; rep < vTier(40, 400) && fails < 12; rep++ {
		for _, buf := range []int{1, 2, 5, 9} {
			for cut := 0; cut <= len(vals); cut++ {
				// after `cut` transfers the context ends
				ctx, cancel := context.WithCancel(context.Background())
				if rep%3 == 1 {
					ctx, cancel = context.WithTimeout(ctx, time.Hour)
				}
				ch := make(chan interface{}, buf)
				w := NewWriteBarrier(ctx, ch)
				r := NewReadBarrier(ctx, ch)
				n := 0
				ended, p := vIn(20*time.Second, func() {
					for n = 0; n < cut; n++ {
						evals++
						if !w.Write(vals[n]) {
							fail("Write number %d of a live context returned false", n+1)
						}
						if len(ch) != 1 {
							fail("Write number %d sent %d values", n+1, len(ch))
						}
						got, ok := r.Read()
						if !ok || fmt.Sprintf("%T%v", got, got) != fmt.Sprintf("%T%v", vals[n], vals[n]) {
							fail("Read number %d of a live context: %v,%v want %v,true", n+1, got, ok, vals[n])
						}
						if len(ch) != 0 {
							fail("Read number %d left %d values", n+1, len(ch))
						}
					}
					fill := rep % 2 // one value is waiting when the context ends
					if fill == 1 {
						w.Write("waiting")
					}
					cancel()
					for i := 0; i < 8; i++ {
						evals++
						if got, ok := r.Read(); got != nil || ok {
							fail("Read after the context ended (%d transfers, buffer %d): %v,%v", cut, buf, got, ok)
						}
						if w.Write(7) {
							fail("Write after the context ended (%d transfers, buffer %d) returned true", cut, buf)
						}
						if len(ch) != fill {
							fail("after the context ended (%d transfers, buffer %d): %d values in the channel, want %d", cut, buf, len(ch), fill)
							return
						}
					}
				})
				cancel()
				if !ended || p != nil {
					fail("cut=%d buffer=%d: ended=%v panic=%v", cut, buf, ended, p)
				}
			}
		}
	}
	// unbuffered: one writer, one reader
	for rep := 0; rep < vTier(20, 100) && fails < 12; rep++ {
		ctx, cancel := context.WithCancel(context.Background())
		ch := make(chan interface{})
		w, r := NewWriteBarrier(ctx, ch), NewReadBarrier(ctx, ch)
		n := 50
		go func() {
			for i := 0; i < n; i++ {
				if !w.Write(i) {
					fail("Write of a live context returned false")
				}
			}
		}()
		ended, p := vIn(20*time.Second, func() {
			for i := 0; i < n; i++ {
				evals++
				if got, ok := r.Read(); !ok || got != i {
					fail("Read number %d: %v,%v", i, got, ok)
				}
			}
		})
		cancel()
		if !ended || p != nil {
			fail("unbuffered: ended=%v panic=%v", ended, p)
		}
	}
}
