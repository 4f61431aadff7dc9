package xtask

// race: C14 C15

import (
	"context"
	"errors"
	"fmt"
	"io"
	"os"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"
)

// errors a changed implementation might treat specially
var vKnownErrs = []error{io.EOF, context.Canceled, context.DeadlineExceeded, io.ErrUnexpectedEOF, os.ErrClosed, os.ErrNotExist, io.ErrClosedPipe, fmt.Errorf("wrap: %w", io.EOF), fmt.Errorf("wrap: %w", context.Canceled), vTmp{}}

type vTmp struct{}

func (vTmp) Error() string   { return "temporary" }
func (vTmp) Timeout() bool   { return true }
func (vTmp) Temporary() bool { return true }

func vTier(a, b int) int {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return b
	}
	return a
}

// vIn runs f and reports whether it ended in time and what it panicked with.
func vIn(d time.Duration, f func()) (ended bool, p interface{}) {
	done := make(chan interface{}, 1)
	go func() {
		defer func() { done <- recover() }()
		f()
	}()
	select {
	case p = <-done:
		return true, p
	case <-time.After(d):
		return false, nil
	}
}

func TestVerif_C15_retry(t *testing.T) {
	evals, fails := 0, 0
	defer func() { fmt.Printf("VERIF-EVAL %d\n", evals) }()
	fail := func(f string, a ...interface{}) {
		fails++
		if fails < 12 {
			fmt.Printf("VERIF-FAIL "+f+"\n", a...)
		}
		t.Fail()
	}
	one := func(n, ok int, def, dup bool) {
		evals++
		max := n + 1
		if n < 0 {
			max = 1
		}
		var errs []string
		calls, in := 0, 0
		fn := func() error {
			in++
			defer func() { in-- }()
			if in != 1 {
				fail("retries=%d: two calls at once", n)
			}
			calls++
			if calls > max+2 {
				return nil
			}
			if calls == ok {
				return nil
			}
			e := fmt.Errorf("error %d", calls)
			if dup {
				e = errors.New("same")
			} else if (n+ok+calls)%3 == 0 {
				e = vKnownErrs[(calls+ok)%len(vKnownErrs)]
			}
			errs = append(errs, e.Error())
			return e
		}
		var err error
		ended, p := vIn(20*time.Second, func() {
			if def {
				err = DoWithRetry(fn)
			} else {
				err = DoWithRetry(fn, WithRetry(n))
			}
		})
		if !ended || p != nil {
			fail("retries=%d, success at call %d: ended=%v panic=%v", n, ok, ended, p)
			return
		}
		want := max
		if ok >= 1 && ok <= max {
			want = ok
		}
		if calls != want {
			fail("retries=%d (default=%v), success at call %d: %d calls, want %d", n, def, ok, calls, want)
		}
		if (err == nil) != (ok >= 1 && ok <= max) {
			fail("retries=%d (default=%v), success at call %d: returned %v", n, def, ok, err)
		}
		if err != nil && err.Error() != strings.Join(errs, "\n") {
			fail("retries=%d (default=%v), success at call %d: error %q want %q", n, def, ok, err.Error(), strings.Join(errs, "\n"))
		}
	}
	for n := -3; n <= vTier(24, 200); n++ {
		for ok := 0; ok <= n+3; ok++ {
			one(n, ok, false, false)
			one(n, ok, false, true)
		}
	}
	one(-1<<63, 0, false, false)
	one(1<<62, 3, false, false)
	for ok := 0; ok <= 6; ok++ {
		one(3, ok, true, false)
	}
	// several options: the last one counts
	evals++
	c := 0
	_ = DoWithRetry(func() error { c++; return errors.New("x") }, WithRetry(7), WithRetry(1))
	if c != 2 {
		fail("WithRetry(7), WithRetry(1): %d calls, want 2", c)
	}
}

func TestVerif_C14_do(t *testing.T) {
	evals, fails := 0, 0
	defer func() { fmt.Printf("VERIF-EVAL %d\n", evals) }()
	fail := func(f string, a ...interface{}) {
		fails++
		if fails < 12 {
			fmt.Printf("VERIF-FAIL "+f+"\n", a...)
		}
		t.Fail()
	}
	taskErr := errors.New("task error")
	entries := []struct {
		name string
		dfr  bool
		do   func(ctx context.Context, tmo time.Duration, do func() error, d func()) error
	}{
		{"Do", true, func(ctx context.Context, _ time.Duration, do func() error, d func()) error { return Do(ctx, do, d) }},
		{"Do(nil defer)", false, func(ctx context.Context, _ time.Duration, do func() error, d func()) error {
			return Do(ctx, do, nil)
		}},
		{"DoWithoutDefer", false, func(ctx context.Context, _ time.Duration, do func() error, d func()) error {
			return DoWithoutDefer(ctx, do)
		}},
		{"DoWithTimeout", true, func(_ context.Context, tmo time.Duration, do func() error, d func()) error {
			return DoWithTimeout(tmo, do, d)
		}},
	}
	base := runtime.NumGoroutine()
	// task: 0 returns nil, 1 returns an error, 2 panics, 3 blocks until released and returns, 4 blocks and panics, 5 panics with an error
	// ctx: 0 live, 1 done before, 2 becomes done while the task runs, 3 deadline passed before
	for rep := 0; rep < vTier(6, 60) && fails < 12; rep++ {
		for _, e := range entries {
			for task := 0; task <= 5; task++ {
				for cx := 0; cx <= 3; cx++ {
					if (task == 3 || task == 4) && cx == 0 && rep > 0 {
						continue
					}
					tm := e.name == "DoWithTimeout"
					evals++
					ctx, cancel := context.WithCancel(context.Background())
					if taskErr = vKnownErrs[(rep+task+cx)%len(vKnownErrs)]; taskErr == context.Canceled || taskErr == context.DeadlineExceeded {
						taskErr = errors.New("task error")
					}
					tmo := time.Minute
					switch cx {
					case 1:
						cancel()
						tmo = 0
					case 3:
						ctx, _ = context.WithTimeout(ctx, -time.Second)
						tmo = -time.Second
					case 2:
						if task != 3 && task != 4 {
							cancel()
							continue
						}
						tmo = 20 * time.Millisecond
						go func() { time.Sleep(5 * time.Millisecond); cancel() }()
					}
					var calls, defers, running, early int32
					release := make(chan struct{})
					atReturn := int32(-1)
					finished := make(chan struct{}, 4)
					do := func() error {
						atomic.AddInt32(&calls, 1)
						atomic.StoreInt32(&running, 1)
						defer func() { atomic.StoreInt32(&running, 0); finished <- struct{}{} }()
						switch task {
						case 1:
							return taskErr
						case 2:
							panic("task panic")
						case 3:
							<-release
							return taskErr
						case 4:
							<-release
							panic("late panic")
						case 5:
							panic(taskErr)
						}
						return nil
					}
					if cx == 0 && (task == 3 || task == 4) {
						go func() { time.Sleep(10 * time.Millisecond); close(release) }()
					}
					var err error
					ended, p := vIn(20*time.Second, func() {
						defer func() { atReturn = atomic.LoadInt32(&defers) }()
						err = e.do(ctx, tmo, do, func() {
							if !tm && ctx.Err() == nil && (atomic.LoadInt32(&calls) == 0 || atomic.LoadInt32(&running) != 0) || tm && cx == 0 && atomic.LoadInt32(&calls) == 0 {
								atomic.AddInt32(&early, 1)
							}
							atomic.AddInt32(&defers, 1)
						})
					})
					where := fmt.Sprintf("%s task=%d ctx=%d", e.name, task, cx)
					if !ended {
						fail("%s: does not return", where)
						cancel()
						continue
					}
					if e.dfr && atReturn != 1 {
						fail("%s: deferFunc was called %d times before the return", where, atReturn)
					}
					if atomic.LoadInt32(&early) != 0 {
						fail("%s: deferFunc was called while the task had not ended and the context was not done", where)
					}
					ctxErr := ctx.Err()
					if tm {
						ctxErr = context.DeadlineExceeded
					}
					switch {
					case cx == 1 || cx == 3:
						time.Sleep(time.Millisecond)
						if calls != 0 || p != nil || err != ctxErr {
							fail("%s: calls=%d panic=%v err=%v, want no call and %v", where, calls, p != nil, err, ctxErr)
						}
					case cx == 2:
						if p != nil || err != ctxErr {
							fail("%s: panic=%v err=%v want %v", where, p != nil, err, ctxErr)
						}
						if n := atomic.LoadInt32(&calls); n != 1 {
							time.Sleep(50 * time.Millisecond)
							if atomic.LoadInt32(&calls) != 1 {
								fail("%s: the task was started %d times", where, n)
							}
						}
						close(release)
						select {
						case <-finished:
						case <-time.After(10 * time.Second):
							fail("%s: the task does not end", where)
						}
					case task == 2 || task == 4 || task == 5:
						if p == nil || calls != 1 {
							fail("%s: the task panicked, Do returned %v (calls=%d)", where, err, calls)
						}
					default:
						want := error(nil)
						if task == 1 || task == 3 {
							want = taskErr
						}
						if p != nil || err != want || calls != 1 {
							fail("%s: panic=%v err=%v want %v, calls=%d", where, p, err, want, calls)
						}
					}
					time.Sleep(0)
					if n := atomic.LoadInt32(&calls); n > 1 {
						fail("%s: the task was started %d times", where, n)
					}
					if n := atomic.LoadInt32(&defers); e.dfr && n > 1 {
						fail("%s: deferFunc was called %d times", where, n)
					}
					cancel()
				}
			}
		}
	}
	// every task goroutine ends
	n := 0
	for i := 0; i < 200; i++ {
		if n = runtime.NumGoroutine(); n <= base+2 {
			break
		}
		time.Sleep(10 * time.Millisecond)
	}
	evals++
	if fails == 0 && n > base+2 {
		fail("%d goroutines are left after all tasks have ended (%d before)", n, base)
	}
}

// Many short tasks at once: the task's end and Do's wait meet in every order.
func TestVerif_C14_many(t *testing.T) {
	var evals, fails int64
	defer func() { fmt.Printf("VERIF-EVAL %d\n", atomic.LoadInt64(&evals)) }()
	fail := func(f string, a ...interface{}) {
		if atomic.AddInt64(&fails, 1) < 12 {
			fmt.Printf("VERIF-FAIL "+f+"\n", a...)
		}
		t.Fail()
	}
	stop := time.Now().Add(time.Duration(vTier(2, 30)) * time.Second)
	var wg sync.WaitGroup
	for g := 0; g < 24; g++ {
		g := g
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; time.Now().Before(stop) && atomic.LoadInt64(&fails) == 0; k++ {
				atomic.AddInt64(&evals, 1)
				var want error
				if k%2 == 1 {
					want = vKnownErrs[k/2%len(vKnownErrs)]
				}
				defers := 0
				p := func() (p interface{}) {
					defer func() { p = recover() }()
					err := Do(context.Background(), func() error {
						if k%5 == 4 {
							panic("task panic")
						}
						return want
					}, func() { defers++ })
					if err != want || defers != 1 || k%5 == 4 {
						fail("goroutine %d: Do of a short task with result %v (panic: %v) returned %v and called deferFunc %d times", g, want, k%5 == 4, err, defers)
					}
					return nil
				}()
				if (p != nil) != (k%5 == 4) || defers != 1 {
					fail("goroutine %d: Do of a short task with result %v (panic: %v): panic %v, deferFunc called %d times", g, want, k%5 == 4, p, defers)
				}
			}
		}()
	}
	if ended, _ := vIn(90*time.Second, wg.Wait); !ended {
		fail("Do of a short task does not return")
	}
}
