package xworker

// race: C17

import (
	"context"
	"fmt"
	"os"
	"sync"
	"sync/atomic"
	"testing"
	"time"
)

func vTier(a, b int) int {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return b
	}
	return a
}

// vIn runs f and reports whether it ended in time and what it panicked with.
func vIn(d time.Duration, f func()) (ended bool, p interface{}) {
	done := make(chan interface{}, 1)
	go func() {
		defer func() { done <- recover() }()
		f()
	}()
	select {
	case p = <-done:
		return true, p
	case <-time.After(d):
		return false, nil
	}
}

func TestVerif_C17_worker(t *testing.T) {
	var evals, fails int64
	defer func() { fmt.Printf("VERIF-EVAL %d\n", evals) }()
	var mu sync.Mutex
	fail := func(f string, a ...interface{}) {
		if atomic.AddInt64(&fails, 1) < 12 {
			mu.Lock()
			fmt.Printf("VERIF-FAIL "+f+"\n", a...)
			mu.Unlock()
		}
		t.Fail()
	}
	// done: every third task gets a context that has already ended
	batch := func(size, tasks int, some bool, work time.Duration) {
		atomic.AddInt64(&evals, 1)
		where := fmt.Sprintf("size=%d tasks=%d done-contexts=%v", size, tasks, some)
		w := NewWorker(size)
		var in, max int32
		type task struct{ run, dfr, order int32 }
		ts := make([]task, tasks)
		var wg sync.WaitGroup
		dead, kill := context.WithCancel(context.Background())
		kill()
		ended, _ := vIn(30*time.Second, func() {
			for i := range ts {
				i := i
				ctx := context.Background()
				if some && i%3 == 1 {
					ctx = dead
				}
				wg.Add(1)
				w.Run(ctx, func() {
					n := atomic.AddInt32(&in, 1)
					for {
						m := atomic.LoadInt32(&max)
						if n <= m || atomic.CompareAndSwapInt32(&max, m, n) {
							break
						}
					}
					if work > 0 {
						time.Sleep(work)
					}
					atomic.AddInt32(&ts[i].run, 1)
					atomic.AddInt32(&in, -1)
				}, func() {
					if atomic.LoadInt32(&ts[i].run) != 1 && ctx != dead {
						fail("%s: deferFunc of task %d is called before run has returned", where, i)
					}
					if atomic.AddInt32(&ts[i].dfr, 1) == 1 {
						wg.Done()
					}
				})
			}
			wg.Wait()
		})
		if !ended {
			fail("%s: the tasks do not all end", where)
			return
		}
		// the slots are all given back: size tasks can run at once
		together := make(chan struct{})
		var st int32
		ended, _ = vIn(10*time.Second, func() {
			for i := 0; i < size; i++ {
				w.Run(context.Background(), func() {
					if int(atomic.AddInt32(&st, 1)) == size {
						close(together)
					}
					<-together
				}, func() {})
			}
			<-together
		})
		if !ended {
			fail("%s: after all tasks have ended only some of the %d slots are free", where, size)
			return
		}
		if int(max) > size {
			fail("%s: %d run functions were executing at once", where, max)
		}
		for i := range ts {
			want := int32(1)
			if some && i%3 == 1 {
				want = 0
			}
			if r, d := atomic.LoadInt32(&ts[i].run), atomic.LoadInt32(&ts[i].dfr); r != want || d != 1 {
				fail("%s: task %d: run called %d times (want %d), deferFunc %d times", where, i, r, want, d)
				break
			}
		}
	}
	for rep := 0; rep < vTier(5, 60) && fails == 0; rep++ {
		for _, size := range []int{1, 2, 3, 5, 16} {
			for _, k := range []int{0, 1, 2, 3, 7, 20, 100} {
				batch(size, k, rep%2 == 1, 0)
				if k <= 20 && rep == 0 {
					batch(size, k, false, 2*time.Millisecond)
				}
			}
		}
	}
	// the submitter waits while n tasks run
	for _, size := range []int{1, 2, 4} {
		size := size
		evals++
		w := NewWorker(size)
		release := make(chan struct{})
		var started int32
		all := make(chan struct{}, 10)
		go func() {
			for i := 0; i < size+2; i++ {
				w.Run(context.Background(), func() { atomic.AddInt32(&started, 1); <-release }, func() { all <- struct{}{} })
			}
		}()
		time.Sleep(60 * time.Millisecond)
		if n := atomic.LoadInt32(&started); int(n) != size {
			fail("size=%d: %d blocked tasks are executing", size, n)
		}
		close(release)
		for i := 0; i < size+2; i++ {
			select {
			case <-all:
			case <-time.After(10 * time.Second):
				fail("size=%d: a task does not end", size)
				return
			}
		}
	}
}
