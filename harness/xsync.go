package xsync

// race: C09 C10 C11 C12 C13

import (
	"context"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"os"
	"runtime"
	"strconv"
	"sync"
	"sync/atomic"
	"testing"
	"time"
)

func vTier(a, b int) int {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return b
	}
	return a
}

func vSeed(k int64) *rand.Rand {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	return rand.New(rand.NewSource(int64(seed)*100 + k))
}

// vIn runs f and reports whether it ended in time and what it panicked with.
func vIn(d time.Duration, f func()) (ended bool, p interface{}) {
	done := make(chan interface{}, 1)
	go func() {
		defer func() { done <- recover() }()
		f()
	}()
	select {
	case p = <-done:
		return true, p
	case <-time.After(d):
		return false, nil
	}
}

type vRep struct {
	t            *testing.T
	mu           sync.Mutex
	evals, fails int64
}

func (r *vRep) fail(f string, a ...interface{}) {
	if n := atomic.AddInt64(&r.fails, 1); n < 12 {
		r.mu.Lock()
		fmt.Printf("VERIF-FAIL "+f+"\n", a...)
		r.mu.Unlock()
	}
	r.t.Fail()
}
func (r *vRep) eval()     { atomic.AddInt64(&r.evals, 1) }
func (r *vRep) bad() bool { return atomic.LoadInt64(&r.fails) > 11 }
func (r *vRep) done()     { fmt.Printf("VERIF-EVAL %d\n", r.evals) }

func TestVerif_C09_spinlock(t *testing.T) {
	R := &vRep{t: t}
	defer R.done()
	r := vSeed(9)
	// one goroutine: every history of TryLock, Lock, Unlock
	for k := 0; k < vTier(2000, 20000) && !R.bad(); k++ {
		var l Spinlock
		held := false
		hist := ""
		ended, p := vIn(10*time.Second, func() {
			for i := 0; i < 12; i++ {
				R.eval()
				switch c := r.Intn(3); {
				case c == 0:
					got := l.TryLock()
					hist += fmt.Sprintf(" TryLock=%v", got)
					if got == held {
						R.fail("Spinlock history%s: the lock was held=%v", hist, held)
						return
					}
					held = true
				case held:
					l.Unlock()
					held = false
					hist += " Unlock"
				default:
					hist += " Lock"
					l.Lock()
					held = true
				}
			}
		})
		if !ended || p != nil {
			R.fail("Spinlock history%s: ended=%v panic=%v", hist, ended, p)
		}
	}
	// a waiting Lock proceeds after Unlock, and not before
	for k := 0; k < vTier(12, 60) && !R.bad(); k++ {
		var l Spinlock
		l.Lock()
		hold := time.Duration(k%6) * 20 * time.Millisecond
		var got int32
		n := 1 + k%3
		done := make(chan struct{}, n)
		for i := 0; i < n; i++ {
			go func() {
				l.Lock()
				if atomic.AddInt32(&got, 1) != 1 {
					R.fail("Spinlock: two waiting Lock calls hold it at once")
				}
				runtime.Gosched()
				atomic.AddInt32(&got, -1)
				l.Unlock()
				done <- struct{}{}
			}()
		}
		time.Sleep(hold)
		if atomic.LoadInt32(&got) != 0 {
			R.fail("Spinlock: Lock returned while the lock was held for %v", hold)
		}
		l.Unlock()
		for i := 0; i < n; i++ {
			R.eval()
			select {
			case <-done:
			case <-time.After(20 * time.Second):
				R.fail("Spinlock held for %v: a waiting Lock does not return after Unlock", hold)
				return
			}
		}
	}
	// mutual exclusion
	for k := 0; k < vTier(20, 200) && !R.bad(); k++ {
		var l Spinlock
		var in int32
		plain := 0
		n, iters := 2+r.Intn(6), vTier(600, 2000)
		var wg sync.WaitGroup
		var total int64
		for i := 0; i < n; i++ {
			try := (i+k)%2 == 0
			wg.Add(1)
			go func() {
				defer wg.Done()
				for j := 0; j < iters; j++ {
					if try {
						if !l.TryLock() {
							runtime.Gosched()
							continue
						}
					} else {
						l.Lock()
					}
					if atomic.AddInt32(&in, 1) != 1 {
						R.fail("Spinlock: %d goroutines, two holders at once", n)
					}
					plain++
					if j%16 == 0 {
						runtime.Gosched()
					}
					atomic.AddInt64(&total, 1)
					atomic.AddInt32(&in, -1)
					l.Unlock()
				}
			}()
		}
		ended, _ := vIn(60*time.Second, wg.Wait)
		R.eval()
		if !ended {
			R.fail("Spinlock: %d goroutines do not finish", n)
			return
		}
		if int64(plain) != total {
			R.fail("Spinlock: %d increments under the lock, counter %d", total, plain)
		}
	}
}

type vClos struct {
	n    int32
	name string
	err  error
}

func (c *vClos) Close() error { atomic.AddInt32(&c.n, 1); return c.err }

// every history of Get, Remove and Close
func TestVerif_C13_histories(t *testing.T) {
	R := &vRep{t: t}
	defer R.done()
	r := vSeed(13)
	known := []error{errors.New("create"), io.EOF, io.ErrClosedPipe, os.ErrClosed, os.ErrNotExist, os.ErrExist, context.Canceled, fmt.Errorf("w: %w", io.EOF), fmt.Errorf("w: %w", os.ErrClosed)}
	for k := 0; k < vTier(3000, 40000) && !R.bad(); k++ {
		m := NewResourceManager()
		want := map[string]*vClos{}
		hist := ""
		ended, p := vIn(10*time.Second, func() {
			for i, n := 0, 1+r.Intn(14); i < n; i++ {
				R.eval()
				key := []string{"", "a", "b", "a b", "ab"}[r.Intn(5)]
				if r.Intn(3) == 0 {
					hist += fmt.Sprintf(" Remove(%q)", key)
					if got := m.Remove(key); got != (want[key] != nil) {
						R.fail("ResourceManager%s = %v", hist, got)
						return
					}
					delete(want, key)
					continue
				}
				calls := 0
				mk := &vClos{name: key}
				var e error
				if r.Intn(3) == 0 {
					e = known[r.Intn(len(known))]
				}
				if r.Intn(3) == 0 {
					mk.err = fmt.Errorf("close %d", i)
					if r.Intn(2) == 0 {
						mk.err = known[r.Intn(len(known))]
					}
				}
				hist += fmt.Sprintf(" Get(%q,%v)", key, e)
				v, err := m.Get(key, func() (io.Closer, error) {
					calls++
					if e != nil {
						return nil, e
					}
					return mk, nil
				})
				switch old := want[key]; {
				case old != nil:
					if v != io.Closer(old) || err != nil || calls != 0 {
						R.fail("ResourceManager%s = %v, %v (%d calls of create): the stored resource was expected", hist, v, err, calls)
						return
					}
				case e != nil:
					if v != nil || err != e || calls != 1 {
						R.fail("ResourceManager%s = %v, %v (%d calls of create)", hist, v, err, calls)
						return
					}
				default:
					if v != io.Closer(mk) || err != nil || calls != 1 {
						R.fail("ResourceManager%s = %v, %v (%d calls of create)", hist, v, err, calls)
						return
					}
					want[key] = mk
				}
			}
			bad := false
			for _, c := range want {
				bad = bad || c.err != nil
			}
			err := m.Close()
			if (err != nil) != bad {
				R.fail("ResourceManager%s Close() = %v", hist, err)
			}
			for key, c := range want {
				if c.n != 1 {
					R.fail("ResourceManager%s Close() closed the resource of %q %d times", hist, key, c.n)
				}
			}
		})
		if !ended || p != nil {
			R.fail("ResourceManager%s: ended=%v panic=%v", hist, ended, p)
		}
	}
}

func TestVerif_C13_concurrent(t *testing.T) {
	R := &vRep{t: t}
	defer R.done()
	for k := 0; k < vTier(150, 1500) && !R.bad(); k++ {
		m := NewResourceManager()
		var made, creating int32
		var wg sync.WaitGroup
		got := make([]io.Closer, 8)
		other := make([]io.Closer, 8)
		ended, p := vIn(20*time.Second, func() {
			for i := 0; i < 8; i++ {
				i := i
				wg.Add(1)
				go func() {
					defer wg.Done()
					R.eval()
					v, err := m.Get("k", func() (io.Closer, error) {
						atomic.AddInt32(&made, 1)
						if k%3 == 0 {
							runtime.Gosched()
						}
						if k%5 == 0 {
							time.Sleep(time.Millisecond)
						}
						return &vClos{name: "k"}, nil
					})
					if err != nil {
						R.fail("Get: %v", err)
					}
					got[i] = v
					name := fmt.Sprintf("other%d", i)
					other[i], _ = m.Get(name, func() (io.Closer, error) {
						// mostly, the creations of the different resources end together
						atomic.AddInt32(&creating, 1)
						for w := 0; k%2 == 0 && atomic.LoadInt32(&creating) < 8 && w < 2000; w++ {
							runtime.Gosched()
						}
						return &vClos{name: name}, nil
					})
					if c, ok := other[i].(*vClos); !ok || c.name != name {
						R.fail("Get(%q) returned %v", name, other[i])
					}
					if i%2 == 0 && !m.Remove(name) {
						R.fail("Remove(%q) = false", name)
					}
				}()
			}
			wg.Wait()
		})
		if !ended || p != nil {
			R.fail("concurrent Get: ended=%v panic=%v", ended, p)
			return
		}
		if made != 1 {
			R.fail("8 concurrent Gets of one key called create %d times", made)
		}
		for i := range got {
			if got[i] != got[0] {
				R.fail("concurrent Gets returned different resources")
			}
		}
		if err := m.Close(); err != nil {
			R.fail("Close: %v", err)
		}
		for i := range other {
			want := int32(1)
			if i%2 == 0 {
				want = 0
			}
			if c := other[i].(*vClos); c.n != want {
				R.fail("resource %q closed %d times, want %d", c.name, c.n, want)
			}
		}
		if c := got[0].(*vClos); c.n != 1 {
			R.fail("shared resource closed %d times", c.n)
		}
	}
}

// ---- C10 ----

func vMapHistory(R *vRep, r *rand.Rand, keys []interface{}, n int) {
	m := &Map{}
	ref := map[interface{}]interface{}{}
	hist := ""
	f := func(k, v interface{}) interface{} { return fmt.Sprint(k, "<", v, ">") }
	ended, p := vIn(10*time.Second, func() {
		for i := 0; i < n; i++ {
			R.eval()
			k := keys[r.Intn(len(keys))]
			old, had := ref[k]
			var v interface{} = i
			if r.Intn(8) == 0 {
				v = nil
			}
			bad := ""
			switch c := r.Intn(22); {
			case c < 4:
				hist += fmt.Sprintf(" Load(%v)", k)
				if g, ok := m.Load(k); g != old || ok != had {
					bad = fmt.Sprint(g, ok)
				}
			case c < 8:
				hist += fmt.Sprintf(" Store(%v,%v)", k, v)
				m.Store(k, v)
				ref[k] = v
			case c < 10:
				hist += fmt.Sprintf(" LoadOrStore(%v,%v)", k, v)
				g, ok := m.LoadOrStore(k, v)
				if !had {
					ref[k], old = v, v
				}
				if g != old || ok != had {
					bad = fmt.Sprint(g, ok)
				}
			case c < 12:
				hist += fmt.Sprintf(" ComputeIfAbsent(%v)", k)
				calls := 0
				g, ok := m.ComputeIfAbsent(k, func(x interface{}) interface{} {
					calls++
					if x != k {
						bad = fmt.Sprint("applied to ", x)
					}
					return v
				})
				if !had {
					ref[k], old = v, v
				}
				if g != old || ok != had || (calls > 0) != !had {
					bad = fmt.Sprint(g, ok, calls)
				}
			case c < 14:
				hist += fmt.Sprintf(" ComputeIfPresent(%v)", k)
				g, ok := m.ComputeIfPresent(k, f)
				if had {
					ref[k] = f(k, old)
				}
				if (had && g != ref[k]) || (!had && g != nil) || ok != had {
					bad = fmt.Sprint(g, ok)
				}
			case c < 16:
				hist += fmt.Sprintf(" LoadAndDelete(%v)", k)
				if g, ok := m.LoadAndDelete(k); g != old || ok != had {
					bad = fmt.Sprint(g, ok)
				}
				delete(ref, k)
			case c < 18:
				hist += fmt.Sprintf(" Delete(%v)", k)
				m.Delete(k)
				delete(ref, k)
			case c == 18 && r.Intn(3) == 0:
				hist += " Clear()"
				m.Clear()
				ref = map[interface{}]interface{}{}
			case c == 19:
				hist += " Range(stop)"
				stop := r.Intn(3)
				calls := 0
				m.Range(func(k, v interface{}) bool { calls++; return calls <= stop })
				if want := stop + 1; calls > want || (calls < want && calls != len(ref)) {
					bad = fmt.Sprint(calls, " calls")
				}
			default:
				hist += " Range()"
				got := map[interface{}]interface{}{}
				m.Range(func(k, v interface{}) bool {
					if _, twice := got[k]; twice {
						bad = fmt.Sprint("key visited twice: ", k)
					}
					got[k] = v
					return true
				})
				if fmt.Sprint(got) != fmt.Sprint(ref) {
					bad = fmt.Sprint(got)
				}
			}
			if bad != "" {
				R.fail("Map%s: got %s, contents %v", hist, bad, ref)
				return
			}
		}
	})
	if !ended || p != nil {
		R.fail("Map%s: ended=%v panic=%v", hist, ended, p)
	}
}

func TestVerif_C10_histories(t *testing.T) {
	R := &vRep{t: t}
	defer R.done()
	r := vSeed(10)
	for k := 0; k < vTier(6000, 80000) && !R.bad(); k++ {
		keys := []interface{}{"a", 1, nil, struct{}{}, 2.5}[:1+r.Intn(5)]
		vMapHistory(R, r, keys, 1+r.Intn(40))
	}
}

// ---- C11 ----

func TestVerif_C11_concurrent(t *testing.T) {
	R := &vRep{t: t}
	defer R.done()
	for k := 0; k < vTier(800, 4000) && !R.bad(); k++ {
		m := &Map{}
		switch k % 4 { // read-only, dirty, deleted, expunged
		case 1:
			m.Store("k", 0)
			m.Range(func(a, b interface{}) bool { return true })
		case 2:
			m.Store("k", 0)
			m.Store("x", 0)
		case 3:
			m.Store("k", 0)
			m.Range(func(a, b interface{}) bool { return true })
			m.Delete("k")
			m.Store("x", 0)
		}
		m.Delete("k")
		var stored, taken, incs int64
		var wg sync.WaitGroup
		start := make(chan struct{})
		vals := make([]interface{}, 8)
		ended, p := vIn(30*time.Second, func() {
			for i := 0; i < 8; i++ {
				i := i
				wg.Add(1)
				go func() {
					defer wg.Done()
					R.eval()
					<-start
					var l bool
					if i%2 == 0 {
						vals[i], l = m.LoadOrStore("k", i)
					} else {
						vals[i], l = m.ComputeIfAbsent("k", func(interface{}) interface{} { return i })
					}
					if !l {
						atomic.AddInt64(&stored, 1)
					}
				}()
			}
			close(start)
			wg.Wait()
			if stored != 1 {
				R.fail("%d of 8 concurrent LoadOrStore/ComputeIfAbsent calls stored a value", stored)
			}
			for i := range vals {
				if vals[i] != vals[0] {
					R.fail("concurrent LoadOrStore/ComputeIfAbsent calls returned different values")
				}
			}
			m.Store("k", 0)
			start = make(chan struct{})
			for i := 0; i < 8; i++ {
				i := i
				wg.Add(1)
				go func() {
					defer wg.Done()
					<-start
					for j := 0; j < 25; j++ {
						if _, ok := m.ComputeIfPresent("k", func(_, v interface{}) interface{} {
							if (j+k)%5 == 0 {
								runtime.Gosched()
							}
							return v.(int) + 1
						}); ok {
							atomic.AddInt64(&incs, 1)
						}
						if i == 0 {
							m.Store(j, j)
						}
						if i == 1 {
							m.Load(j)
						}
					}
				}()
			}
			close(start)
			wg.Wait()
			if v, _ := m.Load("k"); v != 200 || incs != 200 {
				R.fail("200 concurrent increments gave %v (%d reported)", v, incs)
			}
			start = make(chan struct{})
			for i := 0; i < 8; i++ {
				i := i
				wg.Add(1)
				go func() {
					defer wg.Done()
					<-start
					if i < 6 {
						if _, ok := m.LoadAndDelete("k"); ok {
							atomic.AddInt64(&taken, 1)
						}
						return
					}
					m.Store(fmt.Sprint("y", i), 1)
				}()
			}
			close(start)
			wg.Wait()
			if taken != 1 {
				R.fail("%d of 6 concurrent LoadAndDelete calls obtained the value", taken)
			}
			if _, ok := m.Load("k"); ok {
				R.fail("a deleted value came back")
			}
			// stores are not lost, whatever happens to other keys
			for i := 0; i < 8; i++ {
				i := i
				wg.Add(1)
				go func() {
					defer wg.Done()
					for j := 0; j < 30; j++ {
						m.Store(i, j)
						if v, ok := m.Load(i); v != j || !ok {
							R.fail("Store(%d,%d) was lost: Load = %v, %v", i, j, v, ok)
							return
						}
						if j%7 == 3 {
							if v, ok := m.LoadAndDelete(i); v != j || !ok {
								R.fail("LoadAndDelete(%d) = %v, %v, want %d", i, v, ok, j)
							}
							if v, ok := m.Load(i); ok {
								R.fail("Load(%d) = %v after it was deleted", i, v)
							}
						}
						if j%11 == 5 {
							m.Range(func(a, b interface{}) bool { return true })
						}
					}
				}()
			}
			wg.Wait()
		})
		if !ended || p != nil {
			R.fail("concurrent Map operations: ended=%v panic=%v", ended, p)
			return
		}
	}
}

// vComp is the value that ComputeIfPresent's function id makes of a value.
type vComp struct {
	id int
	of interface{}
}

type vOp struct {
	kind     int // 0 Load 1 Store 2 LoadOrStore 3 ComputeIfAbsent 4 ComputeIfPresent 5 LoadAndDelete 6 Delete 7 Clear 8 Range
	key      int
	id       int
	inv, ret int64
	val      interface{}
	ok       bool
	during   func()
}

func (o *vOp) String() string {
	n := []string{"Load", "Store", "LoadOrStore", "ComputeIfAbsent", "ComputeIfPresent", "LoadAndDelete", "Delete", "Clear", "Range"}[o.kind]
	return fmt.Sprintf("[%d,%d] %s(key %d, id %d) = %v, %v", o.inv, o.ret, n, o.key, o.id, o.val, o.ok)
}

func (o *vOp) run(m *Map, clock *int64) {
	o.inv = atomic.AddInt64(clock, 1)
	switch o.kind {
	case 0:
		o.val, o.ok = m.Load(o.key)
	case 1:
		m.Store(o.key, o.id)
	case 2:
		o.val, o.ok = m.LoadOrStore(o.key, o.id)
	case 3:
		o.val, o.ok = m.ComputeIfAbsent(o.key, func(interface{}) interface{} {
			if o.during != nil {
				o.during()
			}
			if o.id%3 == 0 {
				runtime.Gosched()
			}
			return o.id
		})
	case 4:
		o.val, o.ok = m.ComputeIfPresent(o.key, func(_, v interface{}) interface{} {
			if o.id%3 == 0 {
				runtime.Gosched()
			}
			return vComp{o.id, v}
		})
	case 5:
		o.val, o.ok = m.LoadAndDelete(o.key)
	case 6:
		m.Delete(o.key)
	case 7:
		m.Clear()
	case 8:
		m.Range(func(a, b interface{}) bool { return true })
	}
	o.ret = atomic.AddInt64(clock, 1)
}

// step applies the operation to an ordinary map and reports whether its results agree.
func (o *vOp) step(s map[int]interface{}) bool {
	v, has := s[o.key]
	switch o.kind {
	case 0:
		return o.ok == has && o.val == v
	case 1:
		s[o.key] = o.id
	case 2, 3:
		if has {
			return o.ok && o.val == v
		}
		s[o.key] = o.id
		return !o.ok && o.val == o.id
	case 4:
		if !has {
			return !o.ok && o.val == nil
		}
		s[o.key] = vComp{o.id, v}
		return o.ok && o.val == s[o.key]
	case 5:
		delete(s, o.key)
		return o.ok == has && o.val == v
	case 6:
		delete(s, o.key)
	case 7:
		for k := range s {
			delete(s, k)
		}
	}
	return true
}

// vLinear: is there an order of the operations, respecting real time, in which an ordinary map gives the same results?
func vLinear(ops []*vOp) bool {
	seen := map[string]bool{}
	var rec func(done int, s map[int]interface{}) bool
	rec = func(done int, s map[int]interface{}) bool {
		if done == 1<<uint(len(ops))-1 {
			return true
		}
		id := fmt.Sprint(done, s)
		if seen[id] {
			return false
		}
		seen[id] = true
		first := int64(1) << 62
		for i, o := range ops {
			if done&(1<<uint(i)) == 0 && o.ret < first {
				first = o.ret
			}
		}
		for i, o := range ops {
			if done&(1<<uint(i)) != 0 || o.inv > first {
				continue
			}
			n := map[int]interface{}{}
			for k, v := range s {
				n[k] = v
			}
			if o.step(n) && rec(done|1<<uint(i), n) {
				return true
			}
		}
		return false
	}
	return rec(0, map[int]interface{}{})
}

func TestVerif_C11_linearizable(t *testing.T) {
	R := &vRep{t: t}
	defer R.done()
	r := vSeed(11)
	stop := time.Now().Add(time.Duration(vTier(12, 100)) * time.Second)
	for k := 0; k < vTier(40000, 300000) && !R.bad() && time.Now().Before(stop); k++ {
		R.eval()
		m := &Map{}
		var clock int64
		id := 1
		op := func(kinds []int, keys int) *vOp {
			id++
			return &vOp{kind: kinds[r.Intn(len(kinds))], key: r.Intn(keys), id: id}
		}
		var all []*vOp
		// a sequential past: fills, promotes, deletes, expunges
		var past []string
		for i, n := 0, r.Intn(6); i < n; i++ {
			if r.Intn(3) == 0 {
				m.Range(func(a, b interface{}) bool { return true })
				past = append(past, "Range")
				continue
			}
			o := op([]int{1, 1, 1, 2, 5, 6, 0}, 3)
			o.run(m, &clock)
			past = append(past, o.String())
			all = append(all, o)
		}
		kinds := [][]int{{0, 1, 2, 3, 4, 5, 6, 7}, {1, 5, 0}, {2, 3, 5}, {4, 4, 1, 5}, {4, 4, 0}, {1, 1, 6, 0}, {0, 1, 4, 7}, {3, 4, 6}, {8, 0}, {8, 5, 1}, {8, 2, 0, 6}}[r.Intn(11)]
		keys := 1 + r.Intn(3)
		var wg sync.WaitGroup
		var ready int32
		g := 2 + r.Intn(2)
		// Sometimes the operations start while the function of a ComputeIfAbsent of a
		// new key runs: if it runs under a lock, they pile up there.
		var gate chan struct{}
		if r.Intn(8) == 0 {
			gate = make(chan struct{})
			var open sync.Once
			id++
			o := &vOp{kind: 3, key: 3, id: id}
			o.during = func() {
				open.Do(func() { close(gate); time.Sleep(300 * time.Microsecond) })
			}
			all = append(all, o)
			wg.Add(1)
			go func() {
				defer wg.Done()
				o.run(m, &clock)
				open.Do(func() { close(gate) })
			}()
		}
		for i := 0; i < g; i++ {
			gate := gate
			var mine []*vOp
			for j := 0; j < 3; j++ {
				mine = append(mine, op(kinds, keys))
			}
			all = append(all, mine...)
			wg.Add(1)
			go func() {
				defer wg.Done()
				if gate != nil {
					<-gate
				}
				atomic.AddInt32(&ready, 1)
				for w := 0; atomic.LoadInt32(&ready) < int32(g) && w < 10000; w++ {
				}
				for _, o := range mine {
					o.run(m, &clock)
				}
			}()
		}
		if ended, p := vIn(30*time.Second, wg.Wait); !ended || p != nil {
			R.fail("concurrent Map operations do not end: %v, then concurrently %v", past, all)
			return
		}
		for key := 0; key < 4; key++ {
			o := &vOp{kind: 0, key: key}
			o.run(m, &clock)
			all = append(all, o)
		}
		if !vLinear(all) {
			R.fail("no order of these operations explains their results (past %v): %v", past, all)
		}
	}
}

// ---- C12 ----

func TestVerif_C12_shards(t *testing.T) {
	R := &vRep{t: t}
	defer R.done()
	r := vSeed(12)
	var sizes []int
	for i := 1; i <= vTier(70, 300); i++ {
		sizes = append(sizes, i)
	}
	for b := uint(7); b <= 16; b++ {
		sizes = append(sizes, 1<<b-1, 1<<b, 1<<b+1)
	}
	for _, n := range sizes {
		R.eval()
		m := NewSharedMap(WithShardBlockSize(n))
		l := len(m.b)
		if l < n || l&(l-1) != 0 || (n > 1 && l/2 >= n) {
			R.fail("NewSharedMap(%d) has %d shards", n, l)
		}
	}
	for b := uint(0); b <= 31; b++ {
		for d := -2; d <= 2; d++ {
			n := int64(1)<<b + int64(d)
			if n < 1 || n > 1<<31 {
				continue
			}
			R.eval()
			s := int64(getShardBlockSize(uint32(n)))
			if s < n || s&(s-1) != 0 {
				R.fail("getShardBlockSize(%d) = %d", n, s)
			}
		}
	}
	for i := 0; i < vTier(400, 6000) && !R.bad(); i++ {
		m := NewSharedMap(WithShardBlockSize(1 + r.Intn(40)))
		if i%5 == 0 {
			m = NewSharedMap()
		}
		ref := map[string]interface{}{}
		hist := ""
		ended, p := vIn(10*time.Second, func() {
			for j, n := 0, 1+r.Intn(40); j < n; j++ {
				R.eval()
				b := make([]byte, r.Intn(4))
				r.Read(b)
				k := string(b)
				if r.Intn(3) > 0 {
					k = fmt.Sprint("k", r.Intn(6))
				}
				old, had := ref[k]
				bad := ""
				switch c := r.Intn(12); c {
				case 0:
					hist += fmt.Sprintf(" Load(%q)", k)
					if g, ok := m.Load(k); g != old || ok != had {
						bad = fmt.Sprint(g, ok)
					}
				case 1:
					hist += fmt.Sprintf(" Has(%q)", k)
					if ok := m.Has(k); ok != had {
						bad = fmt.Sprint(ok)
					}
				case 2, 3:
					hist += fmt.Sprintf(" Store(%q,%d)", k, j)
					m.Store(k, j)
					ref[k] = j
				case 4:
					hist += fmt.Sprintf(" MStore(%q,x)", k)
					m.MStore(map[string]interface{}{k: j, "x": -j})
					ref["x"] = -j
					ref[k] = j
					if k == "x" {
						m.Store(k, j)
					}
				case 5:
					hist += fmt.Sprintf(" LoadOrStore(%q,%d)", k, j)
					if ok := m.LoadOrStore(k, j); ok != !had {
						bad = fmt.Sprint(ok)
					}
					if !had {
						ref[k] = j
					}
				case 6:
					hist += fmt.Sprintf(" ComputeIfAbsent(%q)", k)
					g, ok := m.ComputeIfAbsent(k, func(x string) interface{} { return x + "!" })
					if !had {
						ref[k] = k + "!"
					}
					if g != ref[k] || ok != had {
						bad = fmt.Sprint(g, ok)
					}
				case 7:
					hist += fmt.Sprintf(" ComputeIfPresent(%q)", k)
					g, ok := m.ComputeIfPresent(k, func(x string, v interface{}) interface{} { return fmt.Sprint(x, v) })
					if had {
						ref[k] = fmt.Sprint(k, old)
					}
					if ok != had || (had && g != ref[k]) {
						bad = fmt.Sprint(g, ok)
					}
				case 8, 9:
					hist += fmt.Sprintf(" Delete(%q)", k)
					m.Delete(k)
					delete(ref, k)
				case 10:
					if r.Intn(4) == 0 {
						hist += " Clear()"
						m.Clear()
						ref = map[string]interface{}{}
					}
				case 11:
					stop := r.Intn(len(ref) + 2)
					hist += fmt.Sprintf(" Range(stop after %d)", stop)
					got := map[string]interface{}{}
					calls := 0
					m.Range(func(k, v interface{}) bool {
						calls++
						if _, twice := got[k.(string)]; twice {
							bad = fmt.Sprint("visited twice: ", k)
						}
						got[k.(string)] = v
						if want, ok := ref[k.(string)]; !ok || want != v {
							bad = fmt.Sprint("visited ", k, v)
						}
						return calls <= stop
					})
					if want := stop + 1; calls > want || (calls < want && calls != len(ref)) {
						bad = fmt.Sprint(calls, " calls")
					}
				}
				if bad != "" {
					R.fail("SharedMap of %d shards%s: got %s, contents %v", len(m.b), hist, bad, ref)
					return
				}
			}
		})
		if !ended || p != nil {
			R.fail("SharedMap%s: ended=%v panic=%v", hist, ended, p)
		}
	}
}

// many keys, so that every shard is in use; nil values; then Clear
func TestVerif_C12_full(t *testing.T) {
	R := &vRep{t: t}
	defer R.done()
	for _, n := range []int{1, 2, 3, 17, 32, 100, 300, 1100} {
		if R.bad() {
			return
		}
		m := NewSharedMap(WithShardBlockSize(n))
		val := func(i int) interface{} {
			if i%5 == 0 {
				return nil
			}
			return i
		}
		data := map[string]interface{}{}
		N := 6*n + 20
		for i := 0; i < N; i++ {
			R.eval()
			k := fmt.Sprint("key-", i)
			switch i % 4 {
			case 0:
				data[k] = val(i)
			case 1:
				m.Store(k, val(i))
			case 2:
				if !m.LoadOrStore(k, val(i)) {
					R.fail("%d shards: LoadOrStore(%q) of an absent key returns false", n, k)
				}
			case 3:
				if v, ok := m.ComputeIfAbsent(k, func(x string) interface{} {
					if x != k {
						R.fail("%d shards: ComputeIfAbsent(%q) computes for %q", n, k, x)
					}
					return val(i)
				}); ok || v != val(i) {
					R.fail("%d shards: ComputeIfAbsent(%q) = %v, %v", n, k, v, ok)
				}
			}
		}
		m.MStore(data)
		for i := 0; i < N; i++ {
			R.eval()
			k := fmt.Sprint("key-", i)
			if v, ok := m.Load(k); !ok || v != val(i) {
				R.fail("%d shards: key %q stored as %v loads as %v, %v", n, k, val(i), v, ok)
			}
			if !m.Has(k) {
				R.fail("%d shards: Has(%q) is false, stored value %v", n, k, val(i))
			}
			if m.GetShard(k) != m.GetShard(k) || m.GetShard(k) == nil {
				R.fail("%d shards: key %q has no single shard", n, k)
			}
		}
		seen := map[interface{}]int{}
		m.Range(func(k, v interface{}) bool { seen[k]++; return true })
		if len(seen) != N {
			R.fail("%d shards: Range visits %d of %d keys", n, len(seen), N)
		}
		for k, c := range seen {
			if c != 1 {
				R.fail("%d shards: Range visits %v %d times", n, k, c)
			}
		}
		for stop := 1; stop < 40 && stop <= N; stop++ {
			c := 0
			m.Range(func(k, v interface{}) bool { c++; return c < stop })
			if c != stop {
				R.fail("%d shards: Range stopped at call %d makes %d calls", n, stop, c)
			}
		}
		if v, ok := m.ComputeIfPresent("key-0", func(k string, v interface{}) interface{} { return v == nil }); !ok || v != true {
			R.fail("%d shards: ComputeIfPresent on a nil value gives %v, %v", n, v, ok)
		}
		if n%2 == 1 {
			for i := 0; i < N; i++ {
				m.Delete(fmt.Sprint("key-", i))
			}
		} else {
			m.Clear()
		}
		for i := 0; i < N; i++ {
			if k := fmt.Sprint("key-", i); m.Has(k) {
				R.fail("%d shards: key %q is present after Clear/Delete", n, k)
			}
		}
	}
}
