package xstream

// race: C22 C23

import (
	"errors"
	"fmt"
	"math/rand"
	"os"
	"reflect"
	"sort"
	"strconv"
	"sync"
	"sync/atomic"
	"testing"
	"time"
)

type vT struct {
	t            *testing.T
	evals, fails int64
	mu           sync.Mutex
	r            *rand.Rand
}

func vNew(t *testing.T) *vT {
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	return &vT{t: t, r: rand.New(rand.NewSource(seed + 17))}
}

func (v *vT) end() { fmt.Printf("VERIF-EVAL %d\n", atomic.LoadInt64(&v.evals)) }

func (v *vT) fail(f string, a ...interface{}) {
	if atomic.AddInt64(&v.fails, 1) < 12 {
		v.mu.Lock()
		fmt.Printf("VERIF-FAIL "+f+"\n", a...)
		v.mu.Unlock()
	}
	v.t.Fail()
}

func vTier(a, b int) int {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return b
	}
	return a
}

const vLong = 20 * time.Second

// vIn runs f and reports whether it ended in time and what it panicked with.
func vIn(f func()) (ended bool, p interface{}) {
	done := make(chan interface{}, 1)
	go func() {
		defer func() { done <- recover() }()
		f()
	}()
	select {
	case p = <-done:
		return true, p
	case <-time.After(vLong):
		return false, nil
	}
}

// vSrc is a stream over x whose producer reports when everything was taken.
type vSrc struct {
	s    *Stream
	done chan struct{}
}

func (v *vT) src(x []interface{}, buf int) *vSrc {
	c := make(chan interface{}, buf)
	d := make(chan struct{})
	go func() {
		for _, e := range x {
			c <- e
		}
		// with a buffer, wait until all of it was received
		for len(c) > 0 {
			time.Sleep(20 * time.Microsecond)
		}
		close(c)
		close(d)
	}()
	return &vSrc{Range(c), d}
}

// consumed reports whether the producer was released.
func (s *vSrc) consumed() bool {
	select {
	case <-s.done:
		return true
	case <-time.After(vLong):
		return false
	}
}

// take reads the stream to its end.
func vTake(s *Stream) (out []interface{}, closed bool) {
	to := time.After(vLong)
	for {
		select {
		case e, ok := <-s.source:
			if !ok {
				return out, true
			}
			out = append(out, e)
		case <-to:
			return out, false
		}
	}
}

func (v *vT) input() []interface{} {
	n := v.r.Intn(9)
	if v.r.Intn(6) == 0 {
		n = v.r.Intn(70)
	}
	if v.r.Intn(40) == 0 {
		n = 70 + v.r.Intn(400)
		if v.r.Intn(3) == 0 {
			n = 1000 + v.r.Intn(1500)
		}
	}
	k := 1 + v.r.Intn(12)
	var x []interface{}
	for i := 0; i < n; i++ {
		if v.r.Intn(14) == 0 {
			x = append(x, nil)
		} else {
			x = append(x, v.r.Intn(k))
		}
	}
	return x
}

func vEq(a, b []interface{}) bool {
	return len(a) == 0 && len(b) == 0 || reflect.DeepEqual(a, b)
}

func vBag(x []interface{}) map[string]int {
	m := map[string]int{}
	for _, e := range x {
		m[fmt.Sprintf("%T/%v", e, e)]++
	}
	return m
}

func vKey(e interface{}) interface{} {
	if n, ok := e.(int); ok {
		return n % 4
	}
	return -1
}

// stage checks that f turns x into want, takes all of x and ends its output.
func (v *vT) stage(name string, x, want []interface{}, panics bool, f func(s *Stream) *Stream) {
	v.evals++
	s := v.src(x, v.r.Intn(3))
	var out *Stream
	ended, p := vIn(func() { out = f(s.s) })
	if !ended {
		v.fail("%s on %v does not return", name, x)
		return
	}
	if (p != nil) != panics {
		v.fail("%s on %v: panic=%v, want panic=%v", name, x, p, panics)
		return
	}
	if !panics {
		got, closed := vTake(out)
		if !closed {
			v.fail("%s on %v: the output does not end, got %v", name, x, got)
			return
		}
		if !vEq(got, want) {
			v.fail("%s on %v = %v, want %v", name, x, got, want)
		}
		if !s.consumed() {
			v.fail("%s on %v leaves its producer blocked", name, x)
		}
	}
}

func TestVerif_C19_stages(t *testing.T) {
	v := vNew(t)
	defer v.end()
	rounds := vTier(300, 6000)
	for i := 0; i < rounds; i++ {
		x := v.input()
		n := v.r.Intn(len(x) + 4)
		if v.r.Intn(9) == 0 {
			n = 0
		}
		if len(x) > 70 && v.r.Intn(2) == 0 {
			n = 1 + v.r.Intn(8)
		}
		lo := n
		if lo > len(x) {
			lo = len(x)
		}
		v.stage(fmt.Sprintf("Skip(%d)", n), x, x[lo:], false, func(s *Stream) *Stream { return s.Skip(n) })
		v.stage(fmt.Sprintf("Limit(%d)", n), x, x[:lo], false, func(s *Stream) *Stream { return s.Limit(n) })
		v.stage(fmt.Sprintf("Tail(%d)", n), x, x[len(x)-lo:], false, func(s *Stream) *Stream { return s.Tail(n) })
		v.stage(fmt.Sprintf("Buffer(%d)", n-2), x, x, false, func(s *Stream) *Stream { return s.Buffer(n - 2) })
		if i%10 == 0 {
			m := -1 - v.r.Intn(3)
			v.stage(fmt.Sprintf("Skip(%d)", m), x, nil, true, func(s *Stream) *Stream { return s.Skip(m) })
			v.stage(fmt.Sprintf("Limit(%d)", m), x, nil, true, func(s *Stream) *Stream { return s.Limit(m) })
			v.stage(fmt.Sprintf("Tail(%d)", m), x, nil, true, func(s *Stream) *Stream { return s.Tail(m) })
		}
		seen := map[interface{}]bool{}
		var firsts []interface{}
		for _, e := range x {
			if !seen[vKey(e)] {
				seen[vKey(e)] = true
				firsts = append(firsts, e)
			}
		}
		v.stage("Distinct(mod 4)", x, firsts, false, func(s *Stream) *Stream { return s.Distinct(vKey) })
		var peeked []interface{}
		v.stage("Peek", x, x, false, func(s *Stream) *Stream { return s.Peek(func(e interface{}) { peeked = append(peeked, e) }) })
		if !vEq(peeked, x) {
			v.fail("Peek on %v calls its function on %v", x, peeked)
		}
		var rev []interface{}
		for k := len(x) - 1; k >= 0; k-- {
			rev = append(rev, x[k])
		}
		v.stage("Reverse", x, rev, false, func(s *Stream) *Stream { return s.Reverse() })
		if got, ok := vTake(Of(x...)); !ok || !vEq(got, x) {
			v.fail("Of(%v) = %v, ended: %v", x, got, ok)
		}
		if got, ok := vTake(From(func(c chan<- interface{}) {
			for _, e := range x {
				c <- e
			}
		})); !ok || !vEq(got, x) {
			v.fail("From(%v) = %v, ended: %v", x, got, ok)
		}
		if got, ok := vTake(Empty()); !ok || len(got) > 0 {
			v.fail("Empty() = %v, ended: %v", got, ok)
		}
		c := make(chan interface{}, 1)
		if Range(c).Chan() != (<-chan interface{})(c) {
			v.fail("Range(c).Chan() is not c")
		}
	}
}

type vItem struct{ key, id int }

func TestVerif_C20_chunks(t *testing.T) {
	v := vNew(t)
	defer v.end()
	rounds := vTier(300, 6000)
	for i := 0; i < rounds; i++ {
		x := v.input()
		n := 1 + v.r.Intn(len(x)+2)
		var chunks []interface{}
		for k := 0; k < len(x); k += n {
			e := k + n
			if e > len(x) {
				e = len(x)
			}
			chunks = append(chunks, append([]interface{}{}, x[k:e]...))
		}
		v.stage(fmt.Sprintf("Split(%d)", n), x, chunks, false, func(s *Stream) *Stream { return s.Split(n) })
		v.stage(fmt.Sprintf("SplitSteam(%d)", n), x, chunks, false, func(s *Stream) *Stream {
			var out []interface{}
			parts, ok := vTake(s.SplitSteam(n))
			for _, p := range parts {
				sub, isS := p.(*Stream)
				if !isS {
					v.fail("SplitSteam yields a %T", p)
					continue
				}
				y, ok2 := vTake(sub)
				ok = ok && ok2
				out = append(out, y)
			}
			if !ok {
				v.fail("SplitSteam(%d) on %v does not end", n, x)
			}
			return Of(out...)
		})
		if i%10 == 0 {
			v.stage("Split(0)", x, nil, true, func(s *Stream) *Stream { return s.Split(-v.r.Intn(2)) })
			v.stage("SplitSteam(0)", x, nil, true, func(s *Stream) *Stream { return s.SplitSteam(-v.r.Intn(2)) })
		}
		v.evals++
		if got, ok := vTake(v.src(x, 1).s.Merge()); !ok || len(got) != 1 {
			v.fail("Merge on %v = %v, ended: %v", x, got, ok)
		} else if l, isL := got[0].([]interface{}); !isL || !vEq(l, x) {
			v.fail("Merge on %v = %v", x, got)
		}
		want := map[interface{}][]interface{}{}
		for _, e := range x {
			want[vKey(e)] = append(want[vKey(e)], e)
		}
		// a group's key is that of its members
		v.evals++
		got, ok := vTake(v.src(x, 0).s.Group(vKey))
		gm := map[interface{}][]interface{}{}
		for _, g := range got {
			l, isL := g.([]interface{})
			if !isL || len(l) == 0 {
				v.fail("Group on %v yields %v", x, g)
				continue
			}
			if _, dup := gm[vKey(l[0])]; dup {
				v.fail("Group on %v yields two groups of key %v", x, vKey(l[0]))
			}
			gm[vKey(l[0])] = l
		}
		if !ok || !reflect.DeepEqual(gm, want) {
			v.fail("Group on %v = %v, want %v", x, gm, want)
		}
		v.evals++
		g := GroupBy(vKey)
		s := v.src(x, 0)
		s.s.Collection(g)
		for k := 0; k < 2; k++ {
			if m := g.Map(); !reflect.DeepEqual(m, want) {
				v.fail("GroupBy on %v: Map() #%d = %v, want %v", x, k, m, want)
			}
		}
		if !s.consumed() {
			v.fail("GroupBy on %v leaves its producer blocked", x)
		}
		// Sort
		v.evals++
		items := make([]interface{}, v.r.Intn(60))
		for k := range items {
			items[k] = vItem{v.r.Intn(1 + v.r.Intn(9)), k}
		}
		less := func(a, b interface{}) bool { return a.(vItem).key < b.(vItem).key }
		sorted, ok := vTake(v.src(items, 1).s.Sort(less))
		if !ok || !reflect.DeepEqual(vBag(sorted), vBag(items)) {
			v.fail("Sort on %v = %v", items, sorted)
		} else if !sort.SliceIsSorted(sorted, func(a, b int) bool { return less(sorted[a], sorted[b]) }) {
			v.fail("Sort on %v is not sorted: %v", items, sorted)
		}
		// Copy
		v.evals++
		names := map[string]int{}
		for k := v.r.Intn(5); k > 0; k-- {
			names[fmt.Sprint("c", k)] = v.r.Intn(4)
		}
		src := v.src(x, 0)
		cs := src.s.Copy(names)
		if len(cs) != len(names) {
			v.fail("Copy(%v) gives %d streams", names, len(cs))
		}
		var wg sync.WaitGroup
		for name := range names {
			name := name
			wg.Add(1)
			go func() {
				defer wg.Done()
				if cs[name] == nil {
					v.fail("Copy(%v) has no stream %q", names, name)
					return
				}
				if cap(cs[name].source) != names[name] {
					v.fail("Copy(%v): %q has a buffer of %d", names, name, cap(cs[name].source))
				}
				if got, ok := vTake(cs[name]); !ok || !vEq(got, x) {
					v.fail("Copy(%v) on %v: %q gets %v, ended: %v", names, x, name, got, ok)
				}
			}()
		}
		wg.Wait()
		if !src.consumed() {
			v.fail("Copy(%v) on %v leaves its producer blocked", names, x)
		}
	}
}

func TestVerif_C21_terminal(t *testing.T) {
	v := vNew(t)
	defer v.end()
	rounds := vTier(400, 8000)
	run := func(name string, x []interface{}, f func(s *Stream)) {
		v.evals++
		s := v.src(x, v.r.Intn(2))
		if ended, p := vIn(func() { f(s.s) }); !ended || p != nil {
			v.fail("%s on %v: ended=%v panic=%v", name, x, ended, p)
			return
		}
		if !s.consumed() {
			v.fail("%s on %v leaves its producer blocked", name, x)
		}
	}
	for i := 0; i < rounds; i++ {
		x := v.input()
		run("Count", x, func(s *Stream) {
			if n := s.Count(); n != len(x) {
				v.fail("Count on %v = %d", x, n)
			}
		})
		run("Done", x, func(s *Stream) { s.Done() })
		var log []interface{}
		run("Foreach", x, func(s *Stream) { s.Foreach(func(e interface{}) { log = append(log, e) }) })
		if !vEq(log, x) {
			v.fail("Foreach on %v calls on %v", x, log)
		}
		log = nil
		run("ForeachOrdered", x, func(s *Stream) { s.ForeachOrdered(func(e interface{}) { log = append(log, e) }) })
		for k, j := 0, len(log)-1; k < j; k, j = k+1, j-1 {
			log[k], log[j] = log[j], log[k]
		}
		if !vEq(log, x) {
			v.fail("ForeachOrdered on %v calls on the reverse of %v", x, log)
		}
		m := v.r.Intn(6)
		p := func(e interface{}) bool { return vKey(e) == m }
		all, any := true, false
		for _, e := range x {
			all, any = all && p(e), any || p(e)
		}
		run("AnyMach", x, func(s *Stream) {
			if got := s.AnyMach(p); got != any {
				v.fail("AnyMach(key==%d) on %v = %v", m, x, got)
			}
		})
		q := func(e interface{}) bool { return vKey(e) != m }
		all = !any
		run("AllMach", x, func(s *Stream) {
			if got := s.AllMach(q); got != all {
				v.fail("AllMach(key!=%d) on %v = %v", m, x, got)
			}
		})
		ends := func(name string, at int, f func(s *Stream) (interface{}, error)) {
			run(name, x, func(s *Stream) {
				got, err := f(s)
				if len(x) == 0 {
					if !errors.Is(err, ErrNoElement) || got != nil {
						v.fail("%s on nothing = %v, %v", name, got, err)
					}
				} else if err != nil || got != x[at] {
					v.fail("%s on %v = %v, %v", name, x, got, err)
				}
			})
		}
		ends("FindFirst", 0, (*Stream).FindFirst)
		ends("FindLast", len(x)-1, (*Stream).FindLast)
		c := make(chan interface{})
		var given <-chan interface{}
		Range(c).Collection(CollectorFunc(func(d <-chan interface{}) { given = d }))
		if given != (<-chan interface{})(c) {
			v.fail("Collection hands over another channel")
		}
	}
}

func TestVerif_C22_parallel(t *testing.T) {
	v := vNew(t)
	defer v.end()
	rounds := vTier(120, 2500)
	for i := 0; i < rounds; i++ {
		var x []interface{}
		for k := v.r.Intn(40); k > 0; k-- {
			switch v.r.Intn(8) {
			case 0:
				x = append(x, nil)
			case 1:
				var l []interface{}
				for j := v.r.Intn(4); j > 0; j-- {
					l = append(l, v.r.Intn(99))
				}
				x = append(x, l)
			default:
				x = append(x, v.r.Intn(99))
			}
		}
		n := v.r.Intn(7) - 1
		opts := []Option{WithWorkSize(n)}
		if v.r.Intn(5) == 0 {
			opts = nil
			n = 1
		} else if v.r.Intn(5) == 0 {
			opts = []Option{WithOption(&Options{workSize: n})}
		}
		bound := int32(n)
		if bound < 1 {
			bound = 1
		}
		one := bound == 1
		slow := v.r.Intn(3)
		var in, max, left, late int32
		var mu sync.Mutex
		var calls []interface{}
		enter := func(e interface{}) {
			k := atomic.AddInt32(&in, 1)
			for {
				m := atomic.LoadInt32(&max)
				if k <= m || atomic.CompareAndSwapInt32(&max, m, k) {
					break
				}
			}
			mu.Lock()
			calls = append(calls, e)
			mu.Unlock()
			if slow == 0 {
				time.Sleep(100 * time.Microsecond)
			}
			if slow == 2 && i%8 == 0 { // let one more in than may run
				for u := 0; u < 20 && atomic.LoadInt32(&in) <= bound; u++ {
					time.Sleep(50 * time.Microsecond)
				}
			}
		}
		leave := func() {
			if slow == 1 {
				time.Sleep(50 * time.Microsecond)
			}
			atomic.AddInt32(&in, -1)
			atomic.AddInt32(&left, 1)
		}
		check := func(name string, got, want, wantCalls []interface{}, same bool) {
			v.evals++
			if late != 0 || atomic.LoadInt32(&in) != 0 {
				v.fail("%s(%d workers) on %v: the output ended with %d callbacks still running", name, n, x, late)
			}
			if m := atomic.LoadInt32(&max); m > bound {
				v.fail("%s(%d workers) on %v: %d callbacks at once", name, n, x, m)
			}
			mu.Lock()
			defer mu.Unlock()
			if !reflect.DeepEqual(vBag(calls), vBag(wantCalls)) {
				v.fail("%s(%d workers) on %v: called on %v", name, n, x, calls)
			}
			if !reflect.DeepEqual(vBag(got), vBag(want)) {
				v.fail("%s(%d workers) on %v = %v, want %v", name, n, x, got, want)
			}
			if same && one && !vEq(got, want) {
				v.fail("%s(one worker) on %v = %v, want %v", name, x, got, want)
			}
			calls, max, left, late = nil, 0, 0, 0
		}
		stage := func(name string, want, wantCalls []interface{}, f func(s *Stream) *Stream) {
			s := v.src(x, v.r.Intn(2))
			got, ok := vTake(f(s.s))
			late = atomic.LoadInt32(&in)
			if !ok {
				v.fail("%s(%d workers) on %v does not end", name, n, x)
				return
			}
			check(name, got, want, wantCalls, true)
		}
		twice := func(e interface{}) interface{} { return fmt.Sprint("m", e) }
		var mapped, kept, flat, members, doubled []interface{}
		for _, e := range x {
			mapped = append(mapped, twice(e))
			doubled = append(doubled, e, twice(e))
			if _, isInt := e.(int); isInt {
				kept = append(kept, e)
			}
			if l, isL := e.([]interface{}); isL {
				for _, m := range l {
					flat = append(flat, twice(m))
					members = append(members, m)
				}
			} else if e != nil {
				flat = append(flat, twice(e))
				members = append(members, e)
			}
		}
		mapf := func(e interface{}) interface{} { enter(e); defer leave(); return twice(e) }
		stage("Map", mapped, x, func(s *Stream) *Stream { return s.Map(mapf, opts...) })
		stage("FlatMap", flat, members, func(s *Stream) *Stream { return s.FlatMap(mapf, opts...) })
		stage("Filter", kept, x, func(s *Stream) *Stream {
			return s.Filter(func(e interface{}) bool {
				enter(e)
				defer leave()
				_, isInt := e.(int)
				return isInt
			}, opts...)
		})
		stage("Walk", doubled, x, func(s *Stream) *Stream {
			return s.Walk(func(e interface{}, pipe chan<- interface{}) {
				enter(e)
				pipe <- e
				pipe <- twice(e)
				leave()
			}, opts...)
		})
		s := v.src(x, 0)
		ended, p := vIn(func() {
			s.s.ParallelFinish(func(e interface{}) { enter(e); leave() }, opts...)
			late = atomic.LoadInt32(&in)
		})
		if !ended || p != nil {
			v.fail("ParallelFinish(%d workers) on %v: ended=%v panic=%v", n, x, ended, p)
			continue
		}
		check("ParallelFinish", nil, nil, x, false)
	}
}

func TestVerif_C23_consumed(t *testing.T) {
	v := vNew(t)
	defer v.end()
	rounds := vTier(200, 4000)
	for i := 0; i < rounds; i++ {
		x := v.input()
		n := v.r.Intn(len(x) + 3)
		left := func(name string, panics bool, f func(s *Stream)) {
			v.evals++
			s := v.src(x, v.r.Intn(2))
			ended, p := vIn(func() { f(s.s) })
			if !ended || (p != nil) != panics {
				v.fail("%s on %v: ended=%v panic=%v", name, x, ended, p)
				return
			}
			if !s.consumed() {
				v.fail("%s on %v leaves its producer blocked", name, x)
			}
		}
		ends := func(o *Stream) {
			if _, ok := vTake(o); !ok {
				v.fail("an output on %v does not end", x)
			}
		}
		left(fmt.Sprintf("Limit(%d)", n), false, func(s *Stream) { ends(s.Limit(n)) })
		left(fmt.Sprintf("Skip(%d)", n), false, func(s *Stream) { ends(s.Skip(n)) })
		left(fmt.Sprintf("Tail(%d)", n), false, func(s *Stream) { ends(s.Tail(n)) })
		left("Tail(-1)", true, func(s *Stream) { s.Tail(-1) })
		left("Skip(-1)", true, func(s *Stream) { s.Skip(-1) })
		left("SplitSteam(0)", true, func(s *Stream) { s.SplitSteam(0) })
		left("AnyMach", false, func(s *Stream) { s.AnyMach(func(e interface{}) bool { return vKey(e) == 1 }) })
		left("AllMach", false, func(s *Stream) { s.AllMach(func(e interface{}) bool { return vKey(e) == 1 }) })
		left("FindFirst", false, func(s *Stream) { _, _ = s.FindFirst() })
		left("FindLast", false, func(s *Stream) { _, _ = s.FindLast() })
		left("Walk", false, func(s *Stream) {
			ends(s.Walk(func(e interface{}, _ chan<- interface{}) {}, WithWorkSize(1+v.r.Intn(3))))
		})
		// Concat
		v.evals++
		k := v.r.Intn(4)
		srcs := make([]*vSrc, k+1)
		strs := make([]*Stream, k+1)
		want := 0
		lens := make([]int, k+1)
		for j := range srcs {
			y := make([]interface{}, v.r.Intn(20))
			for m := range y {
				y[m] = vItem{j, m}
			}
			lens[j] = len(y)
			want += len(y)
			srcs[j] = v.src(y, v.r.Intn(3))
			strs[j] = srcs[j].s
		}
		var o *Stream
		if i%2 == 0 {
			o = Concat(strs[0], strs[1:]...)
		} else {
			o = strs[0].Concat(strs[1:]...)
		}
		got, ok := vTake(o)
		next := make([]int, k+1)
		for _, e := range got {
			it, isItem := e.(vItem)
			if !isItem || it.id != next[it.key] {
				v.fail("Concat of %v elements: %v comes out of order in %v", lens, e, got)
				break
			}
			next[it.key]++
		}
		if !ok || len(got) != want {
			v.fail("Concat of %v elements yields %d, ended: %v", lens, len(got), ok)
		}
		for _, s := range srcs {
			if !s.consumed() {
				v.fail("Concat of %v elements leaves a producer blocked", lens)
			}
		}
	}
}
