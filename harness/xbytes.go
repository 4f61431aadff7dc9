package xbytes

// race: C05

import (
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"sync"
	"testing"
)

func TestVerif_C05_history(t *testing.T) {
	var mu sync.Mutex
	evals, fails := 0, 0
	defer func() { fmt.Printf("VERIF-EVAL %d\n", evals) }()
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	fail := func(f string, a ...interface{}) {
		mu.Lock()
		defer mu.Unlock()
		fails++
		if fails < 12 {
			fmt.Printf("VERIF-FAIL "+f+"\n", a...)
		}
		t.Fail()
	}
	rounds := 4000
	if os.Getenv("VERIF_TIER") == "thorough" {
		rounds = 80000
	}
	caps := []int{0, 1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 4096, 65535, 65536, 70000}
	type held struct {
		b   []byte
		tag byte
	}
	run := func(r *rand.Rand, rounds int, id int) {
		hist := ""
		defer func() {
			if p := recover(); p != nil {
				fail("panic %v after%s", p, hist)
			}
		}()
		var hs []held
		verify := func(h held) bool {
			b := h.b[:cap(h.b)]
			for i := range b {
				if b[i] != h.tag {
					fail("a buffer (cap %d) owned by one caller was changed by another (byte %d is %d, want %d) after%s", cap(b), i, b[i], h.tag, hist)
					return false
				}
			}
			return true
		}
		n := 0
		for k := 0; k < rounds; k++ {
			n++
			if len(hist) > 400 {
				hist = hist[len(hist)-400:]
			}
			switch q := r.Intn(10); {
			case q < 5:
				pick := func() int {
					if r.Intn(3) == 0 {
						return r.Intn(300)
					}
					return caps[r.Intn(len(caps))]
				}
				size, c := pick(), pick()
				if r.Intn(6) == 0 {
					c = -r.Intn(5)
				}
				var b []byte
				if r.Intn(3) == 0 {
					c = size
					hist += fmt.Sprintf(" MallocSize(%d)", size)
					b = MallocSize(size)
				} else {
					hist += fmt.Sprintf(" Malloc(%d,%d)", size, c)
					b = Malloc(size, c)
				}
				want := size
				if c > size {
					want = c
				}
				if len(b) != size || cap(b) != want {
					fail("len %d cap %d, want %d %d, after%s", len(b), cap(b), size, want, hist)
				}
				tag := byte(id*50 + k%50)
				full := b[:cap(b)]
				for i := range full {
					full[i] = tag
				}
				hs = append(hs, held{b, tag})
			case q < 9 && len(hs) > 0:
				i := r.Intn(len(hs))
				h := hs[i]
				hs[i] = hs[len(hs)-1]
				hs = hs[:len(hs)-1]
				if !verify(h) {
					return
				}
				b := h.b
				switch r.Intn(4) {
				case 0:
					if len(b) > 0 {
						b = b[:r.Intn(len(b)+1)]
					}
				case 1: // a part of it: smaller capacity
					if cap(b) > 0 {
						k := r.Intn(cap(b))
						b = b[:cap(b)][k:]
					}
				case 2:
					if cap(b) > 0 {
						k := r.Intn(cap(b))
						b = b[:cap(b)][:k:k]
					}
				}
				hist += fmt.Sprintf(" Free(len %d cap %d)", len(b), cap(b))
				Free(b)
			case q == 9:
				c := caps[r.Intn(len(caps))]
				hist += fmt.Sprintf(" Free(make(%d,%d))", c/2, c)
				Free(make([]byte, c/2, c))
				if r.Intn(5) == 0 {
					Free(nil)
				}
			}
			if len(hs) > 40 {
				for _, h := range hs {
					if !verify(h) {
						return
					}
				}
				hs = hs[:20:20]
			}
		}
		for _, h := range hs {
			verify(h)
		}
		mu.Lock()
		evals += n
		mu.Unlock()
	}
	run(rand.New(rand.NewSource(int64(seed))), rounds, 0)
	var wg sync.WaitGroup
	for g := 0; g < 5; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			run(rand.New(rand.NewSource(int64(seed*10+g))), rounds/3, g)
		}(g)
	}
	wg.Wait()
}
