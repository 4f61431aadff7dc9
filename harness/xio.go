package xio

// race: C33

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"os"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
)

type vFailW struct{}

func (vFailW) Write(p []byte) (int, error) { return 0, errors.New("write fails") }

func TestVerif_C33_history(t *testing.T) {
	var mu sync.Mutex
	evals, fails := 0, 0
	defer func() { fmt.Printf("VERIF-EVAL %d\n", evals) }()
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	fail := func(f string, a ...interface{}) {
		mu.Lock()
		defer mu.Unlock()
		fails++
		if fails < 12 {
			fmt.Printf("VERIF-FAIL "+f+"\n", a...)
		}
		t.Fail()
	}
	rounds := 3000
	if os.Getenv("VERIF_TIER") == "thorough" {
		rounds = 60000
	}
	run := func(r *rand.Rand, rounds int) {
		hist := ""
		defer func() {
			if p := recover(); p != nil {
				fail("panic %v after %s", p, hist)
			}
		}()
		sizes := []int{0, 1, 15, 16, 17, 100, 4095, 4096, 4097, 10000}
		var heldR []*bufio.Reader
		var heldW []*bufio.Writer
		var wbuf []*bytes.Buffer
		var wwant []string
		for k := 0; k < rounds; k++ {
			mu.Lock()
			evals++
			mu.Unlock()
			if len(hist) > 300 {
				hist = hist[len(hist)-300:]
			}
			text := strings.Repeat(string(rune('a'+k%26)), 1+r.Intn(60)) + strconv.Itoa(k)
			switch r.Intn(4) {
			case 0, 1:
				var src io.Reader = strings.NewReader(text)
				var own *bufio.Reader
				if r.Intn(4) == 0 {
					own = bufio.NewReaderSize(src, 16+r.Intn(6000))
					src = own
				}
				size := 0
				var br *bufio.Reader
				if r.Intn(2) == 0 {
					size = sizes[r.Intn(len(sizes))]
					hist += fmt.Sprintf(" GetBufferReaderSize(%T,%d)", src, size)
					br = GetBufferReaderSize(src, size)
				} else {
					hist += fmt.Sprintf(" GetBufferReader(%T)", src)
					br = GetBufferReader(src)
				}
				if br == nil || br.Size() < size {
					fail("GetBufferReaderSize(%d): buffer of %d after%s", size, br.Size(), hist)
				}
				if br == own {
					fail("GetBufferReader returned the caller's own reader after%s", hist)
				}
				for _, h := range heldR {
					if h == br {
						fail("reader handed out twice after%s", hist)
					}
				}
				if r.Intn(3) > 0 {
					b, err := io.ReadAll(br)
					if err != nil || string(b) != text {
						fail("reader delivers %q, %v; want %q; after%s", b, err, text, hist)
					}
				} else {
					b, err := br.ReadByte()
					if err != nil || b != text[0] {
						fail("reader delivers %q, %v; want %q; after%s", b, err, text[0], hist)
					}
					if r.Intn(2) == 0 {
						br.UnreadByte()
					}
				}
				if r.Intn(3) == 0 && len(heldR) < 5 {
					heldR = append(heldR, br)
				} else {
					hist += " PutBufferReader"
					PutBufferReader(br)
				}
			case 2, 3:
				dst := &bytes.Buffer{}
				var w io.Writer = dst
				bad := r.Intn(6) == 0
				var own *bufio.Writer
				if bad {
					w = vFailW{}
				} else if r.Intn(5) == 0 {
					own = bufio.NewWriterSize(dst, 16+r.Intn(6000))
					w = own
				}
				size := 0
				var bw *bufio.Writer
				if r.Intn(2) == 0 {
					size = sizes[r.Intn(len(sizes))]
					hist += fmt.Sprintf(" GetBufferWriterSize(%T,%d)", w, size)
					bw = GetBufferWriterSize(w, size)
				} else {
					hist += fmt.Sprintf(" GetBufferWriter(%T)", w)
					bw = GetBufferWriter(w)
				}
				if bw == own {
					fail("GetBufferWriter returned the caller's own writer after%s", hist)
				}
				if bw.Size() < size {
					fail("GetBufferWriterSize(%d): buffer of %d after%s", size, bw.Size(), hist)
				}
				if bw.Buffered() != 0 {
					fail("writer starts with %d buffered bytes after%s", bw.Buffered(), hist)
				}
				for _, h := range heldW {
					if h == bw {
						fail("writer handed out twice after%s", hist)
					}
				}
				_, err := bw.WriteString(text)
				if err != nil && !bad {
					fail("writer starts with error %v after%s", err, hist)
				}
				switch {
				case bad:
					if bw.Flush() == nil {
						fail("write to a failing destination succeeded after%s", hist)
					}
					PutBufferWriter(bw)
				case r.Intn(4) == 0: // dropped without flush
					PutBufferWriter(bw)
				case r.Intn(4) == 0 && len(heldW) < 5 && own == nil:
					heldW, wbuf, wwant = append(heldW, bw), append(wbuf, dst), append(wwant, text)
				default:
					if err := bw.Flush(); err != nil {
						fail("flush: %v after%s", err, hist)
					}
					if own != nil {
						own.Flush()
					}
					if dst.String() != text {
						fail("destination got %q want %q after%s", dst.String(), text, hist)
					}
					PutBufferWriter(bw)
					if dst.String() != text {
						fail("destination got %q want %q after Put, after%s", dst.String(), text, hist)
					}
					if own != nil {
						dst.Reset()
						own.WriteString("more")
						if own.Flush() != nil || dst.String() != "more" {
							fail("the caller's own writer was broken by Put, after%s", hist)
						}
					}
				}
			}
			if r.Intn(10) == 0 {
				for _, h := range heldR {
					PutBufferReader(h)
				}
				heldR = nil
				for i, h := range heldW {
					h.Flush()
					if wbuf[i].String() != wwant[i] {
						fail("held writer delivered %q want %q after%s", wbuf[i].String(), wwant[i], hist)
					}
					PutBufferWriter(h)
				}
				heldW, wbuf, wwant = nil, nil, nil
			}
		}
	}
	run(rand.New(rand.NewSource(int64(seed))), rounds)
	// a pooled object keeps no reference: using it after Put cannot reach the old source or destination
	for i := 0; i < 200; i++ {
		evals++
		func() {
			src := strings.NewReader("abcdefgh")
			br := GetBufferReader(src)
			br.ReadByte()
			PutBufferReader(br)
			func() {
				defer func() { recover() }()
				if b, err := br.ReadByte(); err == nil {
					fail("a reader that was put back still delivers %q", b)
				}
			}()
			dst := &bytes.Buffer{}
			bw := GetBufferWriter(dst)
			bw.WriteString("old")
			PutBufferWriter(bw)
			func() {
				defer func() { recover() }()
				bw.WriteString("x")
				bw.Flush()
			}()
			if dst.Len() != 0 {
				fail("a writer that was put back still writes %q to its old destination", dst.String())
			}
			// forget this object again
			bufReaderPool.Get()
			bufWriterPool.Get()
		}()
	}
	var wg sync.WaitGroup
	for g := 0; g < 4; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			run(rand.New(rand.NewSource(int64(seed*10+g))), rounds/4)
		}(g)
	}
	wg.Wait()
}

// Several goroutines use the pooled readers and writers at once, each on its own streams.
func TestVerif_C33_concurrent(t *testing.T) {
	evals := int64(0)
	defer func() { fmt.Printf("VERIF-EVAL %d\n", atomic.LoadInt64(&evals)) }()
	var fails int32
	fail := func(f string, a ...interface{}) {
		if atomic.AddInt32(&fails, 1) < 12 {
			fmt.Printf("VERIF-FAIL "+f+"\n", a...)
		}
		t.Fail()
	}
	rounds := 1500
	if os.Getenv("VERIF_TIER") == "thorough" {
		rounds = 30000
	}
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		g := g
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if p := recover(); p != nil {
					fail("panic while several goroutines use pooled readers and writers: %v", p)
				}
			}()
			for k := 0; k < rounds && atomic.LoadInt32(&fails) == 0; k++ {
				atomic.AddInt64(&evals, 1)
				var out [2]bytes.Buffer
				var bw [2]*bufio.Writer
				var br [2]*bufio.Reader
				want := [2]string{fmt.Sprint("a", g, ".", k), fmt.Sprint("b", k, ".", g)}
				for i := range bw {
					if k%3 == 0 {
						bw[i] = GetBufferWriterSize(&out[i], 64)
						br[i] = GetBufferReaderSize(strings.NewReader(want[i]), 64)
					} else {
						bw[i] = GetBufferWriter(&out[i])
						br[i] = GetBufferReader(strings.NewReader(want[i]))
					}
				}
				for i := range bw {
					_, _ = bw[i].WriteString(want[i])
					if k%4 == 0 {
						runtime.Gosched()
					}
					if err := bw[i].Flush(); err != nil || out[i].String() != want[i] {
						fail("a pooled writer used by one of several goroutines wrote %q (%v), want %q", out[i].String(), err, want[i])
					}
					if b, err := io.ReadAll(br[i]); err != nil || string(b) != want[i] {
						fail("a pooled reader used by one of several goroutines read %q (%v), want %q", b, err, want[i])
					}
				}
				for i := range bw {
					PutBufferWriter(bw[i])
					PutBufferReader(br[i])
				}
			}
		}()
	}
	wg.Wait()
}
