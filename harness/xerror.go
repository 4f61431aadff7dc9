package xerror

import (
	"context"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"os"
	"strconv"
	"strings"
	"testing"
)

type vErr struct{ s string }

func (e vErr) Error() string { return e.s }

type vPtrErr struct{ s string }

func (e *vPtrErr) Error() string { return "p:" + e.s }

func TestVerif_C06_batch(t *testing.T) {
	n := 0
	defer func() { fmt.Printf("VERIF-EVAL %d\n", n) }()
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	r := rand.New(rand.NewSource(int64(seed) + 5))
	rounds := 20000
	if os.Getenv("VERIF_TIER") == "thorough" {
		rounds = 400000
	}
	fails := 0
	for k := 0; k < rounds; k++ {
		var be BatchError
		var want []error
		l := r.Intn(7)
		if k%500 == 0 {
			l = 20 + r.Intn(300)
		}
		hist := ""
		check := func() {
			defer func() {
				if p := recover(); p != nil {
					fails++
					fmt.Printf("VERIF-FAIL after Add%s: panic %v\n", hist, p)
					t.Fail()
				}
			}()
			n++
			bad := ""
			e := be.Err()
			if be.NotNil() != (len(want) > 0) {
				bad = "NotNil wrong"
			}
			switch len(want) {
			case 0:
				if e != nil {
					bad = fmt.Sprintf("Err() = %v, want nil", e)
				}
			case 1:
				if e != want[0] {
					bad = fmt.Sprintf("Err() = %v, want the single error", e)
				}
			default:
				var m []string
				for _, w := range want {
					m = append(m, w.Error())
				}
				if e == nil || e.Error() != strings.Join(m, "\n") {
					bad = fmt.Sprintf("Err() = %q, want %q", fmt.Sprint(e), strings.Join(m, "\n"))
				}
			}
			if bad != "" {
				fails++
				fmt.Printf("VERIF-FAIL after Add%s: %s\n", hist, bad)
				t.Fail()
			}
		}
		check()
		for i := 0; i < l && fails < 8; i++ {
			var e error
			switch r.Intn(8) {
			case 0:
			case 6:
				e = []error{io.EOF, io.ErrClosedPipe, os.ErrClosed, context.Canceled, context.DeadlineExceeded, os.ErrNotExist}[r.Intn(6)]
			case 7:
				e = fmt.Errorf("w: %w", io.EOF)
			case 1:
				e = errors.New("e" + strconv.Itoa(i))
			case 2:
				e = vErr{"same"}
			case 3:
				e = &vPtrErr{"é" + strconv.Itoa(i)}
			case 4:
				e = errors.New("")
			default:
				e = fmt.Errorf("multi\nline %d", i)
			}
			hist += fmt.Sprintf("(%v)", e)
			if len(hist) > 200 {
				hist = "…" + hist[len(hist)-150:]
			}
			be.Add(e)
			if e != nil {
				want = append(want, e)
			}
			if l < 10 || i%17 == 0 || i == l-1 {
				check()
			}
		}
	}
}
