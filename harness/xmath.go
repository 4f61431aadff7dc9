package xmath

import (
	"fmt"
	"math"
	"testing"
)

func TestVerif_C07_minmax(t *testing.T) {
	n := 0
	defer func() { fmt.Printf("VERIF-EVAL %d\n", n) }()
	bad := func(f string, a, b, g, w interface{}) {
		fmt.Printf("VERIF-FAIL %s(%v,%v) = %v, want %v\n", f, a, b, g, w)
		t.Fail()
	}
	var is []int64
	for e := uint(0); e < 64; e++ {
		for d := int64(-2); d <= 2; d++ {
			is = append(is, int64(uint64(1)<<e)+d, -int64(uint64(1)<<e)+d)
		}
	}
	for _, a := range is {
		for _, b := range is {
			mx, mn := a, b
			if b > a {
				mx, mn = b, a
			}
			n += 4
			if g := MaxInt64(a, b); g != mx {
				bad("MaxInt64", a, b, g, mx)
			}
			if g := MinInt64(a, b); g != mn {
				bad("MinInt64", a, b, g, mn)
			}
			if g := MaxInt(int(a), int(b)); g != int(mx) {
				bad("MaxInt", a, b, g, mx)
			}
			if g := MinInt(int(a), int(b)); g != int(mn) {
				bad("MinInt", a, b, g, mn)
			}
			if t.Failed() {
				return
			}
		}
	}
	fs := []float64{0, math.Copysign(0, -1), 1, -1, 1.5, -2.25, math.Inf(1), math.Inf(-1), math.NaN(), math.MaxFloat64, -math.MaxFloat64, math.SmallestNonzeroFloat64, -math.SmallestNonzeroFloat64, math.MaxFloat32, -math.MaxFloat32, math.SmallestNonzeroFloat32, 1e-310, 1 << 53, 1<<53 + 2, -(1 << 53), 1 << 24, 1<<24 + 2, 3.0000000000000004, 3}
	same := func(a, b float64) bool {
		return math.IsNaN(a) && math.IsNaN(b) || a == b && math.Signbit(a) == math.Signbit(b)
	}
	for _, a := range fs {
		for _, b := range fs {
			n += 4
			if g, w := MaxFloat64(a, b), math.Max(a, b); !same(g, w) {
				bad("MaxFloat64", a, b, g, w)
			}
			if g, w := MinFloat64(a, b), math.Min(a, b); !same(g, w) {
				bad("MinFloat64", a, b, g, w)
			}
			c, d := float32(a), float32(b)
			if g, w := MaxFloat32(c, d), float32(math.Max(float64(c), float64(d))); !same(float64(g), float64(w)) {
				bad("MaxFloat32", c, d, g, w)
			}
			if g, w := MinFloat32(c, d), float32(math.Min(float64(c), float64(d))); !same(float64(g), float64(w)) {
				bad("MinFloat32", c, d, g, w)
			}
		}
	}
}
