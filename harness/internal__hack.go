package hack

import (
	"bytes"
	"fmt"
	"runtime"
	"strings"
	"testing"
)

func TestVerif_C34_puns(t *testing.T) {
	n := 0
	defer func() { fmt.Printf("VERIF-EVAL %d\n", n) }()
	one := func(s string) {
		b := StringToBytes(s)
		runtime.GC()
		if string(b) != s || len(b) != len(s) || cap(b) != len(s) {
			fmt.Printf("VERIF-FAIL StringToBytes(%.40q): len %d cap %d, want %d equal bytes\n", s, len(b), cap(b), len(s))
			t.Fail()
		}
		for _, extra := range []int{0, 1, 9} {
			in := make([]byte, len(s), len(s)+extra)
			copy(in, s)
			g := BytesToString(in)
			runtime.KeepAlive(in)
			if g != s || !bytes.Equal([]byte(g), in) {
				fmt.Printf("VERIF-FAIL BytesToString(%.40q, cap %d) = %.40q\n", in, cap(in), g)
				t.Fail()
			}
			if len(s) > 2 {
				if g := BytesToString(in[1 : len(in)-1]); g != s[1:len(s)-1] {
					fmt.Printf("VERIF-FAIL BytesToString(%.40q) = %.40q\n", in[1:len(in)-1], g)
					t.Fail()
				}
				if b := StringToBytes(s[1 : len(s)-1]); string(b) != s[1:len(s)-1] || cap(b) != len(b) {
					fmt.Printf("VERIF-FAIL StringToBytes(%.40q) = %.40q cap %d\n", s[1:len(s)-1], b, cap(b))
					t.Fail()
				}
			}
			n += 2
		}
	}
	if g := BytesToString(nil); g != "" {
		fmt.Printf("VERIF-FAIL BytesToString(nil) = %q\n", g)
		t.Fail()
	}
	one("")
	for _, l := range []int{1, 2, 3, 7, 8, 15, 16, 31, 32, 33, 63, 64, 65, 127, 128, 255, 256, 257, 1023, 1024, 4096, 65535, 65536, 1 << 20} {
		one(strings.Repeat("a", l))
		one(strings.Repeat("\xff\x00z", l)[:l])
		one(strings.Repeat("世é", l)[:l])
	}
	for c := 0; c < 256; c++ {
		one(string([]byte{byte(c)}))
	}
}
