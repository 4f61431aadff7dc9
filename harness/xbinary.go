package xbinary

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"os"
	"strconv"
	"testing"

	"github.com/chenquan/go-pkg/xbytes"
)

// vScribble: the other side uses buffers of the shared pool itself.
func vScribble(n int) {
	for _, k := range []int{1, 2, 4, n} {
		if k > 0 && k <= 1<<16 {
			b := xbytes.MallocSize(k)
			for i := range b {
				b[i] = 0xEE
			}
			xbytes.Free(b)
		}
	}
}

func vRounds(a, b int) int {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return b
	}
	return a
}

func vRand() *rand.Rand {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	return rand.New(rand.NewSource(int64(seed) + 3))
}

var vErr = errors.New("injected")

// vReader delivers data in chunks chosen by r, at the end err (possibly together with the last bytes).
type vReader struct {
	data  []byte
	pos   int
	r     *rand.Rand
	err   error
	with  bool // error together with the last bytes
	mode  int
	empty int
	calls int
}

func (v *vReader) Read(p []byte) (int, error) {
	v.calls++
	if len(p) == 0 {
		return 0, nil
	}
	if len(p) <= 64 || v.calls <= 2 {
		vScribble(len(p))
		defer vScribble(len(p))
	}
	if v.pos == len(v.data) {
		return 0, v.err
	}
	n := len(v.data) - v.pos
	if n > len(p) {
		n = len(p)
	}
	switch v.mode {
	case 1:
		n = 1
	case 2:
		if v.empty < 50 && v.r.Intn(2) == 0 {
			v.empty++
			return 0, nil
		}
		n = 1 + v.r.Intn(n)
	case 3:
		n = 1 + v.r.Intn(n)
	}
	copy(p, v.data[v.pos:v.pos+n])
	// the rest of the buffer may be used as scratch space
	for i := n; i < len(p); i++ {
		p[i] = 0xAA
	}
	v.pos += n
	if v.with && v.pos == len(v.data) {
		return n, v.err
	}
	return n, nil
}

// vWriter fails on call failAt after accepting part of the data.
type vWriter struct {
	bytes.Buffer
	calls  int
	failAt int
	accept int // bytes accepted by the failing call (-1: all)
	err    error
}

func (w *vWriter) Write(p []byte) (int, error) {
	w.calls++
	vScribble(len(p))
	if w.failAt == w.calls {
		n := w.accept
		if n < 0 || n > len(p) {
			n = len(p)
		}
		w.Buffer.Write(p[:n])
		return n, w.err
	}
	return w.Buffer.Write(p)
}

type vCase struct {
	name  string
	enc   []byte
	write func(w io.Writer) error
	read  func(r io.Reader) (string, string, error) // value, zero value
	want  string
}

func vCases(r *rand.Rand, full bool) []vCase {
	var cs []vCase
	u16 := func(i uint16) {
		cs = append(cs, vCase{fmt.Sprintf("Uint16(%d)", i), []byte{byte(i >> 8), byte(i)}, func(w io.Writer) error { return WriteUint16(w, i) },
			func(r io.Reader) (string, string, error) { v, e := ReadUint16(r); return fmt.Sprint(v), "0", e }, fmt.Sprint(i)})
	}
	u32 := func(i uint32) {
		cs = append(cs, vCase{fmt.Sprintf("Uint32(%d)", i), []byte{byte(i >> 24), byte(i >> 16), byte(i >> 8), byte(i)}, func(w io.Writer) error { return WriteUint32(w, i) },
			func(r io.Reader) (string, string, error) { v, e := ReadUint32(r); return fmt.Sprint(v), "0", e }, fmt.Sprint(i)})
	}
	bl := func(b bool) {
		e := []byte{0}
		if b {
			e[0] = 1
		}
		cs = append(cs, vCase{fmt.Sprintf("Bool(%v)", b), e, func(w io.Writer) error { return WriteBool(w, b) },
			func(r io.Reader) (string, string, error) { v, e := ReadBool(r); return fmt.Sprint(v), "false", e }, fmt.Sprint(b)})
	}
	by := func(n int) {
		p := make([]byte, n)
		r.Read(p)
		enc := append([]byte{byte(n >> 8), byte(n)}, p...)
		cs = append(cs, vCase{fmt.Sprintf("Bytes(len %d)", n), enc, func(w io.Writer) error { return WriteBytes(w, p) },
			func(r io.Reader) (string, string, error) {
				v, e := ReadBytes(r)
				s := string(v)
				// the result belongs to the caller: later reads must not change it
				for i := 0; i < 3; i++ {
					b := make([]byte, n+2)
					b[0], b[1] = byte(n>>8), byte(n)
					ReadBytes(bytes.NewReader(b))
					WriteBytes(&bytes.Buffer{}, b)
				}
				if string(v) != s {
					e = fmt.Errorf("the slice returned by ReadBytes was changed by later calls")
				}
				if e != nil && v != nil {
					s = "non-nil slice"
				}
				return s, "", e
			}, string(p)})
	}
	bl(true)
	bl(false)
	for _, i := range []uint32{0, 1, 2, 255, 256, 257, 32767, 32768, 65534, 65535, 65536, 1 << 23, 1 << 24, 1<<24 + 1, 1<<31 - 1, 1 << 31, 1<<32 - 1, 0x01020304, 0xF0E0D0C0} {
		u32(i)
		u16(uint16(i))
	}
	for _, n := range []int{0, 1, 2, 3, 4, 127, 128, 255, 256, 257, 1000} {
		by(n)
	}
	if full {
		for _, n := range []int{32767, 32768, 65534, 65535} {
			by(n)
		}
	}
	for i := 0; i < 20; i++ {
		u32(r.Uint32())
		u16(uint16(r.Uint32()))
		by(r.Intn(3000))
	}
	return cs
}

func TestVerif_C03_roundtrip(t *testing.T) {
	evals, fails := 0, 0
	defer func() { fmt.Printf("VERIF-EVAL %d\n", evals) }()
	fail := func(f string, a ...interface{}) {
		fails++
		if fails < 12 {
			fmt.Printf("VERIF-FAIL "+f+"\n", a...)
		}
		t.Fail()
	}
	r := vRand()
	for k := 0; k < vRounds(40, 1500); k++ {
		for _, c := range vCases(r, k%20 == 0) {
			evals++
			w := &vWriter{}
			if err := c.write(w); err != nil || !bytes.Equal(w.Bytes(), c.enc) {
				fail("Write%s wrote % x, %v; want % x", c.name, trunc(w.Bytes()), err, trunc(c.enc))
			}
			rest := make([]byte, r.Intn(5))
			rd := &vReader{data: append(append([]byte{}, c.enc...), rest...), r: r, err: io.EOF, mode: r.Intn(4), with: r.Intn(2) == 0}
			v, _, err := c.read(rd)
			if err != nil || v != c.want {
				fail("Read%s = %q, %v", c.name, trunc([]byte(v)), err)
			}
			if rd.pos != len(c.enc) {
				fail("Read%s consumed %d bytes, encoding has %d", c.name, rd.pos, len(c.enc))
			}
		}
	}
	if vRounds(0, 1) == 1 || true {
		for i := 0; i < 65536; i++ {
			evals++
			var b bytes.Buffer
			if err := WriteUint16(&b, uint16(i)); err != nil || b.Len() != 2 || int(b.Bytes()[0])*256+int(b.Bytes()[1]) != i {
				fail("WriteUint16(%d) wrote % x, %v", i, b.Bytes(), err)
			}
			if v, err := ReadUint16(&b); err != nil || int(v) != i {
				fail("ReadUint16 of %d = %d, %v", i, v, err)
			}
		}
	}
	for _, n := range []int{65536, 65537, 65538, 70000, 131071, 131072, 131073, 1 << 20} {
		evals++
		w := &vWriter{}
		if err := WriteBytes(w, make([]byte, n)); err == nil || w.calls != 0 || w.Len() != 0 {
			fail("WriteBytes of %d bytes: %v, wrote %d bytes in %d calls", n, err, w.Len(), w.calls)
		}
	}
	// a byte other than 1 is no true
	for i := 0; i < 256; i++ {
		evals++
		if v, err := ReadBool(bytes.NewReader([]byte{byte(i)})); err != nil || v != (i == 1) {
			fail("ReadBool of byte %d = %v, %v", i, v, err)
		}
	}
}

func trunc(b []byte) []byte {
	if len(b) > 12 {
		return b[:12]
	}
	return b
}

func TestVerif_C04_faults(t *testing.T) {
	evals, fails := 0, 0
	defer func() { fmt.Printf("VERIF-EVAL %d\n", evals) }()
	fail := func(f string, a ...interface{}) {
		fails++
		if fails < 12 {
			fmt.Printf("VERIF-FAIL "+f+"\n", a...)
		}
		t.Fail()
	}
	r := vRand()
	errs := []error{io.EOF, io.ErrUnexpectedEOF, vErr, io.ErrShortWrite, ErrInvalidLength, io.ErrNoProgress}
	for k := 0; k < vRounds(25, 900); k++ {
		for _, c := range vCases(r, false) {
			// every truncation near the ends, some in the middle
			var cuts []int
			for i := 0; i < len(c.enc) && i < 6; i++ {
				cuts = append(cuts, i)
			}
			if len(c.enc) > 6 {
				cuts = append(cuts, len(c.enc)-1, len(c.enc)-2, r.Intn(len(c.enc)))
			}
			for _, cut := range cuts {
				for _, with := range []bool{false, true} {
					evals++
					e := errs[r.Intn(len(errs))]
					rd := &vReader{data: c.enc[:cut], r: r, err: e, with: with, mode: r.Intn(4)}
					v, zero, err := c.read(rd)
					if err == nil {
						fail("Read%s of only %d of %d bytes, then %v: nil error, value %q", c.name, cut, len(c.enc), e, trunc([]byte(v)))
					} else if v != zero {
						fail("Read%s of only %d of %d bytes, then %v: value %q with error %v", c.name, cut, len(c.enc), e, trunc([]byte(v)), err)
					}
				}
			}
			// complete data, possibly together with an error: a nil error needs the right value
			evals++
			rd := &vReader{data: c.enc, r: r, err: errs[r.Intn(len(errs))], with: true, mode: r.Intn(4)}
			v, zero, err := c.read(rd)
			if err == nil && v != c.want {
				fail("Read%s = %q with nil error", c.name, trunc([]byte(v)))
			}
			if err != nil && v != zero {
				fail("Read%s = %q with error %v", c.name, trunc([]byte(v)), err)
			}
			// writers failing at any call
			for at := 1; at <= 3; at++ {
				evals++
				w := &vWriter{failAt: at, accept: r.Intn(4) - 1, err: errs[r.Intn(len(errs))]}
				err := c.write(w)
				if w.calls >= at && err == nil {
					fail("Write%s: the writer failed in call %d with %v, nil error returned", c.name, at, w.err)
				}
				if w.calls < at && err != nil {
					fail("Write%s: error %v from a writer that did not fail", c.name, err)
				}
			}
		}
	}
}
