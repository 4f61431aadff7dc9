package xstring

// Bounded replay harness for the xstring properties: the real functions against
// independent reference definitions on []rune. It proves nothing; it turns a
// failed obligation into a failing input.

import (
	"fmt"
	"math"
	"math/rand"
	"os"
	"sort"
	"strconv"
	"strings"
	"testing"
	"unicode"
	"unicode/utf8"
)

var vAlpha = []rune{'a', 'B', 'A', ' ', '1', 'é', 'É', '世', '\u00a0', '\U0001F600', '\uFFFD', '_', 'K', '\u212a', 'ſ', 's', '\u0000', '\u3000', '\u0660', '\u2160', '-'}

type vT struct {
	t *testing.T
	n int
	f int
}

func vNew(t *testing.T) *vT { return &vT{t: t} }
func (v *vT) done()         { fmt.Printf("VERIF-EVAL %d\n", v.n) }
func (v *vT) fail(f string, a ...interface{}) {
	v.f++
	fmt.Printf("VERIF-FAIL "+f+"\n", a...)
	v.t.Fail()
	if v.f > 8 {
		v.t.FailNow()
	}
}
func (v *vT) str(what string, got, want string) {
	v.n++
	if got != want {
		v.fail("%s = %q, want %q", what, got, want)
	}
}
func (v *vT) eq(what func() string, ok bool) {
	v.n++
	if !ok {
		v.fail("%s", what())
	}
}

// guard reports a panic of the code under test as a failure of that input
func (v *vT) call(what func() string, f func()) {
	defer func() {
		if p := recover(); p != nil {
			if fmt.Sprint(p) == "" {
				panic(p)
			}
			v.fail("%s panics: %v", what(), p)
		}
	}()
	f()
}
func vQuick() bool { return os.Getenv("VERIF_TIER") != "thorough" }
func vRand() *rand.Rand {
	s, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	return rand.New(rand.NewSource(int64(s) + 77))
}

// vStrings: all strings over a small alphabet up to a length, plus random and long ones
func vStrings(maxLen, alpha int) []string {
	res := []string{""}
	cur := []string{""}
	for l := 0; l < maxLen; l++ {
		var nxt []string
		for _, c := range cur {
			for _, a := range vAlpha[:alpha] {
				nxt = append(nxt, c+string(a))
			}
		}
		res = append(res, nxt...)
		cur = nxt
	}
	r := vRand()
	for i := 0; i < 120; i++ {
		n := 1 + r.Intn(14)
		var b strings.Builder
		for k := 0; k < n; k++ {
			b.WriteRune(vAlpha[r.Intn(len(vAlpha))])
		}
		res = append(res, b.String())
	}
	for _, n := range []int{31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 1023, 1024, 1025, 4099} {
		var b, c strings.Builder
		for k := 0; k < n; k++ {
			b.WriteRune(vAlpha[r.Intn(len(vAlpha))])
			c.WriteByte(byte('a' + k%26))
		}
		res = append(res, b.String(), c.String())
	}
	for _, a := range vAlpha {
		res = append(res, string(a), strings.Repeat(string(a), 3), "x"+string(a)+"x")
	}
	return res
}

func vInts(m int) []int {
	s := map[int]bool{}
	for i := -m - 3; i <= m+3; i++ {
		if m < 20 || i < -m+3 || (i > -4 && i < 4) || i > m-4 {
			s[i] = true
		}
	}
	for _, x := range []int{math.MinInt64, math.MinInt64 + 1, math.MaxInt64, math.MaxInt64 - 1, math.MaxInt32, math.MinInt32, math.MaxInt32 + 1, -math.MaxInt64, 255, 256, 257, 65535, 65536, 1 << 32, 1<<32 + 1, -1 << 32, 2 * m, 3*m + 1, -2 * m, -3*m - 1} {
		s[x] = true
	}
	var l []int
	for x := range s {
		l = append(l, x)
	}
	sort.Ints(l)
	return l
}
func vClamp(x, m int) int {
	if x < 0 {
		x += m // x<0, m>=0: cannot overflow
		if x < 0 {
			x = 0
		}
	}
	if x > m {
		x = m
	}
	return x
}

func TestVerif_C24_sub(t *testing.T) {
	v := vNew(t)
	defer v.done()
	for _, s := range vStrings(2, len(vAlpha)) {
		r := []rune(s)
		m := len(r)
		v.eq(func() string { return fmt.Sprintf("Len(%q) = %d, want %d", s, Len(s), m) }, Len(s) == m)
		is := vInts(m)
		for _, a := range is {
			v.call(func() string { return fmt.Sprintf("Left(%q,%d)", s, a) }, func() {
				v.str(fmt.Sprintf("Left(%q,%d)", s, a), Left(s, a), string(r[:vClamp(a, m)]))
			})
			v.call(func() string { return fmt.Sprintf("Right(%q,%d)", s, a) }, func() {
				v.str(fmt.Sprintf("Right(%q,%d)", s, a), Right(s, a), string(r[vClamp(a, m):]))
			})
			if m > 300 && a%3 == 0 {
				continue
			}
			for _, b := range is {
				x, y := vClamp(a, m), vClamp(b, m)
				w := ""
				if x < y {
					w = string(r[x:y])
				}
				v.call(func() string { return fmt.Sprintf("Sub(%q,%d,%d)", s, a, b) }, func() {
					v.n++
					if g := Sub(s, a, b); g != w {
						v.fail("Sub(%q,%d,%d) = %q, want %q", s, a, b, g, w)
					}
				})
			}
		}
	}
}

func TestVerif_C25_permute(t *testing.T) {
	v := vNew(t)
	defer v.done()
	for _, s := range vStrings(3, 9) {
		r := []rune(s)
		m := len(r)
		w := make([]rune, m)
		for i, c := range r {
			w[m-1-i] = c
		}
		v.call(func() string { return fmt.Sprintf("Reverse(%q)", s) }, func() {
			g, err := Reverse(s)
			v.eq(func() string { return fmt.Sprintf("Reverse(%q) = %q, %v, want %q, nil", s, g, err, string(w)) }, g == string(w) && err == nil)
			v.str(fmt.Sprintf("MustReverse(%q)", s), MustReverse(s), string(w))
		})
		if m <= 3 || m > 20 {
			for _, k := range vInts(m) {
				want := s
				if m > 0 {
					p := ((k % m) + m) % m
					x := make([]rune, m)
					for i, c := range r {
						x[(i+p)%m] = c
					}
					want = string(x)
				}
				v.call(func() string { return fmt.Sprintf("Rotate(%q,%d)", s, k) }, func() {
					v.n++
					if g := Rotate(s, k); g != want {
						v.fail("Rotate(%q,%d) = %q, want %q", s, k, g, want)
					}
				})
			}
		}
		a := append([]rune{}, r...)
		sort.Slice(a, func(i, j int) bool { return a[i] < a[j] })
		for k := 0; k < 3; k++ {
			v.call(func() string { return fmt.Sprintf("Shuffle(%q)", s) }, func() {
				g := Shuffle(s)
				b := []rune(g)
				sort.Slice(b, func(i, j int) bool { return b[i] < b[j] })
				v.eq(func() string { return fmt.Sprintf("Shuffle(%q) = %q is not a permutation", s, g) }, string(a) == string(b))
			})
		}
	}
}

func TestVerif_C26_pad(t *testing.T) {
	v := vNew(t)
	defer v.done()
	chs := []Char{' ', 'x', 'é', '世', '\U0001F600', '\uFFFD', 0, '\U0010FFFF', 0x7f, 0x80, 0x7ff, 0x800, 0xffff, 0x10000}
	check := func(s string, size int, ch Char) {
		m := utf8.RuneCountInString(s)
		p := size - m
		if size <= m {
			p = 0
		}
		rep := func(n int) string { return strings.Repeat(string(rune(ch)), n) }
		id := func(n string) string { return fmt.Sprintf("%s(%q,%d,%q)", n, s, size, ch) }
		v.call(func() string { return id("Pad") }, func() {
			v.str(id("PadLeftChar"), PadLeftChar(s, size, ch), rep(p)+s)
			v.str(id("PadRightChar"), PadRightChar(s, size, ch), s+rep(p))
			v.str(id("PadCenterChar"), PadCenterChar(s, size, ch), rep(p/2)+s+rep(p-p/2))
			if ch == ' ' {
				v.str(id("PadLeftSpace"), PadLeftSpace(s, size), rep(p)+s)
				v.str(id("PadRightSpace"), PadRightSpace(s, size), s+rep(p))
				v.str(id("PadCenterSpace"), PadCenterSpace(s, size), rep(p/2)+s+rep(p-p/2))
			}
		})
	}
	for _, s := range vStrings(1, len(vAlpha)) {
		m := utf8.RuneCountInString(s)
		for _, d := range []int{math.MinInt64, math.MinInt64 + 5, -1, 0, 1, m - 1, m, m + 1, m + 2, m + 3, m + 7, 2*m + 1, m + 31, m + 64, m + 65} {
			for i, ch := range chs {
				if m > 40 && i > 3 {
					break
				}
				check(s, d, ch)
			}
		}
	}
	for _, n := range []int{255, 256, 257, 1023, 1024, 1025, 4097, 70001} {
		check("ab", n, ' ')
		check("é世", n, '世')
		check("", n, 'x')
	}
	for _, ch := range chs {
		for _, n := range []int{math.MinInt64, -1, 0, 1, 2, 3, 7, 8, 9, 16, 64, 100, 1025} {
			w := ""
			if n > 0 {
				w = strings.Repeat(string(rune(ch)), n)
			}
			v.call(func() string { return fmt.Sprintf("RepeatChar(%q,%d)", ch, n) }, func() { v.str(fmt.Sprintf("RepeatChar(%q,%d)", ch, n), RepeatChar(ch, n), w) })
		}
	}
}

func vAll(s string, p func(rune) bool) bool {
	for _, c := range s {
		if !p(c) {
			return false
		}
	}
	return true
}
func vLists(ss []string, r *rand.Rand) [][]string {
	res := [][]string{nil, {}, {""}, {" "}, {"", ""}, {"a", ""}, {"", "a"}, {"a", "b", ""}, {"a", " \t"}, {"\u00a0", "a"}}
	for i := 0; i < 900; i++ {
		n := 1 + r.Intn(5)
		var l []string
		for k := 0; k < n; k++ {
			l = append(l, ss[r.Intn(len(ss))])
		}
		res = append(res, l)
	}
	return res
}

func TestVerif_C27_classes(t *testing.T) {
	v := vNew(t)
	defer v.done()
	al := unicode.IsLetter
	nu := unicode.IsDigit
	b := func(what string, got, want bool) {
		v.n++
		if got != want {
			v.fail("%s = %v, want %v", what, got, want)
		}
	}
	one := func(s string) {
		bl := vAll(s, unicode.IsSpace)
		v.call(func() string { return fmt.Sprintf("predicates of %q", s) }, func() {
			b(fmt.Sprintf("IsAlpha(%q)", s), IsAlpha(s), s != "" && vAll(s, al))
			b(fmt.Sprintf("IsNumeric(%q)", s), IsNumeric(s), s != "" && vAll(s, nu))
			b(fmt.Sprintf("IsAlphanumeric(%q)", s), IsAlphanumeric(s), s != "" && vAll(s, func(r rune) bool { return al(r) || nu(r) }))
			b(fmt.Sprintf("IsEmpty(%q)", s), IsEmpty(s), s == "")
			b(fmt.Sprintf("IsNotEmpty(%q)", s), IsNotEmpty(s), s != "")
			b(fmt.Sprintf("IsBlank(%q)", s), IsBlank(s), bl)
			b(fmt.Sprintf("IsNotBlank(%q)", s), IsNotBlank(s), !bl)
			db, de := s, s
			if bl {
				db = "DEF"
			}
			if s == "" {
				de = "DEF"
			}
			v.str(fmt.Sprintf("DefaultIfBlank(%q)", s), DefaultIfBlank(s, "DEF"), db)
			v.str(fmt.Sprintf("DefaultIfEmpty(%q)", s), DefaultIfEmpty(s, "DEF"), de)
		})
	}
	for r := rune(0); r <= unicode.MaxRune; r++ {
		if r >= 0xd800 && r <= 0xdfff {
			continue
		}
		if vQuick() && r > 0x3400 && r%7 != 0 {
			continue
		}
		one(string(r))
	}
	ss := vStrings(3, 9)
	for _, s := range ss {
		one(s)
		one(s + "a")
		one(s + "1")
		one(s + " ")
		one(" " + s)
		one("a" + s)
	}
	for i := 0; i < 70; i++ {
		for _, c := range vAlpha {
			one(strings.Repeat("a", i) + string(c))
			one(strings.Repeat("7", i) + string(c) + "7")
			one(strings.Repeat(" ", i) + string(c))
		}
	}
	for _, l := range vLists(ss[:200], vRand()) {
		anyE, anyB := len(l) == 0, len(l) == 0
		for _, s := range l {
			anyE = anyE || s == ""
			anyB = anyB || vAll(s, unicode.IsSpace)
		}
		v.call(func() string { return fmt.Sprintf("list predicates of %q", l) }, func() {
			b(fmt.Sprintf("IsAnyEmpty(%q)", l), IsAnyEmpty(l...), anyE)
			b(fmt.Sprintf("IsNoneEmpty(%q)", l), IsNoneEmpty(l...), !anyE)
			b(fmt.Sprintf("IsAnyBlank(%q)", l), IsAnyBlank(l...), anyB)
			b(fmt.Sprintf("IsNoneBlank(%q)", l), IsNoneBlank(l...), !anyB)
			for _, s := range []string{"", "a", "aB", "B", " ", "é", "aé世"} {
				e, c := false, false
				for _, x := range l {
					e = e || x == s
					c = c || strings.Contains(s, x)
				}
				b(fmt.Sprintf("EqualsAny(%q,%q)", s, l), EqualsAny(s, l...), e)
				b(fmt.Sprintf("ContainsAnySubstrings(%q,%q)", s, l), ContainsAnySubstrings(s, l), c)
			}
		})
	}
}

func vLcp(l [][]rune) int {
	if len(l) == 0 {
		return 0
	}
	for i := 0; ; i++ {
		for _, s := range l {
			if i >= len(s) || s[i] != l[0][i] {
				return i
			}
		}
	}
}

func TestVerif_C28_difference(t *testing.T) {
	v := vNew(t)
	defer v.done()
	pair := func(a, b string) {
		n := vLcp([][]rune{[]rune(a), []rune(b)})
		w, d := n, string([]rune(b)[n:])
		if a == b {
			w, d = -1, ""
		}
		v.call(func() string { return fmt.Sprintf("IndexOfDifferenceWithTwoStr(%q,%q)", a, b) }, func() {
			g := IndexOfDifferenceWithTwoStr(a, b)
			v.eq(func() string { return fmt.Sprintf("IndexOfDifferenceWithTwoStr(%q,%q) = %d, want %d", a, b, g, w) }, g == w)
			v.str(fmt.Sprintf("Difference(%q,%q)", a, b), Difference(a, b), d)
		})
	}
	// strings over similar characters, so that prefixes are shared (é and ê share their first byte)
	al := []string{"a", "b", "é", "ê", "世", "丗", "\uFFFD"}
	var ss []string
	var gen func(p string, n int)
	gen = func(p string, n int) {
		ss = append(ss, p)
		if n > 0 {
			for _, a := range al {
				gen(p+a, n-1)
			}
		}
	}
	gen("", 3)
	for i, a := range ss {
		for j, b := range ss {
			if vQuick() && len(a) > 4 && len(b) > 4 && (i*7+j)%5 != 0 {
				continue
			}
			pair(a, b)
		}
	}
	long := vStrings(0, 0)
	for _, a := range long {
		for _, x := range []string{"", "a", "é"} {
			pair(a, a+x)
			pair(a+x, a)
			pair(a+x, a+"世")
			pair(a+x+"tail", a+"ê")
		}
	}
	list := func(l []string) {
		var r [][]rune
		same := true
		for _, s := range l {
			r = append(r, []rune(s))
			same = same && s == l[0]
		}
		n := vLcp(r)
		w, p := n, ""
		if len(l) < 2 || same {
			w = -1
		}
		if len(l) > 0 {
			p = string(r[0][:n])
		}
		c := append([]string{}, l...)
		v.call(func() string { return fmt.Sprintf("IndexOfDifference(%q)", l) }, func() {
			g := IndexOfDifference(c...)
			v.eq(func() string { return fmt.Sprintf("IndexOfDifference(%q) = %d, want %d", l, g, w) }, g == w)
			v.str(fmt.Sprintf("CommonPrefix(%q)", l), CommonPrefix(c...), p)
		})
	}
	list(nil)
	r := vRand()
	for i := 0; i < 20000; i++ {
		pre := ss[r.Intn(len(ss))]
		if r.Intn(4) == 0 {
			pre = long[r.Intn(len(long))]
		}
		n := 1 + r.Intn(5)
		var l []string
		for k := 0; k < n; k++ {
			s := pre
			if r.Intn(3) > 0 {
				s += ss[r.Intn(len(ss))]
			}
			l = append(l, s)
		}
		list(l)
	}
	for _, a := range ss[:60] {
		for _, b := range ss[:60] {
			list([]string{a, b})
			list([]string{a, b, a})
		}
	}
}

func vFold(a, b rune) bool {
	a, b = unicode.ToLower(a), unicode.ToLower(b)
	return a == b || unicode.ToUpper(a) == unicode.ToUpper(b)
}
func vRegion(s []rune, ic bool, i int, t []rune, j, n int) bool {
	if i < 0 || j < 0 || n < 0 || i > len(s) || j > len(t) || n > len(s)-i || n > len(t)-j {
		return false
	}
	for k := 0; k < n; k++ {
		if ic && !vFold(s[i+k], t[j+k]) || !ic && s[i+k] != t[j+k] {
			return false
		}
	}
	return true
}

// The facts about unicode.ToLower and unicode.ToUpper that the theory states for foldeq, over all characters.
func TestVerif_C29_tables(t *testing.T) {
	L, U := unicode.ToLower, unicode.ToUpper
	var cs []rune
	in := map[rune]bool{}
	add := func(c rune) {
		if !in[c] {
			in[c] = true
			cs = append(cs, c)
		}
	}
	for c := rune(0); c <= unicode.MaxRune; c++ {
		if L(U(L(c))) != L(U(c)) {
			t.Fatalf("ASSUMPTION: %U: ToLower(ToUpper(ToLower(c))) != ToLower(ToUpper(c))", c)
		}
		if l, u := L(c), U(c); l != c || u != c {
			add(c)
			add(l)
			add(u)
			add(L(u))
			add(U(l))
		}
	}
	for _, c := range cs {
		for _, d := range cs {
			f := L(c) == L(d) || U(L(c)) == U(L(d)) || L(U(L(c))) == L(U(L(d)))
			if f != (L(U(c)) == L(U(d))) || f != (U(L(c)) == U(L(d))) {
				t.Fatalf("ASSUMPTION: %U and %U: the case-folding facts do not hold", c, d)
			}
		}
	}
}

func TestVerif_C29_regions(t *testing.T) {
	v := vNew(t)
	defer v.done()
	al := []rune{'a', 'A', 'b', 'é', 'É', 'k'}
	ss := []string{""}
	cur := ss
	for i := 0; i < 3; i++ {
		var nx []string
		for _, c := range cur {
			for _, a := range al {
				nx = append(nx, c+string(a))
			}
		}
		ss = append(ss, nx...)
		cur = nx
	}
	ss = append(ss, "AbCdEfG", "abcdefg", "ABCDEFGH", "xabcdefg", strings.Repeat("aB", 70), strings.Repeat("Ab", 70), strings.Repeat("ab", 70)+"c")
	for _, a := range []rune("kK\u212asSſıIiİςσΣµμΜßẞǅǆǄaАаÀà") {
		ss = append(ss, string(a), "x"+string(a), string(a)+"y")
	}
	ss = append(ss, "Ω世", "ω世", "世界", "ж", "Ж", "\U0001F600a", "\U0001F600A")
	b := func(what func() string, got, want bool) {
		v.n++
		if got != want {
			v.fail("%s = %v, want %v", what(), got, want)
		}
	}
	idx := []int{math.MinInt64, -1, 0, 1, 2, 3, 4, math.MaxInt64}
	for x, s := range ss {
		for y, u := range ss {
			if vQuick() && (x*31+y)%4 != 0 && len(s) > 3 && len(u) > 3 {
				continue
			}
			a, c := []rune(s), []rune(u)
			v.call(func() string { return fmt.Sprintf("region functions of %q,%q", s, u) }, func() {
				b(func() string { return fmt.Sprintf("EqualsIgnoreCase(%q,%q)", s, u) }, EqualsIgnoreCase(s, u), len(a) == len(c) && vRegion(a, true, 0, c, 0, len(a)))
				w := false
				for k := 0; k <= len(a); k++ {
					w = w || vRegion(a, true, k, c, 0, len(c))
				}
				b(func() string { return fmt.Sprintf("ContainsIgnoreCase(%q,%q)", s, u) }, ContainsIgnoreCase(s, u), w)
				for _, ic := range []bool{false, true} {
					e := vRegion(a, ic, len(a)-len(c), c, 0, len(c))
					b(func() string { return fmt.Sprintf("EndsWith(%q,%q,%v)", s, u, ic) }, EndsWith(s, u, ic), e)
					if ic {
						b(func() string { return fmt.Sprintf("EndsWithIgnoreCase(%q,%q)", s, u) }, EndsWithIgnoreCase(s, u), e)
					} else {
						b(func() string { return fmt.Sprintf("EndsWithCase(%q,%q)", s, u) }, EndsWithCase(s, u), e)
						b(func() string { return fmt.Sprintf("EndsWithAny(%q,%q)", s, u) }, EndsWithAny(s, u), e && s != "")
						b(func() string { return fmt.Sprintf("EndsWithAny(%q,#,%q)", s, u) }, EndsWithAny(s, "#", u), e && s != "")
					}
				}
			})
			if (x+y)%6 == 0 || len(s)+len(u) < 5 || x > 250 || y > 250 {
				for _, ic := range []bool{false, true} {
					for _, i := range idx {
						for _, j := range idx {
							for _, n := range append([]int{len(a), len(c), len(a) - 1, len(c) - 1}, idx...) {
								v.call(func() string { return fmt.Sprintf("RegionMatches(%q,%v,%d,%q,%d,%d)", s, ic, i, u, j, n) }, func() {
									b(func() string { return fmt.Sprintf("RegionMatches(%q,%v,%d,%q,%d,%d)", s, ic, i, u, j, n) }, RegionMatches(s, ic, i, u, j, n), vRegion(a, ic, i, c, j, n))
								})
							}
						}
					}
				}
			}
		}
	}
	// long texts with the match in the first, middle or last window
	for _, n := range []int{5, 17, 33, 65, 70, 129, 257, 300, 1030} {
		for _, at := range []int{0, 1, n / 2, n - 1, n} {
			for _, u := range []string{"b", "BÉ", "世c"} {
				s := strings.Repeat("a", at) + strings.ToLower(u) + strings.Repeat("a", n-at)
				b(func() string { return fmt.Sprintf("ContainsIgnoreCase(%q,%q)", s, u) }, ContainsIgnoreCase(s, u), true)
				b(func() string { return fmt.Sprintf("ContainsIgnoreCase(%q,%q)", s, u+"q") }, ContainsIgnoreCase(s, u+"q"), false)
				b(func() string { return fmt.Sprintf("EndsWithIgnoreCase(%q,%q)", s, u) }, EndsWithIgnoreCase(s, u), at == n)
				z := []rune(s)
				z[at] = 'z'
				b(func() string { return fmt.Sprintf("EqualsIgnoreCase(%q,%q)", s, string(z)) }, EqualsIgnoreCase(s, string(z)), false)
				b(func() string { return fmt.Sprintf("EqualsIgnoreCase(%q,upper)", s) }, EqualsIgnoreCase(s, strings.ToUpper(s)), true)
				for _, ic := range []bool{false, true} {
					b(func() string { return fmt.Sprintf("RegionMatches(%q,%v,0,%q,0,%d)", s, ic, string(z), n) }, RegionMatches(s, ic, 0, string(z), 0, n), n <= at)
				}
			}
		}
	}
	if !EndsWithAny("abc") {
		v.n++
	} else {
		v.fail("EndsWithAny(abc) with no strings = true")
	}
}

func TestVerif_C30_removal(t *testing.T) {
	v := vNew(t)
	defer v.done()
	filter := func(s string, p func(rune) bool) string {
		var b strings.Builder
		for _, c := range s {
			if !p(c) {
				b.WriteRune(c)
			}
		}
		return b.String()
	}
	one := func(s string) {
		v.call(func() string { return fmt.Sprintf("removal from %q", s) }, func() {
			v.str(fmt.Sprintf("DeleteWhitespace(%q)", s), DeleteWhitespace(s), filter(s, unicode.IsSpace))
			for _, c := range []Char{'a', ' ', 'é', '世', '\uFFFD', 'z', 0, '\U0001F600'} {
				c := c
				v.str(fmt.Sprintf("RemoveChar(%q,%q)", s, c), RemoveChar(s, c), filter(s, func(r rune) bool { return r == rune(c) }))
			}
			for _, u := range []string{"", "a", "aa", " ", "é", "世a", "B", "aBa", s} {
				w := s
				if u != "" {
					w = strings.Join(strings.Split(s, u), "")
				}
				v.str(fmt.Sprintf("RemoveString(%q,%q)", s, u), RemoveString(s, u), w)
			}
		})
	}
	for _, s := range vStrings(3, 10) {
		one(s)
	}
	for _, s := range vStrings(2, len(vAlpha)) {
		one(s)
	}
	for _, c := range []rune{'\t', '\n', '\v', '\f', '\r', ' ', 0x85, 0xa0, 0x1680, 0x2000, 0x200a, 0x2028, 0x2029, 0x202f, 0x205f, 0x3000, 0x200b, 0x180e, 0xfeff} {
		one(string(c))
		one("a" + string(c))
		one(string(c) + "é")
		one("世" + string(c) + string(c) + "b")
	}
}


func vAbbrevOK(s, mk string, w int, g string, err error) string {
	r, m, gr := []rune(s), []rune(mk), []rune(g)
	if err != nil {
		if mk == "" && w > 0 || s == "" && mk != "" {
			return "an error with an empty marker or string"
		}
		if w >= 2*len(m)+1 {
			return "an error although the width is enough for two markers"
		}
		if len(r) <= w && w >= len(m)+1 {
			return "an error for a string that fits"
		}
		return ""
	}
	if mk == "" {
		if w > 0 {
			x := r
			if len(x) > w {
				x = x[:w]
			}
			if g != string(x) {
				return "with an empty marker the result is not the first characters"
			}
		}
		return ""
	}
	if s == "" {
		return ""
	}
	if len(r) <= w {
		if g != s {
			return "a string that fits is changed"
		}
		return ""
	}
	if len(gr) > w {
		return "the result is wider than maxWidth"
	}
	if strings.HasSuffix(g, mk) && strings.HasPrefix(s, strings.TrimSuffix(g, mk)) {
		return ""
	}
	if strings.HasPrefix(g, mk) && strings.HasSuffix(s, strings.TrimPrefix(g, mk)) {
		return ""
	}
	if strings.HasPrefix(g, mk) && strings.HasSuffix(g, mk) && len(gr) >= 2*len(m) && strings.Contains(s, string(gr[len(m):len(gr)-len(m)])) {
		return ""
	}
	return "the result is not made of the marker and contiguous text"
}

func TestVerif_C31_abbreviate(t *testing.T) {
	v := vNew(t)
	defer v.done()
	var ss []string
	base := "abcdefghijklmnopqrstuvwxyzABCDEF"
	uni := []rune("é世界\U0001F600ñabcдежзиклмнопрс")
	for i := 0; i <= len(base); i++ {
		ss = append(ss, base[:i])
	}
	for i := 0; i <= len(uni); i++ {
		ss = append(ss, string(uni[:i]))
	}
	ss = append(ss, strings.Repeat("xyz", 100))
	for _, s := range ss {
		n := utf8.RuneCountInString(s)
		ws := []int{math.MinInt64, math.MinInt64 + 1, math.MaxInt64, math.MaxInt64 - 1, n - 1, n, n + 1}
		for w := -2; w < 24; w++ {
			ws = append(ws, w)
		}
		os := []int{math.MinInt64, math.MinInt64 + 1, math.MaxInt64, math.MaxInt64 - 1, n - 1, n, n + 1, n - 2, n - 7, n / 2}
		for o := -1; o < 12; o++ {
			os = append(os, o)
		}
		for _, mk := range []string{"", ".", "...", "世", "é…", "\U0001F600\U0001F600.."} {
			if vQuick() && n%3 != 0 && mk != "..." {
				continue
			}
			for _, w := range ws {
				for _, o := range os {
					id := func() string { return fmt.Sprintf("Abbreviate(%q,%q,%d,%d)", s, mk, o, w) }
					v.call(id, func() {
						g, err := Abbreviate(s, mk, o, w)
						if p := vAbbrevOK(s, mk, w, g, err); p != "" {
							v.fail("%s = %q, %v: %s", id(), g, err, p)
						}
						v.n++
					})
				}
			}
		}
	}
}

func TestVerif_C32_joiner(t *testing.T) {
	v := vNew(t)
	defer v.done()
	r := vRand()
	els := []string{"", "a", "é", "bc", "世界", "-"}
	strs := []string{"", "-", "[", "::", "é", "世"}
	rounds := 30000
	if !vQuick() {
		rounds = 300000
	}
	for k := 0; k < rounds; k++ {
		pre, step, suf := strs[r.Intn(len(strs))], strs[r.Intn(len(strs))], strs[r.Intn(len(strs))]
		var j *Joiner
		kind := r.Intn(3)
		switch kind {
		case 0:
			j = NewJoiner(WithJoiner(pre, step, suf))
		case 1:
			j = NewJoiner(WithJoinerPrefix(pre), WithJoinerStep(step), WithJoinerSuffix(suf))
		default:
			j = NewJoiner(WithJoinerSuffix(suf), WithJoinerStep("zz"), WithJoinerPrefix(pre), WithJoinerStep(step))
		}
		log := fmt.Sprintf("NewJoiner#%d(%q,%q,%q)", kind, pre, step, suf)
		var parts []string
		bad := ""
		v.call(func() string { return log }, func() {
			ops := r.Intn(9)
			for o := 0; o <= ops; o++ {
				e := els[r.Intn(len(els))]
				switch x := r.Intn(8); {
				case x < 2:
					log += fmt.Sprintf(".WriteString(%q)", e)
					n, err := j.WriteString(e)
					if err != nil || n < len(e) {
						bad = "WriteString result"
					}
					parts = append(parts, e)
				case x == 2:
					log += fmt.Sprintf(".Write(%q)", e)
					_, err := j.Write([]byte(e))
					if err != nil {
						bad = "Write result"
					}
					parts = append(parts, e)
				case x == 3:
					log += ".WriteByte('b')"
					if j.WriteByte('b') != nil {
						bad = "WriteByte result"
					}
					parts = append(parts, "b")
				case x == 4:
					log += ".WriteRune('世')"
					if _, err := j.WriteRune('世'); err != nil {
						bad = "WriteRune result"
					}
					parts = append(parts, "世")
				case x == 5:
					n := r.Intn(100)
					log += fmt.Sprintf(".Grow(%d)", n)
					j.Grow(n)
				case x == 6:
					log += ".Reset()"
					j.Reset()
					parts = nil
				default:
					log += ".String()"
				}
				w := pre + strings.Join(parts, step) + suf
				v.n++
				if g := j.String(); g != w || bad != "" {
					v.fail("%s: String() = %q, want %q %s", log, g, w, bad)
					return
				}
				if j.Len() != len(w) || j.Cap() < j.Len() {
					v.fail("%s: Len() = %d, Cap() = %d, len(String()) = %d", log, j.Len(), j.Cap(), len(w))
					return
				}
			}
		})
	}
}
