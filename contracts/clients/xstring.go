package xstring

import (
	"math/rand"
	"strings"
	"unicode"
)

// Client functions: Go code verified together with the package (overlay; not part of /repo).

func vNewJoiner(prefix, step, suffix string) *Joiner {
	return NewJoiner(WithJoiner(prefix, step, suffix))
}

func vNewJoinerParts(prefix, step, suffix, other string) *Joiner {
	return NewJoiner(WithJoinerPrefix(other), WithJoinerSuffix(suffix), WithJoinerStep(step), WithJoinerPrefix(prefix))
}

func vNewJoinerEmpty() *Joiner { return NewJoiner() }

// specShuffle describes rand.Shuffle: some sequence of swaps of elements below n.
func specShuffle(n int, swap func(i, j int)) {
	if n < 0 {
		panic("invalid argument to Shuffle")
	}
	for c := rand.Intn(1 << 62); n > 0 && c > 0; c-- {
		swap(rand.Intn(n), rand.Intn(n))
	}
}

// Specification programs of library functions that call back or stop at a character.

func specIndexFunc(s string, f func(rune) bool) int {
	for i, v := range s {
		if f(v) {
			return i
		}
	}
	return -1
}

func specContainsFunc(s string, f func(rune) bool) bool {
	for _, v := range s {
		if f(v) {
			return true
		}
	}
	return false
}

func specMap(f func(rune) rune, s string) string {
	sb := strings.Builder{}
	for _, v := range s {
		if w := f(v); w >= 0 {
			sb.WriteRune(w)
		}
	}
	return sb.String()
}

// specTrimSpace: empty exactly if there is nothing but white space; otherwise nothing is said of the result.
func specTrimSpace(s string) string {
	for _, v := range s {
		if !unicode.IsSpace(v) {
			return "x" + strings.Title(s)
		}
	}
	return ""
}
