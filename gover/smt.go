package main

import (
	"bytes"
	"context"
	"crypto/sha256"
	"fmt"
	"math/big"
	"os"
	"os/exec"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"time"
)

// ---- theory sections ----

// A lemma section is an axiom that the tool itself proves, by induction over sequences built with build.
type section struct {
	lemma    string // induction variable ("-" for none), "" when not a lemma
	index    int
	insts    []string // instances that prove a lemma without quantifiers
	name     string
	provides []string // symbols declared here
	when     []string // include when all these symbols are in use (axiom-only sections)
	text     string
	toks     map[string]bool
}

var sections []*section
var theorySyms = map[string]fnSig{}
var symSection = map[string]*section{}

var seqElems = [][2]string{{"SeqInt", "Int"}, {"SeqAny", "Any"}, {"SeqB8", "(_ BitVec 8)"}, {"SeqStr", "SeqInt"}, {"SeqFn", "Fn"}}

func seqSortOf(elem string) string {
	for _, p := range seqElems {
		if p[1] == elem {
			return p[0]
		}
	}
	unsup("no sequence sort for element sort %s", elem)
	return ""
}
func seqElemOf(s string) string {
	for _, p := range seqElems {
		if p[0] == s {
			return p[1]
		}
	}
	return ""
}

const seqTheory = `
;; section seqcore.@S
(declare-fun len.@S (@S) Int)
(assert (forall ((s @S)) (! (<= 0 (len.@S s)) :pattern ((len.@S s)))))
;; section idx.@S
(declare-fun idx.@S (@S Int) @E)
;; section empty.@S
(declare-fun empty.@S () @S)
(assert (= (len.@S empty.@S) 0))
(assert (forall ((s @S)) (! (=> (= (len.@S s) 0) (= s empty.@S)) :pattern ((len.@S s)))))
;; section build.@S
(declare-fun build.@S (@S @E) @S)
(assert (forall ((s @S) (v @E)) (! (= (len.@S (build.@S s v)) (+ 1 (len.@S s))) :pattern ((build.@S s v)))))
(assert (forall ((s @S) (v @E)) (! (= (idx.@S (build.@S s v) (len.@S s)) v) :pattern ((build.@S s v)))))
(assert (forall ((s @S) (v @E) (i Int)) (! (=> (and (<= 0 i) (< i (len.@S s))) (= (idx.@S (build.@S s v) i) (idx.@S s i))) :pattern ((idx.@S (build.@S s v) i)) :pattern ((build.@S s v) (idx.@S s i)))))
;; section cat.@S
(declare-fun cat.@S (@S @S) @S)
(assert (forall ((s @S) (t @S)) (! (= (len.@S (cat.@S s t)) (+ (len.@S s) (len.@S t))) :pattern ((cat.@S s t)))))
(assert (forall ((s @S) (t @S) (i Int)) (! (and (=> (and (<= 0 i) (< i (len.@S s))) (= (idx.@S (cat.@S s t) i) (idx.@S s i))) (=> (and (<= (len.@S s) i) (< i (+ (len.@S s) (len.@S t)))) (= (idx.@S (cat.@S s t) i) (idx.@S t (- i (len.@S s)))))) :pattern ((idx.@S (cat.@S s t) i)))))
(assert (forall ((s @S) (t @S)) (! (=> (= (len.@S t) 0) (= (cat.@S s t) s)) :pattern ((cat.@S s t)))))
(assert (forall ((s @S) (t @S)) (! (=> (= (len.@S s) 0) (= (cat.@S s t) t)) :pattern ((cat.@S s t)))))
;; when cat.@S
(assert (forall ((a @S) (b @S) (c @S)) (! (= (cat.@S (cat.@S a b) c) (cat.@S a (cat.@S b c))) :pattern ((cat.@S (cat.@S a b) c)))))
(assert (forall ((a @S) (b @S) (c @S)) (! (= (cat.@S (cat.@S a b) c) (cat.@S a (cat.@S b c))) :weight 3 :pattern ((cat.@S a (cat.@S b c))))))
;; when cat.@S build.@S
(assert (forall ((a @S) (b @S) (v @E)) (! (= (cat.@S a (build.@S b v)) (build.@S (cat.@S a b) v)) :pattern ((cat.@S a (build.@S b v))))))
;; section take.@S
(declare-fun take.@S (@S Int) @S)
(assert (forall ((s @S) (n Int)) (! (and (=> (and (<= 0 n) (<= n (len.@S s))) (= (len.@S (take.@S s n)) n)) (=> (>= n (len.@S s)) (= (take.@S s n) s)) (=> (<= n 0) (= (len.@S (take.@S s n)) 0))) :pattern ((take.@S s n)))))
(assert (forall ((s @S) (n Int) (i Int)) (! (=> (and (<= 0 i) (< i n) (< i (len.@S s))) (= (idx.@S (take.@S s n) i) (idx.@S s i))) :pattern ((idx.@S (take.@S s n) i)) :pattern ((take.@S s n) (idx.@S s i)))))
;; section drop.@S
(declare-fun drop.@S (@S Int) @S)
(assert (forall ((s @S) (n Int)) (! (and (=> (and (<= 0 n) (<= n (len.@S s))) (= (len.@S (drop.@S s n)) (- (len.@S s) n))) (=> (<= n 0) (= (drop.@S s n) s)) (=> (>= n (len.@S s)) (= (len.@S (drop.@S s n)) 0))) :pattern ((drop.@S s n)))))
(assert (forall ((s @S) (n Int) (i Int)) (! (=> (and (<= 0 n) (<= 0 i) (< i (- (len.@S s) n))) (= (idx.@S (drop.@S s n) i) (idx.@S s (+ i n)))) :pattern ((idx.@S (drop.@S s n) i)))))
(assert (forall ((s @S) (n Int) (k Int)) (! (=> (and (<= 0 n) (<= n k) (< k (len.@S s))) (= (idx.@S (drop.@S s n) (- k n)) (idx.@S s k))) :pattern ((drop.@S s n) (idx.@S s k)))))
;; when take.@S build.@S
(assert (forall ((s @S) (i Int)) (! (=> (and (<= 0 i) (< i (len.@S s))) (= (take.@S s (+ i 1)) (build.@S (take.@S s i) (idx.@S s i)))) :pattern ((take.@S s i) (idx.@S s i)))))
(assert (forall ((s @S) (v @E) (i Int)) (! (=> (<= i (len.@S s)) (= (take.@S (build.@S s v) i) (take.@S s i))) :pattern ((take.@S (build.@S s v) i)))))
;; when drop.@S cat.@S
(assert (forall ((s @S) (t @S) (n Int)) (! (=> (= n (len.@S s)) (= (drop.@S (cat.@S s t) n) t)) :pattern ((drop.@S (cat.@S s t) n)))))
;; when drop.@S build.@S
(assert (forall ((s @S) (v @E) (n Int)) (! (=> (and (<= 0 n) (<= n (len.@S s))) (= (drop.@S (build.@S s v) n) (build.@S (drop.@S s n) v))) :pattern ((drop.@S (build.@S s v) n)) :pattern ((drop.@S s n) (build.@S s v)))))
;; section view.@S
(declare-fun view.@S ((Array Int @E) Int Int) @S)
(assert (forall ((a (Array Int @E)) (o Int) (n Int)) (! (= (len.@S (view.@S a o n)) (ite (<= 0 n) n 0)) :pattern ((view.@S a o n)))))
(assert (forall ((a (Array Int @E)) (o Int) (n Int) (i Int)) (! (=> (and (<= 0 i) (< i n)) (= (idx.@S (view.@S a o n) i) (select a (+ o i)))) :pattern ((idx.@S (view.@S a o n) i)))))
(assert (forall ((a (Array Int @E)) (o Int) (n Int) (k Int)) (! (=> (and (<= o k) (< k (+ o n))) (= (idx.@S (view.@S a o n) (- k o)) (select a k))) :pattern ((view.@S a o n) (select a k)))))
;; when view.@S build.@S
(assert (forall ((a (Array Int @E)) (o Int) (n Int) (k Int) (v @E)) (! (=> (and (<= 0 n) (= k (+ o n))) (= (view.@S (store a k v) o (+ n 1)) (build.@S (view.@S a o n) v))) :pattern ((view.@S (store a k v) o (+ n 1))) :pattern ((view.@S a o n) (store a k v)))))
;; section arrof.@S
(declare-fun arrof.@S (@S) (Array Int @E))
(assert (forall ((s @S) (i Int)) (! (=> (and (<= 0 i) (< i (len.@S s))) (= (select (arrof.@S s) i) (idx.@S s i))) :pattern ((select (arrof.@S s) i)) :pattern ((arrof.@S s) (idx.@S s i)))))
;; when arrof.@S view.@S
(assert (forall ((s @S) (n Int)) (! (=> (and (<= 0 n) (<= n (len.@S s))) (= (view.@S (arrof.@S s) 0 n) (take.@S s n))) :pattern ((view.@S (arrof.@S s) 0 n)))))
;; section seqeq.@S
(declare-fun seqeq.@S (@S @S) Bool)
(assert (forall ((s @S) (t @S)) (! (= (seqeq.@S s t) (and (= (len.@S s) (len.@S t)) (forall ((i Int)) (! (=> (and (<= 0 i) (< i (len.@S s))) (= (idx.@S s i) (idx.@S t i))) :pattern ((idx.@S s i)) :pattern ((idx.@S t i)))))) :pattern ((seqeq.@S s t)))))
(assert (forall ((s @S) (t @S)) (! (=> (seqeq.@S s t) (= s t)) :pattern ((seqeq.@S s t)))))
`

var declRe = regexp.MustCompile(`\(declare-fun\s+(\S+)\s+\(([^\n]*?)\)\s+(\(.*\)|[A-Za-z0-9_]+)\)\s*$`)

// sexpr tokenising helpers
func sexprTokens(s string) []string {
	var r []string
	i := 0
	for i < len(s) {
		c := s[i]
		switch {
		case c == ' ' || c == '\n' || c == '\t' || c == '\r':
			i++
		case c == ';':
			for i < len(s) && s[i] != '\n' {
				i++
			}
		case c == '(' || c == ')':
			r = append(r, string(c))
			i++
		default:
			j := i
			for j < len(s) && !strings.ContainsRune(" \n\t\r();", rune(s[j])) {
				j++
			}
			r = append(r, s[i:j])
			i = j
		}
	}
	return r
}

type sx struct {
	atom string
	list []*sx
}

func parseSx(toks []string) ([]*sx, error) {
	var stack [][]*sx
	cur := []*sx{}
	for _, t := range toks {
		switch t {
		case "(":
			stack = append(stack, cur)
			cur = []*sx{}
		case ")":
			if len(stack) == 0 {
				return nil, fmt.Errorf("unbalanced )")
			}
			n := &sx{list: cur}
			cur = append(stack[len(stack)-1], n)
			stack = stack[:len(stack)-1]
		default:
			cur = append(cur, &sx{atom: t})
		}
	}
	if len(stack) != 0 {
		return nil, fmt.Errorf("unbalanced (")
	}
	return cur, nil
}
func (s *sx) String() string {
	if s.list == nil {
		return s.atom
	}
	var p []string
	for _, x := range s.list {
		p = append(p, x.String())
	}
	return "(" + strings.Join(p, " ") + ")"
}

// loadTheory splits a theory text into sections and registers its symbols.
func loadTheory(text string) {
	var cur *section
	flush := func() {
		if cur == nil {
			return
		}
		xs, err := parseSx(sexprTokens(cur.text))
		if err != nil {
			panic("theory section " + cur.name + ": " + err.Error())
		}
		cur.toks = map[string]bool{}
		for _, t := range sexprTokens(cur.text) {
			cur.toks[t] = true
		}
		for _, x := range xs {
			if len(x.list) == 0 {
				continue
			}
			switch x.list[0].atom {
			case "declare-fun":
				sg := fnSig{ret: x.list[3].String()}
				for _, a := range x.list[2].list {
					sg.args = append(sg.args, a.String())
				}
				theorySyms[x.list[1].atom] = sg
				cur.provides = append(cur.provides, x.list[1].atom)
				symSection[x.list[1].atom] = cur
			case "define-fun":
				sg := fnSig{ret: x.list[3].String()}
				for _, a := range x.list[2].list {
					sg.args = append(sg.args, a.list[1].String())
				}
				theorySyms[x.list[1].atom] = sg
				cur.provides = append(cur.provides, x.list[1].atom)
				symSection[x.list[1].atom] = cur
			}
		}
		cur.index = len(sections)
		sections = append(sections, cur)
		cur = nil
	}
	for _, l := range strings.Split(text, "\n") {
		if strings.HasPrefix(l, ";; section ") {
			flush()
			cur = &section{name: strings.TrimSpace(l[len(";; section "):])}
			continue
		}
		if strings.HasPrefix(l, ";; inst ") {
			cur.insts = append(cur.insts, strings.TrimSpace(l[len(";; inst "):]))
			continue
		}
		if strings.HasPrefix(l, ";; lemma ") {
			flush()
			f := strings.Fields(l[len(";; lemma "):])
			cur = &section{name: strings.TrimSpace(l[3:]), lemma: f[0], when: f[1:]}
			continue
		}
		if strings.HasPrefix(l, ";; when ") {
			flush()
			cur = &section{name: strings.TrimSpace(l[3:]), when: strings.Fields(l[len(";; when "):])}
			continue
		}
		if cur != nil {
			cur.text += l + "\n"
		}
	}
	flush()
}

func initTheory(extra ...string) {
	for _, p := range seqElems {
		t := strings.ReplaceAll(seqTheory, "@S", p[0])
		t = strings.ReplaceAll(t, "@E", p[1])
		loadTheory(t)
	}
	for _, e := range extra {
		loadTheory(e)
	}
}

// ---- boxing of concrete types into interfaces ----
type boxInfo struct {
	tag   int
	sorts []string
}

var boxes = map[string]*boxInfo{}

func boxTag(t string) int { return boxes[t].tag }
func regBox(t string, sorts []string) string {
	t = sanitize(t)
	if _, ok := boxes[t]; !ok {
		boxes[t] = &boxInfo{tag: len(boxes) + 1, sorts: sorts}
	}
	return t
}

// ---- queries ----

var userSorts = []string{"Any", "Fn", "SeqInt", "SeqAny", "SeqB8", "SeqStr", "SeqFn"}

// goalForm rewrites sequence equalities in positive positions into extensional form.
func goalForm(n *Node, pos bool) *Node {
	switch n.op {
	case "not":
		return Not(goalForm(n.args[0], !pos))
	case "and", "or":
		var as []*Node
		for _, a := range n.args {
			as = append(as, goalForm(a, pos))
		}
		if n.op == "and" {
			return And(as...)
		}
		return Or(as...)
	case "=>":
		return Imp(goalForm(n.args[0], !pos), goalForm(n.args[1], pos))
	case "forall", "exists":
		b := goalForm(n.args[0], pos)
		if b != n.args[0] {
			return quant(n.op, n.bs, b, n.pats)
		}
		return n
	case "ite":
		if n.sort == "Bool" {
			c := n.args[0]
			return And(Imp(goalForm(c, !pos), goalForm(n.args[1], pos)), Imp(Not(goalForm(c, pos)), goalForm(n.args[2], pos)))
		}
	case "=":
		for k := 0; k < 2; k++ {
			if n.args[0].sort == "Bool" {
				break
			}
			if it := n.args[k]; it.op == "ite" {
				o := n.args[1-k]
				c := it.args[0]
				return And(Imp(goalForm(c, !pos), goalForm(Eq(o, it.args[1]), pos)), Imp(Not(goalForm(c, pos)), goalForm(Eq(o, it.args[2]), pos)))
			}
		}
		if pos && strings.HasPrefix(n.args[0].sort, "Seq") {
			return App("seqeq."+n.args[0].sort, "Bool", n.args[0], n.args[1])
		}
		if n.args[0].sort == "Bool" {
			a, b := n.args[0], n.args[1]
			return And(Imp(goalForm(a, !pos), goalForm(b, pos)), Imp(goalForm(b, !pos), goalForm(a, pos)))
		}
	}
	return n
}

// closure extends a set of symbols by everything the included theory sections mention.
// Sections from the lemma with index limit on are left out (limit < 0: all are in).
func closure(use map[string]bool, limit int) (map[*section]bool, map[string]bool) {
	incl := map[*section]bool{}
	usedBox := map[string]bool{}
	work := sortedKeys(use)
	addSym := func(s string) {
		if !use[s] {
			use[s] = true
			work = append(work, s)
		}
	}
	for {
		for len(work) > 0 {
			s := work[0]
			work = work[1:]
			if sec := symSection[s]; sec != nil && !incl[sec] {
				incl[sec] = true
				for t := range sec.toks {
					if _, ok := theorySyms[t]; ok {
						addSym(t)
					}
				}
			}
			if strings.HasPrefix(s, "box.") {
				usedBox[s[4:]] = true
			}
			if strings.HasPrefix(s, "unbox.") {
				r := s[6:]
				usedBox[r[:strings.LastIndex(r, ".")]] = true
			}
		}
		changed := false
		for _, sec := range sections {
			if sec.when == nil || incl[sec] || (limit >= 0 && sec.lemma != "" && sec.index >= limit) {
				continue
			}
			all := true
			for _, w := range sec.when {
				if strings.HasPrefix(w, "?") {
					continue
				}
				if !use[w] {
					all = false
				}
			}
			if all {
				incl[sec] = true
				changed = true
				for t := range sec.toks {
					if _, ok := theorySyms[t]; ok {
						addSym(t)
					}
				}
			}
		}
		if !changed && len(work) == 0 {
			break
		}
	}
	return incl, usedBox
}

// takeSteps: ground instances take(s, n+1) = build(take(s, n), s[n]) for the prefixes that occur
// (a trigger cannot match n+1 reliably).
// groundViews makes the views of slices that occur only inside quantified hypotheses known to the matching engine.
func groundViews(hyps []*Node) []*Node {
	var out []*Node
	free := map[*Node]bool{}
	in := map[*Node]bool{}
	var walk func(n *Node, q bool)
	walk = func(n *Node, q bool) {
		if free[n] || q && in[n] {
			return
		}
		if q {
			in[n] = true
			if strings.HasPrefix(n.op, "f:view.") && len(n.fv) == 0 {
				out = append(out, mk("<=", "Bool", IntC(0), App("len."+n.sort, "Int", n)))
			}
		} else {
			free[n] = true
		}
		q = q || n.op == "forall" || n.op == "exists"
		for _, a := range n.args {
			walk(a, q)
		}
	}
	for _, h := range hyps {
		walk(h, false)
	}
	return out
}

func takeSteps(hyps []*Node, g *Node) []*Node {
	var out []*Node
	seen := map[*Node]bool{}
	var walk func(n *Node)
	walk = func(n *Node) {
		if seen[n] {
			return
		}
		seen[n] = true
		if strings.HasPrefix(n.op, "f:take.") && len(n.fv) == 0 {
			if b, c := splitAdd(n.args[1]); b != nil && c.Cmp(big.NewInt(1)) == 0 {
				s := n.args[0]
				out = append(out, Imp(And(Le(IntC(0), b), Lt(b, Slen(s))), Eq(n, Sbuild(Stake(s, b), Sidx(s, b)))))
			}
		}
		for _, a := range n.args {
			walk(a)
		}
	}
	for _, h := range hyps {
		walk(h)
	}
	walk(g)
	return out
}

func buildQuery(hyps []*Node, goal *Node, mbqi bool, models bool) string {
	p := newPrinter()
	g := Not(goalForm(goal, true))
	hyps = append(append([]*Node(nil), hyps...), takeSteps(hyps, g)...)
	if os.Getenv("NOGV") == "" {
		hyps = append(hyps, groundViews(hyps)...)
	}
	for _, h := range hyps {
		p.count(h)
	}
	p.count(g)
	var asserts []string
	for _, h := range hyps {
		s := p.str(h)
		asserts = append(asserts, "(assert "+s+")")
	}
	asserts = append(asserts, "(assert "+p.str(g)+")")
	// sections
	use := map[string]bool{}
	for s := range p.syms {
		use[s] = true
	}
	for s := range p.sorts {
		_ = s
	}
	incl, usedBox := closure(use, -1)
	var b bytes.Buffer
	if models {
		b.WriteString("(set-option :produce-models true)\n")
	}
	b.WriteString("@OPTIONS@\n")
	for _, s := range userSorts {
		fmt.Fprintf(&b, "(declare-sort %s 0)\n", s)
	}
	b.WriteString("(declare-fun nilAny () Any)\n(declare-fun tag (Any) Int)\n(assert (= (tag nilAny) 0))\n(assert (forall ((a Any)) (! (=> (= (tag a) 0) (= a nilAny)) :pattern ((tag a)))))\n")
	var bn []string
	for k := range usedBox {
		bn = append(bn, k)
	}
	sortStrings(bn)
	boxSyms := map[string]bool{"tag": true}
	for _, k := range bn {
		bi := boxes[k]
		if bi == nil {
			continue
		}
		var vs, xs []string
		var un []string
		fmt.Fprintf(&b, "(declare-fun box.%s (%s) Any)\n", k, strings.Join(bi.sorts, " "))
		boxSyms["box."+k] = true
		for i, s := range bi.sorts {
			fmt.Fprintf(&b, "(declare-fun unbox.%s.%d (Any) %s)\n", k, i, s)
			boxSyms[fmt.Sprintf("unbox.%s.%d", k, i)] = true
			vs = append(vs, fmt.Sprintf("(x%d %s)", i, s))
			xs = append(xs, fmt.Sprintf("x%d", i))
			un = append(un, fmt.Sprintf("(unbox.%s.%d a)", k, i))
		}
		if len(bi.sorts) == 0 {
			fmt.Fprintf(&b, "(assert (= (tag box.%s) %d))\n", k, bi.tag)
			continue
		}
		bx := fmt.Sprintf("(box.%s %s)", k, strings.Join(xs, " "))
		fmt.Fprintf(&b, "(assert (forall (%s) (! (and (= (tag %s) %d)", strings.Join(vs, ""), bx, bi.tag)
		for i := range bi.sorts {
			fmt.Fprintf(&b, " (= (unbox.%s.%d %s) x%d)", k, i, bx, i)
		}
		fmt.Fprintf(&b, ") :pattern (%s))))\n", bx)
		fmt.Fprintf(&b, "(assert (forall ((a Any)) (! (=> (= (tag a) %d) (= a (box.%s %s))) :pattern (%s))))\n", bi.tag, k, strings.Join(un, " "), un[0])
	}
	var us []string
	for s := range use {
		if _, ok := theorySyms[s]; !ok && !boxSyms[s] {
			us = append(us, s)
		}
	}
	sortStrings(us)
	for _, s := range us {
		d := fnDecl[s]
		fmt.Fprintf(&b, "(declare-fun %s (%s) %s)\n", s, strings.Join(d.args, " "), d.ret)
	}
	// provide order: declarations of all included sections first, axioms after
	var ax []string
	for _, sec := range sections {
		if !incl[sec] {
			continue
		}
		xs, _ := parseSx(sexprTokens(sec.text))
		for _, x := range xs {
			if x.list[0].atom == "declare-fun" {
				b.WriteString(x.String() + "\n")
			} else {
				ax = append(ax, x.String())
			}
		}
	}
	for _, a := range ax {
		b.WriteString(a + "\n")
	}
	for _, c := range sortedKeys(p.cons) {
		if c == "nilAny" {
			continue
		}
		fmt.Fprintf(&b, "(declare-fun %s () %s)\n", c, constSort[c])
		if n := mk("c:"+c, constSort[c]); n.sort == "Int" {
			if v, ok := ivals[n]; ok {
				if v[0] != nil {
					fmt.Fprintf(&b, "(assert (<= %s %s))\n", show(IntB(v[0])), c)
				}
				if v[1] != nil {
					fmt.Fprintf(&b, "(assert (<= %s %s))\n", c, show(IntB(v[1])))
				}
			}
		}
	}
	for _, d := range p.defs {
		b.WriteString(d + "\n")
	}
	for _, a := range asserts {
		b.WriteString(a + "\n")
	}
	b.WriteString("(check-sat)\n")
	if models {
		b.WriteString("(get-model)\n")
	}
	return b.String()
}

func sortStrings(s []string) {
	for i := 1; i < len(s); i++ {
		for j := i; j > 0 && s[j] < s[j-1]; j-- {
			s[j], s[j-1] = s[j-1], s[j]
		}
	}
}

type Result struct {
	status string // unsat, sat, unknown, timeout, error
	solver string
	ms     int64
	out    string
	limit  time.Duration
}

var solverSem = make(chan struct{}, 8)

var statMu sync.Mutex
var stats = struct {
	queries  int
	solverMs int64
	bySolver map[string]int
}{bySolver: map[string]int{}}

var queryCache = map[[32]byte]Result{}

type solverSpec struct {
	name string
	bin  string
	args []string
	opts string
}

var solvers = map[string]solverSpec{
	"z3":    {"z3-5.3.2", "z3-new", []string{"-in", "-smt2"}, "(set-option :auto_config false)\n(set-option :smt.mbqi false)\n(set-option :smt.solve_eqs false)\n(set-option :smt.random_seed 7)"},
	"z3b":   {"z3-5.3.2/arith2", "z3-new", []string{"-in", "-smt2"}, "(set-option :auto_config false)\n(set-option :smt.mbqi false)\n(set-option :smt.arith.solver 2)\n(set-option :smt.case_split 3)"},
	"z3mb":  {"z3-5.3.2/mbqi", "z3-new", []string{"-in", "-smt2"}, "(set-option :smt.mbqi true)"},
	"z3old": {"z3-4.8.12", "z3", []string{"-in", "-smt2"}, "(set-option :auto_config false)\n(set-option :smt.mbqi false)"},
	"cvc5":  {"cvc5-1.1.2", "cvc5", []string{"--lang=smt2", "--incremental"}, "(set-logic ALL)"},
}

func runSolver(which, q string, timeout time.Duration) Result {
	return runSolverCtx(context.Background(), which, q, timeout)
}

func runSolverCtx(parent context.Context, which, q string, timeout time.Duration) Result {
	sp := solvers[which]
	q = bv2natRe.ReplaceAllString(strings.Replace(q, "@OPTIONS@", sp.opts, 1), "bv2nat")
	key := sha256.Sum256([]byte(sp.name + q))
	statMu.Lock()
	if r, ok := queryCache[key]; ok && (r.status == "unsat" || r.status == "sat" || r.limit >= timeout) {
		statMu.Unlock()
		return r
	}
	statMu.Unlock()
	solverSem <- struct{}{}
	defer func() { <-solverSem }()
	if parent.Err() != nil {
		return Result{status: "timeout", solver: sp.name}
	}
	ctx, cancel := context.WithTimeout(parent, timeout+2*time.Second)
	defer cancel()
	args := append([]string(nil), sp.args...)
	switch sp.bin {
	case "cvc5":
		args = append(args, fmt.Sprintf("--tlimit=%d", timeout.Milliseconds()))
	default:
		args = append(args, fmt.Sprintf("-t:%d", timeout.Milliseconds()))
	}
	cmd := exec.CommandContext(ctx, sp.bin, args...)
	cmd.Stdin = strings.NewReader(q)
	t0 := time.Now()
	out, _ := cmd.CombinedOutput()
	for strings.HasPrefix(string(out), "WARNING") { // a pattern the solver ignores
		if i := strings.IndexByte(string(out), '\n'); i >= 0 {
			out = out[i+1:]
		} else {
			out = nil
		}
	}
	ms := time.Since(t0).Milliseconds()
	r := Result{solver: sp.name, ms: ms, out: string(out), limit: timeout}
	if parent.Err() != nil {
		r.status = "timeout"
		return r
	}
	first := strings.TrimSpace(strings.SplitN(string(out), "\n", 2)[0])
	switch first {
	case "unsat", "sat", "unknown":
		r.status = first
	case "timeout", "":
		r.status = "timeout"
	default:
		r.status = "error"
		if os.Getenv("GOVER_DEBUG") != "" {
			os.WriteFile("/tmp/gover_err.smt2", []byte(q), 0644)
			fmt.Fprintln(os.Stderr, "SOLVER ERROR:", string(out))
		}
	}
	if strings.Contains(string(out), "(error") && r.status != "unsat" {
		if !strings.Contains(string(out), "model is not available") {
			r.status = "error"
			if os.Getenv("GOVER_DEBUG") != "" {
				os.WriteFile("/tmp/gover_err.smt2", []byte(q), 0644)
				fmt.Fprintln(os.Stderr, "SOLVER ERROR:", string(out))
			}
		}
	}
	statMu.Lock()
	stats.queries++
	stats.solverMs += ms
	queryCache[key] = r
	statMu.Unlock()
	return r
}

// prove tries to discharge hyps |= goal.
func prove(hyps []*Node, goal *Node, timeout time.Duration, deep bool) Result {
	if goal == True {
		return Result{status: "unsat", solver: "simplifier"}
	}
	for _, h := range hyps {
		if h == False {
			return Result{status: "unsat", solver: "simplifier"}
		}
		if h == goal {
			return Result{status: "unsat", solver: "simplifier"}
		}
	}
	q := buildQueryLocked(hyps, goal)
	return proveText(q, timeout, deep)
}

var int2bvRe = regexp.MustCompile(`\(_ int2bv (\d+)\)`)
var bv2natRe = regexp.MustCompile(`bv2nat@(\d+)`)

// abstractConv replaces the conversions between bit vectors and integers by uninterpreted functions of
// which only range, injectivity and zero are kept; what is proved from this weaker theory holds.
func abstractConv(q string) string {
	ws := map[string]bool{}
	for _, re := range []*regexp.Regexp{int2bvRe, bv2natRe} {
		for _, m := range re.FindAllStringSubmatch(q, -1) {
			ws[m[1]] = true
		}
	}
	i := strings.Index(q, "(declare-sort Any 0)")
	if i < 0 {
		return ""
	}
	var pre strings.Builder
	for w := range ws {
		n, _ := strconv.Atoi(w)
		lim := new(big.Int).Lsh(big.NewInt(1), uint(n))
		pre.WriteString(strings.NewReplacer("$W", w, "$L", lim.String()).Replace(`(declare-fun ui2b$W (Int) (_ BitVec $W))
(declare-fun ub2n$W ((_ BitVec $W)) Int)
(assert (forall ((k Int)) (! (=> (and (<= 0 k) (< k $L)) (= (ub2n$W (ui2b$W k)) k)) :pattern ((ui2b$W k)))))
(assert (forall ((x (_ BitVec $W))) (! (and (<= 0 (ub2n$W x)) (< (ub2n$W x) $L) (= (ui2b$W (ub2n$W x)) x)) :pattern ((ub2n$W x)))))
(assert (= (ub2n$W (_ bv0 $W)) 0))
`))
	}
	return q[:i] + pre.String() + bv2natRe.ReplaceAllString(int2bvRe.ReplaceAllString(q[i:], "ui2b$1"), "ub2n$1")
}

func proveText(q string, timeout time.Duration, deep bool) Result {
	if deep && (strings.Contains(q, "(_ int2bv ") || strings.Contains(q, "bv2nat@")) && !strings.Contains(q, "(bv2nat ") {
		if a := abstractConv(q); a != "" {
			t := timeout / 2
			if t > 4*time.Second {
				t = 4 * time.Second
			}
			if r := runSolver("z3", a, t); r.status == "unsat" {
				return r
			}
		}
	}
	fp := strings.Contains(q, "FloatingPoint")
	r := Result{status: "unknown"}
	if !fp {
		r = runSolver("z3", q, timeout)
		if r.status == "unsat" || !deep {
			return r
		}
	}
	best := r
	others := []string{"z3b", "cvc5", "z3old"}
	if fp {
		others = []string{"cvc5", "z3mb", "z3"}
	}
	ch := make(chan Result, len(others))
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	for _, w := range others {
		w := w
		go func() { ch <- runSolverCtx(ctx, w, q, timeout) }()
	}
	for range others {
		x := <-ch
		if x.status == "unsat" {
			return x
		}
		if best.status == "unknown" {
			best = x
		}
	}
	return best
}

var buildMu sync.Mutex

func buildQueryLocked(hyps []*Node, goal *Node) string {
	buildMu.Lock()
	defer buildMu.Unlock()
	return buildQuery(hyps, goal, false, false)
}

// candidateModel asks for a (possibly partial) model of hyps && !goal.
func candidateModel(hyps []*Node, goal *Node, timeout time.Duration) (string, string) {
	buildMu.Lock()
	q := buildQuery(hyps, goal, false, true)
	buildMu.Unlock()
	r := runSolver("z3", q, timeout)
	return r.status, r.out
}
