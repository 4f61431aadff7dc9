package main

// Hash-consed SMT terms with light simplification.

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

type Node struct {
	op   string
	args []*Node
	sort string
	id   int
	iv   *big.Int // integer constant
	fv   []*Node  // free bound variables
	bs   []*Node  // binders (quantifiers)
	pats [][]*Node
}

var interned = map[string]*Node{}
var nodeSeq int

func mk(op, srt string, args ...*Node) *Node {
	var b strings.Builder
	b.WriteString(op)
	b.WriteByte('|')
	b.WriteString(srt)
	for _, a := range args {
		fmt.Fprintf(&b, "|%d", a.id)
	}
	k := b.String()
	if n, ok := interned[k]; ok {
		return n
	}
	nodeSeq++
	n := &Node{op: op, args: args, sort: srt, id: nodeSeq}
	for _, a := range args {
		n.fv = unionFV(n.fv, a.fv)
	}
	interned[k] = n
	return n
}

func unionFV(a, b []*Node) []*Node {
	if len(b) == 0 {
		return a
	}
	r := append([]*Node(nil), a...)
	for _, x := range b {
		f := false
		for _, y := range r {
			if x == y {
				f = true
			}
		}
		if !f {
			r = append(r, x)
		}
	}
	return r
}

// declared constants and functions
var constSort = map[string]string{}

type fnSig struct {
	args []string
	ret  string
}

var fnDecl = map[string]fnSig{}

var freshCtr = map[string]int{}

func sanitize(s string) string {
	r := []byte(s)
	for i, c := range r {
		switch {
		case c >= 'a' && c <= 'z', c >= 'A' && c <= 'Z', c >= '0' && c <= '9', c == '_', c == '.', c == '!', c == '$':
		default:
			r[i] = '_'
		}
	}
	return string(r)
}

func Const(name, srt string) *Node {
	name = sanitize(name)
	if s, ok := constSort[name]; ok && s != srt {
		panic("const redeclared: " + name + " " + s + " " + srt)
	}
	constSort[name] = srt
	return mk("c:"+name, srt)
}
func Fresh(hint, srt string) *Node {
	hint = sanitize(hint)
	freshCtr[hint]++
	return Const(fmt.Sprintf("%s!%d", hint, freshCtr[hint]), srt)
}
func App(fn, ret string, args ...*Node) *Node {
	if _, ok := theorySyms[fn]; !ok {
		if d, ok := fnDecl[fn]; !ok {
			s := fnSig{ret: ret}
			for _, a := range args {
				s.args = append(s.args, a.sort)
			}
			fnDecl[fn] = s
		} else {
			if len(d.args) != len(args) {
				panic("arity " + fn)
			}
			for i := range args {
				if d.args[i] != args[i].sort {
					panic(fmt.Sprintf("sort mismatch in %s arg %d: %s vs %s", fn, i, d.args[i], args[i].sort))
				}
			}
		}
	} else {
		d := theorySyms[fn]
		if len(d.args) != len(args) {
			panic(&Unsupported{fmt.Sprintf("spec function %s expects %d arguments, got %d", fn, len(d.args), len(args))})
		}
		for i := range args {
			if d.args[i] != args[i].sort {
				panic(&Unsupported{fmt.Sprintf("spec function %s argument %d: want %s got %s", fn, i, d.args[i], args[i].sort)})
			}
		}
		ret = d.ret
	}
	switch {
	case strings.HasPrefix(fn, "unbox."):
		// unbox.T.i(box.T(...)) -> component
		if strings.HasPrefix(args[0].op, "f:box.") {
			rest := fn[len("unbox."):]
			j := strings.LastIndex(rest, ".")
			t, is := rest[:j], rest[j+1:]
			if args[0].op == "f:box."+t {
				var i int
				fmt.Sscanf(is, "%d", &i)
				return args[0].args[i]
			}
		}
	case fn == "tag":
		if strings.HasPrefix(args[0].op, "f:box.") {
			return IntC(int64(boxTag(args[0].op[len("f:box."):])))
		}
		if args[0] == NilAny {
			return IntC(0)
		}
	}
	return mk("f:"+fn, ret, args...)
}

var (
	True, False *Node
	NilAny      *Node
)

func initTerms() {
	True = mk("true", "Bool")
	False = mk("false", "Bool")
	NilAny = mk("c:nilAny", "Any")
	constSort["nilAny"] = "Any"
}

func BoolC(b bool) *Node {
	if b {
		return True
	}
	return False
}
func IntB(v *big.Int) *Node {
	n := mk("i:"+v.String(), "Int")
	n.iv = new(big.Int).Set(v)
	return n
}
func IntC(v int64) *Node { return IntB(big.NewInt(v)) }

func BVC(v uint64, w int) *Node {
	return mk(fmt.Sprintf("(_ bv%d %d)", v, w), fmt.Sprintf("(_ BitVec %d)", w))
}

func Not(a *Node) *Node {
	if a == True {
		return False
	}
	if a == False {
		return True
	}
	if a.op == "not" {
		return a.args[0]
	}
	return mk("not", "Bool", a)
}
func And(as ...*Node) *Node {
	var r []*Node
	seen := map[*Node]bool{}
	for _, a := range as {
		if a == nil || a == True {
			continue
		}
		if a == False {
			return False
		}
		if a.op == "and" {
			for _, x := range a.args {
				if !seen[x] {
					seen[x] = true
					r = append(r, x)
				}
			}
			continue
		}
		if !seen[a] {
			seen[a] = true
			r = append(r, a)
		}
	}
	switch len(r) {
	case 0:
		return True
	case 1:
		return r[0]
	}
	return mk("and", "Bool", r...)
}
func Or(as ...*Node) *Node {
	var r []*Node
	for _, a := range as {
		if a == False {
			continue
		}
		if a == True {
			return True
		}
		if a.op == "or" {
			r = append(r, a.args...)
			continue
		}
		r = append(r, a)
	}
	switch len(r) {
	case 0:
		return False
	case 1:
		return r[0]
	}
	return mk("or", "Bool", r...)
}
func Imp(a, b *Node) *Node {
	if a == True {
		return b
	}
	if a == False || b == True {
		return True
	}
	if b == False {
		return Not(a)
	}
	return mk("=>", "Bool", a, b)
}
func Ite(c, a, b *Node) *Node {
	if c == True {
		return a
	}
	if c == False {
		return b
	}
	if a == b {
		return a
	}
	if a.sort != b.sort {
		panic("ite sorts " + a.sort + " " + b.sort)
	}
	if a.sort == "Bool" {
		if a == True && b == False {
			return c
		}
		if a == False && b == True {
			return Not(c)
		}
	}
	return mk("ite", a.sort, c, a, b)
}

func isBVLit(n *Node) bool { return strings.HasPrefix(n.op, "(_ bv") }

// distinctConst reports that a and b are certainly different.
func distinctLit(a, b *Node) bool {
	if a.iv != nil && b.iv != nil {
		return a.iv.Cmp(b.iv) != 0
	}
	if isBVLit(a) && isBVLit(b) {
		return a.op != b.op
	}
	if a.sort == "Bool" {
		return (a == True && b == False) || (a == False && b == True)
	}
	if a.sort == "Any" {
		ab, bb := strings.HasPrefix(a.op, "f:box."), strings.HasPrefix(b.op, "f:box.")
		if ab && bb && a.op != b.op {
			return true
		}
		if (ab && b == NilAny) || (bb && a == NilAny) {
			return true
		}
		if ab && bb && a.op == b.op && len(a.args) == 1 {
			return distinctLit(a.args[0], b.args[0])
		}
	}
	if a.sort == "Int" {
		// base + const forms with the same base
		ba, ca := splitAdd(a)
		bb, cb := splitAdd(b)
		if ba == bb && ba != nil && ca.Cmp(cb) != 0 {
			return true
		}
		// two allocations
		// fresh references vs null
		if a.iv != nil && a.iv.Sign() == 0 && isFreshRef(b) {
			return true
		}
		if b.iv != nil && b.iv.Sign() == 0 && isFreshRef(a) {
			return true
		}
		if knownBelow(a, b) || knownBelow(b, a) {
			return true
		}
	}
	if a.sort == "Fn" {
		ac, bc := strings.HasPrefix(a.op, "c:clo!"), strings.HasPrefix(b.op, "c:clo!")
		if (ac && b.op == "c:nilFn") || (bc && a.op == "c:nilFn") {
			return true
		}
	}
	return false
}
func isFreshRef(n *Node) bool {
	b, c := splitAdd(n)
	return b != nil && strings.HasPrefix(b.op, "c:top!") && c.Sign() >= 0
}
func splitAdd(a *Node) (*Node, *big.Int) {
	if a.iv != nil {
		return nil, a.iv
	}
	if a.op == "+" && len(a.args) == 2 && a.args[1].iv != nil {
		return a.args[0], a.args[1].iv
	}
	return a, new(big.Int)
}

func Eq(a, b *Node) *Node {
	if a == b {
		return True
	}
	if a.sort != b.sort {
		panic(&Unsupported{fmt.Sprintf("equality between sorts %s and %s", a.sort, b.sort)})
	}
	if distinctLit(a, b) {
		return False
	}
	if a.sort == "Bool" {
		if a == True {
			return b
		}
		if b == True {
			return a
		}
		if a == False {
			return Not(b)
		}
		if b == False {
			return Not(a)
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk("=", "Bool", a, b)
}
func Neq(a, b *Node) *Node { return Not(Eq(a, b)) }

func Add(a, b *Node) *Node {
	if a.iv != nil && b.iv != nil {
		return IntB(new(big.Int).Add(a.iv, b.iv))
	}
	if a.iv != nil {
		a, b = b, a
	}
	if b.iv != nil {
		if b.iv.Sign() == 0 {
			return a
		}
		if a.op == "+" && len(a.args) == 2 && a.args[1].iv != nil {
			return Add(a.args[0], IntB(new(big.Int).Add(a.args[1].iv, b.iv)))
		}
		return mk("+", "Int", a, b)
	}
	// keep constants outermost
	ba, ca := splitAdd(a)
	bb, cb := splitAdd(b)
	if ca.Sign() != 0 || cb.Sign() != 0 {
		return Add(Add(ba, bb), IntB(new(big.Int).Add(ca, cb)))
	}
	return mk("+", "Int", a, b)
}
func Sub(a, b *Node) *Node {
	if b.iv != nil {
		return Add(a, IntB(new(big.Int).Neg(b.iv)))
	}
	if a == b {
		return IntC(0)
	}
	ba, ca := splitAdd(a)
	bb, cb := splitAdd(b)
	if ba == bb && ba != nil {
		return IntB(new(big.Int).Sub(ca, cb))
	}
	// (x + y) - y -> x
	if ba != nil && bb != nil && ba.op == "+" && len(ba.args) == 2 && (ba.args[0] == bb || ba.args[1] == bb) {
		o := ba.args[0]
		if o == bb {
			o = ba.args[1]
		}
		return Add(o, IntB(new(big.Int).Sub(ca, cb)))
	}
	return mk("-", "Int", a, b)
}
func Mul(a, b *Node) *Node {
	if a.iv != nil && b.iv != nil {
		return IntB(new(big.Int).Mul(a.iv, b.iv))
	}
	if a.iv != nil {
		a, b = b, a
	}
	if b.iv != nil {
		if b.iv.Sign() == 0 {
			return b
		}
		if b.iv.Cmp(big.NewInt(1)) == 0 {
			return a
		}
	}
	return mk("*", "Int", a, b)
}
func Le(a, b *Node) *Node {
	if a == b {
		return True
	}
	if a.iv != nil && b.iv != nil {
		return BoolC(a.iv.Cmp(b.iv) <= 0)
	}
	ba, ca := splitAdd(a)
	bb, cb := splitAdd(b)
	if ba == bb && ba != nil {
		return BoolC(ca.Cmp(cb) <= 0)
	}
	la, ha := interval(a)
	lb, hb := interval(b)
	if ha != nil && lb != nil && ha.Cmp(lb) <= 0 {
		return True
	}
	if la != nil && hb != nil && la.Cmp(hb) > 0 {
		return False
	}
	return mk("<=", "Bool", a, b)
}
func Lt(a, b *Node) *Node { return Not(Le(b, a)) }

// known intervals of symbolic integer constants
var ivals = map[*Node][2]*big.Int{}

func SetInterval(n *Node, lo, hi *big.Int) { ivals[n] = [2]*big.Int{lo, hi} }

func interval(n *Node) (lo, hi *big.Int) {
	if n.iv != nil {
		return n.iv, n.iv
	}
	if v, ok := ivals[n]; ok {
		return v[0], v[1]
	}
	switch n.op {
	case "+":
		a, b := interval(n.args[0])
		c, d := interval(n.args[1])
		if a != nil && c != nil {
			lo = new(big.Int).Add(a, c)
		}
		if b != nil && d != nil {
			hi = new(big.Int).Add(b, d)
		}
	case "-":
		a, b := interval(n.args[0])
		c, d := interval(n.args[1])
		if a != nil && d != nil {
			lo = new(big.Int).Sub(a, d)
		}
		if b != nil && c != nil {
			hi = new(big.Int).Sub(b, c)
		}
	case "ite":
		a, b := interval(n.args[1])
		c, d := interval(n.args[2])
		if a != nil && c != nil {
			lo = a
			if c.Cmp(a) < 0 {
				lo = c
			}
		}
		if b != nil && d != nil {
			hi = b
			if d.Cmp(b) > 0 {
				hi = d
			}
		}
	case "f:len.SeqInt", "f:len.SeqAny", "f:len.SeqB8", "f:len.SeqStr", "f:blen", "bv2nat":
		lo = new(big.Int)
		if n.op == "bv2nat" {
			var w int
			fmt.Sscanf(n.args[0].sort, "(_ BitVec %d)", &w)
			hi = new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(w)), big.NewInt(1))
		}
	case "f:wrap64":
		return minI64, maxI64
	}
	return
}

var (
	maxI64 = new(big.Int).SetInt64(1<<63 - 1)
	minI64 = new(big.Int).SetInt64(-1 << 63)
	two64  = new(big.Int).Lsh(big.NewInt(1), 64)
	maxU64 = new(big.Int).Sub(two64, big.NewInt(1))
	maxLen = new(big.Int).Lsh(big.NewInt(1), 56)
)

// Wrap normalises a mathematical integer into the given machine type.
func Wrap(n *Node, bits int, signed bool) *Node {
	var lo, hi *big.Int
	one := big.NewInt(1)
	if signed {
		hi = new(big.Int).Sub(new(big.Int).Lsh(one, uint(bits-1)), one)
		lo = new(big.Int).Neg(new(big.Int).Lsh(one, uint(bits-1)))
	} else {
		lo = new(big.Int)
		hi = new(big.Int).Sub(new(big.Int).Lsh(one, uint(bits)), one)
	}
	mod := new(big.Int).Lsh(one, uint(bits))
	if n.iv != nil {
		v := new(big.Int).Sub(n.iv, lo)
		v.Mod(v, mod)
		v.Add(v, lo)
		return IntB(v)
	}
	l, h := interval(n)
	if l != nil && h != nil && l.Cmp(lo) >= 0 && h.Cmp(hi) <= 0 {
		return n
	}
	M := IntB(mod)
	in := Ite(Le(n, IntB(hi)), Ite(Le(IntB(lo), n), n, Add(n, M)), Sub(n, M))
	// values further out (only products, shifts) wrap by modulo
	if l != nil && h != nil && l.Cmp(new(big.Int).Sub(lo, mod)) >= 0 && h.Cmp(new(big.Int).Add(hi, mod)) <= 0 {
		ivals[in] = [2]*big.Int{lo, hi}
		return in
	}
	r := Add(mk("mod", "Int", Sub(n, IntB(lo)), M), IntB(lo))
	ivals[r] = [2]*big.Int{lo, hi}
	return r
}

func Select(a, i *Node) *Node {
	// (Array X Y)
	es := arrayElem(a.sort)
	for {
		if a.op == "store" {
			if a.args[1] == i {
				return a.args[2]
			}
			if distinctLit(a.args[1], i) {
				a = a.args[0]
				continue
			}
		}
		if a.op == "constarr" {
			return a.args[0]
		}
		if fi, ok := frameOf[a]; ok && knownBelow(i, fi.top) {
			// what existed before the loop is unchanged
			a = fi.base
			continue
		}
		break
	}
	if s, ok := arrSeq[a]; ok {
		return Sidx(s, i)
	}
	return mk("select", es, a, i)
}
func Store(a, i, v *Node) *Node {
	if arrayElem(a.sort) != v.sort || arrayIdx(a.sort) != i.sort {
		panic("store sort " + a.sort + " " + i.sort + " " + v.sort)
	}
	if a.op == "store" && a.args[1] == i {
		a = a.args[0]
	}
	if a.op == "select" || a.op == "c:" {
	}
	if v.op == "select" && v.args[0] == a && v.args[1] == i {
		return a
	}
	return mk("store", a.sort, a, i, v)
}
func ConstArr(srt string, v *Node) *Node { return mk("constarr", srt, v) }
func ArrSort(i, e string) string         { return "(Array " + i + " " + e + ")" }

func splitSort(s string) (string, string) {
	// s = "(Array A B)"
	in := s[len("(Array ") : len(s)-1]
	d := 0
	for k := 0; k < len(in); k++ {
		switch in[k] {
		case '(':
			d++
		case ')':
			d--
		case ' ':
			if d == 0 {
				return in[:k], in[k+1:]
			}
		}
	}
	panic("bad array sort " + s)
}
func arrayElem(s string) string { _, e := splitSort(s); return e }
func arrayIdx(s string) string  { i, _ := splitSort(s); return i }

func BoundVar(hint, srt string) *Node {
	nodeSeq++
	n := &Node{op: fmt.Sprintf("b:%s?%d", sanitize(hint), nodeSeq), sort: srt, id: nodeSeq}
	n.fv = []*Node{n}
	return n
}
func Forall(bs []*Node, body *Node, pats ...[]*Node) *Node {
	return quant("forall", bs, body, pats)
}
func Exists(bs []*Node, body *Node) *Node { return quant("exists", bs, body, nil) }
func quant(q string, bs []*Node, body *Node, pats [][]*Node) *Node {
	if body == True || body == False {
		return body
	}
	// a pattern must be made of terms that are no constants and mention every bound variable
	var keep [][]*Node
	for _, p := range pats {
		seen, ok := map[*Node]bool{}, true
		for _, t := range p {
			if len(t.args) == 0 {
				ok = false
			}
			for _, v := range t.fv {
				seen[v] = true
			}
		}
		for _, b := range bs {
			ok = ok && seen[b]
		}
		if ok {
			keep = append(keep, p)
		}
	}
	pats = keep
	nodeSeq++
	n := &Node{op: q, args: []*Node{body}, sort: "Bool", id: nodeSeq, bs: bs, pats: pats}
	for _, v := range body.fv {
		skip := false
		for _, b := range bs {
			if b == v {
				skip = true
			}
		}
		if !skip {
			n.fv = append(n.fv, v)
		}
	}
	return n
}

// subst replaces nodes (used for bound variables and goal rewriting).
func subst(n *Node, m map[*Node]*Node) *Node {
	memo := map[*Node]*Node{}
	var rec func(n *Node) *Node
	rec = func(n *Node) *Node {
		if r, ok := m[n]; ok {
			return r
		}
		if len(n.args) == 0 {
			return n
		}
		if r, ok := memo[n]; ok {
			return r
		}
		var as []*Node
		ch := false
		for _, a := range n.args {
			x := rec(a)
			if x != a {
				ch = true
			}
			as = append(as, x)
		}
		r := n
		if ch {
			r = rebuild(n, as, rec)
		}
		memo[n] = r
		return r
	}
	return rec(n)
}

func rebuild(n *Node, as []*Node, rec func(*Node) *Node) *Node {
	switch n.op {
	case "forall", "exists":
		var ps [][]*Node
		for _, p := range n.pats {
			var q []*Node
			for _, x := range p {
				q = append(q, rec(x))
			}
			ps = append(ps, q)
		}
		return quant(n.op, n.bs, as[0], ps)
	case "not":
		return Not(as[0])
	case "and":
		return And(as...)
	case "or":
		return Or(as...)
	case "=>":
		return Imp(as[0], as[1])
	case "ite":
		return Ite(as[0], as[1], as[2])
	case "=":
		return Eq(as[0], as[1])
	case "+":
		return Add(as[0], as[1])
	case "-":
		return Sub(as[0], as[1])
	case "<=":
		return Le(as[0], as[1])
	case "select":
		return Select(as[0], as[1])
	case "store":
		return Store(as[0], as[1], as[2])
	}
	if strings.HasPrefix(n.op, "f:") {
		return App(n.op[2:], n.sort, as...)
	}
	return mk(n.op, n.sort, as...)
}

// ---- printing ----

type printer struct {
	defs  []string
	names map[*Node]string
	refs  map[*Node]int
	syms  map[string]bool // function symbols used
	cons  map[string]bool
	sorts map[string]bool
}

func newPrinter() *printer {
	return &printer{names: map[*Node]string{}, refs: map[*Node]int{}, syms: map[string]bool{}, cons: map[string]bool{}, sorts: map[string]bool{}}
}

func (p *printer) count(n *Node) {
	p.refs[n]++
	if p.refs[n] > 1 {
		return
	}
	p.sorts[n.sort] = true
	for _, a := range n.args {
		p.count(a)
	}
	for _, b := range n.bs {
		p.sorts[b.sort] = true
	}
	for _, ps := range n.pats {
		for _, x := range ps {
			p.count(x)
		}
	}
}

func (p *printer) str(n *Node) string {
	if s, ok := p.names[n]; ok {
		return s
	}
	s := p.raw(n)
	if len(n.args) > 0 && len(n.fv) == 0 && p.refs[n] > 1 && len(s) > 30 {
		name := fmt.Sprintf("d!%d", n.id)
		p.defs = append(p.defs, fmt.Sprintf("(define-fun %s () %s %s)", name, n.sort, s))
		p.names[n] = name
		return name
	}
	return s
}

func (p *printer) raw(n *Node) string {
	switch {
	case strings.HasPrefix(n.op, "c:"):
		p.cons[n.op[2:]] = true
		return n.op[2:]
	case strings.HasPrefix(n.op, "b:"):
		return n.op[2:]
	case strings.HasPrefix(n.op, "i:"):
		if n.iv.Sign() < 0 {
			return "(- " + new(big.Int).Neg(n.iv).String() + ")"
		}
		return n.iv.String()
	case n.op == "forall" || n.op == "exists":
		var b strings.Builder
		b.WriteString("(" + n.op + " (")
		for _, v := range n.bs {
			b.WriteString("(" + v.op[2:] + " " + v.sort + ")")
		}
		b.WriteString(") ")
		body := p.str(n.args[0])
		if len(n.pats) > 0 {
			b.WriteString("(! " + body)
			for _, ps := range n.pats {
				b.WriteString(" :pattern (")
				for i, x := range ps {
					if i > 0 {
						b.WriteString(" ")
					}
					b.WriteString(p.str(x))
				}
				b.WriteString(")")
			}
			b.WriteString("))")
		} else {
			b.WriteString(body + ")")
		}
		return b.String()
	case n.op == "constarr":
		return "((as const " + n.sort + ") " + p.str(n.args[0]) + ")"
	}
	op := n.op
	if strings.HasPrefix(op, "f:") {
		op = op[2:]
		p.syms[op] = true
	}
	if op == "bv2nat" {
		op = fmt.Sprintf("bv2nat@%d", bvWidth(n.args[0].sort))
	}
	if len(n.args) == 0 {
		return op
	}
	var b strings.Builder
	b.WriteString("(" + op)
	for _, a := range n.args {
		b.WriteByte(' ')
		b.WriteString(p.str(a))
	}
	b.WriteByte(')')
	return b.String()
}

func sortedKeys(m map[string]bool) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

type Unsupported struct{ msg string }

func (u *Unsupported) Error() string { return u.msg }
func unsup(f string, a ...interface{}) {
	panic(&Unsupported{fmt.Sprintf(f, a...)})
}
