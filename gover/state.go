package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type deferred struct {
	call *ssa.Defer
	fn   Val // callee value (closure / builtin / static)
	args []Val
}

type Frame struct {
	fn     *ssa.Function
	regs   map[ssa.Value]Val
	binds  []Val
	block  *ssa.BasicBlock
	idx    int
	prev   *ssa.BasicBlock
	defers []*deferred
	active map[*ssa.BasicBlock]*loopAct
	unroll map[*ssa.BasicBlock]int
	// what to do with the results in the caller
	onRet func(x *Exec, st *State, res []Val)
	// running deferred functions: continue with this after the list is empty
	rundefer  bool
	panicking bool
	recovered bool
	panicVal  *Node
	proc      *Proc // non-nil: bottom frame of a process executed in place
	isDefer   bool  // called as a deferred function by the frame below
}

type State struct {
	uorig  map[*Node]types.Type // type an object was allocated with, for references converted to unsafe.Pointer
	frames []*Frame
	cells  map[*Cell]Val
	fwd    map[*Cell]*Node
	heap   map[string]*Node
	pc     []*Node
	pcset  map[*Node]bool
	top    *Node
	proc   *Proc
	conc   *Conc
	dead   bool
	trace  []string
}

func (st *State) setOrigin(n *Node, t types.Type) {
	m := map[*Node]types.Type{n: t}
	for k, v := range st.uorig {
		if k != n {
			m[k] = v
		}
	}
	st.uorig = m
}

func (st *State) clone() *State {
	n := *st
	n.frames = make([]*Frame, len(st.frames))
	for i, f := range st.frames {
		g := *f
		g.regs = make(map[ssa.Value]Val, len(f.regs))
		for k, v := range f.regs {
			g.regs[k] = v
		}
		g.defers = append([]*deferred(nil), f.defers...)
		g.active = make(map[*ssa.BasicBlock]*loopAct, len(f.active))
		for k, v := range f.active {
			g.active[k] = v
		}
		g.unroll = make(map[*ssa.BasicBlock]int, len(f.unroll))
		for k, v := range f.unroll {
			g.unroll[k] = v
		}
		n.frames[i] = &g
	}
	n.cells = make(map[*Cell]Val, len(st.cells))
	for k, v := range st.cells {
		n.cells[k] = v
	}
	n.fwd = make(map[*Cell]*Node, len(st.fwd))
	for k, v := range st.fwd {
		n.fwd[k] = v
	}
	n.heap = make(map[string]*Node, len(st.heap))
	for k, v := range st.heap {
		n.heap[k] = v
	}
	n.pc = st.pc[:len(st.pc):len(st.pc)]
	n.pcset = make(map[*Node]bool, len(st.pcset))
	for k := range st.pcset {
		n.pcset[k] = true
	}
	n.conc = st.conc.clone()
	n.trace = st.trace[:len(st.trace):len(st.trace)]
	return &n
}

func (st *State) top_() *Frame { return st.frames[len(st.frames)-1] }

func (st *State) assume(n *Node) {
	if len(n.fv) > 0 {
		return // about the bound variable of a contract quantifier
	}
	if n == True {
		return
	}
	if n == False {
		st.dead = true
	}
	if n.op == "and" {
		for _, a := range n.args {
			st.assume(a)
		}
		return
	}
	if st.pcset[n] {
		return
	}
	if st.pcset[Not(n)] {
		st.dead = true
	}
	st.pcset[n] = true
	st.pc = append(st.pc, n)
}

// known decides a condition syntactically from the path condition.
func (st *State) known(n *Node) (bool, bool) {
	if n == True {
		return true, true
	}
	if n == False {
		return false, true
	}
	if st.pcset[n] {
		return true, true
	}
	if st.pcset[Not(n)] {
		return false, true
	}
	if n.op == "and" {
		all := true
		for _, a := range n.args {
			v, ok := st.known(a)
			if ok && !v {
				return false, true
			}
			if !ok {
				all = false
			}
		}
		if all {
			return true, true
		}
	}
	if n.op == "or" {
		all := true
		for _, a := range n.args {
			v, ok := st.known(a)
			if ok && v {
				return true, true
			}
			if !ok {
				all = false
			}
		}
		if all {
			return false, true
		}
	}
	return false, false
}

// bounds of an integer node using the path condition (one step).
func (st *State) bounds(n *Node) (lo, hi *big.Int) {
	lo, hi = interval(n)
	b, c := splitAdd(n)
	if b == nil {
		return
	}
	upd := func(l, h *big.Int) {
		if l != nil && (lo == nil || l.Cmp(lo) > 0) {
			lo = l
		}
		if h != nil && (hi == nil || h.Cmp(hi) < 0) {
			hi = h
		}
	}
	one := big.NewInt(1)
	for _, p := range st.pc {
		neg := false
		q := p
		if q.op == "not" {
			neg = true
			q = q.args[0]
		}
		switch q.op {
		case "<=":
			x, y := q.args[0], q.args[1]
			bx, cx := splitAdd(x)
			by, cy := splitAdd(y)
			if bx == b {
				ly, hy := interval(y)
				if !neg { // bx + cx <= y  => n = bx + c <= y - cx + c
					if hy != nil {
						upd(nil, new(big.Int).Add(new(big.Int).Sub(hy, cx), c))
					}
				} else if ly != nil { // bx+cx > y
					upd(new(big.Int).Add(new(big.Int).Add(new(big.Int).Sub(ly, cx), c), one), nil)
				}
			}
			if by == b {
				lx, hx := interval(x)
				if !neg { // x <= by + cy
					if lx != nil {
						upd(new(big.Int).Add(new(big.Int).Sub(lx, cy), c), nil)
					}
				} else if hx != nil { // x > by + cy
					upd(nil, new(big.Int).Sub(new(big.Int).Add(new(big.Int).Sub(hx, cy), c), one))
				}
			}
		case "=":
			if !neg && q.args[0].sort == "Int" {
				for k := 0; k < 2; k++ {
					x, y := q.args[k], q.args[1-k]
					bx, cx := splitAdd(x)
					if bx == b {
						ly, hy := interval(y)
						if ly != nil {
							upd(new(big.Int).Add(new(big.Int).Sub(ly, cx), c), nil)
						}
						if hy != nil {
							upd(nil, new(big.Int).Add(new(big.Int).Sub(hy, cx), c))
						}
					}
				}
			}
		}
	}
	if b.op == "-" && len(b.args) == 2 {
		l1, h1 := st.bounds(b.args[0])
		l2, h2 := st.bounds(b.args[1])
		if l1 != nil && h2 != nil {
			upd(new(big.Int).Add(new(big.Int).Sub(l1, h2), c), nil)
		}
		if h1 != nil && l2 != nil {
			upd(nil, new(big.Int).Add(new(big.Int).Sub(h1, l2), c))
		}
	}
	if b.op == "+" && len(b.args) == 2 {
		l1, h1 := st.bounds(b.args[0])
		l2, h2 := st.bounds(b.args[1])
		if l1 != nil && l2 != nil {
			upd(new(big.Int).Add(new(big.Int).Add(l1, l2), c), nil)
		}
		if h1 != nil && h2 != nil {
			upd(nil, new(big.Int).Add(new(big.Int).Add(h1, h2), c))
		}
	}
	return
}

// references -----------------------------------------------------------

type refBnd struct {
	base *Node
	off  *big.Int
}

var refBound = map[*Node]refBnd{}
var topIndex = map[*Node]int{}
var topSeq int

func newTop() *Node {
	topSeq++
	n := Const(fmt.Sprintf("top!%d", topSeq), "Int")
	topIndex[n] = topSeq
	SetInterval(n, big.NewInt(1), nil)
	return n
}

// topFloor: the top of which a later top is the loop-header value.
var topFloor = map[*Node]*Node{}

// topFor: a reference read from the initial heap was allocated before the call.
func (x *Exec) topFor(st *State, n *Node) *Node {
	m := n
	for m.op == "select" {
		m = m.args[0]
	}
	if m != n && strings.HasPrefix(m.op, "c:H0.") && x.init != nil {
		return x.init.top
	}
	return st.top
}

func (x *Exec) noteRef(st *State, n *Node) {
	if _, ok := refBound[n]; ok {
		return
	}
	if n.iv != nil {
		return
	}
	b, c := splitAdd(x.topFor(st, n))
	refBound[n] = refBnd{b, new(big.Int).Set(c)}
}

// knownBelow: n is certainly smaller than the fresh reference f.
func knownBelow(n, f *Node) bool {
	rb, ok := refBound[n]
	if !ok {
		// an object allocated by the function itself: top!k + c is below top!k + d and above it for larger c
		nb, nc := splitAdd(n)
		fb, fc := splitAdd(f)
		if nb == nil || fb == nil || !strings.HasPrefix(nb.op, "c:top!") {
			return false
		}
		for nb != fb {
			fl := topFloor[fb]
			if fl == nil {
				return false
			}
			b, c := splitAdd(fl)
			fb, fc = b, new(big.Int).Add(c, fc)
			if fb == nil {
				return false
			}
		}
		return nc.Cmp(fc) < 0
	}
	b, c := splitAdd(f)
	if b == nil || !strings.HasPrefix(b.op, "c:top!") {
		return false
	}
	if b == rb.base {
		return c.Cmp(rb.off) >= 0
	}
	return topIndex[b] > topIndex[rb.base] && c.Sign() >= 0
}

func (st *State) alloc() *Node {
	r := st.top
	st.top = Add(st.top, IntC(1))
	st.conc.allocs = append(st.conc.allocs[:len(st.conc.allocs):len(st.conc.allocs)], r)
	return r
}

// heap components -------------------------------------------------------

func (x *Exec) comp(st *State, name, srt string) *Node {
	if n, ok := st.heap[name]; ok {
		return n
	}
	n := x.initComp(name, srt)
	st.heap[name] = n
	return n
}

// initComp is the value of a heap component at function entry.
func (x *Exec) initComp(name, srt string) *Node {
	x.compSort[name] = srt
	if x.con != nil && x.con.abstract && strings.HasSuffix(name, ".off") && strings.HasPrefix(name, "F.") && srt == ArrSort("Int", "Int") {
		return ConstArr(srt, IntC(0)) // slices held in fields start at their array (contract clause abstract)
	}
	return Const("H0."+name, srt)
}

func fieldComp(root types.Type, path string) string { return "F." + typeKey(root) + "." + path }

// subLeaves gives the leaf range of a field path inside root.
func subLeaves(root types.Type, path []int) (types.Type, int, []leaf) {
	t := root
	start := 0
	for _, i := range path {
		s, ok := types.Unalias(t).Underlying().(*types.Struct)
		if !ok {
			unsup("field path in %s", t)
		}
		if isOpaque(t) {
			if typeName(t) == "sync.Pool" && i == 0 { // New is the only field represented
				return s.Field(s.NumFields() - 1).Type(), start, leaves(s.Field(s.NumFields() - 1).Type())
			}
			unsup("field of %s", typeName(t))
		}
		for j := 0; j < i; j++ {
			start += len(leaves(s.Field(j).Type()))
		}
		t = s.Field(i).Type()
	}
	return t, start, leaves(t)
}

func isStruct(t types.Type) bool {
	_, ok := types.Unalias(t).Underlying().(*types.Struct)
	return ok
}

// compNamesFor lists (component, sort) of the leaves addressed by a heap pointer.
func ptrComps(p *PtrV) (types.Type, []string, []string) {
	t, start, ls := subLeaves(p.root, p.path)
	all := leaves(p.root)
	var names, sorts []string
	for k := range ls {
		l := all[start+k]
		var nm string
		if p.idx != nil {
			nm = "E." + elemKey(p.root) + "." + l.path
		} else if isStruct(p.root) {
			nm = "F." + typeKey(p.root) + "." + l.path
		} else {
			nm = "C." + elemKey(p.root) + "." + l.path
		}
		names = append(names, nm)
		sorts = append(sorts, l.sort)
	}
	return t, names, sorts
}

func (x *Exec) resolve(st *State, p *PtrV) *PtrV {
	if p.cell != nil {
		if r, ok := st.fwd[p.cell]; ok {
			return &PtrV{ref: r, root: p.cell.typ, path: p.path}
		}
	}
	return p
}

// load reads a value through a pointer.
func (x *Exec) load(st *State, p *PtrV) Val {
	p = x.resolve(st, p)
	if p.cell != nil {
		v, ok := st.cells[p.cell]
		if !ok {
			unsup("read of unknown local %s", p.cell.name)
		}
		x.cellRead(st, p.cell)
		for _, i := range p.path {
			sv, ok := v.(*StructV)
			if !ok {
				unsup("field of non-struct")
			}
			v = sv.f[i]
		}
		return v
	}
	if v := x.globalConst(st, p); v != nil {
		return v
	}
	if o := st.uorig[p.ref]; o != nil && !types.Identical(o, p.root) {
		return x.punLoad(st, p, o)
	} else if o != nil && headerKind(o) == "bytes" && p.idx == nil && len(p.path) == 0 {
		s := x.rawSlice(st, p)
		x.check(st, "header", And(Le(IntC(0), s.len), Le(s.len, s.cap), memLimit(s)), token.NoPos)
		return s
	}
	t, names, sorts := ptrComps(p)
	x.heapAccess(st, p, names, false)
	var ns []*Node
	for k := range names {
		var n *Node
		if p.idx != nil {
			a := Select(x.comp(st, names[k], ArrSort("Int", ArrSort("Int", sorts[k]))), p.ref)
			n = Select(a, p.idx)
		} else {
			n = Select(x.comp(st, names[k], ArrSort("Int", sorts[k])), p.ref)
		}
		ns = append(ns, n)
	}
	v, _ := unflatten(t, ns)
	x.typeFacts(st, t, v, false)
	return v
}

func (x *Exec) store(st *State, p *PtrV, v Val) {
	p = x.resolve(st, p)
	if p.cell != nil {
		x.cellWrite(st, p.cell)
		cur, ok := st.cells[p.cell]
		if !ok {
			unsup("write of unknown local")
		}
		st.cells[p.cell] = updPath(cur, p.path, v)
		return
	}
	v = x.escape(st, v)
	if o := st.uorig[p.ref]; o != nil && !types.Identical(o, p.root) {
		x.punStore(st, p, o, v)
		return
	}
	_, names, sorts := ptrComps(p)
	x.heapAccess(st, p, names, true)
	ns := flatten(v)
	if len(ns) != len(names) {
		panic("store: leaves mismatch")
	}
	for k := range names {
		x.storeLeaf(st, p, names[k], sorts[k], ns[k])
	}
}

func (x *Exec) storeLeaf(st *State, p *PtrV, name, srt string, n *Node) {
	if p.idx != nil {
		c := x.comp(st, name, ArrSort("Int", ArrSort("Int", srt)))
		a := Select(c, p.ref)
		st.heap[name] = Store(c, p.ref, Store(a, p.idx, n))
	} else {
		c := x.comp(st, name, ArrSort("Int", srt))
		st.heap[name] = Store(c, p.ref, n)
	}
}

func updPath(cur Val, path []int, v Val) Val {
	if len(path) == 0 {
		return v
	}
	sv := cur.(*StructV)
	n := &StructV{t: sv.t, f: append([]Val(nil), sv.f...)}
	n.f[path[0]] = updPath(n.f[path[0]], path[1:], v)
	return n
}

// escape turns a value into one that can live in memory (local pointers are heapified).
func (x *Exec) escape(st *State, v Val) Val {
	switch y := v.(type) {
	case *PtrV:
		if y.cell != nil {
			if _, ok := st.fwd[y.cell]; !ok {
				x.heapify(st, y.cell)
			}
			return x.resolve(st, y)
		}
	case *StructV:
		n := &StructV{t: y.t}
		for _, f := range y.f {
			n.f = append(n.f, x.escape(st, f))
		}
		return n
	case *ClosV:
		return y.node()
	}
	return v
}

func (x *Exec) heapify(st *State, c *Cell) {
	v := st.cells[c]
	r := st.alloc()
	v = x.escape(st, v)
	p := &PtrV{ref: r, root: c.typ}
	_, names, sorts := ptrComps(p)
	ns := flatten(v)
	for k := range names {
		x.storeLeaf(st, p, names[k], sorts[k], ns[k])
	}
	delete(st.cells, c)
	st.fwd[c] = r
	x.heapified[c] = true
}

// closures --------------------------------------------------------------

type ClosV struct {
	fn    *ssa.Function
	binds []Val
	bound Val // for builtin-bound values
	n     *Node
}

var closTable = map[*Node]*ClosV{}

func (c *ClosV) node() *Node {
	if c.n == nil {
		c.n = Fresh("clo", "Fn")
		closTable[c.n] = c
	}
	return c.n
}

func asNode(v Val) *Node {
	switch y := v.(type) {
	case *Node:
		return y
	case *ClosV:
		return y.node()
	case *PtrV:
		if y.cell == nil && len(y.path) == 0 && y.idx == nil {
			return y.ref
		}
	}
	ns := flatten(v)
	if len(ns) != 1 {
		unsup("expected a scalar value")
	}
	return ns[0]
}

// type facts -------------------------------------------------------------

var two62 = new(big.Int).Lsh(big.NewInt(1), 62)

// setLeafInterval registers numeric ranges for a havocked leaf of type t.
func setLeafInterval(t types.Type, n *Node) {
	if t == nil || n.iv != nil {
		return
	}
	if bits, signed, ok := intInfo(t); ok && n.sort == "Int" {
		one := big.NewInt(1)
		if signed {
			SetInterval(n, new(big.Int).Neg(new(big.Int).Lsh(one, uint(bits-1))), new(big.Int).Sub(new(big.Int).Lsh(one, uint(bits-1)), one))
		} else {
			SetInterval(n, new(big.Int), new(big.Int).Sub(new(big.Int).Lsh(one, uint(bits)), one))
		}
	}
}

// isBase: node is an unconstrained symbol or heap read that needs type facts.
func needsFacts(n *Node) bool {
	return strings.HasPrefix(n.op, "c:") || n.op == "select" || strings.HasPrefix(n.op, "f:")
}

// typeFacts assumes the type invariants of a value that was read or havocked.
func (x *Exec) typeFacts(st *State, t types.Type, v Val, fresh bool) {
	t = types.Unalias(t)
	switch y := v.(type) {
	case *StructV:
		if isOpaque(t) {
			switch typeName(t) {
			case "strings.Builder":
				c, k := y.f[0].(*Node), y.f[1].(*Node)
				if needsFacts(k) {
					st.assume(Le(Blen(c), k))
					st.assume(mk("<=", "Bool", k, IntB(maxLen)))
					SetInterval(k, new(big.Int), maxLen)
				}
			case "bufio.Reader", "bufio.Writer":
				k := y.f[1].(*Node)
				if needsFacts(k) {
					st.assume(Lt(IntC(0), k))
					st.assume(Le(k, IntB(maxLen)))
				}
			}
			return
		}
		s := t.Underlying().(*types.Struct)
		for i := range y.f {
			x.typeFacts(st, s.Field(i).Type(), y.f[i], fresh)
		}
	case *SliceV:
		if needsFacts(y.len) || needsFacts(y.cap) || needsFacts(y.off) {
			if y.len.iv == nil {
				SetInterval(y.len, new(big.Int), maxLen)
			}
			if y.cap.iv == nil {
				SetInterval(y.cap, new(big.Int), maxLen)
			}
			if y.off.iv == nil {
				SetInterval(y.off, new(big.Int), maxLen)
			}
			for _, b := range []*Node{y.len, y.cap, y.off} {
				if b.iv == nil {
					st.assume(mk("<=", "Bool", IntC(0), b))
					st.assume(mk("<=", "Bool", b, IntB(maxLen)))
				}
			}
			st.assume(Le(y.len, y.cap))
			if y.ref.iv == nil {
				st.assume(mk("<=", "Bool", IntC(0), y.ref))
				if !isFreshRef(y.ref) {
					st.assume(Lt(y.ref, x.topFor(st, y.ref)))
					x.noteRef(st, y.ref)
				}
				st.assume(Imp(Eq(y.ref, IntC(0)), Eq(y.cap, IntC(0))))
			}
		}
	case *PtrV:
		if y.ref != nil && y.idx == nil && y.ref.iv == nil && needsFacts(y.ref) && !isFreshRef(y.ref) {
			st.assume(mk("<=", "Bool", IntC(0), y.ref))
			st.assume(Lt(y.ref, x.topFor(st, y.ref)))
			x.noteRef(st, y.ref)
		}
	case *Node:
		if !needsFacts(y) {
			return
		}
		switch u := t.Underlying().(type) {
		case *types.Chan, *types.Map:
			if y.iv == nil && !isFreshRef(y) {
				st.assume(mk("<=", "Bool", IntC(0), y))
				st.assume(Lt(y, x.topFor(st, y)))
				x.noteRef(st, y)
			}
		case *types.Basic:
			if u.Kind() == types.UnsafePointer {
				if y.iv == nil && !isFreshRef(y) {
					st.assume(mk("<=", "Bool", IntC(0), y))
					st.assume(Lt(y, x.topFor(st, y)))
					x.noteRef(st, y)
				}
				return
			}
			if u.Info()&types.IsString != 0 {
				if x.con == nil || !x.con.anyStrings {
					st.assume(App("isstr", "Bool", y))
				}
				st.assume(Le(Blen(y), IntB(maxLen)))
				return
			}
			if y.sort == "Int" {
				if _, ok := ivals[y]; !ok {
					setLeafInterval(t, y)
				}
				if lo, hi := ivals[y][0], ivals[y][1]; lo != nil && hi != nil {
					st.assume(mk("<=", "Bool", IntB(lo), y))
					st.assume(mk("<=", "Bool", y, IntB(hi)))
				}
			}
		case *types.Interface:
			if u.NumMethods() > 0 {
				st.assume(Or(Eq(y, NilAny), Implements(t, y)))
			}
		}
	}
}

// Implements: the dynamic type of a satisfies interface t (uninterpreted on tags).
func Implements(t types.Type, a *Node) *Node {
	if strings.HasPrefix(a.op, "f:box.") {
		if ct, ok := boxGoType[a.op[len("f:box."):]]; ok {
			if i, ok := types.Unalias(t).Underlying().(*types.Interface); ok {
				return BoolC(types.Implements(ct, i))
			}
		}
	}
	return App("impl."+sanitize(typeKey(t)), "Bool", App("tag", "Int", a))
}

var boxGoType = map[string]types.Type{}

func (x *Exec) havocVal(st *State, hint string, t types.Type) Val {
	var ns []*Node
	for _, l := range leaves(t) {
		h := hint
		if l.path != "" {
			h += "." + l.path
		}
		n := Fresh(h, l.sort)
		if x.con != nil && x.con.abstract && isStruct(t) && strings.HasSuffix(l.path, ".off") {
			n = IntC(0)
		}
		setLeafInterval(l.typ, n)
		ns = append(ns, n)
	}
	v, _ := unflatten(t, ns)
	x.typeFacts(st, t, v, true)
	return v
}

// box / unbox -------------------------------------------------------------

func (x *Exec) boxName(t types.Type) string {
	var ss []string
	for _, l := range leaves(t) {
		ss = append(ss, l.sort)
	}
	k := regBox(typeKey(t), ss)
	boxGoType[k] = t
	return k
}

func (x *Exec) box(st *State, t types.Type, v Val) *Node {
	if isInterface(t) {
		return v.(*Node)
	}
	v = x.escape(st, v)
	return App("box."+x.boxName(t), "Any", flatten(v)...)
}

func (x *Exec) unbox(st *State, t types.Type, a *Node) Val {
	k := x.boxName(t)
	var ns []*Node
	for i, l := range leaves(t) {
		n := App(fmt.Sprintf("unbox.%s.%d", k, i), l.sort, a)
		if _, ok := ivals[n]; !ok {
			setLeafInterval(l.typ, n)
		}
		ns = append(ns, n)
	}
	v, _ := unflatten(t, ns)
	x.typeFacts(st, t, v, false)
	return v
}

func (x *Exec) tagOf(t types.Type) *Node {
	k := x.boxName(t)
	return IntC(int64(boxTag(k)))
}

// strings -----------------------------------------------------------------

func Slen(s *Node) *Node {
	if strings.HasPrefix(s.op, "f:empty.") {
		return IntC(0)
	}
	if strings.HasPrefix(s.op, "f:build.") {
		return Add(Slen(s.args[0]), IntC(1))
	}
	return App("len."+s.sort, "Int", s)
}
func Sidx(s, i *Node) *Node {
	return App("idx."+s.sort, seqElemOf(s.sort), s, i)
}
func Scat(a, b *Node) *Node {
	if strings.HasPrefix(a.op, "f:empty.") {
		return b
	}
	if strings.HasPrefix(b.op, "f:empty.") {
		return a
	}
	if strings.HasPrefix(b.op, "f:build.") {
		return Sbuild(Scat(a, b.args[0]), b.args[1])
	}
	if b.op == "f:cat."+b.sort {
		return Scat(Scat(a, b.args[0]), b.args[1])
	}
	return App("cat."+a.sort, a.sort, a, b)
}
func Sbuild(a, v *Node) *Node { return App("build."+a.sort, a.sort, a, v) }
func Stake(a, n *Node) *Node {
	if n.iv != nil && n.iv.Sign() == 0 {
		return EmptySeq(a.sort)
	}
	if n == Slen(a) {
		return a
	}
	return App("take."+a.sort, a.sort, a, n)
}
func Sdrop(a, n *Node) *Node {
	if n.iv != nil && n.iv.Sign() == 0 {
		return a
	}
	return App("drop."+a.sort, a.sort, a, n)
}
func Blen(s *Node) *Node {
	if strings.HasPrefix(s.op, "f:empty.") {
		return IntC(0)
	}
	return App("blen", "Int", s)
}

// literal string -> sequence of runes
func strLit(s string) *Node {
	n := EmptySeq("SeqInt")
	for _, r := range s {
		n = Sbuild(n, IntC(int64(r)))
	}
	return n
}

// arrays known to hold a sequence
var arrSeq = map[*Node]*Node{}

func seqArray(hint string, s *Node) *Node {
	a := App("arrof."+s.sort, ArrSort("Int", seqElemOf(s.sort)), s)
	arrSeq[a] = s
	return a
}

// View gives the sequence of elements of (array, off, len).
func View(a, off, n *Node) *Node {
	srt := seqSortOf(arrayElem(a.sort))
	if n.iv != nil && n.iv.Sign() == 0 {
		return EmptySeq(srt)
	}
	if s, ok := arrSeq[a]; ok {
		d := Sdrop(s, off)
		if off.iv != nil && off.iv.Sign() == 0 {
			return Stake(s, n)
		}
		if n == Sub(Slen(s), off) {
			return d
		}
		return Stake(d, n)
	}
	if n.iv != nil && n.iv.IsInt64() && n.iv.Int64() <= 8 && a.op == "store" {
		// small concrete views are spelled out
		r := EmptySeq(srt)
		for i := int64(0); i < n.iv.Int64(); i++ {
			r = Sbuild(r, Select(a, Add(off, IntC(i))))
		}
		return r
	}
	return App("view."+srt, srt, a, off, n)
}

func posStr(fset *token.FileSet, p token.Pos) string {
	q := fset.Position(p)
	return fmt.Sprintf("%s:%d", q.Filename, q.Line)
}

func sortedCells(m map[*Cell]Val) []*Cell {
	var r []*Cell
	for c := range m {
		r = append(r, c)
	}
	sort.Slice(r, func(i, j int) bool { return r[i].id < r[j].id })
	return r
}
func sortedHeap(m map[string]*Node) []string {
	var r []string
	for c := range m {
		r = append(r, c)
	}
	sort.Strings(r)
	return r
}
