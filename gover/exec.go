package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Obl struct {
	label string // clause label, e.g. "C30.kept" or "nopanic.index"
	hyps  []*Node
	goal  *Node
	pos   string
	res   Result
	note  string
	props []string
}

type Exec struct {
	prog      *Prog
	fn        *ssa.Function
	con       *Contract
	obls      []*Obl
	stated    map[*Node]bool // loop invariants stated by the contract
	collect   int            // >0 while discovering loop effects: obligations are not recorded
	work      []*State
	compSort  map[string]string
	heapified map[*Cell]bool
	cellCtr   int
	init      *State
	inInit    bool
	onEnd     func(st *State, res []Val, panicked bool, pv *Node)
	paths     int
	steps     int
	inlined   map[string]bool
	used      map[string]bool // contracts used modularly
	trusted   map[string]bool // trusted models used
	loops     int
	loopInvs  int
	maxPaths  int
	params    map[string]Val
	hints     []string
	sawInner  bool
	notes     []string
	reach     []*State
	orders    []*Node
	posFn     map[*Node]string
	quiet     bool
	inPure    bool
	pureOuter *State
	specVars  map[string]SVal
	liveCtx   map[*Node]bool
}

func newExec(p *Prog) *Exec {
	return &Exec{prog: p, compSort: map[string]string{}, heapified: map[*Cell]bool{}, inlined: map[string]bool{}, used: map[string]bool{}, trusted: map[string]bool{}, maxPaths: 3000}
}

var debug = os.Getenv("GOVER_DEBUG") != ""

func dbg(f string, a ...interface{}) {
	if debug {
		fmt.Fprintf(os.Stderr, f+"\n", a...)
	}
}

func (x *Exec) oblige(st *State, label string, goal *Node, pos token.Pos, note string) {
	if x.collect == 0 && goal != True {
		x.obls = append(x.obls, &Obl{label: label, hyps: st.pc[:len(st.pc):len(st.pc)], goal: goal, pos: x.prog.pos(pos), note: note})
	} else if x.collect == 0 {
		x.obls = append(x.obls, &Obl{label: label, goal: True, pos: x.prog.pos(pos), note: note})
	}
	st.assume(goal)
}

// ---- running ----

func (x *Exec) run(st *State) {
	x.work = append(x.work, st)
	for len(x.work) > 0 {
		s := x.work[len(x.work)-1]
		x.work = x.work[:len(x.work)-1]
		for !s.dead && len(s.frames) > 0 {
			x.steps++
			if x.steps > 3000000 {
				unsup("too many steps")
			}
			x.step(s)
		}
		if s.dead {
			continue
		}
	}
}

func (x *Exec) fork(st *State) *State {
	x.paths++
	if x.paths > x.maxPaths {
		unsup("too many paths")
	}
	n := st.clone()
	x.work = append(x.work, n)
	return n
}

func (x *Exec) step(st *State) {
	f := st.top_()
	if f.idx >= len(f.block.Instrs) {
		panic("fell off block")
	}
	in := f.block.Instrs[f.idx]
	f.idx++
	if traceOn {
		fmt.Fprintf(os.Stderr, "TRACE c%d %s.%d: %s\n", x.collect, f.fn.Name(), f.block.Index, in)
	}
	x.instr(st, f, in)
}

func (x *Exec) pushCall(st *State, fn *ssa.Function, args []Val, binds []Val, onRet func(x *Exec, st *State, res []Val)) *Frame {
	if len(fn.Blocks) == 0 {
		unsup("call of external function %s without a model", fn)
	}
	if len(st.frames) > 40 {
		unsup("call depth (recursion without a contract) in %s", fn)
	}
	n := 0
	for _, f := range st.frames {
		if f.fn == fn {
			n++
		}
	}
	if n > 2 {
		unsup("recursive call of %s without a contract", fn)
	}
	if len(st.frames) > 0 {
		x.inlined[funcKey(fn)] = true
	}
	f := &Frame{fn: fn, regs: map[ssa.Value]Val{}, binds: binds, block: fn.Blocks[0], active: map[*ssa.BasicBlock]*loopAct{}, unroll: map[*ssa.BasicBlock]int{}, onRet: onRet}
	for i, p := range fn.Params {
		f.regs[p] = args[i]
	}
	st.frames = append(st.frames, f)
	return f
}

// leaveFrame pops the top frame; false when the path must be dropped (it leaves a loop body under collection).
func (x *Exec) leaveFrame(st *State) bool {
	f := st.top_()
	for _, a := range f.active {
		if a.collect {
			st.dead = true
			return false
		}
	}
	st.frames = st.frames[:len(st.frames)-1]
	return true
}

func (x *Exec) ret(st *State, res []Val) {
	f := st.top_()
	if !x.leaveFrame(st) {
		return
	}
	if f.proc != nil {
		x.procEnd(st, f.proc)
		if st.dead {
			return
		}
	}
	if f.onRet != nil {
		f.onRet(x, st, res)
		return
	}
	if len(st.frames) == 0 {
		x.end(st, res, false, nil)
	}
}

func (x *Exec) end(st *State, res []Val, panicked bool, pv *Node) {
	st.frames = nil
	if x.collect > 0 {
		st.dead = true
		return
	}
	x.onEnd(st, res, panicked, pv)
	st.dead = true
}

// doPanic starts or continues unwinding in the top frame.
func (x *Exec) doPanic(st *State, v *Node) {
	f := st.top_()
	f.panicking = true
	f.recovered = false
	f.panicVal = v
	x.unwind(st)
}

func (x *Exec) unwind(st *State) {
	f := st.top_()
	if len(f.defers) > 0 {
		d := f.defers[len(f.defers)-1]
		f.defers = f.defers[:len(f.defers)-1]
		x.callVal(st, d.fn, d.args, &d.call.Call, d.call.Pos(), true, func(x *Exec, st *State, res []Val) {
			x.unwind(st)
		})
		return
	}
	if f.recovered {
		f.panicking = false
		f.recovered = false
		if f.fn.Recover != nil {
			f.block = f.fn.Recover
			f.idx = 0
			return
		}
		var res []Val
		rs := f.fn.Signature.Results()
		for i := 0; i < rs.Len(); i++ {
			res = append(res, zeroVal(rs.At(i).Type()))
		}
		x.ret(st, res)
		return
	}
	v := f.panicVal
	if !x.leaveFrame(st) {
		return
	}
	if f.proc != nil {
		x.oblige(st, "nopanic.goroutine", False, f.fn.Pos(), "a goroutine can end with an unrecovered panic")
		st.dead = true
		return
	}
	if len(st.frames) == 0 {
		x.end(st, nil, true, v)
		return
	}
	x.doPanic(st, v)
}

func (x *Exec) runDefers(st *State, f *Frame) {
	if len(f.defers) == 0 {
		return
	}
	d := f.defers[len(f.defers)-1]
	f.defers = f.defers[:len(f.defers)-1]
	x.callVal(st, d.fn, d.args, &d.call.Call, d.call.Pos(), true, func(x *Exec, st *State, res []Val) {
		x.runDefers(st, st.top_())
	})
}

// check emits a runtime-panic obligation and continues under the assumption that it holds.
func (x *Exec) check(st *State, kind string, cond *Node, pos token.Pos) {
	if cond == True {
		return
	}
	if v, ok := st.known(cond); ok && v {
		return
	}
	x.oblige(st, "nopanic."+kind, cond, pos, "run-time panic ("+kind+") must be impossible")
}

// ---- values ----

func (x *Exec) val(st *State, v ssa.Value) Val {
	f := st.top_()
	switch y := v.(type) {
	case *ssa.Const:
		return x.constVal(y)
	case *ssa.Global:
		return x.globalPtr(y)
	case *ssa.Function:
		return &ClosV{fn: y, n: x.prog.fnNode(y)}
	case *ssa.FreeVar:
		for i, fv := range f.fn.FreeVars {
			if fv == y {
				return f.binds[i]
			}
		}
	case *ssa.Builtin:
		return y
	}
	r, ok := f.regs[v]
	if !ok {
		panic(fmt.Sprintf("no value for %s = %s in %s", v.Name(), v, f.fn))
	}
	return r
}

func (x *Exec) node(st *State, v ssa.Value) *Node { return asNode(x.val(st, v)) }

func (x *Exec) constVal(c *ssa.Const) Val {
	t := types.Unalias(c.Type())
	if c.Value == nil {
		return zeroVal(t)
	}
	if isInterface(t) {
		unsup("constant of interface type")
	}
	return litNode(t, c.Value)
}

func litNode(t types.Type, cv constant.Value) *Node {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		unsup("constant of type %s", t)
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return BoolC(constant.BoolVal(cv))
	case b.Info()&types.IsString != 0:
		return strLit(constant.StringVal(cv))
	case b.Info()&types.IsInteger != 0:
		i := constant.ToInt(cv)
		v, _ := new(big.Int).SetString(i.ExactString(), 10)
		if w := bvWidth(basicSort(b)); w > 0 {
			return BVC(new(big.Int).And(v, new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(w)), big.NewInt(1))).Uint64(), w)
		}
		return IntB(v)
	case b.Info()&types.IsFloat != 0:
		f, _ := constant.Float64Val(cv)
		if f == 0 {
			return zeroLeaf(leaf{"", basicSort(b), t})
		}
		return App(sanitize(fmt.Sprintf("flit.%v.%d", f, b.Kind())), basicSort(b))
	}
	unsup("constant %s", cv)
	return nil
}

func globName(g *ssa.Global) string {
	p := g.Pkg.Pkg.Path()
	p = strings.TrimPrefix(p, "github.com/chenquan/go-pkg/")
	return p + "." + g.Name()
}

var globRefs = map[*Node]*ssa.Global{}

func (x *Exec) globalPtr(g *ssa.Global) Val {
	n := Const("glob."+globName(g), "Int")
	globRefs[n] = g
	if _, ok := refBound[n]; !ok {
		refBound[n] = refBnd{x.prog.top0, new(big.Int)}
	}
	return &PtrV{ref: n, root: g.Type().(*types.Pointer).Elem()}
}

// globalConst reads a package variable that is never reassigned after init.
func (x *Exec) globalConst(st *State, p *PtrV) Val {
	if p.ref == nil || p.idx != nil {
		return nil
	}
	g, ok := globRefs[p.ref]
	if !ok {
		return nil
	}
	if x.inInit || !x.prog.immutableGlobal(g) {
		return nil
	}
	t, start, ls := subLeaves(p.root, p.path)
	all := leaves(p.root)
	var ns []*Node
	for k := range ls {
		l := all[start+k]
		nm := "G." + globName(g)
		if l.path != "" {
			nm += "." + l.path
		}
		n := Const(nm, l.sort)
		setLeafInterval(l.typ, n)
		if l.sort == "Int" && l.typ != nil {
			switch types.Unalias(l.typ).Underlying().(type) {
			case *types.Pointer, *types.Chan, *types.Map:
				if _, ok := refBound[n]; !ok {
					refBound[n] = refBnd{x.prog.top0, new(big.Int)}
				}
				st.assume(Lt(IntC(0), n))
				st.assume(Lt(n, x.prog.top0))
			}
		}
		if b, ok := types.Unalias(all[start+k].typ).(*types.Basic); ok && b.Kind() == types.UnsafePointer {
			if _, ok := refBound[n]; !ok {
				refBound[n] = refBnd{x.prog.top0, new(big.Int)}
			}
			st.assume(Lt(IntC(0), n))
			st.assume(Lt(n, x.prog.top0))
		}
		if l.sort == "Any" && isErrorType(l.typ) {
			st.assume(Neq(n, NilAny))
		}
		ns = append(ns, n)
	}
	v, _ := unflatten(t, ns)
	return v
}

func isErrorType(t types.Type) bool {
	return t != nil && types.Identical(types.Unalias(t), types.Universe.Lookup("error").Type())
}

// ---- instructions ----

func (x *Exec) instr(st *State, f *Frame, in ssa.Instruction) {
	switch i := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		x.alloc(st, f, i)
	case *ssa.Store:
		p := x.ptr(st, i.Addr, i.Pos())
		if st.dead {
			return
		}
		x.store(st, p, x.val(st, i.Val))
	case *ssa.UnOp:
		x.unop(st, f, i)
	case *ssa.BinOp:
		f.regs[i] = x.binop(st, i)
	case *ssa.FieldAddr:
		p := x.ptr(st, i.X, i.Pos())
		fi := i.Field
		if t := types.Unalias(i.X.Type()).Underlying().(*types.Pointer).Elem(); typeName(t) == "sync.Pool" {
			if s := t.Underlying().(*types.Struct); fi != s.NumFields()-1 {
				unsup("field %s of sync.Pool", s.Field(fi).Name())
			}
			fi = 0
		}
		f.regs[i] = &PtrV{cell: p.cell, ref: p.ref, idx: p.idx, root: p.root, path: append(append([]int(nil), p.path...), fi)}
	case *ssa.Field:
		sv := x.val(st, i.X).(*StructV)
		f.regs[i] = sv.f[i.Field]
	case *ssa.IndexAddr:
		x.indexAddr(st, f, i)
	case *ssa.Index:
		x.index(st, f, i)
	case *ssa.Lookup:
		x.lookup(st, f, i)
	case *ssa.MapUpdate:
		x.mapUpdate(st, x.node(st, i.Map), i.Map.Type(), x.val(st, i.Key), x.val(st, i.Value), i.Pos())
	case *ssa.MakeMap:
		f.regs[i] = x.makeMap(st, i.Type())
	case *ssa.MakeSlice:
		n, c := x.node(st, i.Len), x.node(st, i.Cap)
		n, c = toInt(n), toInt(c)
		x.check(st, "makeslice", And(Le(IntC(0), n), Le(n, c)), i.Pos())
		st.assume(Le(c, IntB(maxLen)))
		f.regs[i] = x.makeSlice(st, i.Type(), n, c)
	case *ssa.MakeChan:
		f.regs[i] = x.makeChan(st, i.Type(), toInt(x.node(st, i.Size)), i.Pos())
	case *ssa.MakeInterface:
		f.regs[i] = x.box(st, i.X.Type(), x.val(st, i.X))
	case *ssa.ChangeInterface:
		f.regs[i] = x.val(st, i.X)
	case *ssa.ChangeType:
		v := x.val(st, i.X)
		if sv, ok := v.(*StructV); ok {
			v = &StructV{t: i.Type(), f: sv.f}
		}
		if sv, ok := v.(*SliceV); ok {
			v = &SliceV{sv.ref, sv.off, sv.len, sv.cap, types.Unalias(i.Type()).Underlying().(*types.Slice).Elem()}
		}
		f.regs[i] = v
	case *ssa.Convert:
		f.regs[i] = x.convert(st, x.val(st, i.X), i.X.Type(), i.Type(), i.Pos())
	case *ssa.Slice:
		x.slice(st, f, i)
	case *ssa.TypeAssert:
		x.typeAssert(st, f, i)
	case *ssa.Extract:
		tv, ok := x.val(st, i.Tuple).(TupleV)
		if !ok {
			panic("extract of non-tuple")
		}
		f.regs[i] = tv[i.Index]
	case *ssa.MakeClosure:
		c := &ClosV{fn: i.Fn.(*ssa.Function)}
		for _, b := range i.Bindings {
			c.binds = append(c.binds, x.val(st, b))
		}
		f.regs[i] = c
	case *ssa.Phi:
		// handled at block entry
	case *ssa.Range:
		f.regs[i] = x.makeIter(st, i)
	case *ssa.Next:
		x.next(st, f, i)
	case *ssa.Call:
		x.call(st, f, i)
	case *ssa.Defer:
		fnv, args := x.callee(st, &i.Call)
		f.defers = append(f.defers, &deferred{call: i, fn: fnv, args: args})
	case *ssa.RunDefers:
		x.runDefers(st, f)
	case *ssa.Go:
		fnv, args := x.callee(st, &i.Call)
		x.spawn(st, fnv, args, &i.Call, i.Pos())
	case *ssa.Send:
		x.send(st, x.node(st, i.Chan), i.Chan.Type(), x.val(st, i.X), i.Pos())
	case *ssa.Select:
		x.selectInstr(st, f, i)
	case *ssa.Panic:
		x.doPanic(st, x.node(st, i.X))
	case *ssa.Return:
		var res []Val
		for _, r := range i.Results {
			res = append(res, x.val(st, r))
		}
		x.ret(st, res)
	case *ssa.Jump:
		x.jump(st, f, f.block.Succs[0])
	case *ssa.If:
		c := x.node(st, i.Cond)
		x.branch(st, c, func(x *Exec, s *State, taken bool) {
			g := s.top_()
			if taken {
				x.jump(s, g, g.block.Succs[0])
			} else {
				x.jump(s, g, g.block.Succs[1])
			}
		})
	default:
		unsup("instruction %T %s", in, in)
	}
}

// branch splits on a condition.
func (x *Exec) branch(st *State, c *Node, k func(x *Exec, s *State, taken bool)) {
	if v, ok := st.known(c); ok {
		k(x, st, v)
		return
	}
	if x.paths > 24 {
		// prune infeasible branches once paths start to multiply
		if r := prove(st.pc, c, quickTO, false); r.status == "unsat" {
			st.assume(c)
			k(x, st, true)
			return
		}
		if r := prove(st.pc, Not(c), quickTO, false); r.status == "unsat" {
			st.assume(Not(c))
			k(x, st, false)
			return
		}
	}
	o := x.fork(st)
	// the fork starts with a pending continuation: run it immediately
	x.work = x.work[:len(x.work)-1]
	o.assume(Not(c))
	if !o.dead {
		k(x, o, false)
		if !o.dead {
			x.work = append(x.work, o)
		}
	}
	st.assume(c)
	if !st.dead {
		k(x, st, true)
	}
}

func (x *Exec) ptr(st *State, v ssa.Value, pos token.Pos) *PtrV {
	p, ok := x.val(st, v).(*PtrV)
	if !ok {
		unsup("pointer value of unknown shape: %s", v)
	}
	x.nonNil(st, p, pos)
	return p
}

func (x *Exec) nonNil(st *State, p *PtrV, pos token.Pos) {
	if p.cell != nil || p.idx != nil || len(p.path) > 0 {
		return
	}
	if isFreshRef(p.ref) || globRefs[p.ref] != nil {
		return
	}
	x.check(st, "nil", Neq(p.ref, IntC(0)), pos)
}

func (x *Exec) alloc(st *State, f *Frame, i *ssa.Alloc) {
	t := i.Type().(*types.Pointer).Elem()
	if a, ok := types.Unalias(t).Underlying().(*types.Array); ok {
		r := st.alloc()
		for _, l := range leaves(a.Elem()) {
			nm := "E." + elemKey(a.Elem()) + "." + l.path
			c := x.comp(st, nm, ArrSort("Int", ArrSort("Int", l.sort)))
			st.heap[nm] = Store(c, r, ConstArr(ArrSort("Int", l.sort), zeroLeaf(l)))
		}
		f.regs[i] = &PtrV{ref: r, root: t}
		return
	}
	if x.con != nil && x.con.abstract && typeName(t) == "xsync.Map" {
		r := st.alloc()
		p := &PtrV{ref: r, root: t}
		st.heap["V.has"] = Store(x.comp(st, "V.has", vHasSort), r, ConstArr(ArrSort("Any", "Bool"), False))
		f.regs[i] = p
		return
	}
	if i.Heap && (i.Comment == "complit" || i.Comment == "new") && isStruct(t) && !isOpaque(t) {
		r := st.alloc()
		p := &PtrV{ref: r, root: t}
		x.store(st, p, zeroVal(t))
		f.regs[i] = p
		return
	}
	// re-executing an Alloc creates a new variable
	x.cellCtr++
	c := &Cell{name: i.Comment, typ: t, id: x.cellCtr}
	st.cells[c] = zeroVal(t)
	f.regs[i] = &PtrV{cell: c, root: t}
}

func toInt(n *Node) *Node {
	if w := bvWidth(n.sort); w > 0 {
		return BV2Nat(n)
	}
	return n
}
func BV2Nat(n *Node) *Node {
	if isBVLit(n) {
		var v uint64
		var w int
		fmt.Sscanf(n.op, "(_ bv%d %d)", &v, &w)
		return IntB(new(big.Int).SetUint64(v))
	}
	return mk("bv2nat", "Int", n)
}

func (x *Exec) unop(st *State, f *Frame, i *ssa.UnOp) {
	switch i.Op {
	case token.MUL:
		p := x.ptr(st, i.X, i.Pos())
		if st.dead {
			return
		}
		f.regs[i] = x.load(st, p)
	case token.ARROW:
		x.recv(st, x.node(st, i.X), i.X.Type(), i.CommaOk, i.Pos(), func(x *Exec, s *State, v Val, ok *Node) {
			if i.CommaOk {
				s.top_().regs[i] = TupleV{v, ok}
			} else {
				s.top_().regs[i] = v
			}
		})
	case token.NOT:
		f.regs[i] = Not(x.node(st, i.X))
	case token.SUB:
		n := x.node(st, i.X)
		if bits, signed, ok := intInfo(i.Type()); ok {
			if n.sort == "Int" {
				f.regs[i] = x.wrap(st, Sub(IntC(0), n), bits, signed)
			} else {
				f.regs[i] = mk("bvneg", n.sort, n)
			}
			return
		}
		f.regs[i] = mk("fp.neg", n.sort, n)
	case token.XOR:
		n := x.node(st, i.X)
		if n.sort == "Int" {
			bits, signed, _ := intInfo(i.Type())
			f.regs[i] = x.wrap(st, Sub(IntC(-1), n), bits, signed)
			return
		}
		f.regs[i] = mk("bvnot", n.sort, n)
	default:
		unsup("unary %s", i.Op)
	}
}

// rawWrap remembers the mathematical value behind an unresolved machine wrap.
var rawWrap = map[*Node]*Node{}

func (x *Exec) wrap(st *State, n *Node, bits int, signed bool) *Node {
	w := Wrap(n, bits, signed)
	if w == n || n.iv != nil {
		return w
	}
	lo, hi := st.bounds(n)
	var L, H *big.Int
	one := big.NewInt(1)
	if signed {
		H = new(big.Int).Sub(new(big.Int).Lsh(one, uint(bits-1)), one)
		L = new(big.Int).Neg(new(big.Int).Lsh(one, uint(bits-1)))
	} else {
		L = new(big.Int)
		H = new(big.Int).Sub(new(big.Int).Lsh(one, uint(bits)), one)
	}
	okLo := lo != nil && lo.Cmp(L) >= 0
	okHi := hi != nil && hi.Cmp(H) <= 0
	if okLo && okHi {
		return n
	}
	var goal []*Node
	if !okLo {
		goal = append(goal, Le(IntB(L), n))
	}
	if !okHi {
		goal = append(goal, Le(n, IntB(H)))
	}
	if r := prove(st.pc, And(goal...), quickTO, false); r.status == "unsat" {
		return n
	}
	rawWrap[w] = n
	return w
}

func (x *Exec) binop(st *State, i *ssa.BinOp) Val {
	switch i.Op {
	case token.EQL:
		return x.eq(st, x.val(st, i.X), x.val(st, i.Y), i.X.Type(), i.Y.Type())
	case token.NEQ:
		return Not(x.eq(st, x.val(st, i.X), x.val(st, i.Y), i.X.Type(), i.Y.Type()))
	}
	a, b := x.node(st, i.X), x.node(st, i.Y)
	t := types.Unalias(i.X.Type()).Underlying()
	bt, _ := t.(*types.Basic)
	if bt == nil {
		unsup("binary %s on %s", i.Op, t)
	}
	if bt.Info()&types.IsString != 0 {
		switch i.Op {
		case token.ADD:
			r := Scat(a, b)
			return r
		}
		unsup("string operator %s", i.Op)
	}
	if bt.Info()&types.IsFloat != 0 {
		return x.floatop(i, a, b)
	}
	if bt.Info()&types.IsBoolean != 0 {
		unsup("boolean operator %s", i.Op)
	}
	bits, signed, _ := intInfo(i.X.Type())
	if a.sort != "Int" {
		w := bits
		if i.Op == token.SHL || i.Op == token.SHR {
			bi := toInt(b)
			if bi.iv != nil {
				if bi.iv.Cmp(big.NewInt(int64(w))) >= 0 {
					return BVC(0, w)
				}
				b = BVC(bi.iv.Uint64(), w)
			} else if b.sort == a.sort {
			} else if bw := bvWidth(b.sort); bw > 0 && bw < w {
				b = mk(fmt.Sprintf("(_ zero_extend %d)", w-bw), a.sort, b)
			} else {
				unsup("shift by a variable amount")
			}
		}
		op := map[token.Token]string{token.ADD: "bvadd", token.SUB: "bvsub", token.MUL: "bvmul", token.AND: "bvand", token.OR: "bvor", token.XOR: "bvxor", token.SHL: "bvshl", token.SHR: "bvlshr", token.QUO: "bvudiv", token.REM: "bvurem"}[i.Op]
		if op != "" {
			if i.Op == token.QUO || i.Op == token.REM {
				x.check(st, "div", Neq(b, BVC(0, w)), i.Pos())
			}
			return mk(op, a.sort, a, b)
		}
		switch i.Op {
		case token.LSS:
			return mk("bvult", "Bool", a, b)
		case token.LEQ:
			return mk("bvule", "Bool", a, b)
		case token.GTR:
			return mk("bvult", "Bool", b, a)
		case token.GEQ:
			return mk("bvule", "Bool", b, a)
		case token.AND_NOT:
			return mk("bvand", a.sort, a, mk("bvnot", a.sort, b))
		}
		unsup("operator %s", i.Op)
	}
	switch i.Op {
	case token.LSS:
		return Lt(a, b)
	case token.LEQ:
		return Le(a, b)
	case token.GTR:
		return Lt(b, a)
	case token.GEQ:
		return Le(b, a)
	case token.ADD:
		return x.wrap(st, Add(a, b), bits, signed)
	case token.SUB:
		return x.wrap(st, Sub(a, b), bits, signed)
	case token.MUL:
		return x.wrap(st, Mul(a, b), bits, signed)
	case token.QUO, token.REM:
		x.check(st, "div", Neq(b, IntC(0)), i.Pos())
		return x.divrem(st, i.Op == token.REM, a, b, bits, signed)
	case token.SHL:
		k := toInt(b)
		if k.iv == nil || k.iv.Sign() < 0 || k.iv.Cmp(big.NewInt(62)) > 0 {
			unsup("shift by a variable amount")
		}
		return x.wrap(st, Mul(a, IntB(new(big.Int).Lsh(big.NewInt(1), uint(k.iv.Int64())))), bits, signed)
	case token.SHR:
		k := toInt(b)
		if k.iv == nil || k.iv.Sign() < 0 || k.iv.Cmp(big.NewInt(62)) > 0 {
			unsup("shift by a variable amount")
		}
		d := mk("div", "Int", a, IntB(new(big.Int).Lsh(big.NewInt(1), uint(k.iv.Int64()))))
		return d
	case token.AND:
		if a.iv != nil {
			a, b = b, a
		}
		if b.iv != nil && b.iv.Sign() >= 0 {
			m := new(big.Int).Add(b.iv, big.NewInt(1))
			if new(big.Int).And(m, b.iv).Sign() == 0 {
				return mk("mod", "Int", a, IntB(m))
			}
		}
	}
	if op := map[token.Token]string{token.AND: "bit.and", token.OR: "bit.or", token.XOR: "bit.xor"}[i.Op]; op != "" && mathU32 && !signed {
		r := App(op, "Int", a, b)
		st.assume(Le(IntC(0), r))
		if i.Op == token.AND {
			st.assume(Le(r, a))
			st.assume(Le(r, b))
		} else {
			SetInterval(r, new(big.Int), new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(bits)), big.NewInt(1)))
		}
		return r
	}
	unsup("operator %s on mathematical integers", i.Op)
	return nil
}

func (x *Exec) isNonNeg(st *State, a *Node) bool {
	lo, _ := st.bounds(a)
	if lo != nil && lo.Sign() >= 0 {
		return true
	}
	g := Le(IntC(0), a)
	if v, ok := st.known(g); ok {
		return v
	}
	return prove(st.pc, g, quickTO, false).status == "unsat"
}

func (x *Exec) isTrue(st *State, g *Node) bool {
	if v, ok := st.known(g); ok {
		return v
	}
	return prove(st.pc, g, quickTO, false).status == "unsat"
}

func (x *Exec) divrem(st *State, rem bool, a, b *Node, bits int, signed bool) *Node {
	if a.iv != nil && b.iv != nil && b.iv.Sign() != 0 {
		if rem {
			return IntB(new(big.Int).Rem(a.iv, b.iv))
		}
		return IntB(new(big.Int).Quo(a.iv, b.iv))
	}
	if !x.isTrue(st, Lt(IntC(0), b)) {
		unsup("division by a possibly negative divisor")
	}
	pos := func(a *Node) *Node {
		if b.iv != nil {
			if rem {
				return mk("mod", "Int", a, b)
			}
			return mk("div", "Int", a, b)
		}
		if rem {
			return App("imod", "Int", a, b)
		}
		return App("idiv", "Int", a, b)
	}
	var r *Node
	if x.isNonNeg(st, a) {
		r = pos(a)
		if !rem {
			if lo, hi := st.bounds(a); lo != nil && hi != nil {
				SetInterval(r, new(big.Int), hi)
			}
		} else if _, hb := interval(b); hb != nil {
			SetInterval(r, new(big.Int), new(big.Int).Sub(hb, big.NewInt(1)))
		}
		return r
	}
	na := Sub(IntC(0), a)
	r = Ite(Le(IntC(0), a), pos(a), Sub(IntC(0), pos(na)))
	SetInterval(r, minI64, maxI64)
	return r
}

func (x *Exec) floatop(i *ssa.BinOp, a, b *Node) Val {
	rne := mk("RNE", "RoundingMode")
	switch i.Op {
	case token.ADD:
		return mk("fp.add", a.sort, rne, a, b)
	case token.SUB:
		return mk("fp.sub", a.sort, rne, a, b)
	case token.MUL:
		return mk("fp.mul", a.sort, rne, a, b)
	case token.QUO:
		return mk("fp.div", a.sort, rne, a, b)
	case token.LSS:
		return mk("fp.lt", "Bool", a, b)
	case token.LEQ:
		return mk("fp.leq", "Bool", a, b)
	case token.GTR:
		return mk("fp.lt", "Bool", b, a)
	case token.GEQ:
		return mk("fp.leq", "Bool", b, a)
	}
	unsup("float operator %s", i.Op)
	return nil
}

func (x *Exec) eq(st *State, a, b Val, ta, tb types.Type) *Node {
	if ta != nil && tb != nil && isInterface(ta) != isInterface(tb) {
		if isInterface(ta) {
			b = x.box(st, tb, b)
		} else {
			a = x.box(st, ta, a)
		}
	}
	switch y := a.(type) {
	case *SliceV:
		if z, ok := b.(*SliceV); ok {
			if z.ref.iv != nil && z.ref.iv.Sign() == 0 {
				return Eq(y.ref, IntC(0))
			}
			if y.ref.iv != nil && y.ref.iv.Sign() == 0 {
				return Eq(z.ref, IntC(0))
			}
		}
		unsup("slice comparison")
	case *PtrV:
		z, ok := b.(*PtrV)
		if !ok {
			unsup("pointer comparison")
		}
		y, z = x.resolve(st, y), x.resolve(st, z)
		if y.cell != nil || z.cell != nil {
			if y.cell == z.cell && fmt.Sprint(y.path) == fmt.Sprint(z.path) {
				return True
			}
			return False
		}
		if len(y.path) == 0 && len(z.path) == 0 && y.idx == nil && z.idx == nil {
			return Eq(y.ref, z.ref)
		}
		isNil := func(p *PtrV) bool { return p.ref.iv != nil && p.ref.iv.Sign() == 0 }
		if isNil(y) || isNil(z) {
			return False
		}
		unsup("interior pointer comparison")
	case *StructV:
		z := b.(*StructV)
		r := True
		for i := range y.f {
			r = And(r, x.eq(st, y.f[i], z.f[i], nil, nil))
		}
		return r
	}
	na, nb := asNode(a), asNode(b)
	if na.sort == sortF64 || na.sort == sortF32 {
		return mk("fp.eq", "Bool", na, nb)
	}
	if na.sort == "SeqInt" {
		if strings.HasPrefix(nb.op, "f:empty.") {
			return Eq(Slen(na), IntC(0))
		}
		if strings.HasPrefix(na.op, "f:empty.") {
			return Eq(Slen(nb), IntC(0))
		}
	}
	return Eq(na, nb)
}

func (x *Exec) indexAddr(st *State, f *Frame, i *ssa.IndexAddr) {
	k := toInt(x.node(st, i.Index))
	switch y := x.val(st, i.X).(type) {
	case *SliceV:
		x.check(st, "index", And(Le(IntC(0), k), Lt(k, y.len)), i.Pos())
		f.regs[i] = &PtrV{ref: y.ref, idx: Add(y.off, k), root: y.elem}
	case *PtrV:
		a, ok := types.Unalias(y.root).Underlying().(*types.Array)
		if !ok {
			unsup("index of %s", y.root)
		}
		x.check(st, "index", And(Le(IntC(0), k), Lt(k, IntC(a.Len()))), i.Pos())
		f.regs[i] = &PtrV{ref: y.ref, idx: k, root: a.Elem()}
	default:
		unsup("index address")
	}
}

func (x *Exec) index(st *State, f *Frame, i *ssa.Index) {
	k := toInt(x.node(st, i.Index))
	n, ok := x.val(st, i.X).(*Node)
	if !ok || n.sort != "SeqInt" {
		unsup("array index")
	}
	x.check(st, "index", And(Le(IntC(0), k), Lt(k, Blen(n))), i.Pos())
	f.regs[i] = App("byteat", bvSort(8), n, k)
}

// ---- maps ----

type mapComps struct {
	dom, ln string
	ks      string
	val     []string
	vs      []leaf
	kt, vt  types.Type
	key     string
}

func mapInfo(t types.Type) mapComps {
	m := types.Unalias(t).Underlying().(*types.Map)
	kl := leaves(m.Key())
	if len(kl) != 1 {
		unsup("map key type %s", m.Key())
	}
	base := "M." + elemKey(m.Key()) + "." + elemKey(m.Elem())
	r := mapComps{dom: base + ".dom", ln: base + ".len", ks: kl[0].sort, kt: m.Key(), vt: m.Elem(), key: base}
	for _, l := range leaves(m.Elem()) {
		r.val = append(r.val, base+".val."+l.path)
		r.vs = append(r.vs, l)
	}
	return r
}

func (x *Exec) mapDom(st *State, mi mapComps, m *Node) *Node {
	return Select(x.comp(st, mi.dom, ArrSort("Int", ArrSort(mi.ks, "Bool"))), m)
}
func (x *Exec) mapLen(st *State, mi mapComps, m *Node) *Node {
	if m.iv != nil && m.iv.Sign() == 0 {
		return IntC(0)
	}
	n := Select(x.comp(st, mi.ln, ArrSort("Int", "Int")), m)
	n = Ite(Eq(m, IntC(0)), IntC(0), n)
	if n.iv == nil {
		if _, ok := ivals[n]; !ok {
			SetInterval(n, new(big.Int), maxLen)
		}
		st.assume(mk("<=", "Bool", IntC(0), n))
		st.assume(mk("<=", "Bool", n, IntB(maxLen)))
	}
	return n
}

func (x *Exec) mapGet(st *State, t types.Type, m, k *Node) (Val, *Node) {
	mi := mapInfo(t)
	ok := And(Neq(m, IntC(0)), Select(x.mapDom(st, mi, m), k))
	if v, known := st.known(ok); known {
		ok = BoolC(v)
	}
	var ns []*Node
	for i, l := range mi.vs {
		c := x.comp(st, mi.val[i], ArrSort("Int", ArrSort(mi.ks, l.sort)))
		n := Select(Select(c, m), k)
		n = Ite(ok, n, zeroLeaf(l))
		ns = append(ns, n)
	}
	v, _ := unflatten(mi.vt, ns)
	x.typeFacts(st, mi.vt, v, false)
	return v, ok
}

func (x *Exec) lookup(st *State, f *Frame, i *ssa.Lookup) {
	if n, ok := x.val(st, i.X).(*Node); ok && n.sort == "SeqInt" {
		k := toInt(x.node(st, i.Index))
		x.check(st, "index", And(Le(IntC(0), k), Lt(k, Blen(n))), i.Pos())
		f.regs[i] = App("byteat", bvSort(8), n, k)
		return
	}
	m := x.node(st, i.X)
	x.mapAccess(st, i.X.Type(), m, false)
	v, ok := x.mapGet(st, i.X.Type(), m, x.node(st, i.Index))
	if i.CommaOk {
		// split so that later code is not full of conditional values
		x.branch(st, ok, func(x *Exec, s *State, taken bool) {
			w, _ := x.mapGet(s, i.X.Type(), m, asNode(x.val(s, i.Index)))
			x.markGuarded(s, i.X.Type(), m, w)
			s.top_().regs[i] = TupleV{w, BoolC(taken)}
		})
		return
	}
	x.markGuarded(st, i.X.Type(), m, v)
	f.regs[i] = v
}

func (x *Exec) mapUpdate(st *State, m *Node, t types.Type, k, v Val, pos token.Pos) {
	mi := mapInfo(t)
	if !isFreshRef(m) {
		x.check(st, "nilmap", Neq(m, IntC(0)), pos)
	}
	x.mapAccess(st, t, m, true)
	kn := asNode(k)
	dom := x.mapDom(st, mi, m)
	ln := x.mapLen(st, mi, m)
	had := Select(dom, kn)
	x.trackMapWrite(st, t, m, kn, v, pos)
	dc := x.comp(st, mi.dom, ArrSort("Int", ArrSort(mi.ks, "Bool")))
	lc := x.comp(st, mi.ln, ArrSort("Int", "Int"))
	st.heap[mi.dom] = Store(dc, m, Store(dom, kn, True))
	st.heap[mi.ln] = Store(lc, m, Ite(had, ln, Add(ln, IntC(1))))
	v = x.escape(st, v)
	for i, n := range flatten(v) {
		c := x.comp(st, mi.val[i], ArrSort("Int", ArrSort(mi.ks, mi.vs[i].sort)))
		st.heap[mi.val[i]] = Store(c, m, Store(Select(c, m), kn, n))
	}
}

func (x *Exec) mapDelete(st *State, m *Node, t types.Type, k Val) {
	mi := mapInfo(t)
	x.mapAccess(st, t, m, true)
	kn := asNode(k)
	dom := x.mapDom(st, mi, m)
	ln := x.mapLen(st, mi, m)
	had := And(Neq(m, IntC(0)), Select(dom, kn))
	x.trackMapWrite(st, t, m, kn, nil, token.NoPos)
	dc := x.comp(st, mi.dom, ArrSort("Int", ArrSort(mi.ks, "Bool")))
	lc := x.comp(st, mi.ln, ArrSort("Int", "Int"))
	st.heap[mi.dom] = Store(dc, m, Store(dom, kn, False))
	st.heap[mi.ln] = Store(lc, m, Ite(had, Sub(ln, IntC(1)), ln))
}

func (x *Exec) makeMap(st *State, t types.Type) Val {
	mi := mapInfo(t)
	r := st.alloc()
	dc := x.comp(st, mi.dom, ArrSort("Int", ArrSort(mi.ks, "Bool")))
	st.heap[mi.dom] = Store(dc, r, ConstArr(ArrSort(mi.ks, "Bool"), False))
	lc := x.comp(st, mi.ln, ArrSort("Int", "Int"))
	st.heap[mi.ln] = Store(lc, r, IntC(0))
	return r
}

func (x *Exec) makeSlice(st *State, t types.Type, n, c *Node) *SliceV {
	el := types.Unalias(t).Underlying().(*types.Slice).Elem()
	r := st.alloc()
	for _, l := range leaves(el) {
		nm := "E." + elemKey(el) + "." + l.path
		cc := x.comp(st, nm, ArrSort("Int", ArrSort("Int", l.sort)))
		st.heap[nm] = Store(cc, r, ConstArr(ArrSort("Int", l.sort), zeroLeaf(l)))
	}
	return &SliceV{r, IntC(0), n, c, el}
}

// sliceOfSeq allocates a fresh slice holding the given sequence.
func (x *Exec) sliceOfSeq(st *State, el types.Type, s *Node) *SliceV {
	r := st.alloc()
	ls := leaves(el)
	nm := "E." + elemKey(el) + "." + ls[0].path
	cc := x.comp(st, nm, ArrSort("Int", ArrSort("Int", ls[0].sort)))
	st.heap[nm] = Store(cc, r, seqArray("arr", s))
	n := Slen(s)
	c := Fresh("cap", "Int")
	SetInterval(c, new(big.Int), maxLen)
	st.assume(mk("<=", "Bool", c, IntB(maxLen)))
	st.assume(Le(n, c))
	return &SliceV{r, IntC(0), n, c, el}
}

func (x *Exec) elemArr(st *State, s *SliceV) *Node {
	ls := leaves(s.elem)
	if len(ls) != 1 {
		unsup("sequence of multi-word elements")
	}
	nm := "E." + elemKey(s.elem) + "." + ls[0].path
	return Select(x.comp(st, nm, ArrSort("Int", ArrSort("Int", ls[0].sort))), s.ref)
}

// view of a slice as a mathematical sequence
func (x *Exec) view(st *State, s *SliceV) *Node {
	if s.len.iv != nil && s.len.iv.Sign() == 0 {
		return EmptySeq(elemSeqSort(s.elem))
	}
	return View(x.elemArr(st, s), s.off, s.len)
}

// ---- slices ----

func (x *Exec) slice(st *State, f *Frame, i *ssa.Slice) {
	var lo, hi, mx *Node
	if i.Low != nil {
		lo = toInt(x.node(st, i.Low))
	} else {
		lo = IntC(0)
	}
	if i.High != nil {
		hi = toInt(x.node(st, i.High))
	}
	if i.Max != nil {
		mx = toInt(x.node(st, i.Max))
	}
	switch y := x.val(st, i.X).(type) {
	case *SliceV:
		if hi == nil {
			hi = y.len
		}
		c := y.cap
		if mx != nil {
			x.check(st, "slice", And(Le(hi, mx), Le(mx, y.cap)), i.Pos())
			c = mx
		}
		x.check(st, "slice", And(Le(IntC(0), lo), Le(lo, hi), Le(hi, c)), i.Pos())
		f.regs[i] = &SliceV{y.ref, Add(y.off, lo), Sub(hi, lo), Sub(c, lo), y.elem}
		x.sliceFacts(st, f.regs[i].(*SliceV))
	case *PtrV:
		a, ok := types.Unalias(y.root).Underlying().(*types.Array)
		if !ok {
			unsup("slice of %s", y.root)
		}
		n := IntC(a.Len())
		if hi == nil {
			hi = n
		}
		c := n
		if mx != nil {
			c = mx
		}
		x.check(st, "slice", And(Le(IntC(0), lo), Le(lo, hi), Le(hi, c), Le(c, n)), i.Pos())
		f.regs[i] = &SliceV{y.ref, lo, Sub(hi, lo), Sub(c, lo), a.Elem()}
	case *Node:
		if hi == nil {
			hi = Blen(y)
		}
		x.check(st, "slice", And(Le(IntC(0), lo), Le(lo, hi), Le(hi, Blen(y))), i.Pos())
		f.regs[i] = x.substr(st, y, lo, hi)
	default:
		unsup("slice expression")
	}
}

func (x *Exec) sliceFacts(st *State, s *SliceV) {
	for _, n := range []*Node{s.len, s.cap, s.off} {
		if n.iv == nil {
			if _, ok := ivals[n]; !ok && (n.op == "-" || n.op == "ite") {
				SetInterval(n, new(big.Int), maxLen)
			}
		}
	}
}

// byteOffset recognises byte offsets that are character boundaries of s and gives the character index.
func byteOffset(s, n *Node) (*Node, bool) {
	if n.iv != nil && n.iv.Sign() == 0 {
		return IntC(0), true
	}
	if n == Blen(s) {
		return Slen(s), true
	}
	if n.op == "f:blen" && n.args[0].op == "f:take.SeqInt" && n.args[0].args[0] == s {
		return n.args[0].args[1], true
	}
	if n.op == "f:blen" && s.op == "f:cat.SeqInt" && s.args[0] == n.args[0] {
		return Slen(n.args[0]), true
	}
	return nil, false
}

func (x *Exec) substr(st *State, s, lo, hi *Node) *Node {
	a, ok1 := byteOffset(s, lo)
	b, ok2 := byteOffset(s, hi)
	if ok1 && ok2 {
		return Stake(Sdrop(s, a), Sub(b, a))
	}
	r := App("bsub", "SeqInt", s, lo, hi)
	st.assume(Eq(Blen(r), Sub(hi, lo)))
	return r
}

func (x *Exec) typeAssert(st *State, f *Frame, i *ssa.TypeAssert) {
	a := x.node(st, i.X)
	t := i.AssertedType
	var cond *Node
	if isInterface(t) {
		cond = Neq(a, NilAny)
		if it := types.Unalias(t).Underlying().(*types.Interface); it.NumMethods() > 0 {
			cond = And(cond, Implements(t, a))
		}
	} else {
		cond = Eq(App("tag", "Int", a), x.tagOf(t))
	}
	get := func(s *State) Val {
		if isInterface(t) {
			return a
		}
		return x.unbox(s, t, a)
	}
	if i.CommaOk {
		x.branch(st, cond, func(x *Exec, s *State, taken bool) {
			if taken {
				s.top_().regs[i] = TupleV{get(s), True}
			} else {
				s.top_().regs[i] = TupleV{zeroVal(t), False}
			}
		})
		return
	}
	x.check(st, "typeassert", cond, i.Pos())
	f.regs[i] = get(st)
}

// ---- conversions ----

func (x *Exec) convert(st *State, v Val, from, to types.Type, pos token.Pos) Val {
	ft, tt := types.Unalias(from).Underlying(), types.Unalias(to).Underlying()
	fb, fok := ft.(*types.Basic)
	tb, tok := tt.(*types.Basic)
	if fok && tok {
		n := asNode(v)
		if fb.Kind() == types.UnsafePointer || tb.Kind() == types.UnsafePointer {
			return n
		}
		if tb.Info()&types.IsString != 0 {
			if fb.Info()&types.IsString != 0 {
				return n
			}
			if fb.Info()&types.IsInteger != 0 {
				return Sbuild(EmptySeq("SeqInt"), x.normRune(st, toInt(n)))
			}
		}
		if fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0 {
			return x.convInt(st, n, from, to)
		}
		if fb.Info()&types.IsFloat != 0 && tb.Info()&types.IsFloat != 0 {
			fs, ts := basicSort(fb), basicSort(tb)
			if fs == ts {
				return n
			}
			rne := mk("RNE", "RoundingMode")
			if ts == sortF64 {
				return mk("(_ to_fp 11 53)", ts, rne, n)
			}
			return mk("(_ to_fp 8 24)", ts, rne, n)
		}
		if fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsFloat != 0 {
			return App("int2float"+fmt.Sprint(tb.Kind()), basicSort(tb), toInt(n))
		}
		if fb.Info()&types.IsFloat != 0 && tb.Info()&types.IsInteger != 0 {
			r := App("float2int"+fmt.Sprint(fb.Kind())+fmt.Sprint(tb.Kind()), basicSort(tb), n)
			setLeafInterval(to, r)
			return r
		}
		unsup("conversion %s to %s", from, to)
	}
	// unsafe.Pointer(&v) and back
	if tok && tb.Kind() == types.UnsafePointer {
		e := x.escape(st, v)
		if p, ok := e.(*PtrV); ok {
			if len(p.path) > 0 || p.idx != nil {
				unsup("unsafe.Pointer to a part of an object")
			}
			st.setOrigin(p.ref, p.root)
		}
		return asNode(e)
	}
	if fok && fb.Kind() == types.UnsafePointer {
		if p, ok := tt.(*types.Pointer); ok {
			n := asNode(v)
			if st.uorig[n] == nil {
				x.trusted["an unsafe.Pointer loaded from memory points to a "+p.Elem().String()] = true
			}
			return &PtrV{ref: n, root: p.Elem()}
		}
	}
	if fok && fb.Info()&types.IsString != 0 {
		if s, ok := tt.(*types.Slice); ok {
			n := asNode(v)
			switch elemKey(s.Elem()) {
			case "int32":
				return x.sliceOfSeq(st, s.Elem(), n)
			case "uint8":
				return x.sliceOfSeq(st, s.Elem(), Enc(n))
			}
		}
	}
	if s, ok := ft.(*types.Slice); ok && tok && tb.Info()&types.IsString != 0 {
		sv := v.(*SliceV)
		switch elemKey(s.Elem()) {
		case "int32":
			w := x.view(st, sv)
			if x.isTrue(st, App("isstr", "Bool", w)) {
				return w
			}
			return App("normseq", "SeqInt", w)
		case "uint8":
			return Dec(x.view(st, sv))
		}
	}
	if types.Identical(ft, tt) {
		return v
	}
	if _, ok := ft.(*types.Signature); ok {
		return v
	}
	unsup("conversion %s to %s", from, to)
	return nil
}

func Enc(s *Node) *Node {
	if s.op == "f:dec" {
		return s.args[0]
	}
	return App("enc", "SeqB8", s)
}
func Dec(b *Node) *Node {
	if b.op == "f:enc" {
		return b.args[0]
	}
	return App("dec", "SeqInt", b)
}

func (x *Exec) convInt(st *State, n *Node, from, to types.Type) *Node {
	fbits, _, _ := intInfo(from)
	tbits, tsigned, _ := intInfo(to)
	fw := bvWidth(n.sort)
	tw := bvWidth(leaves(to)[0].sort)
	switch {
	case fw > 0 && tw > 0:
		if fw == tw {
			return n
		}
		if fw < tw {
			return mk(fmt.Sprintf("(_ zero_extend %d)", tw-fw), bvSort(tw), n)
		}
		return mk(fmt.Sprintf("(_ extract %d 0)", tw-1), bvSort(tw), n)
	case fw > 0:
		return x.wrap(st, BV2Nat(n), tbits, tsigned)
	case tw > 0:
		if n.iv != nil {
			m := new(big.Int).Mod(n.iv, new(big.Int).Lsh(big.NewInt(1), uint(tw)))
			return BVC(m.Uint64(), tw)
		}
		return mk(fmt.Sprintf("(_ int2bv %d)", tw), bvSort(tw), n)
	}
	_ = fbits
	return x.wrap(st, n, tbits, tsigned)
}

// normRune: WriteRune / string(rune) replace invalid code points by U+FFFD.
func (x *Exec) normRune(st *State, r *Node) *Node {
	if r.iv != nil {
		v := r.iv.Int64()
		if !r.iv.IsInt64() || v < 0 || v > 0x10FFFF || (v >= 0xD800 && v <= 0xDFFF) {
			return IntC(0xFFFD)
		}
		return r
	}
	if x.isTrue(st, App("validrune", "Bool", r)) {
		return r
	}
	return App("normrune", "Int", r)
}

// ---- iteration ----

type Iter struct {
	kind string // "string" or "map"
	seq  *Node
	dom  *Node
	mref *Node
	mt   types.Type
	cell *Cell // position
}

func (x *Exec) makeIter(st *State, i *ssa.Range) Val {
	x.cellCtr++
	c := &Cell{name: "$pos", typ: types.Typ[types.Int], id: x.cellCtr}
	st.cells[c] = IntC(0)
	t := types.Unalias(i.X.Type()).Underlying()
	switch t.(type) {
	case *types.Basic:
		return &Iter{kind: "string", seq: x.node(st, i.X), cell: c}
	case *types.Map:
		m := x.node(st, i.X)
		mi := mapInfo(i.X.Type())
		x.mapAccess(st, i.X.Type(), m, false)
		dom := x.mapDom(st, mi, m)
		ln := x.mapLen(st, mi, m)
		o := x.mapOrder(st, mi.ks, dom, ln, m)
		st.conc.order = o
		return &Iter{kind: "map", seq: o, dom: dom, mref: m, mt: i.X.Type(), cell: c}
	}
	unsup("range over %s", i.X.Type())
	return nil
}

// mapOrder: an arbitrary enumeration of the keys of a map, each exactly once.
func (x *Exec) mapOrder(st *State, ks string, dom, ln, m *Node) *Node {
	srt := seqSortOf(ks)
	o := Fresh("order", srt)
	pos := strings.TrimPrefix(Fresh("pos", "Int").op, "c:") + "f"
	st.assume(Eq(Slen(o), ln))
	i := BoundVar("i", "Int")
	k := BoundVar("k", ks)
	in := And(Le(IntC(0), i), Lt(i, Slen(o)))
	st.assume(Forall([]*Node{i}, Imp(in, And(Select(dom, Sidx(o, i)), Eq(App(pos, "Int", Sidx(o, i)), i))), []*Node{Sidx(o, i)}))
	nz := Neq(m, IntC(0))
	st.assume(Forall([]*Node{k}, Imp(And(nz, Select(dom, k)), And(Le(IntC(0), App(pos, "Int", k)), Lt(App(pos, "Int", k), Slen(o)), Eq(Sidx(o, App(pos, "Int", k)), k))), []*Node{Select(dom, k)}, []*Node{App(pos, "Int", k)}))
	if dom.op == "constarr" {
		st.assume(Eq(Slen(o), IntC(0)))
	}
	x.orders = append(x.orders, o)
	if x.posFn == nil {
		x.posFn = map[*Node]string{}
	}
	x.posFn[o] = pos
	return o
}

func (x *Exec) next(st *State, f *Frame, i *ssa.Next) {
	it := x.val(st, i.Iter).(*Iter)
	p := st.cells[it.cell].(*Node)
	st.assume(Le(IntC(0), p))
	st.assume(Le(p, Slen(it.seq)))
	more := Lt(p, Slen(it.seq))
	x.branch(st, more, func(x *Exec, s *State, taken bool) {
		tt := i.Type().(*types.Tuple)
		if !taken {
			var zk, zv Val = IntC(0), IntC(0)
			if !i.IsString {
				mt := types.Unalias(it.mt).Underlying().(*types.Map)
				zk, zv = zeroVal(mt.Key()), zeroVal(mt.Elem())
			}
			_ = tt
			s.top_().regs[i] = TupleV{False, zk, zv}
			return
		}
		s.cells[it.cell] = Add(p, IntC(1))
		if i.IsString {
			r := Sidx(it.seq, p)
			SetInterval(r, big.NewInt(0), big.NewInt(0x10FFFF))
			s.assume(App("validrune", "Bool", r))
			s.top_().regs[i] = TupleV{True, Blen(Stake(it.seq, p)), r}
			return
		}
		mi := mapInfo(it.mt)
		x.mapAccess(s, it.mt, it.mref, false)
		if x.mapDom(s, mi, it.mref) != it.dom {
			unsup("map modified while it is ranged over")
		}
		k := Sidx(it.seq, p)
		mt := types.Unalias(it.mt).Underlying().(*types.Map)
		s.assume(Select(it.dom, k))
		s.assume(Neq(it.mref, IntC(0)))
		v, _ := x.mapGet(s, it.mt, it.mref, k)
		kv, _ := unflatten(mt.Key(), []*Node{k})
		x.typeFacts(s, mt.Key(), kv, false)
		s.top_().regs[i] = TupleV{True, kv, v}
	})
}

// ---- control flow ----

func (x *Exec) jump(st *State, f *Frame, b *ssa.BasicBlock) {
	// leaving loops
	for h, a := range f.active {
		if !a.body[b] {
			if a.collect {
				st.dead = true
				return
			}
			delete(f.active, h)
		}
	}
	from := f.block
	// evaluate phis in parallel
	var phis []*ssa.Phi
	var vals []Val
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		for k, pr := range b.Preds {
			if pr == from {
				vals = append(vals, x.val(st, p.Edges[k]))
				break
			}
		}
		phis = append(phis, p)
	}
	for k, p := range phis {
		f.regs[p] = vals[k]
	}
	f.prev = from
	f.block = b
	f.idx = 0
	if a, ok := f.active[b]; ok {
		x.backEdge(st, a)
		return
	}
	if li := x.prog.loopsOf(f.fn)[b]; li != nil && !li.body[from] {
		f.unroll[b] = 0
		x.enterLoop(st, f, b, li)
	} else if li != nil {
		// unrolled iteration
		x.enterLoop(st, f, b, li)
	}
}

func (x *Exec) call(st *State, f *Frame, i *ssa.Call) {
	fnv, args := x.callee(st, &i.Call)
	x.callVal(st, fnv, args, &i.Call, i.Pos(), false, func(x *Exec, st *State, res []Val) {
		if len(st.frames) == 0 {
			return
		}
		rs := i.Call.Signature().Results()
		switch rs.Len() {
		case 0:
		case 1:
			st.top_().regs[i] = res[0]
		default:
			st.top_().regs[i] = TupleV(res)
		}
		if _, isB := i.Call.Value.(*ssa.Builtin); isB && len(res) == 1 {
			st.top_().regs[i] = res[0]
		}
	})
}

type invokeV struct {
	recv   *Node
	method *types.Func
	iface  types.Type
}

func (x *Exec) callee(st *State, c *ssa.CallCommon) (Val, []Val) {
	var args []Val
	for _, a := range c.Args {
		args = append(args, x.val(st, a))
	}
	if c.IsInvoke() {
		return &invokeV{recv: x.node(st, c.Value), method: c.Method, iface: c.Value.Type()}, args
	}
	return x.val(st, c.Value), args
}

// callVal performs a call; k receives the results in the caller's frame.
func (x *Exec) callVal(st *State, fnv Val, args []Val, cc *ssa.CallCommon, pos token.Pos, isDefer bool, k func(x *Exec, st *State, res []Val)) {
	switch y := fnv.(type) {
	case *ssa.Builtin:
		x.builtin(st, y, args, cc, pos, k)
		return
	case *invokeV:
		x.invoke(st, y, args, cc, pos, isDefer, k)
		return
	case *Node:
		if c, ok := closTable[y]; ok {
			x.callVal(st, c, args, cc, pos, isDefer, k)
			return
		}
		if y == NilFn() {
			x.check(st, "nilfunc", False, pos)
			st.dead = true
			return
		}
		x.callback(st, y, args, cc.Signature(), pos, k)
		return
	case *ClosV:
		if y.fn == nil {
			unsup("call of an unknown function value")
		}
		x.callStatic(st, y, args, cc, pos, isDefer, k)
		return
	}
	unsup("call of %T", fnv)
}

func (x *Exec) callStatic(st *State, c *ClosV, args []Val, cc *ssa.CallCommon, pos token.Pos, isDefer bool, k func(x *Exec, st *State, res []Val)) {
	fn := c.fn
	key := funcKey(fn)
	if m, ok := externModels[key]; ok && x.curPkg(st) != fn.Pkg {
		x.trusted["assumed contract on "+key+" (properties C10, C11)"] = true
		m(&callCtx{x: x, st: st, args: args, fn: fn, cc: cc, pos: pos, k: k})
		return
	}
	if s := x.prog.specs[key]; s != "" && !x.prog.isRepo(fn.Pkg.Pkg.Path()) {
		// a library function described by a program
		sf := x.prog.funcs[s]
		if sf == nil {
			unsup("specification program %s does not exist", s)
		}
		x.trusted["assumed: "+key+" behaves as "+s] = true
		x.pushCall(st, sf, args, nil, k)
		return
	}
	if x.con != nil && x.con.abstract {
		if s := x.prog.specs[key]; s != "" {
			sf := x.prog.funcs[s]
			if sf == nil {
				unsup("specification program %s does not exist", s)
			}
			x.used[key] = true
			x.pushCall(st, sf, args, nil, k)
			return
		}
		if m, ok := specPrims[key]; ok {
			m(&callCtx{x: x, st: st, args: args, fn: fn, cc: cc, pos: pos, k: k})
			return
		}
		if x.autoPure(fn) && fn.Signature.Results().Len() == 1 {
			r := x.pureApp(st, fn, args)
			if x.inPure {
				k(x, st, []Val{r})
				return
			}
			x.pushCall(st, fn, args, c.binds, func(x *Exec, st *State, _ []Val) { k(x, st, []Val{r}) })
			return
		}
	}
	if m, ok := intrinsics[key]; ok {
		x.trusted[key] = true
		m(&callCtx{x: x, st: st, args: args, fn: fn, cc: cc, pos: pos, k: k})
		return
	}
	// method values and method expressions are wrappers around a call of the method
	wrapper := len(fn.Blocks) > 0 && (strings.HasPrefix(fn.Synthetic, "bound method wrapper") || strings.HasPrefix(fn.Synthetic, "thunk for"))
	if !wrapper && fn.Pkg != nil && !x.prog.isRepo(fn.Pkg.Pkg.Path()) || !wrapper && fn.Pkg == nil && fn.Object() != nil && fn.Object().Pkg() != nil && !x.prog.isRepo(fn.Object().Pkg().Path()) {
		if x.pureLibCall(st, fn, args, k) {
			return
		}
		unsup("call of %s (no trusted contract)", key)
	}
	if len(c.binds) == 0 && fn.Parent() == nil {
		if con := x.prog.contracts[key]; con != nil && x.useModular(st, con, fn) {
			x.applyContract(st, con, fn, args, pos, k)
			return
		}
	}
	f := x.pushCall(st, fn, args, c.binds, k)
	f.isDefer = isDefer
}

var traceOn = os.Getenv("GOVER_TRACE") != ""

// pureLibs are standard packages whose top-level functions neither change the
// program's memory nor block; a call without a contract of its own returns some
// value of its result type (the same one for the same basic arguments).
var pureLibs = map[string]bool{"strings": true, "unicode": true, "unicode/utf8": true, "math": true, "math/bits": true, "errors": true, "strconv": true, "fmt": true, "path": true, "unicode/utf16": true, "hash/fnv": false}

var impureLib = map[string]bool{"strings.Repeat": true, "unicode/utf8.EncodeRune": true, "unicode/utf8.AppendRune": true, "errors.As": true}

func (x *Exec) pureLibCall(st *State, fn *ssa.Function, args []Val, k func(x *Exec, st *State, res []Val)) bool {
	if fn.Pkg == nil || !pureLibs[fn.Pkg.Pkg.Path()] || fn.Signature.Recv() != nil || fn.Parent() != nil {
		return false
	}
	key := funcKey(fn)
	name := fn.Name()
	if impureLib[key] || strings.HasPrefix(name, "Append") || fn.Pkg.Pkg.Path() == "fmt" && name != "Errorf" && !strings.HasPrefix(name, "Sprint") {
		return false
	}
	basic := func(t types.Type) bool {
		_, ok := t.Underlying().(*types.Basic)
		return ok
	}
	ok := true
	ps, rs := fn.Signature.Params(), fn.Signature.Results()
	for i := 0; i < ps.Len(); i++ {
		switch ps.At(i).Type().Underlying().(type) {
		case *types.Basic:
		case *types.Interface, *types.Slice:
			ok = false
		default:
			return false
		}
	}
	for i := 0; i < rs.Len(); i++ {
		switch rs.At(i).Type().Underlying().(type) {
		case *types.Basic:
		case *types.Interface, *types.Slice:
			ok = false
		default:
			return false
		}
	}
	x.trusted["assumed: "+key+" has no side effect and returns some value"] = true
	var res []Val
	for i := 0; i < rs.Len(); i++ {
		t := rs.At(i).Type()
		if ok && basic(t) {
			var flat []*Node
			for _, a := range args {
				flat = append(flat, flatten(a)...)
			}
			var ns []*Node
			for j, l := range leaves(t) {
				n := App(fmt.Sprintf("lib.%s.%d.%d", sanitize(key), i, j), l.sort, flat...)
				setLeafInterval(l.typ, n)
				ns = append(ns, n)
			}
			v, _ := unflatten(t, ns)
			x.typeFacts(st, t, v, false)
			res = append(res, v)
			continue
		}
		v := x.havocVal(st, "lib."+name, t)
		if n, isN := v.(*Node); isN && name == "Errorf" {
			st.assume(Not(Eq(n, NilAny)))
		}
		res = append(res, v)
	}
	k(x, st, res)
	return true
}
