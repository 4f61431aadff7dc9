package main

// Builtins, trusted models of library functions, unknown function values, interface methods, modular calls.

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type callCtx struct {
	x    *Exec
	st   *State
	args []Val
	fn   *ssa.Function
	cc   *ssa.CallCommon
	pos  token.Pos
	k    func(x *Exec, st *State, res []Val)
}

func (c *callCtx) ret(vs ...Val) { c.k(c.x, c.st, vs) }
func (c *callCtx) node(i int) *Node {
	return asNode(c.args[i])
}
func (c *callCtx) slice(i int) *SliceV { return c.args[i].(*SliceV) }

// ---- hooks ----

func (x *Exec) cellRead(st *State, c *Cell) {
	if !x.quiet {
		st.conc.cellRead(x, st, c)
	}
}
func (x *Exec) cellWrite(st *State, c *Cell) {
	if !x.quiet {
		st.conc.cellWrite(x, st, c)
	}
}
func (x *Exec) heapAccess(st *State, p *PtrV, names []string, write bool) {
	if !x.quiet {
		x.guardCheck(st, names, p.ref, write)
		x.boxCheck(st, p, write)
		st.conc.heapAccess(x, st, names, p.ref, write)
	}
}
func (x *Exec) mapAccess(st *State, t types.Type, m *Node, write bool) {
	if !x.quiet {
		x.guardCheck(st, []string{mapInfo(t).key}, m, write)
		st.conc.heapAccess(x, st, []string{mapInfo(t).key}, m, write)
	}
}

// ---- builtins ----

func (x *Exec) builtin(st *State, b *ssa.Builtin, args []Val, cc *ssa.CallCommon, pos token.Pos, k func(x *Exec, st *State, res []Val)) {
	one := func(v Val) { k(x, st, []Val{v}) }
	switch b.Name() {
	case "ssa:deferstack":
		k(x, st, []Val{zeroVal(cc.Signature().Results().At(0).Type())})
		return
	case "len":
		switch y := args[0].(type) {
		case *SliceV:
			one(y.len)
			return
		case *Node:
			if y.sort == "SeqInt" {
				one(Blen(y))
				return
			}
			switch types.Unalias(cc.Args[0].Type()).Underlying().(type) {
			case *types.Map:
				x.mapAccess(st, cc.Args[0].Type(), y, false)
				one(x.mapLen(st, mapInfo(cc.Args[0].Type()), y))
				return
			case *types.Chan:
				if l := x.chLen(st, y, cc.Args[0].Type()); l != nil {
					one(l)
					return
				}
				n := Fresh("chlen", "Int")
				SetInterval(n, new(big.Int), maxLen)
				st.assume(mk("<=", "Bool", IntC(0), n))
				one(n)
				return
			}
		}
	case "cap":
		switch y := args[0].(type) {
		case *SliceV:
			one(y.cap)
			return
		case *Node:
			one(x.chCap(st, y))
			return
		}
	case "append":
		x.appendB(st, args, cc, pos, k)
		return
	case "copy":
		x.copyB(st, args, cc, k)
		return
	case "delete":
		x.mapDelete(st, asNode(args[0]), cc.Args[0].Type(), args[1])
		k(x, st, nil)
		return
	case "close":
		x.closeChan(st, asNode(args[0]), pos)
		k(x, st, nil)
		return
	case "recover":
		f := st.top_()
		// recover() must be called directly by a deferred function
		if f.isDefer && len(st.frames) >= 2 {
			g := st.frames[len(st.frames)-2]
			if g.panicking && !g.recovered {
				g.recovered = true
				one(g.panicVal)
				return
			}
		}
		one(NilAny)
		return
	case "print", "println":
		k(x, st, nil)
		return
	case "ssa:wrapnilchk":
		one(args[0])
		return
	case "min", "max":
		r := asNode(args[0])
		if r.sort != "Int" {
			unsup("builtin %s on %s", b.Name(), r.sort)
		}
		for _, a := range args[1:] {
			n := asNode(a)
			if b.Name() == "min" {
				r = Ite(Le(n, r), n, r)
			} else {
				r = Ite(Le(r, n), n, r)
			}
		}
		one(r)
		return
	}
	unsup("builtin %s", b.Name())
}

// contents of the second append argument
func (x *Exec) appendB(st *State, args []Val, cc *ssa.CallCommon, pos token.Pos, k func(x *Exec, st *State, res []Val)) {
	s := args[0].(*SliceV)
	var t *SliceV
	switch y := args[1].(type) {
	case *SliceV:
		t = y
	case *Node: // append([]byte, string...)
		t = x.sliceOfSeq(st, types.Typ[types.Uint8], Enc(y))
	}
	ls := leaves(s.elem)
	var names []string
	for _, l := range ls {
		names = append(names, "E."+elemKey(s.elem)+"."+l.path)
	}
	if t.len.iv != nil && t.len.iv.Sign() == 0 {
		k(x, st, []Val{s})
		return
	}
	n := Add(s.len, t.len)
	st.assume(Le(n, IntB(maxLen)))
	SetInterval(n, new(big.Int), maxLen)
	var fits *Node
	if s.cap.iv != nil && s.cap.iv.Sign() == 0 {
		fits = False
		if t.len.iv == nil {
			fits = Eq(t.len, IntC(0))
		}
	} else {
		fits = Le(n, s.cap)
	}
	x.heapAccess(st, &PtrV{ref: t.ref, idx: IntC(0), root: t.elem}, names, false)
	x.branch(st, fits, func(x *Exec, st *State, inplace bool) {
		var tv []*Node // element arrays of t
		for i, l := range ls {
			tv = append(tv, Select(x.comp(st, names[i], ArrSort("Int", ArrSort("Int", l.sort))), t.ref))
		}
		if inplace {
			if s.cap.iv != nil && s.cap.iv.Sign() == 0 {
				k(x, st, []Val{s})
				return
			}
			x.heapAccess(st, &PtrV{ref: s.ref, idx: s.len, root: s.elem}, names, true)
			for i, l := range ls {
				c := x.comp(st, names[i], ArrSort("Int", ArrSort("Int", l.sort)))
				a := Select(c, s.ref)
				st.heap[names[i]] = Store(c, s.ref, x.writeRange(st, a, Add(s.off, s.len), tv[i], t.off, t.len, l.sort, s.off, s.len))
			}
			k(x, st, []Val{&SliceV{s.ref, s.off, n, s.cap, s.elem}})
			return
		}
		r := st.alloc()
		cp := Fresh("cap", "Int")
		SetInterval(cp, new(big.Int), maxLen)
		st.assume(mk("<=", "Bool", cp, IntB(maxLen)))
		st.assume(Le(n, cp))
		st.assume(Lt(IntC(0), cp))
		for i, l := range ls {
			c := x.comp(st, names[i], ArrSort("Int", ArrSort("Int", l.sort)))
			a := Select(c, s.ref)
			var na *Node
			if hasSeq(l.sort) {
				na = seqArray("app", Scat(View(a, s.off, s.len), smallView(tv[i], t.off, t.len)))
			} else {
				b := Fresh("app", a.sort)
				i := BoundVar("i", "Int")
				st.assume(Forall([]*Node{i}, Imp(And(Le(IntC(0), i), Lt(i, s.len)), Eq(mk("select", l.sort, b, i), Select(a, Add(s.off, i)))), []*Node{mk("select", l.sort, b, i)}))
				na = x.writeRange(st, b, s.len, tv[0], t.off, t.len, l.sort, IntC(0), s.len)
			}
			st.heap[names[i]] = Store(c, r, na)
		}
		k(x, st, []Val{&SliceV{r, IntC(0), n, cp, s.elem}})
	})
}

func hasSeq(sort string) bool {
	for _, p := range seqElems {
		if p[1] == sort {
			return true
		}
	}
	return false
}

// smallView spells out short concrete windows.
func smallView(a, off, n *Node) *Node {
	srt := seqSortOf(arrayElem(a.sort))
	if n.iv != nil && n.iv.IsInt64() && n.iv.Int64() <= 8 {
		r := EmptySeq(srt)
		for i := int64(0); i < n.iv.Int64(); i++ {
			r = Sbuild(r, Select(a, Add(off, IntC(i))))
		}
		return r
	}
	return View(a, off, n)
}

// writeRange copies n elements of src[soff..] to dst[doff..]; (voff, vlen) is the window in front of doff whose view is extended.
func (x *Exec) writeRange(st *State, dst, doff, src, soff, n *Node, srt string, voff, vlen *Node) *Node {
	if n.iv != nil && n.iv.IsInt64() && n.iv.Int64() <= 8 {
		a := dst
		for i := int64(0); i < n.iv.Int64(); i++ {
			a = Store(a, Add(doff, IntC(i)), Select(src, Add(soff, IntC(i))))
		}
		if hasSeq(srt) && vlen != nil {
			st.assume(Eq(rawView(a, voff, Add(vlen, n)), Scat(View(dst, voff, vlen), smallView(src, soff, n))))
		}
		return a
	}
	b := Fresh("cpy", dst.sort)
	i := BoundVar("i", "Int")
	in := And(Le(doff, i), Lt(i, Add(doff, n)))
	body := Eq(mk("select", srt, b, i), Ite(in, mk("select", srt, src, Add(Sub(i, doff), soff)), mk("select", srt, dst, i)))
	if _, ok := arrSeq[src]; ok {
		body = Eq(mk("select", srt, b, i), Ite(in, Select(src, Add(Sub(i, doff), soff)), Select(dst, i)))
	}
	st.assume(Forall([]*Node{i}, body, []*Node{mk("select", srt, b, i)}))
	if hasSeq(srt) {
		st.assume(Eq(rawView(b, doff, n), View(src, soff, n)))
		if vlen != nil {
			st.assume(Eq(rawView(b, voff, Add(vlen, n)), Scat(View(dst, voff, vlen), View(src, soff, n))))
		}
	}
	return b
}

func rawView(a, off, n *Node) *Node {
	srt := seqSortOf(arrayElem(a.sort))
	return App("view."+srt, srt, a, off, n)
}

func (x *Exec) copyB(st *State, args []Val, cc *ssa.CallCommon, k func(x *Exec, st *State, res []Val)) {
	d := args[0].(*SliceV)
	var s *SliceV
	switch y := args[1].(type) {
	case *SliceV:
		s = y
	case *Node:
		s = x.sliceOfSeq(st, types.Typ[types.Uint8], Enc(y))
	}
	x.branch(st, Le(s.len, d.len), func(x *Exec, st *State, whole bool) {
		n := d.len
		if whole {
			n = s.len
		}
		if n.iv != nil && n.iv.Sign() == 0 {
			k(x, st, []Val{n})
			return
		}
		ls := leaves(d.elem)
		for _, l := range ls {
			nm := "E." + elemKey(d.elem) + "." + l.path
			x.heapAccess(st, &PtrV{ref: s.ref, idx: IntC(0), root: s.elem}, []string{nm}, false)
			x.heapAccess(st, &PtrV{ref: d.ref, idx: IntC(0), root: d.elem}, []string{nm}, true)
			c := x.comp(st, nm, ArrSort("Int", ArrSort("Int", l.sort)))
			a, b := Select(c, d.ref), Select(c, s.ref)
			na := x.writeRange(st, a, d.off, b, s.off, n, l.sort, nil, nil)
			if hasSeq(l.sort) && na != a {
				st.assume(Eq(rawView(na, d.off, n), View(b, s.off, n)))
				if n != d.len {
					st.assume(Eq(rawView(na, d.off, d.len), Scat(View(b, s.off, n), Sdrop(View(a, d.off, d.len), n))))
				}
			}
			// the destination may be a nil slice only when nothing is copied
			st.heap[nm] = Store(c, d.ref, na)
		}
		k(x, st, []Val{n})
	})
}

// ---- unknown function values ----

func sigKey(s *types.Signature) string {
	var ps, rs []string
	for i := 0; i < s.Params().Len(); i++ {
		ps = append(ps, typeKey(s.Params().At(i).Type()))
	}
	for i := 0; i < s.Results().Len(); i++ {
		rs = append(rs, typeKey(s.Results().At(i).Type()))
	}
	return sanitize(strings.Join(ps, ".") + "-" + strings.Join(rs, "."))
}

func resultTerms(prefix string, rs *types.Tuple, args []*Node) []Val {
	var out []Val
	for i := 0; i < rs.Len(); i++ {
		t := rs.At(i).Type()
		var ns []*Node
		for _, l := range leaves(t) {
			nm := fmt.Sprintf("%s.%d", prefix, i)
			if l.path != "" {
				nm += "." + sanitize(l.path)
			}
			if strings.HasPrefix(prefix, "res") && !strings.Contains(prefix, ".") {
				nm = strings.Replace(nm, ".", "_"+sanitize(l.sort)+".", 1)
			}
			n := App(nm, l.sort, args...)
			if _, ok := ivals[n]; !ok {
				setLeafInterval(l.typ, n)
			}
			ns = append(ns, n)
		}
		v, _ := unflatten(t, ns)
		out = append(out, v)
	}
	return out
}

// resTerm: results of an unknown function value as (pure) functions of it and its arguments.
func (x *Exec) resTerm(sig *types.Signature, f *Node, args []*Node) []Val {
	nm := "res"
	for _, a := range args {
		nm += sanitize(a.sort)
	}
	return resultTerms(nm, sig.Results(), append([]*Node{f}, args...))
}

// emitTerm: what an unknown function sends on the channel it is given.
func (x *Exec) emitTerm(sig *types.Signature, f *Node, args []*Node) *Node {
	nm := "emit"
	for _, a := range args {
		nm += sanitize(a.sort)
	}
	return App(nm, "SeqAny", append([]*Node{f}, args...)...)
}

func optApp(f, s *Node) *Node { return App("optapp", "Any", f, s) }

func (x *Exec) callback(st *State, f *Node, args []Val, sig *types.Signature, pos token.Pos, k func(x *Exec, st *State, res []Val)) {
	x.check(st, "nilfunc", Neq(f, NilFn()), pos)
	if st.dead {
		return
	}
	if f.op == "f:ctxcancel" {
		x.setDone(st, f.args[0], True)
		k(x, st, nil)
		return
	}
	x.callbackPre(st, f, args, sig, pos)
	if st.dead {
		return
	}
	var plain []*Node
	var plainV []Val
	var plainT []types.Type
	var chans []*Node
	var opts []*PtrV
	for i := 0; i < sig.Params().Len(); i++ {
		t := sig.Params().At(i).Type()
		switch u := types.Unalias(t).Underlying().(type) {
		case *types.Chan:
			chans = append(chans, asNode(args[i]))
			continue
		case *types.Pointer:
			if isStruct(u.Elem()) {
				if p, ok := args[i].(*PtrV); ok && sig.Params().Len() == 1 && sig.Results().Len() == 0 {
					opts = append(opts, p)
					continue
				}
			}
		case *types.Interface:
			// a *WriteBarrier passed as a Writer: an output channel
			if n, ok := args[i].(*Node); ok {
				if ch := x.writerChan(st, n); ch != nil {
					chans = append(chans, ch)
					continue
				}
			}
		}
		v := x.escape(st, args[i])
		ns := flatten(v)
		if len(ns) != 1 {
			unsup("callback argument of type %s", t)
		}
		plain = append(plain, ns[0])
		plainV = append(plainV, v)
		plainT = append(plainT, t)
	}
	x.trusted["callbacks: a function value supplied by the caller is a pure function of its arguments (argument-less ones of their call number) and does not touch the library's memory"] = true
	cnt := x.comp(st, "Cb.n", ArrSort("Fn", "Int"))
	n0 := Select(cnt, f)
	if n0.iv == nil {
		if _, ok := ivals[n0]; !ok {
			SetInterval(n0, new(big.Int), two62)
		}
		st.assume(mk("<=", "Bool", IntC(0), n0))
		st.assume(mk("<=", "Bool", n0, IntB(two62)))
	}
	st.heap["Cb.n"] = Store(cnt, f, Add(n0, IntC(1)))
	targs := plain
	if len(plain) == 0 {
		targs = []*Node{n0}
	} else {
		var b *Node
		if plain[0].sort == "Any" {
			b = plain[0]
		} else {
			b = x.box(st, plainT[0], plainV[0])
		}
		lg := x.comp(st, "Cb.log", ArrSort("Fn", "SeqAny"))
		st.heap["Cb.log"] = Store(lg, f, Sbuild(Select(lg, f), b))
		if len(plain) > 1 {
			b := plain[1]
			if b.sort != "Any" {
				b = x.box(st, plainT[1], plainV[1])
			}
			lg := x.comp(st, "Cb.log2", ArrSort("Fn", "SeqAny"))
			st.heap["Cb.log2"] = Store(lg, f, Sbuild(Select(lg, f), b))
		}
	}
	for _, ch := range chans {
		x.sendSeq(st, ch, x.emitTerm(sig, f, targs), pos)
	}
	for _, p := range opts {
		p = x.resolve(st, p)
		cur := x.load(st, p)
		t := p.root
		bx := App("box."+x.boxName(t), "Any", flatten(x.escape(st, cur))...)
		nv := optApp(f, bx)
		st.assume(Eq(App("tag", "Int", nv), x.tagOf(t)))
		x.store(st, p, x.unbox(st, t, nv))
	}
	finish := func(x *Exec, st *State) {
		res := x.resTerm(sig, f, targs)
		for i, r := range res {
			x.typeFacts(st, sig.Results().At(i).Type(), r, true)
		}
		x.callbackPost(st, f, pos)
		k(x, st, res)
	}
	if x.con != nil && x.mayPanicFn(st, f) {
		pv := App("panicval", "Any", f, targs[0])
		if targs[0].sort != "Any" {
			pv = App("panicval"+sanitize(targs[0].sort), "Any", f, targs[0])
		}
		pn := App("panics"+sanitize(targs[0].sort), "Bool", f, targs[0])
		x.branch(st, pn, func(x *Exec, st *State, p bool) {
			if p {
				st.assume(Neq(pv, NilAny))
				x.callbackPost(st, f, pos)
				x.doPanic(st, pv)
				return
			}
			finish(x, st)
		})
		return
	}
	finish(x, st)
}

// mayPanicFn: the contract allows this function value to panic.
func (x *Exec) mayPanicFn(st *State, f *Node) bool {
	for n := range x.con.mayPanic {
		v, ok := x.specVars[n]
		if !ok {
			continue
		}
		if y, ok := v.v.(*Node); ok && y == f {
			return true
		}
	}
	return false
}

// ---- interface methods ----

func (x *Exec) invoke(st *State, iv *invokeV, args []Val, cc *ssa.CallCommon, pos token.Pos, isDefer bool, k func(x *Exec, st *State, res []Val)) {
	r := iv.recv
	if r != NilAny && !strings.HasPrefix(r.op, "f:box.") {
		x.check(st, "nil", Neq(r, NilAny), pos)
	} else if r == NilAny {
		x.check(st, "nil", False, pos)
		return
	}
	// known dynamic type in the repository: call the method
	if strings.HasPrefix(r.op, "f:box.") {
		k0 := r.op[len("f:box."):]
		if t, ok := boxGoType[k0]; ok {
			if m := x.prog.prog.LookupMethod(t, iv.method.Pkg(), iv.method.Name()); m != nil && m.Pkg != nil && x.prog.isRepo(m.Pkg.Pkg.Path()) {
				recv, _ := unflatten(t, r.args)
				x.callVal(st, &ClosV{fn: m}, append([]Val{recv}, args...), cc, pos, isDefer, k)
				return
			}
		}
	}
	sig := iv.method.Type().(*types.Signature)
	in := ""
	if n := typeName(iv.iface); n != "" {
		in = n
	} else {
		in = "iface"
	}
	key := in + "." + iv.method.Name()
	if iv.method.Name() == "Error" && sig.Params().Len() == 0 {
		n := App("msg", "SeqInt", r)
		x.typeFacts(st, types.Typ[types.String], n, true)
		k(x, st, []Val{n})
		return
	}
	if m, ok := ifaceModels[key]; ok {
		x.trusted["interface "+key] = true
		m(&callCtx{x: x, st: st, args: append([]Val{r}, args...), cc: cc, pos: pos, k: k})
		return
	}
	// generic: pure function of receiver and arguments, calls are logged
	ts := []*Node{r}
	for _, a := range args {
		ts = append(ts, asNode(x.escape(st, a)))
	}
	x.trusted["interface methods of caller-supplied values ("+key+") are pure functions of receiver and arguments"] = true
	nm := "Inv.log." + iv.method.Name()
	lg := x.comp(st, nm, ArrSort("Int", "SeqAny"))
	st.heap[nm] = Store(lg, IntC(0), Sbuild(Select(lg, IntC(0)), r))
	if len(args) == 1 {
		nm := "Inv.arg." + iv.method.Name()
		lg := x.comp(st, nm, ArrSort("Int", "SeqAny"))
		st.heap[nm] = Store(lg, IntC(0), Sbuild(Select(lg, IntC(0)), x.box(st, sig.Params().At(0).Type(), x.escape(st, args[0]))))
	}
	res := resultTerms("inv."+sanitize(key), sig.Results(), ts)
	for i, v := range res {
		x.typeFacts(st, sig.Results().At(i).Type(), v, true)
	}
	k(x, st, res)
}

var ifaceModels = map[string]func(c *callCtx){}

// ---- modular calls ----

func (x *Exec) useModular(st *State, con *Contract, fn *ssa.Function) bool {
	if con.inlineOnly {
		return false
	}
	if con.modular {
		return true
	}
	// recursion
	for _, f := range st.frames {
		if f.fn == fn {
			return true
		}
	}
	return false
}

func bindNames(e *Env, names []string, vals []Val, tup *types.Tuple, recv *types.Var) {
	var ts []types.Type
	if recv != nil {
		ts = append(ts, recv.Type())
	}
	for i := 0; i < tup.Len(); i++ {
		ts = append(ts, tup.At(i).Type())
	}
	for i, n := range names {
		if n == "_" || i >= len(vals) {
			continue
		}
		e.vars[n] = SVal{vals[i], ts[i]}
	}
}

func (x *Exec) applyContract(st *State, con *Contract, fn *ssa.Function, args []Val, pos token.Pos, k func(x *Exec, st *State, res []Val)) {
	x.used[con.key] = true
	for i := range args {
		args[i] = x.escapeDeep(st, args[i])
	}
	pre := st.clone()
	e := &Env{x: x, st: pre, pre: pre, vars: map[string]SVal{}}
	bindNames(e, con.params, args, fn.Signature.Params(), fn.Signature.Recv())
	for _, l := range con.lets {
		e.vars[l.name] = e.eval(l.expr)
	}
	for _, r := range con.requires {
		x.oblige(st, "pre."+con.key, e.bool(r.expr), pos, "precondition of "+con.key+": "+r.text)
	}
	if x.con == con && con.decreases != nil {
		m := e.node(con.decreases)
		e0 := x.env(x.init)
		m0 := e0.node(con.decreases)
		x.oblige(st, "terminates", And(Le(IntC(0), m0), Lt(m, m0)), pos, "recursion measure decreases")
	} else if x.con == con {
		x.oblige(st, "terminates", False, pos, "recursive call without a decreasing measure")
	}
	// results
	var res []Val
	rs := fn.Signature.Results()
	for _, m := range con.modifies {
		v := e.eval(parseExpr(m))
		p, ok := v.v.(*PtrV)
		if !ok {
			unsup("modifies %s", m)
		}
		x.store(st, p, x.havocVal(st, "mod", p.root))
	}
	if len(con.modifies) > 0 {
		t := newTop()
		topFloor[t] = st.top
		st.assume(Le(st.top, t))
		st.top = t
	}
	for i := 0; i < rs.Len(); i++ {
		res = append(res, x.havocVal(st, "r."+con.key, rs.At(i).Type()))
	}
	if con.panics != nil {
		c := e.bool(con.panics.expr)
		x.oblige(st, "nopanic.call", Not(c), pos, "call of "+con.key+" panics")
	}
	e2 := &Env{x: x, st: st, pre: pre, vars: map[string]SVal{}}
	for n, v := range e.vars {
		e2.vars[n] = v
	}
	bindNames(e2, con.results, res, rs, nil)
	for _, c := range con.ensures {
		st.assume(e2.bool(c.expr))
	}
	k(x, st, res)
}

func (x *Exec) escapeDeep(st *State, v Val) Val { return v }

// ---- intrinsics ----

func fresh(st *State, x *Exec, hint string, t types.Type) Val { return x.havocVal(st, hint, t) }

// pure registers a library function as an uninterpreted (theory) function.
func pure(fn string, ret string) func(c *callCtx) {
	return func(c *callCtx) {
		var as []*Node
		for i := range c.args {
			as = append(as, asNode(c.args[i]))
		}
		r := App(fn, ret, as...)
		rs := c.fn.Signature.Results()
		c.x.typeFacts(c.st, rs.At(0).Type(), r, true)
		c.ret(r)
	}
}

// fminmax is math.Max / math.Min (as documented) at the arguments' format.
func fminmax(max bool, a, b *Node) *Node {
	suf := strings.TrimSuffix(strings.TrimPrefix(a.sort, "(_ FloatingPoint "), ")")
	oo, z, x := "(_ +oo "+suf+")", And(mk("fp.isNegative", "Bool", a)), mk("fp.lt", "Bool", a, b)
	if !max {
		oo, z, x = "(_ -oo "+suf+")", Not(mk("fp.isNegative", "Bool", a)), mk("fp.lt", "Bool", b, a)
	}
	inf := mk(oo, a.sort)
	return Ite(Or(Eq(a, inf), Eq(b, inf)), inf,
		Ite(Or(mk("fp.isNaN", "Bool", a), mk("fp.isNaN", "Bool", b)), mk("(_ NaN "+suf+")", a.sort),
			Ite(And(mk("fp.isZero", "Bool", a), mk("fp.isZero", "Bool", b)), Ite(z, b, a), Ite(x, b, a))))
}

func (x *Exec) newError(st *State, msg *Node, hint string) *Node {
	r := st.alloc()
	n := App("box."+regBox("error:"+hint, []string{"Int"}), "Any", r)
	st.assume(Eq(App("msg", "SeqInt", n), msg))
	return n
}

func builderOf(c *callCtx, i int) (*PtrV, *StructV) {
	p, ok := c.args[i].(*PtrV)
	if !ok {
		unsup("builder receiver")
	}
	c.x.nonNil(c.st, p, c.pos)
	return p, c.x.load(c.st, p).(*StructV)
}

// bwrite appends s to the builder with the growth rule cap >= len.
func bwrite(c *callCtx, s *Node) {
	x, st := c.x, c.st
	p, b := builderOf(c, 0)
	n := Scat(b.f[0].(*Node), s)
	cp := Fresh("bcap", "Int")
	SetInterval(cp, new(big.Int), maxLen)
	old := b.f[1].(*Node)
	st.assume(mk("<=", "Bool", cp, IntB(maxLen)))
	st.assume(Le(Blen(n), cp))
	st.assume(Le(old, cp))
	st.assume(Imp(Le(Blen(n), old), Eq(cp, old)))
	x.store(st, p, &StructV{t: b.t, f: []Val{n, cp}})
}

var intrinsics map[string]func(c *callCtx)

func init() {
	I := map[string]func(c *callCtx){}
	intrinsics = I
	I["strings.(*Builder).WriteString"] = func(c *callCtx) {
		s := c.node(1)
		bwrite(c, s)
		c.ret(Blen(s), NilAny)
	}
	I["strings.(*Builder).WriteRune"] = func(c *callCtx) {
		r := c.x.normRune(c.st, c.node(1))
		bwrite(c, Sbuild(EmptySeq("SeqInt"), r))
		n := App("runelen", "Int", r)
		SetInterval(n, big.NewInt(1), big.NewInt(4))
		c.ret(n, NilAny)
	}
	I["strings.(*Builder).WriteByte"] = func(c *callCtx) {
		b := c.node(1)
		// one raw byte; for ASCII it is that character
		bwrite(c, App("bytestr", "SeqInt", b))
		c.st.assume(Eq(Blen(App("bytestr", "SeqInt", b)), IntC(1)))
		c.ret(NilAny)
	}
	I["strings.(*Builder).Write"] = func(c *callCtx) {
		s := c.slice(1)
		bwrite(c, Dec(c.x.view(c.st, s)))
		c.st.assume(Eq(Blen(Dec(c.x.view(c.st, s))), s.len))
		c.ret(s.len, NilAny)
	}
	I["strings.(*Builder).Grow"] = func(c *callCtx) {
		x, st := c.x, c.st
		n := c.node(1)
		x.check(st, "negative-grow", Le(IntC(0), n), c.pos)
		st.assume(Le(n, IntB(maxLen)))
		p, b := builderOf(c, 0)
		cp := Fresh("bcap", "Int")
		SetInterval(cp, new(big.Int), maxLen)
		old := b.f[1].(*Node)
		bl := Blen(b.f[0].(*Node))
		st.assume(mk("<=", "Bool", cp, IntB(maxLen)))
		st.assume(Le(Add(bl, n), cp))
		st.assume(Le(old, cp))
		st.assume(Imp(Le(n, Sub(old, bl)), Eq(cp, old)))
		x.store(st, p, &StructV{t: b.t, f: []Val{b.f[0], cp}})
		c.ret()
	}
	I["strings.(*Builder).Len"] = func(c *callCtx) {
		_, b := builderOf(c, 0)
		c.ret(Blen(b.f[0].(*Node)))
	}
	I["strings.(*Builder).Cap"] = func(c *callCtx) {
		_, b := builderOf(c, 0)
		c.ret(b.f[1])
	}
	I["strings.(*Builder).String"] = func(c *callCtx) {
		_, b := builderOf(c, 0)
		c.ret(b.f[0])
	}
	I["strings.(*Builder).Reset"] = func(c *callCtx) {
		p, b := builderOf(c, 0)
		c.x.store(c.st, p, &StructV{t: b.t, f: []Val{EmptySeq("SeqInt"), IntC(0)}})
		c.ret()
	}
	I["unicode/utf8.RuneCountInString"] = func(c *callCtx) { c.ret(Slen(c.node(0))) }
	I["unicode/utf8.RuneLen"] = func(c *callCtx) {
		r := c.node(0)
		c.ret(Ite(App("validrune", "Bool", r), App("runelen", "Int", r), IntC(-1)))
	}
	I["unicode/utf8.ValidString"] = func(c *callCtx) { c.ret(App("isstr", "Bool", c.node(0))) }
	for _, f := range []string{"IsLetter", "IsDigit", "IsSpace", "IsUpper", "IsLower", "IsNumber", "IsControl", "IsPunct", "IsPrint"} {
		I["unicode."+f] = pure("u."+f, "Bool")
	}
	for _, f := range []string{"ToLower", "ToUpper", "ToTitle", "SimpleFold"} {
		I["unicode."+f] = pure("u."+f, "Int")
	}
	containsF := func(c *callCtx) *Node {
		s, t := c.node(0), c.node(1)
		r := App("contains", "Bool", s, t)
		c.st.assume(Imp(r, Le(Slen(t), Slen(s))))
		c.st.assume(Imp(Eq(Slen(t), IntC(0)), r))
		return r
	}
	I["strings.Contains"] = func(c *callCtx) { c.ret(containsF(c)) }
	for _, f := range []string{"ToLower", "ToUpper", "TrimSpace"} {
		I["strings."+f] = pure("s."+f, "SeqInt")
	}
	for _, f := range []string{"Trim", "TrimLeft", "TrimRight", "TrimPrefix", "TrimSuffix"} {
		I["strings."+f] = pure("s."+f, "SeqInt")
	}
	for _, f := range []string{"Index", "IndexAny", "LastIndex", "Count", "Compare"} {
		f := f
		I["strings."+f] = func(c *callCtx) {
			r := App("s."+f, "Int", c.node(0), c.node(1))
			SetInterval(r, big.NewInt(-1), maxLen)
			c.st.assume(mk("<=", "Bool", IntC(-1), r))
			c.st.assume(mk("<=", "Bool", r, IntB(maxLen)))
			switch f {
			case "Index", "LastIndex":
				c.st.assume(Eq(Le(IntC(0), r), containsF(c)))
			case "Count":
				c.st.assume(Le(IntC(0), r))
				c.st.assume(Eq(Lt(IntC(0), r), containsF(c)))
			}
			c.ret(r)
		}
	}
	I["strings.HasPrefix"] = func(c *callCtx) {
		s, t := c.node(0), c.node(1)
		r := App("s.HasPrefix", "Bool", s, t)
		c.st.assume(Eq(r, And(Le(Slen(t), Slen(s)), Eq(Stake(s, Slen(t)), t))))
		c.ret(r)
	}
	I["strings.HasSuffix"] = func(c *callCtx) {
		s, t := c.node(0), c.node(1)
		r := App("s.HasSuffix", "Bool", s, t)
		c.st.assume(Eq(r, And(Le(Slen(t), Slen(s)), Eq(Sdrop(s, Sub(Slen(s), Slen(t))), t))))
		c.ret(r)
	}
	I["strings.EqualFold"] = pure("s.EqualFold", "Bool")
	I["strings.Repeat"] = func(c *callCtx) {
		c.x.check(c.st, "panic", Le(IntC(0), c.node(1)), c.pos)
		one := Eq(Slen(c.node(0)), IntC(1))
		rep := App("rep", "SeqInt", Sidx(c.node(0), IntC(0)), c.node(1))
		if c.x.isTrue(c.st, one) {
			c.x.typeFacts(c.st, types.Typ[types.String], rep, true)
			c.ret(rep)
			return
		}
		r := App("s.Repeat", "SeqInt", c.node(0), c.node(1))
		c.st.assume(Imp(one, Eq(r, rep)))
		c.x.typeFacts(c.st, types.Typ[types.String], r, true)
		c.ret(r)
	}
	I["strings.ReplaceAll"] = func(c *callCtx) {
		r := App("s.ReplaceAll", "SeqInt", c.node(0), c.node(1), c.node(2))
		c.st.assume(Imp(Not(containsF(c)), Eq(r, c.node(0))))
		c.x.typeFacts(c.st, types.Typ[types.String], r, true)
		c.ret(r)
	}
	I["strings.Replace"] = func(c *callCtx) {
		n := c.node(3)
		if v, ok := c.st.known(Lt(n, IntC(0))); !ok || !v {
			unsup("strings.Replace with a count")
		}
		r := App("s.ReplaceAll", "SeqInt", c.node(0), c.node(1), c.node(2))
		c.st.assume(Imp(Not(containsF(c)), Eq(r, c.node(0))))
		c.x.typeFacts(c.st, types.Typ[types.String], r, true)
		c.ret(r)
	}
	I["strings.Join"] = func(c *callCtx) {
		c.ret(App("s.Join", "SeqInt", c.x.view(c.st, c.slice(0)), c.node(1)))
	}
	I["unicode/utf8.DecodeLastRune"] = func(c *callCtx) {
		s := c.x.view(c.st, c.slice(0))
		r, n := App("lastrune", "Int", s), App("lastsize", "Int", s)
		SetInterval(r, big.NewInt(0), big.NewInt(0x10FFFF))
		SetInterval(n, big.NewInt(0), big.NewInt(4))
		c.ret(r, n)
	}
	I["unicode/utf8.EncodeRune"] = func(c *callCtx) {
		x, st := c.x, c.st
		p := c.slice(0)
		r := x.normRune(st, c.node(1))
		n := App("runelen", "Int", r)
		SetInterval(n, big.NewInt(1), big.NewInt(4))
		x.check(st, "index", Le(n, p.len), c.pos)
		nm := "E.uint8."
		cc := x.comp(st, nm, ArrSort("Int", ArrSort("Int", bvSort(8))))
		a := Select(cc, p.ref)
		src := seqArray("enc", Enc(Sbuild(EmptySeq("SeqInt"), r)))
		st.assume(Eq(Slen(Enc(Sbuild(EmptySeq("SeqInt"), r))), n))
		na := x.writeRange(st, a, p.off, src, IntC(0), n, bvSort(8), nil, nil)
		st.assume(Eq(rawView(na, p.off, p.len), Scat(Enc(Sbuild(EmptySeq("SeqInt"), r)), Sdrop(View(a, p.off, p.len), n))))
		st.heap[nm] = Store(cc, p.ref, na)
		c.ret(n)
	}
	I["errors.New"] = func(c *callCtx) { c.ret(c.x.newError(c.st, c.node(0), "errors.New")) }
	I["fmt.Errorf"] = func(c *callCtx) {
		c.ret(c.x.newError(c.st, Fresh("errmsg", "SeqInt"), "fmt.Errorf"))
	}
	I["fmt.Sprintf"] = func(c *callCtx) {
		n := Fresh("sprintf", "SeqInt")
		c.x.typeFacts(c.st, types.Typ[types.String], n, true)
		c.ret(n)
	}
	I["fmt.Sprint"] = I["fmt.Sprintf"]
	for _, f := range []string{"Max", "Min"} {
		f := f
		I["math."+f] = func(c *callCtx) { c.ret(fminmax(f == "Max", c.node(0), c.node(1))) }
	}
	I["math.IsNaN"] = func(c *callCtx) { c.ret(mk("fp.isNaN", "Bool", c.node(0))) }
	I["math.IsInf"] = func(c *callCtx) {
		a, s := c.node(0), c.node(1)
		inf := mk("fp.isInfinite", "Bool", a)
		c.ret(And(inf, Or(And(Le(IntC(0), s), mk("fp.isPositive", "Bool", a)), And(Le(s, IntC(0)), mk("fp.isNegative", "Bool", a)))))
	}
	I["math.Signbit"] = func(c *callCtx) {
		r := Fresh("signbit", "Bool")
		a := c.node(0)
		c.st.assume(Imp(Not(mk("fp.isNaN", "Bool", a)), Eq(r, mk("fp.isNegative", "Bool", a))))
		c.ret(r)
	}
	I["math.Abs"] = func(c *callCtx) { c.ret(mk("fp.abs", sortF64, c.node(0))) }
	I["math.NaN"] = func(c *callCtx) { c.ret(mk("(_ NaN 11 53)", sortF64)) }
	I["math.Inf"] = func(c *callCtx) {
		c.ret(Ite(Le(IntC(0), c.node(0)), mk("(_ +oo 11 53)", sortF64), mk("(_ -oo 11 53)", sortF64)))
	}
	rnd := func(c *callCtx) {
		n := c.node(0)
		c.x.check(c.st, "intn", Lt(IntC(0), n), c.pos)
		r := Fresh("rnd", "Int")
		SetInterval(r, new(big.Int), maxI64)
		c.st.assume(Le(IntC(0), r))
		c.st.assume(Lt(r, n))
		c.ret(r)
	}
	I["math/rand.Intn"] = rnd
	I["math/rand.Int63n"] = rnd
	I["math/rand.Int31n"] = rnd
	I["math/rand.Shuffle"] = nil
	delete(I, "math/rand.Shuffle")
	I["sort.Slice"] = sortSlice
	I["sort.SliceStable"] = sortSlice
	I["runtime/debug.Stack"] = func(c *callCtx) { c.ret(c.x.havocVal(c.st, "stack", types.NewSlice(types.Typ[types.Uint8]))) }
	I["runtime.Gosched"] = func(c *callCtx) { c.ret() }
	I["runtime.KeepAlive"] = func(c *callCtx) { c.ret() }
	initConcIntrinsics(I)
	initIOIntrinsics(I)
}

// sort.Slice(x, less): the elements are permuted so that no element is less than its predecessor.
func sortSlice(c *callCtx) {
	x, st := c.x, c.st
	a := c.node(0)
	if !strings.HasPrefix(a.op, "f:box.") {
		unsup("sort.Slice of an unknown value")
	}
	t, ok := boxGoType[a.op[len("f:box."):]]
	if !ok {
		unsup("sort.Slice of an unknown value")
	}
	v, _ := unflatten(t, a.args)
	s := v.(*SliceV)
	lessC, ok := c.args[1].(*ClosV)
	if !ok {
		unsup("sort.Slice comparison")
	}
	// the comparison function is executed symbolically once, on positions i, j of the sorted result
	ls := leaves(s.elem)
	if len(ls) != 1 {
		unsup("sort.Slice elements")
	}
	nm := "E." + elemKey(s.elem) + "." + ls[0].path
	cc := x.comp(st, nm, ArrSort("Int", ArrSort("Int", ls[0].sort)))
	old := x.view(st, s)
	fn, op, desc := lessKey(x, st, lessC, s)
	na := Fresh("sorted", ArrSort("Int", ls[0].sort))
	res := View(na, s.off, s.len)
	// the result rearranges the elements: positions correspond one to one
	{
		p := strings.TrimPrefix(Fresh("perm", "Int").op, "c:") + "f"
		q := strings.TrimPrefix(Fresh("perm", "Int").op, "c:") + "f"
		i := BoundVar("i", "Int")
		in := func(n *Node) *Node { return And(Le(IntC(0), n), Lt(n, Slen(old))) }
		pi, qi := App(p, "Int", i), App(q, "Int", i)
		st.assume(Forall([]*Node{i}, Imp(in(i), And(in(pi), Eq(Sidx(res, i), Sidx(old, pi)), Eq(App(q, "Int", pi), i))), []*Node{Sidx(res, i)}))
		st.assume(Forall([]*Node{i}, Imp(in(i), And(in(qi), Eq(Sidx(res, qi), Sidx(old, i)), Eq(App(p, "Int", qi), i))), []*Node{Sidx(old, i)}))
	}
	if old.sort == "SeqAny" {
		v := BoundVar("v", "Any")
		a := App("cntA", "Int", res, v)
		st.assume(Forall([]*Node{v}, Eq(a, App("cntA", "Int", old, v)), []*Node{a}))
	}
	if fn != nil {
		// the documented guarantee of the sort package, for a strict weak order only
		i := BoundVar("i", "Int")
		hi, lo := Sidx(res, i), Sidx(res, Sub(i, IntC(1)))
		if desc {
			hi, lo = lo, hi
		}
		st.assume(Imp(App("swo", "Bool", fn), Forall([]*Node{i}, Imp(And(Le(IntC(1), i), Lt(i, Slen(res))), Not(App(op, "Bool", fn, hi, lo))), []*Node{Sidx(res, i)})))
	}
	i := BoundVar("i", "Int")
	st.assume(Forall([]*Node{i}, Imp(Or(Lt(i, s.off), Le(Add(s.off, s.len), i)), Eq(mk("select", ls[0].sort, na, i), Select(Select(cc, s.ref), i))), []*Node{mk("select", ls[0].sort, na, i)}))
	st.heap[nm] = Store(cc, s.ref, na)
	x.heapAccess(st, &PtrV{ref: s.ref, idx: IntC(0), root: s.elem}, []string{nm}, true)
	c.ret()
}

// lessKey names the ordering that a comparison closure func(i, j int) bool implements on the elements of s:
// it is executed on two symbolic positions and must be f(elem i, elem j), or the reverse, of a function value f.
func lessKey(x *Exec, st *State, less *ClosV, s *SliceV) (fn *Node, op string, desc bool) {
	sub := st.clone()
	i, j := Fresh("si", "Int"), Fresh("sj", "Int")
	SetInterval(i, new(big.Int), maxLen)
	SetInterval(j, new(big.Int), maxLen)
	for _, n := range []*Node{i, j} {
		sub.assume(mk("<=", "Bool", IntC(0), n))
		sub.assume(Lt(n, s.len))
	}
	var out *Node
	var calls *State
	base := len(sub.frames)
	saved := x.work
	x.work = nil
	x.collect++
	x.pushCall(sub, less.fn, []Val{i, j}, less.binds, func(x *Exec, s2 *State, res []Val) {
		out = asNode(res[0])
		calls = s2
		s2.dead = true
	})
	for !sub.dead && len(sub.frames) > base {
		x.step(sub)
	}
	x.collect--
	if len(x.work) > 0 || out == nil {
		x.work = saved
		unsup("sort comparison with several paths")
	}
	x.work = saved
	_ = calls
	ea := x.loadQuiet(st, &PtrV{ref: s.ref, idx: Add(s.off, i), root: s.elem})
	eb := x.loadQuiet(st, &PtrV{ref: s.ref, idx: Add(s.off, j), root: s.elem})
	na, nb := asNode(ea), asNode(eb)
	if strings.HasPrefix(out.op, "f:res") && len(out.args) == 3 {
		if out.args[1] == na && out.args[2] == nb {
			return out.args[0], out.op[2:], false
		}
		if out.args[1] == nb && out.args[2] == na {
			return out.args[0], out.op[2:], true
		}
	}
	return nil, "", false // any other comparison is an unrelated ordering
}
