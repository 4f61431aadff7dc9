package main

// Trusted models of io, encoding/binary, bufio, sync.Pool, singleflight and strconv.

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// models that replace functions of another package of the repository (used only outside that package)
var externModels = map[string]func(c *callCtx){}

// ghost components readable from contracts: name -> (index sort, value sort)
var ghostComps = map[string][2]string{
	"wdata": {"Any", "SeqB8"}, // bytes accepted by a writer
	"wfail": {"Any", "Bool"},  // some Write on it returned an error
	"wn":    {"Any", "Int"},   // number of Write calls
	"rpos":  {"Any", "Int"},   // bytes delivered by a reader
}

func (x *Exec) ghost(st *State, name string) *Node {
	s := ghostComps[name]
	return x.comp(st, "Gh."+name, ArrSort(s[0], s[1]))
}
func (x *Exec) ghostGet(st *State, name string, i *Node) *Node {
	return Select(x.ghost(st, name), i)
}
func (x *Exec) ghostSet(st *State, name string, i, v *Node) {
	st.heap["Gh."+name] = Store(x.ghost(st, name), i, v)
}

// readerRead models filling p from reader r; full: read until p is full or the reader fails.
func readerRead(c *callCtx, r *Node, p *SliceV, full bool) {
	x, st := c.x, c.st
	in := App("rin", "SeqB8", r)
	pos := x.ghostGet(st, "rpos", r)
	if _, ok := ivals[pos]; !ok && pos.iv == nil {
		SetInterval(pos, new(big.Int), two62)
	}
	st.assume(mk("<=", "Bool", IntC(0), pos))
	st.assume(Le(pos, Slen(in)))
	st.assume(Le(Slen(in), IntB(two62)))
	n := Fresh("nread", "Int")
	SetInterval(n, new(big.Int), maxLen)
	st.assume(mk("<=", "Bool", IntC(0), n))
	st.assume(Le(n, p.len))
	st.assume(Le(Add(pos, n), Slen(in)))
	err := Fresh("rerr", "Any")
	ok := App("okreader", "Bool", r)
	if full {
		st.assume(Eq(Eq(err, NilAny), Eq(n, p.len)))
		st.assume(Imp(And(ok, Le(Add(pos, p.len), Slen(in))), Eq(n, p.len)))
	} else {
		st.assume(Imp(ok, Imp(Neq(err, NilAny), Eq(Add(pos, n), Slen(in)))))
	}
	data := Stake(Sdrop(in, pos), n)
	nm := "E.uint8."
	x.heapAccess(st, &PtrV{ref: p.ref, idx: IntC(0), root: p.elem}, []string{nm}, true)
	cc := x.comp(st, nm, ArrSort("Int", ArrSort("Int", bvSort(8))))
	a := Select(cc, p.ref)
	na := Fresh("rbuf", a.sort)
	// bytes beyond n may be used as scratch space by the reader
	st.assume(Eq(rawView(na, p.off, n), data))
	i := BoundVar("i", "Int")
	st.assume(Forall([]*Node{i}, Imp(And(Le(IntC(0), i), Lt(i, n)), Eq(mk("select", bvSort(8), na, Add(p.off, i)), Sidx(in, Add(pos, i)))), []*Node{mk("select", bvSort(8), na, Add(p.off, i))}))
	i2 := BoundVar("i", "Int")
	st.assume(Forall([]*Node{i2}, Imp(Or(Lt(i2, p.off), Le(Add(p.off, p.len), i2)), Eq(mk("select", bvSort(8), na, i2), Select(a, i2))), []*Node{mk("select", bvSort(8), na, i2)}))
	if p.len.iv != nil && p.len.iv.IsInt64() && p.len.iv.Int64() <= 8 {
		for k := int64(0); k < p.len.iv.Int64(); k++ {
			st.assume(Imp(Lt(IntC(k), n), Eq(mk("select", bvSort(8), na, Add(p.off, IntC(k))), Sidx(in, Add(pos, IntC(k))))))
		}
	}
	st.heap[nm] = Store(cc, p.ref, na)
	x.ghostSet(st, "rpos", r, Add(pos, n))
	c.ret(n, err)
}

func writerWrite(c *callCtx, w *Node, data *Node, n0 *Node) {
	x, st := c.x, c.st
	n := Fresh("nwritten", "Int")
	SetInterval(n, new(big.Int), maxLen)
	st.assume(mk("<=", "Bool", IntC(0), n))
	st.assume(Le(n, n0))
	err := Fresh("werr", "Any")
	st.assume(Imp(Eq(err, NilAny), Eq(n, n0)))
	st.assume(Imp(App("okwriter", "Bool", w), Eq(err, NilAny)))
	x.branch(st, Eq(err, NilAny), func(x *Exec, st *State, good bool) {
		cur := x.ghostGet(st, "wdata", w)
		if good {
			x.ghostSet(st, "wdata", w, Scat(cur, data))
			c2 := *c
			c2.st = st
			x.ghostSet(st, "wn", w, Add(x.ghostGet(st, "wn", w), IntC(1)))
			c2.ret(n0, NilAny)
			return
		}
		x.ghostSet(st, "wdata", w, Scat(cur, Stake(data, n)))
		x.ghostSet(st, "wn", w, Add(x.ghostGet(st, "wn", w), IntC(1)))
		x.ghostSet(st, "wfail", w, True)
		c2 := *c
		c2.st = st
		c2.ret(n, err)
	})
}

type poolInv struct {
	pool string // global variable (pkg.name) or package name for pools reached otherwise
	c    *Clause
}

// curPkg: the package of the function being executed.
func (x *Exec) curPkg(st *State) *ssa.Package {
	for i := len(st.frames) - 1; i >= 0; i-- {
		if p := st.frames[i].fn.Pkg; p != nil {
			return p
		}
		if q := st.frames[i].fn.Parent(); q != nil && q.Pkg != nil {
			return q.Pkg
		}
	}
	return x.fn.Pkg
}

func (x *Exec) poolInvFor(st *State, p *Node) *Clause {
	if strings.HasPrefix(p.op, "c:G.") {
		if c, ok := x.prog.poolInvs[p.op[len("c:G."):]]; ok {
			return c
		}
	}
	pk := x.curPkg(st).Pkg.Name()
	if c, ok := x.prog.poolInvs[pk]; ok {
		return c
	}
	return x.prog.poolInvs["*"]
}

func (x *Exec) poolClause(st *State, cl *Clause, pool, item *Node) *Node {
	e := &Env{x: x, st: st, pre: x.init, vars: map[string]SVal{"pool": {pool, nil}, "item": {item, types.NewInterfaceType(nil, nil)}}}
	return e.bool(cl.expr)
}

// backing memory of a pooled item: the references that change hands
func (x *Exec) itemRefs(st *State, item *Node) []*Node {
	if !strings.HasPrefix(item.op, "f:box.") {
		unsup("pooled value of unknown type")
	}
	t := boxGoType[item.op[len("f:box."):]]
	v, _ := unflatten(t, item.args)
	var refs []*Node
	if p, ok := v.(*PtrV); ok {
		refs = append(refs, p.ref)
		if s, ok := x.loadQuiet(st, p).(*SliceV); ok {
			refs = append(refs, s.ref)
		}
	}
	if s, ok := v.(*SliceV); ok {
		refs = append(refs, s.ref)
	}
	return refs
}

func poolGet(c *callCtx) {
	x, st := c.x, c.st
	p := asNode(c.args[0])
	cl := x.poolInvFor(st, p)
	if cl == nil {
		unsup("sync.Pool without a pool invariant")
	}
	// the type of pooled items is given by the invariant: isa(item, "T")
	tn := poolItemType(cl)
	t := x.prog.parseType(tn)
	pt, ok := t.(*types.Pointer)
	if !ok {
		unsup("pool of %s", tn)
	}
	if fn := x.prog.poolNew(p); fn != nil {
		x.branch(st, Fresh("poolnew", "Bool"), func(x *Exec, st *State, made bool) {
			if !made {
				poolGot(c, st, cl, p, t, pt, True)
				return
			}
			x.callVal(st, &ClosV{fn: fn}, nil, nil, c.pos, false, func(x *Exec, st *State, res []Val) {
				x.oblige(st, "poolinv", x.poolClause(st, cl, p, asNode(res[0])), c.pos, "value made by New satisfies the pool invariant: "+cl.text)
				c2 := *c
				c2.st = st
				c2.ret(res[0])
			})
		})
		return
	}
	// New == nil: the pool may be empty
	nw := Select(x.comp(st, "F.sync.Pool.New", ArrSort("Int", "Fn")), p)
	hasNew := App("poolhasnew", "Bool", p)
	if v, ok := st.known(Neq(nw, NilFn())); ok && v {
		hasNew = True
	}
	poolGot(c, st, cl, p, t, pt, hasNew)
}

// poolNew: the New function given to a package-level pool by its initialiser.
func (p *Prog) poolNew(n *Node) *ssa.Function {
	if !strings.HasPrefix(n.op, "c:G.") {
		return nil
	}
	nm := n.op[len("c:G."):]
	for _, pp := range p.pkgs {
		pk := p.prog.Package(pp.Types)
		if pk == nil {
			continue
		}
		for _, m := range pk.Members {
			g, ok := m.(*ssa.Global)
			if !ok || globName(g) != nm {
				continue
			}
			// find: t = new Pool; &t.New <- fn; *g <- t
			init := pk.Func("init")
			var al ssa.Value
			for _, b := range init.Blocks {
				for _, i := range b.Instrs {
					if s, ok := i.(*ssa.Store); ok && s.Addr == g {
						al = s.Val
					}
				}
			}
			for _, b := range init.Blocks {
				for _, i := range b.Instrs {
					s, ok := i.(*ssa.Store)
					if !ok {
						continue
					}
					fa, ok := s.Addr.(*ssa.FieldAddr)
					if !ok || typeName(fa.X.Type().Underlying().(*types.Pointer).Elem()) != "sync.Pool" {
						continue
					}
					if fa.X != al && fa.X != ssa.Value(g) {
						continue
					}
					v := s.Val
					if ct, ok := v.(*ssa.ChangeType); ok {
						v = ct.X
					}
					if f, ok := v.(*ssa.Function); ok {
						return f
					}
					unsup("pool with an unusual New")
				}
			}
		}
	}
	return nil
}

func poolGot(c *callCtx, st *State, cl *Clause, p *Node, t types.Type, pt *types.Pointer, hasNew *Node) {
	x := c.x
	get := func(st *State) {
		// a recycled or new object that nobody else owns
		r := st.alloc()
		q := &PtrV{ref: r, root: pt.Elem()}
		v := x.havocVal(st, "pooled", pt.Elem())
		if sv, ok := v.(*SliceV); ok {
			sv.ref = st.alloc()
			for _, l := range leaves(sv.elem) {
				nm := "E." + elemKey(sv.elem) + "." + l.path
				cc := x.comp(st, nm, ArrSort("Int", ArrSort("Int", l.sort)))
				st.heap[nm] = Store(cc, sv.ref, Fresh("old", ArrSort("Int", l.sort)))
			}
		}
		x.store(st, q, v)
		item := x.box(st, t, q)
		st.assume(x.poolClause(st, cl, p, item))
		c2 := *c
		c2.st = st
		c2.ret(item)
	}
	o := Fresh("poolempty", "Bool")
	x.branch(st, And(o, Not(hasNew)), func(x *Exec, st *State, empty bool) {
		if empty {
			c2 := *c
			c2.st = st
			c2.ret(NilAny)
			return
		}
		get(st)
	})
}

func poolItemType(cl *Clause) string {
	i := strings.Index(cl.text, `isa(item, "`)
	if i < 0 {
		unsup("pool invariant without isa(item, ...)")
	}
	s := cl.text[i+len(`isa(item, "`):]
	return s[:strings.Index(s, `"`)]
}

func poolPut(c *callCtx) {
	x, st := c.x, c.st
	p := asNode(c.args[0])
	item := c.node(1)
	cl := x.poolInvFor(st, p)
	if cl == nil {
		unsup("sync.Pool without a pool invariant")
	}
	x.oblige(st, "poolinv", x.poolClause(st, cl, p, item), c.pos, "value put into the pool satisfies the pool invariant: "+cl.text)
	for _, r := range x.itemRefs(st, item) {
		if st.conc.given[r] {
			x.oblige(st, "ownership", False, c.pos, "memory is put into a pool twice")
		}
		st.conc.given[r] = true
	}
	c.ret()
}

func be(n int, put bool) func(c *callCtx) {
	return func(c *callCtx) {
		x, st := c.x, c.st
		s := c.slice(1)
		x.check(st, "index", Le(IntC(int64(n)), s.len), c.pos)
		nm := "E.uint8."
		cc := x.comp(st, nm, ArrSort("Int", ArrSort("Int", bvSort(8))))
		a := Select(cc, s.ref)
		x.heapAccess(st, &PtrV{ref: s.ref, idx: IntC(0), root: s.elem}, []string{nm}, put)
		if !put {
			v := Select(a, s.off)
			for i := 1; i < n; i++ {
				v = mk("concat", bvSort(8*(i+1)), v, Select(a, Add(s.off, IntC(int64(i)))))
			}
			c.ret(v)
			return
		}
		v := c.node(2)
		for i := 0; i < n; i++ {
			hi := 8*(n-i) - 1
			a = Store(a, Add(s.off, IntC(int64(i))), mk(fmt.Sprintf("(_ extract %d %d)", hi, hi-7), bvSort(8), v))
		}
		st.heap[nm] = Store(cc, s.ref, a)
		c.ret()
	}
}

func (x *Exec) newBuf(st *State, t types.Type, dst, size *Node) Val {
	r := st.alloc()
	p := &PtrV{ref: r, root: t}
	x.store(st, p, &StructV{t: t, f: []Val{dst, size, True}})
	return p
}

func initIOIntrinsics(I map[string]func(c *callCtx)) {
	I["io.ReadFull"] = func(c *callCtx) {
		r := c.node(0)
		c.x.check(c.st, "nil", Neq(r, NilAny), c.pos)
		readerRead(c, r, c.slice(1), true)
	}
	I["io.ReadAtLeast"] = nil
	delete(I, "io.ReadAtLeast")
	ifaceModels["io.Reader.Read"] = func(c *callCtx) { readerRead(c, c.node(0), c.slice(1), false) }
	ifaceModels["io.Writer.Write"] = func(c *callCtx) {
		s := c.slice(1)
		c.x.heapAccess(c.st, &PtrV{ref: s.ref, idx: IntC(0), root: s.elem}, []string{"E.uint8."}, false)
		writerWrite(c, c.node(0), smallView2(c.x, c.st, s), s.len)
	}
	I["encoding/binary.(bigEndian).Uint16"] = be(2, false)
	I["encoding/binary.(bigEndian).Uint32"] = be(4, false)
	I["encoding/binary.(bigEndian).PutUint16"] = be(2, true)
	I["encoding/binary.(bigEndian).PutUint32"] = be(4, true)
	I["sync.(*Pool).Get"] = poolGet
	I["sync.(*Pool).Put"] = poolPut
	I["strconv.Itoa"] = func(c *callCtx) {
		r := App("itoa", "SeqInt", c.node(0))
		c.x.typeFacts(c.st, types.Typ[types.String], r, true)
		c.ret(r)
	}
	const defaultBuf = 4096
	for _, k := range []string{"Reader", "Writer"} {
		k := k
		// bufio.New*(r, size) returns r itself when it is a buffered reader/writer that is large enough
		mkb := func(c *callCtx, size *Node, min int64) {
			t := c.fn.Signature.Results().At(0).Type().(*types.Pointer)
			src := c.node(0)
			n := Fresh("bufsize", "Int")
			SetInterval(n, big.NewInt(1), maxLen)
			same := And(Eq(tagNode(src), c.x.tagOf(t)), Fresh("bigenough", "Bool"))
			c.x.branch(c.st, same, func(x *Exec, st *State, same bool) {
				c2 := *c
				c2.st = st
				if same {
					q := x.unbox(st, t, src).(*PtrV)
					x.nonNil(st, q, c.pos)
					st.assume(Le(size, x.load(st, q).(*StructV).f[1].(*Node)))
					c2.ret(q)
					return
				}
				st.assume(Le(size, n))
				st.assume(mk("<=", "Bool", IntC(min), n))
				c2.ret(x.newBuf(st, t.Elem(), src, n))
			})
		}
		min := int64(1)
		if k == "Reader" {
			min = 16
		}
		I["bufio.New"+k] = func(c *callCtx) { mkb(c, IntC(defaultBuf), defaultBuf) }
		I["bufio.New"+k+"Size"] = func(c *callCtx) { mkb(c, c.node(1), min) }
		I["bufio.(*"+k+").Reset"] = func(c *callCtx) {
			p := c.args[0].(*PtrV)
			c.x.nonNil(c.st, p, c.pos)
			b := c.x.load(c.st, p).(*StructV)
			if src := c.node(1); src.op != "c:nilAny" && p.ref != nil {
				// Reset(itself) does nothing
				if v, ok := c.st.known(Neq(src, c.x.box(c.st, types.NewPointer(b.t), p))); !(ok && v) {
					c.st.assume(Neq(src, c.x.box(c.st, types.NewPointer(b.t), p)))
					c.x.trusted["bufio Reset is not called with the buffer itself as source or destination"] = true
				}
			}
			c.x.store(c.st, p, &StructV{t: b.t, f: []Val{c.node(1), b.f[1], True}})
			c.ret()
		}
		I["bufio.(*"+k+").Size"] = func(c *callCtx) {
			p := c.args[0].(*PtrV)
			c.x.nonNil(c.st, p, c.pos)
			c.ret(c.x.load(c.st, p).(*StructV).f[1])
		}
	}
	for _, k := range []string{"Load", "LoadAndDelete", "Delete", "Store", "LoadOrStore", "ComputeIfAbsent"} {
		externModels["xsync.(*Map)."+k] = extMap(k)
	}
	I["golang.org/x/sync/singleflight.(*Group).Do"] = flightDo
}

func smallView2(x *Exec, st *State, s *SliceV) *Node {
	if s.len.iv != nil && s.len.iv.IsInt64() && s.len.iv.Int64() <= 8 {
		return smallView(x.elemArr(st, s), s.off, s.len)
	}
	return x.view(st, s)
}

// singleflight.Do: the function runs here, or the call receives the result of a concurrent call with the same key.
func flightDo(c *callCtx) {
	x, st := c.x, c.st
	var g *Node
	if p, ok := c.args[0].(*PtrV); ok && p.cell == nil && len(p.path) > 0 {
		g = p.ref
	} else {
		g = asNode(x.escape(st, c.args[0]))
	}
	key := c.node(1)
	nm := ""
	if strings.HasPrefix(g.op, "c:G.") {
		nm = g.op[len("c:G."):]
	} else {
		nm = x.curPkg(st).Pkg.Name()
	}
	cl := x.prog.flightInvs[nm]
	if cl == nil {
		cl = x.prog.flightInvs[x.curPkg(st).Pkg.Name()]
	}
	if cl == nil {
		unsup("singleflight.Do without a flight invariant (%s)", nm)
	}
	eval := func(st *State, v, err *Node) *Node {
		e := x.env(st)
		e.vars["flightkey"] = lit(key)
		e.vars["v"] = SVal{v, types.NewInterfaceType(nil, nil)}
		e.vars["ferr"] = SVal{err, types.Universe.Lookup("error").Type()}
		return e.bool(cl.expr)
	}
	gp, _ := c.args[0].(*PtrV)
	if gp == nil {
		unsup("singleflight group of unknown place")
	}
	gp = x.resolve(st, gp)
	own := Fresh("ownflight", "Bool")
	x.branch(st, own, func(x *Exec, st *State, mine bool) {
		c2 := *c
		c2.st = st
		st.conc.flown = own
		if !mine {
			v, err := Fresh("flightv", "Any"), Fresh("flighterr", "Any")
			x.flightShared(st)
			st.assume(eval(st, v, err))
			c2.ret(v, err, True)
			return
		}
		st.conc.flights = append(st.conc.flights, flight{g: gp, key: key})
		x.callVal(st, c.args[2], nil, nil, c.pos, false, func(x *Exec, st *State, res []Val) {
			st.conc.flights = st.conc.flights[:len(st.conc.flights)-1]
			v, err := asNode(res[0]), asNode(res[1])
			x.oblige(st, "flightinv", eval(st, v, err), c.pos, "the shared result satisfies: "+cl.text)
			c3 := *c
			c3.st = st
			c3.ret(v, err, Fresh("shared", "Bool"))
		})
	})
}

// flightShared: another goroutine ran the function; its effects on guarded data are covered when the lock is taken next.
func (x *Exec) flightShared(st *State) {}

// publishPool: a pool becomes known to others. Any goroutine may call its New from now on.
// poolcap of a new pool is defined as the capacity of what New returns here; then every later
// result of New has to satisfy the pool invariant as well.
func (x *Exec) publishPool(st *State, v *Node, pos token.Pos, k func(x *Exec, st *State)) {
	if v.op != "f:box._sync.Pool" || !isFreshRef(v.args[0]) || st.conc.pubs[v.args[0]] {
		k(x, st)
		return
	}
	p := v.args[0]
	st.conc.pubs[p] = true
	cl := x.poolInvFor(st, p)
	if cl == nil {
		unsup("sync.Pool without a pool invariant")
	}
	nw := Select(x.comp(st, "F.sync.Pool.New", ArrSort("Int", "Fn")), p)
	clo := closTable[nw]
	if clo == nil {
		if v, ok := st.known(Neq(nw, NilFn())); ok && !v || nw == NilFn() {
			st.assume(Not(App("poolhasnew", "Bool", p)))
			k(x, st)
			return
		}
		unsup("pool with an unknown New")
	}
	st.assume(App("poolhasnew", "Bool", p))
	run := func(st *State, first bool, k func(x *Exec, st *State)) {
		st.conc.levels = append(st.conc.levels, newLevel())
		x.callVal(st, clo, nil, nil, pos, false, func(x *Exec, st *State, res []Val) {
			item := asNode(res[0])
			if first {
				if _, r, ok := x.pooledSlice(st, item); ok {
					x.oblige(st, "poolinv", True, pos, "")
					st.assume(Eq(App("poolcap", "Int", p), r))
				}
			}
			x.oblige(st, "poolinv", x.poolClause(st, cl, p, item), pos, "value made by New satisfies the pool invariant: "+cl.text)
			x.procEnd(st, nil)
			k(x, st)
		})
	}
	run(st, true, func(x *Exec, st *State) { run(st, false, k) })
}

func (x *Exec) pooledSlice(st *State, item *Node) (*SliceV, *Node, bool) {
	if !strings.HasPrefix(item.op, "f:box.") {
		return nil, nil, false
	}
	v, _ := unflatten(boxGoType[item.op[len("f:box."):]], item.args)
	if p, ok := v.(*PtrV); ok {
		v = x.loadQuiet(st, p)
	}
	s, ok := v.(*SliceV)
	if !ok {
		return nil, nil, false
	}
	return s, s.cap, true
}

// extMap models a method of xsync.Map called from another package: every value stored satisfies the map invariant.
func extMap(name string) func(c *callCtx) {
	return func(c *callCtx) {
		x, st := c.x, c.st
		m := asNode(x.escape(st, c.args[0]))
		nm := x.curPkg(st).Pkg.Name()
		cl := (*Clause)(nil)
		if strings.HasPrefix(m.op, "c:G.") {
			cl = x.prog.mapInvs[m.op[len("c:G."):]]
		}
		if cl == nil {
			cl = x.prog.mapInvs[nm]
		}
		if cl == nil {
			unsup("xsync.Map without a map invariant (%s)", m.op)
		}
		iface := types.NewInterfaceType(nil, nil)
		eval := func(st *State, k, v *Node) *Node {
			e := x.env(st)
			e.vars["mkey"] = SVal{k, iface}
			e.vars["mval"] = SVal{v, iface}
			return e.bool(cl.expr)
		}
		fresh := func(st *State, k *Node) *Node {
			v := Fresh("mapv", "Any")
			st.assume(eval(st, k, v))
			return v
		}
		put := func(st *State, k, v *Node, then func(x *Exec, st *State)) {
			x.publishPool(st, v, c.pos, func(x *Exec, st *State) {
				x.oblige(st, "mapinv", eval(st, k, v), c.pos, "value stored in the map satisfies: "+cl.text)
				then(x, st)
			})
		}
		ret := func(st *State, vs ...Val) {
			c2 := *c
			c2.st = st
			c2.ret(vs...)
		}
		k := c.node(1)
		switch name {
		case "Load", "LoadAndDelete":
			x.branch(st, Fresh("inmap", "Bool"), func(x *Exec, st *State, in bool) {
				if in {
					ret(st, fresh(st, k), True)
				} else {
					ret(st, NilAny, False)
				}
			})
		case "Delete":
			ret(st)
		case "Store":
			put(st, k, c.node(2), func(x *Exec, st *State) { ret(st) })
		case "LoadOrStore":
			x.branch(st, Fresh("inmap", "Bool"), func(x *Exec, st *State, in bool) {
				if in {
					ret(st, fresh(st, k), True)
					return
				}
				v := c.node(2)
				put(st, k, v, func(x *Exec, st *State) { ret(st, v, False) })
			})
		case "ComputeIfAbsent":
			x.branch(st, Fresh("inmap", "Bool"), func(x *Exec, st *State, in bool) {
				if in {
					ret(st, fresh(st, k), True)
					return
				}
				x.callVal(st, c.args[2], []Val{k}, nil, c.pos, false, func(x *Exec, st *State, res []Val) {
					v := asNode(res[0])
					x.branch(st, Fresh("stored", "Bool"), func(x *Exec, st *State, mine bool) {
						if !mine {
							ret(st, fresh(st, k), True)
							return
						}
						put(st, k, v, func(x *Exec, st *State) { ret(st, v, False) })
					})
				})
			})
		}
	}
}
