package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

// Abstract maps: under the contract clause `abstract` every xsync.Map is its mathematical content
// (V.has, V.val), and its methods are replaced by specification programs (gvs `spec KEY = KEY2`), written
// in Go over the primitives below and themselves verified against the postconditions of C10.

var vHasSort = ArrSort("Int", ArrSort("Any", "Bool"))
var vValSort = ArrSort("Int", ArrSort("Any", "Any"))

func (x *Exec) vhas(st *State, m, k *Node) *Node {
	return Select(Select(x.comp(st, "V.has", vHasSort), m), k)
}

func (x *Exec) vval(st *State, m, k *Node) *Node {
	return Select(Select(x.comp(st, "V.val", vValSort), m), k)
}

func (x *Exec) vref(c *callCtx) *Node {
	if p, ok := c.args[0].(*PtrV); ok {
		x.nonNil(c.st, p, c.pos)
	} else {
		x.check(c.st, "nil", Neq(c.node(0), IntC(0)), c.pos)
	}
	return asNode(x.escape(c.st, c.args[0]))
}

var specPrims = map[string]func(c *callCtx){
	"xsync.specHas": func(c *callCtx) { c.ret(c.x.vhas(c.st, c.x.vref(c), c.node(1))) },
	"xsync.specVal": func(c *callCtx) { c.ret(c.x.vval(c.st, c.x.vref(c), c.node(1))) },
	"xsync.specSet": func(c *callCtx) {
		x, st, m := c.x, c.st, c.x.vref(c)
		h, v := x.comp(st, "V.has", vHasSort), x.comp(st, "V.val", vValSort)
		st.heap["V.has"] = Store(h, m, Store(Select(h, m), c.node(1), True))
		st.heap["V.val"] = Store(v, m, Store(Select(v, m), c.node(1), c.node(2)))
		c.ret()
	},
	"xsync.specDel": func(c *callCtx) {
		x, st, m := c.x, c.st, c.x.vref(c)
		h := x.comp(st, "V.has", vHasSort)
		st.heap["V.has"] = Store(h, m, Store(Select(h, m), c.node(1), False))
		c.ret()
	},
	"xsync.specClear": func(c *callCtx) {
		x, st, m := c.x, c.st, c.x.vref(c)
		h := x.comp(st, "V.has", vHasSort)
		st.heap["V.has"] = Store(h, m, ConstArr(ArrSort("Any", "Bool"), False))
		c.ret()
	},
	// specKeys: a new Go map whose keys are the keys present
	"xsync.specKeys": func(c *callCtx) {
		x, st, m := c.x, c.st, c.x.vref(c)
		t := c.fn.Signature.Results().At(0).Type()
		mi := mapInfo(t)
		r := asNode(x.makeMap(st, t))
		dc := x.comp(st, mi.dom, ArrSort("Int", ArrSort(mi.ks, "Bool")))
		st.heap[mi.dom] = Store(dc, r, Select(x.comp(st, "V.has", vHasSort), m))
		n := Fresh("nkeys", "Int")
		SetInterval(n, new(big.Int), maxLen)
		st.assume(Le(IntC(0), n))
		st.heap[mi.ln] = Store(x.comp(st, mi.ln, ArrSort("Int", "Int")), r, n)
		c.ret(r)
	},
}

// autoPure: the result is a function of the arguments alone (no memory, no calls, no allocation).
func (x *Exec) autoPure(fn *ssa.Function) bool {
	pure, loop := x.pureBody(fn, 0)
	return pure && loop
}

// pureBody: a function of basic arguments that touches nothing but its own variables; does it (or a callee) loop?
func (x *Exec) pureBody(fn *ssa.Function, depth int) (pure, loop bool) {
	if len(fn.Blocks) == 0 || fn.Parent() != nil || depth > 3 {
		return false, false
	}
	basic := func(t types.Type) bool {
		_, ok := types.Unalias(t).Underlying().(*types.Basic)
		return ok
	}
	for _, p := range fn.Params {
		if !basic(p.Type()) {
			return false, false
		}
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch i := in.(type) {
			case *ssa.Phi, *ssa.BinOp, *ssa.Convert, *ssa.ChangeType, *ssa.If, *ssa.Jump, *ssa.Return, *ssa.Lookup, *ssa.Index, *ssa.DebugRef, *ssa.RunDefers, *ssa.Next, *ssa.Extract:
				if _, ok := in.(*ssa.Phi); ok {
					loop = true
				}
			case *ssa.Range:
				if !basic(i.X.Type()) {
					return false, false
				}
			case *ssa.IndexAddr: // of a fresh copy of a string, which is only read
				if c, ok := i.X.(*ssa.Convert); !ok || !basic(c.X.Type()) {
					return false, false
				}
			case *ssa.UnOp:
				if i.Op == token.MUL {
					if _, ok := i.X.(*ssa.IndexAddr); ok {
						break
					}
					if a, ok := i.X.(*ssa.Alloc); !ok || a.Heap {
						return false, false
					}
				} else if i.Op == token.ARROW {
					return false, false
				}
			case *ssa.Alloc:
				if i.Heap {
					return false, false
				}
			case *ssa.Store:
				if a, ok := i.Addr.(*ssa.Alloc); !ok || a.Heap {
					return false, false
				}
			case *ssa.Call:
				if _, ok := i.Call.Value.(*ssa.Builtin); ok {
					break
				}
				c := i.Call.StaticCallee()
				if c == nil || c.Pkg == nil || !x.prog.isRepo(c.Pkg.Pkg.Path()) {
					return false, false
				}
				p, l := x.pureBody(c, depth+1)
				if !p {
					return false, false
				}
				loop = loop || l
			default:
				return false, false
			}
		}
		for _, s := range b.Succs {
			if s.Index <= b.Index {
				loop = true
			}
		}
	}
	return true, loop
}

// pureApp: an uninterpreted function of the arguments, in the range of its type.
func (x *Exec) pureApp(st *State, fn *ssa.Function, args []Val) Val {
	t := fn.Signature.Results().At(0).Type()
	ls := leaves(t)
	if len(ls) != 1 {
		unsup("pure function with a structured result")
	}
	var ns []*Node
	for _, a := range args {
		ns = append(ns, asNode(a))
	}
	r := App("pure."+funcKey(fn), ls[0].sort, ns...)
	if bits, signed, ok := intInfo(t); ok && r.sort == "Int" {
		one := big.NewInt(1)
		lo, hi := new(big.Int), new(big.Int).Sub(new(big.Int).Lsh(one, uint(bits)), one)
		if signed {
			lo = new(big.Int).Neg(new(big.Int).Lsh(one, uint(bits-1)))
			hi = new(big.Int).Sub(new(big.Int).Lsh(one, uint(bits-1)), one)
		}
		SetInterval(r, lo, hi)
		var vs []*Node
		for i, n := range ns {
			vs = append(vs, BoundVar(fmt.Sprintf("pa%d", i), n.sort))
		}
		g := App(r.op[2:], r.sort, vs...)
		ax := Forall(vs, And(mk("<=", "Bool", IntB(lo), g), mk("<=", "Bool", g, IntB(hi))), []*Node{g})
		if x.pureOuter != nil {
			x.pureOuter.assume(ax)
		} else {
			st.assume(ax)
		}
	}
	return r
}

// pureCall: the value of a call in a contract; the callee must have a single path and no effect that is used.
func (x *Exec) pureCall(st *State, key string, args []SVal) SVal {
	fn := x.prog.funcs[key]
	if fn == nil {
		unsup("contract: function %s does not exist in the current source", key)
	}
	sub := st.clone()
	sub.frames, sub.dead = nil, false
	var vs []Val
	for i, a := range args {
		v := a.v
		if p, ok := v.(*PtrV); ok && i < len(fn.Params) {
			if _, isp := types.Unalias(fn.Params[i].Type()).Underlying().(*types.Pointer); !isp {
				v = x.loadQuiet(sub, p)
			}
		}
		vs = append(vs, v)
	}
	var out []Val
	saved, q := x.work, x.quiet
	x.work = nil
	ip, po := x.inPure, x.pureOuter
	if po == nil {
		x.pureOuter = st
	}
	x.quiet, x.inPure = true, true
	x.collect++
	defer func() { x.collect--; x.work, x.quiet, x.inPure, x.pureOuter = saved, q, ip, po }()
	x.callStatic(sub, &ClosV{fn: fn}, vs, nil, token.NoPos, false, func(x *Exec, s *State, res []Val) {
		out = append(out, res[0])
		s.dead = true
	})
	for !sub.dead && len(sub.frames) > 0 {
		x.step(sub)
	}
	if len(x.work) > 0 || len(out) != 1 {
		unsup("contract: call of %s has several paths", key)
	}
	return SVal{out[0], fn.Signature.Results().At(0).Type()}
}
