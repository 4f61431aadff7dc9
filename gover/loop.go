package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// slow stretches every solver time limit (second attempts of the check driver).
var slow = func() time.Duration {
	if n, err := strconv.Atoi(os.Getenv("GOVER_SLOW")); err == nil && n > 0 {
		return time.Duration(n)
	}
	return 1
}()

var (
	quickTO   = slow * 400 * time.Millisecond
	houdiniTO = slow * 1500 * time.Millisecond
)

type loopInfo struct {
	header *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
}

func findLoops(fn *ssa.Function) map[*ssa.BasicBlock]*loopInfo {
	r := map[*ssa.BasicBlock]*loopInfo{}
	for _, b := range fn.Blocks {
		for _, h := range b.Succs {
			if h.Dominates(b) {
				li := r[h]
				if li == nil {
					li = &loopInfo{header: h, body: map[*ssa.BasicBlock]bool{h: true}}
					r[h] = li
				}
				var st []*ssa.BasicBlock
				if !li.body[b] {
					li.body[b] = true
					st = append(st, b)
				}
				for len(st) > 0 {
					c := st[len(st)-1]
					st = st[:len(st)-1]
					for _, p := range c.Preds {
						if !li.body[p] {
							li.body[p] = true
							st = append(st, p)
						}
					}
				}
			}
		}
	}
	return r
}

type slotKind int

const (
	slCell slotKind = iota
	slComp
	slHeap
	slTop
)

type slot struct {
	kind slotKind
	cell *Cell
	leaf int
	comp string
	ref  *Node
	sort string
	typ  types.Type
	hdr  *Node // header constant
	ent  *Node // entry value
}

func (s *slot) key() string {
	switch s.kind {
	case slCell:
		return fmt.Sprintf("c%d.%d", s.cell.id, s.leaf)
	case slComp:
		return "h" + s.comp
	case slHeap:
		return fmt.Sprintf("s%s@%d", s.comp, s.ref.id)
	}
	return "top"
}

type loopAct struct {
	id      int
	header  *ssa.BasicBlock
	body    map[*ssa.BasicBlock]bool
	collect bool
	backs   []*State
	it      *Node
	slots   []*slot
	invs    []*Node
	hconc   *Conc
	hstate  *State
	guards  []*Node
	pos     token.Pos
}

var loopSeq int

// peekConcrete: the loop test (all blocks of a test joined by && or ||) is decided in this state.
func (x *Exec) peekConcrete(st *State, f *Frame, h *ssa.BasicBlock) bool {
	simple := func(b *ssa.BasicBlock) *ssa.If {
		ifi, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			return nil
		}
		for _, in := range b.Instrs[:len(b.Instrs)-1] {
			switch y := in.(type) {
			case *ssa.UnOp:
				if y.Op == token.ARROW {
					return nil
				}
			case *ssa.BinOp, *ssa.Store, *ssa.DebugRef, *ssa.Extract, *ssa.Phi, *ssa.FieldAddr:
			case *ssa.Call:
				if _, ok := y.Call.Value.(*ssa.Builtin); !ok {
					return nil
				}
			case *ssa.Next:
				it, ok := f.regs[y.Iter].(*Iter)
				if !ok {
					return nil
				}
				if n := Slen(it.seq); n.iv == nil {
					return nil
				}
			default:
				return nil
			}
		}
		return ifi
	}
	if simple(h) == nil {
		return false
	}
	c := st.clone()
	x.collect++
	saved := x.work
	x.work = nil
	defer func() { x.collect--; x.work = saved }()
	for b := h; ; {
		ifi := simple(b)
		for {
			g := c.top_()
			if g.block != b || c.dead {
				return false
			}
			if g.block.Instrs[g.idx] == ssa.Instruction(ifi) {
				break
			}
			x.step(c)
			if len(x.work) > 0 {
				return false
			}
		}
		n := x.node(c, ifi.Cond)
		_, lit := c.known(n)
		if !(lit && (n == True || n == False)) {
			return false
		}
		next := b.Succs[0]
		if n == False {
			next = b.Succs[1]
		}
		// the next operand of the same test leaves to the same block
		more := simple(next)
		if next == h || more == nil || len(next.Preds) != 1 || !(next.Succs[0] == b.Succs[0] || next.Succs[1] == b.Succs[1] || next.Succs[1] == h.Succs[1]) {
			return true
		}
		x.step(c)
		if len(x.work) > 0 || c.dead || c.top_().block != next {
			return true
		}
		b = next
	}
}

func (x *Exec) enterLoop(st *State, f *Frame, h *ssa.BasicBlock, li *loopInfo) {
	if f.unroll[h] < 64 && x.peekConcrete(st, f, h) {
		f.unroll[h]++
		return
	}
	x.cutLoop(st, f, h, li)
}

func isInvariantNode(n *Node, mark int, seen map[*Node]bool) bool {
	if seen[n] {
		return true
	}
	seen[n] = true
	if strings.HasPrefix(n.op, "c:") {
		if n.id > mark {
			o := n.op
			if !(strings.HasPrefix(o, "c:H0.") || strings.HasPrefix(o, "c:G.") || strings.HasPrefix(o, "c:glob.") || o == "c:nilFn" || o == "c:nilAny") {
				return false
			}
		}
		return true
	}
	for _, a := range n.args {
		if !isInvariantNode(a, mark, seen) {
			return false
		}
	}
	return true
}

func tryFlatten(v Val) (ns []*Node, ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(*Unsupported); is {
				ns, ok = nil, false
				return
			}
			panic(r)
		}
	}()
	switch v.(type) {
	case *ClosV:
		return []*Node{v.(*ClosV).node()}, true
	case *Iter, *ssa.Builtin, *invokeV:
		return nil, false
	}
	return flatten(v), true
}

func sameVal(a, b Val) bool {
	if a == b {
		return true
	}
	switch y := a.(type) {
	case *PtrV:
		z, ok := b.(*PtrV)
		return ok && y.cell == z.cell && y.ref == z.ref && y.idx == z.idx && fmt.Sprint(y.path) == fmt.Sprint(z.path)
	case *StructV:
		z, ok := b.(*StructV)
		if !ok || len(y.f) != len(z.f) {
			return false
		}
		for i := range y.f {
			if !sameVal(y.f[i], z.f[i]) {
				return false
			}
		}
		return true
	case *ClosV:
		z, ok := b.(*ClosV)
		if !ok || y.fn != z.fn || len(y.binds) != len(z.binds) {
			return false
		}
		for i := range y.binds {
			if !sameVal(y.binds[i], z.binds[i]) {
				return false
			}
		}
		return true
	case *SliceV:
		z, ok := b.(*SliceV)
		return ok && y.ref == z.ref && y.off == z.off && y.len == z.len && y.cap == z.cap
	}
	return false
}

// havocState builds the header state for a set of modified slots.
type modSet struct {
	slots map[string]*slot
	order []string
	fresh map[string]bool // component also written at objects allocated inside the loop
}

func (m *modSet) add(s *slot) bool {
	k := s.key()
	if _, ok := m.slots[k]; ok {
		return false
	}
	m.slots[k] = s
	m.order = append(m.order, k)
	return true
}

type frameInfo struct {
	base  *Node
	top   *Node
	slots []*Node
}

var frameOf = map[*Node]*frameInfo{}

func (x *Exec) havocFor(st *State, m *modSet) (*State, []*slot) {
	h := st.clone()
	entryTop := st.top
	var out []*slot
	if s, ok := m.slots["top"]; ok {
		t := newTop()
		topFloor[t] = entryTop
		h.assume(Le(entryTop, t))
		h.top = t
		c := *s
		c.hdr, c.ent = t, entryTop
		out = append(out, &c)
	}
	cellNew := map[*Cell][]*Node{}
	full := map[string]bool{}
	for _, k := range m.order {
		if s := m.slots[k]; s.kind == slComp {
			full[s.comp] = true
		}
	}
	for _, k := range m.order {
		s := m.slots[k]
		c := *s
		switch s.kind {
		case slCell:
			ns := cellNew[s.cell]
			if ns == nil {
				ns, _ = tryFlatten(st.cells[s.cell])
				ns = append([]*Node(nil), ns...)
			}
			n := Fresh("l."+s.cell.name, s.sort)
			setLeafInterval(s.typ, n)
			c.hdr, c.ent = n, ns[s.leaf]
			ns[s.leaf] = n
			cellNew[s.cell] = ns
		case slComp:
			n := Fresh("l."+s.comp, s.sort)
			c.hdr, c.ent = n, st.heap[s.comp]
			h.heap[s.comp] = n
		case slHeap:
			if full[s.comp] {
				continue
			}
			cur := h.heap[s.comp]
			n := Fresh("l."+s.comp, s.sort)
			if strings.HasSuffix(s.comp, "#int") {
			}
			c.hdr, c.ent = n, Select(st.heap[s.comp], s.ref)
			h.heap[s.comp] = Store(cur, s.ref, n)
			setLeafInterval(s.typ, n)
		case slTop:
			continue
		}
		out = append(out, &c)
	}
	// components also written at freshly allocated objects
	var fr []string
	for k := range m.fresh {
		fr = append(fr, k)
	}
	sort.Strings(fr)
	for _, comp := range fr {
		if full[comp] {
			continue
		}
		old := st.heap[comp]
		n := Fresh("l."+comp, old.sort)
		fi := &frameInfo{base: old, top: entryTop}
		for _, s := range out {
			if s.kind == slHeap && s.comp == comp {
				fi.slots = append(fi.slots, s.ref)
			}
		}
		frameOf[n] = fi
		r := BoundVar("r", arrayIdx(old.sort))
		if r.sort == "Int" {
			cond := []*Node{Lt(r, entryTop)}
			h.assume(Forall([]*Node{r}, Imp(And(cond...), Eq(mk("select", arrayElem(old.sort), n, r), Select(old, r))), []*Node{mk("select", arrayElem(old.sort), n, r)}))
		}
		cur := n
		for _, s := range out {
			if s.kind == slHeap && s.comp == comp {
				cur = Store(cur, s.ref, s.hdr)
			}
		}
		h.heap[comp] = cur
		out = append(out, &slot{kind: slComp, comp: comp, sort: old.sort, hdr: n, ent: old})
	}
	for c, ns := range cellNew {
		v, _ := unflatten(c.typ, ns)
		h.cells[c] = v
	}
	for _, c := range sortedCells(h.cells) {
		if _, ok := cellNew[c]; ok {
			x.typeFacts(h, c.typ, h.cells[c], true)
		}
	}
	return h, out
}

// diff records which slots differ between the header state and a back-edge state.
func (x *Exec) diff(st, h, b *State, m *modSet, mark int) (changed bool) {
	if b.top != h.top {
		if m.add(&slot{kind: slTop, sort: "Int"}) {
			changed = true
		}
	}
	for _, c := range sortedCells(h.cells) {
		hv := h.cells[c]
		bv, ok := b.cells[c]
		if !ok {
			continue // heapified: handled by the caller
		}
		if sameVal(hv, bv) {
			continue
		}
		hn, ok1 := tryFlatten(hv)
		bn, ok2 := tryFlatten(bv)
		if !ok1 || !ok2 {
			unsup("local %s holds a pointer to a local that changes in a loop", c.name)
		}
		ls := leaves(c.typ)
		for i := range hn {
			if hn[i] != bn[i] {
				if m.add(&slot{kind: slCell, cell: c, leaf: i, sort: ls[i].sort, typ: ls[i].typ}) {
					changed = true
				}
			}
		}
	}
	for _, k := range sortedHeap(b.heap) {
		bn := b.heap[k]
		hn, ok := h.heap[k]
		if !ok {
			hn = x.initComp(k, bn.sort)
			h.heap[k] = hn
			if _, ok := st.heap[k]; !ok {
				st.heap[k] = hn
			}
			changed = changed || hn != bn
		}
		if hn == bn {
			continue
		}
		if _, ok := m.slots["h"+k]; ok {
			continue
		}
		// peel stores
		cur := bn
		wild := false
		var refs []*Node
		hset := map[*Node]bool{hn: true}
		hh := hn
		for hh.op == "store" {
			hh = hh.args[0]
			hset[hh] = true
		}
		for !hset[cur] {
			if cur.op != "store" {
				wild = true
				break
			}
			r := cur.args[1]
			if b2, _ := splitAdd(r); isFreshRef(r) && b2 != nil && !knownOlder(r, st.top) {
				if !m.fresh[k] {
					m.fresh[k] = true
					changed = true
				}
			} else if isInvariantNode(r, mark, map[*Node]bool{}) {
				refs = append(refs, r)
			} else {
				wild = true
			}
			cur = cur.args[0]
		}
		if wild {
			if m.add(&slot{kind: slComp, comp: k, sort: bn.sort}) {
				changed = true
			}
			continue
		}
		for _, r := range refs {
			if Select(bn, r) == Select(hn, r) {
				continue
			}
			var t types.Type
			if arrayElem(bn.sort) == "Int" && strings.HasPrefix(k, "Ch.") {
				t = types.Typ[types.Int]
			}
			if arrayElem(bn.sort) == "Int" && strings.HasPrefix(k, "Cb.n") {
				t = types.Typ[types.Int]
			}
			if m.add(&slot{kind: slHeap, comp: k, ref: r, sort: arrayElem(bn.sort), typ: t}) {
				changed = true
			}
		}
	}
	return
}

// knownOlder: fresh reference r was allocated before top.
func knownOlder(r, top *Node) bool {
	b, c := splitAdd(r)
	tb, tc := splitAdd(top)
	if b == tb {
		return c.Cmp(tc) < 0
	}
	return topIndex[b] < topIndex[tb]
}

func (x *Exec) collectBacks(h *State, act *loopAct) []*State {
	act.collect = true
	act.backs = nil
	h.top_().active[act.header] = act
	saved := x.work
	x.work = nil
	x.collect++
	x.run(h.clone())
	x.collect--
	x.work = saved
	return act.backs
}

func (x *Exec) backEdge(st *State, a *loopAct) {
	if a.collect {
		a.backs = append(a.backs, st.clone())
		st.dead = true
		return
	}
	x.loopFinalBack(st, a)
	st.dead = true
}

func (x *Exec) slotVal(st *State, s *slot) *Node {
	switch s.kind {
	case slCell:
		v, ok := st.cells[s.cell]
		if !ok {
			unsup("local %s escapes inside a loop", s.cell.name)
		}
		ns, ok := tryFlatten(v)
		if !ok {
			unsup("local %s holds a local pointer", s.cell.name)
		}
		return ns[s.leaf]
	case slComp:
		if n, ok := st.heap[s.comp]; ok {
			return n
		}
		return x.initComp(s.comp, s.sort)
	case slHeap:
		return Select(st.heap[s.comp], s.ref)
	case slTop:
		return st.top
	}
	return nil
}

// ownChanSlot: a local that holds, when the loop is entered, a channel nobody else knows and no other local holds.
func (x *Exec) ownChanSlot(st *State, s *slot) bool {
	if s.kind != slCell || s.typ == nil {
		return false
	}
	if _, ok := types.Unalias(s.typ).Underlying().(*types.Chan); !ok {
		return false
	}
	if pub, own := st.conc.cur().owned[s.ent]; pub || !own {
		return false
	}
	for c, v := range st.cells {
		if c != s.cell && v == Val(s.ent) {
			return false
		}
	}
	return true
}

func (x *Exec) cutLoop(st *State, f *Frame, hb *ssa.BasicBlock, li *loopInfo) {
	x.loops++
	if x.loops > 400 {
		unsup("too many loop analyses")
	}
	for _, in := range hb.Instrs {
		if p, ok := in.(*ssa.Phi); ok {
			unsup("phi %s at a loop header", p)
		}
	}
	x.sawInner = true
	mark := nodeSeq
	loopSeq++
	act := &loopAct{id: loopSeq, header: hb, body: li.body}
	for _, in := range hb.Instrs {
		if in.Pos().IsValid() {
			act.pos = in.Pos()
			break
		}
	}
	act.it = Fresh("it", "Int")
	SetInterval(act.it, new(big.Int), two62)
	m := &modSet{slots: map[string]*slot{}, fresh: map[string]bool{}}
	var h *State
	var slots []*slot
	var backs []*State
	conc := st.conc.clone()
	gaveSlots := map[string]bool{} // locals whose referent an iteration gives away
	lostSlots := map[string]bool{} // channel locals that do not hold an unpublished channel at the end of every iteration
	for round := 0; ; round++ {
		if round > 12 {
			unsup("loop effects do not stabilise")
		}
		h, slots = x.havocFor(st, m)
		for _, s := range slots {
			if gaveSlots[fmt.Sprintf("%p.%d", s.cell, s.leaf)] {
				conc.given[s.hdr] = true
			}
			if x.ownChanSlot(st, s) && !lostSlots[fmt.Sprintf("%p.%d", s.cell, s.leaf)] {
				conc.cur().owned[s.hdr] = false
			}
		}
		conc.allocs = st.conc.allocs[:len(st.conc.allocs):len(st.conc.allocs)]
		h.conc = conc.clone()
		h.assume(mk("<=", "Bool", IntC(0), act.it))
		h.assume(mk("<=", "Bool", act.it, IntB(two62)))
		act.slots = slots
		x.sawInner = false
		backs = x.collectBacks(h, act)
		changed := false
		// heapify cells that escape inside the loop
		for _, b := range backs {
			for c := range b.fwd {
				if _, ok := st.fwd[c]; !ok {
					if _, live := st.cells[c]; live {
						x.heapify(st, c)
						changed = true
					}
				}
			}
		}
		for _, b := range backs {
			if x.diff(st, h, b, m, mark) {
				changed = true
			}
			if conc.merge(b.conc, h, mark) {
				changed = true
			}
			for _, s := range slots {
				if x.ownChanSlot(st, s) && !lostSlots[fmt.Sprintf("%p.%d", s.cell, s.leaf)] {
					if pub, own := b.conc.cur().owned[x.slotVal(b, s)]; pub || !own {
						lostSlots[fmt.Sprintf("%p.%d", s.cell, s.leaf)] = true
						changed = true
					}
				}
				if s.sort == "Int" && s.kind == slCell && !conc.given[s.hdr] && b.conc.given[x.slotVal(b, s)] {
					conc.given[s.hdr] = true
					gaveSlots[fmt.Sprintf("%p.%d", s.cell, s.leaf)] = true
					changed = true
				}
			}
		}
		if !changed {
			break
		}
	}
	inner := x.sawInner
	x.sawInner = true
	// candidates
	cands := x.candidates(st, h, act, backs, slots)
	entry := map[*Node]*Node{act.it: IntC(0)}
	for _, s := range slots {
		entry[s.hdr] = s.ent
	}
	var live []*Node
	{
		goals := make([]*Node, len(cands))
		for i, c := range cands {
			goals[i] = subst(c, entry)
		}
		ok := proveMany(st.pc, goals, houdiniTO, func(i int) bool { return x.stated[cands[i]] })
		for i, c := range cands {
			if ok[i] {
				live = append(live, c)
			} else if debug {
				if d := os.Getenv("GOVER_DUMPENTRY"); d != "" && strings.Contains(show(c), d) {
					os.WriteFile(fmt.Sprintf("/tmp/cande_%d_%d.smt2", act.id, i), []byte(strings.Replace(buildQueryLocked(st.pc, goals[i]), "@OPTIONS@", solvers["z3"].opts, 1)), 0644)
				}
				dbg("  loop %d: candidate fails on entry: %s", act.id, show(c))
			}
		}
	}
	for round := 0; ; round++ {
		if round > 30 {
			unsup("invariant inference does not converge")
		}
		if round > 0 && inner || round == 0 && inner {
			hh := h.clone()
			for _, c := range live {
				hh.assume(c)
			}
			backs = x.collectBacks(hh, act)
		}
		dropped := false
		for _, b := range backs {
			sub := map[*Node]*Node{act.it: Add(act.it, IntC(1))}
			for _, s := range slots {
				sub[s.hdr] = x.slotVal(b, s)
			}
			goals := make([]*Node, len(live))
			for i, c := range live {
				goals[i] = unfoldLast(subst(c, sub))
			}
			hyps := b.pc
			if !inner {
				hyps = append(append([]*Node(nil), b.pc...), live...)
			}
			ok := proveMany(hyps, goals, houdiniTO, func(i int) bool { return x.stated[live[i]] })
			var keep []*Node
			for i, c := range live {
				if ok[i] {
					keep = append(keep, c)
				} else {
					dropped = true
					if d := os.Getenv("GOVER_DUMPCAND"); d != "" && strings.Contains(show(c), d) {
						os.WriteFile(fmt.Sprintf("/tmp/cand_%d_%d.smt2", act.id, i), []byte(strings.Replace(buildQueryLocked(hyps, goals[i]), "@OPTIONS@", solvers["z3"].opts, 1)), 0644)
					}
					if debug {
						dbg("  loop %d (%s): candidate dropped: %s", act.id, x.prog.pos(act.pos), show(c))
					}
				}
			}
			live = keep
		}
		if !dropped {
			break
		}
	}
	if debug {
		for _, c := range live {
			dbg("  loop %d (%s): INVARIANT %s", act.id, x.prog.pos(act.pos), show(c))
		}
	}
	if x.collect == 0 {
		x.loopInvs += len(live)
	}
	for _, c := range live {
		h.assume(c)
	}
	act.invs = live
	act.collect = false
	act.backs = nil
	act.hconc = conc
	// continue with the header state
	depth := len(h.frames) - 1
	h.frames[depth].active[hb] = act
	act.hstate = h.clone()
	h.dead = h.dead || false
	*st = *h
}

func show(n *Node) string {
	p := newPrinter()
	s := p.str(n)
	if len(s) > 400 {
		s = s[:400] + "..."
	}
	return s
}

func (x *Exec) loopFinalBack(st *State, a *loopAct) {
	if x.collect > 0 {
		return
	}
	if why := a.hconc.backMismatch(st.conc); why != "" {
		x.oblige(st, "discipline", False, a.pos, "loop iteration does not preserve the concurrency discipline: "+why)
	}
	x.checkTermination(st, a)
}

// checkTermination: some measure suggested by the loop's own conditions decreases.
func (x *Exec) checkTermination(st *State, a *loopAct) {
	if x.con != nil && x.con.noTerm {
		return
	}
	sub := map[*Node]*Node{a.it: Add(a.it, IntC(1))}
	for _, s := range a.slots {
		sub[s.hdr] = x.slotVal(st, s)
	}
	var goals []*Node
	seen := map[*Node]bool{}
	hpc := len(a.hstate.pc)
	if hpc > len(st.pc) {
		hpc = len(st.pc)
	}
	add := func(m *Node) {
		if seen[m] || m.iv != nil {
			return
		}
		seen[m] = true
		m2 := subst(m, sub)
		if m2 == m {
			return
		}
		goals = append(goals, And(Le(IntC(0), m), Lt(m2, m)))
	}
	for _, p := range st.pc[hpc:] {
		for _, at := range orAtoms(p) {
			q, neg := at, false
			if q.op == "not" {
				q, neg = q.args[0], true
			}
			if q.op == "<=" {
				if neg { // y < x
					add(Sub(q.args[0], q.args[1]))
				} else {
					add(Add(Sub(q.args[1], q.args[0]), IntC(1)))
				}
			}
		}
	}
	if len(goals) == 0 {
		x.oblige(st, "terminates", False, a.pos, "no decreasing measure found for the loop")
		return
	}
	ok := proveMany(st.pc, goals, houdiniTO, nil)
	for i := range ok {
		if ok[i] {
			x.oblige(st, "terminates", goals[i], a.pos, "loop measure decreases")
			return
		}
	}
	x.oblige(st, "terminates", Or(goals...), a.pos, "no decreasing measure found for the loop")
}

func orAtoms(p *Node) []*Node {
	if p.op == "or" {
		return p.args
	}
	return []*Node{p}
}

// proveMany discharges several goals under the same hypotheses in parallel; goals for which retry holds get a
// longer second attempt when the first one ran out of time.
func proveMany(hyps []*Node, goals []*Node, to time.Duration, retry func(int) bool) []bool {
	ok := make([]bool, len(goals))
	hs := map[*Node]bool{}
	dead := false
	for _, h := range hyps {
		hs[h] = true
		if h == False {
			dead = true
		}
	}
	var wg sync.WaitGroup
	for i, g := range goals {
		if dead || g == True || hs[g] {
			ok[i] = true
			continue
		}
		if g == False {
			// still may hold vacuously; ask
		}
		q := buildQueryLocked(hyps, g)
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			r := proveText(q, to, false)
			if r.status != "unsat" && r.ms >= to.Milliseconds()*3/4 && retry != nil && retry(i) {
				if r = runSolver("z3b", q, 2*to); r.status != "unsat" {
					r = runSolver("z3", q, 5*to)
				}
			}
			ok[i] = r.status == "unsat"
		}(i)
	}
	wg.Wait()
	return ok
}

func (x *Exec) candidates(st, h *State, act *loopAct, backs []*State, slots []*slot) []*Node {
	var cands []*Node
	seen := map[*Node]bool{}
	add := func(n *Node) {
		if n == True || n == False || seen[n] {
			return
		}
		seen[n] = true
		cands = append(cands, n)
	}
	isHdr := map[*Node]*slot{}
	for _, s := range slots {
		isHdr[s.hdr] = s
	}
	for _, s := range slots {
		if s.kind == slTop {
			continue
		}
		switch s.sort {
		case "Int":
			// constant step
			delta, good := new(big.Int), len(backs) > 0
			for i, b := range backs {
				v := x.slotVal(b, s)
				if r, ok := rawWrap[v]; ok {
					v = r
				}
				d := Sub(v, s.hdr)
				if d.iv == nil {
					good = false
					break
				}
				if i == 0 {
					delta = d.iv
				} else if delta.Cmp(d.iv) != 0 {
					good = false
				}
			}
			if good {
				add(Eq(s.hdr, Add(s.ent, Mul(act.it, IntB(delta)))))
				if delta.Sign() >= 0 {
					add(Le(s.ent, s.hdr))
				}
			} else {
				add(mk("<=", "Bool", s.ent, s.hdr))
				add(mk("<=", "Bool", s.hdr, s.ent))
				add(mk("<=", "Bool", s.hdr, Add(s.ent, act.it)))
				add(mk("<=", "Bool", IntC(0), s.hdr))
			}
		case "Bool":
			add(Eq(s.hdr, s.ent))
			for i, b := range backs {
				if i < 4 {
					if v := x.slotVal(b, s); v == True || v == False {
						add(Or(Eq(act.it, IntC(0)), Eq(s.hdr, v)))
					}
				}
			}
		default:
			if s.kind != slComp && !strings.HasPrefix(s.sort, "(Array") {
				add(Eq(s.hdr, s.ent))
			}
		}
		if s.kind == slComp && x.trackedComp(s.comp) {
			for _, r := range st.conc.allocs { // memory of this path that nobody else can reach
				if private(st, r) {
					add(Eq(Select(s.hdr, r), Select(s.ent, r)))
				}
			}
		}
		if s.kind == slComp {
			if _, auto := frameOf[s.hdr]; !auto && arrayIdx(s.sort) == "Int" {
				for _, tp := range []*Node{st.top, x.prog.top0} {
					r := BoundVar("r", "Int")
					add(Forall([]*Node{r}, Imp(Lt(r, tp), Eq(mk("select", arrayElem(s.sort), s.hdr, r), Select(s.ent, r))), []*Node{mk("select", arrayElem(s.sort), s.hdr, r)}))
				}
			}
		}
	}
	// slices: fresh memory
	for _, c := range sortedCells(h.cells) {
		sv, ok := h.cells[c].(*SliceV)
		if !ok {
			continue
		}
		if isHdr[sv.ref] != nil {
			add(Or(Eq(sv.ref, IntC(0)), Le(st.top, sv.ref)))
			add(Or(Eq(sv.ref, IntC(0)), Le(x.prog.top0, sv.ref)))
		}
	}
	// scalar references held in locals
	for _, s := range slots {
		if s.kind == slCell && s.sort == "Int" && s.typ != nil {
			switch types.Unalias(s.typ).Underlying().(type) {
			case *types.Chan, *types.Map, *types.Pointer:
				add(Le(x.prog.top0, s.hdr))
				add(Lt(IntC(0), s.hdr))
			}
		}
	}
	// conditions that hold inside an iteration, weakened to the header
	n := 0
	for _, b := range backs {
		k := len(h.pc)
		if k > len(b.pc) {
			k = len(b.pc)
		}
		for _, p := range b.pc[k:] {
			if n > 60 {
				break
			}
			if p.op == "forall" || p.op == "exists" {
				continue
			}
			if !mentions(p, isHdr, act.it) || !onlyKnown(p, h, isHdr, act.it) {
				continue
			}
			n++
			q, neg := p, false
			if q.op == "not" {
				q, neg = q.args[0], true
			}
			if q.op == "<=" {
				if neg {
					add(mk("<=", "Bool", q.args[1], q.args[0]))
				}
			}
			add(p)
		}
	}
	// linear bound between counters: pairs of Int slots that move together are covered by the step form
	for _, t := range x.templates(h) {
		for _, c := range x.instTemplate(t, st, h, act, slots) {
			if x.stated == nil {
				x.stated = map[*Node]bool{}
			}
			x.stated[c] = true
			add(c)
		}
	}
	return cands
}

func mentions(n *Node, hdr map[*Node]*slot, it *Node) bool {
	if n == it {
		return true
	}
	if _, ok := hdr[n]; ok {
		return true
	}
	for _, a := range n.args {
		if mentions(a, hdr, it) {
			return true
		}
	}
	return false
}

// onlyKnown: the condition does not involve symbols created inside the loop body.
func onlyKnown(n *Node, h *State, hdr map[*Node]*slot, it *Node) bool {
	if strings.HasPrefix(n.op, "c:") {
		if n == it || hdr[n] != nil {
			return true
		}
		return n.id < it.id
	}
	if strings.HasPrefix(n.op, "b:") || n.op == "forall" || n.op == "exists" {
		return false
	}
	for _, a := range n.args {
		if !onlyKnown(a, h, hdr, it) {
			return false
		}
	}
	return true
}

// unfoldLast splits the last instance off quantifiers over lo <= j < X+1:
// forall becomes (forall j < X) and (lo <= X => body[X]); exists dually.
func unfoldLast(n *Node) *Node {
	switch n.op {
	case "and", "or", "not", "=>", "ite":
		if n.sort != "Bool" {
			return n
		}
		var as []*Node
		ch := false
		for _, a := range n.args {
			b := unfoldLast(a)
			ch = ch || a != b
			as = append(as, b)
		}
		if !ch {
			return n
		}
		switch n.op {
		case "and":
			return And(as...)
		case "or":
			return Or(as...)
		case "not":
			return Not(as[0])
		case "=>":
			return Imp(as[0], as[1])
		}
		return Ite(as[0], as[1], as[2])
	case "forall", "exists":
		if len(n.bs) != 1 || n.bs[0].sort != "Int" {
			return n
		}
		j := n.bs[0]
		b := n.args[0]
		var dom *Node
		if n.op == "forall" && b.op == "=>" {
			dom = b.args[0]
		} else if n.op == "exists" && b.op == "and" {
			dom = b
		} else {
			return n
		}
		conj := []*Node{dom}
		if dom.op == "and" {
			conj = dom.args
		}
		for k, c := range conj {
			if c.op != "not" || c.args[0].op != "<=" || c.args[0].args[1] != j {
				continue
			}
			base, cst := splitAdd(c.args[0].args[0])
			if base == nil || cst.Cmp(big.NewInt(1)) != 0 || len(base.fv) > 0 && nodeIn(base.fv, j) {
				continue
			}
			nc := append([]*Node(nil), conj...)
			nc[k] = Lt(j, base)
			rest := append(append([]*Node(nil), conj[:k]...), conj[k+1:]...)
			at := func(m *Node) *Node { return subst(m, map[*Node]*Node{j: base}) }
			if n.op == "forall" {
				return And(quant("forall", n.bs, Imp(And(nc...), b.args[1]), n.pats), Imp(at(And(rest...)), at(b.args[1])))
			}
			return Or(quant("exists", n.bs, And(nc...), n.pats), at(And(rest...)))
		}
	}
	return n
}

func nodeIn(l []*Node, n *Node) bool {
	for _, x := range l {
		if x == n {
			return true
		}
	}
	return false
}
