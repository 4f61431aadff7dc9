package main

// Concurrency: goroutines, channels, select, locks, wait groups, atomics.
//
// A goroutine is executed in place at the point where it is started ("process"); everything it does that is not
// ordered before the parent's later actions by a wait group, a channel receive or a close stays "pending", and the
// obligations below reject every program in which a different interleaving could give a different outcome (conflicting
// accesses to shared variables, sends that race with a close or with other sends, callbacks outside their slot, ...).

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type ast_ = ast.Expr

type Proc struct{ name string }

type sig struct {
	kind byte // 'w' wait group, 'c' channel
	c    *Cell
	n    *Node
	path string
	lvl  int
}

type eff struct {
	kind string
	n    *Node
	c    *Cell
	s    string
}

type sigset map[sig]bool

type level struct {
	own   map[eff]sigset
	pend  map[eff]sigset
	owned map[*Node]bool // channels made by this process; true: published
	sends map[*Node]bool // channels on which this process itself has sent
	start map[string]*Node
	seen  map[eff]bool  // pending effects of outer processes that are ordered before this process
	wg    map[sig]*Node // counters of the wait groups used when this process started
}

func newLevel() *level {
	return &level{seen: map[eff]bool{}, wg: map[sig]*Node{}, own: map[eff]sigset{}, pend: map[eff]sigset{}, owned: map[*Node]bool{}, sends: map[*Node]bool{}, start: map[string]*Node{}}
}

type elemGuard struct {
	spec  *TypeSpec
	field string
	ref   *Node
}

type Conc struct {
	mixed     map[*Node]bool // channels of which the blocks are not known
	unordered map[*Node]bool
	given     map[*Node]bool
	levels    []*level
	held      map[sig]int // lock -> 1 read, 2 write
	heldLvl   map[sig]int
	adds      map[sig]map[int]bool
	elemOf    map[*Node]elemGuard
	at, un    *State
	sems      map[*Node]bool
	locals    []*Node        // local channels made on this path
	pubs      map[*Node]bool // pools known to others
	flights   []flight
	flown     *Node // whether the last flight was this goroutine's own
	order     *Node // keys of the last map iteration
	acq       *State         // at the last acquisition of a lock that guards something
	pubd      map[*Node]bool // memory made on this path that others can reach
	allocs    []*Node        // memory made on this path
	fromGuard map[*Node]bool // pointers taken out of a guarded map
}

func newConc() *Conc {
	return &Conc{mixed: map[*Node]bool{}, unordered: map[*Node]bool{}, given: map[*Node]bool{}, levels: []*level{newLevel()}, held: map[sig]int{}, heldLvl: map[sig]int{}, adds: map[sig]map[int]bool{}, elemOf: map[*Node]elemGuard{}, sems: map[*Node]bool{}, pubs: map[*Node]bool{}, pubd: map[*Node]bool{}, fromGuard: map[*Node]bool{}}
}

func (c *Conc) clone() *Conc {
	n := newConc()
	for k := range c.unordered {
		n.unordered[k] = true
	}
	for k := range c.given {
		n.given[k] = true
	}
	for k := range c.mixed {
		n.mixed[k] = true
	}
	n.levels = nil
	for _, l := range c.levels {
		m := newLevel()
		for k, v := range l.own {
			m.own[k] = v
		}
		for k, v := range l.pend {
			m.pend[k] = v
		}
		for k, v := range l.owned {
			m.owned[k] = v
		}
		for k, v := range l.sends {
			m.sends[k] = v
		}
		for k, v := range l.start {
			m.start[k] = v
		}
		for k := range l.seen {
			m.seen[k] = true
		}
		for k, v := range l.wg {
			m.wg[k] = v
		}
		n.levels = append(n.levels, m)
	}
	for k, v := range c.held {
		n.held[k] = v
		n.heldLvl[k] = c.heldLvl[k]
	}
	for k, v := range c.adds {
		m := map[int]bool{}
		for i := range v {
			m[i] = true
		}
		n.adds[k] = m
	}
	for k, v := range c.elemOf {
		n.elemOf[k] = v
	}
	for k := range c.sems {
		n.sems[k] = true
	}
	for k := range c.pubs {
		n.pubs[k] = true
	}
	n.at, n.un, n.acq = c.at, c.un, c.acq
	for k := range c.pubd {
		n.pubd[k] = true
	}
	n.allocs = c.allocs[:len(c.allocs):len(c.allocs)]
	for k := range c.fromGuard {
		n.fromGuard[k] = true
	}
	n.flights = append([]flight(nil), c.flights...)
	n.flown, n.order = c.flown, c.order
	n.locals = c.locals[:len(c.locals):len(c.locals)]
	return n
}

// stable: the thing named by an effect exists outside the loop body.
func stableEff(e eff, h *State, mark int) bool {
	if e.c != nil {
		if _, ok := h.cells[e.c]; ok {
			return true
		}
		_, ok := h.fwd[e.c]
		return ok
	}
	return e.n == nil || isInvariantNode(e.n, mark, map[*Node]bool{})
}

func stableNode(n *Node, mark int) bool { return isInvariantNode(n, mark, map[*Node]bool{}) }

func meet(a, b sigset) (sigset, bool) {
	r := sigset{}
	for s := range a {
		if b[s] {
			r[s] = true
		}
	}
	return r, len(r) != len(a)
}

// merge adds what a back-edge state knows to the loop header's state; reports whether it changed.
func (c *Conc) merge(o *Conc, h *State, mark int) bool {
	ch := false
	for k := range o.unordered {
		if !c.unordered[k] && stableNode(k, mark) {
			c.unordered[k] = true
			ch = true
		}
	}
	for k := range o.mixed {
		if !c.mixed[k] && stableNode(k, mark) {
			c.mixed[k] = true
			ch = true
		}
	}
	for k := range o.given {
		if !c.given[k] && stableNode(k, mark) {
			c.given[k] = true
			ch = true
		}
	}
	for k := range o.sems {
		if !c.sems[k] && stableNode(k, mark) {
			c.sems[k] = true
			ch = true
		}
	}
	for k := range o.pubd {
		if !c.pubd[k] && stableNode(k, mark) {
			c.pubd[k] = true
			ch = true
		}
	}
	for k := range o.fromGuard {
		if !c.fromGuard[k] && stableNode(k, mark) {
			c.fromGuard[k] = true
			ch = true
		}
	}
	if c.acq != o.acq && c.acq != nil {
		c.acq = nil
		ch = true
	}
	for i := range c.levels {
		if i >= len(o.levels) {
			break
		}
		mm := func(a, b map[eff]sigset) {
			for e, s := range b {
				if !stableEff(e, h, mark) {
					if e.kind != "recv" && e.kind != "send" && e.kind != "close" || e.n == nil || isFreshRef(e.n) || o.owns(e.n) {
						continue
					}
					e.n = nil // on some channel that the iteration did not make itself
				}
				t, ok := a[e]
				if !ok {
					a[e] = s
					ch = true
					continue
				}
				if r, less := meet(t, s); less {
					a[e] = r
					ch = true
				}
			}
		}
		for k := range c.levels[i].seen {
			if !o.levels[i].seen[k] {
				delete(c.levels[i].seen, k)
				ch = true
			}
		}
		mm(c.levels[i].own, o.levels[i].own)
		mm(c.levels[i].pend, o.levels[i].pend)
		for k := range o.levels[i].sends {
			if !c.levels[i].sends[k] && stableNode(k, mark) {
				c.levels[i].sends[k] = true
				ch = true
			}
		}
		for k, v := range o.levels[i].owned {
			w, ok := c.levels[i].owned[k]
			if !stableNode(k, mark) {
				continue
			}
			if !ok || v && !w {
				c.levels[i].owned[k] = v
				ch = true
			}
		}
	}
	for k, v := range o.adds {
		for l := range v {
			if c.adds[k] == nil {
				c.adds[k] = map[int]bool{}
			}
			if !c.adds[k][l] {
				c.adds[k][l] = true
				ch = true
			}
		}
	}
	for k, v := range o.elemOf {
		if stableNode(k, mark) {
			c.elemOf[k] = v
		}
	}
	if c.at != o.at || c.un != o.un {
		if c.at != nil || c.un != nil {
			c.at, c.un = nil, nil
			ch = true
		}
	}
	return ch
}

// backMismatch: what must be the same at the end of every iteration.
func (c *Conc) backMismatch(o *Conc) string {
	for k, v := range o.held {
		if c.held[k] != v {
			return "a lock taken in the loop body is still held"
		}
	}
	for k := range c.held {
		if o.held[k] == 0 {
			return "a lock held at the loop head is released in the body"
		}
	}
	return ""
}

func (c *Conc) lvl() int    { return len(c.levels) - 1 }
func (c *Conc) cur() *level { return c.levels[len(c.levels)-1] }

// owns: the channel was made by one of the processes in progress.
func (c *Conc) owns(n *Node) bool {
	for _, l := range c.levels {
		if _, ok := l.owned[n]; ok {
			return true
		}
	}
	return false
}

// concurrent: a process that may still be running did e.
func (c *Conc) concurrent(e eff) bool {
	for i, l := range c.levels {
		if _, ok := l.pend[e]; ok && !c.ordered(i, e) {
			return true
		}
		if e.kind != "send" && e.kind != "close" || e.n == nil {
			continue
		}
		if _, ok := l.pend[eff{kind: e.kind}]; ok && !c.ordered(i, eff{kind: e.kind}) {
			if pub, own := c.cur().owned[e.n]; !own || pub {
				return true
			}
		}
	}
	return false
}

// ordered: the effect pending in level i is ordered before the process in progress.
func (c *Conc) ordered(i int, e eff) bool {
	for _, l := range c.levels[i+1:] {
		if l.seen[e] {
			return true
		}
	}
	return false
}

func (c *Conc) anyPend() bool {
	for _, l := range c.levels {
		if len(l.pend) > 0 {
			return true
		}
	}
	return false
}

func (c *Conc) effect(e eff) {
	if c.lvl() > 0 {
		c.cur().own[e] = sigset{}
	}
}

func (c *Conc) signal(s sig) {
	own := c.cur().own
	for e, ss := range own {
		t := sigset{s: true}
		for k := range ss {
			t[k] = true
		}
		own[e] = t
	}
}

// join: everything that happened before the awaited signal is now ordered before this process.
func (c *Conc) join(match func(s sig) bool) {
	l := c.cur()
	for e, ss := range l.pend {
		for s := range ss {
			if match(s) {
				delete(l.pend, e)
				if c.lvl() > 0 {
					// what the goroutine told wait groups since then is still told
					w := sigset{}
					o, has := l.own[e]
					for k := range ss {
						if k.kind == 'w' && (!has || o[k]) {
							w[k] = true
						}
					}
					l.own[e] = w
				}
				break
			}
		}
	}
	for i, p := range c.levels[:c.lvl()] {
		for e, ss := range p.pend {
			// an effect that is pending in two levels stands for several occurrences
			n := 0
			for _, q := range c.levels[:c.lvl()+1] {
				if _, ok := q.pend[e]; ok {
					n++
				}
			}
			if n > 1 || c.ordered(i, e) {
				continue
			}
			for s := range ss {
				if match(s) {
					l.seen[e] = true
					break
				}
			}
		}
	}
}

func (c *Conc) cellRead(x *Exec, st *State, k *Cell) {
	if c.anyPend() && c.concurrent(eff{kind: "cw", c: k}) {
		x.oblige(st, "race", False, token.NoPos, "variable "+k.name+" is read while a goroutine that writes it may be running")
	}
	c.effect(eff{kind: "cr", c: k})
}
func (c *Conc) cellWrite(x *Exec, st *State, k *Cell) {
	if c.anyPend() && (c.concurrent(eff{kind: "cw", c: k}) || c.concurrent(eff{kind: "cr", c: k})) {
		x.oblige(st, "race", False, token.NoPos, "variable "+k.name+" is written while a goroutine that uses it may be running")
	}
	c.effect(eff{kind: "cw", c: k})
}
func (c *Conc) heapAccess(x *Exec, st *State, names []string, r *Node, w bool) {
	if r == nil {
		return
	}
	if c.given[r] {
		x.oblige(st, "ownership", False, token.NoPos, "memory is used after it was given away")
	}
	if c.lvl() == 0 && !c.anyPend() {
		return
	}
	for _, n := range names {
		if len(c.held) == 0 {
			if c.concurrent(eff{kind: "hw", n: r, s: n}) || w && c.concurrent(eff{kind: "hr", n: r, s: n}) {
				x.oblige(st, "race", False, token.NoPos, "memory ("+n+") is used while a goroutine that changes it may be running")
			}
		}
		if len(c.held) > 0 {
			continue // protected by the lock discipline
		}
		if w {
			c.effect(eff{kind: "hw", n: r, s: n})
		} else {
			c.effect(eff{kind: "hr", n: r, s: n})
		}
	}
}

// ---- type specifications ----

type lockSpec struct {
	fields   []string
	inv      []*Clause
	assuming []*Clause
	relies   []*Clause // of a key whose flight this goroutine runs, between two of its critical sections
}

// flight: a singleflight call whose function this goroutine runs.
type flight struct {
	g    *PtrV
	key  *Node
	base *State // state at the last unlock since the flight began
}

type atomSpec struct {
	extra []string
}

// trackSpec: the effects of this goroutine on a tracked atomic pointer field.
type trackSpec struct {
	field, key string
	live       *Clause
}

type TypeSpec struct {
	name      string
	props     []string
	locks     map[string]*lockSpec
	immutable map[string]bool
	ghosts    map[string]string
	atomics   map[string]*atomSpec
	inv       []*Clause
	rely      []*Clause
	counts    []*Clause // label: the counter, expr: the steps it counts
	env       []*Clause // what other threads' steps preserve, beyond rely
	guar      []*Clause // what this thread's steps must respect, beyond rely
	track     *trackSpec
	wide      []string // components (type.field) that others may change whenever this lock is not held
	maps      string   // guarded map fields whose maps are immutable once published elsewhere
	mapok     []*Clause
	boxes     bool // the memory behind the tracked pointer is immutable once it can be reached
	last      string
}

func (ts *TypeSpec) clause(w, rest string) {
	split := func() (string, []string) {
		i := strings.Index(rest, ":")
		if i < 0 {
			return strings.TrimSpace(rest), nil
		}
		return strings.TrimSpace(rest[:i]), splitList(rest[i+1:])
	}
	switch w {
	case "prop":
		ts.props = splitList(rest)
	case "guarded":
		l, fs := split()
		ts.locks[l] = &lockSpec{fields: fs}
		ts.last = l
	case "lockinv":
		ls := ts.locks[ts.last]
		ls.inv = append(ls.inv, parseClause(rest, ts.props))
	case "assuming":
		ls := ts.locks[ts.last]
		ls.assuming = append(ls.assuming, parseClause(rest, ts.props))
	case "lockrely":
		ls := ts.locks[ts.last]
		ls.relies = append(ls.relies, parseClause(rest, ts.props))
	case "immutable":
		for _, f := range splitList(rest) {
			ts.immutable[f] = true
		}
	case "ghost":
		f := strings.Fields(rest)
		ts.ghosts[f[0]] = f[1]
	case "atomic":
		l, fs := split()
		ts.atomics[l] = &atomSpec{extra: fs}
	case "inv":
		ts.inv = append(ts.inv, parseClause(rest, ts.props))
	case "count":
		n, _ := split()
		ts.ghosts[n] = "Int"
		cl := parseClause(rest[strings.Index(rest, ":")+1:], ts.props)
		cl.label = n
		ts.counts = append(ts.counts, cl)
	case "env":
		ts.env = append(ts.env, parseClause(rest, ts.props))
	case "guar":
		ts.guar = append(ts.guar, parseClause(rest, ts.props))
	case "track": // track FIELD KEYGHOST: live predicate
		n, _ := split()
		f := strings.Fields(n)
		ts.track = &trackSpec{f[0], f[1], parseClause(rest[strings.Index(rest, ":")+1:], ts.props)}
	case "boxes":
		ts.boxes = true
	case "wide":
		ts.wide = splitList(rest)
	case "published": // published FIELD: what holds of a guarded map when it is changed
		n, _ := split()
		ts.maps = n
		ts.mapok = append(ts.mapok, parseClause(rest[strings.Index(rest, ":")+1:], ts.props))
	case "rely":
		ts.rely = append(ts.rely, parseClause(rest, ts.props))
	default:
		panic("type " + ts.name + ": unknown clause " + w)
	}
}

// isCount: a counter of this thread's own atomic steps.
func (ts *TypeSpec) isCount(g string) bool {
	for _, c := range ts.counts {
		if c.label == g {
			return true
		}
	}
	return false
}

func (x *Exec) typeSpec(root types.Type) *TypeSpec {
	if root == nil {
		return nil
	}
	return x.prog.typeSpecs[typeKey(root)]
}

func (x *Exec) selfEnv(st, pre *State, root types.Type, ref *Node) *Env {
	e := x.env(st)
	e.pre = pre
	e.vars["self"] = SVal{&PtrV{ref: ref, root: root}, types.NewPointer(root)}
	return e
}

func ghostComp(root types.Type, name string) string { return "F." + typeKey(root) + ".#" + name }

func pathField(root types.Type, path []int) string {
	if len(path) == 0 {
		return ""
	}
	return types.Unalias(root).Underlying().(*types.Struct).Field(path[0]).Name()
}

func lockKeyOf(p *PtrV) sig {
	ps := fmt.Sprint(p.path)
	if p.cell != nil {
		return sig{kind: 'l', c: p.cell, path: ps}
	}
	return sig{kind: 'l', n: p.ref, path: typeKey(p.root) + ps}
}

func (x *Exec) snapshot(st *State) *State {
	f := st.frames
	st.frames = nil
	n := st.clone()
	st.frames = f
	n.conc = newConc()
	n.conc.unordered = st.conc.unordered
	return n
}

func fieldType(root types.Type, name string) (types.Type, int) {
	s := types.Unalias(root).Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return s.Field(i).Type(), i
		}
	}
	unsup("type %s has no field %s", root, name)
	return nil, 0
}

// havocShared forgets the fields that other threads may have changed.
func (x *Exec) havocShared(st *State, root types.Type, ref *Node, fields []string) {
	q := x.quiet
	x.quiet = true
	defer func() { x.quiet = q }()
	for _, f := range fields {
		if strings.HasSuffix(f, "[*]") {
			continue
		}
		if ts := x.typeSpec(root); ts != nil && ts.ghosts[f] != "" {
			nm := ghostComp(root, f)
			srt := ts.ghosts[f]
			st.heap[nm] = Store(x.comp(st, nm, ArrSort("Int", srt)), ref, Fresh(f, srt))
			continue
		}
		if strings.HasPrefix(f, "chan ") {
			_, i := fieldType(root, f[5:])
			c := asNode(x.load(st, &PtrV{ref: ref, root: root, path: []int{i}}))
			x.havocChan(st, c)
			continue
		}
		t, i := fieldType(root, f)
		x.store(st, &PtrV{ref: ref, root: root, path: []int{i}}, x.havocVal(st, f, t))
	}
	for _, f := range fields {
		if !strings.HasSuffix(f, "[*]") {
			continue
		}
		t, i := fieldType(root, f[:len(f)-3])
		v := x.load(st, &PtrV{ref: ref, root: root, path: []int{i}})
		switch y := v.(type) {
		case *SliceV:
			for _, l := range leaves(y.elem) {
				nm := "E." + elemKey(y.elem) + "." + l.path
				c := x.comp(st, nm, ArrSort("Int", ArrSort("Int", l.sort)))
				st.heap[nm] = Store(c, y.ref, Fresh("shared", ArrSort("Int", l.sort)))
			}
		case *Node:
			mi := mapInfo(t)
			x.mapDom(st, mi, y)
			x.mapLen(st, mi, y)
			hv := func(nm, srt string) {
				c := x.comp(st, nm, ArrSort("Int", srt))
				n := Fresh("shared", srt)
				if srt == "Int" {
					SetInterval(n, new(big.Int), maxLen)
					st.assume(mk("<=", "Bool", IntC(0), n))
				}
				st.heap[nm] = Store(c, y, n)
			}
			hv(mi.dom, ArrSort(mi.ks, "Bool"))
			hv(mi.ln, "Int")
			for k, nm := range mi.val {
				hv(nm, ArrSort(mi.ks, mi.vs[k].sort))
			}
			x.mapLen(st, mi, y)
		}
	}
}

func (x *Exec) havocChan(st *State, c *Node) {
	for _, k := range []struct{ n, s string }{{"Ch.sent", "SeqAny"}, {"Ch.closed", "Bool"}} {
		nm := k.n
		cc := x.comp(st, nm, ArrSort("Int", k.s))
		st.heap[nm] = Store(cc, c, Fresh("chan", k.s))
	}
}

func (x *Exec) acquire(c *callCtx, mode int) {
	st := c.st
	p := x.resolve(st, c.args[0].(*PtrV))
	x.nonNil(st, p, c.pos)
	k := lockKeyOf(p)
	if st.conc.held[k] != 0 {
		x.oblige(st, "lock.deadlock", False, c.pos, "the lock is taken while this goroutine already holds it")
	}
	st.conc.held[k] = mode
	st.conc.heldLvl[k] = st.conc.lvl()
	if ts := x.typeSpec(p.root); ts != nil && p.cell == nil && !(x.con != nil && x.con.alone) {
		if ls := ts.locks[pathField(p.root, p.path)]; ls != nil {
			var gh []string
			for g := range ts.ghosts {
				if !ts.isCount(g) {
					gh = append(gh, g)
				}
			}
			sort.Strings(gh)
			x.havocWide(st, ts)
			x.havocShared(st, p.root, p.ref, append(append([]string(nil), ls.fields...), gh...))
			if ts.track == nil && len(ts.env) > 0 {
				for f := range ts.atomics {
					x.havocShared(st, p.root, p.ref, []string{f})
				}
				for _, cl := range ts.inv {
					st.assume(x.selfEnv(st, st, p.root, p.ref).bool(cl.expr))
				}
			}
			for _, cl := range append(append([]*Clause(nil), ls.assuming...), ls.inv...) {
				st.assume(x.selfEnv(st, st, p.root, p.ref).bool(cl.expr))
			}
			for _, cl := range ls.assuming {
				x.trusted["assumed of every state of "+ts.name+": "+cl.text] = true
			}
			for _, fl := range st.conc.flights {
				if fl.base == nil || fl.g.ref != p.ref || fl.g.cell != nil {
					continue
				}
				for _, cl := range ls.relies {
					e := x.selfEnv(st, fl.base, p.root, p.ref)
					e.vars["flightkey"] = lit(fl.key)
					st.assume(e.bool(cl.expr))
				}
			}
			st.conc.at = x.snapshot(st)
			st.conc.acq = st.conc.at
			st.conc.un = nil
		}
	}
	c.ret()
}

// havocWide: other threads may have changed the fields of objects behind a lock; memory that only this
// goroutine can reach is as it was.
func (x *Exec) havocWide(st *State, ts *TypeSpec) {
	for _, w := range ts.wide {
		i := strings.LastIndex(w, ".")
		t := x.prog.parseType(w[:i])
		_, fi := fieldType(t, w[i+1:])
		_, names, sorts := ptrComps(&PtrV{ref: IntC(1), root: t, path: []int{fi}})
		for k, nm := range names {
			old := x.comp(st, nm, ArrSort("Int", sorts[k]))
			n := Fresh("wide", ArrSort("Int", sorts[k]))
			r := BoundVar("r", "Int")
			own := []*Node{Le(x.init.top, r)}
			for q := range st.conc.pubd {
				own = append(own, Neq(r, q))
			}
			st.assume(Forall([]*Node{r}, Imp(And(own...), Eq(Select(n, r), Select(old, r))), []*Node{Select(n, r)}))
			st.heap[nm] = n
		}
	}
}

// subFresh lists the allocations of this path that occur in a value.
func subFresh(v Val, f func(n *Node)) {
	seen := map[*Node]bool{}
	var walk func(n *Node)
	walk = func(n *Node) {
		if n == nil || seen[n] {
			return
		}
		seen[n] = true
		if isFreshRef(n) {
			f(n)
			return
		}
		if n.op == "select" || n.op == "store" {
			return
		}
		for _, a := range n.args {
			walk(a)
		}
	}
	for _, n := range flatten(v) {
		walk(n)
	}
}

func (x *Exec) makePublic(st *State, v Val) {
	subFresh(v, func(n *Node) { st.conc.pubd[n] = true })
}

// private: memory made on this path that nobody else can reach.
func private(st *State, r *Node) bool { return isFreshRef(r) && !st.conc.pubd[r] }

func (x *Exec) ownGet(st *State, n string) *Node {
	srt := "Int"
	if n == "tokey" || n == "seenkey" {
		srt = "Any"
	}
	return Select(x.comp(st, "T."+n, ArrSort("Int", srt)), IntC(0))
}
func (x *Exec) ownSet(st *State, n string, v *Node) {
	srt := v.sort
	st.heap["T."+n] = Store(x.comp(st, "T."+n, ArrSort("Int", srt)), IntC(0), v)
}

// trackStep records what this goroutine saw in, and did to, a tracked pointer field.
func (x *Exec) trackStep(st, at *State, ts *TypeSpec, root types.Type, ref, old, new *Node, pos token.Pos) {
	nm := ghostComp(root, ts.track.key)
	key := Select(x.comp(st, nm, ArrSort("Int", ts.ghosts[ts.track.key])), ref)
	x.ownSet(st, "seen", old)
	x.ownSet(st, "seenkey", key)
	if old == new {
		return
	}
	lo, ln := x.selfEnv(at, at, root, ref).bool(ts.track.live.expr), x.selfEnv(st, st, root, ref).bool(ts.track.live.expr)
	x.trackEffect(st, ts, key, old, new, lo, ln)
	if x.mapHeld(st) == 0 && anyOf(ref, st.conc.fromGuard) {
		n := len(x.obls)
		x.oblige(st, "lock.detached", Not(ln), pos, "an object taken out of a guarded map is given a value after the lock was released")
		if len(x.obls) > n {
			x.obls[n].props = ts.props
		}
	}
}

func (x *Exec) trackEffect(st *State, ts *TypeSpec, key, old, new, lo, ln *Node) {
	eff := And(Neq(old, new), Or(lo, ln))
	x.ownSet(st, "steps", Add(x.ownGet(st, "steps"), Ite(eff, IntC(1), IntC(0))))
	x.ownSet(st, "from", Ite(eff, Ite(lo, old, IntC(0)), x.ownGet(st, "from")))
	x.ownSet(st, "to", Ite(eff, new, x.ownGet(st, "to")))
	x.ownSet(st, "tokey", Ite(eff, key, x.ownGet(st, "tokey")))
}

func anyOf(n *Node, set map[*Node]bool) bool {
	if len(set) == 0 {
		return false
	}
	seen := map[*Node]bool{}
	var walk func(n *Node) bool
	walk = func(n *Node) bool {
		if set[n] {
			return true
		}
		if seen[n] || n.op != "ite" {
			return false
		}
		seen[n] = true
		for _, a := range n.args {
			if walk(a) {
				return true
			}
		}
		return false
	}
	return walk(n)
}

// boxCheck: the memory behind a tracked pointer does not change once it can be reached.
func (x *Exec) boxCheck(st *State, p *PtrV, w bool) {
	if !w || p.idx != nil || p.cell != nil || private(st, p.ref) || x.con != nil && x.con.alone {
		return
	}
	it, ok := types.Unalias(p.root).Underlying().(*types.Interface)
	if !ok || it.NumMethods() > 0 {
		return
	}
	if globRefs[p.ref] != nil {
		return
	}
	for _, ts := range x.prog.typeSpecs {
		if ts.boxes && x.fn.Pkg != nil && strings.HasPrefix(ts.name, x.fn.Pkg.Pkg.Name()+".") {
			n := len(x.obls)
			x.oblige(st, "lock.box", False, token.NoPos, "a value that others can reach is overwritten in place")
			if len(x.obls) > n {
				x.obls[n].props = ts.props
			}
			return
		}
	}
}

// markGuarded: what is taken out of a guarded map may be detached by others after the lock is released.
func (x *Exec) markGuarded(st *State, t types.Type, m *Node, v Val) {
	if ts, _ := x.trackedElem(t); ts == nil {
		return
	}
	if _, ok := st.conc.elemOf[m]; !ok {
		return
	}
	for _, n := range flatten(v) {
		st.conc.fromGuard[n] = true
	}
}

// mapHeld: the mode in which a lock of a type with tracked maps is held.
func (x *Exec) mapHeld(st *State) int {
	for k, m := range st.conc.held {
		for key, ts := range x.prog.typeSpecs {
			if ts.maps != "" && strings.HasPrefix(k.path, key+"[") {
				return m
			}
		}
	}
	return 0
}

// trackedComp: the component holds a tracked field.
func (x *Exec) trackedComp(comp string) bool {
	for key, ts := range x.prog.typeSpecs {
		if ts.track != nil && strings.HasPrefix(comp, "F."+key+"."+ts.track.field) {
			return true
		}
	}
	return false
}

// trackedElem: the type specification of the objects that a map points to, if their pointers are tracked.
func (x *Exec) trackedElem(t types.Type) (*TypeSpec, types.Type) {
	if x.con != nil && x.con.alone {
		return nil, nil
	}
	m, ok := types.Unalias(t).Underlying().(*types.Map)
	if !ok {
		return nil, nil
	}
	p, ok := types.Unalias(m.Elem()).Underlying().(*types.Pointer)
	if !ok {
		return nil, nil
	}
	if ts := x.typeSpec(p.Elem()); ts != nil && ts.track != nil {
		return ts, p.Elem()
	}
	return nil, nil
}

// trackMapWrite: maps of tracked objects are changed before anybody can see them, or under the lock while
// they are not part of a published snapshot; a new object becomes reachable by its insertion.
func (x *Exec) trackMapWrite(st *State, t types.Type, m, k *Node, v Val, pos token.Pos) {
	ts, root := x.trackedElem(t)
	if ts == nil || x.quiet {
		return
	}
	bad := func(c *Node, why string) {
		n := len(x.obls)
		x.oblige(st, "lock.snapshot", c, pos, why)
		if len(x.obls) > n {
			x.obls[n].props = ts.props
		}
	}
	if g, ok := st.conc.elemOf[m]; ok && g.spec.maps == g.field {
		rt := x.prog.parseType(g.spec.name)
		for _, cl := range g.spec.mapok {
			bad(x.selfEnv(st, st, rt, g.ref).bool(cl.expr), "a map is changed that is part of a published snapshot: "+cl.text)
		}
	} else if !private(st, m) {
		bad(False, "a map is changed that other goroutines read")
	}
	if v == nil {
		return
	}
	p, ok := v.(*PtrV)
	if !ok {
		return
	}
	if p = x.resolve(st, p); p.cell != nil || !private(st, p.ref) {
		return
	}
	x.makePublic(st, p)
	gs := ts.ghosts[ts.track.key]
	nm := ghostComp(root, ts.track.key)
	st.heap[nm] = Store(x.comp(st, nm, ArrSort("Int", gs)), p.ref, k)
	_, fi := fieldType(root, ts.track.field)
	nv := asNode(x.aget(st, &PtrV{ref: p.ref, root: root, path: []int{fi}}))
	x.makePublic(st, nv)
	x.trackEffect(st, ts, k, IntC(0), nv, False, x.selfEnv(st, st, root, p.ref).bool(ts.track.live.expr))
}

func (x *Exec) release(c *callCtx, mode int) {
	st := c.st
	p := x.resolve(st, c.args[0].(*PtrV))
	k := lockKeyOf(p)
	if st.conc.held[k] != mode {
		x.oblige(st, "lock.unheld", False, c.pos, "a lock is released that is not held in this mode")
		st.dead = true
		return
	}
	if ts := x.typeSpec(p.root); ts != nil && p.cell == nil && !(x.con != nil && x.con.alone) {
		f := pathField(p.root, p.path)
		if ls := ts.locks[f]; ls != nil {
			if mode == 2 && x.con != nil {
				for _, cm := range x.con.commits {
					if srt, ok := ts.ghosts[cm.label]; ok {
						e := x.env(st)
						e.vars["self"] = SVal{&PtrV{ref: p.ref, root: p.root}, types.NewPointer(p.root)}
						nm := ghostComp(p.root, cm.label)
						st.heap[nm] = Store(x.comp(st, nm, ArrSort("Int", srt)), p.ref, e.node(cm.expr))
					}
				}
			}
			for i, cl := range ls.inv {
				n := len(x.obls)
				x.oblige(st, clauseLabel(cl, fmt.Sprintf("lockinv%d", i+1)), x.selfEnv(st, st, p.root, p.ref).bool(cl.expr), c.pos, "invariant of "+ts.name+" under "+f+" at release: "+cl.text)
				if len(x.obls) > n {
					x.obls[n].props = cl.props
				}
			}
			if mode == 2 && x.con != nil {
				for i, cl := range x.con.sections {
					n := len(x.obls)
					x.oblige(st, clauseLabel(cl, fmt.Sprintf("section%d", i+1)), x.envPost(st).bool(cl.expr), c.pos, "at the end of a critical section: "+cl.text)
					if len(x.obls) > n {
						x.obls[n].props = cl.props
					}
				}
			}
			st.conc.un = x.snapshot(st)
			for i := range st.conc.flights {
				st.conc.flights[i].base = st.conc.un
			}
		}
	}
	delete(st.conc.held, k)
	delete(st.conc.heldLvl, k)
	c.ret()
}

// guardCheck: guarded memory is only used under its lock, atomic fields only atomically, immutable fields are not written.
func (x *Exec) guardCheck(st *State, names []string, r *Node, w bool) {
	if len(x.prog.typeSpecs) == 0 || r == nil || x.con != nil && x.con.alone {
		return
	}
	bad := func(why string) {
		x.oblige(st, "lock.guard", False, token.NoPos, why)
	}
	for _, n := range names {
		if g, ok := st.conc.elemOf[r]; ok && !strings.HasPrefix(n, "F.") {
			x.needLock(st, g.spec, g.field+"[*]", g.ref, w, bad)
			continue
		}
		if !strings.HasPrefix(n, "F.") {
			continue
		}
		rest := n[2:]
		for key, ts := range x.prog.typeSpecs {
			if !strings.HasPrefix(rest, key+".") {
				continue
			}
			f := rest[len(key)+1:]
			if i := strings.Index(f, "."); i >= 0 {
				f = f[:i]
			}
			if strings.HasPrefix(f, "#") {
				continue
			}
			if private(st, r) {
				continue
			}
			if ts.immutable[f] && w {
				bad("field " + f + " of " + key + " is written after construction")
			}
			if ts.atomics[f] != nil {
				bad("atomic field " + f + " of " + key + " is accessed without an atomic operation")
			}
			x.needLock(st, ts, f, r, w, bad)
			if w { // what the field held before is detached: it belongs to this goroutine now
				for k, g := range st.conc.elemOf {
					if g.spec == ts && g.field == f && g.ref == r {
						delete(st.conc.elemOf, k)
					}
				}
			}
			if !w {
				for _, ls := range ts.locks {
					for _, g := range ls.fields {
						if g == f+"[*]" {
							srt := "Int"
							if strings.HasSuffix(n, "."+f+".ref") || strings.HasSuffix(n, "."+f+".") || strings.HasSuffix(n, "."+f) {
								node := Select(x.comp(st, n, ArrSort("Int", srt)), r)
								st.conc.elemOf[node] = elemGuard{ts, f, r}
							}
						}
					}
				}
			}
		}
	}
}

func (x *Exec) needLock(st *State, ts *TypeSpec, f string, ref *Node, w bool, bad func(string)) {
	for lk, ls := range ts.locks {
		for _, g := range ls.fields {
			if g != f {
				continue
			}
			mode := 0
			for k, m := range st.conc.held {
				if k.n == ref && strings.HasPrefix(k.path, ts.name+"[") {
					if pathFieldByKey(x, ts, k.path) == lk {
						mode = m
					}
				}
			}
			if mode == 0 {
				bad("guarded " + ts.name + "." + f + " is used without holding " + lk)
			} else if mode == 1 && w {
				bad("guarded " + ts.name + "." + f + " is written while " + lk + " is held only for reading")
			}
		}
	}
}

func pathFieldByKey(x *Exec, ts *TypeSpec, path string) string {
	t := x.prog.parseType(ts.name)
	var idx int
	fmt.Sscanf(path[len(ts.name):], "[%d", &idx)
	return types.Unalias(t).Underlying().(*types.Struct).Field(idx).Name()
}

// ---- atomics ----

func (x *Exec) atomicOp(c *callCtx, i int, f func(x *Exec, st *State, p *PtrV, fin func(x *Exec, st *State, p *PtrV, res ...Val))) {
	st := c.st
	p := x.resolve(st, c.args[i].(*PtrV))
	x.nonNil(st, p, c.pos)
	var ts *TypeSpec
	fld := pathField(p.root, p.path)
	if p.cell == nil && !private(st, p.ref) && !(x.con != nil && x.con.alone) {
		ts = x.typeSpec(p.root)
		if ts != nil && ts.atomics[fld] == nil {
			ts = nil
		}
		if ts != nil {
			before := x.snapshot(st)
			x.havocShared(st, p.root, p.ref, append([]string{fld}, ts.atomics[fld].extra...))
			for _, cl := range ts.rely {
				st.assume(x.selfEnv(st, before, p.root, p.ref).bool(cl.expr))
			}
			if ts.track != nil && fld == ts.track.field {
				v := asNode(x.aget(st, p)) // nobody else knows memory that is still private
				for _, r := range st.conc.allocs {
					if private(st, r) {
						st.assume(Neq(v, r))
					}
				}
			}
			for _, cl := range ts.env {
				st.assume(x.selfEnv(st, before, p.root, p.ref).bool(cl.expr))
			}
			for _, cl := range ts.inv {
				st.assume(x.selfEnv(st, before, p.root, p.ref).bool(cl.expr))
			}
			if x.con != nil {
				for _, cl := range x.con.holding {
					st.assume(x.env(st).bool(cl.expr))
					x.trusted["the caller of "+x.con.key+" holds what it releases: "+cl.text] = true
				}
			}
		} else {
			q := x.quiet
			x.quiet = true
			t, _, _ := subLeaves(p.root, p.path)
			x.store(st, p, x.havocVal(st, "shared", t))
			x.quiet = q
		}
	}
	at := x.snapshot(st)
	f(x, st, p, func(x *Exec, st *State, p *PtrV, res ...Val) {
		st.conc.at = at
		st.conc.un = x.snapshot(st)
		if ts != nil {
			if nv := x.aget(st, p); ts.track != nil || len(ts.guar) > 0 {
				ov := x.aget(at, p)
				if n, o := flatten(nv), flatten(ov); n[0] != o[0] {
					x.makePublic(st, nv)
				}
				if ts.track != nil && fld == ts.track.field {
					x.trackStep(st, at, ts, p.root, p.ref, asNode(ov), asNode(nv), c.pos)
				}
			}
			for i, cl := range ts.guar {
				n := len(x.obls)
				x.oblige(st, clauseLabel(cl, fmt.Sprintf("guar%d", i+1)), x.selfEnv(st, at, p.root, p.ref).bool(cl.expr), c.pos, "what other threads rely on: "+cl.text)
				if len(x.obls) > n {
					x.obls[n].props = cl.props
				}
			}
			for _, cl := range ts.counts {
				nm := ghostComp(p.root, cl.label)
				cc := x.comp(st, nm, ArrSort("Int", "Int"))
				hit := x.selfEnv(st, at, p.root, p.ref).bool(cl.expr)
				st.heap[nm] = Store(cc, p.ref, Add(Select(cc, p.ref), Ite(hit, IntC(1), IntC(0))))
			}
			for i, cl := range ts.rely {
				x.oblige(st, clauseLabel(cl, fmt.Sprintf("guarantee%d", i+1)), x.selfEnv(st, at, p.root, p.ref).bool(cl.expr), c.pos, "what other threads rely on: "+cl.text)
			}
			for i, cl := range ts.inv {
				x.oblige(st, clauseLabel(cl, fmt.Sprintf("inv%d", i+1)), x.selfEnv(st, at, p.root, p.ref).bool(cl.expr), c.pos, "invariant: "+cl.text)
			}
		}
		c2 := *c
		c2.st = st
		c2.ret(res...)
	})
}

func (x *Exec) quietly(f func()) {
	q := x.quiet
	x.quiet = true
	f()
	x.quiet = q
}

func (x *Exec) aget(st *State, p *PtrV) (v Val) {
	x.quietly(func() { v = x.load(st, p) })
	return
}
func (x *Exec) aset(st *State, p *PtrV, v Val) { x.quietly(func() { x.store(st, p, v) }) }

func aval(v Val) *Node {
	if s, ok := v.(*StructV); ok {
		return s.f[0].(*Node)
	}
	return v.(*Node)
}

func initAtomics(I map[string]func(c *callCtx)) {
	cas := func(c *callCtx) {
		x := c.x
		x.atomicOp(c, 0, func(x *Exec, st *State, p *PtrV, fin func(x *Exec, st *State, p *PtrV, res ...Val)) {
			cur := asNode(x.aget(st, p))
			x.branch(st, Eq(cur, c.node(1)), func(x *Exec, st *State, ok bool) {
				if ok {
					x.aset(st, p, c.args[2])
				}
				fin(x, st, p, BoolC(ok))
			})
		})
	}
	ld := func(c *callCtx) {
		c.x.atomicOp(c, 0, func(x *Exec, st *State, p *PtrV, fin func(x *Exec, st *State, p *PtrV, res ...Val)) {
			fin(x, st, p, x.aget(st, p))
		})
	}
	sto := func(c *callCtx) {
		c.x.atomicOp(c, 0, func(x *Exec, st *State, p *PtrV, fin func(x *Exec, st *State, p *PtrV, res ...Val)) {
			x.aset(st, p, c.args[1])
			fin(x, st, p)
		})
	}
	swp := func(c *callCtx) {
		c.x.atomicOp(c, 0, func(x *Exec, st *State, p *PtrV, fin func(x *Exec, st *State, p *PtrV, res ...Val)) {
			cur := x.aget(st, p)
			x.aset(st, p, c.args[1])
			fin(x, st, p, cur)
		})
	}
	for _, t := range []string{"Uint32", "Int32", "Int64", "Uint64", "Pointer", "Uintptr"} {
		t := t
		I["sync/atomic.CompareAndSwap"+t] = cas
		I["sync/atomic.Load"+t] = ld
		I["sync/atomic.Store"+t] = sto
		I["sync/atomic.Swap"+t] = swp
		if t == "Pointer" {
			continue
		}
		I["sync/atomic.Add"+t] = func(c *callCtx) {
			c.x.atomicOp(c, 0, func(x *Exec, st *State, p *PtrV, fin func(x *Exec, st *State, p *PtrV, res ...Val)) {
				cur := asNode(x.aget(st, p))
				var nv *Node
				if cur.sort == "Int" {
					bits := 64
					if strings.HasSuffix(t, "32") {
						bits = 32
					}
					nv = x.wrap(st, Add(cur, c.node(1)), bits, t[0] == 'I')
				} else {
					nv = mk("bvadd", cur.sort, cur, c.node(1))
				}
				x.aset(st, p, nv)
				fin(x, st, p, nv)
			})
		}
	}
	V := "sync/atomic.(*Value)."
	opq := func(st *State, x *Exec, p *PtrV, v *Node) {
		t, _, _ := subLeaves(p.root, p.path)
		x.aset(st, p, &StructV{t: t, f: []Val{v}})
	}
	I[V+"Load"] = func(c *callCtx) {
		c.x.atomicOp(c, 0, func(x *Exec, st *State, p *PtrV, fin func(x *Exec, st *State, p *PtrV, res ...Val)) {
			fin(x, st, p, aval(x.aget(st, p)))
		})
	}
	consistent := func(c *callCtx, x *Exec, st *State, cur, v *Node) {
		x.check(st, "atomicvalue", Neq(v, NilAny), c.pos)
		x.check(st, "atomicvalue", Or(Eq(cur, NilAny), Eq(tagNode(cur), tagNode(v))), c.pos)
	}
	I[V+"Store"] = func(c *callCtx) {
		c.x.atomicOp(c, 0, func(x *Exec, st *State, p *PtrV, fin func(x *Exec, st *State, p *PtrV, res ...Val)) {
			consistent(c, x, st, aval(x.aget(st, p)), c.node(1))
			opq(st, x, p, c.node(1))
			fin(x, st, p)
		})
	}
	I[V+"Swap"] = func(c *callCtx) {
		c.x.atomicOp(c, 0, func(x *Exec, st *State, p *PtrV, fin func(x *Exec, st *State, p *PtrV, res ...Val)) {
			cur := aval(x.aget(st, p))
			consistent(c, x, st, cur, c.node(1))
			opq(st, x, p, c.node(1))
			fin(x, st, p, cur)
		})
	}
	I[V+"CompareAndSwap"] = func(c *callCtx) {
		c.x.atomicOp(c, 0, func(x *Exec, st *State, p *PtrV, fin func(x *Exec, st *State, p *PtrV, res ...Val)) {
			cur := aval(x.aget(st, p))
			consistent(c, x, st, cur, c.node(2))
			x.check(st, "atomicvalue", Or(Eq(c.node(1), NilAny), Eq(tagNode(c.node(1)), tagNode(c.node(2)))), c.pos)
			x.branch(st, Eq(cur, c.node(1)), func(x *Exec, st *State, ok bool) {
				if ok {
					opq(st, x, p, c.node(2))
				}
				fin(x, st, p, BoolC(ok))
			})
		})
	}
	I["runtime.Gosched"] = func(c *callCtx) { c.ret() }
}

func tagNode(a *Node) *Node { return App("tag", "Int", a) }

// ---- channels ----

func isSem(t types.Type) bool {
	ch, ok := types.Unalias(t).Underlying().(*types.Chan)
	if !ok {
		return false
	}
	s, ok := types.Unalias(ch.Elem()).Underlying().(*types.Struct)
	return ok && s.NumFields() == 0
}

func isDoneCh(c *Node) bool { return c.op == "f:donech" }

func (x *Exec) chGet(st *State, f, srt string, c *Node) *Node {
	n := Select(x.comp(st, "Ch."+f, ArrSort("Int", srt)), c)
	if srt == "Int" && n.iv == nil && f != "tok" {
		if _, ok := ivals[n]; !ok {
			SetInterval(n, new(big.Int), two62)
		}
		st.assume(mk("<=", "Bool", IntC(0), n))
		st.assume(mk("<=", "Bool", n, IntB(two62)))
	}
	return n
}
func (x *Exec) chSet(st *State, f, srt string, c, v *Node) {
	st.heap["Ch."+f] = Store(x.comp(st, "Ch."+f, ArrSort("Int", srt)), c, v)
}

func (x *Exec) chCap(st *State, c *Node) *Node { return x.chGet(st, "cap", "Int", c) }

func (x *Exec) chLen(st *State, c *Node, t types.Type) *Node {
	pub, own := st.conc.cur().owned[c]
	if !isFreshRef(c) && !own {
		return nil
	}
	if isSem(t) {
		return x.chGet(st, "tok", "Int", c)
	}
	if pub {
		return nil // others may receive from it
	}
	s := x.chGet(st, "sent", "SeqAny", c)
	r := x.chGet(st, "recv", "Int", c)
	return Sub(Slen(s), r)
}

func (x *Exec) makeChan(st *State, t types.Type, n *Node, p token.Pos) Val {
	x.check(st, "makechan", Le(IntC(0), n), p)
	r := st.alloc()
	x.chSet(st, "sent", "SeqAny", r, EmptySeq("SeqAny"))
	x.chSet(st, "recv", "Int", r, IntC(0))
	x.chSet(st, "closed", "Bool", r, False)
	x.chSet(st, "cap", "Int", r, n)
	x.chSet(st, "tok", "Int", r, IntC(0))
	x.chSet(st, "blocks", "SeqAny", r, EmptySeq("SeqAny"))
	st.conc.cur().owned[r] = false
	st.conc.locals = append(st.conc.locals, r)
	return r
}

func (x *Exec) blocking(st *State, what string, pos token.Pos) {
	x.blockingUnless(st, what, False, pos)
}

func (x *Exec) blockingUnless(st *State, what string, ready *Node, pos token.Pos) {
	if x.con != nil && x.con.noBlock != nil && st.conc.lvl() == 0 {
		n := len(x.obls)
		x.oblige(st, clauseLabel(x.con.noBlock, "noblock"), ready, pos, what+" does not block")
		if len(x.obls) > n {
			x.obls[n].props = x.con.noBlock.props
		}
	}
	if x.con != nil && x.con.waits != "" && st.conc.lvl() == 0 {
		x.oblige(st, "waits", False, pos, what+" does not also wait for "+x.con.waits)
	}
}

// semBase: tokens of the semaphore held when the function started.
func (x *Exec) semBase(c *Node) *Node {
	if isFreshRef(c) {
		return IntC(0)
	}
	return Select(x.initComp("Ch.tok", ArrSort("Int", "Int")), c)
}

func (x *Exec) send(st *State, c *Node, t types.Type, v Val, p token.Pos) {
	ready := False
	if !isSem(t) {
		ready = Lt(Slen(x.chGet(st, "sent", "SeqAny", c)), x.chCap(st, c))
	}
	x.blockingUnless(st, "the send", ready, p)
	x.sendNow(st, c, t, v, p)
}

func (x *Exec) sendNow(st *State, c *Node, t types.Type, v Val, p token.Pos) {
	if isSem(t) {
		x.preSend(st, c, p)
		tok := x.chGet(st, "tok", "Int", c)
		if isFreshRef(c) && !st.conc.cur().owned[c] {
			x.oblige(st, "stuck.send", Lt(tok, x.chCap(st, c)), p, "the semaphore can be acquired")
		}
		if isFreshRef(c) && st.conc.anyPend() && x.entails(st, Eq(Add(tok, IntC(1)), x.chCap(st, c))) {
			// all slots but this one are taken: every slot given back so far was given back before
			st.conc.join(func(s sig) bool { return s.kind == 'r' && s.n == c })
		}
		x.chSet(st, "tok", "Int", c, Add(tok, IntC(1)))
		st.conc.sems[c] = true
		st.conc.effect(eff{kind: "acq", n: c})
		st.conc.signal(sig{kind: 'c', n: c})
		return
	}
	el := types.Unalias(t).Underlying().(*types.Chan).Elem()
	b := x.box(st, el, v)
	x.giveAway(st, b)
	s := x.chGet(st, "sent", "SeqAny", c)
	x.sendCommon(st, c, Sbuild(s, b), p)
	x.publish(st, c)
}

func (x *Exec) preSend(st *State, c *Node, p token.Pos) {
	if !isFreshRef(c) {
		x.check(st, "nilchan", Neq(c, IntC(0)), p)
	}
	x.check(st, "sendclosed", Not(x.chGet(st, "closed", "Bool", c)), p)
	if st.conc.concurrent(eff{kind: "close", n: c}) {
		x.oblige(st, "race", False, p, "a send that may come after a concurrent close")
	}
}

func (x *Exec) sendCommon(st *State, c, ns *Node, p token.Pos) {
	x.preSend(st, c, p)
	e := eff{kind: "send", n: c}
	if st.conc.concurrent(e) {
		st.conc.unordered[c] = true
	}
	lv := st.conc.cur()
	if pub, own := lv.owned[c]; own && !pub {
		// nobody else knows this channel yet: the send must not block
		r := x.chGet(st, "recv", "Int", c)
		x.oblige(st, "stuck.send", Le(Sub(Slen(ns), r), x.chCap(st, c)), p, "a send on a channel that no other goroutine can receive from yet must have room")
	}
	x.chSet(st, "sent", "SeqAny", c, ns)
	lv.sends[c] = true
	if st.conc.lvl() == 0 {
		st.conc.mixed[c] = true
	}
	st.conc.effect(e)
	st.conc.signal(sig{kind: 'c', n: c})
}

// entails asks the solver whether the path condition implies n.
func (x *Exec) entails(st *State, n *Node) bool {
	if v, ok := st.known(n); ok {
		return v
	}
	q := buildQueryLocked(st.pc, n)
	if r, ok := entailMemo.Load(q); ok {
		return r.(bool)
	}
	r := proveText(q, 3*time.Second, false).status == "unsat"
	entailMemo.Store(q, r)
	return r
}

var entailMemo sync.Map

// envPost: an environment in which the logs of concurrent processes have an unknown order.
func (x *Exec) envPost(st *State) *Env {
	e := x.env(st)
	e.shuf = true
	return e
}

// publish: channels made by this process may be known to others once it has sent something.
func (x *Exec) publish(st *State, c *Node) {
	lv := st.conc.cur()
	for k := range lv.owned {
		if k != c {
			lv.owned[k] = true
		}
	}
}

// giveAway: memory reachable from a value that is sent belongs to the receiver.
func (x *Exec) giveAway(st *State, b *Node) {
	if !strings.HasPrefix(b.op, "f:box.") {
		return
	}
	t, ok := boxGoType[b.op[len("f:box."):]]
	if !ok {
		return
	}
	v, _ := unflatten(t, b.args)
	if s, ok := v.(*SliceV); ok && s.ref.iv == nil {
		st.conc.given[s.ref] = true
	}
}

func (x *Exec) sendSeq(st *State, c *Node, s *Node, p token.Pos) {
	cur := x.chGet(st, "sent", "SeqAny", c)
	// a callback blocks until its sends are received
	st.conc.cur().owned[c] = true
	x.sendCommon(st, c, Scat(cur, s), p)
}

func (x *Exec) closeChan(st *State, c *Node, p token.Pos) {
	if !isFreshRef(c) {
		x.check(st, "nilchan", Neq(c, IntC(0)), p)
	}
	if x.con != nil {
		for _, cl := range x.con.atClose {
			n := len(x.obls)
			x.oblige(st, clauseLabel(cl, "atclose"), x.envPost(st).bool(cl.expr), p, "when a channel is closed: "+cl.text)
			if len(x.obls) > n {
				x.obls[n].props = cl.props
			}
		}
	}
	x.check(st, "doubleclose", Not(x.chGet(st, "closed", "Bool", c)), p)
	if st.conc.concurrent(eff{kind: "send", n: c}) {
		x.oblige(st, "closerace", False, p, "the channel is closed while a goroutine that sends on it may be running")
	}
	if st.conc.concurrent(eff{kind: "close", n: c}) {
		x.oblige(st, "closerace", False, p, "the channel may be closed twice")
	}
	x.chSet(st, "closed", "Bool", c, True)
	st.conc.effect(eff{kind: "close", n: c})
	st.conc.signal(sig{kind: 'c', n: c})
}

func (x *Exec) chVal(st *State, el types.Type, a *Node) Val {
	if isInterface(el) {
		return a
	}
	return x.unbox(st, el, a)
}

func (x *Exec) joinCh(st *State, c *Node) {
	st.conc.join(func(s sig) bool { return s.kind == 'c' && s.n == c })
}

// recv: k receives the value and the ok flag.
func (x *Exec) recv(st *State, c *Node, t types.Type, ok bool, p token.Pos, k func(x *Exec, s *State, v Val, ok *Node)) {
	if !(isDoneCh(c) && x.con != nil && x.con.waits != "") {
		x.blocking(st, "the receive", p)
	}
	x.recvNow(st, c, t, p, k)
}

func (x *Exec) recvNow(st *State, c *Node, t types.Type, p token.Pos, k func(x *Exec, s *State, v Val, ok *Node)) {
	el := types.Unalias(t).Underlying().(*types.Chan).Elem()
	if isDoneCh(c) {
		ctx := c.args[0]
		if x.isLive(ctx) {
			x.oblige(st, "stuck.recv", x.doneOf(st, ctx), p, "waits for a context that is never done")
			st.assume(x.doneOf(st, ctx))
			if st.dead {
				return
			}
		}
		x.setDone(st, ctx, True)
		k(x, st, zeroVal(el), False)
		return
	}
	if !isFreshRef(c) {
		x.check(st, "nilchan", Neq(c, IntC(0)), p)
	}
	if isSem(t) {
		closed := x.chGet(st, "closed", "Bool", c)
		tok := x.chGet(st, "tok", "Int", c)
		x.branch(st, And(closed, Le(tok, x.semBase(c))), func(x *Exec, st *State, cl bool) {
			if cl {
				x.joinCh(st, c)
				k(x, st, zeroVal(el), False)
				return
			}
			x.oblige(st, "stuck.recv", Lt(x.semBase(c), tok), p, "a slot is given back only when one is held")
			for _, lv := range st.conc.levels {
				for e := range lv.pend {
					if e.kind == "slot" {
						x.oblige(st, "slots", False, p, "a slot is given back while the call it covers may be running")
					}
				}
			}
			for e := range st.conc.cur().own {
				if e.kind == "slot" {
					delete(st.conc.cur().own, e)
				}
			}
			x.chSet(st, "tok", "Int", c, Sub(tok, IntC(1)))
			if v, kn := st.known(Eq(tok, Add(x.semBase(c), IntC(1)))); kn && v {
				x.joinCh(st, c)
			}
			st.conc.signal(sig{kind: 'r', n: c})
			k(x, st, zeroVal(el), True)
		})
		return
	}
	r := x.chGet(st, "recv", "Int", c)
	e := eff{kind: "recv", n: c}
	if st.conc.concurrent(e) {
		x.oblige(st, "race", False, p, "two goroutines receive from the same channel")
	}
	if !isFreshRef(c) {
		need := false
		for _, l := range st.conc.levels {
			for e := range l.pend {
				if e.kind != "recv" || e.n == c || e.n != nil && isFreshRef(e.n) {
					continue
				}
				if e.n == nil || st.conc.lvl() > 0 {
					need = true
				} else {
					x.oblige(st, "race", Neq(c, e.n), p, "two goroutines receive from the same channel")
				}
			}
		}
		if need {
			a := x.comp(st, "Ch.recv", ArrSort("Int", "Int"))
			if st.conc.lvl() > 0 {
				a = st.conc.cur().start["recv"]
			}
			x.oblige(st, "race", Eq(Select(a, c), IntC(0)), p, "another goroutine may have received elements of the same channel")
		}
	}
	st.conc.effect(e)
	if isFreshRef(c) {
		s := x.chGet(st, "sent", "SeqAny", c)
		x.branch(st, Lt(r, Slen(s)), func(x *Exec, st *State, has bool) {
			if has {
				x.chSet(st, "recv", "Int", c, Add(r, IntC(1)))
				// the element received is the last one sent: everything before any send is ordered
				if v, kn := st.known(Le(Slen(s), Add(r, IntC(1)))); kn && v {
					x.joinCh(st, c)
				}
				k(x, st, x.chVal(st, el, Sidx(s, r)), True)
				return
			}
			x.oblige(st, "stuck.recv", x.chGet(st, "closed", "Bool", c), p, "the receive can proceed")
			x.joinCh(st, c)
			k(x, st, zeroVal(el), False)
		})
		return
	}
	in := App("input", "SeqAny", c)
	for _, l := range st.conc.locals {
		if v, kn := st.known(Neq(c, l)); !(kn && v) && !knownBelow(c, l) {
			unsup("receive from a channel that may be local or not: %s vs %s", c, l)
		}
	}
	st.assume(Le(Slen(in), IntB(two62)))
	x.branch(st, Lt(r, Slen(in)), func(x *Exec, st *State, has bool) {
		if has {
			x.chSet(st, "recv", "Int", c, Add(r, IntC(1)))
			k(x, st, x.chVal(st, el, Sidx(in, r)), True)
			return
		}
		k(x, st, zeroVal(el), False)
	})
}

// ---- contexts ----

func (x *Exec) isLive(ctx *Node) bool { return x.liveCtx[ctx] }

func (x *Exec) doneOf(st *State, ctx *Node) *Node {
	return Select(x.comp(st, "Ctx.done", ArrSort("Any", "Bool")), ctx)
}
func (x *Exec) setDone(st *State, ctx, v *Node) {
	st.heap["Ctx.done"] = Store(x.comp(st, "Ctx.done", ArrSort("Any", "Bool")), ctx, v)
}

// pollDone: a context may become done at any time, and stays done.
func (x *Exec) pollDone(st *State, ctx *Node) *Node {
	if x.isLive(ctx) {
		return x.doneOf(st, ctx) // only done after this function's own cancel
	}
	d := x.doneOf(st, ctx)
	if v, ok := st.known(d); ok && v {
		return True
	}
	n := Fresh("done", "Bool")
	st.assume(Imp(d, n))
	x.setDone(st, ctx, n)
	return n
}

func (x *Exec) selectInstr(st *State, f *Frame, i *ssa.Select) {
	type opt struct {
		cond *Node
		do   func(x *Exec, st *State, k func(x *Exec, s *State, v Val, ok *Node))
		st   *ssa.SelectState
		ext  bool
	}
	hasDone := false
	var opts []opt
	for _, s := range i.States {
		s := s
		c := x.node(st, s.Chan)
		if s.Dir == types.SendOnly {
			v := x.val(st, s.Send)
			o := opt{cond: True, st: s, ext: true}
			o.do = func(x *Exec, st *State, k func(x *Exec, s *State, v Val, ok *Node)) {
				x.sendNow(st, c, s.Chan.Type(), v, i.Pos())
				k(x, st, nil, False)
			}
			if pub, own := st.conc.cur().owned[c]; own && !pub || isFreshRef(c) && isSem(s.Chan.Type()) {
				l := x.chLen(st, c, s.Chan.Type())
				o.cond, o.ext = Lt(l, x.chCap(st, c)), false
			}
			opts = append(opts, o)
			continue
		}
		o := opt{cond: True, st: s}
		o.do = func(x *Exec, st *State, k func(x *Exec, s *State, v Val, ok *Node)) {
			x.recvNow(st, c, s.Chan.Type(), i.Pos(), k)
		}
		switch {
		case isDoneCh(c):
			hasDone = true
			o.cond = x.pollDone(st, c.args[0])
		case isFreshRef(c):
			o.cond = Or(Lt(IntC(0), x.chLen(st, c, s.Chan.Type())), x.chGet(st, "closed", "Bool", c))
		default:
			o.ext = true
		}
		opts = append(opts, o)
	}
	if i.Blocking && !hasDone {
		x.blocking(st, "the select", i.Pos())
	}
	if i.Blocking {
		var cs []*Node
		for _, o := range opts {
			cs = append(cs, o.cond)
		}
		x.oblige(st, "stuck.select", Or(cs...), i.Pos(), "some case of the select can proceed")
	}
	finish := func(idx int) func(x *Exec, s *State, v Val, ok *Node) {
		return func(x *Exec, s *State, v Val, ok *Node) {
			tv := TupleV{IntC(int64(idx)), ok}
			for j, o := range opts {
				if o.st.Dir != types.RecvOnly {
					continue
				}
				if j == idx {
					tv = append(tv, v)
				} else {
					tv = append(tv, zeroVal(types.Unalias(o.st.Chan.Type()).Underlying().(*types.Chan).Elem()))
				}
			}
			s.top_().regs[i] = tv
		}
	}
	// the default case
	if !i.Blocking {
		var no []*Node
		for _, o := range opts {
			// what a goroutine that may still be running has sent may not be there yet
			late := false
			if c, isN := x.val(st, o.st.Chan).(*Node); isN && isFreshRef(c) {
				late = st.conc.concurrent(eff{kind: "send", n: c}) || st.conc.concurrent(eff{kind: "close", n: c}) || st.conc.concurrent(eff{kind: "acq", n: c})
			}
			if !o.ext && !late {
				no = append(no, Not(o.cond))
			}
		}
		g := And(no...)
		if g != False {
			if v, ok := st.known(g); !(ok && !v) {
				o := x.fork(st)
				x.work = x.work[:len(x.work)-1]
				o.assume(g)
				if !o.dead {
					finish(-1)(x, o, nil, False)
					x.work = append(x.work, o)
				}
			}
		}
	}
	for j, o := range opts {
		if v, ok := st.known(o.cond); o.cond == False || ok && !v {
			continue
		}
		s := x.fork(st)
		x.work = x.work[:len(x.work)-1]
		s.assume(o.cond)
		if s.dead {
			continue
		}
		n := len(x.work)
		o.do(x, s, finish(j))
		_ = n
		if !s.dead {
			x.work = append(x.work, s)
		}
	}
	st.dead = true
}

// ---- goroutines ----

func (x *Exec) spawn(st *State, f Val, a []Val, cc *ssa.CallCommon, p token.Pos) {
	c, ok := f.(*ClosV)
	if !ok {
		if n, isN := f.(*Node); isN {
			c, ok = closTable[n], closTable[n] != nil
		}
	}
	lv := newLevel()
	for _, k := range []string{"sent", "blocks"} {
		lv.start[k] = x.comp(st, "Ch."+k, ArrSort("Int", "SeqAny"))
	}
	lv.start["recv"] = x.comp(st, "Ch.recv", ArrSort("Int", "Int"))
	st.conc.levels = append(st.conc.levels, lv)
	if !ok {
		n, isN := f.(*Node)
		if !isN || cc == nil {
			unsup("go with %T", f)
		}
		x.callback(st, n, a, cc.Signature(), p, func(x *Exec, st *State, res []Val) { x.procEnd(st, nil) })
		return
	}
	if len(c.fn.Blocks) == 0 || c.fn.Pkg != nil && !x.prog.isRepo(c.fn.Pkg.Pkg.Path()) {
		unsup("go %s", c.fn)
	}
	fr := x.pushCall(st, c.fn, a, c.binds, nil)
	fr.proc = &Proc{name: c.fn.Name()}
	fr.onRet = func(x *Exec, st *State, res []Val) {}
	x.trusted["goroutines are executed where they are started; obligations exclude programs for which another interleaving differs"] = true
}

func (x *Exec) procEnd(st *State, p *Proc) {
	c := st.conc
	lv := c.cur()
	d := c.lvl()
	for k := range c.held {
		if c.heldLvl[k] >= d {
			x.oblige(st, "lock.leak", False, token.NoPos, "a goroutine ends holding a lock")
		}
	}
	for _, k := range sortedNodes(lv.sends) {
		if !isFreshRef(k) {
			continue
		}
		b := x.chGet(st, "blocks", "SeqAny", k)
		if Select(lv.start["blocks"], k) != b {
			c.mixed[k] = true
		}
		x.chSet(st, "blocks", "SeqAny", k, Sbuild(b, App("boxseq", "Any", Sdrop(x.chGet(st, "sent", "SeqAny", k), Slen(Select(lv.start["sent"], k))))))
	}
	var ks []sig
	for k := range lv.wg {
		if c.adds[k][d] {
			ks = append(ks, k)
		}
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].String() < ks[j].String() })
	for _, k := range ks {
		x.oblige(st, "waitgroup", Le(x.wgCount(st, k), lv.wg[k]), token.NoPos, "what a goroutine adds to a wait group it counts down itself (otherwise Wait may return too early)")
	}
	c.levels = c.levels[:d]
	par := c.cur()
	add := func(m map[eff]sigset) {
		for e, s0 := range m {
			s := sigset{}
			for k := range s0 {
				if k.kind != 'w' || k.lvl < d {
					s[k] = true
				}
			}
			delete(par.seen, e)
			if t, ok := par.pend[e]; ok {
				s, _ = meet(t, s)
			}
			par.pend[e] = s
		}
	}
	add(lv.own)
	add(lv.pend)
	for _, v := range c.adds {
		for l := range v {
			if l >= d {
				delete(v, l)
			}
		}
	}
	for k := range lv.owned {
		par.owned[k] = true
	}
}

func (x *Exec) callbackPre(st *State, f *Node, args []Val, sig *types.Signature, p token.Pos) {
	if x.con == nil {
		return
	}
	for _, c := range x.con.atCall {
		v, ok := x.specVars[c.callee]
		if !ok {
			unsup("atcall: unknown %s", c.callee)
		}
		if n, isN := v.v.(*Node); !isN || n != f {
			continue
		}
		n := len(x.obls)
		ev := x.envPost(st)
		for i := 0; i < sig.Params().Len() && i < len(args); i++ {
			ev.vars[fmt.Sprintf("arg%d", i)] = SVal{args[i], sig.Params().At(i).Type()}
		}
		x.oblige(st, clauseLabel(c, "atcall"), ev.bool(c.expr), p, "when "+c.callee+" is called: "+c.text)
		if len(x.obls) > n {
			x.obls[n].props = c.props
		}
	}
	if st.conc.concurrent(eff{kind: "cb", n: f}) {
		st.conc.unordered[f] = true
	}
	st.conc.effect(eff{kind: "cb", n: f})
	for _, s := range x.con.slots {
		v, ok := x.specVars[s.text]
		if !ok {
			unsup("slots: unknown %s", s.text)
		}
		if n, isN := v.v.(*Node); !isN || n != f {
			continue
		}
		bound := x.env(x.init).node(s.expr)
		var alts []*Node
		for _, c := range sortedNodes(st.conc.sems) {
			tok := x.chGet(st, "tok", "Int", c)
			alts = append(alts, And(Lt(x.semBase(c), tok), Le(x.chCap(st, c), bound)))
		}
		n := len(x.obls)
		x.oblige(st, clauseLabel(s, "slots"), Or(alts...), p, "the call holds one of at most "+show(bound)+" slots")
		if len(x.obls) > n {
			x.obls[n].props = s.props
		}
		st.conc.effect(eff{kind: "slot", n: f})
	}
}
func (x *Exec) callbackPost(st *State, f *Node, p token.Pos) {}

func sortedNodes(m map[*Node]bool) []*Node {
	var r []*Node
	for n := range m {
		r = append(r, n)
	}
	sort.Slice(r, func(i, j int) bool { return r[i].id < r[j].id })
	return r
}

// writerChan: a *WriteBarrier handed to a callback is an output channel.
func (x *Exec) writerChan(st *State, n *Node) *Node {
	if !strings.HasPrefix(n.op, "f:box.") {
		return nil
	}
	t, ok := boxGoType[n.op[len("f:box."):]]
	if !ok || typeKey(t) != "*xbarrier.WriteBarrier" {
		return nil
	}
	v, _ := unflatten(t, n.args)
	p := v.(*PtrV)
	st2, i := fieldType(p.root, "writeChannel")
	_ = st2
	c := asNode(x.loadQuiet(st, &PtrV{ref: p.ref, root: p.root, path: []int{i}}))
	return c
}

// wait groups

func wgKey(p *PtrV) sig {
	k := lockKeyOf(p)
	k.kind = 'w'
	return k
}

var wgPtr = map[sig]*PtrV{}

func (x *Exec) wgCount(st *State, k sig) *Node { return x.aget(st, wgPtr[k]).(*StructV).f[0].(*Node) }

func (s sig) String() string {
	r := fmt.Sprint(s.kind, s.path, s.lvl)
	if s.c != nil {
		r += "/" + s.c.name
	}
	if s.n != nil {
		r += fmt.Sprint("/", s.n.id)
	}
	return r
}

func initConcIntrinsics(I map[string]func(c *callCtx)) {
	for _, m := range []string{"Mutex", "RWMutex"} {
		I["sync.(*"+m+").Lock"] = func(c *callCtx) { c.x.acquire(c, 2) }
		I["sync.(*"+m+").Unlock"] = func(c *callCtx) { c.x.release(c, 2) }
	}
	I["sync.(*RWMutex).RLock"] = func(c *callCtx) { c.x.acquire(c, 1) }
	I["sync.(*RWMutex).RUnlock"] = func(c *callCtx) { c.x.release(c, 1) }
	W := "sync.(*WaitGroup)."
	wadd := func(c *callCtx, n *Node, done bool) {
		x, st := c.x, c.st
		p := x.resolve(st, c.args[0].(*PtrV))
		x.nonNil(st, p, c.pos)
		cur := x.aget(st, p).(*StructV)
		n0 := cur.f[0].(*Node)
		nn := Add(n0, n)
		x.oblige(st, "waitgroup", Le(IntC(0), nn), c.pos, "the wait group counter stays non-negative")
		x.aset(st, p, &StructV{t: cur.t, f: []Val{nn}})
		k := wgKey(p)
		d := st.conc.lvl()
		for i := 1; i <= d; i++ {
			if _, ok := st.conc.levels[i].wg[k]; !ok {
				st.conc.levels[i].wg[k] = n0
			}
		}
		wgPtr[k] = p
		if !done && d > 0 {
			x.oblige(st, "waitgroup", Le(st.conc.levels[d].wg[k], n0), c.pos, "a goroutine counts a wait group down only after what it adds")
		}
		if !done {
			if st.conc.adds[k] == nil {
				st.conc.adds[k] = map[int]bool{}
			}
			st.conc.adds[k][d] = true
			return
		}
		l := -1
		for a := range st.conc.adds[k] {
			if a <= d && a > l {
				l = a
			}
		}
		if l >= 0 {
			k.lvl = l
			st.conc.signal(k)
		}
	}
	I[W+"Add"] = func(c *callCtx) { wadd(c, c.node(1), false); c.ret() }
	I[W+"Done"] = func(c *callCtx) { wadd(c, IntC(-1), true); c.ret() }
	I[W+"Wait"] = func(c *callCtx) {
		x, st := c.x, c.st
		p := x.resolve(st, c.args[0].(*PtrV))
		x.blocking(st, "Wait", c.pos)
		n := x.aget(st, p).(*StructV).f[0].(*Node)
		x.oblige(st, "stuck.wait", Eq(n, IntC(0)), c.pos, "every Add of the wait group is matched by a Done")
		k := wgKey(p)
		d := st.conc.lvl()
		st.conc.join(func(s sig) bool {
			l := s.lvl
			s.lvl = 0
			return s == k && l <= d
		})
		c.ret()
	}
	I["github.com/panjf2000/ants/v2.(*Pool).Submit"] = func(c *callCtx) {
		x, st := c.x, c.st
		x.trusted["ants.Pool.Submit runs the function in a goroutine (the pool is unbounded and never released)"] = true
		f := c.args[1]
		c.ret(NilAny)
		x.spawn(st, f, nil, &ssa.CallCommon{Value: nil}, c.pos)
	}
	ifaceModels["context.Context.Done"] = func(c *callCtx) { c.ret(App("donech", "Int", c.node(0))) }
	ifaceModels["context.Context.Err"] = func(c *callCtx) {
		x, st := c.x, c.st
		ctx := c.node(0)
		x.branch(st, x.pollDone(st, ctx), func(x *Exec, st *State, d bool) {
			c2 := *c
			c2.st = st
			if d {
				e := App("ctxerr", "Any", ctx)
				st.assume(Neq(e, NilAny))
				c2.ret(e)
			} else {
				c2.ret(NilAny)
			}
		})
	}
	I["context.Background"] = func(c *callCtx) {
		r := App("ctxbackground", "Any")
		c.st.assume(Neq(r, NilAny))
		c.ret(r)
	}
	I["context.WithTimeout"] = func(c *callCtx) {
		x, st := c.x, c.st
		x.check(st, "nil", Neq(c.node(0), NilAny), c.pos)
		r := App("ctxtimeout", "Any", c.node(0), asNode(c.args[1]))
		st.assume(Neq(r, NilAny))
		cf := App("ctxcancel", "Fn", r)
		st.assume(Neq(cf, NilFn()))
		c.ret(r, cf)
	}
	I["runtime/debug.Stack"] = func(c *callCtx) {
		c.ret(c.x.havocVal(c.st, "stack", types.NewSlice(types.Typ[types.Uint8])))
	}
	initAtomics(I)
}

func (x *Exec) initContract(st *State) {
	x.liveCtx = map[*Node]bool{}
	for _, l := range x.con.live {
		v := x.env(st).eval(parseExpr(l))
		n := v.v.(*Node)
		x.liveCtx[n] = true
		st.assume(Not(x.doneOf(st, n)))
		x.trusted["case considered here: the context "+l+" is never done while the call runs"] = true
	}
	// receives are counted from the start of the call
	st.heap["Ch.recv"] = ConstArr(ArrSort("Int", "Int"), IntC(0))
	x.compSort["Ch.recv"] = ArrSort("Int", "Int")
}

func (x *Exec) procsAtExit(st *State, panicked bool) {
	for range st.conc.held {
		x.oblige(st, "lock.leak", False, x.fn.Pos(), "the function returns holding a lock")
		break
	}
	if x.con != nil && x.con.noLeak {
		for _, c := range st.conc.locals {
			l := Sub(Slen(x.chGet(st, "sent", "SeqAny", c)), x.chGet(st, "recv", "Int", c))
			x.oblige(st, "noleak", Le(l, x.chCap(st, c)), x.fn.Pos(), "a goroutine's send can complete although nobody receives any more")
		}
	}
}

// concCall: contract functions about concurrency.
func (e *Env) concCall(name string, arg func(i int) ast_) (SVal, bool) {
	x := e.x
	switch name {
	case "done":
		return lit(x.doneOf(e.st, e.node(arg(0)))), true
	case "ctxerr":
		return SVal{App("ctxerr", "Any", e.node(arg(0))), types.Universe.Lookup("error").Type()}, true
	case "ctxtimeout":
		return lit(App("ctxtimeout", "Any", App("ctxbackground", "Any"), e.node(arg(0)))), true
	case "panicked":
		return lit(App("panicsInt", "Bool", e.node(arg(0)), e.node(arg(1)))), true
	case "yields":
		c := e.node(arg(0))
		if isFreshRef(c) {
			return lit(e.inSomeOrder(c, Select(x.comp(e.st, "Ch.sent", ArrSort("Int", "SeqAny")), c))), true
		}
		return lit(App("input", "SeqAny", c)), true
	case "ended":
		c := e.node(arg(0))
		if isFreshRef(c) {
			return lit(Select(x.comp(e.st, "Ch.closed", ArrSort("Int", "Bool")), c)), true
		}
		return lit(True), true
	case "blocks":
		c := e.node(arg(0))
		if e.st.conc.mixed[c] {
			unsup("contract: blocks of a channel on which a goroutine and its parent both send")
		}
		return lit(Select(x.comp(e.st, "Ch.blocks", ArrSort("Int", "SeqAny")), c)), true
	case "boxseq":
		return lit(App("boxseq", "Any", e.node(arg(0)))), true
	case "aval":
		v := e.eval(arg(0))
		return SVal{aval(v.v), types.NewInterfaceType(nil, nil)}, true
	case "tok":
		return lit(Select(x.comp(e.st, "Ch.tok", ArrSort("Int", "Int")), e.node(arg(0)))), true
	case "joined":
		return lit(BoolC(!e.st.conc.concurrent(eff{kind: "cb", n: e.node(arg(0))}))), true
	case "atlock", "atunlock":
		s := e.st.conc.at
		if name == "atunlock" {
			s = e.st.conc.un
		}
		if s == nil {
			unsup("contract: %s without a lock or atomic operation on this path", name)
		}
		n := *e
		s2, c2 := *s, *s.conc
		c2.order, s2.conc = e.st.conc.order, &c2
		n.st = &s2
		return (&n).eval(arg(0)), true
	case "inflight": // inflight(object, key): this goroutine runs the flight of key on a group inside the object
		p := e.eval(arg(0)).v.(*PtrV)
		k := e.node(arg(1))
		r := False
		for _, fl := range e.st.conc.flights {
			if fl.g.cell == nil && fl.g.ref == p.ref && fl.g.root == p.root {
				r = Or(r, Eq(k, fl.key))
			}
		}
		return lit(r), true
	case "ownflight":
		if e.st.conc.flown == nil {
			return lit(True), true
		}
		if v, ok := e.st.known(e.st.conc.flown); ok {
			return lit(BoolC(v)), true
		}
		return lit(e.st.conc.flown), true
	case "iterorder": // the keys of the last map iteration, in its order
		if e.st.conc.order == nil {
			return lit(EmptySeq("SeqStr")), true
		}
		return lit(e.st.conc.order), true
	case "inv": // inv("iface.Method", receiver): its result
		return lit(App("inv."+sanitize(strArg(arg(0)))+".0", "Any", e.node(arg(1)))), true
	case "holds": // holds("type"): this goroutine holds a lock of that type for writing
		r := false
		for k, m := range e.st.conc.held {
			if m == 2 && strings.HasPrefix(k.path, strArg(arg(0))+"[") {
				r = true
			}
		}
		return lit(BoolC(r)), true
	case "acquired":
		return lit(BoolC(e.st.conc.acq != nil)), true
	case "own":
		return lit(x.ownGet(e.st, arg(0).(*ast.Ident).Name)), true
	case "atacq":
		s := e.st.conc.acq
		if s == nil {
			unsup("contract: atacq without a lock on this path")
		}
		n := *e
		s2, c2 := *s, *s.conc
		c2.order, s2.conc = e.st.conc.order, &c2
		n.st = &s2
		return (&n).eval(arg(0)), true
	case "locked":
		return lit(BoolC(e.st.conc.at != nil)), true
	}
	return SVal{}, false
}
