package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"regexp"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Clause struct {
	callee string // atcall: the function value
	label  string
	props  []string
	text   string
	expr   ast.Expr
}

type Contract struct {
	key        string
	params     []string
	results    []string
	props      []string
	requires   []*Clause
	ensures    []*Clause
	panics     *Clause
	templates  []*Clause
	uses       []string
	ghosts     [][2]string
	modifies   []string
	modular    bool
	optional   bool
	noTerm     bool
	anyStrings bool
	mayPanic   map[string]bool
	slots      []*Clause // slots f: bound
	waits      string
	live       []string
	decreases  ast.Expr
	guards     []guardSpec
	invs       []*Clause
	unroll     int
	timeoutMS  int
	file       string
	lets       []letDef
	inlineOnly bool
	atClose    []*Clause
	harness    string
	client     bool
	nopropNP   bool
	atomicInv  []*Clause
	noRace     bool
	noReturn   bool
	commits    []*Clause
	noLeak     bool
	noBlock    *Clause
	sections   []*Clause
	abstract   bool // xsync.Map is used through its specification programs; uint32 values are integers
	alone      bool // no other goroutine uses the receiver: sequential histories
	atCall     []*Clause // label: the function value
	holding    []*Clause
}

type letDef struct {
	name string
	expr ast.Expr
}

type guardSpec struct {
	lock   string
	fields []string
	inv    []*Clause
}

var mvRe = regexp.MustCompile(`\$([a-z0-9]+)`)

func parseExpr(s string) ast.Expr {
	s = mvRe.ReplaceAllString(s, "MV_$1")
	e, err := parser.ParseExpr(s)
	if err != nil {
		panic(fmt.Sprintf("contract expression %q: %v", s, err))
	}
	return e
}

var propRe = regexp.MustCompile(`^((?:C\d\d,)*C\d\d)\.([A-Za-z0-9_.-]+):\s*(.*)$`)

func parseClause(s string, def []string) *Clause {
	s = strings.TrimSpace(s)
	c := &Clause{}
	if m := propRe.FindStringSubmatch(s); m != nil {
		c.props = strings.Split(m[1], ",")
		c.label = m[2]
		s = m[3]
	} else {
		c.props = def
	}
	c.text = s
	c.expr = parseExpr(s)
	return c
}

var headRe = regexp.MustCompile(`^(func|client)\s+(\S+?)\(([^()]*)\)\s*(?:\(([^()]*)\))?\s*$`)
var headRe2 = regexp.MustCompile(`^(func|client)\s+(\S+\.\(\*?\w+\)\.\w+)\(([^()]*)\)\s*(?:\(([^()]*)\))?\s*$`)

func splitList(s string) []string {
	var r []string
	for _, p := range strings.Split(s, ",") {
		p = strings.TrimSpace(p)
		if p != "" {
			r = append(r, p)
		}
	}
	return r
}

var templateGroups = map[string][]*Clause{}

func parseContracts(path string, p *Prog) {
	data, err := os.ReadFile(path)
	if err != nil {
		panic(err)
	}
	// join continuation lines
	var lines []string
	for _, l := range strings.Split(string(data), "\n") {
		if i := strings.Index(l, "#"); i >= 0 {
			l = l[:i]
		}
		t := strings.TrimRight(l, " \t")
		if strings.TrimSpace(t) == "" {
			continue
		}
		if len(lines) > 0 && strings.HasPrefix(t, "      ") {
			lines[len(lines)-1] += " " + strings.TrimSpace(t)
			continue
		}
		lines = append(lines, t)
	}
	var cur *Contract
	group := ""
	var ts *TypeSpec
	for _, l := range lines {
		t := strings.TrimSpace(l)
		if strings.HasPrefix(t, "func ") || strings.HasPrefix(t, "client ") {
			m := headRe2.FindStringSubmatch(t)
			if m == nil {
				m = headRe.FindStringSubmatch(t)
			}
			if m == nil {
				panic(path + ": bad header " + t)
			}
			m[2] = strings.ReplaceAll(m[2], "@", "#")
			cur = &Contract{key: m[2], params: splitList(m[3]), results: splitList(m[4]), mayPanic: map[string]bool{}, file: path, client: m[1] == "client"}
			if _, dup := p.contracts[cur.key]; dup {
				panic("duplicate contract " + cur.key)
			}
			p.contracts[cur.key] = cur
			group = ""
			ts = nil
			continue
		}
		if strings.HasPrefix(t, "type ") {
			ts = &TypeSpec{name: strings.TrimSpace(t[5:]), locks: map[string]*lockSpec{}, immutable: map[string]bool{}, ghosts: map[string]string{}, atomics: map[string]*atomSpec{}}
			p.typeSpecs[ts.name] = ts
			cur = nil
			group = ""
			continue
		}
		if strings.HasPrefix(t, "group ") {
			ts = nil
			group = strings.TrimSpace(t[6:])
			cur = nil
			continue
		}
		w, rest := t, ""
		if i := strings.IndexAny(t, " \t"); i > 0 {
			w, rest = t[:i], strings.TrimSpace(t[i:])
		}
		if w == "global" {
			i := strings.Index(rest, ":")
			p.globFacts = append(p.globFacts, globFact{fn: strings.ReplaceAll(strings.TrimSpace(rest[:i]), "@", "#"), c: parseClause(rest[i+1:], nil)})
			continue
		}
		if w == "spec" {
			i := strings.Index(rest, "=")
			p.specs[strings.TrimSpace(rest[:i])] = strings.TrimSpace(rest[i+1:])
			continue
		}
		if w == "define" {
			i := strings.Index(rest, "=")
			h := strings.TrimSpace(rest[:i])
			j := strings.Index(h, "(")
			p.defines[h[:j]] = &macro{params: splitList(strings.TrimSuffix(h[j+1:], ")")), body: parseExpr(rest[i+1:])}
			continue
		}
		if w == "poolinv" || w == "flightinv" || w == "mapinv" {
			i := strings.Index(rest, ":")
			nm := strings.TrimSpace(rest[:i])
			m := map[string]map[string]*Clause{"poolinv": p.poolInvs, "flightinv": p.flightInvs, "mapinv": p.mapInvs}[w]
			if m[nm] != nil {
				panic(path + ": duplicate " + t)
			}
			m[nm] = parseClause(rest[i+1:], nil)
			cur = nil
			group = ""
			continue
		}
		if ts != nil {
			ts.clause(w, rest)
			continue
		}
		if cur == nil {
			if group != "" && w == "loop" {
				templateGroups[group] = append(templateGroups[group], parseClause(rest, nil))
				continue
			}
			panic(path + ": clause outside a contract: " + t)
		}
		switch w {
		case "prop":
			cur.props = splitList(rest)
		case "requires":
			cur.requires = append(cur.requires, parseClause(rest, cur.props))
		case "ensures":
			cur.ensures = append(cur.ensures, parseClause(rest, cur.props))
		case "panics":
			cur.panics = parseClause(rest, cur.props)
		case "loop":
			cur.templates = append(cur.templates, parseClause(rest, cur.props))
		case "use":
			cur.uses = append(cur.uses, splitList(rest)...)
		case "ghost":
			f := strings.Fields(rest)
			cur.ghosts = append(cur.ghosts, [2]string{f[0], f[1]})
		case "let":
			i := strings.Index(rest, "=")
			cur.lets = append(cur.lets, letDef{strings.TrimSpace(rest[:i]), parseExpr(rest[i+1:])})
		case "modifies":
			cur.modifies = append(cur.modifies, splitList(rest)...)
		case "modular":
			cur.modular = true
		case "optional":
			cur.optional = true
		case "noterm":
			cur.noTerm = true
		case "anystrings":
			cur.anyStrings = true
		case "maypanic":
			for _, n := range splitList(rest) {
				cur.mayPanic[n] = true
			}
		case "slots":
			i := strings.Index(rest, ":")
			j := strings.Index(rest, " ")
			_ = i
			c := parseClause(rest[j:], cur.props)
			c.text = strings.TrimSpace(rest[:j])
			cur.slots = append(cur.slots, c)
		case "waits":
			cur.waits = rest
		case "live":
			cur.live = append(cur.live, splitList(rest)...)
		case "decreases":
			cur.decreases = parseExpr(rest)
		case "guarded":
			// guarded <lock expr>: field, field
			i := strings.Index(rest, ":")
			cur.guards = append(cur.guards, guardSpec{lock: strings.TrimSpace(rest[:i]), fields: splitList(rest[i+1:])})
		case "lockinv":
			g := &cur.guards[len(cur.guards)-1]
			g.inv = append(g.inv, parseClause(rest, cur.props))
		case "timeout":
			cur.timeoutMS, _ = strconv.Atoi(rest)
		case "commit":
			i := strings.Index(rest, "=")
			c := parseClause(rest[i+1:], cur.props)
			c.label = strings.TrimSpace(rest[:i])
			cur.commits = append(cur.commits, c)
		case "atcall":
			i := strings.Index(rest, ":")
			c := parseClause(rest[i+1:], cur.props)
			if c.label == "" {
				c.label = "atcall"
			}
			c.callee = strings.TrimSpace(rest[:i])
			cur.atCall = append(cur.atCall, c)
		case "atclose":
			c := parseClause(rest, cur.props)
			if c.label == "" {
				c.label = "atclose"
			}
			cur.atClose = append(cur.atClose, c)
		case "holding":
			cur.holding = append(cur.holding, parseClause(rest, cur.props))
		case "section":
			cur.sections = append(cur.sections, parseClause(rest, cur.props))
		case "noblock":
			cur.noBlock = parseClause(rest, cur.props)
		case "alone":
			cur.alone = true
		case "abstract":
			cur.abstract = true
			cur.alone = true
		case "noleak":
			cur.noLeak = true
		case "inlineonly":
			cur.inlineOnly = true
		default:
			panic(path + ": unknown clause " + w)
		}
	}
}

// ---- evaluation ----

type SVal struct {
	v Val
	t types.Type // may be nil for purely logical values
}

// macro: an abbreviation; arguments are evaluated where it is used.
type macro struct {
	params []string
	body   ast.Expr
}

type Env struct {
	x    *Exec
	st   *State // current state
	pre  *State // pre-state for old()
	vars map[string]SVal
	pkg  *types.Package
	shuf bool // logs with an unknown order are shuffled
}

func (e *Env) with(name string, v SVal) *Env {
	n := *e
	n.vars = make(map[string]SVal, len(e.vars)+1)
	for k, x := range e.vars {
		n.vars[k] = x
	}
	n.vars[name] = v
	return &n
}

func (e *Env) node(ex ast.Expr) *Node {
	sv := e.eval(ex)
	return e.toNode(sv)
}

func (e *Env) toNode(sv SVal) *Node {
	switch y := sv.v.(type) {
	case *Node:
		return y
	case *SliceV:
		return e.x.view(e.st, y)
	case *ClosV:
		return y.node()
	case *PtrV:
		if y.cell != nil {
			return asNode(e.x.escape(e.st, y))
		}
		return asNode(y)
	case *StructV:
		if typeName(y.t) == "strings.Builder" {
			return y.f[0].(*Node)
		}
		if len(y.f) == 1 {
			return e.toNode(SVal{y.f[0], nil})
		}
	}
	panic(&Unsupported{fmt.Sprintf("contract: value %T used as a term", sv.v)})
}

func (e *Env) bool(ex ast.Expr) *Node {
	n := e.node(ex)
	if n.sort != "Bool" {
		unsup("contract: expected a condition")
	}
	return n
}

func lit(n *Node) SVal { return SVal{n, nil} }

func coerce(a, b *Node) (*Node, *Node) {
	if a.sort == b.sort {
		return a, b
	}
	if w := bvWidth(a.sort); w > 0 && b.iv != nil {
		return a, BVC(b.iv.Uint64(), w)
	}
	if w := bvWidth(b.sort); w > 0 && a.iv != nil {
		return BVC(a.iv.Uint64(), w), b
	}
	if bvWidth(a.sort) > 0 && b.sort == "Int" {
		return BV2Nat(a), b
	}
	if bvWidth(b.sort) > 0 && a.sort == "Int" {
		return a, BV2Nat(b)
	}
	return a, b
}

func (e *Env) eval(ex ast.Expr) SVal {
	switch y := ex.(type) {
	case *ast.ParenExpr:
		return e.eval(y.X)
	case *ast.BasicLit:
		switch y.Kind {
		case token.INT:
			v, ok := new(big.Int).SetString(strings.ReplaceAll(y.Value, "_", ""), 0)
			if !ok {
				panic("int literal " + y.Value)
			}
			return lit(IntB(v))
		case token.STRING:
			s, err := strconv.Unquote(y.Value)
			if err != nil {
				panic(err)
			}
			return lit(strLit(s))
		case token.CHAR:
			s, _, _, err := strconv.UnquoteChar(y.Value[1:], '\'')
			if err != nil {
				panic(err)
			}
			return lit(IntC(int64(s)))
		}
	case *ast.Ident:
		if v, ok := e.vars[y.Name]; ok {
			return v
		}
		switch y.Name {
		case "true":
			return lit(True)
		case "false":
			return lit(False)
		case "nil":
			return SVal{"nil", nil}
		case "maxint":
			return lit(IntB(maxI64))
		case "minint":
			return lit(IntB(minI64))
		}
		if _, ok := theorySyms[y.Name]; ok {
			return lit(App(y.Name, ""))
		}
		unsup("contract: unknown name %s", y.Name)
	case *ast.UnaryExpr:
		switch y.Op {
		case token.NOT:
			return lit(Not(e.bool(y.X)))
		case token.SUB:
			return lit(Sub(IntC(0), e.node(y.X)))
		}
	case *ast.BinaryExpr:
		return lit(e.binary(y))
	case *ast.SelectorExpr:
		// package-level variable?
		if id, ok := y.X.(*ast.Ident); ok {
			if _, isVar := e.vars[id.Name]; !isVar {
				if pk := e.x.prog.pkgByName[id.Name]; pk != nil {
					return e.global(pk, y.Sel.Name)
				}
			}
		}
		return e.field(e.eval(y.X), y.Sel.Name)
	case *ast.StarExpr:
		v := e.eval(y.X)
		p, ok := v.v.(*PtrV)
		if !ok {
			unsup("contract: dereference of a non-pointer")
		}
		return SVal{e.x.loadQuiet(e.st, p), p.root}
	case *ast.IndexExpr:
		b := e.eval(y.X)
		switch z := b.v.(type) {
		case *SliceV:
			k := e.node(y.Index)
			return SVal{e.x.loadQuiet(e.st, &PtrV{ref: z.ref, idx: Add(z.off, k), root: z.elem}), z.elem}
		case *Node:
			if b.t != nil {
				if mt, ok := types.Unalias(b.t).Underlying().(*types.Map); ok {
					k := e.node(y.Index)
					mi := mapInfo(b.t)
					var ns []*Node
					for i, l := range mi.vs {
						c := e.x.comp(e.st, mi.val[i], ArrSort("Int", ArrSort(mi.ks, l.sort)))
						ns = append(ns, Select(Select(c, z), k))
					}
					v, _ := unflatten(mt.Elem(), ns)
					return SVal{v, mt.Elem()}
				}
			}
			return lit(Sidx(z, e.node(y.Index)))
		}
	case *ast.CallExpr:
		return e.call(y)
	}
	unsup("contract: unsupported expression %T", ex)
	return SVal{}
}

func (e *Env) global(pk *types.Package, name string) SVal {
	sp := e.x.prog.prog.Package(pk)
	if sp == nil {
		unsup("contract: package %s", pk.Path())
	}
	switch m := sp.Members[name].(type) {
	case *ssa.Global:
		p := e.x.globalPtr(m).(*PtrV)
		return SVal{e.x.loadQuiet(e.st, p), p.root}
	case *ssa.NamedConst:
		return SVal{litNode(types.Unalias(m.Type()), m.Value.Value), m.Type()}
	}
	unsup("contract: no package variable %s.%s", pk.Name(), name)
	return SVal{}
}

func (e *Env) field(b SVal, name string) SVal {
	find := func(t types.Type) (int, types.Type) {
		s, ok := types.Unalias(t).Underlying().(*types.Struct)
		if !ok {
			unsup("contract: field %s of %s", name, t)
		}
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == name {
				return i, s.Field(i).Type()
			}
		}
		unsup("contract: no field %s in %s", name, t)
		return 0, nil
	}
	switch y := b.v.(type) {
	case *PtrV:
		cur := y.root
		for _, i := range y.path {
			cur = types.Unalias(cur).Underlying().(*types.Struct).Field(i).Type()
		}
		if ts := e.x.typeSpec(y.root); ts != nil && ts.ghosts[name] != "" && len(y.path) == 0 {
			return lit(Select(e.x.comp(e.st, ghostComp(y.root, name), ArrSort("Int", ts.ghosts[name])), y.ref))
		}
		i, ft := find(cur)
		q := &PtrV{cell: y.cell, ref: y.ref, idx: y.idx, root: y.root, path: append(append([]int(nil), y.path...), i)}
		return SVal{e.x.loadQuiet(e.st, q), ft}
	case *StructV:
		i, ft := find(y.t)
		return SVal{y.f[i], ft}
	}
	unsup("contract: field %s of %T", name, b.v)
	return SVal{}
}

func isNilSV(s SVal) bool { v, ok := s.v.(string); return ok && v == "nil" }

func (e *Env) equal(a, b SVal) *Node {
	if isNilSV(a) {
		a, b = b, a
	}
	if isNilSV(b) {
		switch y := a.v.(type) {
		case *SliceV:
			return Eq(y.ref, IntC(0))
		case *PtrV:
			if y.cell != nil {
				return False
			}
			return Eq(y.ref, IntC(0))
		case *Node:
			switch y.sort {
			case "Any":
				return Eq(y, NilAny)
			case "Fn":
				return Eq(y, NilFn())
			case "Int":
				return Eq(y, IntC(0))
			}
		case *ClosV:
			return False
		}
		unsup("contract: comparison with nil")
	}
	// value against interface
	na, nb := e.toNode(a), e.toNode(b)
	na, nb = coerce(na, nb)
	if na.sort == "Any" && nb.sort != "Any" && b.t != nil {
		nb = e.x.box(e.st, b.t, b.v)
	}
	if nb.sort == "Any" && na.sort != "Any" && a.t != nil {
		na = e.x.box(e.st, a.t, a.v)
	}
	return Eq(na, nb)
}

func (e *Env) binary(y *ast.BinaryExpr) *Node {
	switch y.Op {
	case token.LAND:
		return And(e.bool(y.X), e.bool(y.Y))
	case token.LOR:
		return Or(e.bool(y.X), e.bool(y.Y))
	case token.EQL:
		return e.equal(e.eval(y.X), e.eval(y.Y))
	case token.NEQ:
		return Not(e.equal(e.eval(y.X), e.eval(y.Y)))
	}
	a, b := coerce(e.node(y.X), e.node(y.Y))
	if strings.HasPrefix(a.sort, "Seq") && y.Op == token.ADD {
		return Scat(a, b)
	}
	if a.sort == "Int" && b.sort == "Int" {
		switch y.Op {
		case token.ADD:
			return Add(a, b)
		case token.SUB:
			return Sub(a, b)
		case token.MUL:
			return Mul(a, b)
		case token.LSS:
			return Lt(a, b)
		case token.LEQ:
			return Le(a, b)
		case token.GTR:
			return Lt(b, a)
		case token.GEQ:
			return Le(b, a)
		case token.QUO:
			if b.iv != nil {
				return mk("div", "Int", a, b)
			}
			return App("idiv", "Int", a, b)
		case token.REM:
			if b.iv != nil {
				return mk("mod", "Int", a, b)
			}
			return App("imod", "Int", a, b)
		}
	}
	if w := bvWidth(a.sort); w > 0 && a.sort == b.sort {
		op := map[token.Token]string{token.LSS: "bvult", token.LEQ: "bvule", token.ADD: "bvadd", token.SUB: "bvsub", token.AND: "bvand", token.OR: "bvor", token.XOR: "bvxor", token.SHL: "bvshl", token.SHR: "bvlshr"}[y.Op]
		switch y.Op {
		case token.GTR:
			return mk("bvult", "Bool", b, a)
		case token.GEQ:
			return mk("bvule", "Bool", b, a)
		case token.LSS, token.LEQ:
			return mk(op, "Bool", a, b)
		}
		if op != "" {
			return mk(op, a.sort, a, b)
		}
	}
	unsup("contract: operator %s on %s and %s", y.Op, a.sort, b.sort)
	return nil
}

func strArg(ex ast.Expr) string {
	b, ok := ex.(*ast.BasicLit)
	if !ok || b.Kind != token.STRING {
		unsup("contract: string literal expected")
	}
	s, _ := strconv.Unquote(b.Value)
	return s
}

var sortAlias = map[string]string{"int": "Int", "bool": "Bool", "any": "Any", "string": "SeqInt", "seqany": "SeqAny", "seqint": "SeqInt", "seqb8": "SeqB8", "seqstr": "SeqStr", "fn": "Fn", "seqfn": "SeqFn", "byte": "(_ BitVec 8)", "u32": "(_ BitVec 32)", "u16": "(_ BitVec 16)"}

func sortByName(s string) string {
	if r, ok := sortAlias[strings.ToLower(s)]; ok {
		return r
	}
	return s
}

func (e *Env) call(y *ast.CallExpr) SVal {
	id, ok := y.Fun.(*ast.Ident)
	if !ok {
		if se, ok2 := y.Fun.(*ast.SelectorExpr); ok2 {
			if q, ok3 := se.X.(*ast.Ident); ok3 {
				id, ok = &ast.Ident{Name: q.Name + "." + se.Sel.Name}, true
			}
		}
	}
	if !ok {
		unsup("contract: call of %T", y.Fun)
	}
	x := e.x
	arg := func(i int) ast.Expr {
		if i >= len(y.Args) {
			unsup("contract: missing argument of %s", id.Name)
		}
		return y.Args[i]
	}
	if v, ok := e.concCall(id.Name, arg); ok {
		return v
	}
	if m := x.prog.defines[id.Name]; m != nil {
		n := *e
		n.vars = make(map[string]SVal, len(e.vars)+len(m.params))
		for k, v := range e.vars {
			n.vars[k] = v
		}
		for i, p := range m.params {
			n.vars[p] = e.eval(arg(i))
		}
		return (&n).eval(m.body)
	}
	switch id.Name {
	case "old":
		n := *e
		n.st = e.pre
		return (&n).eval(arg(0))
	case "imp":
		a := e.bool(arg(0))
		if a == False {
			return lit(True)
		}
		return lit(Imp(a, e.bool(arg(1))))
	case "iff":
		return lit(Eq(e.bool(arg(0)), e.bool(arg(1))))
	case "max", "min":
		a, b := e.node(arg(0)), e.node(arg(1))
		if id.Name == "max" {
			return lit(Ite(Le(a, b), b, a))
		}
		return lit(Ite(Le(a, b), a, b))
	case "fmax", "fmin":
		return lit(fminmax(id.Name == "fmax", e.node(arg(0)), e.node(arg(1))))
	case "ite":
		c := e.bool(arg(0))
		if c == True {
			return e.eval(arg(1))
		}
		if c == False {
			return e.eval(arg(2))
		}
		a, b := coerce(e.node(arg(1)), e.node(arg(2)))
		return lit(Ite(c, a, b))
	case "forall", "exists":
		// forall(i, lo, hi, body[, trigger])
		v := arg(0).(*ast.Ident).Name
		bv := BoundVar(v, "Int")
		lo, hi := e.node(arg(1)), e.node(arg(2))
		e2 := e.with(v, lit(bv))
		body := e2.bool(arg(3))
		rng := And(Le(lo, bv), Lt(bv, hi))
		if id.Name == "exists" {
			return lit(Exists([]*Node{bv}, And(rng, body)))
		}
		var pats [][]*Node
		for k := 4; k < len(y.Args); k++ {
			pats = append(pats, []*Node{e2.node(y.Args[k])})
		}
		return lit(Forall([]*Node{bv}, Imp(rng, body), pats...))
	case "all", "any_":
		// all(k, "sort", body[, trigger])
		v := arg(0).(*ast.Ident).Name
		bv := BoundVar(v, sortByName(strArg(arg(1))))
		e2 := e.with(v, lit(bv))
		body := e2.bool(arg(2))
		if id.Name == "any_" {
			return lit(Exists([]*Node{bv}, body))
		}
		var pats [][]*Node
		for k := 3; k < len(y.Args); k++ {
			pats = append(pats, []*Node{e2.node(y.Args[k])})
		}
		return lit(Forall([]*Node{bv}, body, pats...))
	case "len":
		v := e.eval(arg(0))
		switch z := v.v.(type) {
		case *SliceV:
			return lit(z.len)
		case *Node:
			if strings.HasPrefix(z.sort, "Seq") {
				return lit(Slen(z))
			}
			if v.t != nil {
				if _, ok := types.Unalias(v.t).Underlying().(*types.Map); ok {
					return lit(x.mapLen(e.st, mapInfo(v.t), z))
				}
			}
		}
		return lit(Slen(e.toNode(v)))
	case "capof":
		v := e.eval(arg(0))
		if s, ok := v.v.(*SliceV); ok {
			return lit(s.cap)
		}
	case "offof":
		return lit(e.eval(arg(0)).v.(*SliceV).off)
	case "refof":
		v := e.eval(arg(0))
		switch s := v.v.(type) {
		case *SliceV:
			return lit(s.ref)
		case *PtrV:
			return lit(s.ref)
		case *Node:
			return lit(s)
		}
	case "elems":
		return lit(e.toNode(e.eval(arg(0))))
	case "idx":
		return lit(Sidx(e.node(arg(0)), e.node(arg(1))))
	case "take":
		return lit(Stake(e.node(arg(0)), e.node(arg(1))))
	case "drop":
		return lit(Sdrop(e.node(arg(0)), e.node(arg(1))))
	case "build":
		s := e.node(arg(0))
		v := e.eval(arg(1))
		n := e.toNode(v)
		if seqElemOf(s.sort) == "Any" && n.sort != "Any" && v.t != nil {
			n = x.box(e.st, v.t, v.v)
		}
		return lit(Sbuild(s, n))
	case "seqof":
		n := e.node(arg(0))
		return lit(Sbuild(EmptySeq(seqSortOf(n.sort)), n))
	case "cat":
		return lit(Scat(e.node(arg(0)), e.node(arg(1))))
	case "empty":
		return lit(EmptySeq(sortByName(strArg(arg(0)))))
	case "nat":
		return lit(BV2Nat(e.node(arg(0))))
	case "bv":
		w, _ := strconv.Atoi(arg(0).(*ast.BasicLit).Value)
		n := e.node(arg(1))
		if n.iv != nil {
			return lit(BVC(new(big.Int).Mod(n.iv, new(big.Int).Lsh(big.NewInt(1), uint(w))).Uint64(), w))
		}
		return lit(mk(fmt.Sprintf("(_ int2bv %d)", w), bvSort(w), n))
	case "extract":
		hi, _ := strconv.Atoi(arg(0).(*ast.BasicLit).Value)
		lo, _ := strconv.Atoi(arg(1).(*ast.BasicLit).Value)
		return lit(mk(fmt.Sprintf("(_ extract %d %d)", hi, lo), bvSort(hi-lo+1), e.node(arg(2))))
	case "concat":
		a, b := e.node(arg(0)), e.node(arg(1))
		return lit(mk("concat", bvSort(bvWidth(a.sort)+bvWidth(b.sort)), a, b))
	case "blen":
		return lit(Blen(e.node(arg(0))))
	case "fpop":
		var as []*Node
		for _, a := range y.Args[2:] {
			as = append(as, e.node(a))
		}
		so := strArg(arg(1))
		if so == "f64" {
			so = sortF64
		}
		if so == "f32" {
			so = sortF32
		}
		return lit(mk(strArg(arg(0)), so, as...))
	case "content":
		v := e.eval(arg(0))
		if p, ok := v.v.(*PtrV); ok {
			sv := x.loadQuiet(e.st, p).(*StructV)
			return lit(sv.f[0].(*Node))
		}
		return lit(e.toNode(v))
	case "isa":
		return lit(Eq(App("tag", "Int", e.node(arg(0))), x.tagOf(x.prog.parseType(strArg(arg(1))))))
	case "as":
		t := x.prog.parseType(strArg(arg(1)))
		return SVal{x.unboxQuiet(t, e.node(arg(0))), t}
	case "boxed":
		v := e.eval(arg(0))
		t := v.t
		if len(y.Args) > 1 {
			t = x.prog.parseType(strArg(arg(1)))
		}
		if t == nil {
			unsup("contract: boxed() needs a typed value")
		}
		return lit(x.box(e.st, t, v.v))
	case "implements":
		return lit(Implements(x.prog.parseType(strArg(arg(1))), e.node(arg(0))))
	case "vhas":
		return lit(x.vhas(e.st, e.node(arg(0)), e.node(arg(1))))
	case "vval":
		return lit(x.vval(e.st, e.node(arg(0)), e.node(arg(1))))
	case "purecall":
		var as []SVal
		for _, a := range y.Args[1:] {
			as = append(as, e.eval(a))
		}
		return x.pureCall(e.st, strArg(arg(0)), as)
	case "band":
		a, b := coerce(e.node(arg(0)), e.node(arg(1)))
		if a.sort == "Int" {
			return lit(App("bit.and", "Int", a, b))
		}
		return lit(mk("bvand", a.sort, a, b))
	case "haskey":
		v := e.eval(arg(0))
		m := v.v.(*Node)
		mi := mapInfo(v.t)
		k := e.node(arg(1))
		return lit(And(Neq(m, IntC(0)), Select(x.mapDom(e.st, mi, m), k)))
	case "mapdom":
		v := e.eval(arg(0))
		m := v.v.(*Node)
		mi := mapInfo(v.t)
		return lit(x.mapDom(e.st, mi, m))
	case "mapval": // the value stored for a key that is present
		v := e.eval(arg(0))
		mi := mapInfo(v.t)
		k := e.node(arg(1))
		var ns []*Node
		for i, l := range mi.vs {
			ns = append(ns, Select(Select(x.comp(e.st, mi.val[i], ArrSort("Int", ArrSort(mi.ks, l.sort))), v.v.(*Node)), k))
		}
		w, _ := unflatten(mi.vt, ns)
		return SVal{w, mi.vt}
	case "mapvals":
		v := e.eval(arg(0))
		m := v.v.(*Node)
		mi := mapInfo(v.t)
		return lit(Select(x.comp(e.st, mi.val[0], ArrSort("Int", ArrSort(mi.ks, mi.vs[0].sort))), m))
	case "anyat": // the interface value a pointer points to
		t := types.NewInterfaceType(nil, nil)
		p := e.node(arg(0))
		return SVal{x.loadQuiet(e.st, &PtrV{ref: p, root: t}), t}
	case "owner": // an uninterpreted function of references
		return lit(App("owner", "Any", e.node(arg(0))))
	case "posof": // position of a key in the order of a map iteration
		o := e.node(arg(0))
		f := x.posFn[o]
		if f == "" {
			unsup("contract: posof of something that is not a map order")
		}
		return lit(App(f, "Int", e.node(arg(1))))
	case "calllog2":
		c := e.node(arg(0))
		return lit(e.inSomeOrder(c, Select(x.comp(e.st, "Cb.log2", ArrSort("Fn", "SeqAny")), c)))
	case "store":
		a, i, v := e.node(arg(0)), e.node(arg(1)), e.node(arg(2))
		return lit(Store(a, i, v))
	case "sel":
		return lit(Select(e.node(arg(0)), e.node(arg(1))))
	case "sent":
		c := e.node(arg(0))
		return lit(e.inSomeOrder(c, Select(x.comp(e.st, "Ch.sent", ArrSort("Int", "SeqAny")), c)))
	case "closed":
		return lit(Select(x.comp(e.st, "Ch.closed", ArrSort("Int", "Bool")), e.node(arg(0))))
	case "recvd":
		return lit(Select(x.comp(e.st, "Ch.recv", ArrSort("Int", "Int")), e.node(arg(0))))
	case "chcap":
		return lit(Select(x.comp(e.st, "Ch.cap", ArrSort("Int", "Int")), e.node(arg(0))))
	case "input":
		return lit(App("input", "SeqAny", e.node(arg(0))))
	case "ordered":
		n := e.node(arg(0))
		return lit(BoolC(!e.st.conc.unordered[n]))
	case "ncalls":
		return lit(Select(x.comp(e.st, "Cb.n", ArrSort("Fn", "Int")), e.node(arg(0))))
	case "calllog":
		c := e.node(arg(0))
		return lit(e.inSomeOrder(c, Select(x.comp(e.st, "Cb.log", ArrSort("Fn", "SeqAny")), c)))
	case "invlog":
		return lit(Select(x.comp(e.st, "Inv.log."+strArg(arg(0)), ArrSort("Int", "SeqAny")), IntC(0)))
	case "invarg":
		return lit(Select(x.comp(e.st, "Inv.arg."+strArg(arg(0)), ArrSort("Int", "SeqAny")), IntC(0)))
	case "res", "emit":
		f := e.eval(arg(0))
		if f.t == nil {
			unsup("contract: %s needs a function-typed value", id.Name)
		}
		sig := types.Unalias(f.t).Underlying().(*types.Signature)
		fnn := e.toNode(f)
		var as []*Node
		for _, a := range y.Args[1:] {
			as = append(as, e.node(a))
		}
		if id.Name == "emit" {
			return lit(x.emitTerm(sig, fnn, as))
		}
		v := x.resTerm(sig, fnn, as)
		rs := sig.Results()
		if len(v) == 1 {
			return SVal{v[0], rs.At(0).Type()}
		}
		return SVal{TupleV(v), rs}
	case "nth":
		v := e.eval(arg(0))
		k, _ := strconv.Atoi(arg(1).(*ast.BasicLit).Value)
		if t, ok := v.v.(TupleV); ok {
			return SVal{t[k], v.t.(*types.Tuple).At(k).Type()}
		}
	case "ghostsel":
		// ghostsel("comp","sort", index)
		so := sortByName(strArg(arg(1)))
		i := e.node(arg(2))
		return lit(Select(x.comp(e.st, "Gh."+strArg(arg(0)), ArrSort(i.sort, so)), i))
	case "ghostcomp":
		so := sortByName(strArg(arg(2)))
		return lit(x.comp(e.st, "Gh."+strArg(arg(0)), ArrSort(sortByName(strArg(arg(1))), so)))
	case "bufdst", "bufsize", "bufclean":
		q, ok := e.eval(arg(0)).v.(*PtrV)
		if !ok {
			unsup("contract: %s of a non-pointer", id.Name)
		}
		return lit(e.x.loadQuiet(e.st, q).(*StructV).f[map[string]int{"bufdst": 0, "bufsize": 1, "bufclean": 2}[id.Name]].(*Node))
	case "heapcomp":
		return lit(x.comp(e.st, strArg(arg(0)), strArg(arg(1))))
	case "isfresh":
		v := e.eval(arg(0))
		var r *Node
		switch z := v.v.(type) {
		case *SliceV:
			r = z.ref
		case *PtrV:
			if z.cell != nil {
				return lit(True)
			}
			r = z.ref
		case *Node:
			r = z
		}
		return lit(Le(e.pre.top, r))
	case "allocated":
		n := e.node(arg(0))
		return lit(And(Lt(IntC(0), n), Lt(n, e.st.top)))
	case "shared": // allocated, and not memory of this path that nobody else can reach
		n := e.node(arg(0))
		cs := []*Node{Lt(IntC(0), n), Lt(n, e.st.top)}
		for _, r := range e.st.conc.allocs {
			if private(e.st, r) {
				cs = append(cs, Neq(n, r))
			}
		}
		return lit(And(cs...))
	}
	var as []*Node
	for _, a := range y.Args {
		as = append(as, e.node(a))
	}
	if _, ok := ghostComps[id.Name]; ok && len(as) == 1 {
		return lit(x.ghostGet(e.st, id.Name, as[0]))
	}
	sg, ok := theorySyms[id.Name]
	if !ok {
		unsup("contract: unknown function %s", id.Name)
	}
	for i := range as {
		if i < len(sg.args) && as[i].sort != sg.args[i] {
			if w := bvWidth(sg.args[i]); w > 0 && as[i].iv != nil {
				as[i] = BVC(as[i].iv.Uint64(), w)
			} else if sg.args[i] == "Int" && bvWidth(as[i].sort) > 0 {
				as[i] = BV2Nat(as[i])
			}
		}
	}
	return lit(App(id.Name, sg.ret, as...))
}

// inSomeOrder: what a contract may say about a log to which concurrent processes have written: its order is unknown.
func (e *Env) inSomeOrder(n, s *Node) *Node {
	if !e.shuf || !e.st.conc.unordered[n] {
		return s
	}
	return App("shuffle"+map[bool]string{true: "Fn"}[n.sort == "Fn"], "SeqAny", s, n)
}

// loadQuiet reads memory for specification purposes: no discipline checks.
func (x *Exec) loadQuiet(st *State, p *PtrV) Val {
	s := x.quiet
	x.quiet = true
	defer func() { x.quiet = s }()
	return x.load(st, p)
}

func (x *Exec) unboxQuiet(t types.Type, a *Node) Val {
	k := x.boxName(t)
	var ns []*Node
	for i, l := range leaves(t) {
		ns = append(ns, App(fmt.Sprintf("unbox.%s.%d", k, i), l.sort, a))
	}
	v, _ := unflatten(t, ns)
	return v
}

// ---- loop templates ----

func (x *Exec) templates(st *State) []*Clause {
	var r []*Clause
	if x.con == nil {
		return nil
	}
	r = append(r, x.con.templates...)
	for _, u := range x.con.uses {
		if g, ok := templateGroups[u]; ok {
			r = append(r, g...)
		} else if c := x.prog.contracts[u]; c != nil {
			r = append(r, c.templates...)
		} else {
			panic("contract " + x.con.key + ": unknown template group " + u)
		}
	}
	return r
}

type metaVal struct {
	v SVal
	n *Node
}

func (x *Exec) metaVals(h *State, act *loopAct, slots []*slot) map[string][]SVal {
	r := map[string][]SVal{}
	seen := map[string]map[*Node]bool{}
	add := func(k string, n *Node) {
		if seen[k] == nil {
			seen[k] = map[*Node]bool{}
		}
		if seen[k][n] {
			return
		}
		seen[k][n] = true
		r[k] = append(r[k], SVal{n, nil})
	}
	bySort := map[string]string{"SeqInt": "s", "SeqAny": "q", "Int": "i", "Bool": "b", "Any": "a", "SeqB8": "y", "SeqStr": "t", "(_ BitVec 32)": "w", "(_ BitVec 8)": "x", "(_ BitVec 16)": "h", "(Array Any Bool)": "m"}
	for _, s := range slots {
		if s.kind == slHeap && s.comp == "Ch.sent" {
			add("e", s.hdr) // what has been sent on a channel
		}
		if k, ok := bySort[s.sort]; ok {
			if s.kind == slCell && s.sort == "Int" && s.typ == nil {
				continue // slice header parts
			}
			if s.kind == slTop {
				continue
			}
			if s.kind == slCell && s.sort == "Int" && s.typ != nil {
				switch types.Unalias(s.typ).Underlying().(type) {
				case *types.Chan:
					add("c", s.hdr)
					continue
				case *types.Map, *types.Pointer:
					add("r", s.hdr)
					continue
				}
			}
			add(k, s.hdr)
		}
		if strings.HasPrefix(s.sort, "(Array") && s.kind == slHeap {
			add("m:"+s.sort, s.hdr)
		}
	}
	// slices held in locals whose header or contents change
	changedComp := map[string]bool{}
	for _, s := range slots {
		if s.kind == slComp || s.kind == slHeap {
			changedComp[s.comp] = true
		}
	}
	isHdr := map[*Node]bool{}
	for _, s := range slots {
		isHdr[s.hdr] = true
	}
	for _, c := range sortedCells(h.cells) {
		// pointers held in locals: $p
		if pv, ok := h.cells[c].(*PtrV); ok && c.typ != nil && pv.ref != nil {
			r["p"] = append(r["p"], SVal{pv, c.typ})
		}
		if cn, ok := h.cells[c].(*Node); ok && c.typ != nil && !isHdr[cn] {
			if _, ok := types.Unalias(c.typ).Underlying().(*types.Chan); ok {
				add("l", cn) // channels held in locals that the loop leaves alone
			}
		}
		if mn, ok := h.cells[c].(*Node); ok && c.typ != nil && isMap(c.typ) {
			r["g"] = append(r["g"], SVal{mn, c.typ})
		}
		var slcs []*SliceV
		var walk func(v Val)
		walk = func(v Val) {
			switch t := v.(type) {
			case *SliceV:
				slcs = append(slcs, t)
			case *StructV:
				for _, f := range t.f {
					walk(f)
				}
			}
		}
		walk(h.cells[c])
		for _, sv := range slcs {
			ls := leaves(sv.elem)
			if len(ls) != 1 {
				continue
			}
			func() {
				defer func() {
					if rr := recover(); rr != nil {
						if _, ok := rr.(*Unsupported); !ok {
							panic(rr)
						}
					}
				}()
				srt := seqSortOf(ls[0].sort)
				k := bySort[srt]
				if k == "" {
					return
				}
				nm := "E." + elemKey(sv.elem) + "." + ls[0].path
				if !(changedComp[nm] || isHdr[sv.ref] || isHdr[sv.len] || isHdr[sv.off]) {
					r["z"] = append(r["z"], SVal{sv, types.NewSlice(sv.elem)}) // left alone by the loop
					return
				}
				if sv.ref.iv != nil {
					return
				}
				arr := Select(x.comp(h, nm, ArrSort("Int", ArrSort("Int", ls[0].sort))), sv.ref)
				add(k, View(arr, sv.off, sv.len))
				if changedComp[nm] {
					add("p"+k, View(arr, sv.off, act.it))
				}
				r["v"] = append(r["v"], SVal{sv, types.NewSlice(sv.elem)})
			}()
		}
	}
	return r
}

func isMap(t types.Type) bool {
	_, ok := types.Unalias(t).Underlying().(*types.Map)
	return ok
}

func mvNames(e ast.Expr) []string {
	var r []string
	seen := map[string]bool{}
	ast.Inspect(e, func(n ast.Node) bool {
		if id, ok := n.(*ast.Ident); ok && strings.HasPrefix(id.Name, "MV_") && !seen[id.Name] {
			seen[id.Name] = true
			r = append(r, id.Name)
		}
		return true
	})
	return r
}

func (x *Exec) instTemplate(t *Clause, entry, h *State, act *loopAct, slots []*slot) []*Node {
	mv := x.metaVals(h, act, slots)
	env := x.env(h)
	env.vars["MV_it"] = lit(act.it)
	// iteration counters of enclosing loops, innermost first
	n := 0
	for i := len(h.frames) - 1; i >= 0; i-- {
		var acts []*loopAct
		for _, a := range h.frames[i].active {
			if a != act {
				acts = append(acts, a)
			}
		}
		for k := range acts {
			for l := k + 1; l < len(acts); l++ {
				if acts[l].id > acts[k].id {
					acts[k], acts[l] = acts[l], acts[k]
				}
			}
		}
		for _, a := range acts {
			n++
			nm := "MV_ot"
			if n > 1 {
				nm = fmt.Sprintf("MV_ot%d", n)
			}
			env.vars[nm] = lit(a.it)
		}
	}
	var names []string
	for _, nm := range mvNames(t.expr) {
		if _, ok := env.vars[nm]; !ok {
			names = append(names, nm)
		}
	}
	var out []*Node
	var rec func(i int, e *Env)
	rec = func(i int, e *Env) {
		if len(out) > 200 {
			return
		}
		if i == len(names) {
			func() {
				defer func() {
					if r := recover(); r != nil {
						if u, ok := r.(*Unsupported); ok {
							dbg("template %s: %s", t.text, u.msg)
							return
						}
						panic(r)
					}
				}()
				out = append(out, e.bool(t.expr))
			}()
			return
		}
		k := strings.TrimPrefix(names[i], "MV_")
		k = strings.TrimRight(k, "0123456789")
		if k == "o" { // order sequences of the map iterations in progress
			for _, o := range x.orders {
				rec(i+1, e.with(names[i], lit(o)))
			}
			return
		}
		for _, v := range mv[k] {
			rec(i+1, e.with(names[i], v))
		}
	}
	rec(0, env)
	return out
}

func (x *Exec) env(st *State) *Env {
	e := &Env{x: x, st: st, pre: x.init, vars: map[string]SVal{}}
	for k, v := range x.specVars {
		e.vars[k] = v
	}
	return e
}
