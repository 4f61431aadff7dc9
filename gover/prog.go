package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Prog struct {
	dir        string
	prog       *ssa.Program
	pkgs       []*packages.Package
	funcs      map[string]*ssa.Function
	contracts  map[string]*Contract
	globalsW   map[*ssa.Global]bool
	loops      map[*ssa.Function]map[*ssa.BasicBlock]*loopInfo
	fnNodes    map[*ssa.Function]*Node
	top0       *Node
	pkgByName  map[string]*types.Package
	globFacts  []globFact
	poolInvs   map[string]*Clause
	flightInvs map[string]*Clause
	specs      map[string]string // methods used through a specification program
	defines    map[string]*macro
	typeSpecs  map[string]*TypeSpec
	mapInvs    map[string]*Clause
}

type globFact struct {
	fn string // the init function that establishes it
	c  *Clause
}

const modPath = "github.com/chenquan/go-pkg"

func loadProg(dir string, overlay map[string][]byte) (*Prog, error) {
	cfg := &packages.Config{Mode: packages.LoadSyntax | packages.NeedModule, Dir: dir, Overlay: overlay,
		Env: append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off")}
	ps, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	for _, p := range ps {
		for _, e := range p.Errors {
			return nil, fmt.Errorf("%s: %v", p.PkgPath, e)
		}
	}
	prog, spkgs := ssautil.Packages(ps, ssa.NaiveForm)
	prog.Build()
	p := &Prog{dir: dir, prog: prog, pkgs: ps, funcs: map[string]*ssa.Function{}, contracts: map[string]*Contract{}, globalsW: map[*ssa.Global]bool{}, loops: map[*ssa.Function]map[*ssa.BasicBlock]*loopInfo{}, fnNodes: map[*ssa.Function]*Node{}, pkgByName: map[string]*types.Package{}, poolInvs: map[string]*Clause{}, flightInvs: map[string]*Clause{}, defines: map[string]*macro{}, specs: map[string]string{}, mapInvs: map[string]*Clause{}, typeSpecs: map[string]*TypeSpec{}}
	p.top0 = newTop()
	for _, sp := range spkgs {
		if sp != nil {
			p.pkgByName[sp.Pkg.Name()] = sp.Pkg
			for _, im := range sp.Pkg.Imports() {
				if _, ok := p.pkgByName[im.Name()]; !ok {
					p.pkgByName[im.Name()] = im
				}
			}
		}
	}
	for fn := range ssautil.AllFunctions(prog) {
		if fn.Pkg == nil && fn.Object() == nil {
			continue
		}
		pkg := fn.Pkg
		if pkg == nil {
			continue
		}
		if !p.isRepo(pkg.Pkg.Path()) {
			continue
		}
		if fn.Parent() == nil && fn.Synthetic == "" {
			p.funcs[funcKey(fn)] = fn
		}
		isInit := fn.Name() == "init" || strings.HasPrefix(fn.Name(), "init#")
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok {
					if g, ok := s.Addr.(*ssa.Global); ok && !isInit {
						p.globalsW[g] = true
					}
				}
				// address of a package variable taken anywhere but for loads, stores and method calls
				for _, op := range in.Operands(nil) {
					g, ok := (*op).(*ssa.Global)
					if !ok {
						continue
					}
					switch y := in.(type) {
					case *ssa.UnOp, *ssa.Store, *ssa.FieldAddr:
						if s, ok := in.(*ssa.Store); ok && s.Val == ssa.Value(g) {
							p.globalsW[g] = true
						}
						if _, ok := in.(*ssa.FieldAddr); ok {
							p.globalsW[g] = true
						}
					default:
						_ = y
						p.globalsW[g] = true
					}
				}
			}
		}
	}
	return p, nil
}

func (p *Prog) isRepo(path string) bool {
	return path == modPath || strings.HasPrefix(path, modPath+"/")
}

// funcKey: "xring.(*Ring).Add", "xmath.MaxInt", "strings.(*Builder).WriteRune".
func funcKey(fn *ssa.Function) string {
	name := fn.Name()
	var pkg *types.Package
	if fn.Pkg != nil {
		pkg = fn.Pkg.Pkg
	} else if fn.Object() != nil {
		pkg = fn.Object().Pkg()
	}
	pp := ""
	if pkg != nil {
		pp = strings.TrimPrefix(pkg.Path(), modPath+"/")
	}
	if r := fn.Signature.Recv(); r != nil {
		t := types.Unalias(r.Type())
		s := ""
		if pt, ok := t.(*types.Pointer); ok {
			t = types.Unalias(pt.Elem())
			s = "*"
		}
		n := ""
		if nt, ok := t.(*types.Named); ok {
			n = nt.Obj().Name()
			if pp == "" && nt.Obj().Pkg() != nil {
				pp = strings.TrimPrefix(nt.Obj().Pkg().Path(), modPath+"/")
			}
		}
		return pp + ".(" + s + n + ")." + name
	}
	if fn.Parent() != nil {
		return funcKey(fn.Parent()) + "$" + name
	}
	return pp + "." + name
}

func (p *Prog) immutableGlobal(g *ssa.Global) bool {
	return !p.globalsW[g]
}

func (p *Prog) loopsOf(fn *ssa.Function) map[*ssa.BasicBlock]*loopInfo {
	if l, ok := p.loops[fn]; ok {
		return l
	}
	l := findLoops(fn)
	p.loops[fn] = l
	return l
}

func (p *Prog) fnNode(fn *ssa.Function) *Node {
	if n, ok := p.fnNodes[fn]; ok {
		return n
	}
	n := Const("clo!fn."+funcKey(fn), "Fn")
	p.fnNodes[fn] = n
	closTable[n] = &ClosV{fn: fn, n: n}
	return n
}

func (p *Prog) pos(t token.Pos) string {
	if !t.IsValid() {
		return ""
	}
	q := p.prog.Fset.Position(t)
	if r, err := filepath.Rel(p.dir, q.Filename); err == nil {
		q.Filename = r
	}
	return fmt.Sprintf("%s:%d", q.Filename, q.Line)
}

func (p *Prog) funcNames() []string {
	var r []string
	for k := range p.funcs {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// parseType resolves a type written as in Go, with package-qualified names by package name.
func (p *Prog) parseType(s string) types.Type {
	s = strings.TrimSpace(s)
	switch {
	case strings.HasPrefix(s, "*"):
		return types.NewPointer(p.parseType(s[1:]))
	case strings.HasPrefix(s, "[]"):
		return types.NewSlice(p.parseType(s[2:]))
	case s == "interface{}" || s == "any":
		return types.NewInterfaceType(nil, nil)
	}
	if o := types.Universe.Lookup(s); o != nil {
		return o.Type()
	}
	if i := strings.LastIndex(s, "."); i > 0 {
		pk := p.pkgByName[s[:i]]
		if pk != nil {
			if o := pk.Scope().Lookup(s[i+1:]); o != nil {
				return o.Type()
			}
		}
	}
	unsup("unknown type %q in a contract", s)
	return nil
}
