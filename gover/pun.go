package main

import (
	"go/types"
	"strings"
)

// unsafeOrigin: the type an object was allocated with, for references converted
// to unsafe.Pointer. Access through a pointer of another type is a type pun; the
// puns between slices, strings and their reflect headers are modelled, all
// others are outside the subset.
var _ types.Type

func headerKind(t types.Type) string {
	switch typeName(t) {
	case "reflect.SliceHeader":
		return "sliceheader"
	case "reflect.StringHeader":
		return "stringheader"
	}
	switch u := types.Unalias(t).Underlying().(type) {
	case *types.Basic:
		if u.Kind() == types.String {
			return "string"
		}
	case *types.Slice:
		if elemKey(u.Elem()) == "uint8" {
			return "bytes"
		}
	}
	return ""
}

// punLoad reads an object allocated with type o through p (of another type).
func (x *Exec) punLoad(st *State, p *PtrV, o types.Type) Val {
	v := x.load(st, &PtrV{ref: p.ref, root: o})
	from, to := headerKind(o), headerKind(p.root)
	switch {
	case from == "bytes" && to == "string" && len(p.path) == 0:
		// the string header is the first two words of the slice header
		return Dec(x.view(st, v.(*SliceV)))
	case from == "string" && to == "stringheader" && len(p.path) == 1:
		s := asNode(v)
		if p.path[0] == 0 {
			return App("straddr", "Int", s)
		}
		return Blen(s)
	case from == "bytes" && to == "sliceheader" && len(p.path) == 1:
		s := v.(*SliceV)
		switch p.path[0] {
		case 0:
			return App("sladdr", "Int", s.ref, s.off)
		case 1:
			return s.len
		}
		return s.cap
	}
	unsup("type pun from %s to %s", o, p.root)
	return nil
}

func (x *Exec) punStore(st *State, p *PtrV, o types.Type, v Val) {
	cp := &PtrV{ref: p.ref, root: o}
	if headerKind(o) != "bytes" || headerKind(p.root) != "sliceheader" || len(p.path) != 1 {
		unsup("type pun from %s to %s", o, p.root)
	}
	s := *x.rawSlice(st, cp)
	n := asNode(v)
	switch p.path[0] {
	case 0:
		switch strings.TrimPrefix(n.op, "f:") {
		case "straddr":
			b := x.sliceOfSeq(st, s.elem, Enc(n.args[0]))
			s.ref, s.off = b.ref, b.off
			strMem[b.ref] = n.args[0]
		case "sladdr":
			s.ref, s.off = n.args[0], n.args[1]
		default:
			unsup("a slice header's Data is set to a computed address %s", show(n))
		}
	case 1:
		s.len = n
	case 2:
		s.cap = n
	}
	x.store(st, cp, &s)
}

// rawSlice reads a slice header that may be half written: nothing is assumed about it.
func (x *Exec) rawSlice(st *State, p *PtrV) *SliceV {
	t, names, sorts := ptrComps(p)
	x.heapAccess(st, p, names, false)
	var ns []*Node
	for k := range names {
		ns = append(ns, Select(x.comp(st, names[k], ArrSort("Int", sorts[k])), p.ref))
	}
	v, _ := unflatten(t, ns)
	return v.(*SliceV)
}

// strMem: memory that belongs to a string; a slice over it ends where the string ends.
var strMem = map[*Node]*Node{}

func memLimit(s *SliceV) *Node {
	if t := strMem[s.ref]; t != nil {
		return Le(s.cap, Blen(t))
	}
	return True
}
