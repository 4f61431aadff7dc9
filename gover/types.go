package main

// Go types -> leaf sorts, symbolic values.

import (
	"fmt"
	"go/types"
	"strings"
)

type Val interface{}

type StructV struct {
	t types.Type // named or struct
	f []Val
}

type SliceV struct {
	ref, off, len, cap *Node
	elem               types.Type
}

type Cell struct {
	name string
	typ  types.Type
	id   int
	loop int // creation sequence number
}

// PtrV is a pointer: to (part of) a local cell, to (part of) a heap object, or to a slice element.
type PtrV struct {
	cell *Cell
	ref  *Node
	idx  *Node // element pointer
	root types.Type
	path []int
}

type TupleV []Val

type leaf struct {
	path string
	sort string
	typ  types.Type
}

func bvSort(w int) string { return fmt.Sprintf("(_ BitVec %d)", w) }

const sortF64 = "(_ FloatingPoint 11 53)"
const sortF32 = "(_ FloatingPoint 8 24)"

func opaqueLeaves(name string) ([]leaf, bool) {
	switch name {
	case "strings.Builder":
		return []leaf{{"$content", "SeqInt", nil}, {"$cap", "Int", nil}}, true
	case "sync.Mutex", "sync.RWMutex":
		return []leaf{{"$held", "Int", nil}}, true
	case "sync.WaitGroup":
		return []leaf{{"$n", "Int", nil}}, true
	case "sync/atomic.Value":
		return []leaf{{"$v", "Any", nil}}, true
	case "sync.Pool":
		return []leaf{{"New", "Fn", nil}}, true
	case "golang.org/x/sync/singleflight.Group":
		return nil, true
	case "bufio.Reader", "bufio.Writer":
		return []leaf{{"$dst", "Any", nil}, {"$size", "Int", nil}, {"$clean", "Bool", nil}}, true
	}
	return nil, false
}

func typeName(t types.Type) string {
	t = types.Unalias(t)
	if n, ok := t.(*types.Named); ok {
		o := n.Obj()
		if o.Pkg() != nil {
			p := o.Pkg().Path()
			p = strings.TrimPrefix(p, "github.com/chenquan/go-pkg/")
			return p + "." + o.Name()
		}
		return o.Name()
	}
	return ""
}

func isOpaque(t types.Type) bool {
	_, ok := opaqueLeaves(typeName(t))
	return ok
}

// leaves flattens a type.
func leaves(t types.Type) []leaf {
	t = types.Unalias(t)
	if n := typeName(t); n != "" {
		if l, ok := opaqueLeaves(n); ok {
			return l
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return []leaf{{"", basicSort(u), t}}
	case *types.Pointer, *types.Chan, *types.Map:
		return []leaf{{"", "Int", t}}
	case *types.Interface:
		return []leaf{{"", "Any", t}}
	case *types.Signature:
		return []leaf{{"", "Fn", t}}
	case *types.Slice:
		return []leaf{{"ref", "Int", nil}, {"off", "Int", nil}, {"len", "Int", nil}, {"cap", "Int", nil}}
	case *types.Struct:
		var r []leaf
		for i := 0; i < u.NumFields(); i++ {
			for _, l := range leaves(u.Field(i).Type()) {
				p := u.Field(i).Name()
				if l.path != "" {
					p += "." + l.path
				}
				r = append(r, leaf{p, l.sort, l.typ})
			}
		}
		return r
	case *types.Array:
		unsup("array type %s", t)
	}
	unsup("type %s", t)
	return nil
}

func basicSort(b *types.Basic) string {
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return "Bool"
	case types.Uint8:
		return bvSort(8)
	case types.Uint16:
		return bvSort(16)
	case types.Uint32:
		if mathU32 {
			return "Int"
		}
		return bvSort(32)
	case types.Int, types.Int8, types.Int16, types.Int32, types.Int64, types.Uint, types.Uint64, types.Uintptr, types.UntypedInt, types.UntypedRune, types.UnsafePointer:
		return "Int"
	case types.String, types.UntypedString:
		return "SeqInt"
	case types.Float64, types.UntypedFloat:
		return sortF64
	case types.Float32:
		return sortF32
	case types.UntypedNil:
		return "Int"
	}
	unsup("basic type %s", b)
	return ""
}

// mathU32: uint32 values are integers with explicit wrap-around instead of bit vectors (contract clause abstract).
var mathU32 bool

func intInfo(t types.Type) (bits int, signed bool, ok bool) {
	b, isb := types.Unalias(t).Underlying().(*types.Basic)
	if !isb {
		return
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Int16:
		return 16, true, true
	case types.Int8:
		return 8, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	case types.Uint32:
		return 32, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint8:
		return 8, false, true
	}
	return
}

func bvWidth(s string) int {
	var w int
	if n, _ := fmt.Sscanf(s, "(_ BitVec %d)", &w); n == 1 {
		return w
	}
	return 0
}

// zero value
func zeroVal(t types.Type) Val {
	ls := leaves(t)
	var ns []*Node
	for _, l := range ls {
		ns = append(ns, zeroLeaf(l))
	}
	v, rest := unflatten(t, ns)
	if len(rest) != 0 {
		panic("zeroVal")
	}
	return v
}

func zeroLeaf(l leaf) *Node {
	switch l.sort {
	case "Bool":
		return False
	case "Int":
		return IntC(0)
	case "SeqInt", "SeqAny", "SeqB8", "SeqStr", "SeqFn":
		return EmptySeq(l.sort)
	case "Any":
		return NilAny
	case "Fn":
		return NilFn()
	case sortF64:
		return mk("(_ +zero 11 53)", sortF64)
	case sortF32:
		return mk("(_ +zero 8 24)", sortF32)
	}
	if w := bvWidth(l.sort); w > 0 {
		return BVC(0, w)
	}
	unsup("zero of sort %s", l.sort)
	return nil
}

func NilFn() *Node { return Const("nilFn", "Fn") }
func EmptySeq(s string) *Node {
	return App("empty."+s, s)
}

// flatten a value to its leaf nodes. Cell pointers must be heapified by the caller before.
func flatten(v Val) []*Node {
	switch x := v.(type) {
	case *Node:
		return []*Node{x}
	case *StructV:
		var r []*Node
		for _, f := range x.f {
			r = append(r, flatten(f)...)
		}
		return r
	case *SliceV:
		return []*Node{x.ref, x.off, x.len, x.cap}
	case *PtrV:
		if x.cell == nil && len(x.path) == 0 && x.idx == nil {
			return []*Node{x.ref}
		}
		unsup("interior or local pointer stored in memory")
	case TupleV:
		unsup("tuple stored")
	}
	panic(fmt.Sprintf("flatten %T", v))
}

func unflatten(t types.Type, ns []*Node) (Val, []*Node) {
	t = types.Unalias(t)
	if n := typeName(t); n != "" {
		if l, ok := opaqueLeaves(n); ok {
			sv := &StructV{t: t}
			for i := range l {
				sv.f = append(sv.f, ns[i])
			}
			return sv, ns[len(l):]
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return &SliceV{ns[0], ns[1], ns[2], ns[3], u.Elem()}, ns[4:]
	case *types.Pointer:
		return &PtrV{ref: ns[0], root: u.Elem()}, ns[1:]
	case *types.Struct:
		sv := &StructV{t: t}
		for i := 0; i < u.NumFields(); i++ {
			var v Val
			v, ns = unflatten(u.Field(i).Type(), ns)
			sv.f = append(sv.f, v)
		}
		return sv, ns
	}
	return ns[0], ns[1:]
}

// typeKey names a type for heap components and boxes.
func typeKey(t types.Type) string {
	t = types.Unalias(t)
	if n := typeName(t); n != "" {
		return n
	}
	switch u := t.(type) {
	case *types.Pointer:
		return "*" + typeKey(u.Elem())
	case *types.Slice:
		return "[]" + typeKey(u.Elem())
	case *types.Map:
		return "map[" + typeKey(u.Key()) + "]" + typeKey(u.Elem())
	case *types.Chan:
		return "chan " + typeKey(u.Elem())
	case *types.Interface:
		return "any"
	case *types.Basic:
		switch u.Kind() {
		case types.Uint8:
			return "uint8"
		case types.Int32:
			return "int32"
		}
	}
	return t.String()
}

func isInterface(t types.Type) bool {
	_, ok := types.Unalias(t).Underlying().(*types.Interface)
	return ok
}

func elemKey(t types.Type) string {
	if isInterface(t) {
		return "any"
	}
	return typeKey(t)
}

// seqSort for slices of this element type.
func elemSeqSort(t types.Type) string {
	ls := leaves(t)
	if len(ls) != 1 {
		unsup("sequence of %s", t)
	}
	return seqSortOf(ls[0].sort)
}
