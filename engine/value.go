package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Val interface{}

type StructV struct {
	t types.Type
	f []Val
}
type ArrV struct {
	t types.Type
	f []Val
}

// PtrV points at path inside the object of type root stored at heap[base][idx].
type PtrV struct {
	root   types.Type
	base   *Term
	idx    *Term
	path   string
	elem   types.Type
	table  *Table // pointer to (an element of) a constant table
	tindex *Term
	str    *Term // pointer to a byte of a known byte string
	glob   string
}
type SliceV struct {
	elem                types.Type
	base, off, len, cap *Term
	str                 *Term            // contents, for byte slices
	view                map[string]*Term // leaf arrays, inside spec functions
	arr                 *PtrV            // the array inside an object it is a slice of, as the target of copy only
}
type TupleV []Val
type FuncV struct {
	fn   *ssa.Function
	bind []Val
	id   *Term
}
type IterV struct {
	id int
	s  *Term
}

type unsupported struct{ msg string }

func unsup(f string, a ...interface{}) { panic(unsupported{fmt.Sprintf(f, a...)}) }

func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

// zero value
func (ts *TS) zero(t types.Type) Val {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return ts.Str("")
		case u.Info()&types.IsBoolean != 0:
			return ts.False
		}
		return ts.Int(0)
	case *types.Struct:
		if !ts.prog.ownStruct(t) {
			return ts.Int(0)
		}
		s := &StructV{t: t}
		for i := 0; i < u.NumFields(); i++ {
			s.f = append(s.f, ts.zero(u.Field(i).Type()))
		}
		return s
	case *types.Pointer:
		return &PtrV{root: u.Elem(), base: ts.Int(0), idx: ts.Int(0), elem: u.Elem()}
	case *types.Slice:
		z := ts.Int(0)
		s := &SliceV{elem: u.Elem(), base: z, off: z, len: z, cap: z}
		if isByteSlice(t) {
			s.str = ts.Str("")
		}
		return s
	case *types.Array:
		if u.Len() <= maxArr {
			a := &ArrV{t: t}
			for i := int64(0); i < u.Len(); i++ {
				a.f = append(a.f, ts.zero(u.Elem()))
			}
			return a
		}
		return ts.Int(0)
	}
	return ts.Int(0)
}

// flatten a value of type t into leaf terms
func (ts *TS) flatten(v Val, t types.Type) []*Term {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		if x, ok := v.(*StructV); ok {
			var out []*Term
			for i := range x.f {
				out = append(out, ts.flatten(x.f[i], u.Field(i).Type())...)
			}
			return out
		}
	case *types.Array:
		if x, ok := v.(*ArrV); ok {
			var out []*Term
			for i := range x.f {
				out = append(out, ts.flatten(x.f[i], u.Elem())...)
			}
			return out
		}
	case *types.Pointer:
		x := v.(*PtrV)
		if x.path != "" || x.table != nil || !types.Identical(x.root, u.Elem()) {
			unsup("interior pointer stored: %s path %q", x.root, x.path)
		}
		return []*Term{x.base, x.idx}
	case *types.Slice:
		x := v.(*SliceV)
		return []*Term{x.base, x.off, x.len, x.cap}
	}
	switch x := v.(type) {
	case *Term:
		return []*Term{x}
	case *FuncV:
		return []*Term{x.id}
	}
	panic(fmt.Sprintf("flatten %T as %s", v, t))
}

func (ts *TS) unflatten(l []*Term, t types.Type) (Val, []*Term) {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		if ts.prog.ownStruct(t) {
			s := &StructV{t: t}
			for i := 0; i < u.NumFields(); i++ {
				var v Val
				v, l = ts.unflatten(l, u.Field(i).Type())
				s.f = append(s.f, v)
			}
			return s, l
		}
	case *types.Array:
		if u.Len() <= maxArr {
			s := &ArrV{t: t}
			for i := int64(0); i < u.Len(); i++ {
				var v Val
				v, l = ts.unflatten(l, u.Elem())
				s.f = append(s.f, v)
			}
			return s, l
		}
	case *types.Pointer:
		return &PtrV{root: u.Elem(), base: l[0], idx: l[1], elem: u.Elem()}, l[2:]
	case *types.Slice:
		s := &SliceV{elem: u.Elem(), base: l[0], off: l[1], len: l[2], cap: l[3]}
		return s, l[4:]
	}
	return l[0], l[1:]
}

// freshVal makes an unconstrained value of type t.
func (st *State) freshVal(prefix string, t types.Type) Val {
	ts := st.ex.ts
	if _, ok := t.(*types.Tuple); ok {
		tt := t.(*types.Tuple)
		var tv TupleV
		for i := 0; i < tt.Len(); i++ {
			tv = append(tv, st.freshVal(fmt.Sprintf("%s.%d", prefix, i), tt.At(i).Type()))
		}
		return tv
	}
	var l []*Term
	for _, lf := range ts.prog.leaves(t) {
		if lf.Kind == "idx" {
			l = append(l, ts.Int(0))
			continue
		}
		l = append(l, ts.Fresh(prefix+lf.Path, lf.Sort, st.nalloc))
	}
	v, _ := ts.unflatten(l, t)
	if s, ok := v.(*SliceV); ok && isByteSlice(t) {
		s.str = ts.Fresh(prefix+"$str", SStr, st.nalloc)
		st.assume(ts.Eq(ts.Len(s.str), s.len))
	}
	st.typeFacts(v, t)
	return v
}

// typeFacts assumes the facts every value of type t satisfies.
func (st *State) typeFacts(v Val, t types.Type) {
	ts := st.ex.ts
	switch u := t.Underlying().(type) {
	case *types.Basic:
		x, ok := v.(*Term)
		if !ok || x.isConst() {
			return
		}
		if lo, hi, ok := intRange(u); ok {
			st.assume(ts.Le(ts.Big(lo), x))
			st.assume(ts.Le(x, ts.Big(hi)))
		}
	case *types.Struct:
		if x, ok := v.(*StructV); ok {
			for i := range x.f {
				st.typeFacts(x.f[i], u.Field(i).Type())
			}
		}
	case *types.Array:
		if x, ok := v.(*ArrV); ok {
			for i := range x.f {
				st.typeFacts(x.f[i], u.Elem())
			}
		}
	case *types.Slice:
		x := v.(*SliceV)
		if x.len.isConst() {
			return
		}
		st.assume(ts.Le(ts.Int(0), x.len))
		st.assume(ts.Le(x.len, x.cap))
		st.assume(ts.Le(ts.Int(0), x.off))
		// a nil slice has no elements
		st.assume(ts.Implies(ts.Eq(x.base, ts.Int(0)), ts.Eq(x.cap, ts.Int(0))))
	}
}

func (p *Program) fieldIndex(t types.Type, name string) (int, types.Type, bool) {
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return 0, nil, false
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return i, st.Field(i).Type(), true
		}
	}
	return 0, nil, false
}

func compKey(p *Program, root types.Type, path string) string { return p.tkey(root) + "|" + path }

func compRoot(k string) string { return k[:strings.IndexByte(k, '|')] }
