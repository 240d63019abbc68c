package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Formats and their arguments (C17).

// verbs of a literal format: the verb letters in the order of their arguments
func verbs(f string) ([]byte, bool) {
	var out []byte
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			continue
		}
		i++
		for i < len(f) && strings.IndexByte("+-# 0123456789.", f[i]) >= 0 {
			i++
		}
		if i >= len(f) {
			return nil, false
		}
		if f[i] == '%' {
			continue
		}
		if strings.IndexByte("vTtbcdoOqxXUeEfFgGspw", f[i]) < 0 {
			return nil, false
		}
		out = append(out, f[i])
	}
	return out, true
}

// printText: Printf's text, which knows no %w
func (ex *Exec) printText(st *State, f *Term, args *SliceV) *Term {
	if f.Op == "str" {
		if vs, ok := verbs(f.Name); ok && !strings.Contains(string(vs), "w") {
			return ex.formatText(st, f, args)
		}
	}
	el := args.Elem
	ts := st.arr(heapKey(el, true, "#t"), elemArrSort(SInt))
	ds := st.arr(heapKey(el, true, "#d"), elemArrSort(SBox))
	return App("printtext", SStr, f, args.Off, args.Len, Select(ts, args.Arr), Select(ds, args.Arr))
}

func (ex *Exec) goodFormat(st *State, f *Term, args *SliceV, w bool) *Term {
	if f.Op != "str" {
		el := args.Elem
		ts := st.arr(heapKey(el, true, "#t"), elemArrSort(SInt))
		return App("goodformat", SBool, f, args.Off, args.Len, Select(ts, args.Arr), BoolLit(w))
	}
	vs, ok := verbs(f.Name)
	if !ok {
		return False
	}
	out := Eq(args.Len, IntLit(int64(len(vs))))
	for i, v := range vs {
		p := &Ptr{Base: args.Arr, Idx: Add(args.Off, IntLit(int64(i))), Root: args.Elem, Typ: args.Elem}
		iv := ex.load(st, p, args.Elem).(*IfaceV)
		switch {
		case v == 'w' && !w:
			return False
		case v == 'w':
			out = And(out, Ne(iv.Tag, IntLit(0)), ex.implements(iv.Tag, types.Universe.Lookup("error").Type()))
		case iv.Con != nil && !fitsVerb(iv.Con, v, 0):
			return False
		}
	}
	return out
}

// fitsVerb: fmt has a text for values of this type with this verb
func fitsVerb(t types.Type, v byte, depth int) bool {
	if v == 'v' || v == 'T' || depth > 4 {
		return true
	}
	if hasMethod(t, "Format") != nil {
		return true
	}
	if strings.IndexByte("sqxX", v) >= 0 && (hasMethod(t, "Error") != nil || hasMethod(t, "String") != nil) {
		return true
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return strings.IndexByte("sqxX", v) >= 0
		case u.Info()&types.IsInteger != 0:
			return strings.IndexByte("bcdoOqxXU", v) >= 0
		case u.Info()&(types.IsFloat|types.IsComplex) != 0:
			return strings.IndexByte("beEfFgGxX", v) >= 0
		case u.Info()&types.IsBoolean != 0:
			return v == 't'
		}
		return true
	case *types.Slice:
		if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Byte {
			return strings.IndexByte("sqxXdboOcUp", v) >= 0
		}
		return v == 'p' || fitsVerb(u.Elem(), v, depth+1)
	case *types.Array:
		return fitsVerb(u.Elem(), v, depth+1)
	case *types.Map:
		return v == 'p' || fitsVerb(u.Key(), v, depth+1) && fitsVerb(u.Elem(), v, depth+1)
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if !fitsVerb(u.Field(i).Type(), v, depth+1) {
				return false
			}
		}
		return true
	case *types.Pointer:
		if v == 'p' {
			return true
		}
		switch u.Elem().Underlying().(type) {
		case *types.Struct, *types.Slice, *types.Array, *types.Map:
			if depth == 0 {
				return fitsVerb(u.Elem(), v, depth+1)
			}
		}
		return strings.IndexByte("bdoxX", v) >= 0
	case *types.Chan, *types.Signature:
		return strings.IndexByte("pbdoxX", v) >= 0
	}
	return true
}

// inert: a method that neither calls, stores, sends nor starts anything
func (ex *Exec) inert(v *IfaceV, method *Term) bool {
	t := v.Con
	if t == nil && v.Tag.isInt() {
		t = typeByID[v.Tag.intVal()]
	}
	if t == nil || method.Op != "str" {
		return false
	}
	var fn *ssa.Function
	ms := ex.prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == method.Name {
			fn = ex.prog.MethodValue(ms.At(i))
		}
	}
	if fn == nil {
		return false
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Return, *ssa.DebugRef, *ssa.UnOp, *ssa.BinOp, *ssa.FieldAddr, *ssa.Jump, *ssa.If, *ssa.Phi, *ssa.Alloc:
			case *ssa.Store:
				if _, ok := x.Addr.(*ssa.Alloc); !ok {
					return false
				}
			case *ssa.Call:
				if _, ok := x.Call.Value.(*ssa.Builtin); !ok {
					return false
				}
			default:
				return false
			}
		}
	}
	return len(fn.Blocks) > 0
}
