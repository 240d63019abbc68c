package main

// Symbolic values, type layouts and the heap.

import (
	"fmt"
	"go/types"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const modPath = "github.com/voltbras/go-ocpp"

func inRepo(p *types.Package) bool {
	return p != nil && (p.Path() == modPath || strings.HasPrefix(p.Path(), modPath+"/"))
}

func qual(p *types.Package) string {
	if inRepo(p) {
		return p.Name()
	}
	return p.Path()
}

func typeKey(t types.Type) string {
	s := types.TypeString(types.Unalias(t), qual)
	if strings.Contains(s, "any") {
		s = anyRe.ReplaceAllString(s, "${1}interface{}")
	}
	return s
}

// the alias any, written out
var anyRe = regexp.MustCompile(`(^|[^\w.])any\b`)

// Value is one of *Term (scalar leaf), *Ptr, *StructV, *IfaceV, *SliceV, TupleV, *IterV, *FuncV
type Value interface{}

// Ptr is an address: object Base of type Root, then Path inside it;
// with Idx, Base is a backing array of Root elements.
type Ptr struct {
	Base *Term
	Idx  *Term
	Root types.Type
	Path string
	Typ  types.Type // type of the pointed-to location
}

type StructV struct {
	Typ    types.Type
	Fields []Value
}

type IfaceV struct {
	Tag  *Term
	Data *Term // box; nil when Val is set and not boxed yet
	Con  types.Type
	Val  Value
}

type SliceV struct {
	Arr, Off, Len *Term
	Elem          types.Type
}

type ArrayV struct { // small array values
	Typ   *types.Array
	Elems []Value
}

type TupleV []Value

// map iterator
type IterV struct {
	Map     *Term
	MapT    *types.Map
	Visited *Term // Array K Bool
	id      int
	isStr   bool
}

// FuncV is a known function or closure
type FuncV struct {
	Fn   *ssa.Function
	Bind []Value
	id   *Term
}

// builtin-modelled values (reflect.Value, xml encoder...) are ordinary terms

type Leaf struct {
	Path string
	S    Sort
}

func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func namedPath(t types.Type) string {
	if n, ok := types.Unalias(t).(*types.Named); ok {
		if n.Obj().Pkg() != nil {
			return n.Obj().Pkg().Path() + "." + n.Obj().Name()
		}
		return n.Obj().Name()
	}
	return ""
}

// types whose content is one opaque word
func opaqueSort(t types.Type) (Sort, bool) {
	switch namedPath(t) {
	case "time.Time":
		return STime, true
	case "github.com/google/uuid.UUID":
		return SStr, true
	case "reflect.Value":
		return Sort("RVal"), true
	}
	return "", false
}

// types without content of their own in the model
func emptyLayout(t types.Type) bool {
	switch namedPath(t) {
	case "sync.Mutex", "sync.RWMutex", "sync.Once", "sync.WaitGroup":
		return true
	}
	return false
}

type layoutInfo struct {
	leaves []Leaf
}

var layouts = map[string]*layoutInfo{}

func leavesOf(t types.Type) []Leaf {
	k := typeKey(t)
	if l, ok := layouts[k]; ok {
		return l.leaves
	}
	l := &layoutInfo{}
	l.leaves = computeLeaves(t)
	layouts[k] = l
	return l.leaves
}

func scalarSort(t types.Type) (Sort, bool) {
	if s, ok := opaqueSort(t); ok {
		return s, true
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return SBool, true
		case u.Info()&types.IsInteger != 0:
			return SInt, true
		case u.Info()&types.IsFloat != 0:
			return SReal, true
		case u.Info()&types.IsString != 0:
			return SStr, true
		case u.Kind() == types.UnsafePointer || u.Kind() == types.UntypedNil:
			return SInt, true
		case u.Info()&types.IsComplex != 0:
			return Sort("Cplx"), true
		}
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return SInt, true
	case *types.Slice:
		if isByteSlice(t) {
			return SStr, true
		}
	}
	return "", false
}

func computeLeaves(t types.Type) []Leaf {
	if emptyLayout(t) {
		return nil
	}
	if s, ok := scalarSort(t); ok {
		return []Leaf{{"", s}}
	}
	switch u := t.Underlying().(type) {
	case *types.Interface:
		return []Leaf{{"#t", SInt}, {"#d", SBox}}
	case *types.Slice:
		return []Leaf{{"#a", SInt}, {"#o", SInt}, {"#n", SInt}}
	case *types.Struct:
		var ls []Leaf
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			for _, l := range leavesOf(f.Type()) {
				ls = append(ls, Leaf{"." + fieldName(u, i) + l.Path, l.S})
			}
		}
		return ls
	case *types.Array:
		var ls []Leaf
		if u.Len() > 64 {
			return nil
		}
		for i := int64(0); i < u.Len(); i++ {
			for _, l := range leavesOf(u.Elem()) {
				ls = append(ls, Leaf{fmt.Sprintf("[%d]%s", i, l.Path), l.S})
			}
		}
		return ls
	case *types.TypeParam:
		return []Leaf{{"", SInt}}
	}
	panic(unsupported("layout of type %s", t))
}

func fieldName(u *types.Struct, i int) string {
	n := u.Field(i).Name()
	if n == "_" {
		return fmt.Sprintf("_%d", i)
	}
	return n
}

// ------------------------------------------------------------ type tags

var (
	typeIDs   = map[string]int64{}
	typeByID  = map[int64]types.Type{}
	typeIDCnt int64
)

func typeID(t types.Type) int64 {
	k := typeKey(t)
	if id, ok := typeIDs[k]; ok {
		return id
	}
	typeIDCnt++
	typeIDs[k] = typeIDCnt
	typeByID[typeIDCnt] = t
	return typeIDCnt
}

func tagLit(t types.Type) *Term { return IntLit(typeID(t)) }

// tags of types that do not occur in the program (errors made by the library, ...)
func externTag(name string) *Term {
	typeIDs["extern:"+name] = typeIDs["extern:"+name]
	if typeIDs["extern:"+name] == 0 {
		typeIDCnt++
		typeIDs["extern:"+name] = typeIDCnt
	}
	return IntLit(typeIDs["extern:"+name])
}

// ------------------------------------------------------------ pointers as terms

func (p *Ptr) term() *Term {
	if p.Path == "" && p.Idx == nil {
		return p.Base
	}
	if p.Idx != nil {
		return registerIptr(p, App("iptr!e|"+typeKey(p.Root)+"|"+p.Path, SInt, p.Base, p.Idx))
	}
	return registerIptr(p, App("iptr!f|"+typeKey(p.Root)+"|"+p.Path, SInt, p.Base))
}

var iptrOf = map[*Term]*Ptr{}

func registerIptr(p *Ptr, t *Term) *Term {
	iptrOf[t] = p
	return t
}

func ptrFromTerm(t *Term, elem types.Type) *Ptr {
	if p, ok := iptrOf[t]; ok {
		return p
	}
	if t.hasIptr && t.Op != "select" {
		panic(unsupported("pointer that may be interior: %s", t))
	}
	if t.hasIptr && t.Op == "select" {
		panic(unsupported("pointer loaded from memory that holds interior pointers"))
	}
	return &Ptr{Base: t, Root: elem, Typ: elem}
}

// ------------------------------------------------------------ flatten / unflatten

func (ex *Exec) flatten(v Value, t types.Type) []*Term {
	if emptyLayout(t) {
		return nil
	}
	switch x := v.(type) {
	case *Term:
		return []*Term{x}
	case *Ptr:
		return []*Term{x.term()}
	case *FuncV:
		return []*Term{ex.funcTerm(x)}
	case *IfaceV:
		return []*Term{x.Tag, ex.ifaceData(x)}
	case *SliceV:
		return []*Term{x.Arr, x.Off, x.Len}
	case *StructV:
		var out []*Term
		u := x.Typ.Underlying().(*types.Struct)
		for i, f := range x.Fields {
			out = append(out, ex.flatten(f, u.Field(i).Type())...)
		}
		return out
	case *ArrayV:
		var out []*Term
		for _, e := range x.Elems {
			out = append(out, ex.flatten(e, x.Typ.Elem())...)
		}
		return out
	}
	panic(unsupported("flatten %T of type %s", v, t))
}

func (ex *Exec) unflatten(ls []*Term, t types.Type) Value {
	v, rest := ex.unflat(ls, t)
	if len(rest) != 0 {
		panic("unflatten: leftover leaves for " + t.String())
	}
	return v
}

func (ex *Exec) unflat(ls []*Term, t types.Type) (Value, []*Term) {
	if emptyLayout(t) {
		return &StructV{Typ: types.NewStruct(nil, nil)}, ls
	}
	if _, ok := scalarSort(t); ok {
		x := ls[0]
		if _, isOp := opaqueSort(t); isOp {
			return x, ls[1:]
		}
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			return ptrFromTermLazy(x, u.Elem()), ls[1:]
		case *types.Signature:
			if f := ex.closures[x]; f != nil {
				return f, ls[1:]
			}
		}
		return x, ls[1:]
	}
	switch u := t.Underlying().(type) {
	case *types.Interface:
		return ex.mkIface(ls[0], ls[1]), ls[2:]
	case *types.Slice:
		return &SliceV{ls[0], ls[1], ls[2], u.Elem()}, ls[3:]
	case *types.Struct:
		s := &StructV{Typ: t}
		for i := 0; i < u.NumFields(); i++ {
			var f Value
			f, ls = ex.unflat(ls, u.Field(i).Type())
			s.Fields = append(s.Fields, f)
		}
		return s, ls
	case *types.Array:
		s := &ArrayV{Typ: u}
		for i := int64(0); i < u.Len(); i++ {
			var f Value
			f, ls = ex.unflat(ls, u.Elem())
			s.Elems = append(s.Elems, f)
		}
		return s, ls
	}
	panic(unsupported("unflatten %s", t))
}

// a pointer value whose structure is resolved on use
func ptrFromTermLazy(t *Term, elem types.Type) Value {
	if p, ok := iptrOf[t]; ok {
		return p
	}
	return &Ptr{Base: t, Root: elem, Typ: elem}
}

func (ex *Exec) mkIface(tag, data *Term) *IfaceV {
	v := &IfaceV{Tag: tag, Data: data}
	if tag.isInt() {
		if t, ok := typeByID[tag.intVal()]; ok {
			v.Con = t
		}
	}
	return v
}

// boxing
func boxName(t types.Type, ls []Leaf) string {
	if len(ls) == 1 {
		return "box!" + string(ls[0].S)
	}
	return "box!" + typeKey(t)
}

func (ex *Exec) box(v Value, t types.Type) *Term {
	ls := leavesOf(t)
	terms := ex.flatten(v, t)
	if len(ls) == 0 {
		return Const("box!empty!"+typeKey(t), SBox)
	}
	return App(boxName(t, ls), SBox, terms...)
}

func (ex *Exec) unbox(d *Term, t types.Type) Value {
	ls := leavesOf(t)
	if len(ls) == 0 {
		return zeroValue(ex, t)
	}
	if v := ex.unboxJSON(d, t); v != nil {
		return v
	}
	n := boxName(t, ls)
	if d.Op == "app" && d.Name == n {
		return ex.unflatten(d.Args, t)
	}
	var out []*Term
	for i, l := range ls {
		out = append(out, App(fmt.Sprintf("un%s!%d", n, i), l.S, d))
	}
	return ex.unflatten(out, t)
}

func (ex *Exec) ifaceData(v *IfaceV) *Term {
	if v.Data == nil {
		v.Data = ex.box(v.Val, v.Con)
	}
	return v.Data
}

func (ex *Exec) ifaceVal(v *IfaceV) Value {
	if v.Val == nil && v.Con != nil {
		v.Val = ex.unbox(v.Data, v.Con)
	}
	return v.Val
}

var zeroBox = Const("box!nil", SBox)

func nilIface() *IfaceV { return &IfaceV{Tag: IntLit(0), Data: zeroBox} }

func zeroTerm(s Sort) *Term {
	switch s {
	case SBool:
		return False
	case SInt:
		return IntLit(0)
	case SReal:
		return mk("real", "0", SReal)
	case SStr:
		return StrLit("")
	case SBox:
		return zeroBox
	}
	if s.isArray() {
		_, v := s.parts()
		return ConstArr(s, zeroTerm(v))
	}
	return Const("zero!"+string(s), s)
}

func zeroLeaves(t types.Type) []*Term {
	var out []*Term
	for _, l := range leavesOf(t) {
		out = append(out, zeroTerm(l.S))
	}
	return out
}

func zeroValue(ex *Exec, t types.Type) Value { return ex.unflatten(zeroLeaves(t), t) }

// ------------------------------------------------------------ heap access

// all arrays of a location: key and sort
func heapKey(root types.Type, elem bool, path string) string {
	if elem {
		return "[*]" + typeKey(root) + "|" + path
	}
	return typeKey(root) + "|" + path
}

var heapKeyOf = map[*Term]string{} // array constant -> heap key

func (st *State) arr(key string, s Sort) *Term {
	if a, ok := st.heap[key]; ok {
		return a
	}
	a := Const(fmt.Sprintf("h%d!%s", st.epoch, key), s)
	heapKeyOf[a] = key
	if _, ok := refRank[a]; !ok {
		refRank[a] = 0
		if st.epoch > 0 {
			refRank[a] = rankOfAlloc(st.alloc)
		}
	}
	st.heap[key] = a
	return a
}

func elemArrSort(s Sort) Sort { return ArraySort(SInt, ArraySort(SInt, s)) }

func (st *State) loadLeaf(p *Ptr, l Leaf) *Term {
	if p.Idx != nil {
		a := st.arr(heapKey(p.Root, true, p.Path+l.Path), elemArrSort(l.S))
		return Select(Select(a, p.Base), p.Idx)
	}
	a := st.arr(heapKey(p.Root, false, p.Path+l.Path), ArraySort(SInt, l.S))
	return Select(a, p.Base)
}

func (st *State) storeLeaf(p *Ptr, l Leaf, v *Term) {
	if p.Idx != nil {
		k := heapKey(p.Root, true, p.Path+l.Path)
		a := st.arr(k, elemArrSort(l.S))
		st.heap[k] = Store(a, p.Base, Store(Select(a, p.Base), p.Idx, v))
		return
	}
	k := heapKey(p.Root, false, p.Path+l.Path)
	a := st.arr(k, ArraySort(SInt, l.S))
	st.heap[k] = Store(a, p.Base, v)
}

// Load reads a value of type t at p. Well-typedness of stored references is assumed.
func (ex *Exec) load(st *State, p *Ptr, t types.Type) Value {
	if p == nil {
		panic(unsupported("load through unknown pointer"))
	}
	if at, ok := t.Underlying().(*types.Array); ok && p.Idx == nil && p.Path == "" {
		// arrays live in element memory
		if _, op := opaqueSort(t); !op {
			v := &ArrayV{Typ: at}
			for i := int64(0); i < at.Len(); i++ {
				v.Elems = append(v.Elems, ex.load(st, &Ptr{Base: p.Base, Idx: IntLit(i), Root: at.Elem(), Typ: at.Elem()}, at.Elem()))
			}
			return v
		}
	}
	var ls []*Term
	for _, l := range leavesOf(t) {
		x := st.loadLeaf(p, l)
		ls = append(ls, x)
	}
	v := ex.unflatten(ls, t)
	ex.wellTyped(st, v, t)
	return v
}

func (ex *Exec) store(st *State, p *Ptr, v Value, t types.Type) {
	if at, ok := t.Underlying().(*types.Array); ok && p.Idx == nil && p.Path == "" {
		if _, op := opaqueSort(t); !op {
			if av, ok := v.(*ArrayV); ok {
				for i := range av.Elems {
					ex.store(st, &Ptr{Base: p.Base, Idx: IntLit(int64(i)), Root: at.Elem(), Typ: at.Elem()}, av.Elems[i], at.Elem())
				}
				return
			}
		}
	}
	ls := leavesOf(t)
	ts := ex.flatten(v, t)
	if len(ls) != len(ts) {
		panic(unsupported("store of %T to %s", v, t))
	}
	for i, l := range ls {
		st.storeLeaf(p, l, ts[i])
	}
}

// wellTyped assumes what the type system guarantees about a value from memory or the environment.
func (ex *Exec) wellTyped(st *State, v Value, t types.Type) {
	refOK := func(x *Term) {
		if x.isInt() || isFuncConst(x) {
			return
		}
		if b, _ := linear(x); isAllocBase(b) {
			return
		}
		if st.typed[x] {
			return
		}
		st.typed = addTyped(st.typed, x)
		st.assume(And(Le(IntLit(0), x), Lt(x, st.alloc)))
	}
	switch x := v.(type) {
	case *Ptr:
		if x.Path == "" && x.Idx == nil {
			refOK(x.Base)
		}
	case *Term:
		if x.S == SInt {
			switch u := t.Underlying().(type) {
			case *types.Map, *types.Chan:
				refOK(x)
			case *types.Basic:
				if u.Info()&types.IsUnsigned != 0 && !x.isInt() {
					st.assume(Le(IntLit(0), x))
				}
			}
		}
	case *SliceV:
		refOK(x.Arr)
		if !x.Len.isInt() && !st.typed[x.Len] {
			st.typed = addTyped(st.typed, x.Len)
			st.assume(And(Le(IntLit(0), x.Len), Le(IntLit(0), x.Off)))
			if x.Arr != IntLit(0) {
				st.assume(Imp(Eq(x.Arr, IntLit(0)), Eq(x.Len, IntLit(0))))
			}
		}
	case *IfaceV:
		if !x.Tag.isInt() && !st.typed[x.Tag] {
			st.typed = addTyped(st.typed, x.Tag)
			st.assume(Le(IntLit(0), x.Tag))
			// the dynamic type implements the static interface type
			if it, ok := t.Underlying().(*types.Interface); ok && it.NumMethods() > 0 {
				st.assume(Or(Eq(x.Tag, IntLit(0)), ex.implements(x.Tag, t)))
			}
		}
	case *StructV:
		u := x.Typ.Underlying().(*types.Struct)
		for i, f := range x.Fields {
			ex.wellTyped(st, f, u.Field(i).Type())
		}
	case *ArrayV:
		for _, f := range x.Elems {
			ex.wellTyped(st, f, x.Typ.Elem())
		}
	}
}

func addTyped(m map[*Term]bool, x *Term) map[*Term]bool {
	m[x] = true
	return m
}

// field selection on an address
func fieldPtr(p *Ptr, st *types.Struct, i int) *Ptr {
	return &Ptr{Base: p.Base, Idx: p.Idx, Root: p.Root, Path: p.Path + "." + fieldName(st, i), Typ: st.Field(i).Type()}
}

// fresh symbolic value of a type
func (ex *Exec) freshValue(st *State, name string, t types.Type) Value {
	if tt, ok := t.(*types.Tuple); ok {
		var out TupleV
		for i := 0; i < tt.Len(); i++ {
			out = append(out, ex.freshValue(st, fmt.Sprintf("%s.%d", name, i), tt.At(i).Type()))
		}
		return out
	}
	var ls []*Term
	for _, l := range leavesOf(t) {
		c := Fresh(name+l.Path, l.S)
		if st != nil && l.S == SInt {
			if b, _ := linear(st.alloc); isAllocBase(b) {
				refRank[c] = allocRank[b] + 1
			}
		}
		ls = append(ls, c)
	}
	v := ex.unflatten(ls, t)
	if st != nil {
		ex.wellTyped(st, v, t)
	}
	return v
}

func (ex *Exec) funcTerm(f *FuncV) *Term {
	if f.id == nil {
		if len(f.Bind) == 0 {
			f.id = Const("fn!"+f.Fn.String(), SInt)
		} else {
			f.id = Fresh("fn!"+f.Fn.String(), SInt)
		}
	}
	ex.closures[f.id] = f
	return f.id
}
