package main

// Evaluation of specification expressions.

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"strconv"
)

type TV struct {
	V Value
	T types.Type
}

type Env struct {
	ex   *Exec
	st   *State
	old  *State
	vars map[string]TV
	pos  string
	deep int
	side []*Term // definitional facts met while evaluating
}

type specErr struct{ msg string }

func (en *Env) errf(f string, a ...interface{}) specErr {
	return specErr{en.pos + ": " + fmt.Sprintf(f, a...)}
}

func (en *Env) with(m map[string]TV) *Env {
	n := *en
	n.vars = map[string]TV{}
	for k, v := range en.vars {
		n.vars[k] = v
	}
	for k, v := range m {
		n.vars[k] = v
	}
	return &n
}

func (en *Env) bool(e ast.Expr) *Term {
	t := en.term(e)
	if t.S != SBool {
		panic(en.errf("boolean expected, have %s", t.S))
	}
	return t
}

func (en *Env) term(e ast.Expr) *Term {
	v := en.eval(e)
	return en.asTerm(v)
}

func (en *Env) asTerm(v TV) *Term {
	switch x := v.V.(type) {
	case *Term:
		return x
	case *Ptr:
		return x.term()
	case *FuncV:
		return en.ex.funcTerm(x)
	}
	panic(en.errf("scalar expected, have %T", v.V))
}

// resolveType reads a type written in a specification
func (en *Env) resolveType(e ast.Expr) types.Type {
	switch x := e.(type) {
	case *ast.StarExpr:
		return types.NewPointer(en.resolveType(x.X))
	case *ast.ParenExpr:
		return en.resolveType(x.X)
	case *ast.ArrayType:
		if x.Len == nil {
			return types.NewSlice(en.resolveType(x.Elt))
		}
	case *ast.MapType:
		return types.NewMap(en.resolveType(x.Key), en.resolveType(x.Value))
	case *ast.InterfaceType:
		return types.NewInterfaceType(nil, nil)
	case *ast.Ident:
		if o := types.Universe.Lookup(x.Name); o != nil {
			return o.Type()
		}
	case *ast.SelectorExpr:
		if id, ok := x.X.(*ast.Ident); ok {
			if o := en.ex.lookupObj(id.Name, x.Sel.Name); o != nil {
				if tn, ok := o.(*types.TypeName); ok {
					return tn.Type()
				}
			}
		}
	}
	panic(en.errf("unknown type %s", exprString(e)))
}

func exprString(e ast.Expr) string { return types.ExprString(e) }

// lookupObj finds a package-level object by package name (or last path element)
func (ex *Exec) lookupObj(pkg, name string) types.Object {
	for _, p := range ex.pkgOrder {
		if p.Pkg.Name() == pkg && inRepo(p.Pkg) {
			if o := p.Pkg.Scope().Lookup(name); o != nil {
				return o
			}
		}
	}
	for _, p := range ex.allPkgs {
		if p.Name() == pkg {
			if o := p.Scope().Lookup(name); o != nil {
				return o
			}
		}
	}
	return nil
}

func (en *Env) eval(e ast.Expr) TV {
	ex := en.ex
	switch x := e.(type) {
	case *ast.ParenExpr:
		return en.eval(x.X)
	case *ast.BasicLit:
		switch x.Kind {
		case token.INT:
			return TV{BigLit(constant.MakeFromLiteral(x.Value, token.INT, 0).ExactString()), nil}
		case token.FLOAT:
			r, _ := new(big.Rat).SetString(x.Value)
			return TV{RealLit(r), nil}
		case token.STRING:
			s, err := strconv.Unquote(x.Value)
			if err != nil {
				panic(en.errf("%v", err))
			}
			return TV{StrLit(s), types.Typ[types.String]}
		}
	case *ast.Ident:
		switch x.Name {
		case "true":
			return TV{True, types.Typ[types.Bool]}
		case "false":
			return TV{False, types.Typ[types.Bool]}
		case "nil":
			return TV{nil, nil}
		}
		if v, ok := en.vars[x.Name]; ok {
			return v
		}
		if g, ok := en.st.ghost[x.Name]; ok {
			return TV{g, nil}
		}
		if v, ok := en.special(x.Name); ok {
			return v
		}
		panic(en.errf("unknown name %s", x.Name))
	case *ast.SelectorExpr:
		if id, ok := x.X.(*ast.Ident); ok {
			if _, isVar := en.vars[id.Name]; !isVar {
				if o := ex.lookupObj(id.Name, x.Sel.Name); o != nil {
					switch c := o.(type) {
					case *types.Const:
						s, _ := scalarSort(c.Type())
						switch s {
						case SStr:
							return TV{StrLit(constant.StringVal(c.Val())), c.Type()}
						case SInt:
							return TV{BigLit(constant.ToInt(c.Val()).ExactString()), c.Type()}
						case SReal:
							r, _ := new(big.Rat).SetString(constant.ToFloat(c.Val()).ExactString())
							return TV{RealLit(r), c.Type()}
						case SBool:
							return TV{BoolLit(constant.BoolVal(c.Val())), c.Type()}
						}
					case *types.Var:
						g := ex.prog.Package(c.Pkg()).Var(c.Name())
						p := &Ptr{Base: ex.globalRef(g), Root: c.Type(), Typ: c.Type()}
						return TV{ex.load(en.st, p, c.Type()), c.Type()}
					}
				}
			}
		}
		return en.field(en.eval(x.X), x.Sel.Name)
	case *ast.StarExpr:
		v := en.eval(x.X)
		p, ok := v.V.(*Ptr)
		if !ok {
			panic(en.errf("dereference of %T", v.V))
		}
		return TV{ex.load(en.st, p, p.Typ), p.Typ}
	case *ast.IndexExpr:
		return en.index(en.eval(x.X), x.Index)
	case *ast.UnaryExpr:
		switch x.Op {
		case token.NOT:
			return TV{Not(en.bool(x.X)), types.Typ[types.Bool]}
		case token.SUB:
			t := en.term(x.X)
			if t.isInt() {
				return TV{IntLit(-t.intVal()), nil}
			}
			return TV{Sub(zeroTerm(t.S), t), nil}
		case token.AND:
			return en.addr(x.X)
		}
	case *ast.BinaryExpr:
		return en.binary(x)
	case *ast.CallExpr:
		return en.call(x)
	}
	panic(en.errf("expression %s", exprString(e)))
}

func (en *Env) addr(e ast.Expr) TV {
	if s, ok := e.(*ast.SelectorExpr); ok {
		b := en.eval(s.X)
		if p, ok := b.V.(*Ptr); ok {
			q, t := en.fieldAddr(p, p.Typ, s.Sel.Name)
			return TV{q, types.NewPointer(t)}
		}
	}
	panic(en.errf("address of %s", exprString(e)))
}

func pkgOfType(t types.Type) *types.Package {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		if _, isn := types.Unalias(t).(*types.Named); !isn {
			t = p.Elem()
		}
	}
	if n, ok := types.Unalias(t).(*types.Named); ok {
		return n.Obj().Pkg()
	}
	return nil
}

func (en *Env) fieldAddr(p *Ptr, t types.Type, name string) (*Ptr, types.Type) {
	o, path, _ := types.LookupFieldOrMethod(types.NewPointer(t), true, pkgOfType(t), name)
	v, ok := o.(*types.Var)
	if !ok {
		panic(en.errf("type %s has no field %s", t, name))
	}
	cur := p
	ct := t
	for _, i := range path {
		if pt, ok := ct.Underlying().(*types.Pointer); ok {
			pv := en.ex.load(en.st, cur, ct).(*Ptr)
			cur = pv
			ct = pt.Elem()
		}
		u := ct.Underlying().(*types.Struct)
		cur = fieldPtr(cur, u, i)
		ct = u.Field(i).Type()
	}
	return cur, v.Type()
}

func (en *Env) field(v TV, name string) TV {
	switch x := v.V.(type) {
	case *Ptr:
		q, t := en.fieldAddr(x, x.Typ, name)
		return TV{en.ex.load(en.st, q, t), t}
	case *StructV:
		o, path, _ := types.LookupFieldOrMethod(x.Typ, false, pkgOfType(x.Typ), name)
		if o == nil {
			// unexported field of an unnamed struct
			u := x.Typ.Underlying().(*types.Struct)
			for i := 0; i < u.NumFields(); i++ {
				if u.Field(i).Name() == name {
					return TV{x.Fields[i], u.Field(i).Type()}
				}
			}
			panic(en.errf("no field %s in %s", name, x.Typ))
		}
		cur := TV{v.V, x.Typ}
		for _, i := range path {
			switch s := cur.V.(type) {
			case *StructV:
				u := s.Typ.Underlying().(*types.Struct)
				cur = TV{s.Fields[i], u.Field(i).Type()}
			case *Ptr:
				u := s.Typ.Underlying().(*types.Struct)
				q := fieldPtr(s, u, i)
				cur = TV{en.ex.load(en.st, q, q.Typ), q.Typ}
			}
		}
		return cur
	case *IfaceV:
		if x.Con != nil {
			return en.field(TV{en.ex.ifaceVal(x), x.Con}, name)
		}
	}
	panic(en.errf("field %s of %T", name, v.V))
}

func (en *Env) index(v TV, ie ast.Expr) TV {
	ex := en.ex
	switch x := v.V.(type) {
	case *SliceV:
		i := en.term(ie)
		p := &Ptr{Base: x.Arr, Idx: Add(x.Off, i), Root: x.Elem, Typ: x.Elem}
		return TV{ex.load(en.st, p, x.Elem), x.Elem}
	case *Term:
		if v.T != nil {
			if mt, ok := v.T.Underlying().(*types.Map); ok {
				k := en.eval(ie)
				val, _ := ex.mapGet(en.st, x, mt, ex.mapKey(k.V, mt))
				return TV{val, mt.Elem()}
			}
		}
		if x.S.isArray() {
			return TV{Select(x, en.term(ie)), nil}
		}
		if x.S == SJ {
			i := en.term(ie)
			if i.S == SStr {
				return TV{jget(x, i), nil}
			}
			return TV{jelem(x, i), nil}
		}
	case TupleV:
		i := en.term(ie)
		return TV{x[i.intVal()], nil}
	}
	panic(en.errf("index of %T", v.V))
}

func (en *Env) isNil(v TV) *Term {
	switch x := v.V.(type) {
	case *IfaceV:
		return Eq(x.Tag, IntLit(0))
	case *Ptr:
		if x.Path == "" && x.Idx == nil {
			return Eq(x.Base, IntLit(0))
		}
		return False
	case *SliceV:
		return Eq(x.Arr, IntLit(0))
	case *Term:
		if x.S == SInt {
			return Eq(x, IntLit(0))
		}
		if x.S == SStr {
			return App("isnilbytes", SBool, x)
		}
	case *FuncV:
		return False
	}
	panic(en.errf("nil comparison of %T", v.V))
}

func (en *Env) equal(a, b TV) *Term {
	if a.V == nil && b.V == nil {
		return True
	}
	if a.V == nil {
		return en.isNil(b)
	}
	if b.V == nil {
		return en.isNil(a)
	}
	if x, ok := a.V.(*Term); ok {
		if y, ok := b.V.(*Term); ok {
			x, y = coerce(x, y)
			if x.S != y.S {
				panic(en.errf("comparison of %s and %s", x.S, y.S))
			}
			return Eq(x, y)
		}
	}
	if ia, ok := a.V.(*IfaceV); ok {
		if _, ok := b.V.(*IfaceV); !ok && b.T != nil {
			b = TV{&IfaceV{Tag: tagLit(b.T), Con: b.T, Val: b.V}, nil}
		}
		if ib, ok := b.V.(*IfaceV); ok {
			return And(Eq(ia.Tag, ib.Tag), en.ex.ifaceDataEq(ia, ib))
		}
	}
	if _, ok := b.V.(*IfaceV); ok {
		return en.equal(b, a)
	}
	t := a.T
	if t == nil {
		t = b.T
	}
	if sa, ok := a.V.(*SliceV); ok {
		sb := b.V.(*SliceV)
		return And(Eq(sa.Arr, sb.Arr), Eq(sa.Off, sb.Off), Eq(sa.Len, sb.Len))
	}
	la, lb := en.ex.flatten(a.V, t), en.ex.flatten(b.V, t)
	if len(la) != len(lb) {
		panic(en.errf("comparison of different shapes"))
	}
	var cs []*Term
	for i := range la {
		cs = append(cs, Eq(la[i], lb[i]))
	}
	return And(cs...)
}

func coerce(x, y *Term) (*Term, *Term) {
	if x.S == SReal && y.S == SInt && y.isInt() {
		y = RealLit(new(big.Rat).SetInt(bigOf(y)))
	}
	if y.S == SReal && x.S == SInt && x.isInt() {
		x = RealLit(new(big.Rat).SetInt(bigOf(x)))
	}
	return x, y
}

func (en *Env) binary(x *ast.BinaryExpr) TV {
	b := types.Typ[types.Bool]
	switch x.Op {
	case token.LAND:
		l := en.bool(x.X)
		if l == False {
			return TV{False, b}
		}
		return TV{And(l, en.bool(x.Y)), b}
	case token.LOR:
		l := en.bool(x.X)
		if l == True {
			return TV{True, b}
		}
		return TV{Or(l, en.bool(x.Y)), b}
	case token.EQL:
		return TV{en.equal(en.eval(x.X), en.eval(x.Y)), b}
	case token.NEQ:
		return TV{Not(en.equal(en.eval(x.X), en.eval(x.Y))), b}
	}
	l, r := coerce(en.term(x.X), en.term(x.Y))
	switch x.Op {
	case token.LSS:
		return TV{Lt(l, r), b}
	case token.GTR:
		return TV{Lt(r, l), b}
	case token.LEQ:
		return TV{Le(l, r), b}
	case token.GEQ:
		return TV{Le(r, l), b}
	case token.ADD:
		if l.S == SStr {
			return TV{Concat(l, r), types.Typ[types.String]}
		}
		return TV{Add(l, r), nil}
	case token.SUB:
		return TV{Sub(l, r), nil}
	}
	panic(en.errf("operator %s", x.Op))
}

func (en *Env) oldEnv() *Env {
	n := *en
	if en.old == nil {
		panic(en.errf("old() has no meaning here"))
	}
	n.st = en.old
	return &n
}

func (en *Env) call(x *ast.CallExpr) TV {
	ex := en.ex
	bt := types.Typ[types.Bool]
	id, ok := x.Fun.(*ast.Ident)
	if !ok {
		panic(en.errf("call of %s", exprString(x.Fun)))
	}
	arg := func(i int) *Term { return en.term(x.Args[i]) }
	need := func(n int) {
		if len(x.Args) != n {
			panic(en.errf("%s wants %d arguments", id.Name, n))
		}
	}
	switch id.Name {
	case "old":
		return en.oldEnv().eval(x.Args[0])
	case "imp":
		l := en.bool(x.Args[0])
		if l == False {
			return TV{True, bt}
		}
		return TV{Imp(l, en.bool(x.Args[1])), bt}
	case "iff":
		return TV{Eq(en.bool(x.Args[0]), en.bool(x.Args[1])), bt}
	case "ite":
		a, b := coerce(arg(1), arg(2))
		return TV{Ite(en.bool(x.Args[0]), a, b), nil}
	case "all":
		// all(name, sort, body)
		n := x.Args[0].(*ast.Ident).Name
		s := sortNamed(x.Args[1].(*ast.Ident).Name)
		v := BoundVar(n, s)
		var T types.Type
		if s == SStr {
			T = types.Typ[types.String]
		}
		body := en.with(map[string]TV{n: {v, T}}).bool(x.Args[2])
		return TV{Forall(body, v), bt}
	case "len":
		v := en.eval(x.Args[0])
		switch y := v.V.(type) {
		case *SliceV:
			return TV{y.Len, nil}
		case *Term:
			if y.S == SStr {
				return TV{strLen(y), nil}
			}
			if mt, ok := v.T.Underlying().(*types.Map); ok {
				d, _ := en.st.mapDom(y, mt)
				return TV{App("maplen", SInt, d), nil}
			}
		}
		panic(en.errf("len of %T", v.V))
	case "has":
		v := en.eval(x.Args[0])
		m := v.V.(*Term)
		if m.S == SJ {
			return TV{jhas(m, arg(1)), bt}
		}
		mt := v.T.Underlying().(*types.Map)
		k := en.eval(x.Args[1])
		_, in := ex.mapGet(en.st, m, mt, ex.mapKey(k.V, mt))
		return TV{in, bt}
	case "dom":
		v := en.eval(x.Args[0])
		d, _ := en.st.mapDom(v.V.(*Term), v.T.Underlying().(*types.Map))
		return TV{d, nil}
	case "tag":
		switch v := en.eval(x.Args[0]).V.(type) {
		case *IfaceV:
			return TV{v.Tag, nil}
		default:
			panic(en.errf("tag of %T", v))
		}
	case "data":
		return TV{ex.ifaceData(en.eval(x.Args[0]).V.(*IfaceV)), nil}
	case "tagof":
		return TV{tagLit(en.resolveType(x.Args[0])), nil}
	case "typeis":
		v, ok := en.eval(x.Args[0]).V.(*IfaceV)
		if !ok {
			panic(en.errf("typeis of a non-interface"))
		}
		return TV{Eq(v.Tag, tagLit(en.resolveType(x.Args[1]))), bt}
	case "impl":
		a := en.eval(x.Args[0]).V
		if t, ok := a.(*Term); ok && t.S == SInt { // a type tag
			return TV{And(Ne(t, IntLit(0)), ex.implements(t, en.resolveType(x.Args[1]))), bt}
		}
		v, ok := a.(*IfaceV)
		if !ok {
			panic(en.errf("impl of a non-interface"))
		}
		return TV{And(Ne(v.Tag, IntLit(0)), ex.implements(v.Tag, en.resolveType(x.Args[1]))), bt}
	case "as":
		t := en.resolveType(x.Args[1])
		switch v := en.eval(x.Args[0]).V.(type) {
		case *IfaceV:
			if v.Con != nil && types.Identical(v.Con, t) {
				return TV{ex.ifaceVal(v), t}
			}
			return TV{ex.unboxAt(en.st, ex.ifaceData(v), t), t}
		case *Term:
			if v.S == SBox {
				return TV{ex.unbox(v, t), t}
			}
			if p, ok := t.Underlying().(*types.Pointer); ok && v.S == SInt {
				return TV{ptrFromTermLazy(v, p.Elem()), t}
			}
			return TV{v, t}
		}
		panic(en.errf("as"))
	case "fresh":
		// allocated by this activation
		r := en.refOf(en.eval(x.Args[0]))
		if en.old == nil {
			panic(en.errf("fresh"))
		}
		return TV{And(Le(en.old.alloc, r), Lt(r, en.st.alloc)), bt}
	case "iszero":
		v := en.eval(x.Args[0])
		p, ok := v.V.(*Ptr)
		if !ok {
			panic(en.errf("iszero wants a pointer"))
		}
		var cs []*Term
		zs := zeroLeaves(p.Typ)
		for i, l := range leavesOf(p.Typ) {
			cs = append(cs, Eq(en.st.loadLeaf(p, l), zs[i]))
		}
		return TV{And(cs...), bt}
	case "zeroobj":
		// zeroobj(iface): the object behind an interface value of a known pointer type is zero
		v := en.eval(x.Args[0]).V.(*IfaceV)
		if v.Con == nil {
			panic(en.errf("zeroobj of an interface of unknown type"))
		}
		p := ex.ifaceVal(v).(*Ptr)
		var cs []*Term
		zs := zeroLeaves(p.Typ)
		for i, l := range leavesOf(p.Typ) {
			cs = append(cs, Eq(en.st.loadLeaf(p, l), zs[i]))
		}
		return TV{And(cs...), bt}
	case "freshobj":
		v := en.eval(x.Args[0]).V.(*IfaceV)
		r := ex.ifaceRef(v)
		return TV{And(Le(en.old.alloc, r), Lt(r, en.st.alloc)), bt}
	case "errtext":
		v := en.eval(x.Args[0]).V.(*IfaceV)
		if t := ex.errMethodText(en.st, v, en.pos); t != nil {
			return TV{t, types.Typ[types.String]}
		}
		return TV{ex.errText(v), types.Typ[types.String]}
	case "ref":
		return TV{en.refOf(en.eval(x.Args[0])), nil}
	case "held":
		v := en.eval(x.Args[0])
		p := v.V.(*Ptr)
		return TV{Ne(Select(en.st.heldArr(typeKey(p.Root)+"|"+p.Path), p.Base), IntLit(0)), bt}
	case "closed":
		t := arg(0)
		return TV{Select(en.st.ghostArr("chan.closed", SBool), t), bt}
	case "chancap":
		return TV{App("chancap", SInt, arg(0)), nil}
	case "chanval":
		return TV{Select(en.st.ghostArr("chan.sent", SInt), arg(0)), nil}
	case "enc":
		v := en.eval(x.Args[0])
		j, _ := ex.encode(en.st, v.V, v.T)
		return TV{j, nil}
	case "encok":
		v := en.eval(x.Args[0])
		_, ok := ex.encode(en.st, v.V, v.T)
		return TV{ok, bt}
	case "jok":
		return TV{jok(arg(0)), bt}
	case "jval":
		return TV{jval(arg(0)), nil}
	case "isobj":
		return TV{jisobj(arg(0)), bt}
	case "isarr":
		return TV{jisarr(arg(0)), bt}
	case "isnull":
		return TV{jisnull(arg(0)), bt}
	case "isstr":
		return TV{jisstr(arg(0)), bt}
	case "isnum":
		return TV{jisnum(arg(0)), bt}
	case "jlen":
		return TV{jlen(arg(0)), nil}
	case "jstr":
		return TV{jstrval(arg(0)), types.Typ[types.String]}
	case "jnum":
		return TV{jnumval(arg(0)), nil}
	case "Jstr":
		return TV{App("Jstr", SJ, arg(0)), nil}
	case "Jnum":
		t := arg(0)
		if t.S == SInt {
			t = i2r(t)
		}
		return TV{App("Jnum", SJ, t), nil}
	case "nodup":
		return TV{Not(App("jdup", SBool, arg(0))), bt}
	case "ghost":
		n := x.Args[0].(*ast.BasicLit).Value
		s, _ := strconv.Unquote(n)
		g, ok := en.st.ghost[s]
		if !ok {
			panic(en.errf("no ghost %s", s))
		}
		return TV{g, nil}
	case "heldany":
		return TV{Not(en.st.noLocks()), bt}
	case "nolocks":
		return TV{en.st.noLocks(), bt}
	case "untouched":
		// untouched(x): the object x points to is as it was
		v := en.eval(x.Args[0])
		p := v.V.(*Ptr)
		var cs []*Term
		for _, l := range leavesOf(p.Typ) {
			cs = append(cs, Eq(en.st.loadLeaf(p, l), en.old.loadLeaf(p, l)))
		}
		return TV{And(cs...), bt}
	case "mapsame":
		v := en.eval(x.Args[0])
		return TV{en.mapSame(v), bt}
	}
	if r, ok := en.special2(id.Name, x); ok {
		return r
	}
	if d := ex.con.Defs[id.Name]; d != nil {
		need(len(d.Params))
		if en.deep > 20 {
			panic(en.errf("define recursion"))
		}
		m := map[string]TV{}
		for i, p := range d.Params {
			m[p] = en.eval(x.Args[i])
		}
		n := en.with(m)
		n.deep++
		return n.eval(d.Body)
	}
	if sg := ex.con.Specs[id.Name]; sg != nil {
		need(len(sg) - 1)
		var as []*Term
		for i := range x.Args {
			a := arg(i)
			if want := sortNamed(sg[i]); a.S != want {
				panic(en.errf("%s: argument %d is %s, not %s", id.Name, i, a.S, want))
			}
			as = append(as, a)
		}
		return TV{App("spec!"+id.Name, sortNamed(sg[len(sg)-1]), as...), nil}
	}
	panic(en.errf("unknown function %s", id.Name))
}

func (en *Env) mapSame(v TV) *Term {
	m := v.V.(*Term)
	mt := v.T.Underlying().(*types.Map)
	d, _ := en.st.mapDom(m, mt)
	od, _ := en.old.mapDom(m, mt)
	cs := []*Term{Eq(d, od)}
	for _, l := range leavesOf(mt.Elem()) {
		a, _ := en.st.mapVal(m, mt, l)
		b, _ := en.old.mapVal(m, mt, l)
		cs = append(cs, Eq(a, b))
	}
	return And(cs...)
}

func (en *Env) refOf(v TV) *Term {
	switch x := v.V.(type) {
	case *Ptr:
		return x.term()
	case *Term:
		return x
	case *SliceV:
		return x.Arr
	case *IfaceV:
		return en.ex.ifaceRef(x)
	}
	panic(en.errf("ref of %T", v.V))
}

// ifaceRef is the reference inside an interface that holds a pointer
func (ex *Exec) ifaceRef(v *IfaceV) *Term {
	if v.Con != nil {
		if p, ok := ex.ifaceVal(v).(*Ptr); ok {
			return p.term()
		}
	}
	d := ex.ifaceData(v)
	if d.Op == "app" && d.Name == "box!Int" {
		return d.Args[0]
	}
	return App("unbox!Int!0", SInt, d)
}

func (st *State) ghostArr(name string, v Sort) *Term {
	g, ok := st.ghost[name]
	if !ok {
		g = Const("g0!"+name, ArraySort(SInt, v))
		st.ghost[name] = g
	}
	return g
}
