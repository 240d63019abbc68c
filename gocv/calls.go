package main

// Calls: builtins, models of library functions, contracts, inlining.

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// callCtx says where a call's results go
type callCtx struct {
	retTo    ssa.Value
	deferred bool
	pos      token.Pos
	sig      *types.Signature
}

func (ex *Exec) finish(st *State, cc *callCtx, res ...Value) {
	f := st.top()
	if cc.retTo != nil {
		switch len(res) {
		case 1:
			f.env[cc.retTo] = res[0]
		default:
			f.env[cc.retTo] = TupleV(res)
		}
	}
	if !cc.deferred {
		f.next()
	}
}

// funcKey names a function the way contracts do
func funcKey(fn *ssa.Function) string {
	if fn == nil {
		return "?"
	}
	if o := fn.Origin(); o != nil {
		fn = o
	}
	sig := fn.Signature
	if sig.Recv() != nil {
		return "(" + typeKey(sig.Recv().Type()) + ")." + fn.Name()
	}
	if fn.Parent() != nil {
		return funcKey(fn.Parent()) + "$" + strings.TrimPrefix(fn.Name(), fn.Parent().Name()+"$")
	}
	if fn.Pkg != nil {
		return qualPkg(fn.Pkg.Pkg) + "." + fn.Name()
	}
	return fn.String()
}

func qualPkg(p *types.Package) string {
	if inRepo(p) {
		return p.Name()
	}
	return p.Path()
}

func repoFunc(fn *ssa.Function) bool {
	for f := fn; f != nil; f = f.Parent() {
		if f.Pkg != nil {
			return inRepo(f.Pkg.Pkg)
		}
		if o := f.Object(); o != nil && o.Pkg() != nil {
			return inRepo(o.Pkg())
		}
	}
	// wrappers and bound methods
	if fn.Signature.Recv() != nil {
		return inRepo(pkgOfType(fn.Signature.Recv().Type()))
	}
	return fn.Synthetic != ""
}

func (ex *Exec) callInstr(st *State, f *Frame, x *ssa.Call) ([]*State, bool) {
	cc := &callCtx{retTo: x, pos: x.Pos(), sig: x.Call.Signature()}
	var recv, fv Value
	if x.Call.IsInvoke() {
		recv = ex.get(st, f, x.Call.Value)
	} else {
		fv = ex.get(st, f, x.Call.Value)
	}
	var args []Value
	for _, a := range x.Call.Args {
		args = append(args, ex.get(st, f, a))
	}
	return ex.dispatch(st, cc, &x.Call, recv, fv, args)
}

func (ex *Exec) callDeferred(st *State, f *Frame, d deferred) ([]*State, bool) {
	cc := &callCtx{deferred: true, pos: d.pos, sig: d.call.Signature()}
	forks, done := ex.dispatch(st, cc, d.call, d.recv, d.fn, d.args)
	return forks, done
}

func (ex *Exec) dispatch(st *State, cc *callCtx, call *ssa.CallCommon, recv, fv Value, args []Value) ([]*State, bool) {
	if call.IsInvoke() {
		iv, ok := recv.(*IfaceV)
		if !ok {
			panic(unsupported("method call on %T", recv))
		}
		return ex.invoke(st, cc, iv, call.Value.Type(), call.Method, args)
	}
	switch fn := fv.(type) {
	case *ssa.Builtin:
		return ex.builtin(st, cc, fn.Name(), call, args)
	case *FuncV:
		return ex.callFunc(st, cc, fn.Fn, fn.Bind, args)
	case *Term:
		return ex.callUnknown(st, cc, fn, call.Value.Type(), args)
	}
	panic(unsupported("call of %T", fv))
}

// callUnknown: a function value from elsewhere, by the contract of its named type
func (ex *Exec) callUnknown(st *State, cc *callCtx, fn *Term, t types.Type, args []Value) ([]*State, bool) {
	if f := ex.closures[fn]; f != nil {
		return ex.callFunc(st, cc, f.Fn, f.Bind, args)
	}
	if !isFuncConst(fn) {
		ex.safe(st, Ne(fn, IntLit(0)), "call of a nil function", cc.pos)
	}
	con := ex.con.Funcs[typeKey(t)]
	if con == nil {
		con = ex.con.Funcs[ex.origFuncType(fn, t)]
	}
	if con == nil {
		con = &Contract{Func: typeKey(t), Iface: true, Modular: true, AnyMod: false, Params: paramNames(len(args))}
		ex.externs["function value of type "+typeKey(t)]++
	}
	var tys []types.Type
	for i := 0; i < cc.sig.Params().Len(); i++ {
		tys = append(tys, cc.sig.Params().At(i).Type())
	}
	return ex.modularCall(st, cc, con, args, tys)
}

// the named function type a field or parameter was declared with
func (ex *Exec) origFuncType(fn *Term, t types.Type) string { return typeKey(t) }

func paramNames(n int) []string {
	var out []string
	for i := 0; i < n; i++ {
		out = append(out, fmt.Sprintf("a%d", i))
	}
	return out
}

func (ex *Exec) invoke(st *State, cc *callCtx, iv *IfaceV, it types.Type, m *types.Func, args []Value) ([]*State, bool) {
	ikey := typeKey(it) + "." + m.Name()
	if iv.Tag.isInt() && iv.Tag.intVal() == 0 {
		ex.safe(st, False, "method call on a nil interface", cc.pos)
		st.dead = true
		return nil, true
	}
	if !iv.Tag.isInt() {
		ex.safe(st, Ne(iv.Tag, IntLit(0)), "method call on a nil interface", cc.pos)
	}
	con := ex.ifaceContract(it, m.Name())
	if con != nil {
		tys := []types.Type{it}
		for i := 0; i < cc.sig.Params().Len(); i++ {
			tys = append(tys, cc.sig.Params().At(i).Type())
		}
		if iv.Con == nil || !repoType(iv.Con) || con.Pure {
			return ex.modularCall(st, cc, con, append([]Value{iv}, args...), tys)
		}
	}
	if iv.Con != nil {
		return ex.callMethod(st, cc, iv.Con, ex.ifaceVal(iv), m, args)
	}
	if m.Name() == "Error" && cc.sig.Params().Len() == 0 {
		ex.finish(st, cc, ex.errText(iv))
		return nil, st.dead
	}
	// an implementation of the program, one case each
	var impls []types.Type
	ui, _ := it.Underlying().(*types.Interface)
	if inRepo(m.Pkg()) && ui != nil {
		for _, t := range ex.repoTypes {
			if types.Implements(t, ui) && !types.IsInterface(t) {
				impls = append(impls, t)
			}
		}
	}
	if len(impls) > 0 && len(impls) <= 8 {
		var forks []*State
		rest := st.clone()
		for _, t := range impls {
			c := Eq(iv.Tag, tagLit(t))
			if v, ok := rest.known(c); ok && !v {
				continue
			}
			if ex.feasible(rest, c) {
				s := rest.clone()
				s.assume(c)
				v := ex.unboxAt(s, ex.ifaceData(iv), t)
				ex.wellTyped(s, v, t)
				fk, done := ex.callMethod(s, cc, t, v, m, args)
				forks = append(forks, fk...)
				if !done {
					forks = append(forks, s)
				}
			}
			rest.assume(Not(c))
		}
		if !rest.dead && ex.feasible(rest, True) {
			ex.unmodelled(rest, cc, ikey)
			forks = append(forks, rest)
		}
		st.dead = true
		return forks, true
	}
	if ex.hasHooks("call", ikey) {
		tys := []types.Type{it}
		for i := 0; i < cc.sig.Params().Len(); i++ {
			tys = append(tys, cc.sig.Params().At(i).Type())
		}
		ex.runHooks(st, "call", ikey, append([]Value{iv}, args...), nil, tys, cc.pos)
	}
	ex.unmodelled(st, cc, ikey)
	return nil, st.dead
}

func repoType(t types.Type) bool { return inRepo(pkgOfType(t)) }

func (ex *Exec) ifaceContract(it types.Type, name string) *Contract {
	if c := ex.con.Funcs[typeKey(it)+"."+name]; c != nil {
		return c
	}
	// the method may come from an embedded interface
	if ui, ok := it.Underlying().(*types.Interface); ok {
		for i := 0; i < ui.NumEmbeddeds(); i++ {
			if c := ex.ifaceContract(ui.EmbeddedType(i), name); c != nil {
				return c
			}
		}
	}
	return nil
}

func (ex *Exec) callMethod(st *State, cc *callCtx, t types.Type, v Value, m *types.Func, args []Value) ([]*State, bool) {
	sel := types.NewMethodSet(t).Lookup(m.Pkg(), m.Name())
	if sel == nil {
		panic(unsupported("method %s of %s", m.Name(), t))
	}
	fn := ex.prog.MethodValue(sel)
	if fn == nil {
		ex.unmodelled(st, cc, typeKey(t)+"."+m.Name())
		return nil, st.dead
	}
	return ex.callFunc(st, cc, fn, nil, append([]Value{v}, args...))
}

func (ex *Exec) callFunc(st *State, cc *callCtx, fn *ssa.Function, bind []Value, args []Value) ([]*State, bool) {
	if ex.hookDepth == 0 && strings.HasPrefix(fn.Synthetic, "bound method wrapper") {
		// fallthrough: inlined
	}
	key := funcKey(fn)
	if m := intrinsics[key]; m != nil && (fn.Synthetic == "" || len(fn.Blocks) == 0) {
		ex.modelled[key]++
		if ex.hasHooks("call", key) || ex.hasHooks("after", key) {
			return ex.hooked(st, cc, key, fn, args, func(st *State, cc *callCtx) ([]*State, bool) { return m(ex, st, cc, args) })
		}
		return m(ex, st, cc, args)
	}
	if con := ex.con.Funcs[key]; con != nil && con.Modular && (fn.Synthetic == "" || len(fn.Blocks) == 0) {
		var tys []types.Type
		if r := fn.Signature.Recv(); r != nil {
			tys = append(tys, r.Type())
		}
		for i := 0; i < fn.Signature.Params().Len(); i++ {
			tys = append(tys, fn.Signature.Params().At(i).Type())
		}
		return ex.modularCall(st, cc, con, args, tys)
	}
	if repoFunc(fn) && len(fn.Blocks) > 0 {
		if fn.Synthetic == "" {
			ex.inlined[key]++
		}
		if d := specBody[key]; d != nil {
			return d(ex, st, cc, args)
		}
		ex.runHooks(st, "call", key, args, nil, sigTypes(fn.Signature), cc.pos)
		if st.dead {
			return nil, true
		}
		nf := ex.pushFrame(st, fn, args, bind, cc.retTo)
		nf.inDefers = cc.deferred
		nf.key = key
		nf.args = args
		return nil, false
	}
	if fn.Synthetic != "" && len(fn.Blocks) > 0 {
		nf := ex.pushFrame(st, fn, args, bind, cc.retTo)
		nf.inDefers = cc.deferred
		return nil, false
	}
	return ex.hooked(st, cc, key, fn, args, func(st *State, cc *callCtx) ([]*State, bool) {
		ex.unmodelled(st, cc, key)
		return nil, st.dead
	})
}

var specBody = map[string]func(ex *Exec, st *State, cc *callCtx, args []Value) ([]*State, bool){}

func sigTypes(sig *types.Signature) []types.Type {
	var tys []types.Type
	if r := sig.Recv(); r != nil {
		tys = append(tys, r.Type())
	}
	for i := 0; i < sig.Params().Len(); i++ {
		tys = append(tys, sig.Params().At(i).Type())
	}
	return tys
}

// hooked runs protocol hooks around a library call
func (ex *Exec) hooked(st *State, cc *callCtx, key string, fn *ssa.Function, args []Value, body func(*State, *callCtx) ([]*State, bool)) ([]*State, bool) {
	tys := sigTypes(fn.Signature)
	ex.guardIO(st, fn, args, cc.pos)
	ex.runHooks(st, "call", key, args, nil, tys, cc.pos)
	if st.dead {
		return nil, true
	}
	if !ex.hasHooks("after", key) {
		return body(st, cc)
	}
	in := st.top()
	forks, done := body(st, cc)
	after := func(s *State) {
		var res []Value
		if cc.retTo != nil {
			switch v := s.top().env[cc.retTo].(type) {
			case TupleV:
				res = v
			default:
				res = []Value{v}
			}
		}
		ex.runHooks(s, "after", key, args, res, append(tys, resTypes(fn.Signature)...), cc.pos)
	}
	_ = in
	for _, s := range forks {
		if !s.dead {
			after(s)
		}
	}
	if !done {
		after(st)
		done = st.dead
	}
	return forks, done
}

func resTypes(sig *types.Signature) []types.Type {
	var tys []types.Type
	for i := 0; i < sig.Results().Len(); i++ {
		tys = append(tys, sig.Results().At(i).Type())
	}
	return tys
}

// unmodelled: a library call of which nothing is assumed but that it returns
// well-typed values and leaves the program's own memory alone
func (ex *Exec) unmodelled(st *State, cc *callCtx, key string) {
	ex.externs[key]++
	st.mychans = nil
	res := cc.sig.Results()
	ex.bumpAlloc(st)
	var out []Value
	for i := 0; i < res.Len(); i++ {
		out = append(out, ex.freshValue(st, "ext."+shortKey(key), res.At(i).Type()))
	}
	ex.finish(st, cc, out...)
}

func shortKey(k string) string {
	if i := strings.LastIndex(k, "/"); i >= 0 {
		k = k[i+1:]
	}
	return k
}

// bumpAlloc: others may have allocated
func (ex *Exec) bumpAlloc(st *State) {
	if ex.initMode {
		return
	}
	nb := newAllocBase()
	st.assume(Le(st.alloc, nb))
	st.alloc = nb
}

// ------------------------------------------------------------ contracts at call sites

func (ex *Exec) conEnv(st, old *State, con *Contract, args []Value, tys []types.Type) *Env {
	env := &Env{ex: ex, st: st, old: old, vars: map[string]TV{}, pos: con.Pos}
	for i, p := range con.Params {
		if i < len(args) && p != "_" {
			env.vars[p] = TV{args[i], tys[i]}
		}
	}
	return env
}

func (ex *Exec) modularCall(st *State, cc *callCtx, con *Contract, args []Value, tys []types.Type) ([]*State, bool) {
	ex.usedCon[con.Func]++
	ex.runHooks(st, "call", con.Func, args, nil, tys, cc.pos)
	if st.dead {
		return nil, true
	}
	pre := st.clone()
	ex.escape(st, args...)
	if len(con.Modifies) > 0 {
		st.ownChans()
	}
	env := ex.conEnv(st, pre, con, args, tys)
	for _, r := range con.Requires {
		ex.check(st, env.bool(r.Expr), "requires", con.Func+": "+r.Label, ex.orCur(r.Props), cc.pos)
	}
	if !con.Trusted {
		ex.globalInvs(st, cc.pos)
	}
	// effects
	ex.bumpAlloc(st)
	for _, m := range con.Modifies {
		ex.havocNamed(st, env, m)
	}
	if con.AnyMod {
		ex.havocAll(st)
		for _, g := range ex.con.GlobalInvs {
			st.assume((&Env{ex: ex, st: st, pos: g.Pos}).bool(g.Expr))
		}
	}
	var res []Value
	rt := cc.sig.Results()
	if con.Pure {
		var fl []*Term
		for i, a := range args {
			fl = append(fl, ex.flatten(a, tys[i])...)
		}
		for i := 0; i < rt.Len(); i++ {
			var ls []*Term
			for j, l := range leavesOf(rt.At(i).Type()) {
				ls = append(ls, App(fmt.Sprintf("pure!%s!%d!%d", con.Func, i, j), l.S, fl...))
			}
			v := ex.unflatten(ls, rt.At(i).Type())
			ex.wellTyped(st, v, rt.At(i).Type())
			res = append(res, v)
		}
	} else {
		for i := 0; i < rt.Len(); i++ {
			n := fmt.Sprintf("r%d", i)
			if i < len(con.Results) {
				n = con.Results[i]
			}
			res = append(res, ex.freshValue(st, n, rt.At(i).Type()))
		}
	}
	env = ex.conEnv(st, pre, con, args, tys)
	for i, r := range con.Results {
		if i < len(res) {
			env.vars[r] = TV{res[i], rt.At(i).Type()}
		}
	}
	ex.addLets(env, con)
	for _, e := range con.Ensures {
		if !ex.overGhosts(con, e.Expr) {
			st.assume(env.bool(e.Expr))
		}
	}
	for _, g := range con.Sets {
		ex.applySet(st, env, g)
	}
	ex.runHooks(st, "after", con.Func, args, res, append(append([]types.Type{}, tys...), tupleTypes(rt)...), cc.pos)
	ex.finish(st, cc, res...)
	return nil, st.dead
}

var epochs int

// havocAll: everything but what no function changes
func (ex *Exec) havocAll(st *State, kept ...*Term) {
	keep := map[*Term]bool{}
	for _, r := range kept {
		keep[r] = true
	}
	for g, r := range ex.globRef {
		if ex.globConst[g] {
			keep[r] = true
		}
	}
	st.mychans = nil
	epochs++
	st.epoch = epochs
	for _, k := range sortedKeys(st.heap) {
		a := st.heap[k]
		n := Fresh("any", a.S)
		heapKeyOf[n] = k
		refRank[n] = rankOfAlloc(st.alloc)
		for t := a; t.Op == "store"; t = t.Args[0] {
			if i := t.Args[1]; keep[i] {
				n = Store(n, i, Select(a, i))
			}
		}
		st.heap[k] = n
	}
	for _, k := range sortedKeys(st.ghost) {
		if strings.HasPrefix(k, "chan.") {
			n := Fresh(k, st.ghost[k].S)
			for _, r := range st.gochans {
				n = Store(n, r, Select(st.ghost[k], r))
			}
			st.ghost[k] = n
		}
	}
}

// overGhosts: a clause over the ghosts of the callee's own protocol, which its
// callers do not have
func (ex *Exec) overGhosts(con *Contract, e ast.Expr) bool {
	names := map[string]bool{}
	for _, g := range con.Ghosts {
		names[g.Name] = true
	}
	for _, n := range con.Protos {
		if p := ex.con.Protos[n]; p != nil {
			for _, g := range p.Ghosts {
				names[g.Name] = true
			}
		}
	}
	found := false
	ast.Inspect(e, func(n ast.Node) bool {
		if id, ok := n.(*ast.Ident); ok && names[id.Name] {
			found = true
		}
		return true
	})
	return found
}

func tupleTypes(t *types.Tuple) []types.Type {
	var out []types.Type
	for i := 0; i < t.Len(); i++ {
		out = append(out, t.At(i).Type())
	}
	return out
}

// globalInvs: the conditions on package variables that were changed here hold again
func (ex *Exec) globalInvs(st *State, pos token.Pos) {
	for _, g := range ex.con.GlobalInvs {
		was := (&Env{ex: ex, st: ex.entry, pos: g.Pos}).bool(g.Expr)
		if is := (&Env{ex: ex, st: st, pos: g.Pos}).bool(g.Expr); is != was && !st.pcset[is] {
			ex.check(st, is, "global invariant", g.Label, ex.orCur(g.Props), pos)
		}
	}
}

func (ex *Exec) addLets(env *Env, con *Contract) {
	for _, l := range con.Lets {
		env.vars[l.Name] = env.eval(l.Expr)
	}
}

func (ex *Exec) orCur(ps []string) []string {
	if len(ps) > 0 {
		return ps
	}
	return ex.curAllProps()
}

// havocNamed: "param" (the object it points to), "ghost g", or a heap key prefix in quotes
func (ex *Exec) havocNamed(st *State, env *Env, m string) {
	if strings.HasPrefix(m, "ghost ") {
		n := strings.TrimSpace(m[6:])
		if g, ok := st.ghost[n]; ok {
			st.ghost[n] = Fresh("g!"+n, g.S)
		}
		return
	}
	v := env.eval(parseExpr(m, env.pos))
	switch x := v.V.(type) {
	case *Ptr:
		for _, l := range leavesOf(x.Typ) {
			st.storeLeaf(x, l, Fresh("mod", l.S))
		}
	case *Term:
		if mt, ok := v.T.Underlying().(*types.Map); ok {
			ex.havocMap(st, x, mt)
		}
	default:
		panic(env.errf("modifies %s", m))
	}
}

func (ex *Exec) havocMap(st *State, m *Term, mt *types.Map) {
	d, dk := st.mapDom(m, mt)
	st.heap[dk] = Store(st.heap[dk], m, Fresh("dom", d.S))
	for _, l := range leavesOf(mt.Elem()) {
		a, vk := st.mapVal(m, mt, l)
		c := Fresh("vals", a.S)
		refRank[c] = rankOfAlloc(st.alloc)
		st.heap[vk] = Store(st.heap[vk], m, c)
		if _, ok := mt.Elem().Underlying().(*types.Chan); ok {
			ks, _ := c.S.parts()
			b := BoundVar("k", ks)
			st.assume(Forall(And(Le(IntLit(0), Select(c, b)), Lt(Select(c, b), st.alloc)), b))
			for _, r := range append(append([]*Term{}, st.mychans...), st.gochans...) {
				b := BoundVar("k", ks)
				st.assume(Forall(Ne(Select(c, b), r), b))
			}
		}
	}
}

func rankOfAlloc(a *Term) int {
	b, o := linear(a)
	if isAllocBase(b) {
		if o > 0 {
			return allocRank[b] + 1
		}
		return allocRank[b]
	}
	return 0
}

// ------------------------------------------------------------ protocol hooks

func (ex *Exec) hasHooks(event, target string) bool {
	for _, h := range ex.hooks {
		if h.Event == event && h.Target == target {
			return true
		}
	}
	return false
}

func (ex *Exec) runHooks(st *State, event, target string, args, res []Value, tys []types.Type, pos token.Pos) {
	for _, h := range ex.hooks {
		if h.Event != event || h.Target != target {
			continue
		}
		st.events++
		env := &Env{ex: ex, st: st, old: ex.entry, vars: map[string]TV{}, pos: h.Pos}
		for k, v := range ex.curVars {
			env.vars[k] = v
		}
		all := append(append([]Value{}, args...), res...)
		for i, p := range h.Params {
			if i < len(all) && p != "_" {
				var t types.Type
				if i < len(tys) {
					t = tys[i]
				}
				env.vars[p] = TV{all[i], t}
			}
		}
		ex.runActions(st, env, h.Acts, event+" "+target, pos)
	}
}

func (ex *Exec) runActions(st *State, env *Env, acts []Action, where string, pos token.Pos) {
	// sets of one hook see the ghost state before it
	for _, a := range acts {
		if st.dead {
			return
		}
		switch a.Kind {
		case "check":
			ex.hookHits[a.Pos]++
			ex.check(st, env.bool(a.Expr), "protocol", a.Label+" (at "+where+")", ex.orCur(a.Props), pos)
		case "assume":
			st.assume(env.bool(a.Expr))
		case "set":
			ex.applySet(st, env, a)
		}
	}
}

func (ex *Exec) applySet(st *State, env *Env, a Action) {
	g, ok := st.ghost[a.Name]
	if !ok {
		panic(env.errf("no ghost %s", a.Name))
	}
	v := env.eval(a.Expr)
	var t *Term
	switch x := v.V.(type) {
	case nil:
		t = IntLit(0)
	case *IfaceV:
		panic(env.errf("ghosts hold scalars: use tag() and data()"))
	case *SliceV:
		panic(env.errf("ghosts hold scalars"))
	default:
		t = env.asTerm(TV{x, v.T})
	}
	if a.Idx != nil {
		st.ghost[a.Name] = Store(g, env.term(a.Idx), t)
		return
	}
	if t.S != g.S {
		panic(env.errf("ghost %s is %s, not %s", a.Name, g.S, t.S))
	}
	st.ghost[a.Name] = t
}

// ------------------------------------------------------------ builtins

func (ex *Exec) builtin(st *State, cc *callCtx, name string, call *ssa.CallCommon, args []Value) ([]*State, bool) {
	switch name {
	case "len":
		switch v := args[0].(type) {
		case *SliceV:
			ex.finish(st, cc, v.Len)
		case *ArrayV:
			ex.finish(st, cc, IntLit(int64(len(v.Elems))))
		case *Ptr:
			at := v.Typ.Underlying().(*types.Array)
			ex.finish(st, cc, IntLit(at.Len()))
		case *Term:
			if v.S == SStr {
				ex.finish(st, cc, strLen(v))
				break
			}
			if mt, ok := call.Args[0].Type().Underlying().(*types.Map); ok {
				ex.guardMap(st, v, false, cc.pos)
				d, _ := st.mapDom(v, mt)
				r := App("maplen", SInt, d)
				if v == IntLit(0) {
					r = IntLit(0)
				}
				ex.finish(st, cc, r)
				break
			}
			r := Fresh("chanlen", SInt)
			st.assume(Le(IntLit(0), r))
			ex.finish(st, cc, r)
		default:
			panic(unsupported("len of %T", args[0]))
		}
	case "cap":
		switch v := args[0].(type) {
		case *SliceV:
			c := Fresh("cap", SInt)
			st.assume(Le(v.Len, c))
			ex.finish(st, cc, c)
		default:
			if t, ok := v.(*Term); ok && t.S == SInt {
				ex.finish(st, cc, App("chancap", SInt, t))
				break
			}
			c := Fresh("cap", SInt)
			ex.finish(st, cc, c)
		}
	case "append":
		ex.finish(st, cc, ex.appendVal(st, args[0], args[1], call.Args[0].Type(), cc.pos))
	case "copy":
		panic(unsupported("copy"))
	case "delete":
		m := ex.term(args[0])
		mt := call.Args[0].Type().Underlying().(*types.Map)
		ex.guardMap(st, m, true, cc.pos)
		ex.mapDelete(st, m, mt, args[1])
		ex.finish(st, cc)
	case "close":
		ch := ex.term(args[0])
		ex.closeChan(st, ch, cc.pos)
		ex.finish(st, cc)
	case "print", "println":
		ex.finish(st, cc)
	case "recover":
		ex.finish(st, cc, nilIface())
	case "panic":
		ex.safe(st, False, "explicit panic is unreachable", cc.pos)
		st.dead = true
		return nil, true
	case "ssa:wrapnilchk":
		if p, ok := args[0].(*Ptr); ok {
			ex.deref(st, p, cc.pos)
		}
		ex.finish(st, cc, args[0])
	case "min", "max":
		a, b := ex.term(args[0]), ex.term(args[1])
		c := Lt(a, b)
		if name == "max" {
			c = Lt(b, a)
		}
		ex.finish(st, cc, Ite(c, a, b))
	default:
		panic(unsupported("builtin %s", name))
	}
	return nil, st.dead
}

func (ex *Exec) appendVal(st *State, a, b Value, t types.Type, pos token.Pos) Value {
	if isByteSlice(t) {
		return Concat(ex.term(a), ex.term(b))
	}
	sa, ok1 := a.(*SliceV)
	sb, ok2 := b.(*SliceV)
	if !ok1 || !ok2 {
		panic(unsupported("append of %T", b))
	}
	// the result is a new array (sharing of spare capacity is not modelled)
	r := ex.newRef(st)
	el := sa.Elem
	n := Add(sa.Len, sb.Len)
	for _, l := range leavesOf(el) {
		k := heapKey(el, true, l.Path)
		arr := st.arr(k, elemArrSort(l.S))
		var c *Term
		oa := Select(arr, sa.Arr)
		if sa.Len == IntLit(0) {
			c = ConstArr(ArraySort(SInt, l.S), zeroTerm(l.S))
		} else if sa.Off == IntLit(0) {
			c = oa
		} else {
			c = Fresh("app", ArraySort(SInt, l.S))
			i := BoundVar("i", SInt)
			st.assume(ForallP(Imp(And(Le(IntLit(0), i), Lt(i, sa.Len)), Eq(Select(c, i), Select(oa, Add(sa.Off, i)))), Select(c, i), i))
		}
		ob := Select(arr, sb.Arr)
		if sb.Len.isInt() && sb.Len.intVal() <= 16 {
			for i := int64(0); i < sb.Len.intVal(); i++ {
				c = Store(c, Add(sa.Len, IntLit(i)), Select(ob, Add(sb.Off, IntLit(i))))
			}
		} else {
			d := Fresh("app", ArraySort(SInt, l.S))
			i := BoundVar("i", SInt)
			st.assume(ForallP(Imp(And(Le(IntLit(0), i), Lt(i, n)), Eq(Select(d, i), Ite(Lt(i, sa.Len), Select(c, i), Select(ob, Add(sb.Off, Sub(i, sa.Len)))))), Select(d, i), i))
			c = d
		}
		st.heap[k] = Store(arr, r, c)
	}
	if sb.Len == IntLit(0) {
		return a
	}
	return &SliceV{r, IntLit(0), n, el}
}

// ------------------------------------------------------------ channels and goroutines

func (ex *Exec) newChan(st *State, size *Term, x *ssa.MakeChan) Value {
	r := ex.newRef(st)
	st.assume(Eq(App("chancap", SInt, r), size))
	g := st.ghostArr("chan.closed", SBool)
	st.ghost["chan.closed"] = Store(g, r, False)
	s := st.ghostArr("chan.sent", SInt)
	st.ghost["chan.sent"] = Store(s, r, IntLit(0))
	st.mychans = append(st.mychans, r)
	return r
}

// escape: values given away to other goroutines or to code that is not
// followed; the channels in them are not this activation's own any more
func (ex *Exec) escape(st *State, vs ...Value) {
	var keep []*Term
	for _, r := range st.mychans {
		out := false
		for _, v := range vs {
			for _, t := range valueTerms(v) {
				if mentions(t, r, map[*Term]bool{}) {
					out = true
				}
			}
		}
		if !out {
			keep = append(keep, r)
		}
	}
	st.mychans = keep
}

// ownChans: the channels made by this activation that were not stored in
// memory and not given away
func (st *State) ownChans() []*Term {
	var keep []*Term
	for _, r := range st.mychans {
		out := false
		seen := map[*Term]bool{}
		for _, h := range st.heap {
			if mentions(h, r, seen) {
				out = true
				break
			}
		}
		if !out {
			keep = append(keep, r)
		}
	}
	st.mychans = keep
	return keep
}

func (ex *Exec) closeChan(st *State, ch *Term, pos token.Pos) {
	if b, _ := linear(ch); !isAllocBase(b) {
		ex.safe(st, Ne(ch, IntLit(0)), "close of a nil channel", pos)
	}
	g := st.ghostArr("chan.closed", SBool)
	ex.safe(st, Not(Select(g, ch)), "close of a closed channel", pos)
	ex.runHooks(st, "close", "chan", []Value{ch}, nil, []types.Type{nil}, pos)
	st.ghost["chan.closed"] = Store(st.ghostArr("chan.closed", SBool), ch, True)
}

func chanElem(t types.Type) types.Type { return t.Underlying().(*types.Chan).Elem() }

func (ex *Exec) chanName(t types.Type) string {
	k := typeKey(chanElem(t))
	for n, v := range ex.con.ChanTypes {
		if strings.ReplaceAll(v, " ", "") == strings.ReplaceAll(k, " ", "") {
			return n
		}
	}
	return k
}

func (ex *Exec) send(st *State, cv, v Value, t types.Type, pos token.Pos) {
	ch := ex.term(cv)
	g := st.ghostArr("chan.closed", SBool)
	if b, _ := linear(ch); !isAllocBase(b) {
		ex.safe(st, Ne(ch, IntLit(0)), "send on a nil channel blocks forever", pos)
	}
	_ = g
	n := ex.chanName(t)
	el := chanElem(t)
	s := st.ghostArr("chan.sent", SInt)
	ex.runHooks(st, "send", n, []Value{ch, v}, nil, []types.Type{t, el}, pos)
	if con := ex.con.ChanInv[n]; con != nil && len(con.Params) == 2 {
		env := &Env{ex: ex, st: st, vars: map[string]TV{con.Params[0]: {ch, t}, con.Params[1]: {v, el}}, pos: con.Pos}
		for _, c := range con.Ensures {
			ex.check(st, env.bool(c.Expr), "channel invariant", c.Label, ex.orCur(c.Props), pos)
		}
	}
	ex.escape(st, v)
	s = st.ghostArr("chan.sent", SInt)
	st.ghost["chan.sent"] = Store(s, ch, Add(Select(s, ch), IntLit(1)))
}

func (ex *Exec) recvValue(st *State, ch *Term, t types.Type, pos token.Pos) (Value, *Term) {
	n := ex.chanName(t)
	el := chanElem(t)
	v := ex.freshValue(st, "recv."+n, el)
	ok := Fresh("recvok", SBool)
	if con := ex.con.ChanInv[n]; con != nil {
		env := &Env{ex: ex, st: st, vars: map[string]TV{con.Params[0]: {ch, t}, con.Params[1]: {v, el}}, pos: con.Pos}
		st.assume(ok) // never closed
		for _, c := range con.Ensures {
			st.assume(env.bool(c.Expr))
		}
	}
	ex.runHooks(st, "recv", n, []Value{ch, v, ok}, nil, []types.Type{t, el, types.Typ[types.Bool]}, pos)
	return v, ok
}

func (ex *Exec) blocking(st *State, what string, pos token.Pos) {
	if props := ex.lockProps(); len(props) > 0 {
		ex.check(st, st.noLocks(), "lock", "no lock is held while waiting ("+what+")", props, pos)
	}
}

// waits: this activation waits until one of the channels is ready, at most the
// time of the shortest timer among them
func (ex *Exec) waits(st *State, chs []*Term, pos token.Pos) {
	target := ex.waitTarget()
	if !ex.hasHooks("wait", target) {
		return
	}
	g := st.ghostArr("chan.timer", SInt)
	d := IntLit(0)
	on := ConstArr(ArraySort(SInt, SBool), False)
	for _, c := range chs {
		t := Select(g, c)
		d = Ite(And(Lt(IntLit(0), t), Or(Eq(d, IntLit(0)), Lt(t, d))), t, d)
		on = Store(on, c, True)
	}
	one := IntLit(0)
	if len(chs) == 1 {
		one = chs[0]
	}
	st.ghost["wait.on"] = on
	ex.runHooks(st, "wait", target, []Value{d, st.noLocks(), one, False}, nil, waitTypes, pos)
}

var waitTypes = []types.Type{types.Typ[types.Int64], types.Typ[types.Bool], nil, types.Typ[types.Bool]}

// waitTarget: the waits of the goroutines an activation starts are told apart
// from its own
func (ex *Exec) waitTarget() string {
	if ex.goDepth > 0 {
		return "go"
	}
	return "any"
}

// waitsSend: so does sending, unless there is room in a channel of this
// activation's own, or in one that only this goroutine sends to
func (ex *Exec) waitsSend(st *State, ch *Term, pos token.Pos) {
	target := ex.waitTarget()
	if !ex.hasHooks("wait", target) {
		return
	}
	room := False
	for _, r := range append(append([]*Term{}, st.mychans...), st.gochans...) {
		room = Or(room, And(Eq(ch, r), Lt(Select(st.ghostArr("chan.sent", SInt), r), App("chancap", SInt, r))))
	}
	st.ghost["wait.on"] = ConstArr(ArraySort(SInt, SBool), False)
	ex.runHooks(st, "wait", target, []Value{Ite(room, IntLit(1), IntLit(0)), st.noLocks(), ch, True}, nil, waitTypes, pos)
}

// goChans: the channels made by this activation that only the goroutine
// started here sends to: nobody else knows them but through the variables the
// goroutine captures, and the activation itself neither sends to a channel of
// their type nor hands one on
func (ex *Exec) goChans(st *State, x *ssa.Go, vs []Value) []*Term {
	var keep []*Term
	fn := x.Parent()
	if fn == nil {
		return nil
	}
	gives := map[string]bool{}
	note := func(t types.Type) {
		if c, ok := t.Underlying().(*types.Chan); ok && c.Dir() != types.RecvOnly {
			gives[typeKey(c.Elem())] = true
		}
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch i := in.(type) {
			case *ssa.Send:
				note(i.Chan.Type())
			case *ssa.Select:
				for _, s := range i.States {
					if s.Dir == types.SendOnly {
						note(s.Chan.Type())
					}
				}
			case *ssa.Go:
				if i != x {
					for _, a := range i.Call.Args {
						note(a.Type())
					}
				}
			case *ssa.Call:
				for _, a := range i.Call.Args {
					note(a.Type())
				}
			case *ssa.Defer:
				for _, a := range i.Call.Args {
					note(a.Type())
				}
			case *ssa.MakeClosure:
				if i == x.Call.Value {
					continue
				}
				for _, b := range i.Bindings {
					note(b.Type())
					if p, ok := b.Type().Underlying().(*types.Pointer); ok {
						note(p.Elem())
					}
				}
			}
		}
	}
	mk := map[*Term]string{}
	for r, v := range st.top().env {
		if m, ok := r.(*ssa.MakeChan); ok {
			if t, ok := v.(*Term); ok {
				mk[t] = typeKey(chanElem(m.Type()))
			}
		}
	}
	cells := map[*Term]bool{}
	for _, v := range vs {
		if p, ok := v.(*Ptr); ok {
			cells[p.Base] = true
		}
	}
	for _, r := range st.mychans {
		el, ok := mk[r]
		if !ok || gives[el] {
			continue
		}
		out := false
		for _, h := range st.heap {
			t := h
			for ; t.Op == "store"; t = t.Args[0] {
				if mentions(t.Args[2], r, map[*Term]bool{}) && !cells[t.Args[1]] {
					out = true
				}
				if mentions(t.Args[1], r, map[*Term]bool{}) {
					out = true
				}
			}
			if mentions(t, r, map[*Term]bool{}) {
				out = true
			}
		}
		if !out {
			keep = append(keep, r)
		}
	}
	return keep
}

// newTimer: a channel that is ready once, after this time
func (ex *Exec) newTimer(st *State, d *Term) *Term {
	ch := ex.newRef(st)
	st.ghost["chan.timer"] = Store(st.ghostArr("chan.timer", SInt), ch, d)
	return ch
}

func (ex *Exec) recv(st *State, f *Frame, x *ssa.UnOp, cv Value) ([]*State, bool) {
	ch := ex.term(cv)
	ex.blocking(st, "receive", x.Pos())
	ex.waits(st, []*Term{ch}, x.Pos())
	ex.bumpAlloc(st)
	v, ok := ex.recvValue(st, ch, x.X.Type(), x.Pos())
	if x.CommaOk {
		f.env[x] = TupleV{v, ok}
	} else {
		f.env[x] = v
	}
	f.next()
	return nil, st.dead
}

func (ex *Exec) selectStmt(st *State, f *Frame, x *ssa.Select) ([]*State, bool) {
	if x.Blocking {
		ex.blocking(st, "select", x.Pos())
		var chs []*Term
		for _, c := range x.States {
			if c.Dir == types.RecvOnly {
				chs = append(chs, ex.term(ex.get(st, f, c.Chan)))
			}
		}
		ex.waits(st, chs, x.Pos())
	}
	var forks []*State
	n := len(x.States)
	// tuple: index, recvOk, then one value per receive
	mk := func(s *State, chosen int) {
		fr := s.top()
		ok := True
		var tup TupleV
		tup = append(tup, IntLit(int64(chosen)), nil)
		for i, c := range x.States {
			if c.Dir == types.RecvOnly {
				if i == chosen {
					ch := ex.term(ex.get(s, fr, c.Chan))
					s.assume(Ne(ch, IntLit(0)))
					v, o := ex.recvValue(s, ch, c.Chan.Type(), c.Pos)
					ok = o
					tup = append(tup, v)
				} else {
					tup = append(tup, zeroValue(ex, chanElem(c.Chan.Type())))
				}
			} else if i == chosen {
				ex.send(s, ex.get(s, fr, c.Chan), ex.get(s, fr, c.Send), c.Chan.Type(), c.Pos)
			}
		}
		tup[1] = ok
		fr.env[x] = tup
		fr.next()
		ex.runHooks(s, "selected", fmt.Sprint(chosen), nil, nil, nil, x.Pos())
		if !s.dead {
			forks = append(forks, s)
		}
	}
	ex.bumpAlloc(st)
	for i := 0; i < n; i++ {
		mk(st.clone(), i)
	}
	if !x.Blocking {
		mk(st.clone(), -1)
	}
	st.dead = true
	return forks, true
}

// goStmt: the new goroutine is an activation of its own
func (ex *Exec) goStmt(st *State, f *Frame, x *ssa.Go) {
	var fv, recv Value
	if x.Call.IsInvoke() {
		recv = ex.get(st, f, x.Call.Value)
	} else {
		fv = ex.get(st, f, x.Call.Value)
	}
	var args []Value
	for _, a := range x.Call.Args {
		args = append(args, ex.get(st, f, a))
	}
	var bound []Value
	if fn, ok := fv.(*FuncV); ok {
		bound = fn.Bind
	}
	gochans := ex.goChans(st, x, append(append([]Value{}, bound...), args...))
	st.mychans = nil
	key := "?"
	tys := sigTypes(x.Call.Signature())
	if fn, ok := fv.(*FuncV); ok {
		key = funcKey(fn.Fn)
		tys = sigTypes(fn.Fn.Signature)
	} else if !x.Call.IsInvoke() {
		key = typeKey(x.Call.Value.Type())
	} else {
		key = typeKey(x.Call.Value.Type()) + "." + x.Call.Method.Name()
		_ = recv
	}
	ex.runHooks(st, "go", key, args, nil, tys, x.Pos())
	fn, ok := fv.(*FuncV)
	if !ok {
		if t, ok := fv.(*Term); ok && !isFuncConst(t) {
			ex.safe(st, Ne(t, IntLit(0)), "go with a nil function", x.Pos())
		}
		return
	}
	if con := ex.con.Funcs[key]; con != nil {
		// verified on its own; here its precondition
		env := ex.conEnv(st, st, con, args, tys)
		for _, r := range con.Requires {
			ex.check(st, env.bool(r.Expr), "requires", "go "+con.Func+": "+r.Label, ex.orCur(r.Props), x.Pos())
		}
		return
	}
	if len(fn.Fn.Blocks) == 0 || fn.Fn.Parent() == nil && !(ex.hasHooks("wait", "go") && repoFunc(fn.Fn)) {
		return
	}
	// a closure: executed from a state where everything shared may have changed
	if ex.suppress > 0 || ex.goDepth > 2 {
		return
	}
	ex.goDepth++
	defer func() { ex.goDepth-- }()
	s := st.clone()
	s.watch = nil
	s.gochans = gochans
	for _, g := range sortedKeys(s.ghost) {
		if strings.HasPrefix(g, "held!") {
			s.ghost[g] = ConstArr(s.ghost[g].S, IntLit(0))
		}
	}
	s.locks = nil
	s.frames = nil
	saved := ex.hooks
	savedDone := ex.onReturn
	ex.onReturn = nil
	var keep []*Hook
	for _, h := range ex.hooks {
		if h.Global || h.Event == "wait" && h.Target == "go" {
			keep = append(keep, h)
		}
	}
	ex.hooks = keep
	defer func() { ex.hooks = saved; ex.onReturn = savedDone }()
	if g := s.ghost["ingo"]; g != nil {
		s.ghost["ingo"] = True
	}
	// what every way through the goroutine does (ghosts will_*) is going to be done
	will, first := map[string]*Term{}, true
	defer func() {
		for g, v := range will {
			if v != nil {
				st.ghost[g] = v
			}
		}
	}()
	ex.pushFrame(s, fn.Fn, args, fn.Bind, nil)
	ex.run(s, &sink{ret: func(s *State, res []Value) {
		for _, g := range sortedKeys(s.ghost) {
			if !strings.HasPrefix(g, "will_") {
				continue
			}
			v := s.ghost[g]
			if !v.isLit() || !first && will[g] != v {
				v = nil
			}
			will[g] = v
		}
		first = false
		if props := ex.lockProps(); len(props) > 0 {
			ex.check(s, s.noLocks(), "lock", "every lock taken is released", props, x.Pos())
		}
	}})
}

// ------------------------------------------------------------ locks

// noLocks: nothing this activation has locked is still locked
func (st *State) noLocks() *Term {
	var cs []*Term
	for _, l := range st.locks {
		cs = append(cs, Eq(Select(st.heldArr(l.key), l.base), IntLit(0)))
	}
	return And(cs...)
}

func (st *State) heldArr(key string) *Term {
	n := "held!" + key
	g, ok := st.ghost[n]
	if !ok {
		g = ConstArr(ArraySort(SInt, SInt), IntLit(0))
		st.ghost[n] = g
	}
	return g
}

func (ex *Exec) lockProps() []string {
	if ex.cur == nil {
		return nil
	}
	return ex.cur.LockProps
}

func lockKey(p *Ptr) string {
	k := typeKey(p.Root) + "|" + p.Path
	if p.Idx != nil {
		k = "[]" + k
	}
	return k
}

func (ex *Exec) declOf(p *Ptr) *LockDecl {
	for _, d := range ex.con.Locks {
		if typeKey(p.Root) == d.Type && p.Path == "."+d.Field && p.Idx == nil {
			return d
		}
	}
	return nil
}

func (ex *Exec) lockEnv(st, old *State, d *LockDecl, base *Term, root types.Type) *Env {
	env := &Env{ex: ex, st: st, old: old, vars: map[string]TV{}, pos: d.Pos}
	for k, v := range ex.curVars {
		env.vars[k] = v
	}
	env.vars[d.Self] = TV{&Ptr{Base: base, Root: root, Typ: root}, types.NewPointer(root)}
	return env
}

func (ex *Exec) lock(st *State, cc *callCtx, p *Ptr, mode int64) ([]*State, bool) {
	ex.deref(st, &Ptr{Base: p.Base, Root: p.Root, Typ: p.Root}, cc.pos)
	key := lockKey(p)
	h := st.heldArr(key)
	if props := ex.lockProps(); len(props) > 0 {
		ex.check(st, Eq(Select(h, p.Base), IntLit(0)), "lock", "no lock is taken twice ("+key+")", props, cc.pos)
	}
	st.ghost["held!"+key] = Store(h, p.Base, IntLit(mode))
	d := ex.declOf(p)
	st.locks = append(st.locks, lockRef{key, p.Base, d})
	if d != nil {
		before := st.clone()
		own := st.ownChans()
		ex.bumpAlloc(st)
		self := &Ptr{Base: p.Base, Root: p.Root, Typ: p.Root}
		u := p.Root.Underlying().(*types.Struct)
		for i := 0; i < u.NumFields(); i++ {
			if !d.guardsField(u.Field(i).Name()) {
				continue
			}
			fp := fieldPtr(self, u, i)
			ft := u.Field(i).Type()
			if mt, ok := ft.Underlying().(*types.Map); ok {
				v := ex.load(st, fp, ft)
				ex.noteGuard(fp, v, d)
				st.assume(Ne(ex.term(v), IntLit(0)))
				ex.havocMap(st, ex.term(v), mt)
				continue
			}
			for _, l := range leavesOf(ft) {
				st.storeLeaf(fp, l, Fresh("shared", l.S))
			}
		}
		for _, g := range d.Ghosts {
			if x, ok := st.ghost[g]; ok {
				n := Fresh("shared."+g, x.S)
				if strings.HasPrefix(g, "chan.") {
					for _, r := range append(append([]*Term{}, own...), st.gochans...) {
						n = Store(n, r, Select(x, r))
					}
				}
				st.ghost[g] = n
			} else if g == "chan.closed" {
				st.ghostArr(g, SBool)
				st.ghost[g] = Fresh("shared."+g, ArraySort(SInt, SBool))
			}
		}
		env := ex.lockEnv(st, before, d, p.Base, p.Root)
		for _, c := range append(append([]Clause{}, d.Inv...), d.Rely...) {
			if e, err := ex.tryBool(env, c.Expr); err == nil {
				st.assume(e)
			}
		}
		if len(d.Guards) > 0 || len(d.Ghosts) > 0 {
			snap := st.clone()
			snap.frames = nil
			st.lockSnap = snap
		}
		ex.runHooks(st, "lock", d.Type+"."+d.Field, []Value{self}, nil, []types.Type{types.NewPointer(p.Root)}, cc.pos)
	}
	ex.finish(st, cc)
	return nil, st.dead
}

// tryBool: clauses over names that this activation does not have are left out
func (ex *Exec) tryBool(env *Env, e interface{ Pos() token.Pos }) (t *Term, err error) {
	defer func() {
		if r := recover(); r != nil {
			if s, ok := r.(specErr); ok && strings.Contains(s.msg, "unknown name") {
				err = fmt.Errorf("%s", s.msg)
				return
			}
			panic(r)
		}
	}()
	return env.bool(e.(astExpr)), nil
}

func (ex *Exec) unlock(st *State, cc *callCtx, p *Ptr, mode int64) ([]*State, bool) {
	key := lockKey(p)
	h := st.heldArr(key)
	if props := ex.lockProps(); len(props) > 0 {
		ex.check(st, Eq(Select(h, p.Base), IntLit(mode)), "lock", "only a lock that is held is released ("+key+")", props, cc.pos)
	}
	if d := ex.declOf(p); d != nil {
		self := &Ptr{Base: p.Base, Root: p.Root, Typ: p.Root}
		old := st.lockSnap
		if old == nil {
			old = st
		}
		env := ex.lockEnv(st, old, d, p.Base, p.Root)
		for _, c := range d.Inv {
			e, err := ex.tryBool(env, c.Expr)
			if err == nil && mode == 1 {
				ex.check(st, e, "lock invariant", c.Label, ex.orCur(c.Props), cc.pos)
			}
		}
		for _, c := range d.Guar {
			if _, has := st.ghost[c.Unless]; has || mode != 1 {
				continue
			}
			if e, err := ex.tryBool(env, c.Expr); err == nil {
				ex.check(st, e, "lock guarantee", c.Label, ex.orCur(c.Props), cc.pos)
			}
		}
		ex.runHooks(st, "unlock", d.Type+"."+d.Field, []Value{self}, nil, []types.Type{types.NewPointer(p.Root)}, cc.pos)
		if (len(d.Guards) > 0 || len(d.Ghosts) > 0) && mode == 1 {
			snap := st.clone()
			snap.frames = nil
			st.unlockSnap = snap
		}
	}
	st.ghost["held!"+key] = Store(h, p.Base, IntLit(0))
	ex.finish(st, cc)
	return nil, st.dead
}

func (d *LockDecl) guardsField(n string) bool {
	for _, g := range d.Guards {
		if g == n {
			return true
		}
	}
	return false
}

type guard struct {
	decl *LockDecl
	base *Term
	root types.Type
	name string
	use  bool // only calls through the value are guarded
}

func (ex *Exec) guardOfField(p *Ptr) (*LockDecl, string, bool) {
	for _, d := range ex.con.Locks {
		if typeKey(p.Root) != d.Type || p.Idx != nil {
			continue
		}
		for _, g := range d.Guards {
			if p.Path == "."+g {
				return d, g, false
			}
		}
		for _, g := range d.IOGuards {
			if p.Path == "."+g {
				return d, g, true
			}
		}
	}
	return nil, "", false
}

func (ex *Exec) noteGuard(p *Ptr, v Value, d *LockDecl) {
	name := strings.TrimPrefix(p.Path, ".")
	switch x := v.(type) {
	case *Term:
		ex.guards[x] = guard{d, p.Base, p.Root, name, false}
	case *Ptr:
		ex.guards[x.term()] = guard{d, p.Base, p.Root, name, true}
	}
}

// guardAccess is called for every load and store
func (ex *Exec) guardAccess(st *State, p *Ptr, write bool, pos token.Pos) {
	d, name, io := ex.guardOfField(p)
	if d == nil {
		return
	}
	lo, _, ok := refBounds(p.Base)
	if ok && lo >= 0 {
		if b, _ := linear(p.Base); isAllocBase(b) {
			return // not shared yet
		}
	}
	if io {
		return
	}
	u := p.Root.Underlying().(*types.Struct)
	for i := 0; i < u.NumFields(); i++ {
		if u.Field(i).Name() != name {
			continue
		}
		_, isMap := u.Field(i).Type().Underlying().(*types.Map)
		if isMap && !write {
			return // the reference itself does not change
		}
	}
	ex.guardCheck(st, guard{d, p.Base, p.Root, name, false}, write, pos)
}

func (ex *Exec) guardCheck(st *State, g guard, write bool, pos token.Pos) {
	if len(d0(g.decl.Props, ex.lockProps())) == 0 {
		return
	}
	h := Select(st.heldArr(g.decl.Type+"|."+g.decl.Field), g.base)
	goal := Ne(h, IntLit(0))
	if write {
		goal = Eq(h, IntLit(1))
	}
	what := "read"
	if write {
		what = "written"
	}
	if g.use {
		what = "written to"
	}
	ex.check(st, goal, "lock", fmt.Sprintf("%s.%s is %s only while %s is held", g.decl.Type, g.name, what, g.decl.Field), ex.lockProps(), pos)
}

func d0(a, b []string) []string { return b }

func (ex *Exec) afterLoad(p *Ptr, v Value) {
	if d, _, _ := ex.guardOfField(p); d != nil {
		if b, _ := linear(p.Base); isAllocBase(b) {
			return
		}
		ex.noteGuard(p, v, d)
	}
}

// guardIO: a library method that writes through a guarded field's value
func (ex *Exec) guardIO(st *State, fn *ssa.Function, args []Value, pos token.Pos) {
	if fn.Signature.Recv() == nil || len(args) == 0 {
		return
	}
	var m *Term
	switch x := args[0].(type) {
	case *Term:
		m = x
	case *Ptr:
		m = x.term()
	}
	g, ok := ex.guards[m]
	if m == nil || !ok || !g.use {
		return
	}
	for _, w := range g.decl.IOCalls {
		if w == fn.Name() {
			ex.guardCheck(st, g, true, pos)
		}
	}
}

func (ex *Exec) guardMap(st *State, m *Term, write bool, pos token.Pos) {
	if g, ok := ex.guards[m]; ok && !g.use {
		ex.guardCheck(st, g, write, pos)
	}
}
