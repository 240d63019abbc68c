package main

// Loading the program and its package-level state.

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

func loadProgram(dir string) (*Exec, error) {
	ps, err := loadCanonical(dir, *fDir+"/contracts/names.txt")
	if err != nil {
		return nil, err
	}
	prog, pk := ssautil.Packages(ps, ssa.InstantiateGenerics)
	prog.Build()
	ex := &Exec{
		prog: prog, fset: prog.Fset,
		pkgs: map[string]*ssa.Package{}, closures: map[*Term]*FuncV{},
		implTypes: map[string]types.Type{},
		implCache: map[string][]*Term{},
		initGlob:  map[*ssa.Global]int{}, globRef: map[*ssa.Global]*Term{}, globConst: map[*ssa.Global]bool{},
		inlined: map[string]int{}, externs: map[string]int{}, modelled: map[string]int{}, usedCon: map[string]int{},
		reach: map[string]bool{}, hookHits: map[string]int{}, guards: map[*Term]guard{},
	}
	seen := map[*types.Package]bool{}
	var walk func(p *types.Package)
	walk = func(p *types.Package) {
		if seen[p] {
			return
		}
		seen[p] = true
		for _, q := range p.Imports() {
			walk(q)
		}
		ex.allPkgs = append(ex.allPkgs, p)
	}
	for _, p := range pk {
		if p == nil || strings.Contains(p.Pkg.Path(), "/example") {
			continue
		}
		ex.pkgs[p.Pkg.Path()] = p
		walk(p.Pkg)
	}
	for _, p := range ex.allPkgs {
		if sp := ex.pkgs[p.Path()]; sp != nil {
			ex.pkgOrder = append(ex.pkgOrder, sp)
		}
	}
	for _, sp := range ex.pkgOrder {
		sc := sp.Pkg.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok || tn.IsAlias() || types.IsInterface(tn.Type()) {
				continue
			}
			if nt, ok := tn.Type().(*types.Named); ok && nt.TypeParams().Len() > 0 {
				continue
			}
			ex.repoTypes = append(ex.repoTypes, tn.Type(), types.NewPointer(tn.Type()))
		}
	}
	axiomHooks = append(axiomHooks, ex.implAxioms, fnAxioms)
	return ex, nil
}

var fnIDs = map[*Term]int64{}

// functions are distinct from each other and from nil
func fnAxioms(t *Term) []*Term {
	if !isFuncConst(t) {
		return nil
	}
	id, ok := fnIDs[t]
	if !ok {
		id = -1000 - int64(len(fnIDs))
		fnIDs[t] = id
	}
	return []*Term{mk("=", "", SBool, t, IntLit(id))}
}

// all functions with a body, by contract key
func (ex *Exec) functions() map[string]*ssa.Function {
	out := map[string]*ssa.Function{}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || f.Synthetic != "" || len(f.Blocks) == 0 {
			return
		}
		out[funcKey(f)] = f
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	for _, p := range ex.pkgOrder {
		for _, m := range p.Members {
			switch x := m.(type) {
			case *ssa.Function:
				add(x)
			case *ssa.Type:
				for _, t := range []types.Type{x.Type(), types.NewPointer(x.Type())} {
					ms := ex.prog.MethodSets.MethodSet(t)
					for i := 0; i < ms.Len(); i++ {
						f := ex.prog.MethodValue(ms.At(i))
						if f != nil && f.Pkg == p {
							add(f)
						}
					}
				}
			}
		}
	}
	return out
}

// globalsConst: package-level variables that no function but init changes
func (ex *Exec) globalsConst() {
	changed := map[*ssa.Global]bool{}
	var uses func(v ssa.Value, g *ssa.Global, content bool)
	uses = func(v ssa.Value, g *ssa.Global, content bool) {
		refs := v.Referrers()
		if refs == nil {
			return
		}
		for _, r := range *refs {
			switch x := r.(type) {
			case *ssa.Store:
				if x.Addr == v {
					changed[g] = true
				}
			case *ssa.MapUpdate:
				if x.Map == v {
					changed[g] = true
				}
			case *ssa.FieldAddr, *ssa.IndexAddr:
				uses(x.(ssa.Value), g, false)
			case *ssa.UnOp:
				switch x.Type().Underlying().(type) {
				case *types.Map, *types.Slice, *types.Pointer:
					uses(x, g, true)
				}
			case *ssa.Call:
				if b, ok := x.Call.Value.(*ssa.Builtin); ok && (b.Name() == "delete" || b.Name() == "copy") {
					changed[g] = true
				}
			}
		}
	}
	_ = uses
	fns := ssautil.AllFunctions(ex.prog)
	// globals have no referrer lists: scan operands
	for f := range fns {
		if f.Name() == "init" && f.Synthetic != "" {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					g, ok := (*op).(*ssa.Global)
					if !ok {
						continue
					}
					switch x := in.(type) {
					case *ssa.Store:
						if x.Addr == ssa.Value(g) {
							changed[g] = true
						}
					case *ssa.FieldAddr:
						uses(x, g, false)
					case *ssa.IndexAddr:
						uses(x, g, false)
					case *ssa.UnOp:
						switch x.Type().Underlying().(type) {
						case *types.Map, *types.Slice, *types.Pointer:
							uses(x, g, true)
						}
					}
				}
			}
		}
	}
	for _, p := range ex.pkgOrder {
		for _, m := range p.Members {
			if g, ok := m.(*ssa.Global); ok {
				ex.globConst[g] = !changed[g]
			}
		}
	}
}

// initGlobals executes the package initialisers
func (ex *Exec) initGlobals() error {
	ex.globalsConst()
	st := &State{pcset: map[*Term]bool{}, heap: map[string]*Term{}, ghost: map[string]*Term{}, typed: map[*Term]bool{}, opq: map[string]Value{}, alloc: IntLit(1000)}
	for _, p := range ex.pkgOrder {
		for _, m := range p.Members {
			if g, ok := m.(*ssa.Global); ok {
				t := g.Type().(*types.Pointer).Elem()
				if _, isArr := t.Underlying().(*types.Array); isArr {
					continue
				}
				ex.store(st, &Ptr{Base: ex.globalRef(g), Root: t, Typ: t}, zeroValue(ex, t), t)
			}
		}
	}
	ex.initMode = true
	ex.suppress++
	defer func() { ex.initMode = false; ex.suppress-- }()
	for _, p := range ex.pkgOrder {
		init := p.Func("init")
		if init == nil || len(init.Blocks) == 0 {
			continue
		}
		var end *State
		s := st.clone()
		s.frames = nil
		ex.pushFrame(s, init, nil, nil, nil)
		n := 0
		bad := len(ex.initBad)
		ex.run(s, &sink{ret: func(s *State, res []Value) {
			n++
			end = s
		}})
		if end == nil || n > 1 || len(ex.initBad) > bad {
			// unknown initial values for this package's variables
			for _, m := range p.Members {
				if g, ok := m.(*ssa.Global); ok {
					ex.globConst[g] = false
				}
			}
			continue
		}
		st = end
		st.frames = nil
		st.steps = 0
	}
	ex.initState = st
	return nil
}

// startState: the state in which a function is entered
func (ex *Exec) startState() *State {
	st := ex.initState.clone()
	st.frames = nil
	st.alloc = alloc0
	st.assume(Lt(IntLit(1000000), alloc0))
	st.jsnap = map[*Term]map[string]*Term{}
	for _, p := range ex.pkgOrder {
		var names []string
		for n := range p.Members {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			g, ok := p.Members[n].(*ssa.Global)
			if !ok || ex.globConst[g] || n == "init$guard" {
				continue
			}
			t := g.Type().(*types.Pointer).Elem()
			ptr := &Ptr{Base: ex.globalRef(g), Root: t, Typ: t}
			if _, isArr := t.Underlying().(*types.Array); isArr {
				continue
			}
			v := ex.freshValue(st, "glob."+n, t)
			ex.store(st, ptr, v, t)
		}
	}
	return st
}

var alloc0 = func() *Term {
	t := Const("alloc!0", SInt)
	allocRank[t] = 0
	return t
}()
