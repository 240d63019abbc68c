package main

// Verification of functions against their contracts.

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/types"
	"os"
	"path/filepath"
	"reflect"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Report struct {
	Func     string
	Obls     []OblRes
	Inlined  map[string]int
	Externs  map[string]int
	Modelled map[string]int
	Used     map[string]int
	Hits     map[string]int
	Paths    int
	Prunes   int
	Returns  int
	SolverMS int64
	Queries  int
	WallMS   int64
	Spawn    []string `json:",omitempty"`
}

type OblRes struct {
	Func, Kind, Label, Pos string
	Res                    string // discharged, failed, unknown, unsupported
	By                     string
	MS                     int64
	Detail                 string `json:",omitempty"`
}

// propsOf: the properties a contract takes part in
func (cs *Contracts) propsOf(c *Contract) map[string]bool {
	set := map[string]bool{}
	add := func(ps []string) {
		for _, p := range ps {
			set[p] = true
		}
	}
	add(c.Props)
	add(c.Auto)
	add(c.Safe)
	add(c.LockProps)
	for _, l := range [][]Clause{c.Ensures, c.Shows, c.Invs} {
		for _, e := range l {
			add(e.Props)
		}
	}
	for _, n := range c.Protos {
		p := cs.Protos[n]
		if p == nil {
			panic(c.Pos + ": no protocol " + n)
		}
		for _, h := range p.Hooks {
			for _, a := range h.Acts {
				add(a.Props)
			}
		}
	}
	return set
}

func hasProp(ps []string, p string) bool {
	for _, x := range ps {
		if x == p {
			return true
		}
	}
	return false
}

type Verifier struct {
	moved map[string]string
	ex    *Exec
	cs    *Contracts
	prop  string
	fns   map[string]*ssa.Function
	pool  *Pool // proofs
	tier  string
	cross *Pool
}

// verify one contract; dep: it is used by another function, all of it counts
func (v *Verifier) verify(con *Contract, dep bool) *Report {
	t0 := time.Now()
	ex := v.ex
	rep := &Report{Func: con.Func}
	ex.obls = nil
	ex.own = v.prop
	if dep {
		ex.own = ""
	}
	ex.inlined, ex.externs, ex.modelled, ex.usedCon, ex.hookHits = map[string]int{}, map[string]int{}, map[string]int{}, map[string]int{}, map[string]int{}
	ex.pathCnt, ex.prunes, ex.returns = 0, 0, 0
	ex.guards = map[*Term]guard{}
	q0, s0 := ex.pool.Queries, ex.pool.Time
	ex.cur = con
	fn := v.fns[con.Func]
	if con.IsTypes {
		v.types(con)
	} else if con.Codec != nil {
		v.codec(con)
	} else if fn == nil {
		if con.Optional {
			return rep
		}
		ex.obls = append(ex.obls, &Obligation{Func: con.Func, Kind: "missing", Label: "function " + con.Func + " exists", Goal: False, Props: []string{v.prop}})
	} else {
		v.function(con, fn)
	}
	v.finish(con, rep, dep)
	rep.Queries = ex.pool.Queries - q0
	rep.SolverMS += (ex.pool.Time - s0).Milliseconds()
	rep.WallMS = time.Since(t0).Milliseconds()
	return rep
}

func (v *Verifier) finish(con *Contract, rep *Report, dep bool) {
	ex := v.ex
	rep.Inlined, rep.Externs, rep.Modelled, rep.Used, rep.Hits = ex.inlined, ex.externs, ex.modelled, ex.usedCon, ex.hookHits
	rep.Paths, rep.Prunes, rep.Returns = ex.pathCnt, ex.prunes, ex.returns
	var todo []*Obligation
	for _, o := range ex.obls {
		if !dep && !hasProp(o.Props, v.prop) && o.Kind != "unsupported" {
			continue
		}
		todo = append(todo, o)
	}
	v.discharge(todo)
	// equal obligations on different paths are one line
	type key struct{ f, k, l, p string }
	idx := map[key]int{}
	for _, o := range todo {
		r := OblRes{Func: o.Func, Kind: o.Kind, Label: o.Label, Pos: o.Pos, By: o.Solver, MS: o.Time.Milliseconds(), Detail: o.Detail}
		switch {
		case o.Kind == "unsupported" || o.Kind == "missing":
			if o.Res == Unsat {
				r.Res = "discharged"
			} else {
				r.Res = "unsupported"
			}
		case o.Res == Unsat:
			r.Res = "discharged"
		case v.restructured(con, o) != "":
			r.Res, r.Label = "unsupported", r.Label+" ("+v.restructured(con, o)+")"
		case o.Res == Sat:
			r.Res = "failed"
		default:
			r.Res = "unknown"
		}
		if r.Res != "discharged" {
			r.Detail = strings.Join(o.Trace, "; ")
			if o.Model != "" {
				r.Detail += "\n" + o.Model
			}
			k := key{r.Func, r.Kind, r.Label, r.Pos}
			if _, ok := idx[k]; ok {
				continue
			}
			idx[k] = 1
		}
		rep.Obls = append(rep.Obls, r)
	}
}

func (v *Verifier) discharge(todo []*Obligation) {
	// queries are built by one goroutine (term tables are shared), solved by all
	type job struct {
		o *Obligation
		q string
		g string // by instances
	}
	jobs := make(chan job, 64)
	var wg sync.WaitGroup
	var mu sync.Mutex
	var open []job // what no solver decided in its time
	to := 20 * time.Second
	if v.tier == "thorough" {
		to = 60 * time.Second
	}
	for i := 0; i < cap(v.pool.ch); i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := range jobs {
				if j.g != "" {
					r, _, d := v.pool.Ask(j.g, to/2, false)
					j.o.Time = d
					if r == Unsat {
						j.o.Res, j.o.Solver = r, v.pool.kind
						if v.tier == "thorough" {
							if r2, _, d2 := v.cross.Ask(j.g, to, false); r2 == Unsat {
								j.o.Solver += "+" + v.cross.kind
								j.o.Time += d2
							} else if r2 == Sat {
								j.o.Res, j.o.Detail = Unknown, "solvers disagree"
							}
						}
						continue
					}
				}
				t0 := time.Now()
				if j.g != "" && os.Getenv("GOCV_SLOW") != "" {
					fmt.Fprintf(os.Stderr, "not by instances: %s at %s (%v)\n", j.o.Label, j.o.Pos, j.o.Time)
				}
				r, m, d := v.pool.Ask(j.q, to, os.Getenv("GOCV_MODEL") != "")
				if os.Getenv("GOCV_SLOW") != "" && time.Since(t0) > time.Second {
					fmt.Fprintf(os.Stderr, "slow: %s at %s %v %v\n", j.o.Label, j.o.Pos, r, d)
				}
				j.o.Res, j.o.Time, j.o.Solver = r, d, v.pool.kind
				if r == Unknown || (v.tier == "thorough" && r == Unsat) {
					r2, _, d2 := v.cross.Ask(j.q, to, false)
					j.o.Time += d2
					if r == Unknown && r2 == Unsat {
						j.o.Res, j.o.Solver = r2, v.cross.kind
					} else if r == Unsat && r2 == Unsat {
						j.o.Solver += "+" + v.cross.kind
					} else if r == Unsat && r2 == Sat {
						j.o.Res, j.o.Detail = Unknown, "solvers disagree"
					} else if r == Unknown && r2 == Sat {
						j.o.Res = Sat
					}
				}
				j.o.Model = m
				if j.o.Res == Unknown && j.o.Detail == "" {
					mu.Lock()
					open = append(open, j)
					mu.Unlock()
				}
			}
		}()
	}
	for _, o := range todo {
		if o.Goal == True {
			o.Res, o.Solver = Unsat, "simplifier"
			if o.Kind == "type" {
				o.Solver = "type checker"
			}
			continue
		}
		if o.Kind == "type" {
			o.Res, o.Solver = Sat, "type checker"
			continue
		}
		q := buildQuery(o.Assume, o.Goal)
		if d := os.Getenv("GOCV_DUMP"); d != "" && strings.Contains(o.Label, d) {
			os.WriteFile(fmt.Sprintf("/tmp/q%d.smt2", len(q)), []byte(fmt.Sprintf("; %s %s %s\n%s(check-sat)\n", o.Func, o.Label, o.Pos, q)), 0644)
		}
		g := ""
		if hasQuant(o.Assume, o.Goal) {
			pc, gg, _ := groundFacts(o.Assume, o.Goal)
			g = buildQuery(pc, gg)
			if d := os.Getenv("GOCV_DUMP"); d != "" && strings.Contains(o.Label, d) {
				os.WriteFile(fmt.Sprintf("/tmp/g%d.smt2", len(g)), []byte(fmt.Sprintf("; %s %s %s\n%s(check-sat)\n", o.Func, o.Label, o.Pos, g)), 0644)
			}
		}
		jobs <- job{o, q, g}
	}
	close(jobs)
	wg.Wait()
	// once more, with more time: the machine may have been busy
	for i, j := range open {
		if i == 4 {
			break
		}
		wg.Add(1)
		go func(j job) {
			defer wg.Done()
			q := j.g
			if q == "" {
				q = j.q
			}
			for _, p := range []*Pool{v.pool, v.cross} {
				r, _, d := p.Ask("; again\n"+q, 3*to, false)
				j.o.Time += d
				if r == Unsat {
					j.o.Res, j.o.Solver = r, p.kind
					return
				}
				if r == Sat {
					return
				}
			}
		}(j)
	}
	wg.Wait()
}

// hooksOf prepares the protocol of a contract
func (ex *Exec) setProtocol(con *Contract, st *State, env *Env) {
	ex.hooks = nil
	for _, n := range con.Protos {
		p := ex.con.Protos[n]
		for _, g := range p.Ghosts {
			st.ghost[g.Name] = ghostInit(env, g)
		}
		ex.hooks = append(ex.hooks, p.Hooks...)
	}
	for _, g := range con.Ghosts {
		st.ghost[g.Name] = ghostInit(env, g)
	}
}

func ghostInit(env *Env, g GhostDecl) *Term {
	if call, ok := g.Init.(astCall); ok && exprString(call.Fun) == "arbitrary" {
		c := Const("g0!"+g.Name, g.Sort)
		return c
	}
	t := env.term(g.Init)
	if g.Sort.isArray() {
		return ConstArr(g.Sort, t)
	}
	return t
}

func (v *Verifier) function(con *Contract, fn *ssa.Function) {
	ex := v.ex
	ex.curProps = con.Safe
	st := ex.startState()
	vars := map[string]TV{}
	var args []Value
	for i, p := range fn.Params {
		n := p.Name()
		if i < len(con.Params) {
			n = con.Params[i]
		}
		a := ex.freshValue(st, n, p.Type())
		args = append(args, a)
		if n != "_" {
			vars[n] = TV{a, p.Type()}
		}
	}
	if len(fn.Params) != len(con.Params) {
		panic(con.Pos + ": contract of " + con.Func + " names other parameters")
	}
	var bind []Value
	for i, fv := range fn.FreeVars {
		a := ex.freshValue(st, fv.Name(), fv.Type())
		_ = i
		bind = append(bind, a)
		vars[fv.Name()] = TV{a, fv.Type()}
	}
	ex.curVars = vars
	env := &Env{ex: ex, st: st, vars: vars, pos: con.Pos}
	ex.hooks = nil
	ex.setProtocol(con, st, env)
	for _, l := range con.Lets {
		vars[l.Name] = env.eval(l.Expr)
	}
	for _, r := range con.Requires {
		st.assume(env.bool(r.Expr))
	}
	for _, g := range v.cs.GlobalInvs {
		st.assume((&Env{ex: ex, st: st, pos: g.Pos}).bool(g.Expr))
	}
	entry := st.clone()
	ex.entry = entry
	// the precondition is satisfiable
	if r, _, _ := ex.pool.Ask(buildQuery(st.pc, nil), 10*time.Second, false); r == Unsat {
		ex.obls = append(ex.obls, &Obligation{Func: con.Func, Kind: "vacuous", Label: "the precondition is satisfiable", Goal: False, Props: con.allProps()})
	}
	ex.atBackEdge = func(s *State) {
		ex.runHooks(s, "back", "", nil, nil, nil, fn.Pos())
	}
	ret := func(s *State, res []Value) {
		ex.returns++
		m := map[string]TV{}
		for i, n := range con.Results {
			if i < len(res) {
				m[n] = TV{res[i], fn.Signature.Results().At(i).Type()}
			}
		}
		e := (&Env{ex: ex, st: s, old: entry, vars: vars, pos: con.Pos}).with(m)
		ex.runHooks2(s, e, "return")
		for _, c := range append(append([]Clause{}, con.Ensures...), con.Shows...) {
			ex.check(s, e.bool(c.Expr), "ensures", c.Label, ex.orCur(c.Props), fn.Pos())
		}
		ex.globalInvs(s, fn.Pos())
		if len(con.LockProps) > 0 {
			ex.check(s, s.noLocks(), "lock", "every lock taken is released", con.LockProps, fn.Pos())
		}
		if con.Modular && !con.AnyMod {
			v.frame(con, s, entry, e, fn)
		}
	}
	ex.pushFrame(st, fn, args, bind, nil)
	ex.run(st, &sink{ret: ret})
	ex.atBackEdge = nil
	if ex.returns == 0 && !con.NoReturn {
		ex.obls = append(ex.obls, &Obligation{Func: con.Func, Kind: "vacuous", Label: "a return is reachable", Goal: False, Props: con.allProps()})
	}
}

// runHooks2: return hooks see the results by name
func (ex *Exec) runHooks2(s *State, e *Env, event string) {
	for _, h := range ex.hooks {
		if h.Event == event {
			n := *e
			n.pos = h.Pos
			ex.runActions(s, &n, h.Acts, event, 0)
		}
	}
}

// frame: a modular function changes only what its contract lists
func (v *Verifier) frame(con *Contract, s, entry *State, e *Env, fn *ssa.Function) {
	ex := v.ex
	props := con.allProps()
	if len(props) == 0 {
		props = []string{v.prop}
	}
	// objects and maps that may change
	objs := map[string][]*Term{} // heap key prefix -> references
	for _, m := range con.Modifies {
		if strings.HasPrefix(m, "ghost ") {
			continue
		}
		oe := e.oldEnv()
		tv := oe.eval(parseExpr(m, con.Pos))
		switch x := tv.V.(type) {
		case *Ptr:
			for _, l := range leavesOf(x.Typ) {
				k := heapKey(x.Root, x.Idx != nil, x.Path+l.Path)
				objs[k] = append(objs[k], x.Base)
			}
		case *Term:
			if mt, ok := tv.T.Underlying().(*types.Map); ok {
				_, dk := entry.mapDom(x, mt)
				objs[dk] = append(objs[dk], x)
				for _, l := range leavesOf(mt.Elem()) {
					_, vk := entry.mapVal(x, mt, l)
					objs[vk] = append(objs[vk], x)
				}
			}
		}
	}
	for _, k := range sortedKeys(s.heap) {
		y := s.heap[k]
		x := entry.arr(k, y.S)
		if x == y {
			continue
		}
		var goal *Term
		t := y
		var cs []*Term
		for t != x && t.Op == "store" {
			i := t.Args[1]
			if b, _ := linear(i); isAllocBase(b) && allocRank[b] >= 0 {
				// a new object
			} else {
				c := Eq(Select(y, i), Select(x, i))
				var alts []*Term
				for _, o := range objs[k] {
					alts = append(alts, Eq(i, o))
				}
				cs = append(cs, Or(append(alts, c)...))
			}
			t = t.Args[0]
		}
		if t == x {
			goal = And(cs...)
		} else {
			i := BoundVar("i", SInt)
			var alts []*Term
			for _, o := range objs[k] {
				alts = append(alts, Eq(i, o))
			}
			goal = Forall(Imp(And(Le(IntLit(0), i), Lt(i, entry.alloc)), Or(append(alts, Eq(Select(y, i), Select(x, i)))...)), i)
		}
		ex.check(s, goal, "frame", "nothing but "+strings.Join(con.Modifies, ", ")+" changes ("+k+")", props, fn.Pos())
	}
}

func (ex *Exec) loopInvariants(st *State) []givenInv {
	if ex.cur == nil {
		return nil
	}
	return ex.stateConds(st, ex.cur.Invs)
}

func (ex *Exec) loopHints(st *State) []givenInv {
	if ex.cur == nil {
		return nil
	}
	return ex.stateConds(st, ex.cur.Hints)
}

func (ex *Exec) stateConds(st *State, cs []Clause) []givenInv {
	var out []givenInv
	for _, c := range cs {
		c := c
		env := &Env{ex: ex, st: st, old: ex.entry, vars: ex.curVars, pos: c.Pos}
		if _, err := ex.tryBool(env, c.Expr); err != nil {
			continue
		}
		out = append(out, givenInv{c.Label, ex.orCur(c.Props), func(s *State) *Term {
			return (&Env{ex: ex, st: s, old: ex.entry, vars: ex.curVars, pos: c.Pos}).bool(c.Expr)
		}})
	}
	return out
}

// ------------------------------------------------------------ property runs

type job struct {
	name string
	dep  bool
}

func (v *Verifier) contractsFor() []*Contract {
	var out []*Contract
	for _, c := range v.cs.Order {
		if c.Trusted || c.Iface || strings.HasPrefix(c.Func, "xmlvalue ") || strings.HasPrefix(c.Func, "channel ") {
			continue
		}
		if v.cs.propsOf(c)[v.prop] {
			out = append(out, c)
		}
	}
	return out
}

const entriesJob = "(entries)"

// addAutos gives every exported function of the listed packages that has no
// contract an empty one, so that it is verified as an activation of its own;
// functions that are not exported are followed from their callers
func (v *Verifier) addAutos() {
	lockProps := map[string]bool{}
	for _, l := range v.cs.Locks {
		for _, p := range l.Props {
			lockProps[p] = true
		}
	}
	for _, a := range v.cs.Autos {
		var lp []string
		for _, p := range a.Props {
			if lockProps[p] {
				lp = append(lp, p)
			}
		}
		pkgs := map[string]bool{}
		for _, p := range a.Pkgs {
			pkgs[p] = true
		}
		for _, k := range sortedKeys(v.fns) {
			fn := v.fns[k]
			if fn.Pkg == nil || !pkgs[shortPkg(fn.Pkg.Pkg.Path())] {
				continue
			}
			con := v.cs.Funcs[k]
			if con == nil {
				if fn.Parent() != nil || !ast.IsExported(fn.Name()) {
					continue
				}
				con = &Contract{Func: k, Pos: "auto", NoReturn: true}
				for range fn.Params {
					con.Params = append(con.Params, "_")
				}
				v.cs.Funcs[k] = con
			}
			if con.Trusted || con.Iface {
				continue
			}
			con.Auto = append(con.Auto, a.Props...)
			if len(con.LockProps) == 0 {
				con.LockProps = lp
			}
		}
	}
}

func (v *Verifier) entries() []string {
	var out []string
	for k, c := range v.cs.Funcs {
		if hasProp(c.Auto, v.prop) {
			out = append(out, k)
		}
	}
	sort.Strings(out)
	return out
}

func shortPkg(p string) string {
	return strings.TrimPrefix(p, "github.com/voltbras/go-ocpp/")
}

// runJobs verifies the named contracts in this process
func (v *Verifier) runJobs(jobs []job, out func(*Report)) {
	for _, j := range jobs {
		if j.name == entriesJob {
			out(&Report{Func: j.name, Spawn: v.entries()})
			continue
		}
		con := v.cs.Funcs[j.name]
		func() {
			defer func() {
				if r := recover(); r != nil {
					msg := fmt.Sprint(r)
					if s, ok := r.(specErr); ok {
						msg = s.msg
					}
					if u, ok := r.(Unsupported); ok {
						msg = u.msg
					}
					if os.Getenv("GOCV_DEBUG") != "" {
						buf := make([]byte, 1<<14)
						fmt.Fprintf(os.Stderr, "%s\n%s\n", msg, buf[:runtime.Stack(buf, false)])
					}
					out(&Report{Func: j.name, Obls: []OblRes{{Func: j.name, Kind: "unsupported", Label: msg, Res: "unsupported"}}})
				}
			}()
			out(v.verify(con, j.dep))
		}()
	}
}

func encodeReport(r *Report) string {
	b, _ := json.Marshal(r)
	return string(b)
}

func sortReports(rs []*Report) {
	sort.Slice(rs, func(i, j int) bool { return rs[i].Func < rs[j].Func })
}

// types: obligations on declarations, decided by the type checker
func (v *Verifier) types(con *Contract) {
	ex := v.ex
	for _, o := range con.Types {
		ok, label := false, o.Kind+" "+o.Rest
		func() {
			defer func() {
				if r := recover(); r != nil {
					label += " (" + fmt.Sprint(r) + ")"
				}
			}()
			env := &Env{ex: ex, pos: o.Pos}
			if o.Kind == "initially" {
				env.st = ex.initState
				ok = env.bool(parseExpr(o.Rest, o.Pos)) == True
				return
			}
			t := env.resolveType(parseExpr(o.Args[0], o.Pos))
			switch o.Kind {
			case "impl", "noimpl":
				it := env.resolveType(parseExpr(o.Args[1], o.Pos)).Underlying().(*types.Interface)
				ok = types.Implements(t, it) == (o.Kind == "impl")
			case "immutable":
				ok, label = v.immutable(t, o)
			case "xmltag", "xmlfield":
				ok = v.xmlTag(t, o)
			}
		}()
		ob := &Obligation{Props: con.Props, Func: con.Func, Kind: "type", Label: label, Goal: BoolLit(ok)}
		if !ok {
			ob.Model = "decided by the type checker"
			if o.Kind == "immutable" {
				ob.Kind = "unsupported" // an assumption of the other proofs, not itself a property
			}
		}
		ex.obls = append(ex.obls, ob)
	}
}

// how encoding/xml treats a field
type xmlField struct {
	kind, space, name string
	omit              bool // not written when empty
}

func xmlName(t types.Type) (string, string) {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	if st, ok := t.Underlying().(*types.Struct); ok {
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == "XMLName" && typeKey(st.Field(i).Type()) == "encoding/xml.Name" {
				n, _, _ := strings.Cut(reflect.StructTag(st.Tag(i)).Get("xml"), ",")
				if sp, l, ok := strings.Cut(n, " "); ok {
					return sp, l
				}
				return "", n
			}
		}
	}
	return "", ""
}

func xmlFieldOf(f *types.Var, tag string) xmlField {
	x := xmlField{kind: "element"}
	if f.Type().Underlying() != nil {
		if _, ok := f.Type().Underlying().(*types.Interface); ok {
			x.kind = "content"
		}
	}
	t := reflect.StructTag(tag).Get("xml")
	if t == "-" {
		return xmlField{kind: "-"}
	}
	parts := strings.Split(t, ",")
	x.name = parts[0]
	if sp, l, ok := strings.Cut(x.name, " "); ok {
		x.space, x.name = sp, l
	}
	omit := false
	for _, o := range parts[1:] {
		switch o {
		case "attr", "chardata":
			x.kind = o
		case "omitempty":
			omit = true
		default:
			x.kind = o
		}
	}
	if x.kind == "element" && strings.Contains(x.name, ">") {
		x.kind = "path"
	}
	if x.kind == "content" && x.name != "" {
		x.kind = "element"
	}
	if x.kind == "element" || x.kind == "attr" {
		if x.name == "" && x.kind == "element" {
			x.space, x.name = xmlName(f.Type())
		}
		if x.name == "" {
			x.name = f.Name()
		}
	}
	if omit {
		switch u := f.Type().Underlying().(type) {
		case *types.Basic, *types.Interface:
			x.omit = true
		case *types.Array:
			x.omit = u.Len() == 0
		}
		// a nil pointer or an empty list has nothing to write, with or without omitempty
	}
	return x
}

// xmlTag: how the declaration makes encoding/xml name a type or a field
func (v *Verifier) xmlTag(t types.Type, o *TypeOb) bool {
	for _, m := range []string{"MarshalXML", "UnmarshalXML", "MarshalText", "UnmarshalText", "MarshalXMLAttr", "UnmarshalXMLAttr"} {
		if hasMethod(types.NewPointer(t), m) != nil && v.cs.Funcs["(*"+typeKey(t)+")."+m] == nil {
			panic(fmt.Sprintf("%s has a %s method", typeKey(t), m))
		}
	}
	if o.Kind == "xmltag" {
		ns := o.Args[1]
		if ns == "-" {
			ns = ""
		}
		sp, l := xmlName(t)
		return sp == ns && l == o.Args[2]
	}
	st := t.Underlying().(*types.Struct)
	path := strings.Split(o.Args[1], ".")
	for len(path) > 1 {
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == path[0] {
				st = st.Field(i).Type().Underlying().(*types.Struct)
				break
			}
		}
		path = path[1:]
	}
	ok := false
	var x xmlField
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == path[0] {
			x = xmlFieldOf(st.Field(i), st.Tag(i))
			ok = x.kind == o.Args[2] && (o.Args[3] == "-" || x.name == o.Args[3]) && !(o.Args[4] == "required" && x.omit)
			if n, isN := st.Field(i).Type().(*types.Named); isN {
				for _, m := range []string{"MarshalXML", "UnmarshalXML", "MarshalText", "UnmarshalText", "MarshalXMLAttr", "UnmarshalXMLAttr"} {
					if hasMethod(types.NewPointer(n), m) != nil && n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), modPath) && v.cs.Funcs["(*"+typeKey(n)+")."+m] == nil {
						panic(fmt.Sprintf("%s has a %s method", typeKey(n), m))
					}
				}
			}
		}
	}
	for i := 0; ok && i < st.NumFields(); i++ {
		// fields of one name hide or clash with each other
		f := st.Field(i)
		if f.Name() == path[0] || f.Name() == "XMLName" || f.Embedded() {
			continue
		}
		if y := xmlFieldOf(f, st.Tag(i)); y.kind == x.kind && y.name == x.name {
			return false
		}
	}
	return ok
}

// immutable: the fields are only written through an object that the writing
// function itself allocates
func (v *Verifier) immutable(t types.Type, o *TypeOb) (bool, string) {
	fields := map[string]bool{}
	for _, f := range o.Args[1:] {
		fields[f] = true
	}
	ptr := types.NewPointer(t)
	for name, fn := range v.fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Store:
					if types.Identical(x.Addr.Type(), ptr) {
						if _, ok := x.Addr.(*ssa.Alloc); !ok {
							return false, o.Kind + " " + o.Rest + ": " + name + " overwrites one"
						}
					}
				case *ssa.FieldAddr:
					if !types.Identical(x.X.Type(), ptr) || !fields[t.Underlying().(*types.Struct).Field(x.Field).Name()] {
						continue
					}
					if _, ok := x.X.(*ssa.Alloc); ok {
						continue
					}
					for _, r := range *x.Referrers() {
						switch u := r.(type) {
						case *ssa.UnOp, *ssa.DebugRef:
						case *ssa.FieldAddr, *ssa.IndexAddr:
						default:
							_ = u
							return false, o.Kind + " " + o.Rest + ": " + name + " writes it"
						}
					}
				}
			}
		}
	}
	return true, o.Kind + " " + o.Rest
}

// restructured: what a lock guards was moved to fields that the contracts do not know; the
// contracts of that package then say nothing
func (v *Verifier) restructured(con *Contract, o *Obligation) string {
	if v.moved == nil {
		v.moved = map[string]string{}
		known := map[string]bool{}
		if b, err := os.ReadFile(*fDir + "/contracts/names.txt"); err == nil {
			for _, d := range parseDecls(string(b)) {
				known[d.owner+"."+d.name] = true
			}
		}
		for _, d := range v.cs.Locks {
			pkg, _, _ := strings.Cut(d.Type, ".")
			env := &Env{ex: v.ex, pos: d.Pos}
			t := env.resolveType(parseExpr(d.Type, d.Pos))
			st, ok := t.Underlying().(*types.Struct)
			if !ok {
				continue
			}
			has, fresh := map[string]bool{}, ""
			for i := 0; i < st.NumFields(); i++ {
				n := st.Field(i).Name()
				has[n] = true
				if !st.Field(i).Exported() && !known[d.Type+"."+n] {
					fresh = n
				}
			}
			for _, n := range append([]string{d.Field}, d.Guards...) {
				if !has[n] && fresh != "" {
					v.moved[pkg] = d.Type + " has no field " + n + " but a new one, " + fresh
				}
			}
		}
	}
	pkg := strings.TrimLeft(con.Func, "(*")
	pkg, _, _ = strings.Cut(pkg, ".")
	if m := v.moved[pkg]; m != "" {
		return m
	}
	return v.moved[filepath.Base(filepath.Dir(o.Pos))]
}
