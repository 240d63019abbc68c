package main

// Path-based symbolic execution of go/ssa code.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Unsupported struct{ msg string }

func unsupported(f string, a ...interface{}) Unsupported { return Unsupported{fmt.Sprintf(f, a...)} }

type deferred struct {
	call *ssa.CallCommon
	fn   Value
	args []Value
	recv Value
	pos  token.Pos
}

type Frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]Value
	blk    *ssa.BasicBlock
	prev   *ssa.BasicBlock
	idx    int
	defers []deferred
	// where the results go in the caller
	retTo ssa.Value
	// results kept while deferred calls run
	inDefers bool
	panicky  bool
	entryTop bool
	loops    map[*ssa.BasicBlock]int // unroll counts
	// contract key of the function, for hooks at its return
	key  string
	args []Value
}

type State struct {
	pc     []*Term
	pcset  map[*Term]bool
	heap   map[string]*Term
	ghost  map[string]*Term
	alloc  *Term
	epoch  int
	events int // protocol events so far
	frames []*Frame
	typed  map[*Term]bool
	locks  []lockRef // locks this activation has operated on
	// snapshots for decoded JSON values
	jsnap map[*Term]map[string]*Term
	steps int
	trace []string
	opq   map[string]Value // model-level attributes
	dead  bool
	// loop analysis: stop set
	watch      *watch
	lockSnap   *State  // state right after the last lock was taken
	unlockSnap *State  // state right before the last lock was released
	mychans    []*Term // channels made by this activation that nobody else can know
	gochans    []*Term // in a goroutine: channels only it sends to
}

type lockRef struct {
	key  string // root|path
	base *Term
	decl *LockDecl
}

func (st *State) clone() *State {
	n := &State{alloc: st.alloc, epoch: st.epoch, events: st.events, steps: st.steps, watch: st.watch, lockSnap: st.lockSnap, unlockSnap: st.unlockSnap, mychans: st.mychans[:len(st.mychans):len(st.mychans)], gochans: st.gochans}
	n.pc = st.pc[:len(st.pc):len(st.pc)]
	n.pcset = make(map[*Term]bool, len(st.pcset))
	for k := range st.pcset {
		n.pcset[k] = true
	}
	n.heap = make(map[string]*Term, len(st.heap))
	for k, v := range st.heap {
		n.heap[k] = v
	}
	n.ghost = make(map[string]*Term, len(st.ghost))
	for k, v := range st.ghost {
		n.ghost[k] = v
	}
	n.typed = make(map[*Term]bool, len(st.typed))
	for k := range st.typed {
		n.typed[k] = true
	}
	n.jsnap = st.jsnap
	n.locks = st.locks[:len(st.locks):len(st.locks)]
	n.trace = st.trace[:len(st.trace):len(st.trace)]
	n.opq = make(map[string]Value, len(st.opq))
	for k, v := range st.opq {
		n.opq[k] = v
	}
	for _, f := range st.frames {
		g := *f
		g.env = make(map[ssa.Value]Value, len(f.env))
		for k, v := range f.env {
			g.env[k] = v
		}
		g.defers = f.defers[:len(f.defers):len(f.defers)]
		if f.loops != nil {
			g.loops = map[*ssa.BasicBlock]int{}
			for k, v := range f.loops {
				g.loops[k] = v
			}
		}
		n.frames = append(n.frames, &g)
	}
	return n
}

func (st *State) top() *Frame { return st.frames[len(st.frames)-1] }

func (st *State) assume(t *Term) {
	if t.hasBound {
		return // a typing fact about a quantified variable, met while reading a specification
	}
	if t == True || st.pcset[t] {
		return
	}
	if t.Op == "and" {
		for _, a := range t.Args {
			st.assume(a)
		}
		return
	}
	if t == False || st.pcset[Not(t)] {
		st.dead = true
	}
	st.pcset[t] = true
	st.pc = append(st.pc, t)
}

// known decides a condition from the facts of the path by lookup only
func (st *State) known(t *Term) (bool, bool) {
	if t == True || st.pcset[t] {
		return true, true
	}
	if t == False || st.pcset[Not(t)] {
		return false, true
	}
	if t.Op == "and" {
		all := true
		for _, a := range t.Args {
			v, ok := st.known(a)
			if ok && !v {
				return false, true
			}
			if !ok {
				all = false
			}
		}
		if all {
			return true, true
		}
	}
	if t.Op == "or" {
		all := true
		for _, a := range t.Args {
			v, ok := st.known(a)
			if ok && v {
				return true, true
			}
			if !ok {
				all = false
			}
		}
		if all {
			return false, true
		}
	}
	return false, false
}

type Obligation struct {
	Props  []string
	Func   string
	Kind   string // ensures, requires, invariant, safe, type, lemma, unsupported
	Label  string
	Pos    string
	Assume []*Term
	Goal   *Term
	Trace  []string
	// result
	Res    Result
	Solver string
	Time   time.Duration
	Model  string
	Detail string
}

type Exec struct {
	own        string // the property that is decided, "" if all count
	prog       *ssa.Program
	pkgs       map[string]*ssa.Package
	fset       *token.FileSet
	con        *Contracts
	pool       *Pool
	closures   map[*Term]*FuncV
	obls       []*Obligation
	suppress   int
	implTypes  map[string]types.Type // interface types asked about
	allFns     map[string]*ssa.Function
	implCache  map[string][]*Term
	cur        *Contract // contract being verified
	curProps   []string
	initHeap   map[string]*Term
	initGlob   map[*ssa.Global]int
	globRef    map[*ssa.Global]*Term
	globConst  map[*ssa.Global]bool
	inlined    map[string]int
	externs    map[string]int // unmodelled external calls
	modelled   map[string]int
	usedCon    map[string]int
	pathCnt    int
	prunes     int
	entryAlloc *Term
	entryHeap  map[string]*Term
	entryGhost map[string]*Term
	curArgs    map[string]Value
	reach      map[string]bool
	debug      bool
	deadline   time.Time
	hookDepth  int

	pkgOrder   []*ssa.Package
	allPkgs    []*types.Package
	repoTypes  []types.Type
	atBackEdge func(*State)
	onReturn   func(*State, []Value)
	hooks      []*Hook
	hookHits   map[string]int
	entry      *State
	curVars    map[string]TV
	goDepth    int
	guards     map[*Term]guard
	initMode   bool
	initBad    []string
	initState  *State
	returns    int // feasible returns seen by the current contract
}

type watch struct {
	frame  int // index in frames of the loop's frame
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	// collected
	back   []*State
	exits  []*State
	only   bool // stop at exits (analysis)
	outer  *watch
	onBack func(*State)
}

func (ex *Exec) pos(p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	q := ex.fset.Position(p)
	return strings.TrimPrefix(q.Filename, "/repo/") + ":" + fmt.Sprint(q.Line)
}

// check records a proof obligation at the current point and assumes it afterwards.
func (ex *Exec) check(st *State, goal *Term, kind, label string, props []string, p token.Pos) {
	if ex.suppress > 0 {
		if ex.initMode && kind == "unsupported" {
			ex.initBad = append(ex.initBad, label)
		}
		st.assume(goal)
		return
	}
	if ex.own != "" && (kind == "protocol" || kind == "lock guarantee" || kind == "lock invariant") && !hasProp(props, ex.own) {
		// decided by the checks of other properties; what this property
		// asks for must not lean on it
		return
	}
	fn := ""
	if ex.cur != nil {
		fn = ex.cur.Func
	}
	o := &Obligation{Props: props, Func: fn, Kind: kind, Label: label, Pos: ex.pos(p), Goal: goal,
		Trace: append([]string{}, st.trace...)}
	if goal != True && !st.pcset[goal] {
		o.Assume = append([]*Term{}, st.pc...)
	} else {
		o.Goal = True
	}
	ex.obls = append(ex.obls, o)
	st.assume(goal)
}

func (ex *Exec) safe(st *State, goal *Term, what string, p token.Pos) {
	props := ex.curProps
	if len(props) == 0 {
		st.assume(goal)
		return
	}
	ex.check(st, goal, "safe", what, props, p)
}

func (ex *Exec) fail(st *State, kind, msg string, p token.Pos) {
	ex.check(st, False, kind, msg, ex.curAllProps(), p)
}

func (ex *Exec) curAllProps() []string {
	if ex.cur == nil {
		return nil
	}
	return ex.cur.allProps()
}

// feasible asks the solver whether a branch can be taken
func (ex *Exec) feasible(st *State, c *Term) bool {
	if v, ok := st.known(c); ok {
		return v
	}
	ex.prunes++
	pc, _, _ := groundFacts(append(append([]*Term{}, st.pc...), c), nil)
	q := buildQuery(pc, nil)
	r, _, d := ex.pool.Ask(q, time.Second, false)
	if os.Getenv("GOCV_TRACE") != "" {
		p := token.NoPos
		if f := st.top(); f.idx < len(f.blk.Instrs) {
			p = f.blk.Instrs[f.idx].Pos()
		}
		fmt.Fprintf(os.Stderr, "branch in %s %s: %v %v, %d facts, %d bytes\n", st.top().fn.Name(), ex.pos(p), r, d, len(pc), len(q))
	}
	return r != Unsat
}

// ------------------------------------------------------------ running

type sink struct {
	ret func(st *State, res []Value)
}

func (ex *Exec) run(start *State, sk *sink) {
	work := []*State{start}
	for len(work) > 0 {
		st := work[len(work)-1]
		work = work[:len(work)-1]
		ex.pathCnt++
		if ex.pathCnt > 200000 {
			panic(unsupported("too many paths"))
		}
		func() {
			defer func() {
				if r := recover(); r != nil {
					u, ok := r.(Unsupported)
					if !ok {
						panic(r)
					}
					where := ""
					var p token.Pos
					if len(st.frames) > 0 {
						f := st.top()
						where = f.fn.String()
						if f.idx < len(f.blk.Instrs) {
							p = f.blk.Instrs[f.idx].Pos()
						}
					}
					if os.Getenv("GOCV_DEBUG") != "" {
						fmt.Fprintln(os.Stderr, "UNSUPPORTED", where, ex.pos(p), u.msg)
					}
					ex.fail(st, "unsupported", u.msg+" in "+where, p)
				}
			}()
			work = append(work, ex.runPath(st, sk)...)
		}()
	}
}

// runPath runs one path to its end and returns forks
func (ex *Exec) runPath(st *State, sk *sink) []*State {
	var forks []*State
	for {
		if st.dead {
			return forks
		}
		st.steps++
		if st.steps > 200000 {
			panic(unsupported("path too long"))
		}
		f := st.top()
		if f.idx >= len(f.blk.Instrs) {
			panic("fell off block in " + f.fn.String())
		}
		in := f.blk.Instrs[f.idx]
		more, done := ex.step(st, f, in, sk)
		forks = append(forks, more...)
		if done {
			return forks
		}
	}
}

func (ex *Exec) get(st *State, f *Frame, v ssa.Value) Value {
	switch x := v.(type) {
	case *ssa.Const:
		return ex.constant(x)
	case *ssa.Global:
		return &Ptr{Base: ex.globalRef(x), Root: x.Type().(*types.Pointer).Elem(), Typ: x.Type().(*types.Pointer).Elem()}
	case *ssa.Function:
		return &FuncV{Fn: x}
	case *ssa.Builtin:
		return x
	}
	r, ok := f.env[v]
	if !ok {
		panic(unsupported("value %s = %s not available", v.Name(), v))
	}
	return r
}

func (ex *Exec) globalRef(g *ssa.Global) *Term {
	if t, ok := ex.globRef[g]; ok {
		return t
	}
	t := IntLit(int64(len(ex.globRef) + 1))
	ex.globRef[g] = t
	return t
}

func (ex *Exec) constant(c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		return zeroValue(ex, t)
	}
	s, ok := scalarSort(t)
	if !ok {
		panic(unsupported("constant of type %s", t))
	}
	switch s {
	case SBool:
		return BoolLit(constant.BoolVal(c.Value))
	case SInt:
		v := constant.ToInt(c.Value)
		return BigLit(v.ExactString())
	case SReal:
		v := constant.ToFloat(c.Value)
		r, ok := new(big.Rat).SetString(v.ExactString())
		if !ok {
			panic(unsupported("float constant"))
		}
		return RealLit(r)
	case SStr:
		if c.Value.Kind() == constant.String {
			return StrLit(constant.StringVal(c.Value))
		}
		return StrLit(string(rune(c.Int64())))
	}
	panic(unsupported("constant of sort %s", s))
}

func (ex *Exec) term(v Value) *Term {
	switch x := v.(type) {
	case *Term:
		return x
	case *Ptr:
		return x.term()
	case *FuncV:
		return ex.funcTerm(x)
	}
	panic(unsupported("scalar expected, have %T", v))
}

// next moves to the following instruction
func (f *Frame) next() { f.idx++ }

func (ex *Exec) branch(st *State, f *Frame, succ int, sk *sink) ([]*State, bool) {
	return ex.gotoBlock(st, f, f.blk.Succs[succ])
}

func (ex *Exec) assignPhis(st *State, f *Frame, to *ssa.BasicBlock, from *ssa.BasicBlock) {
	pi := -1
	for i, p := range to.Preds {
		if p == from {
			pi = i
		}
	}
	var vals []Value
	var phis []*ssa.Phi
	for _, in := range to.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, ph)
		vals = append(vals, ex.get(st, f, ph.Edges[pi]))
	}
	for i, ph := range phis {
		f.env[ph] = vals[i]
	}
}

func firstNonPhi(b *ssa.BasicBlock) int {
	for i, in := range b.Instrs {
		if _, ok := in.(*ssa.Phi); !ok {
			return i
		}
	}
	return 0
}

func (ex *Exec) enter(st *State, f *Frame, to *ssa.BasicBlock) {
	from := f.blk
	ex.assignPhis(st, f, to, from)
	f.prev = from
	f.blk = to
	f.idx = firstNonPhi(to)
}

// ------------------------------------------------------------ instructions

func (ex *Exec) step(st *State, f *Frame, in ssa.Instruction, sk *sink) (forks []*State, done bool) {
	set := func(v ssa.Value, x Value) {
		f.env[v] = x
		f.next()
	}
	switch x := in.(type) {
	case *ssa.DebugRef:
		f.next()
	case *ssa.Alloc:
		t := x.Type().(*types.Pointer).Elem()
		set(x, ex.newObject(st, t))
	case *ssa.Phi:
		panic("phi reached")
	case *ssa.BinOp:
		set(x, ex.binop(st, x.Op, ex.get(st, f, x.X), ex.get(st, f, x.Y), x.X.Type(), x.Type(), x.Pos()))
	case *ssa.UnOp:
		v := ex.get(st, f, x.X)
		switch x.Op {
		case token.MUL:
			p := ex.deref(st, v, x.Pos())
			ex.guardAccess(st, p, false, x.Pos())
			lv := ex.load(st, p, x.Type())
			ex.afterLoad(p, lv)
			set(x, lv)
		case token.NOT:
			set(x, Not(ex.term(v)))
		case token.SUB:
			t := ex.term(v)
			if t.S == SReal {
				set(x, Sub(mk("real", "0", SReal), t))
			} else {
				set(x, Sub(IntLit(0), t))
			}
		case token.ARROW:
			return ex.recv(st, f, x, v)
		default:
			set(x, App("unop"+x.Op.String(), ex.term(v).S, ex.term(v)))
		}
	case *ssa.Store:
		p := ex.deref(st, ex.get(st, f, x.Addr), x.Pos())
		ex.guardAccess(st, p, true, x.Pos())
		ex.store(st, p, ex.get(st, f, x.Val), x.Val.Type())
		f.next()
	case *ssa.FieldAddr:
		p := ex.deref(st, ex.get(st, f, x.X), x.Pos())
		u := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		set(x, fieldPtr(p, u, x.Field))
	case *ssa.Field:
		s, ok := ex.get(st, f, x.X).(*StructV)
		if !ok {
			panic(unsupported("field of opaque struct %s", x.X.Type()))
		}
		set(x, s.Fields[x.Field])
	case *ssa.IndexAddr:
		set(x, ex.indexAddr(st, ex.get(st, f, x.X), ex.get(st, f, x.Index), x.X.Type(), x.Pos()))
	case *ssa.Index:
		v := ex.get(st, f, x.X)
		i := ex.term(ex.get(st, f, x.Index))
		switch a := v.(type) {
		case *ArrayV:
			if i.isInt() && i.intVal() >= 0 && int(i.intVal()) < len(a.Elems) {
				set(x, a.Elems[i.intVal()])
				break
			}
			panic(unsupported("symbolic index of array value"))
		case *Term:
			if a.S == SStr {
				ex.safe(st, And(Le(IntLit(0), i), Lt(i, strLen(a))), "string index in range", x.Pos())
				set(x, App("strat", SInt, a, i))
				break
			}
			panic(unsupported("index of %s", a.S))
		default:
			panic(unsupported("index of %T", v))
		}
	case *ssa.Slice:
		set(x, ex.slice(st, f, x))
	case *ssa.Lookup:
		return ex.lookup(st, f, x)
	case *ssa.MapUpdate:
		m := ex.term(ex.get(st, f, x.Map))
		mt := x.Map.Type().Underlying().(*types.Map)
		ex.safe(st, Ne(m, IntLit(0)), "assignment to a nil map", x.Pos())
		ex.guardMap(st, m, true, x.Pos())
		ex.mapStore(st, m, mt, ex.get(st, f, x.Key), ex.get(st, f, x.Value))
		f.next()
	case *ssa.MakeMap:
		mt := x.Type().Underlying().(*types.Map)
		set(x, ex.newMap(st, mt))
	case *ssa.MakeChan:
		set(x, ex.newChan(st, ex.term(ex.get(st, f, x.Size)), x))
	case *ssa.MakeSlice:
		set(x, ex.makeSlice(st, x.Type(), ex.term(ex.get(st, f, x.Len)), ex.term(ex.get(st, f, x.Cap)), x.Pos()))
	case *ssa.MakeInterface:
		v := ex.get(st, f, x.X)
		if m, ok := v.(*Term); ok {
			ex.guardMap(st, m, false, x.Pos())
		}
		set(x, &IfaceV{Tag: tagLit(x.X.Type()), Con: x.X.Type(), Val: v})
	case *ssa.MakeClosure:
		fv := &FuncV{Fn: x.Fn.(*ssa.Function)}
		for _, b := range x.Bindings {
			fv.Bind = append(fv.Bind, ex.get(st, f, b))
		}
		set(x, fv)
	case *ssa.ChangeInterface:
		set(x, ex.get(st, f, x.X))
	case *ssa.ChangeType:
		set(x, ex.changeType(ex.get(st, f, x.X), x.Type()))
	case *ssa.Convert:
		set(x, ex.convert(st, ex.get(st, f, x.X), x.X.Type(), x.Type()))
	case *ssa.TypeAssert:
		return ex.typeAssert(st, f, x)
	case *ssa.Extract:
		tv, ok := ex.get(st, f, x.Tuple).(TupleV)
		if !ok {
			panic(unsupported("extract from %T", ex.get(st, f, x.Tuple)))
		}
		set(x, tv[x.Index])
	case *ssa.Range:
		switch u := x.X.Type().Underlying().(type) {
		case *types.Map:
			m := ex.term(ex.get(st, f, x.X))
			ex.guardMap(st, m, false, x.Pos())
			ks := leavesOf(u.Key())
			if len(ks) != 1 {
				panic(unsupported("range over map with composite keys"))
			}
			set(x, &IterV{Map: m, MapT: u, Visited: ConstArr(ArraySort(ks[0].S, SBool), False)})
		default:
			panic(unsupported("range over string"))
		}
	case *ssa.Next:
		return ex.nextIter(st, f, x)
	case *ssa.Jump:
		return ex.gotoBlock(st, f, f.blk.Succs[0])
	case *ssa.If:
		c := ex.term(ex.get(st, f, x.Cond))
		if v, ok := st.known(c); ok {
			if v {
				return ex.gotoBlock(st, f, f.blk.Succs[0])
			}
			return ex.gotoBlock(st, f, f.blk.Succs[1])
		}
		ft := ex.feasible(st, c)
		ff := ex.feasible(st, Not(c))
		switch {
		case ft && ff:
			o := st.clone()
			o.assume(Not(c))
			of := o.top()
			fk, dn := ex.gotoBlock(o, of, of.blk.Succs[1])
			forks = append(forks, fk...)
			if !dn {
				forks = append(forks, o)
			}
			st.assume(c)
			fk, dn = ex.gotoBlock(st, f, f.blk.Succs[0])
			return append(forks, fk...), dn
		case ft:
			st.assume(c)
			return ex.gotoBlock(st, f, f.blk.Succs[0])
		case ff:
			st.assume(Not(c))
			return ex.gotoBlock(st, f, f.blk.Succs[1])
		default:
			st.dead = true
			return nil, true
		}
	case *ssa.Return:
		var res []Value
		for _, r := range x.Results {
			res = append(res, ex.get(st, f, r))
		}
		return ex.ret(st, res, sk)
	case *ssa.RunDefers:
		if len(f.defers) == 0 {
			f.next()
			return
		}
		d := f.defers[len(f.defers)-1]
		f.defers = f.defers[:len(f.defers)-1]
		// stay on this instruction until the list is empty
		return ex.callDeferred(st, f, d)
	case *ssa.Defer:
		d := deferred{call: &x.Call, pos: x.Pos()}
		if x.Call.IsInvoke() {
			d.recv = ex.get(st, f, x.Call.Value)
		} else {
			d.fn = ex.get(st, f, x.Call.Value)
		}
		for _, a := range x.Call.Args {
			d.args = append(d.args, ex.get(st, f, a))
		}
		f.defers = append(f.defers, d)
		f.next()
	case *ssa.Go:
		ex.goStmt(st, f, x)
		f.next()
	case *ssa.Send:
		ex.waitsSend(st, ex.term(ex.get(st, f, x.Chan)), x.Pos())
		ex.send(st, ex.get(st, f, x.Chan), ex.get(st, f, x.X), x.Chan.Type(), x.Pos())
		f.next()
	case *ssa.Select:
		return ex.selectStmt(st, f, x)
	case *ssa.Panic:
		ex.safe(st, False, "explicit panic is unreachable", x.Pos())
		st.dead = true
		return nil, true
	case *ssa.Call:
		return ex.callInstr(st, f, x)
	default:
		panic(unsupported("instruction %T", in))
	}
	return nil, false
}

func (ex *Exec) newRef(st *State) *Term {
	r := st.alloc
	st.alloc = Add(st.alloc, IntLit(1))
	return r
}

func (ex *Exec) newObject(st *State, t types.Type) *Ptr {
	r := ex.newRef(st)
	p := &Ptr{Base: r, Root: t, Typ: t}
	if at, ok := t.Underlying().(*types.Array); ok {
		if _, op := opaqueSort(t); !op {
			for _, l := range leavesOf(at.Elem()) {
				k := heapKey(at.Elem(), true, l.Path)
				a := st.arr(k, elemArrSort(l.S))
				st.heap[k] = Store(a, r, ConstArr(ArraySort(SInt, l.S), zeroTerm(l.S)))
			}
			return p
		}
	}
	ls := leavesOf(t)
	zs := zeroLeaves(t)
	for i, l := range ls {
		st.storeLeaf(p, l, zs[i])
	}
	return p
}

// deref checks that a pointer value may be dereferenced
func (ex *Exec) deref(st *State, v Value, pos token.Pos) *Ptr {
	p, ok := v.(*Ptr)
	if !ok {
		if t, isT := v.(*Term); isT {
			_ = t
		}
		panic(unsupported("dereference of %T", v))
	}
	if p.Path == "" && p.Idx == nil {
		if p.Base.hasIptr {
			panic(unsupported("dereference of a pointer that may be interior"))
		}
		b, _ := linear(p.Base)
		if !isAllocBase(b) && !(p.Base.isInt() && p.Base.intVal() > 0) {
			ex.safe(st, Ne(p.Base, IntLit(0)), "nil pointer dereference", pos)
		}
	}
	return p
}

func (ex *Exec) indexAddr(st *State, v, iv Value, t types.Type, pos token.Pos) Value {
	i := ex.term(iv)
	switch a := v.(type) {
	case *SliceV:
		ex.safe(st, And(Le(IntLit(0), i), Lt(i, a.Len)), "index in range", pos)
		return &Ptr{Base: a.Arr, Idx: Add(a.Off, i), Root: a.Elem, Typ: a.Elem}
	case *Ptr:
		at := t.Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		ex.safe(st, And(Le(IntLit(0), i), Lt(i, IntLit(at.Len()))), "array index in range", pos)
		if a.Path == "" && a.Idx == nil {
			return &Ptr{Base: a.Base, Idx: i, Root: at.Elem(), Typ: at.Elem()}
		}
		if i.isInt() {
			return &Ptr{Base: a.Base, Idx: a.Idx, Root: a.Root, Path: a.Path + fmt.Sprintf("[%d]", i.intVal()), Typ: at.Elem()}
		}
	}
	panic(unsupported("element address of %T", v))
}

func (ex *Exec) slice(st *State, f *Frame, x *ssa.Slice) Value {
	v := ex.get(st, f, x.X)
	bound := func(b ssa.Value, def *Term) *Term {
		if b == nil {
			return def
		}
		return ex.term(ex.get(st, f, b))
	}
	switch a := v.(type) {
	case *Term: // string or []byte
		lo, hi := bound(x.Low, IntLit(0)), bound(x.High, strLen(a))
		if lo == IntLit(0) && x.High == nil {
			return a
		}
		_, isBasic := x.X.Type().Underlying().(*types.Basic)
		if isBasic || x.High == nil {
			ex.safe(st, And(Le(IntLit(0), lo), And(Le(lo, hi), Le(hi, strLen(a)))), "slice bounds in range", x.Pos())
		} else {
			ex.safe(st, And(Le(IntLit(0), lo), And(Le(lo, hi), Le(hi, strLen(a)))), "slice bounds in range (length taken as capacity)", x.Pos())
		}
		if a.Op == "str" && lo.isInt() && hi.isInt() && lo.intVal() <= hi.intVal() && int(hi.intVal()) <= len(a.Name) && lo.intVal() >= 0 {
			return StrLit(a.Name[lo.intVal():hi.intVal()])
		}
		return App("substr", SStr, a, lo, hi)
	case *SliceV:
		lo, hi := bound(x.Low, IntLit(0)), bound(x.High, a.Len)
		ex.safe(st, And(Le(IntLit(0), lo), And(Le(lo, hi), Le(hi, a.Len))), "slice bounds in range (length taken as capacity)", x.Pos())
		return &SliceV{a.Arr, Add(a.Off, lo), Sub(hi, lo), a.Elem}
	case *Ptr: // pointer to array
		at := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		lo, hi := bound(x.Low, IntLit(0)), bound(x.High, IntLit(at.Len()))
		if b, ok := at.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
			// byte array as content
			if at.Len() == 0 || (lo == IntLit(0) && hi == IntLit(0)) {
				return StrLit("")
			}
			s := StrLit("")
			allKnown := true
			for i := lo.intVal(); lo.isInt() && hi.isInt() && i < hi.intVal(); i++ {
				e := ex.load(st, &Ptr{Base: a.Base, Idx: IntLit(i), Root: at.Elem(), Typ: at.Elem()}, at.Elem()).(*Term)
				if !e.isInt() {
					allKnown = false
					break
				}
				s = Concat(s, StrLit(string([]byte{byte(e.intVal())})))
			}
			if allKnown && lo.isInt() && hi.isInt() {
				return s
			}
			panic(unsupported("slice of a byte array"))
		}
		if a.Path != "" || a.Idx != nil {
			panic(unsupported("slice of an array inside a struct"))
		}
		ex.safe(st, And(Le(IntLit(0), lo), And(Le(lo, hi), Le(hi, IntLit(at.Len())))), "slice bounds in range", x.Pos())
		return &SliceV{a.Base, lo, Sub(hi, lo), at.Elem()}
	}
	panic(unsupported("slice of %T", v))
}

func (ex *Exec) makeSlice(st *State, t types.Type, n, c *Term, pos token.Pos) Value {
	ex.safe(st, And(Le(IntLit(0), n), Le(n, c)), "makeslice: length in range", pos)
	if isByteSlice(t) {
		if n.isInt() {
			return StrLit(strings.Repeat("\x00", int(n.intVal())))
		}
		return App("zerobytes", SStr, n)
	}
	el := t.Underlying().(*types.Slice).Elem()
	r := ex.newRef(st)
	for _, l := range leavesOf(el) {
		k := heapKey(el, true, l.Path)
		a := st.arr(k, elemArrSort(l.S))
		st.heap[k] = Store(a, r, ConstArr(ArraySort(SInt, l.S), zeroTerm(l.S)))
	}
	return &SliceV{r, IntLit(0), n, el}
}

func (ex *Exec) changeType(v Value, t types.Type) Value {
	switch x := v.(type) {
	case *StructV:
		n := &StructV{Typ: t, Fields: x.Fields}
		return n
	case *Ptr:
		u, ok := t.Underlying().(*types.Pointer)
		if ok && (x.Path != "" || x.Idx != nil) {
			return x
		}
		if ok && typeKey(u.Elem()) != typeKey(x.Root) {
			// same memory under another type name: keep the original root
			return &Ptr{Base: x.Base, Root: x.Root, Typ: u.Elem()}
		}
		return x
	}
	return v
}

func (ex *Exec) convert(st *State, v Value, from, to types.Type) Value {
	fs, ok1 := scalarSort(from)
	ts, ok2 := scalarSort(to)
	if !ok1 || !ok2 {
		panic(unsupported("conversion %s to %s", from, to))
	}
	t := ex.term(v)
	switch {
	case fs == ts && fs == SInt:
		if intFits(from, to) || t.isInt() {
			return t
		}
		return App("wrap!"+typeKey(to.Underlying()), SInt, t)
	case fs == ts:
		if fs == SReal {
			fb, tb := from.Underlying().(*types.Basic), to.Underlying().(*types.Basic)
			if fb.Kind() == types.Float64 && tb.Kind() == types.Float32 {
				return App("round32", SReal, t)
			}
		}
		if fs == SStr {
			if s, ok := from.Underlying().(*types.Slice); ok {
				_ = s
			}
		}
		return t
	case fs == SInt && ts == SReal:
		if t.isInt() {
			return RealLit(new(big.Rat).SetInt64(t.intVal()))
		}
		return App("i2r", SReal, t)
	case fs == SReal && ts == SInt:
		return App("r2i", SInt, t)
	case fs == SInt && ts == SStr:
		return App("runestr", SStr, t)
	}
	panic(unsupported("conversion %s to %s", from, to))
}

func intFits(from, to types.Type) bool {
	size := func(t types.Type) (int, bool) {
		b, ok := t.Underlying().(*types.Basic)
		if !ok {
			return 64, true
		}
		switch b.Kind() {
		case types.Int8:
			return 8, true
		case types.Int16:
			return 16, true
		case types.Int32:
			return 32, true
		case types.Uint8:
			return 8, false
		case types.Uint16:
			return 16, false
		case types.Uint32:
			return 32, false
		case types.Uint, types.Uint64, types.Uintptr:
			return 64, false
		}
		return 64, true
	}
	fn, fs := size(from)
	tn, ts := size(to)
	if fs == ts {
		return fn <= tn
	}
	return !fs && ts && fn < tn
}

// ------------------------------------------------------------ operators

// ifaceDataEq compares the data of two interface values of the same type
func (ex *Exec) ifaceDataEq(ia, ib *IfaceV) *Term {
	if ib.Con == nil {
		ia, ib = ib, ia
	}
	if ib.Con != nil && ia.Con == nil && ib.Val != nil {
		switch ib.Con.Underlying().(type) {
		case *types.Basic:
			x, y := ex.flatten(ex.unbox(ex.ifaceData(ia), ib.Con), ib.Con), ex.flatten(ib.Val, ib.Con)
			if len(x) == 1 && len(y) == 1 {
				return Eq(x[0], y[0])
			}
		}
	}
	return Eq(ex.ifaceData(ia), ex.ifaceData(ib))
}

func (ex *Exec) valEq(st *State, a, b Value, t types.Type) *Term {
	ia, ok1 := a.(*IfaceV)
	ib, ok2 := b.(*IfaceV)
	if ok1 && ok2 {
		if ia.Tag.isInt() && ia.Tag.intVal() == 0 {
			return Eq(ib.Tag, IntLit(0))
		}
		if ib.Tag.isInt() && ib.Tag.intVal() == 0 {
			return Eq(ia.Tag, IntLit(0))
		}
		te := Eq(ia.Tag, ib.Tag)
		if te == False {
			return False
		}
		return And(te, ex.ifaceDataEq(ia, ib))
	}
	if sl, ok := a.(*SliceV); ok {
		// only comparison with nil
		return Eq(sl.Arr, IntLit(0))
	}
	la, lb := ex.flatten(a, t), ex.flatten(b, t)
	var cs []*Term
	for i := range la {
		cs = append(cs, Eq(la[i], lb[i]))
	}
	return And(cs...)
}

func (ex *Exec) binop(st *State, op token.Token, a, b Value, t, rt types.Type, pos token.Pos) Value {
	switch op {
	case token.EQL, token.NEQ:
		var e *Term
		if isByteSlice(t) {
			// comparison with nil
			x, y := ex.term(a), ex.term(b)
			if x.Op == "str" {
				x = y
			}
			e = App("isnilbytes", SBool, x)
		} else {
			e = ex.valEq(st, a, b, t)
		}
		if op == token.NEQ {
			e = Not(e)
		}
		return e
	}
	x, y := ex.term(a), ex.term(b)
	switch op {
	case token.ADD:
		if x.S == SStr {
			return Concat(x, y)
		}
		return Add(x, y)
	case token.SUB:
		return Sub(x, y)
	case token.LSS, token.GTR, token.LEQ, token.GEQ:
		if op == token.GTR || op == token.LEQ {
			x, y = y, x
		}
		var r *Term
		if x.S == SStr {
			r = App("strlt", SBool, x, y)
		} else {
			r = Lt(x, y)
		}
		if op == token.LEQ || op == token.GEQ {
			return Not(r)
		}
		return r
	case token.QUO, token.REM:
		if x.S == SInt {
			ex.safe(st, Ne(y, IntLit(0)), "division by zero", pos)
		}
	case token.MUL:
		if x.isInt() && y.isInt() {
			r := new(big.Int).Mul(bigOf(x), bigOf(y))
			return BigLit(r.String())
		}
	case token.AND, token.OR:
		if x.S == SBool {
			if op == token.AND {
				return And(x, y)
			}
			return Or(x, y)
		}
	}
	return App("op"+op.String()+"!"+string(x.S), x.S, x, y)
}

func bigOf(t *Term) *big.Int {
	r, _ := new(big.Int).SetString(t.Name, 10)
	return r
}

// ------------------------------------------------------------ maps

func mapKeys(mt *types.Map) (string, Sort) {
	ks := leavesOf(mt.Key())
	if len(ks) == 1 {
		return "map:" + typeKey(mt), ks[0].S
	}
	// composite keys (interfaces) are boxed
	return "map:" + typeKey(mt), SBox
}

func (ex *Exec) mapKey(v Value, mt *types.Map) *Term {
	ks := leavesOf(mt.Key())
	if len(ks) == 1 {
		return ex.flatten(v, mt.Key())[0]
	}
	return ex.box(v, mt.Key())
}

func (st *State) mapDom(m *Term, mt *types.Map) (*Term, string) {
	k, ks := mapKeys(mt)
	key := k + "#dom"
	if m == IntLit(0) {
		return ConstArr(ArraySort(ks, SBool), False), key
	}
	return Select(st.arr(key, ArraySort(SInt, ArraySort(ks, SBool))), m), key
}

func (st *State) mapVal(m *Term, mt *types.Map, l Leaf) (*Term, string) {
	k, ks := mapKeys(mt)
	key := k + "#val" + l.Path
	return Select(st.arr(key, ArraySort(SInt, ArraySort(ks, l.S))), m), key
}

func (ex *Exec) newMap(st *State, mt *types.Map) *Term {
	r := ex.newRef(st)
	_, ks := mapKeys(mt)
	_, dk := st.mapDom(r, mt)
	st.heap[dk] = Store(st.heap[dk], r, ConstArr(ArraySort(ks, SBool), False))
	for _, l := range leavesOf(mt.Elem()) {
		_, vk := st.mapVal(r, mt, l)
		st.heap[vk] = Store(st.heap[vk], r, ConstArr(ArraySort(ks, l.S), zeroTerm(l.S)))
	}
	return r
}

func (ex *Exec) mapStore(st *State, m *Term, mt *types.Map, k, v Value) {
	kt := ex.mapKey(k, mt)
	d, dk := st.mapDom(m, mt)
	st.heap[dk] = Store(st.heap[dk], m, Store(d, kt, True))
	vs := ex.flatten(v, mt.Elem())
	for i, l := range leavesOf(mt.Elem()) {
		a, vk := st.mapVal(m, mt, l)
		st.heap[vk] = Store(st.heap[vk], m, Store(a, kt, vs[i]))
	}
}

func (ex *Exec) mapDelete(st *State, m *Term, mt *types.Map, k Value) {
	kt := ex.mapKey(k, mt)
	d, dk := st.mapDom(m, mt)
	// deleting from a nil map does nothing; nil maps have an empty domain
	st.heap[dk] = Store(st.heap[dk], m, Store(d, kt, False))
}

// mapGet: value (zero when absent) and presence
func (ex *Exec) mapGet(st *State, m *Term, mt *types.Map, kt *Term) (Value, *Term) {
	d, _ := st.mapDom(m, mt)
	in := Select(d, kt)
	if m == IntLit(0) {
		in = False
	} else if b, _ := linear(m); !isAllocBase(b) {
		in = And(Ne(m, IntLit(0)), in)
	}
	var out []*Term
	for _, l := range leavesOf(mt.Elem()) {
		a, _ := st.mapVal(m, mt, l)
		out = append(out, Ite(in, Select(a, kt), zeroTerm(l.S)))
	}
	v := ex.unflatten(out, mt.Elem())
	return v, in
}

// keys of a map whose content is known exactly
func concreteDom(d *Term) ([]*Term, bool) {
	var ks []*Term
	seen := map[*Term]bool{}
	for d.Op == "store" {
		if !d.Args[1].isLit() {
			return nil, false
		}
		if !seen[d.Args[1]] {
			seen[d.Args[1]] = true
			if d.Args[2] == True {
				ks = append(ks, d.Args[1])
			} else if d.Args[2] != False {
				return nil, false
			}
		}
		d = d.Args[0]
	}
	if d.Op == "constarr" && d.Args[0] == False {
		// in insertion order
		for i, j := 0, len(ks)-1; i < j; i, j = i+1, j-1 {
			ks[i], ks[j] = ks[j], ks[i]
		}
		return ks, true
	}
	return nil, false
}

func (ex *Exec) lookup(st *State, f *Frame, x *ssa.Lookup) ([]*State, bool) {
	mt, ok := x.X.Type().Underlying().(*types.Map)
	if !ok { // string index
		a := ex.term(ex.get(st, f, x.X))
		i := ex.term(ex.get(st, f, x.Index))
		ex.safe(st, And(Le(IntLit(0), i), Lt(i, strLen(a))), "string index in range", x.Pos())
		if a.Op == "str" && i.isInt() && i.intVal() >= 0 && int(i.intVal()) < len(a.Name) {
			f.env[x] = IntLit(int64(a.Name[i.intVal()]))
		} else {
			f.env[x] = App("strat", SInt, a, i)
		}
		f.next()
		return nil, false
	}
	m := ex.term(ex.get(st, f, x.X))
	ex.guardMap(st, m, false, x.Pos())
	kt := ex.mapKey(ex.get(st, f, x.Index), mt)
	put := func(s *State, fr *Frame, v Value, in *Term) {
		ex.wellTyped(s, v, mt.Elem())
		if x.CommaOk {
			fr.env[x] = TupleV{v, in}
		} else {
			fr.env[x] = v
		}
		fr.next()
	}
	d, _ := st.mapDom(m, mt)
	if ks, ok := concreteDom(d); ok && !kt.isLit() && len(ks) > 0 && len(ks) <= 64 && tableLike(mt.Elem()) {
		// a lookup in a literal table: one case per key
		var forks []*State
		rest := st.clone()
		for _, k := range ks {
			c := Eq(kt, k)
			if ex.feasible(rest, c) {
				s := rest.clone()
				s.assume(c)
				v, in := ex.mapGet(s, m, mt, k)
				put(s, s.top(), v, in)
				forks = append(forks, s)
			}
			rest.assume(Not(c))
		}
		if ex.feasible(rest, True) && !rest.dead {
			put(rest, rest.top(), zeroValue(ex, mt.Elem()), False)
			forks = append(forks, rest)
		}
		st.dead = true
		return forks, true
	}
	v, in := ex.mapGet(st, m, mt, kt)
	put(st, f, v, in)
	return nil, false
}

// element types whose values the executor must know structurally
func tableLike(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Signature, *types.Interface, *types.Pointer, *types.Struct:
		return true
	}
	return false
}

func (ex *Exec) nextIter(st *State, f *Frame, x *ssa.Next) ([]*State, bool) {
	if x.IsString {
		panic(unsupported("range over string"))
	}
	it, ok := ex.get(st, f, x.Iter).(*IterV)
	if !ok {
		panic(unsupported("iterator"))
	}
	ex.guardMap(st, it.Map, false, x.Pos())
	d, _ := st.mapDom(it.Map, it.MapT)
	ks := leavesOf(it.MapT.Key())
	// concrete tables are enumerated (any order stands for all: bodies are
	// executed per entry; order dependence is not explored)
	mNil := Eq(it.Map, IntLit(0))
	// done: every key has been visited
	o := st.clone()
	of := o.top()
	o.assume(Or(mNil, Eq(it.Visited, d)))
	of.env[x] = TupleV{False, zeroValue(ex, it.MapT.Key()), zeroValue(ex, it.MapT.Elem())}
	of.next()
	var forks []*State
	if ex.feasible(o, True) && !o.dead {
		forks = append(forks, o)
	}
	// one more key
	k := Fresh("key", ks[0].S)
	st.assume(Ne(it.Map, IntLit(0)))
	st.assume(Select(d, k))
	st.assume(Not(Select(it.Visited, k)))
	if st.dead || !ex.feasible(st, True) {
		st.dead = true
		return forks, true
	}
	var out []*Term
	for _, l := range leavesOf(it.MapT.Elem()) {
		a, _ := st.mapVal(it.Map, it.MapT, l)
		out = append(out, Select(a, k))
	}
	ev := ex.unflatten(out, it.MapT.Elem())
	ex.wellTyped(st, ev, it.MapT.Elem())
	nit := &IterV{Map: it.Map, MapT: it.MapT, Visited: Store(it.Visited, k, True)}
	f.env[x.Iter] = nit
	f.env[x] = TupleV{True, ex.unflatten([]*Term{k}, it.MapT.Key()), ev}
	f.next()
	return forks, false
}

// ------------------------------------------------------------ type assertions

// implements: does the type with this tag implement interface t
func (ex *Exec) implements(tag *Term, t types.Type) *Term {
	it := t.Underlying().(*types.Interface)
	if it.NumMethods() == 0 {
		return Ne(tag, IntLit(0))
	}
	if tag.isInt() {
		if tag.intVal() == 0 {
			return False
		}
		if ct, ok := typeByID[tag.intVal()]; ok {
			return BoolLit(types.Implements(ct, it))
		}
		// a library type nothing is known of but that it is an error
		return BoolLit(it.NumMethods() == 1 && it.Method(0).Name() == "Error")
	}
	k := typeKey(t)
	ex.implTypes[k] = t
	return App("impl!"+k, SBool, tag)
}

func (ex *Exec) implAxioms(t *Term) []*Term {
	if t.Op != "app" || !strings.HasPrefix(t.Name, "impl!") {
		return nil
	}
	it := ex.implTypes[strings.TrimPrefix(t.Name, "impl!")]
	if it == nil {
		return nil
	}
	ui := it.Underlying().(*types.Interface)
	if a := t.Args[0]; a.isInt() {
		ct, ok := typeByID[a.intVal()]
		if ok && types.Implements(ct, ui) {
			return []*Term{t}
		} else if ok || a.intVal() == 0 {
			return []*Term{Not(t)}
		}
		return nil
	}
	key := fmt.Sprint(t.Name, " ", typeIDCnt)
	if out, ok := ex.implCache[key]; ok {
		return out
	}
	var out []*Term
	out = append(out, Not(mk("app", t.Name, SBool, IntLit(0))))
	for id := int64(1); id <= typeIDCnt; id++ {
		ct, ok := typeByID[id]
		if !ok {
			continue
		}
		f := mk("app", t.Name, SBool, IntLit(id))
		if !types.Implements(ct, ui) {
			f = Not(f)
		}
		out = append(out, f)
	}
	ex.implCache[key] = out
	return out
}

func (ex *Exec) typeAssert(st *State, f *Frame, x *ssa.TypeAssert) ([]*State, bool) {
	iv, ok := ex.get(st, f, x.X).(*IfaceV)
	if !ok {
		panic(unsupported("type assertion on %T", ex.get(st, f, x.X)))
	}
	var cond *Term
	isIface := types.IsInterface(x.AssertedType)
	if isIface {
		cond = ex.implements(iv.Tag, x.AssertedType)
	} else {
		cond = Eq(iv.Tag, tagLit(x.AssertedType))
	}
	value := func() Value {
		if isIface {
			return iv
		}
		if iv.Con != nil && types.Identical(iv.Con, x.AssertedType) {
			return ex.ifaceVal(iv)
		}
		return ex.unboxAt(st, ex.ifaceData(iv), x.AssertedType)
	}
	if !x.CommaOk {
		ex.safe(st, cond, "type assertion to "+typeKey(x.AssertedType), x.Pos())
		v := value()
		ex.wellTyped(st, v, x.AssertedType)
		f.env[x] = v
		f.next()
		return nil, false
	}
	yes := func(s *State) {
		v := value()
		if !isIface {
			ex.wellTyped(s, v, x.AssertedType)
		}
		s.top().env[x] = TupleV{v, True}
		s.top().next()
	}
	no := func(s *State) {
		s.top().env[x] = TupleV{zeroValue(ex, x.AssertedType), False}
		s.top().next()
	}
	return ex.fork2(st, cond, yes, no)
}

// fork2 continues with yes under c and with no under its negation
func (ex *Exec) fork2(st *State, c *Term, yes, no func(*State)) ([]*State, bool) {
	if v, ok := st.known(c); ok {
		if v {
			yes(st)
		} else {
			no(st)
		}
		return nil, st.dead
	}
	ft, ff := ex.feasible(st, c), ex.feasible(st, Not(c))
	if ft && ff {
		o := st.clone()
		o.assume(Not(c))
		no(o)
		st.assume(c)
		yes(st)
		return []*State{o}, st.dead
	}
	if ft {
		st.assume(c)
		yes(st)
		return nil, st.dead
	}
	if ff {
		st.assume(Not(c))
		no(st)
		return nil, st.dead
	}
	st.dead = true
	return nil, true
}

// unboxAt unboxes and records what is known about decoded JSON content
func (ex *Exec) unboxAt(st *State, d *Term, t types.Type) Value {
	v := ex.unbox(d, t)
	ex.jsonUnboxFacts(st, d, v, t)
	return v
}

// ------------------------------------------------------------ returns

func (ex *Exec) ret(st *State, res []Value, sk *sink) ([]*State, bool) {
	f := st.top()
	if len(st.frames) == 1 {
		if w := st.watch; w != nil && w.only {
			w.exits = append(w.exits, st)
			return nil, true
		}
		if sk != nil && sk.ret != nil {
			sk.ret(st, res)
		}
		return nil, true
	}
	if w := st.watch; w != nil && len(st.frames)-1 == w.frame {
		if w.only {
			w.exits = append(w.exits, st)
			return nil, true
		}
		st.watch = w.outer
	}
	st.frames = st.frames[:len(st.frames)-1]
	c := st.top()
	if f.key != "" && ex.hasHooks("after", f.key) {
		ex.runHooks(st, "after", f.key, f.args, res, append(sigTypes(f.fn.Signature), resTypes(f.fn.Signature)...), f.fn.Pos())
		if st.dead {
			return nil, true
		}
	}
	if f.retTo != nil {
		switch len(res) {
		case 0:
			c.env[f.retTo] = TupleV{}
		case 1:
			c.env[f.retTo] = res[0]
		default:
			c.env[f.retTo] = TupleV(res)
		}
	}
	if f.inDefers {
		return nil, false // caller is still on its RunDefers
	}
	c.next()
	return nil, false
}

func (ex *Exec) pushFrame(st *State, fn *ssa.Function, args []Value, bind []Value, retTo ssa.Value) *Frame {
	if len(fn.Blocks) == 0 {
		panic(unsupported("function %s has no body", fn))
	}
	depth := 0
	for _, g := range st.frames {
		if g.fn == fn {
			depth++
		}
	}
	if depth > 2 || len(st.frames) > 40 {
		panic(unsupported("recursion through %s", fn))
	}
	f := &Frame{fn: fn, env: map[ssa.Value]Value{}, blk: fn.Blocks[0], retTo: retTo}
	for i, p := range fn.Params {
		f.env[p] = args[i]
	}
	for i, fv := range fn.FreeVars {
		f.env[fv] = bind[i]
	}
	st.frames = append(st.frames, f)
	return f
}
