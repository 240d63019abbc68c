package main

// Loops: constant ones are unrolled, all others are cut at their header with
// an invariant that is inferred (candidates that survive) or given.

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type loopInfo struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
}

var loopCache = map[*ssa.Function]map[*ssa.BasicBlock]*loopInfo{}

func loopsOf(fn *ssa.Function) map[*ssa.BasicBlock]*loopInfo {
	if l, ok := loopCache[fn]; ok {
		return l
	}
	out := map[*ssa.BasicBlock]*loopInfo{}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) { // back edge b -> s
				l := out[s]
				if l == nil {
					l = &loopInfo{s, map[*ssa.BasicBlock]bool{s: true}}
					out[s] = l
				}
				work := []*ssa.BasicBlock{b}
				for len(work) > 0 {
					x := work[len(work)-1]
					work = work[:len(work)-1]
					if l.blocks[x] {
						continue
					}
					l.blocks[x] = true
					work = append(work, x.Preds...)
				}
			}
		}
	}
	loopCache[fn] = out
	return out
}

func (ex *Exec) gotoBlock(st *State, f *Frame, to *ssa.BasicBlock) ([]*State, bool) {
	for st.watch != nil && len(st.frames)-1 == st.watch.frame {
		w := st.watch
		if to == w.header {
			ex.enter(st, f, to)
			w.back = append(w.back, st)
			if w.onBack != nil {
				w.onBack(st)
			}
			return nil, true
		}
		if w.blocks[to] {
			break
		}
		if w.only {
			w.exits = append(w.exits, st)
			return nil, true
		}
		st.watch = w.outer
	}
	l := loopsOf(f.fn)[to]
	if l != nil {
		if st.watch == nil || st.watch.header != to || len(st.frames)-1 != st.watch.frame {
			return ex.enterLoop(st, f, to, l)
		}
	}
	ex.enter(st, f, to)
	return nil, false
}

// constantHeader: does the loop's header decide its branch from constants
func (ex *Exec) constantHeader(st *State, to *ssa.BasicBlock) (ok bool) {
	c := st.clone()
	f := c.top()
	ex.enter(c, f, to)
	c.watch = nil
	ex.suppress++
	defer func() {
		ex.suppress--
		if r := recover(); r != nil {
			if _, is := r.(Unsupported); !is {
				panic(r)
			}
			ok = false
		}
	}()
	for n := 0; n < 200; n++ {
		f := c.top()
		if f.blk != to || f.idx >= len(f.blk.Instrs) {
			return false
		}
		in := f.blk.Instrs[f.idx]
		switch x := in.(type) {
		case *ssa.If:
			// only loops that count, or range over something known, end by themselves
			switch v := x.Cond.(type) {
			case *ssa.BinOp:
				b, ok := v.X.Type().Underlying().(*types.Basic)
				if !ok || b.Info()&types.IsInteger == 0 {
					return false
				}
			case *ssa.Extract:
				if _, ok := v.Tuple.(*ssa.Next); !ok {
					return false
				}
			default:
				return false
			}
			_, known := c.known(ex.term(ex.get(c, f, x.Cond)))
			return known
		case *ssa.Jump, *ssa.Return, *ssa.Select, *ssa.Panic, *ssa.Go, *ssa.Defer, *ssa.RunDefers, *ssa.Send:
			return false
		case *ssa.Call:
			if _, isb := x.Call.Value.(*ssa.Builtin); !isb {
				return false
			}
		}
		forks, done := ex.step(c, f, in, nil)
		if len(forks) > 0 || done {
			return false
		}
	}
	return false
}

// ------------------------------------------------------------ locations

type loc struct {
	kind string // phi, heap, ghost, iter
	phi  ssa.Value
	key  string
	idx  *Term // heap: element of the array (nil: the whole array)
	n    int   // leaf of a phi
	s    Sort
}

func (l loc) String() string {
	if l.kind == "phi" || l.kind == "iter" {
		return fmt.Sprintf("%s %s.%d", l.kind, l.phi.Name(), l.n)
	}
	return fmt.Sprintf("%s %s[%v]", l.kind, l.key, l.idx)
}

func (ex *Exec) readLoc(st *State, l loc) *Term {
	switch l.kind {
	case "phi":
		v := st.top().env[l.phi]
		ts := ex.flatten(v, l.phi.Type())
		return ts[l.n]
	case "iter":
		return st.top().env[l.phi].(*IterV).Visited
	case "ghost":
		if st.ghost[l.key] == nil {
			if strings.HasPrefix(l.key, "held!") {
				st.ghost[l.key] = ConstArr(l.s, IntLit(0))
			} else {
				st.ghost[l.key] = Const("g0!"+l.key, l.s)
			}
		}
		return st.ghost[l.key]
	}
	a := st.heap[l.key]
	if a == nil {
		a = st.arr(l.key, l.s)
	}
	if l.idx != nil {
		return Select(a, l.idx)
	}
	return a
}

type candidate struct {
	desc string
	f    func(st *State) *Term
}

type loopRun struct {
	newEpoch bool // the body may change everything
	ex       *Exec
	l        *loopInfo
	entry    *State // at the header, phis assigned from outside
	locs     []loc
	have     map[string]bool
	rank     int
	consts   map[*Term]bool // header constants
	head     map[string]*Term
}

func (lr *loopRun) addLoc(l loc) bool {
	k := l.String()
	if lr.have[k] {
		return false
	}
	lr.have[k] = true
	lr.locs = append(lr.locs, l)
	return true
}

// havoc builds the header state: everything the loop changes is arbitrary
func (lr *loopRun) havoc() *State {
	ex := lr.ex
	st := lr.entry.clone()
	st.watch = nil
	lr.head = map[string]*Term{}
	nb := newAllocBase()
	st.assume(Le(st.alloc, nb))
	st.alloc = nb
	if lr.newEpoch {
		epochs++
		st.epoch = epochs
	}
	st.ownChans()
	st.mychans = nil
	f := st.top()
	phis := map[ssa.Value][]*Term{}
	for _, l := range lr.locs {
		cur := ex.readLoc(lr.entry, l)
		c := Fresh("loop", cur.S)
		refRank[c] = allocRank[nb]
		lr.head[l.String()] = c
		switch l.kind {
		case "phi":
			if phis[l.phi] == nil {
				phis[l.phi] = append([]*Term{}, ex.flatten(f.env[l.phi], l.phi.Type())...)
			}
			phis[l.phi][l.n] = c
		case "iter":
			it := *(f.env[l.phi].(*IterV))
			it.Visited = c
			f.env[l.phi] = &it
		case "ghost":
			st.ghost[l.key] = c
		case "heap":
			if l.idx != nil {
				st.heap[l.key] = Store(st.heap[l.key], l.idx, c)
			} else {
				heapKeyOf[c] = l.key
				st.heap[l.key] = c
			}
		}
	}
	for v, ts := range phis {
		nv := ex.unflatten(ts, v.Type())
		f.env[v] = nv
		ex.wellTyped(st, nv, v.Type())
	}
	for _, l := range lr.locs {
		if l.kind == "iter" {
			// visited keys are keys of the map
			it := f.env[l.phi].(*IterV)
			d, _ := st.mapDom(it.Map, it.MapT)
			ks := leavesOf(it.MapT.Key())
			k := BoundVar("k", ks[0].S)
			st.assume(ForallP(Imp(Select(it.Visited, k), Select(d, k)), Select(it.Visited, k), k))
		}
	}
	return st
}

func newAllocBase() *Term {
	freshCnt++
	t := Const(fmt.Sprintf("alloc!%d", freshCnt), SInt)
	allocCnt++
	allocRank[t] = allocCnt
	return t
}

var allocCnt int

// analyse runs the body once from a header state; obligations are not recorded
func (ex *Exec) analyse(st *State, l *loopInfo, outer *watch) *watch {
	w := &watch{frame: len(st.frames) - 1, header: l.header, blocks: l.blocks, only: true, outer: outer}
	st.watch = w
	ex.suppress++
	defer func() { ex.suppress-- }()
	f := st.top()
	f.idx = firstNonPhi(l.header)
	f.blk = l.header
	ex.run(st, &sink{})
	return w
}

func (ex *Exec) enterLoop(st *State, f *Frame, to *ssa.BasicBlock, l *loopInfo) ([]*State, bool) {
	if f.loops == nil {
		f.loops = map[*ssa.BasicBlock]int{}
	}
	if f.loops[to] < 300 && ex.constantHeader(st, to) {
		f.loops[to]++
		ex.enter(st, f, to)
		return nil, false
	}
	delete(f.loops, to)
	outer := st.watch
	// evaluate phis from outside
	ex.enter(st, f, to)
	lr := &loopRun{ex: ex, l: l, entry: st.clone(), have: map[string]bool{}}
	lr.entry.watch = nil
	where := ex.pos(firstPos(to))

	// 1. what the loop changes
	var backs []*State
	var head *State
	for round := 0; ; round++ {
		if round > 12 {
			panic(unsupported("loop modifications do not stabilise"))
		}
		head = lr.havoc()
		start := head.clone()
		t0 := time.Now()
		p0 := ex.prunes
		w := ex.analyse(start, l, nil)
		backs = w.back
		if ex.debug {
			fmt.Printf("loop %s round %d: %d locs, %d backs, %d exits, %d prunes, %v\n", where, round, len(lr.locs), len(backs), len(w.exits), ex.prunes-p0, time.Since(t0))
		}
		grew := false
		for _, b := range backs {
			if lr.diff(head, b) {
				grew = true
			}
		}
		if !grew {
			break
		}
	}
	// 2. candidates
	cands := lr.candidates(head, backs)
	for _, c := range ex.loopHints(head) {
		cands = append(cands, candidate{desc: c.desc, f: c.f})
	}
	// what holds depending on how the variable a loop ends by stands
	for _, l := range lr.locs {
		if l.kind != "phi" || l.n != 0 {
			continue
		}
		l := l
		set := func(s *State) *Term { return ex.readLoc(s, l) }
		switch t := l.phi.Type().Underlying().(type) {
		case *types.Interface, *types.Pointer:
			if l.s != SInt {
				continue
			}
			set = func(s *State) *Term { return Ne(ex.readLoc(s, l), IntLit(0)) }
		case *types.Basic:
			if t.Info()&types.IsBoolean == 0 {
				continue
			}
		default:
			continue
		}
		for _, c := range ex.loopHints(head) {
			c := c
			cands = append(cands, candidate{fmt.Sprintf("imp(%s, %s)", l, c.desc), func(s *State) *Term { return Imp(set(s), c.f(s)) }},
				candidate{fmt.Sprintf("imp(!%s, %s)", l, c.desc), func(s *State) *Term { return Imp(Not(set(s)), c.f(s)) }})
		}
	}
	var live []candidate
	for _, c := range cands {
		if ex.valid(lr.entry, c.f(lr.entry)) {
			live = append(live, c)
		}
	}
	if ex.debug {
		fmt.Printf("loop %s: %d locs, %d back paths, %d candidates, %d hold on entry\n", where, len(lr.locs), len(backs), len(cands), len(live))
	}
	for round := 0; round < 30; round++ {
		h := head.clone()
		for _, c := range live {
			h.assume(c.f(h))
		}
		w := ex.analyse(h, l, nil)
		var next []candidate
		sure := make([]bool, len(w.back)) // all of them hold there
		if len(live) > 1 {
			for i, b := range w.back {
				var cs []*Term
				for _, c := range live {
					cs = append(cs, c.f(b))
				}
				sure[i] = ex.valid(b, And(cs...))
			}
		}
		for _, c := range live {
			ok := true
			for i, b := range w.back {
				if !sure[i] && !ex.valid(b, c.f(b)) {
					ok = false
					break
				}
			}
			if ok {
				next = append(next, c)
			}
		}
		same := len(next) == len(live)
		live = next
		if same {
			break
		}
	}
	if ex.debug {
		for _, c := range live {
			fmt.Println("   invariant", c.desc)
		}
	}
	// 3. the proof proper
	given := ex.loopInvariants(st)
	for _, c := range given {
		ex.check(st, c.f(st), "invariant", "holds on entry: "+c.desc, c.props, firstPos(to))
	}
	for _, c := range live {
		ex.check(st, c.f(st), "invariant", "holds on entry: "+c.desc, ex.curAllProps(), firstPos(to))
	}
	h := head.clone()
	events := h.events
	for _, c := range given {
		h.assume(c.f(h))
	}
	for _, c := range live {
		h.assume(c.f(h))
	}
	w := &watch{frame: len(h.frames) - 1, header: to, blocks: l.blocks, outer: outer}
	w.onBack = func(b *State) {
		for _, c := range given {
			ex.check(b, c.f(b), "invariant", "is maintained: "+c.desc, c.props, firstPos(to))
		}
		for _, c := range live {
			ex.check(b, c.f(b), "invariant", "is maintained: "+c.desc, ex.curAllProps(), firstPos(to))
		}
		if ex.atBackEdge != nil && b.events > events {
			ex.atBackEdge(b)
		}
	}
	h.watch = w
	hf := h.top()
	hf.blk = to
	hf.idx = firstNonPhi(to)
	return []*State{h}, true
}

func firstPos(b *ssa.BasicBlock) token.Pos {
	for _, i := range b.Instrs {
		if p := i.Pos(); p.IsValid() {
			return p
		}
	}
	for _, s := range b.Succs {
		for _, i := range s.Instrs {
			if p := i.Pos(); p.IsValid() {
				return p
			}
		}
	}
	return 0
}

// valid asks the solver whether a fact follows
func (ex *Exec) valid(st *State, t *Term) bool {
	if st.dead {
		return true
	}
	if v, ok := st.known(t); ok && v {
		return true
	}
	if t == False {
		return false
	}
	to := 4 * time.Second
	if hasQuant(st.pc, t) {
		// first by instances: a "no" with quantifiers is expensive
		pc, g, _ := groundFacts(st.pc, t)
		r, _, _ := ex.pool.Ask(buildQuery(pc, g), 2*time.Second, false)
		if r == Unsat {
			return true
		}
		to = 300 * time.Millisecond
	}
	r, _, _ := ex.pool.Ask(buildQuery(st.pc, t), to, false)
	return r == Unsat
}

// diff records locations that differ between a header and a back-edge state
func (lr *loopRun) diff(h, b *State) bool {
	ex := lr.ex
	grew := false
	hf, bf := h.top(), b.top()
	for _, in := range lr.l.header.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		x, y := ex.flatten(hf.env[ph], ph.Type()), ex.flatten(bf.env[ph], ph.Type())
		for i := range x {
			if x[i] != y[i] && lr.addLoc(loc{kind: "phi", phi: ph, n: i, s: x[i].S}) {
				grew = true
			}
		}
	}
	for v, hv := range hf.env {
		if hi, ok := hv.(*IterV); ok {
			if bi, ok := bf.env[v].(*IterV); ok && bi.Visited != hi.Visited {
				if lr.addLoc(loc{kind: "iter", phi: v, s: hi.Visited.S}) {
					grew = true
				}
			}
		}
	}
	for k, y := range b.ghost {
		if x := h.ghost[k]; x != y {
			if x == nil {
				x = Const("g0!"+k, y.S)
				if strings.HasPrefix(k, "held!") {
					x = ConstArr(y.S, IntLit(0))
				}
				h.ghost[k] = x
				lr.entry.ghost[k] = x
				if x == y {
					continue
				}
			}
			if lr.addLoc(loc{kind: "ghost", key: k, s: x.S}) {
				grew = true
			}
		}
	}
	if b.epoch != h.epoch && !lr.newEpoch {
		lr.newEpoch = true
		grew = true
	}
	for k, y := range b.heap {
		x := h.heap[k]
		if x == nil {
			// first touched inside the loop: same initial array
			x = h.arr(k, y.S)
			lr.entry.arr(k, y.S)
		}
		if x == y {
			continue
		}
		for _, l := range lr.heapDiff(k, x, y, h) {
			if lr.addLoc(l) {
				grew = true
			}
		}
	}
	return grew
}

func (lr *loopRun) heapDiff(k string, x, y *Term, h *State) []loc {
	var out []loc
	t := y
	for t != x {
		if t.Op != "store" {
			return []loc{{kind: "heap", key: k, s: y.S}}
		}
		i := t.Args[1]
		if b, _ := linear(i); isAllocBase(b) && allocRank[b] >= allocRank[h.alloc] {
			// made inside the loop: content of new objects is arbitrary anyway
		} else if lr.invariantTerm(i) {
			out = append(out, loc{kind: "heap", key: k, idx: i, s: y.S})
		} else {
			return []loc{{kind: "heap", key: k, s: y.S}}
		}
		t = t.Args[0]
	}
	return out
}

// invariantTerm: the term was already defined when the loop was entered
func (lr *loopRun) invariantTerm(t *Term) bool {
	cs := map[*Term]bool{}
	constsOf(t, cs, map[*Term]bool{})
	known := map[*Term]bool{}
	seen := map[*Term]bool{}
	for _, a := range lr.entry.heap {
		constsOf(a, known, seen)
	}
	for _, p := range lr.entry.pc {
		constsOf(p, known, seen)
	}
	for _, a := range lr.entry.ghost {
		constsOf(a, known, seen)
	}
	for _, fr := range lr.entry.frames {
		for _, v := range fr.env {
			for _, x := range valueTerms(v) {
				constsOf(x, known, seen)
			}
		}
	}
	constsOf(lr.entry.alloc, known, seen)
	for c := range cs {
		if !known[c] && !strings.HasPrefix(c.Name, "h0!") && !strings.HasPrefix(c.Name, "fn!") {
			return false
		}
	}
	return true
}

func valueTerms(v Value) []*Term {
	switch x := v.(type) {
	case *Term:
		return []*Term{x}
	case *Ptr:
		if x == nil {
			return nil
		}
		if x.Idx != nil {
			return []*Term{x.Base, x.Idx}
		}
		return []*Term{x.Base}
	case *StructV:
		var out []*Term
		for _, f := range x.Fields {
			out = append(out, valueTerms(f)...)
		}
		return out
	case *ArrayV:
		var out []*Term
		for _, f := range x.Elems {
			out = append(out, valueTerms(f)...)
		}
		return out
	case TupleV:
		var out []*Term
		for _, f := range x {
			out = append(out, valueTerms(f)...)
		}
		return out
	case *IfaceV:
		out := []*Term{x.Tag}
		if x.Data != nil {
			out = append(out, x.Data)
		}
		if x.Val != nil {
			out = append(out, valueTerms(x.Val)...)
		}
		return out
	case *SliceV:
		return []*Term{x.Arr, x.Off, x.Len}
	case *IterV:
		return []*Term{x.Map, x.Visited}
	case *FuncV:
		var out []*Term
		for _, b := range x.Bind {
			out = append(out, valueTerms(b)...)
		}
		return out
	}
	return nil
}

// ------------------------------------------------------------ candidates

func (lr *loopRun) candidates(head *State, backs []*State) []candidate {
	ex := lr.ex
	var out []candidate
	seen := map[string]bool{}
	add := func(desc string, f func(st *State) *Term) {
		if !seen[desc] {
			seen[desc] = true
			out = append(out, candidate{desc, f})
		}
	}
	// nothing changes
	for _, l := range lr.locs {
		l := l
		if l.kind == "iter" {
			continue
		}
		e := ex.readLoc(lr.entry, l)
		add(fmt.Sprintf("%s unchanged", l), func(st *State) *Term { return Eq(ex.readLoc(st, l), e) })
		if e.S == SInt {
			add(fmt.Sprintf("%s not below", l), func(st *State) *Term { return Le(e, ex.readLoc(st, l)) })
		}
		if e.S == SInt && l.kind == "phi" {
			// index loops: bounded by loop-invariant lengths seen in the header's test
			for _, b := range lr.bounds(l, head) {
				b := b
				add(fmt.Sprintf("%s below %s", l, b), func(st *State) *Term { return Le(ex.readLoc(st, l), b) })
			}
		}
	}
	// a flag (or error) that the loop runs on says where the protocol is
	for _, fl := range lr.locs {
		if fl.kind != "phi" || fl.s != SBool && !(fl.n == 0 && isIfaceType(fl.phi.Type())) {
			continue
		}
		fl := fl
		fe := ex.readLoc(lr.entry, fl)
		if !fe.isLit() {
			continue
		}
		for _, g := range lr.locs {
			if g.kind != "ghost" || g.s != SInt {
				continue
			}
			g := g
			for v := int64(0); v < 2; v++ {
				v := v
				add(fmt.Sprintf("%s is %d once %s changed", g, v, fl), func(st *State) *Term {
					return Imp(Not(Eq(ex.readLoc(st, fl), fe)), Eq(ex.readLoc(st, g), IntLit(v)))
				})
				add(fmt.Sprintf("%s is %d while %s is as before", g, v, fl), func(st *State) *Term {
					return Imp(Eq(ex.readLoc(st, fl), fe), Eq(ex.readLoc(st, g), IntLit(v)))
				})
			}
		}
	}
	// map iteration: per-key facts
	for _, it := range lr.locs {
		if it.kind != "iter" {
			continue
		}
		it := it
		vis := func(st *State) *Term { return ex.readLoc(st, it) }
		headVis := vis(head)
		back0 := map[*Term]*Term{} // header constants -> entry values
		for _, l := range lr.locs {
			if l.kind != "iter" {
				back0[lr.head[l.String()]] = ex.readLoc(lr.entry, l)
			}
		}
		lits := []*Term{}
		litSeen := map[*Term]bool{}
		type bp struct {
			b        *State
			key, lit *Term
		}
		var paths []bp
		for _, b := range backs {
			v := vis(b)
			if v.Op != "store" || v.Args[0] != headVis || v.Args[2] != True {
				continue
			}
			key := v.Args[1]
			var lit *Term
			for _, p := range b.pc {
				if p.Op == "=" && (p.Args[0] == key && p.Args[1].isLit() || p.Args[1] == key && p.Args[0].isLit()) {
					lit = p.Args[0]
					if lit == key {
						lit = p.Args[1]
					}
				}
			}
			if lit != nil && !litSeen[lit] {
				litSeen[lit] = true
				lits = append(lits, lit)
			}
			paths = append(paths, bp{b, key, lit})
		}
		for _, p := range paths {
			if p.lit == nil {
				continue
			}
			lit := p.lit
			m := map[*Term]*Term{p.key: lit}
			for k, v := range back0 {
				m[k] = v
			}
			for _, l := range lr.locs {
				if l.kind == "iter" {
					continue
				}
				l := l
				nv := ex.readLoc(p.b, l)
				if nv == lr.head[l.String()] {
					continue
				}
				e := ex.readLoc(lr.entry, l)
				val := Subst(nv, m)
				add(fmt.Sprintf("%s is %s once %s was seen", l, short(val), lit.Name), func(st *State) *Term {
					return Eq(ex.readLoc(st, l), Ite(Select(vis(st), lit), val, e))
				})
			}
			// facts of the path
			for _, c := range p.b.pc[len(lr.entry.pc):] {
				cs := map[*Term]bool{}
				if !mentions(c, p.key, cs) || c.Op == "forall" {
					continue
				}
				fc := Subst(c, m)
				if fc.isLit() || mentions(fc, headVis, map[*Term]bool{}) {
					continue
				}
				add(fmt.Sprintf("%s holds once %s was seen", short(fc), lit.Name), func(st *State) *Term {
					return Imp(Select(vis(st), lit), fc)
				})
			}
		}
		// only listed keys
		if len(lits) > 0 || len(paths) == 0 {
			add("only the listed keys were seen", func(st *State) *Term {
				v := vis(st)
				ks, _ := v.S.parts()
				k := BoundVar("k", ks)
				var alts []*Term
				for _, l := range lits {
					alts = append(alts, Eq(k, l))
				}
				return ForallP(Imp(Select(v, k), Or(alts...)), Select(v, k), k)
			})
			add("nothing was seen", func(st *State) *Term {
				v := vis(st)
				return Eq(v, ConstArr(v.S, False))
			})
		}
		// sets that mirror the visited keys
		for _, l := range lr.locs {
			l := l
			if l.kind == "heap" && l.idx != nil {
				cur := ex.readLoc(lr.entry, l)
				if cur.S == headVis.S {
					add(fmt.Sprintf("%s is the set of seen keys", l), func(st *State) *Term {
						return Eq(ex.readLoc(st, l), vis(st))
					})
				}
				if cur.S.isArray() {
					ks, vs := cur.S.parts()
					hks, _ := headVis.S.parts()
					if ks == hks && vs == SBool {
						for _, lit := range lits {
							lit := lit
							add(fmt.Sprintf("%s[%s] mirrors seen", l, lit.Name), func(st *State) *Term {
								return Eq(Select(ex.readLoc(st, l), lit), Select(vis(st), lit))
							})
						}
					}
				}
			}
			if l.kind == "phi" && l.s == SBool {
				for _, lit := range lits {
					lit := lit
					add(fmt.Sprintf("%s mirrors %s", l, lit.Name), func(st *State) *Term {
						return Eq(ex.readLoc(st, l), Select(vis(st), lit))
					})
				}
			}
		}
	}
	return out
}

// loop-invariant integers the header compares a phi with
func (lr *loopRun) bounds(l loc, head *State) []*Term {
	var out []*Term
	for _, in := range lr.l.header.Instrs {
		b, ok := in.(*ssa.BinOp)
		if !ok {
			continue
		}
		for _, v := range []ssa.Value{b.X, b.Y} {
			if x, ok := head.top().env[v].(*Term); ok && x.S == SInt && lr.invariantTerm(x) {
				out = append(out, x, Sub(x, IntLit(1)))
			}
			if c, ok := v.(*ssa.Const); ok {
				if x, ok := lr.ex.constant(c).(*Term); ok && x.S == SInt {
					out = append(out, x)
				}
			}
		}
	}
	return out
}

func mentions(t, x *Term, seen map[*Term]bool) bool {
	if t == x {
		return true
	}
	if seen[t] {
		return false
	}
	seen[t] = true
	for _, a := range t.Args {
		if mentions(a, x, seen) {
			return true
		}
	}
	return false
}

func short(t *Term) string {
	s := t.String()
	if len(s) > 70 {
		s = s[:67] + "..."
	}
	return fmt.Sprintf("%s#%d", s, t.id)
}

type givenInv struct {
	desc  string
	props []string
	f     func(st *State) *Term
}

func isIfaceType(t types.Type) bool {
	_, ok := t.Underlying().(*types.Interface)
	return ok
}
