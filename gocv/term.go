package main

// Hash-consed SMT terms with a light simplifier.

import (
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

type Sort string

const (
	SBool Sort = "Bool"
	SInt  Sort = "Int"
	SReal Sort = "Real"
	SStr  Sort = "Str"  // strings and byte slices (contents)
	SBox  Sort = "Box"  // data word of an interface value
	SJ    Sort = "J"    // JSON value
	STime Sort = "Time" // time.Time
)

func ArraySort(k, v Sort) Sort { return Sort("(Array " + string(k) + " " + string(v) + ")") }

func (s Sort) isArray() bool { return strings.HasPrefix(string(s), "(Array ") }

// parts of an array sort
func (s Sort) parts() (Sort, Sort) {
	body := string(s)[len("(Array ") : len(s)-1]
	depth := 0
	for i := 0; i < len(body); i++ {
		switch body[i] {
		case '(':
			depth++
		case ')':
			depth--
		case ' ':
			if depth == 0 {
				return Sort(body[:i]), Sort(body[i+1:])
			}
		}
	}
	panic("bad array sort " + string(s))
}

type Term struct {
	Op   string // see constructors
	Name string // constant/function name or literal text
	Args []*Term
	S    Sort
	id   int
	// bound variables occurring free inside (under construction of quantifiers)
	hasBound  bool
	hasForall bool
	hasIptr   bool
}

var (
	termTab = map[string]*Term{}
	termCnt int
)

func mk(op, name string, s Sort, args ...*Term) *Term {
	var sb strings.Builder
	sb.WriteString(op)
	sb.WriteByte('|')
	sb.WriteString(name)
	sb.WriteByte('|')
	sb.WriteString(string(s))
	for _, a := range args {
		sb.WriteByte(',')
		sb.WriteString(strconv.Itoa(a.id))
	}
	k := sb.String()
	if t, ok := termTab[k]; ok {
		return t
	}
	termCnt++
	t := &Term{Op: op, Name: name, S: s, Args: args, id: termCnt}
	if op == "bound" {
		t.hasBound = true
	}
	t.hasForall = op == "forall"
	if op == "app" && strings.HasPrefix(name, "iptr!") {
		t.hasIptr = true
	}
	for _, a := range args {
		if a.hasBound && op != "forall" {
			t.hasBound = true
		}
		if a.hasIptr {
			t.hasIptr = true
		}
		if a.hasForall {
			t.hasForall = true
		}
	}
	if op == "forall" {
		// bound variables are args[1:]; nested quantifiers keep outer ones
		own := map[*Term]bool{}
		for _, b := range args[1:] {
			own[b] = true
		}
		t.hasBound = hasOtherBound(args[0], own, map[*Term]bool{})
	}
	termTab[k] = t
	return t
}

func hasOtherBound(t *Term, own map[*Term]bool, seen map[*Term]bool) bool {
	if !t.hasBound || seen[t] {
		return false
	}
	seen[t] = true
	if t.Op == "bound" {
		return !own[t]
	}
	args := t.Args
	if t.Op == "forall" { // every quantifier has variables of its own
		for _, b := range args[1:] {
			own[b] = true
		}
		args = args[:1]
	}
	for _, a := range args {
		if hasOtherBound(a, own, seen) {
			return true
		}
	}
	return false
}

var freshCnt int

func Const(name string, s Sort) *Term { return mk("const", name, s) }
func Fresh(prefix string, s Sort) *Term {
	freshCnt++
	return Const(fmt.Sprintf("%s!%d", prefix, freshCnt), s)
}
func BoundVar(name string, s Sort) *Term {
	freshCnt++
	return mk("bound", fmt.Sprintf("%s?%d", name, freshCnt), s)
}

var (
	True  = mk("true", "", SBool)
	False = mk("false", "", SBool)
)

func BoolLit(b bool) *Term {
	if b {
		return True
	}
	return False
}
func IntLit(n int64) *Term     { return mk("int", strconv.FormatInt(n, 10), SInt) }
func BigLit(n string) *Term    { return mk("int", n, SInt) }
func RealLit(r *big.Rat) *Term { return mk("real", r.RatString(), SReal) }
func StrLit(s string) *Term    { return mk("str", s, SStr) }

func (t *Term) isInt() bool { return t.Op == "int" }
func (t *Term) intVal() int64 {
	n, _ := strconv.ParseInt(t.Name, 10, 64)
	return n
}
func (t *Term) isLit() bool {
	switch t.Op {
	case "int", "real", "str", "true", "false":
		return true
	}
	return false
}

func Not(a *Term) *Term {
	switch a.Op {
	case "true":
		return False
	case "false":
		return True
	case "not":
		return a.Args[0]
	}
	return mk("not", "", SBool, a)
}

func And(as ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	var add func(a *Term) bool
	add = func(a *Term) bool {
		if a == True || seen[a] {
			return true
		}
		if a == False || seen[Not(a)] {
			return false
		}
		if a.Op == "and" {
			for _, b := range a.Args {
				if !add(b) {
					return false
				}
			}
			return true
		}
		seen[a] = true
		out = append(out, a)
		return true
	}
	for _, a := range as {
		if !add(a) {
			return False
		}
	}
	switch len(out) {
	case 0:
		return True
	case 1:
		return out[0]
	}
	return mk("and", "", SBool, out...)
}

func Or(as ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	var add func(a *Term) bool
	add = func(a *Term) bool {
		if a == False || seen[a] {
			return true
		}
		if a == True || seen[Not(a)] {
			return false
		}
		if a.Op == "or" {
			for _, b := range a.Args {
				if !add(b) {
					return false
				}
			}
			return true
		}
		seen[a] = true
		out = append(out, a)
		return true
	}
	for _, a := range as {
		if !add(a) {
			return True
		}
	}
	switch len(out) {
	case 0:
		return False
	case 1:
		return out[0]
	}
	return mk("or", "", SBool, out...)
}

func Imp(a, b *Term) *Term {
	if a == True {
		return b
	}
	if a == False || b == True || a == b {
		return True
	}
	if b == False {
		return Not(a)
	}
	return mk("=>", "", SBool, a, b)
}

func Iff(a, b *Term) *Term { return Eq(a, b) }

func Ite(c, a, b *Term) *Term {
	if c == True || a == b {
		return a
	}
	if c == False {
		return b
	}
	if a.S == SBool {
		if a == True && b == False {
			return c
		}
		if a == False && b == True {
			return Not(c)
		}
	}
	return mk("ite", "", a.S, c, a, b)
}

// base and offset of an integer term
func linear(t *Term) (*Term, int64) {
	if t.isInt() {
		return nil, t.intVal()
	}
	if t.Op == "+" && len(t.Args) == 2 && t.Args[1].isInt() {
		return t.Args[0], t.Args[1].intVal()
	}
	return t, 0
}

func Add(a, b *Term) *Term {
	if a.S == SReal {
		if a.Op == "real" && b.Op == "real" {
			return RealLit(new(big.Rat).Add(ratOf(a), ratOf(b)))
		}
		return mk("+", "", SReal, a, b)
	}
	ba, oa := linear(a)
	bb, ob := linear(b)
	if ba == nil && bb == nil {
		return IntLit(oa + ob)
	}
	if bb == nil {
		if oa+ob == 0 {
			return ba
		}
		return mk("+", "", SInt, ba, IntLit(oa+ob))
	}
	if ba == nil {
		return Add(b, a)
	}
	if oa+ob != 0 {
		return mk("+", "", SInt, mk("+", "", SInt, ba, bb), IntLit(oa+ob))
	}
	return mk("+", "", SInt, ba, bb)
}

func Sub(a, b *Term) *Term {
	if a == b {
		if a.S == SReal {
			return RealLit(new(big.Rat))
		}
		return IntLit(0)
	}
	if b.isInt() {
		return Add(a, IntLit(-b.intVal()))
	}
	return mk("-", "", a.S, a, b)
}

func ratOf(t *Term) *big.Rat {
	r, _ := new(big.Rat).SetString(t.Name)
	return r
}

func Lt(a, b *Term) *Term {
	if a.isInt() && b.isInt() {
		return BoolLit(a.intVal() < b.intVal())
	}
	if a == b {
		return False
	}
	if a.Op == "real" && b.Op == "real" {
		return BoolLit(ratOf(a).Cmp(ratOf(b)) < 0)
	}
	if a.S == SInt {
		ba, oa := linear(a)
		bb, ob := linear(b)
		if ba == bb {
			return BoolLit(oa < ob)
		}
	}
	return mk("<", "", SBool, a, b)
}
func Le(a, b *Term) *Term { return Not(Lt(b, a)) }

// distinctness decided without a solver
func distinct(a, b *Term) bool {
	if a == b {
		return false
	}
	if a.isLit() && b.isLit() {
		return true
	}
	if a.S == SInt {
		ba, oa := linear(a)
		bb, ob := linear(b)
		if ba == bb && oa != ob {
			return true
		}
		// references of disjoint allocation regions
		if la, ha, ok := refBounds(a); ok {
			if lb, hb, ok := refBounds(b); ok && (ha < lb || hb < la) {
				return true
			}
		}
		if isFuncConst(a) && isFuncConst(b) {
			return true
		}
		if (a.isInt() && a.intVal() == 0 && isFuncConst(b)) || (b.isInt() && b.intVal() == 0 && isFuncConst(a)) {
			return true
		}
	}
	if a.Op == "app" && b.Op == "app" && a.Name == b.Name && len(a.Args) == 1 && len(b.Args) == 1 && (strings.HasPrefix(a.Name, "box!") || injective[a.Name]) {
		return distinct(a.Args[0], b.Args[0])
	}
	return false
}

func z(t *Term) bool { return t.isInt() && t.intVal() <= 0 }

var injective = map[string]bool{"jenc": true, "Jstr": true, "Jnum": true}

func isFuncConst(t *Term) bool { return t.Op == "const" && strings.HasPrefix(t.Name, "fn!") }

// allocation bases are constants named alloc!N; allocRank orders them
func isAllocBase(t *Term) bool {
	return t != nil && t.Op == "const" && strings.HasPrefix(t.Name, "alloc!")
}

var allocRank = map[*Term]int{}

// refRank of a constant: its value (for arrays: the references it holds) is
// below the allocation base of that rank
var refRank = map[*Term]int{}

// regionOf gives the rank of the region a function's references belong to
var regionOf = map[string]int{}

// refBounds: the ranks of allocation regions a reference may lie in.
// Regions are numbered by their base; -1 stands for everything older.
func refBounds(t *Term) (int, int, bool) {
	switch t.Op {
	case "int":
		return -1, -1, true
	case "const":
		if isAllocBase(t) {
			return allocRank[t], allocRank[t], true
		}
		if r, ok := refRank[t]; ok {
			return -1, r - 1, true
		}
	case "+":
		if b, o := linear(t); isAllocBase(b) && o >= 0 {
			return allocRank[b], allocRank[b], true
		}
	case "app":
		if i := strings.Index(t.Name, "!"); i > 0 {
			if r, ok := regionOf[t.Name]; ok {
				return r, r, true
			}
		}
	case "select":
		a, i := t.Args[0], t.Args[1]
		if a.Op == "const" {
			if r, ok := refRank[a]; ok {
				if _, hi, ok := refBounds(i); ok && hi < r {
					return -1, r - 1, true
				}
			}
		}
	case "ite":
		l1, h1, ok1 := refBounds(t.Args[1])
		l2, h2, ok2 := refBounds(t.Args[2])
		if ok1 && ok2 {
			if l2 < l1 {
				l1 = l2
			}
			if h2 > h1 {
				h1 = h2
			}
			return l1, h1, true
		}
	}
	return 0, 0, false
}

func oldRef(t, base *Term) bool {
	_, hi, ok := refBounds(t)
	return ok && hi < allocRank[base]
}

func Eq(a, b *Term) *Term {
	if a == b {
		return True
	}
	if a.S != b.S {
		panic(fmt.Sprintf("Eq sorts %s %s: %s = %s", a.S, b.S, a, b))
	}
	if distinct(a, b) {
		return False
	}
	if a.S == SBool {
		if a == True {
			return b
		}
		if b == True {
			return a
		}
		if a == False {
			return Not(b)
		}
		if b == False {
			return Not(a)
		}
	}
	// common prefix / suffix of concatenations
	if a.S == SStr && (a.Op == "concat" || b.Op == "concat") {
		if r := eqConcat(a, b); r != nil {
			return r
		}
	}
	if a.Op == "ite" && b.isLit() {
		if a.Args[1].isLit() || a.Args[2].isLit() {
			return Or(And(a.Args[0], Eq(a.Args[1], b)), And(Not(a.Args[0]), Eq(a.Args[2], b)))
		}
	}
	if b.Op == "ite" && a.isLit() {
		return Eq(b, a)
	}
	if a.Op == "app" && b.Op == "app" && a.Name == b.Name && len(a.Args) == 1 && (strings.HasPrefix(a.Name, "box!") || injective[a.Name]) {
		return Eq(a.Args[0], b.Args[0])
	}
	if a.Op == "app" && a.Name == "jtagof" && b.isInt() {
		return jtagEq(a.Args[0], b.intVal())
	}
	if b.Op == "app" && b.Name == "jtagof" && a.isInt() {
		return jtagEq(b.Args[0], a.intVal())
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk("=", "", SBool, a, b)
}

func Ne(a, b *Term) *Term { return Not(Eq(a, b)) }

func Select(a, i *Term) *Term {
	for {
		switch a.Op {
		case "store":
			if a.Args[1] == i {
				return a.Args[2]
			}
			if distinct(a.Args[1], i) {
				a = a.Args[0]
				continue
			}
		case "constarr":
			return a.Args[0]
		case "app", "const":
			// the elements of decoded JSON values
			if r := jsonSelect(a, i); r != nil {
				return r
			}
		}
		break
	}
	_, v := a.S.parts()
	if a.Op == "store" && v == SBool && i.Op == "str" {
		// small boolean sets stay readable
	}
	return mk("select", "", v, a, i)
}

func Store(a, i, v *Term) *Term {
	ks, vs := a.S.parts()
	if ks != i.S || vs != v.S {
		panic(fmt.Sprintf("Store sorts %s [%s] := %s", a.S, i.S, v.S))
	}
	if a.Op == "store" && a.Args[1] == i {
		a = a.Args[0]
	}
	if a.Op == "select" || a.Op == "store" || true {
		if s := mk("select", "", v.S, a, i); s == v {
			return a
		}
	}
	return mk("store", "", a.S, a, i, v)
}

func ConstArr(s Sort, v *Term) *Term { return mk("constarr", "", s, v) }

func App(name string, s Sort, args ...*Term) *Term {
	if r := rewriteApp(name, s, args); r != nil {
		return r
	}
	for i, a := range args {
		if a == nil {
			panic(fmt.Sprintf("App %s arg %d nil", name, i))
		}
	}
	return mk("app", name, s, args...)
}

// flattened string concatenation
func Concat(parts ...*Term) *Term {
	var flat []*Term
	var add func(t *Term)
	add = func(t *Term) {
		if t.Op == "concat" {
			for _, a := range t.Args {
				add(a)
			}
			return
		}
		if t.Op == "str" {
			if t.Name == "" {
				return
			}
			if n := len(flat); n > 0 && flat[n-1].Op == "str" {
				flat[n-1] = StrLit(flat[n-1].Name + t.Name)
				return
			}
		}
		flat = append(flat, t)
	}
	for _, p := range parts {
		add(p)
	}
	switch len(flat) {
	case 0:
		return StrLit("")
	case 1:
		return flat[0]
	}
	return mk("concat", "", SStr, flat...)
}

func concatParts(t *Term) []*Term {
	if t.Op == "concat" {
		return t.Args
	}
	if t.Op == "str" && t.Name == "" {
		return nil
	}
	return []*Term{t}
}

func eqConcat(a, b *Term) *Term {
	pa, pb := append([]*Term{}, concatParts(a)...), append([]*Term{}, concatParts(b)...)
	changed := false
	for len(pa) > 0 && len(pb) > 0 {
		x, y := pa[0], pb[0]
		if x == y {
			pa, pb = pa[1:], pb[1:]
			changed = true
			continue
		}
		if x.Op == "str" && y.Op == "str" {
			n := len(x.Name)
			if len(y.Name) < n {
				n = len(y.Name)
			}
			if x.Name[:n] != y.Name[:n] {
				return False
			}
			pa[0], pb[0] = StrLit(x.Name[n:]), StrLit(y.Name[n:])
			if pa[0].Name == "" {
				pa = pa[1:]
			}
			if pb[0].Name == "" {
				pb = pb[1:]
			}
			changed = true
			continue
		}
		break
	}
	for len(pa) > 0 && len(pb) > 0 {
		x, y := pa[len(pa)-1], pb[len(pb)-1]
		if x == y {
			pa, pb = pa[:len(pa)-1], pb[:len(pb)-1]
			changed = true
			continue
		}
		if x.Op == "str" && y.Op == "str" {
			n := len(x.Name)
			if len(y.Name) < n {
				n = len(y.Name)
			}
			if x.Name[len(x.Name)-n:] != y.Name[len(y.Name)-n:] {
				return False
			}
			pa[len(pa)-1], pb[len(pb)-1] = StrLit(x.Name[:len(x.Name)-n]), StrLit(y.Name[:len(y.Name)-n])
			if pa[len(pa)-1].Name == "" {
				pa = pa[:len(pa)-1]
			}
			if pb[len(pb)-1].Name == "" {
				pb = pb[:len(pb)-1]
			}
			changed = true
			continue
		}
		break
	}
	if !changed {
		return nil
	}
	na, nb := Concat(pa...), Concat(pb...)
	if na.Op == "concat" || nb.Op == "concat" {
		if na == nb {
			return True
		}
		if na.id > nb.id {
			na, nb = nb, na
		}
		return mk("=", "", SBool, na, nb)
	}
	return Eq(na, nb)
}

func Forall(body *Term, vars ...*Term) *Term {
	if body == True || body == False {
		return body
	}
	if len(vars) == 0 {
		return body
	}
	return mk("forall", "", SBool, append([]*Term{body}, vars...)...)
}

// ForallP: as Forall with an explicit trigger
func ForallP(body *Term, trigger *Term, vars ...*Term) *Term {
	if body == True || body == False {
		return body
	}
	return mk("forall", "trig", SBool, append([]*Term{body, trigger}, vars...)...)
}

func (t *Term) String() string { return t.str(0) }

func (t *Term) str(d int) string {
	if d > 12 {
		return "..."
	}
	switch t.Op {
	case "const", "bound", "int", "real":
		return t.Name
	case "true", "false":
		return t.Op
	case "str":
		return strconv.Quote(t.Name)
	}
	n := t.Op
	if t.Op == "app" {
		n = t.Name
	}
	var as []string
	for _, a := range t.Args {
		as = append(as, a.str(d+1))
	}
	return n + "(" + strings.Join(as, ", ") + ")"
}

// Subst replaces terms bottom-up, rebuilding with the simplifying constructors.
func Subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.Args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		args := make([]*Term, len(t.Args))
		ch := false
		for i, a := range t.Args {
			args[i] = rec(a)
			if args[i] != a {
				ch = true
			}
		}
		r := t
		if ch {
			r = rebuild(t, args)
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

func rebuild(t *Term, args []*Term) *Term {
	switch t.Op {
	case "not":
		return Not(args[0])
	case "and":
		return And(args...)
	case "or":
		return Or(args...)
	case "=>":
		return Imp(args[0], args[1])
	case "=":
		return Eq(args[0], args[1])
	case "ite":
		return Ite(args[0], args[1], args[2])
	case "+":
		return Add(args[0], args[1])
	case "-":
		return Sub(args[0], args[1])
	case "<":
		return Lt(args[0], args[1])
	case "select":
		return Select(args[0], args[1])
	case "store":
		return Store(args[0], args[1], args[2])
	case "app":
		return App(t.Name, t.S, args...)
	case "concat":
		return Concat(args...)
	case "forall":
		return mk("forall", t.Name, SBool, args...)
	}
	return mk(t.Op, t.Name, t.S, args...)
}

// constants occurring in a term
func constsOf(t *Term, acc map[*Term]bool, seen map[*Term]bool) {
	if seen[t] {
		return
	}
	seen[t] = true
	if t.Op == "const" {
		acc[t] = true
	}
	for _, a := range t.Args {
		constsOf(a, acc, seen)
	}
}

func sortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
