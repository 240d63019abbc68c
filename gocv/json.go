package main

// Model of encoding/json: JSON values as terms, encoding and decoding by type.

import (
	"encoding/json"
	"fmt"
	"go/types"
	"math/big"
	"reflect"
	"strings"
	"unicode"
)

const (
	kNull = 0
	kBool = 1
	kNum  = 2
	kStr  = 3
	kArr  = 4
	kObj  = 5
)

var (
	sDom  = ArraySort(SStr, SBool)
	sMap  = ArraySort(SStr, SJ)
	sElem = ArraySort(SInt, SJ)
	sTags = ArraySort(SStr, SInt)
	sBoxs = ArraySort(SStr, SBox)
)

func jnull() *Term          { return mk("app", "Jnull", SJ) }
func jok(b *Term) *Term     { return App("jok", SBool, b) }
func jval(b *Term) *Term    { return App("jval", SJ, b) }
func jenc(j *Term) *Term    { return App("jenc", SStr, j) }
func jkind(j *Term) *Term   { return App("jkind", SInt, j) }
func jisobj(j *Term) *Term  { return Eq(jkind(j), IntLit(kObj)) }
func jisarr(j *Term) *Term  { return Eq(jkind(j), IntLit(kArr)) }
func jisnull(j *Term) *Term { return Eq(jkind(j), IntLit(kNull)) }
func jisstr(j *Term) *Term  { return Eq(jkind(j), IntLit(kStr)) }
func jisnum(j *Term) *Term  { return Eq(jkind(j), IntLit(kNum)) }
func jdom(j *Term) *Term    { return App("jdom", sDom, j) }
func jmap(j *Term) *Term    { return App("jmap", sMap, j) }
func jhas(j, k *Term) *Term { return Select(jdom(j), k) }
func jget(j, k *Term) *Term { return Select(jmap(j), k) }
func jelems(j *Term) *Term  { return App("jelems", sElem, j) }
func jelem(j, i *Term) *Term {
	return Select(jelems(j), i)
}
func jlen(j *Term) *Term    { return App("jlen", SInt, j) }
func jstrval(j *Term) *Term { return App("jstrval", SStr, j) }
func jnumval(j *Term) *Term { return App("jnumval", SReal, j) }
func jboolv(j *Term) *Term  { return App("jboolval", SBool, j) }
func jtagof(j *Term) *Term  { return App("jtagof", SInt, j) }
func jraw(j *Term) *Term    { return App("jraw", SStr, j) }
func i2r(t *Term) *Term {
	if t.isInt() {
		return RealLit(new(big.Rat).SetInt(bigOf(t)))
	}
	return App("i2r", SReal, t)
}

func isCon(j *Term) bool {
	if j.Op != "app" {
		return false
	}
	switch j.Name {
	case "Jnull", "Jbool", "Jnum", "Jstr", "Jarr", "Jobj", "Jobjdup":
		return true
	}
	return false
}

func conKind(j *Term) int64 {
	switch j.Name {
	case "Jnull":
		return kNull
	case "Jbool":
		return kBool
	case "Jnum":
		return kNum
	case "Jstr":
		return kStr
	case "Jarr":
		return kArr
	}
	return kObj
}

var (
	tyAny      types.Type = types.NewInterfaceType(nil, nil)
	tyMapAny   types.Type = types.NewMap(types.Typ[types.String], tyAny)
	tySliceAny types.Type = types.NewSlice(tyAny)
)

func kindOfTag(id int64) int64 {
	if id == 0 {
		return kNull
	}
	t, ok := typeByID[id]
	if !ok {
		return -1
	}
	switch typeKey(t) {
	case "float64":
		return kNum
	case "string":
		return kStr
	case "bool":
		return kBool
	case "map[string]interface{}", "map[string]any":
		return kObj
	case "[]interface{}", "[]any":
		return kArr
	}
	return -1
}

func tagOfKind(k int64) *Term {
	switch k {
	case kNull:
		return IntLit(0)
	case kBool:
		return tagLit(types.Typ[types.Bool])
	case kNum:
		return tagLit(types.Typ[types.Float64])
	case kStr:
		return tagLit(types.Typ[types.String])
	case kArr:
		return tagLit(tySliceAny)
	}
	return tagLit(tyMapAny)
}

func jtagEq(j *Term, id int64) *Term {
	k := kindOfTag(id)
	if k < 0 {
		return False
	}
	return Eq(jkind(j), IntLit(k))
}

// ------------------------------------------------------------ rewriting

func jsonSelect(a, i *Term) *Term {
	switch a.Op {
	case "const":
		// memory of decoded values
		if i.Op == "app" {
			if d, ok := decodedRegion[i.Name]; ok && d.base[a] {
				return d.content(heapKeyOf[a], i.Args[0])
			}
		}
		return nil
	}
	switch a.Name {
	case "jtags":
		return jtagof(jget(a.Args[0], i))
	case "jeltags":
		return jtagof(jelem(a.Args[0], i))
	case "jraws":
		return jraw(jget(a.Args[0], i))
	case "jelraws":
		return jraw(jelem(a.Args[0], i))
	}
	if strings.HasPrefix(a.Name, "jboxes!") {
		return App("jbox!"+a.Name[7:], SBox, jget(a.Args[0], i))
	}
	if strings.HasPrefix(a.Name, "jelboxes!") {
		return App("jbox!"+a.Name[9:], SBox, jelem(a.Args[0], i))
	}
	return nil
}

type decodeInstance struct {
	n    int
	base map[*Term]bool // arrays whose content in the region is the decoded one
}

var decodedRegion = map[string]*decodeInstance{}
var instances = map[int]*decodeInstance{}

func (d *decodeInstance) content(key string, x *Term) *Term {
	n := fmt.Sprint(d.n)
	switch {
	case strings.HasSuffix(key, "#dom"):
		return jdom(x)
	case strings.HasPrefix(key, "map:") && strings.HasSuffix(key, "#t"):
		return App("jtags", sTags, x)
	case strings.HasPrefix(key, "map:") && strings.HasSuffix(key, "#d"):
		return App("jboxes!"+n, sBoxs, x)
	case strings.HasPrefix(key, "[*]") && strings.HasSuffix(key, "#t"):
		return App("jeltags", ArraySort(SInt, SInt), x)
	case strings.HasPrefix(key, "[*]") && strings.HasSuffix(key, "#d"):
		return App("jelboxes!"+n, ArraySort(SInt, SBox), x)
	}
	panic("decoded content of " + key)
}

var anyKeys = []struct {
	key string
	s   Sort
}{
	{"map:map[string]interface{}#dom", ArraySort(SInt, sDom)},
	{"map:map[string]interface{}#val#t", ArraySort(SInt, sTags)},
	{"map:map[string]interface{}#val#d", ArraySort(SInt, sBoxs)},
	{"[*]interface{}|#t", elemArrSort(SInt)},
	{"[*]interface{}|#d", elemArrSort(SBox)},
}

// newInstance starts the memory region of one decoding into interface values
func (ex *Exec) newInstance(st *State) *decodeInstance {
	d := &decodeInstance{n: len(instances) + 1, base: map[*Term]bool{}}
	instances[d.n] = d
	nb := newAllocBase()
	st.assume(Le(st.alloc, nb))
	for _, k := range anyKeys {
		a := st.arr(k.key, k.s)
		for a.Op == "store" {
			a = a.Args[0]
		}
		if a.Op == "const" {
			d.base[a] = true
		}
	}
	for _, f := range []string{"jmapref!", "jarrref!"} {
		n := f + fmt.Sprint(d.n)
		regionOf[n] = allocRank[nb]
		decodedRegion[n] = d
	}
	after := newAllocBase()
	st.assume(Lt(nb, after))
	st.alloc = after
	return d
}

// the region check: is the decoded content still what memory holds
func (ex *Exec) regionIntact(st *State, n int) bool {
	d := instances[n]
	for _, k := range anyKeys {
		a := st.arr(k.key, k.s)
		r := regionOf["jmapref!"+fmt.Sprint(n)]
		for a.Op == "store" {
			lo, hi, ok := refBounds(a.Args[1])
			if !ok || !(lo > r || hi < r) {
				return false
			}
			a = a.Args[0]
		}
		if !d.base[a] {
			return false
		}
	}
	return true
}

func (ex *Exec) unboxJSON(d *Term, t types.Type) Value {
	if d.Op != "app" || !strings.HasPrefix(d.Name, "jbox!") {
		return nil
	}
	n := d.Name[5:]
	x := d.Args[0]
	switch typeKey(t) {
	case "string":
		return jstrval(x)
	case "float64":
		return jnumval(x)
	case "bool":
		return jboolv(x)
	case "map[string]interface{}":
		return App("jmapref!"+n, SInt, x)
	case "[]interface{}":
		return &SliceV{App("jarrref!"+n, SInt, x), IntLit(0), jlen(x), tyAny}
	}
	return nil
}

func (ex *Exec) jsonUnboxFacts(st *State, d *Term, v Value, t types.Type) {}

func rewriteApp(name string, s Sort, args []*Term) *Term {
	if len(args) == 1 {
		a := args[0]
		switch name {
		case "jok":
			if a.Op == "app" && (a.Name == "jenc" || a.Name == "jraw") {
				return True
			}
			if a.Op == "str" || a.Op == "concat" {
				if _, st := parseJSONTerm(a); st == 1 {
					return True
				} else if st == 0 {
					return False
				}
			}
		case "jval":
			if a.Op == "app" && (a.Name == "jenc" || a.Name == "jraw") {
				return a.Args[0]
			}
			if a.Op == "str" || a.Op == "concat" {
				if j, st := parseJSONTerm(a); st == 1 {
					return j
				}
			}
		case "jenc":
			// canonical text of a raw value is taken as is
		case "jkind":
			if isCon(a) {
				return IntLit(conKind(a))
			}
			if a.Op == "app" && strings.HasPrefix(a.Name, "enc!") {
				return nil
			}
			if a.Op == "ite" {
				return Ite(a.Args[0], App("jkind", SInt, a.Args[1]), App("jkind", SInt, a.Args[2]))
			}
		case "jdom":
			if isCon(a) {
				if conKind(a) == kObj {
					return a.Args[0]
				}
				return ConstArr(sDom, False)
			}
		case "jmap":
			if isCon(a) && conKind(a) == kObj {
				return a.Args[1]
			}
		case "jelems":
			if a.Op == "app" && a.Name == "Jarr" {
				return a.Args[1]
			}
		case "jlen":
			if a.Op == "app" && a.Name == "Jarr" {
				return a.Args[0]
			}
		case "jstrval":
			if a.Op == "app" && a.Name == "Jstr" {
				return a.Args[0]
			}
		case "jnumval":
			if a.Op == "app" && a.Name == "Jnum" {
				return a.Args[0]
			}
		case "jboolval":
			if a.Op == "app" && a.Name == "Jbool" {
				return a.Args[0]
			}
		case "jdup":
			if isCon(a) {
				return BoolLit(a.Name == "Jobjdup")
			}
		case "jtagof":
			if isCon(a) {
				return tagOfKind(conKind(a))
			}
		case "maplen":
			if ks, ok := concreteDom(a); ok {
				return IntLit(int64(len(ks)))
			}
		case "strlen":
			if a.Op == "str" {
				return IntLit(int64(len(a.Name)))
			}
		case "finite":
			if a.Op == "real" || a.Op == "app" && a.Name == "i2r" {
				return True
			}
		case "r2i":
			if a.Op == "app" && a.Name == "i2r" {
				return a.Args[0]
			}
		case "isnilbytes":
			if a.Op == "str" && a.Name != "" || a.Op == "concat" || a.Op == "app" && (a.Name == "jenc" || a.Name == "jraw") {
				return False
			}
		}
		if strings.HasPrefix(name, "decok!") && isCon(a) {
			return decokCon(name[6:], a)
		}
		if strings.HasPrefix(name, "unbox!") && a.Op == "app" && strings.HasPrefix(a.Name, "box!") {
			i := strings.LastIndex(name, "!")
			if name[2:i] == a.Name {
				var n int
				fmt.Sscan(name[i+1:], &n)
				return a.Args[n]
			}
		}
	}
	if strings.HasPrefix(name, "decv!") && len(args) >= 1 && isCon(args[0]) {
		return decvCon(name[5:], args)
	}
	if strings.HasPrefix(name, "encvals!") && len(args) == 2 {
		// values of an interface map, from tag and data arrays
		t, d := args[0], args[1]
		if t.Op == "store" && d.Op == "store" && t.Args[1] == d.Args[1] {
			return Store(App(name, s, t.Args[0], d.Args[0]), t.Args[1], App("encI", SJ, t.Args[2], d.Args[2]))
		}
		if t.Op == "app" && t.Name == "jtags" && d.Op == "app" && strings.HasPrefix(d.Name, "jboxes!") && t.Args[0] == d.Args[0] {
			return jmap(t.Args[0])
		}
		if t.Op == "constarr" && d.Op == "constarr" {
			return ConstArr(sMap, jnull())
		}
	}
	if name == "Jobj" && len(args) == 2 {
		// an object rebuilt from its own parts
		d, m := args[0], args[1]
		if d.Op == "app" && d.Name == "jdom" && m.Op == "app" && m.Name == "jmap" && d.Args[0] == m.Args[0] {
			return nil
		}
	}
	if name == "encI" && len(args) == 2 {
		t, d := args[0], args[1]
		if d.Op == "app" && strings.HasPrefix(d.Name, "jbox!") && t.Op == "app" && t.Name == "jtagof" && t.Args[0] == d.Args[0] {
			return d.Args[0]
		}
	}
	return xmlRewrite(name, s, args)
}

// scalar decoding of known values
func decokCon(ty string, j *Term) *Term {
	k := conKind(j)
	switch ty {
	case "string":
		return BoolLit(k == kNull || k == kStr)
	case "bool":
		return BoolLit(k == kNull || k == kBool)
	case "float64":
		return BoolLit(k == kNull || k == kNum)
	case "int", "int64", "int32":
		if k == kNull {
			return True
		}
		if k != kNum {
			return False
		}
		// machine integers are taken as mathematical ones: an integer fits every integer type
		if a := j.Args[0]; a.Op == "app" && a.Name == "i2r" {
			return True
		}
	}
	return nil
}

func decvCon(ty string, args []*Term) *Term {
	j := args[0]
	k := conKind(j)
	i := strings.LastIndex(ty, "!")
	if i < 0 {
		return nil
	}
	switch ty[:i] {
	case "string":
		if k == kNull {
			return args[1]
		}
		if k == kStr {
			return j.Args[0]
		}
	case "bool":
		if k == kNull {
			return args[1]
		}
		if k == kBool {
			return j.Args[0]
		}
	case "float64":
		if k == kNull {
			return args[1]
		}
		if k == kNum {
			return j.Args[0]
		}
	case "int", "int64", "int32":
		if k == kNull {
			return args[1]
		}
		if k == kNum {
			if a := j.Args[0]; a.Op == "app" && a.Name == "i2r" {
				return a.Args[0]
			}
		}
	}
	return nil
}

func init() {
	axiomHooks = append(axiomHooks, jsonAxioms)
}

func jsonAxioms(t *Term) []*Term {
	if t.Op == "select" || t.Op == "store" {
		return nil
	}
	if t.Op != "app" {
		return nil
	}
	var out []*Term
	switch t.Name {
	case "jkind":
		j := t.Args[0]
		out = append(out, Le(IntLit(0), t), Le(t, IntLit(5)))
		// two objects with the same entries are the same object
		_ = j
	case "jlen":
		out = append(out, Le(IntLit(0), t))
	case "jdom":
		out = append(out, Or(Eq(jkind(t.Args[0]), IntLit(kObj)), Eq(t, ConstArr(sDom, False))))
	case "strlen":
		out = append(out, Le(IntLit(0), t), Eq(Eq(t, IntLit(0)), Eq(t.Args[0], StrLit(""))))
	case "maplen":
		d := t.Args[0]
		out = append(out, Le(IntLit(0), t), Eq(Eq(t, IntLit(0)), Eq(d, ConstArr(d.S, False))))
	case "jenc":
		out = append(out, Eq(mk("app", "jval", SJ, t), t.Args[0]), mk("app", "jok", SBool, t), Not(Eq(t, StrLit(""))))
	case "jraw":
		out = append(out, Eq(mk("app", "jval", SJ, t), t.Args[0]), mk("app", "jok", SBool, t))
	case "jtagof":
		j := t.Args[0]
		k := jkind(j)
		for i := int64(0); i <= 5; i++ {
			out = append(out, Eq(Eq(k, IntLit(i)), mk("=", "", SBool, t, tagOfKind(i))))
		}
	case "Jstr":
		out = append(out, Eq(mk("app", "jstrval", SStr, t), t.Args[0]), Eq(mk("app", "jkind", SInt, t), IntLit(kStr)))
	case "Jnum":
		out = append(out, Eq(mk("app", "jnumval", SReal, t), t.Args[0]), Eq(mk("app", "jkind", SInt, t), IntLit(kNum)))
	case "Jbool":
		out = append(out, Eq(mk("app", "jboolval", SBool, t), t.Args[0]), Eq(mk("app", "jkind", SInt, t), IntLit(kBool)))
	case "Jnull":
		out = append(out, Eq(mk("app", "jkind", SInt, t), IntLit(kNull)))
	case "Jobj":
		out = append(out, Eq(mk("app", "jkind", SInt, t), IntLit(kObj)), Eq(mk("app", "jdom", sDom, t), t.Args[0]), Eq(mk("app", "jmap", sMap, t), t.Args[1]))
	case "Jarr":
		out = append(out, Eq(mk("app", "jkind", SInt, t), IntLit(kArr)), Eq(mk("app", "jlen", SInt, t), t.Args[0]), Eq(mk("app", "jelems", sElem, t), t.Args[1]))
	case "i2r":
		out = append(out, Eq(mk("app", "r2i", SInt, t), t.Args[0]))
	}
	if t.S == SJ && !isCon(t) {
		k := mk("app", "jkind", SInt, t)
		out = append(out, Imp(Eq(k, IntLit(kNull)), mk("=", "", SBool, t, jnull())))
	}
	if strings.HasPrefix(t.Name, "jbox!") {
		x := t.Args[0]
		k := jkind(x)
		out = append(out,
			Imp(Eq(k, IntLit(kStr)), Eq(t, mk("app", "box!Str", SBox, jstrval(x)))),
			Imp(Eq(k, IntLit(kNum)), Eq(t, mk("app", "box!Real", SBox, jnumval(x)))),
			Imp(Eq(k, IntLit(kBool)), Eq(t, mk("app", "box!Bool", SBox, jboolv(x)))),
			Imp(Eq(k, IntLit(kNull)), Eq(t, zeroBox)))
	}
	if strings.HasPrefix(t.Name, "box!") {
		for i, a := range t.Args {
			out = append(out, Eq(mk("app", fmt.Sprintf("un%s!%d", t.Name, i), a.S, t), a))
		}
	}
	if strings.HasPrefix(t.Name, "decok!") {
		j := t.Args[0]
		k := jkind(j)
		switch t.Name[6:] {
		case "string":
			out = append(out, Eq(t, Or(Eq(k, IntLit(kNull)), Eq(k, IntLit(kStr)))))
		case "bool":
			out = append(out, Eq(t, Or(Eq(k, IntLit(kNull)), Eq(k, IntLit(kBool)))))
		case "float64":
			out = append(out, Eq(t, Or(Eq(k, IntLit(kNull)), Eq(k, IntLit(kNum)))))
		default:
			out = append(out, Imp(Eq(k, IntLit(kNull)), t))
		}
	}
	return out
}

// ------------------------------------------------------------ parsing of JSON text terms

type jtok struct {
	lit byte  // punctuation
	val *Term // value
	key *Term // string value usable as a key
}

// parseJSONTerm: result, 1 well formed, 0 ill formed, -1 not decided
func parseJSONTerm(t *Term) (*Term, int) {
	var toks []jtok
	for _, p := range concatParts(t) {
		switch {
		case p.Op == "str":
			ts, st := tokenize(p.Name)
			if st != 1 {
				if len(concatParts(t)) == 1 && st == 0 {
					return nil, 0
				}
				return nil, -1
			}
			toks = append(toks, ts...)
		case p.Op == "app" && (p.Name == "jenc" || p.Name == "jraw"):
			toks = append(toks, jtok{val: p.Args[0]})
		case p.Op == "app" && p.Name == "itoa":
			toks = append(toks, jtok{val: App("Jnum", SJ, i2r(p.Args[0]))})
		default:
			return nil, -1
		}
	}
	pos := 0
	var value func() *Term
	bad := false
	value = func() *Term {
		if pos >= len(toks) {
			bad = true
			return nil
		}
		k := toks[pos]
		pos++
		if k.val != nil {
			return k.val
		}
		switch k.lit {
		case '{':
			dom := ConstArr(sDom, False)
			m := ConstArr(sMap, jnull())
			dup := false
			if pos < len(toks) && toks[pos].lit == '}' {
				pos++
				return App("Jobj", SJ, dom, m)
			}
			for {
				if pos >= len(toks) || toks[pos].val == nil {
					bad = true
					return nil
				}
				kt := toks[pos].val
				if !(kt.Op == "app" && kt.Name == "Jstr") {
					bad = true // a key that is not a literal string: give up
					return nil
				}
				key := kt.Args[0]
				pos++
				if pos >= len(toks) || toks[pos].lit != ':' {
					bad = true
					return nil
				}
				pos++
				v := value()
				if bad {
					return nil
				}
				if Select(dom, key) != False {
					dup = true
				}
				dom = Store(dom, key, True)
				m = Store(m, key, v)
				if pos >= len(toks) {
					bad = true
					return nil
				}
				c := toks[pos].lit
				pos++
				if c == ',' {
					continue
				}
				if c != '}' {
					bad = true
					return nil
				}
				if dup {
					return App("Jobjdup", SJ, dom, m)
				}
				return App("Jobj", SJ, dom, m)
			}
		case '[':
			arr := ConstArr(sElem, jnull())
			n := int64(0)
			if pos < len(toks) && toks[pos].lit == ']' {
				pos++
				return App("Jarr", SJ, IntLit(0), arr)
			}
			for {
				v := value()
				if bad {
					return nil
				}
				arr = Store(arr, IntLit(n), v)
				n++
				if pos >= len(toks) {
					bad = true
					return nil
				}
				c := toks[pos].lit
				pos++
				if c == ',' {
					continue
				}
				if c != ']' {
					bad = true
					return nil
				}
				return App("Jarr", SJ, IntLit(n), arr)
			}
		}
		bad = true
		return nil
	}
	v := value()
	if bad || pos != len(toks) {
		return nil, 0
	}
	return v, 1
}

func tokenize(s string) ([]jtok, int) {
	var out []jtok
	for i := 0; i < len(s); {
		c := s[i]
		switch {
		case unicode.IsSpace(rune(c)):
			i++
		case strings.IndexByte("{}[]:,", c) >= 0:
			out = append(out, jtok{lit: c})
			i++
		case c == '"':
			j := i + 1
			for j < len(s) && s[j] != '"' {
				if s[j] == '\\' {
					j++
				}
				j++
			}
			if j >= len(s) {
				return nil, -1 // string continues in another piece
			}
			var v string
			if json.Unmarshal([]byte(s[i:j+1]), &v) != nil {
				return nil, 0
			}
			out = append(out, jtok{val: App("Jstr", SJ, StrLit(v))})
			i = j + 1
		default:
			j := i
			for j < len(s) && strings.IndexByte("{}[]:,\" \t\r\n", s[j]) < 0 {
				j++
			}
			w := s[i:j]
			switch w {
			case "null":
				out = append(out, jtok{val: jnull()})
			case "true", "false":
				out = append(out, jtok{val: App("Jbool", SJ, BoolLit(w == "true"))})
			default:
				if !json.Valid([]byte(w)) || j == len(s) {
					if j == len(s) && json.Valid([]byte(w)) {
						r, ok := new(big.Rat).SetString(w)
						if ok {
							out = append(out, jtok{val: App("Jnum", SJ, RealLit(r))})
							break
						}
					}
					return nil, 0
				}
				r, ok := new(big.Rat).SetString(w)
				if !ok {
					return nil, -1
				}
				out = append(out, jtok{val: App("Jnum", SJ, RealLit(r))})
			}
			i = j
		}
	}
	return out, 1
}

// ------------------------------------------------------------ encoding

func hasMethod(t types.Type, name string) *types.Func {
	ms := types.NewMethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if f, ok := ms.At(i).Obj().(*types.Func); ok && f.Name() == name && f.Exported() {
			return f
		}
	}
	return nil
}

type heapDep struct {
	key string
	s   Sort
}

// reach lists the memory the encoding of a value of type t may read
func reach(t types.Type, inHeap string, acc *[]heapDep, seen map[string]bool) bool {
	ok := true
	add := func(k string, s Sort) {
		if !seen["k"+k] {
			seen["k"+k] = true
			*acc = append(*acc, heapDep{k, s})
		}
	}
	if emptyLayout(t) {
		return true
	}
	if _, op := opaqueSort(t); op {
		return true
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		k := "*" + typeKey(u.Elem())
		if seen[k] {
			return true
		}
		seen[k] = true
		for _, l := range leavesOf(u.Elem()) {
			add(heapKey(u.Elem(), false, l.Path), ArraySort(SInt, l.S))
		}
		return reach(u.Elem(), "", acc, seen)
	case *types.Slice:
		if isByteSlice(t) {
			return true
		}
		k := "[]" + typeKey(u.Elem())
		if seen[k] {
			return true
		}
		seen[k] = true
		for _, l := range leavesOf(u.Elem()) {
			add(heapKey(u.Elem(), true, l.Path), elemArrSort(l.S))
		}
		return reach(u.Elem(), "", acc, seen)
	case *types.Map:
		k, ks := mapKeys(u)
		if seen[k] {
			return true
		}
		seen[k] = true
		add(k+"#dom", ArraySort(SInt, ArraySort(ks, SBool)))
		for _, l := range leavesOf(u.Elem()) {
			add(k+"#val"+l.Path, ArraySort(SInt, ArraySort(ks, l.S)))
		}
		return reach(u.Elem(), "", acc, seen)
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if !reach(u.Field(i).Type(), "", acc, seen) {
				ok = false
			}
		}
	case *types.Array:
		return reach(u.Elem(), "", acc, seen)
	case *types.Interface:
		return false
	}
	return ok
}

// deps: the memory arguments of an encoding function, without changes to
// objects the value cannot reach because they are younger than it
func (ex *Exec) deps(st *State, t types.Type, ref *Term) []*Term {
	var ds []heapDep
	full := reach(t, "", &ds, map[string]bool{})
	arrs := make([]*Term, len(ds))
	stripped := make([]*Term, len(ds))
	_, hi, okRef := refBounds(ref)
	clean := okRef
	for i, d := range ds {
		a := st.arr(d.key, d.s)
		arrs[i] = a
		for a.Op == "store" {
			lo, _, ok := refBounds(a.Args[1])
			if !ok || lo <= hi {
				break
			}
			a = a.Args[0]
		}
		stripped[i] = a
		if a.Op == "store" {
			clean = false
		}
		if a.Op == "const" {
			if r, ok := refRank[a]; !ok || r > hi+1 {
				clean = false
			}
		}
	}
	if !clean {
		stripped = arrs
	}
	if !full {
		hv := st.ghost["hv"]
		if hv == nil {
			hv = Const("hv!0", Sort("HV"))
		}
		stripped = append(stripped, hv)
	}
	return stripped
}

func jsonName(f *types.Var, tag string) (name string, omit, skip bool) {
	v := reflect.StructTag(tag).Get("json")
	if v == "-" {
		return "", false, true
	}
	parts := strings.Split(v, ",")
	name = parts[0]
	if name == "" {
		name = f.Name()
	}
	for _, o := range parts[1:] {
		if o == "omitempty" {
			omit = true
		}
	}
	return
}

// encode: the JSON value json.Marshal writes for v, and when it succeeds
func (ex *Exec) encode(st *State, v Value, t types.Type) (*Term, *Term) {
	return ex.encodeA(st, v, t, false, 0)
}

func (ex *Exec) encodeA(st *State, v Value, t types.Type, addressable bool, depth int) (*Term, *Term) {
	if depth > 12 {
		panic(unsupported("JSON encoding of recursive type %s", t))
	}
	if t == nil {
		panic(unsupported("encoding of an untyped value"))
	}
	switch namedPath(t) {
	case "time.Time":
		x := v.(*Term)
		return App("enctime", SJ, x), App("timeok", SBool, x)
	case "encoding/json.RawMessage":
		x := v.(*Term)
		nilb := App("isnilbytes", SBool, x)
		return Ite(nilb, jnull(), jval(x)), Or(nilb, jok(x))
	}
	u := t.Underlying()
	if types.IsInterface(t) {
		iv := v.(*IfaceV)
		if iv.Con != nil {
			return ex.encodeA(st, ex.ifaceVal(iv), iv.Con, false, depth+1)
		}
		if iv.Tag.isInt() && iv.Tag.intVal() == 0 {
			return jnull(), True
		}
		d := ex.ifaceData(iv)
		if d.Op == "app" && strings.HasPrefix(d.Name, "jbox!") && iv.Tag == jtagof(d.Args[0]) {
			var n int
			fmt.Sscan(d.Name[5:], &n)
			if ex.regionIntact(st, n) {
				return d.Args[0], True
			}
		}
		hv := st.ghost["hv"]
		if hv == nil {
			hv = Const("hv!0", Sort("HV"))
		}
		nn := Eq(iv.Tag, IntLit(0))
		return Ite(nn, jnull(), App("encdyn", SJ, iv.Tag, d, hv)), Or(nn, App("encdynok", SBool, iv.Tag, d, hv))
	}
	mt := t
	if addressable {
		if _, ok := t.(*types.Pointer); !ok {
			mt = types.NewPointer(t)
		}
	}
	if m := hasMethod(mt, "MarshalJSON"); m != nil {
		if p, ok := v.(*Ptr); ok {
			isnil := Eq(p.term(), IntLit(0))
			args := append([]*Term{p.term()}, ex.deps(st, t, p.term())...)
			return Ite(isnil, jnull(), App("enc!"+typeKey(t), SJ, args...)), Or(isnil, App("encok!"+typeKey(t), SBool, args...))
		}
		panic(unsupported("encoding of %s through its own method", t))
	}
	if hasMethod(mt, "MarshalText") != nil {
		panic(unsupported("encoding of %s through MarshalText", t))
	}
	switch u := u.(type) {
	case *types.Basic:
		x := v.(*Term)
		switch x.S {
		case SStr:
			return App("Jstr", SJ, x), True
		case SBool:
			return App("Jbool", SJ, x), True
		case SInt:
			return App("Jnum", SJ, i2r(x)), True
		case SReal:
			return App("Jnum", SJ, x), App("finite", SBool, x)
		}
	case *types.Pointer:
		p := v.(*Ptr)
		isnil := Eq(p.term(), IntLit(0))
		if isnil == True {
			return jnull(), True
		}
		// struct types of the program are encoded field by field
		j, ok := ex.encodeA(st, ex.load(st, p, u.Elem()), u.Elem(), true, depth+1)
		return Ite(isnil, jnull(), j), Or(isnil, ok)
	case *types.Slice:
		if isByteSlice(t) {
			x := v.(*Term)
			return App("Jbase64", SJ, x), True
		}
		s := v.(*SliceV)
		if s.Len.isInt() && s.Len.intVal() <= 16 {
			if s.Arr == IntLit(0) {
				return jnull(), True
			}
			arr := ConstArr(sElem, jnull())
			oks := []*Term{}
			for i := int64(0); i < s.Len.intVal(); i++ {
				p := &Ptr{Base: s.Arr, Idx: Add(s.Off, IntLit(i)), Root: s.Elem, Typ: s.Elem}
				j, ok := ex.encodeA(st, ex.load(st, p, s.Elem), s.Elem, true, depth+1)
				arr = Store(arr, IntLit(i), j)
				oks = append(oks, ok)
			}
			j := App("Jarr", SJ, s.Len, arr)
			isnil := Eq(s.Arr, IntLit(0))
			return Ite(isnil, jnull(), j), Or(isnil, And(oks...))
		}
		args := append([]*Term{s.Arr, s.Off, s.Len}, ex.deps(st, t, s.Arr)...)
		isnil := Eq(s.Arr, IntLit(0))
		return Ite(isnil, jnull(), App("enc!"+typeKey(t), SJ, args...)), Or(isnil, App("encok!"+typeKey(t), SBool, args...))
	case *types.Map:
		m := v.(*Term)
		if m.Op == "app" && strings.HasPrefix(m.Name, "jmapref!") {
			var n int
			fmt.Sscan(m.Name[8:], &n)
			if ex.regionIntact(st, n) {
				return m.Args[0], True
			}
		}
		isnil := Eq(m, IntLit(0))
		d, _ := st.mapDom(m, u)
		if typeKey(t) == "map[string]interface{}" {
			vt, _ := st.mapVal(m, u, Leaf{"#t", SInt})
			vd, _ := st.mapVal(m, u, Leaf{"#d", SBox})
			if ks, ok := concreteDom(d); ok {
				mm := ConstArr(sMap, jnull())
				dd := ConstArr(sDom, False)
				oks := []*Term{}
				for _, k := range ks {
					j, o := ex.encodeA(st, ex.mkIface(Select(vt, k), Select(vd, k)), tyAny, false, depth+1)
					mm = Store(mm, k, j)
					dd = Store(dd, k, True)
					oks = append(oks, o)
				}
				return Ite(isnil, jnull(), App("Jobj", SJ, dd, mm)), Or(isnil, And(oks...))
			}
			// a decoded top-level map that was not changed since
			if d.Op == "app" && d.Name == "jdom" && vt.Op == "app" && vt.Name == "jtags" && vd.Op == "app" && strings.HasPrefix(vd.Name, "jboxes!") &&
				vt.Args[0] == d.Args[0] && vd.Args[0] == d.Args[0] {
				var n int
				fmt.Sscan(vd.Name[7:], &n)
				if ex.regionIntact(st, n) {
					return Ite(isnil, jnull(), d.Args[0]), True
				}
			}
		}
		args := append([]*Term{m}, ex.deps(st, t, m)...)
		return Ite(isnil, jnull(), App("enc!"+typeKey(t), SJ, args...)), Or(isnil, App("encok!"+typeKey(t), SBool, args...))
	case *types.Struct:
		sv := v.(*StructV)
		dom, mm := ConstArr(sDom, False), ConstArr(sMap, jnull())
		oks := []*Term{}
		dup := false
		var walk func(sv *StructV, u *types.Struct)
		walk = func(sv *StructV, u *types.Struct) {
			for i := 0; i < u.NumFields(); i++ {
				f := u.Field(i)
				name, omit, skip := jsonName(f, u.Tag(i))
				if skip {
					continue
				}
				if f.Anonymous() && reflect.StructTag(u.Tag(i)).Get("json") == "" {
					if eu, ok := f.Type().Underlying().(*types.Struct); ok {
						walk(sv.Fields[i].(*StructV), eu)
						continue
					}
					if !f.Exported() {
						continue
					}
				}
				if !f.Exported() {
					continue
				}
				j, ok := ex.encodeA(st, sv.Fields[i], f.Type(), addressable, depth+1)
				key := StrLit(name)
				if Select(dom, key) != False {
					dup = true
				}
				pres := True
				if omit {
					pres = Not(ex.jsonEmpty(st, sv.Fields[i], f.Type()))
				}
				dom = Store(dom, key, pres)
				mm = Store(mm, key, j)
				oks = append(oks, Or(Not(pres), ok))
			}
		}
		walk(sv, u)
		c := "Jobj"
		if dup {
			c = "Jobjdup"
		}
		return App(c, SJ, dom, mm), And(oks...)
	}
	panic(unsupported("JSON encoding of %s", t))
}

func (ex *Exec) jsonEmpty(st *State, v Value, t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		if s, ok := v.(*SliceV); ok {
			return Eq(s.Len, IntLit(0))
		}
		return Eq(strLen(v.(*Term)), IntLit(0))
	case *types.Struct:
		return False
	case *types.Map:
		m := v.(*Term)
		d, _ := st.mapDom(m, u)
		return Or(Eq(m, IntLit(0)), Eq(App("maplen", SInt, d), IntLit(0)))
	case *types.Interface:
		return Eq(v.(*IfaceV).Tag, IntLit(0))
	}
	x := ex.term(v)
	return Eq(x, zeroTerm(x.S))
}

// ------------------------------------------------------------ decoding

func decName(t types.Type) string {
	if b, ok := t.Underlying().(*types.Basic); ok && hasMethod(types.NewPointer(t), "UnmarshalJSON") == nil && hasMethod(types.NewPointer(t), "UnmarshalText") == nil {
		return types.Typ[b.Kind()].Name()
	}
	return typeKey(t)
}

func decok(j *Term, t types.Type) *Term { return App("decok!"+decName(t), SBool, j) }

// decleaves: the leaves after decoding j over a location holding old
func decleaves(j *Term, t types.Type, old []*Term) []*Term {
	var out []*Term
	for i, l := range leavesOf(t) {
		out = append(out, App(fmt.Sprintf("decv!%s!%d", decName(t), i), l.S, append([]*Term{j}, old...)...))
	}
	return out
}

// jsonUnmarshal models json.Unmarshal(b, target): the continuation states with their error
func (ex *Exec) jsonUnmarshal(st *State, b *Term, target *IfaceV, k func(st *State, err *IfaceV)) ([]*State, bool) {
	j := jval(b)
	errv := func(s *State) *IfaceV { return ex.newError(s, "json") }
	if target.Con == nil {
		// the dynamic type is not known here: the object is decoded by its own method
		r := ex.ifaceRef(target)
		ok := And(jok(b), App("decdyn", SBool, target.Tag, j))
		return ex.fork2(st, ok, func(s *State) {
			lo, _, okb := refBounds(r)
			_ = lo
			if (!okb || !s.isFreshRef(r)) && (ex.entry == nil || !ex.valid(s, Le(ex.entry.alloc, r))) {
				panic(unsupported("JSON decoding into an object of unknown type that is not new"))
			}
			g := s.ghostArr("decoded", SJ)
			s.ghost["decoded"] = Store(g, r, j)
			gf := s.ghostArr("wasdecoded", SBool)
			s.ghost["wasdecoded"] = Store(gf, r, True)
			k(s, nilIface())
		}, func(s *State) { k(s, errv(s)) })
	}
	pt, isPtr := target.Con.Underlying().(*types.Pointer)
	if !isPtr {
		k(st, errv(st))
		return nil, st.dead
	}
	p := ex.ifaceVal(target).(*Ptr)
	if p.Path == "" && p.Idx == nil {
		nn := Ne(p.Base, IntLit(0))
		if v, ok := st.known(nn); !ok || !v {
			if bb, _ := linear(p.Base); !isAllocBase(bb) {
				if ex.feasible(st, Not(nn)) {
					return ex.fork2(st, nn, func(s *State) { panic(unsupported("JSON decoding into a pointer that may be nil")) }, func(s *State) { k(s, errv(s)) })
				}
			}
		}
	}
	t := pt.Elem()
	ex.guardAccess(st, p, true, 0)
	setFresh := func(s *State) {
		for _, l := range leavesOf(t) {
			s.storeLeaf(p, l, Fresh("partial", l.S))
		}
	}
	switch typeKey(t) {
	case "map[string]encoding/json.RawMessage", "map[string]interface{}":
		mt := t.Underlying().(*types.Map)
		old := ex.load(st, p, t).(*Term)
		if old != IntLit(0) {
			if v, ok := st.known(Eq(old, IntLit(0))); !ok || !v {
				panic(unsupported("JSON decoding into a map that is not nil"))
			}
		}
		isAny := typeKey(t) == "map[string]interface{}"
		asMap := func(s *State) {
			n := 0
			if isAny {
				n = ex.newInstance(s).n
			}
			r := ex.newRef(s)
			mk, _ := mapKeys(mt)
			dk := mk + "#dom"
			s.heap[dk] = Store(s.arr(dk, ArraySort(SInt, sDom)), r, jdom(j))
			if isAny {
				tk, bk := mk+"#val#t", mk+"#val#d"
				s.heap[tk] = Store(s.arr(tk, ArraySort(SInt, sTags)), r, App("jtags", sTags, j))
				s.heap[bk] = Store(s.arr(bk, ArraySort(SInt, sBoxs)), r, App(fmt.Sprintf("jboxes!%d", n), sBoxs, j))
			} else {
				vk := mk + "#val"
				s.heap[vk] = Store(s.arr(vk, ArraySort(SInt, ArraySort(SStr, SStr))), r, App("jraws", ArraySort(SStr, SStr), j))
			}
			ex.store(s, p, r, t)
			k(s, nilIface())
		}
		var more []*State
		// an object, null (the map stays nil), or an error
		out, dead := ex.fork2(st, And(jok(b), jisobj(j)), asMap, func(s *State) {
			extra, _ := ex.fork2(s, And(jok(b), jisnull(j)), func(s *State) { k(s, nilIface()) }, func(s *State) { setFresh(s); k(s, errv(s)) })
			more = append(more, extra...)
		})
		return append(out, more...), dead
	case "[]interface{}", "[]encoding/json.RawMessage":
		isAny := typeKey(t) == "[]interface{}"
		el := t.Underlying().(*types.Slice).Elem()
		asSlice := func(s *State) {
			n := 0
			if isAny {
				n = ex.newInstance(s).n
			}
			r := ex.newRef(s)
			if isAny {
				tk, bk := heapKey(el, true, "#t"), heapKey(el, true, "#d")
				s.heap[tk] = Store(s.arr(tk, elemArrSort(SInt)), r, App("jeltags", ArraySort(SInt, SInt), j))
				s.heap[bk] = Store(s.arr(bk, elemArrSort(SBox)), r, App(fmt.Sprintf("jelboxes!%d", n), ArraySort(SInt, SBox), j))
			} else {
				vk := heapKey(el, true, "")
				s.heap[vk] = Store(s.arr(vk, elemArrSort(SStr)), r, App("jelraws", ArraySort(SInt, SStr), j))
			}
			ex.store(s, p, &SliceV{r, IntLit(0), jlen(j), el}, t)
			k(s, nilIface())
		}
		var more []*State
		out, dead := ex.fork2(st, And(jok(b), jisarr(j)), asSlice, func(s *State) {
			extra, _ := ex.fork2(s, And(jok(b), jisnull(j)), func(s *State) {
				ex.store(s, p, &SliceV{IntLit(0), IntLit(0), IntLit(0), el}, t)
				k(s, nilIface())
			}, func(s *State) { setFresh(s); k(s, errv(s)) })
			more = append(more, extra...)
		})
		return append(out, more...), dead
	case "interface{}":
		old := ex.load(st, p, t).(*IfaceV)
		if !(old.Tag.isInt() && old.Tag.intVal() == 0) {
			panic(unsupported("JSON decoding into an interface that is not nil"))
		}
		return ex.fork2(st, jok(b), func(s *State) {
			n := ex.newInstance(s).n
			ex.store(s, p, &IfaceV{Tag: jtagof(j), Data: App(fmt.Sprintf("jbox!%d", n), SBox, j)}, t)
			k(s, nilIface())
		}, func(s *State) { setFresh(s); k(s, errv(s)) })
	case "encoding/json.RawMessage":
		return ex.fork2(st, jok(b), func(s *State) {
			ex.store(s, p, jraw(j), t)
			k(s, nilIface())
		}, func(s *State) { setFresh(s); k(s, errv(s)) })
	}
	var old []*Term
	for _, l := range leavesOf(t) {
		old = append(old, st.loadLeaf(p, l))
	}
	return ex.fork2(st, And(jok(b), decok(j, t)), func(s *State) {
		for i, v := range decleaves(j, t, old) {
			s.storeLeaf(p, leavesOf(t)[i], v)
		}
		k(s, nilIface())
	}, func(s *State) { setFresh(s); k(s, errv(s)) })
}

func (st *State) isFreshRef(r *Term) bool {
	lo, _, ok := refBounds(r)
	return ok && lo >= 0
}
