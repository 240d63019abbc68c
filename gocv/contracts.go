package main

// Contract files: line based, expressions in Go syntax.

import (
	"fmt"
	"go/ast"
	"go/parser"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

type Clause struct {
	Unless string
	Props  []string
	Label  string
	Src    string
	Expr   ast.Expr
	Pos    string
}

// Action is one step of an event hook
type Action struct {
	Kind string // check, set, assume
	Name string // ghost set
	Idx  ast.Expr
	Cond ast.Expr
	Clause
}

type Hook struct {
	Event    string // call, after, recv, send, functype, aftertype, return, select
	Target   string
	Params   []string
	Acts     []Action
	Pos      string
	Optional bool // the event need not occur
	Global   bool // also active in goroutines and handlers started by the function
}

type Protocol struct {
	Name   string
	Ghosts []GhostDecl
	Hooks  []*Hook
}

type GhostDecl struct {
	Name string
	Sort Sort
	Init ast.Expr
}

type LockDecl struct {
	Type     string // pkg.Type
	Field    string
	Guards   []string // fields
	Props    []string
	Inv      []Clause
	Rely     []Clause
	Guar     []Clause
	Self     string
	Pos      string
	IOLock   bool // may be held while calling blocking peers
	Ghosts   []string
	IOGuards []string
	IOCalls  []string // methods that write
}

type Contract struct {
	Func      string
	Pos       string
	Params    []string
	Results   []string
	Requires  []Clause
	Hints     []Clause
	Auto      []string
	Ensures   []Clause
	Invs      []Clause
	Safe      []string
	Modular   bool
	Modifies  []string // heap footprints: parameter names whose object may change, or heap key prefixes
	AnyMod    bool
	Protos    []string
	Ghosts    []GhostDecl
	Trusted   bool
	Iface     bool
	Optional  bool
	Props     []string
	Codec     *Codec
	Returns   []Action // ghost actions at return
	NoVerify  bool
	Lets      []Let
	Pure      bool
	Sets      []Action
	LockProps []string
	Sorts     []string
	NoReturn  bool
	Types     []*TypeOb
	IsTypes   bool
	Shows     []Clause // as Ensures, but not known to callers
}

type Let struct {
	Name string
	Expr ast.Expr
	Src  string
}

func (c *Contract) allProps() []string {
	set := map[string]bool{}
	for _, p := range c.Props {
		set[p] = true
	}
	for _, p := range c.Safe {
		set[p] = true
	}
	for _, e := range c.Ensures {
		for _, p := range e.Props {
			set[p] = true
		}
	}
	return sortedKeys(set)
}

type CodecProp struct {
	Name     string
	Field    string
	Required bool
	Kind     string
}

type Codec struct {
	Type   string
	Strict bool
	Props  []CodecProp
}

type Define struct {
	Name   string
	Params []string
	Body   ast.Expr
}

// Auto: properties that every function that others can call takes part in
type Auto struct {
	Props, Pkgs []string
}

type Contracts struct {
	Funcs      map[string]*Contract
	Order      []*Contract
	Locks      []*LockDecl
	Protos     map[string]*Protocol
	Defs       map[string]*Define
	Autos      []Auto
	Specs      map[string][]string // uninterpreted spec functions: parameter sorts + result
	Tables     map[string]*Table
	ChanTypes  map[string]string
	ChanInv    map[string]*Contract
	Types      []*TypeOb
	Lemmas     []*Lemma
	GlobalInvs []Clause
	Lines      int
	Sources    []string
}

type Table struct{ Keys, Vals []string }

type Lemma struct {
	Props  []string
	Label  string
	Vars   []GhostDecl
	Assume []ast.Expr
	Expr   ast.Expr
	Pos    string
}

// TypeOb: a declarative obligation over the types of the program
type TypeOb struct {
	Kind string
	Args []string
	Rest string
	Pos  string
}

func parseExpr(src, pos string) ast.Expr {
	e, err := parser.ParseExpr(src)
	if err != nil {
		panic(fmt.Sprintf("%s: %v in %q", pos, err, src))
	}
	return e
}

// header: name(params) (results)
func parseHeader(s string) (name string, params, results []string) {
	s = strings.TrimSpace(s)
	// method names contain parentheses: (*T).M(...)
	i := 0
	if strings.HasPrefix(s, "(") {
		i = strings.Index(s, ")") + 1
	}
	j := strings.Index(s[i:], "(")
	if j < 0 {
		return s, nil, nil
	}
	name = strings.TrimSpace(s[:i+j])
	rest := s[i+j:]
	k := strings.Index(rest, ")")
	params = splitList(rest[1:k])
	rest = strings.TrimSpace(rest[k+1:])
	if strings.HasPrefix(rest, "(") {
		results = splitList(strings.TrimSuffix(strings.TrimPrefix(rest, "("), ")"))
	}
	return
}

func splitList(s string) []string {
	var out []string
	for _, p := range strings.Split(s, ",") {
		if p = strings.TrimSpace(p); p != "" {
			out = append(out, p)
		}
	}
	return out
}

var propRe = func(w string) bool {
	if len(w) != 3 || w[0] != 'C' {
		return false
	}
	return w[1] >= '0' && w[1] <= '9' && w[2] >= '0' && w[2] <= '9'
}

// clause: [Cnn ...] ["label":] expr
func parseClause(rest, pos string) Clause {
	c := Clause{Pos: pos}
	rest = strings.TrimSpace(rest)
	for {
		w := rest
		if i := strings.IndexAny(rest, " \t"); i >= 0 {
			w = rest[:i]
		}
		if !propRe(w) {
			break
		}
		c.Props = append(c.Props, w)
		rest = strings.TrimSpace(rest[len(w):])
	}
	if strings.HasPrefix(rest, "\"") {
		if i := strings.Index(rest[1:], "\":"); i >= 0 {
			c.Label = rest[1 : i+1]
			rest = strings.TrimSpace(rest[i+3:])
		}
	}
	c.Src = rest
	if c.Label == "" {
		c.Label = rest
	}
	c.Expr = parseExpr(rest, pos)
	return c
}

func sortNamed(s string) Sort {
	switch s {
	case "int", "ref", "tag":
		return SInt
	case "bool":
		return SBool
	case "string", "bytes":
		return SStr
	case "json":
		return SJ
	case "real":
		return SReal
	case "box":
		return SBox
	case "time":
		return STime
	}
	if strings.HasPrefix(s, "map[") {
		i := strings.Index(s, "]")
		return ArraySort(sortNamed(s[4:i]), sortNamed(s[i+1:]))
	}
	panic("sort " + s)
}

func loadContracts(dir string) *Contracts {
	cs := &Contracts{Funcs: map[string]*Contract{}, Protos: map[string]*Protocol{}, Defs: map[string]*Define{}, Specs: map[string][]string{}, Tables: map[string]*Table{}, ChanTypes: map[string]string{}, ChanInv: map[string]*Contract{}}
	files, _ := filepath.Glob(filepath.Join(dir, "*.gcv"))
	sort.Strings(files)
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		cs.Sources = append(cs.Sources, filepath.Base(f))
		cs.parse(filepath.Base(f), string(b))
	}
	return cs
}

func (cs *Contracts) parse(file, text string) {
	var lines []string
	var nums []int
	for i, l := range strings.Split(text, "\n") {
		if j := strings.Index(l, "##"); j >= 0 {
			l = l[:j]
		}
		t := strings.TrimSpace(l)
		if t == "" || strings.HasPrefix(t, "#") {
			continue
		}
		cs.Lines++
		if strings.HasPrefix(t, "|") {
			lines[len(lines)-1] += " " + strings.TrimSpace(t[1:])
			continue
		}
		lines = append(lines, t)
		nums = append(nums, i+1)
	}
	var con *Contract
	var proto *Protocol
	var hook *Hook
	var lock *LockDecl
	var lem *Lemma
	var table *Table
	for i, l := range lines {
		pos := fmt.Sprintf("%s:%d", file, nums[i])
		w, rest := l, ""
		if j := strings.IndexAny(l, " \t"); j >= 0 {
			w, rest = l[:j], strings.TrimSpace(l[j:])
		}
		switch w {
		case "contract", "interface", "extern", "functype":
			name, ps, rs := parseHeader(rest)
			con = &Contract{Func: name, Pos: pos, Params: ps, Results: rs}
			if w == "interface" || w == "functype" {
				con.Iface = true
				con.Modular = true
			}
			if w == "extern" {
				con.Trusted = true
				con.Modular = true
			}
			if cs.Funcs[name] != nil {
				panic(pos + ": second contract for " + name)
			}
			cs.Funcs[name] = con
			cs.Order = append(cs.Order, con)
			proto, hook, lock, lem = nil, nil, nil, nil
		case "modular":
			con.Modular = true
		case "optional":
			if hook != nil {
				hook.Optional = true
			} else {
				con.Optional = true
			}
		case "globalinv":
			// holds whenever a function under contract starts; preserved by every one that assigns the globals
			cs.GlobalInvs = append(cs.GlobalInvs, parseClause(rest, pos))
			con, proto, hook, lock, lem = nil, nil, nil, nil, nil
		case "noverify":
			con.NoVerify = true
		case "props":
			con.Props = append(con.Props, strings.Fields(rest)...)
		case "safe":
			con.Safe = append(con.Safe, strings.Fields(rest)...)
		case "requires":
			con.Requires = append(con.Requires, parseClause(rest, pos))
		case "ensures":
			con.Ensures = append(con.Ensures, parseClause(rest, pos))
		case "invariant":
			c := parseClause(rest, pos)
			if lock != nil {
				lock.Inv = append(lock.Inv, c)
			} else {
				con.Invs = append(con.Invs, c)
			}
		case "auto": // auto props : packages
			j := strings.Index(rest, ":")
			cs.Autos = append(cs.Autos, Auto{strings.Fields(rest[:j]), strings.Fields(rest[j+1:])})
		case "hint": // a condition that may hold at loop heads
			con.Hints = append(con.Hints, parseClause(rest, pos))
		case "let":
			j := strings.Index(rest, "=")
			con.Lets = append(con.Lets, Let{strings.TrimSpace(rest[:j]), parseExpr(strings.TrimSpace(rest[j+1:]), pos), rest})
		case "guarantee": // [unless GHOST] props "label": condition at every release
			unless := ""
			if strings.HasPrefix(rest, "unless ") {
				f := strings.Fields(rest)
				unless = f[1]
				rest = strings.TrimSpace(strings.TrimPrefix(strings.TrimSpace(rest[7:]), unless))
			}
			c := parseClause(rest, pos)
			c.Unless = unless
			lock.Guar = append(lock.Guar, c)
		case "rely":
			lock.Rely = append(lock.Rely, parseClause(rest, pos))
		case "modifies":
			if rest == "anything" {
				con.AnyMod = true
			} else if rest != "nothing" {
				con.Modifies = append(con.Modifies, splitList(rest)...)
			}
		case "protocol":
			if con != nil {
				con.Protos = append(con.Protos, strings.Fields(rest)...)
				break
			}
			fallthrough
		case "defprotocol":
			proto = &Protocol{Name: rest}
			cs.Protos[rest] = proto
			con, lock, hook, lem = nil, nil, nil, nil
		case "ghost":
			// ghost name sort = init
			g := GhostDecl{}
			j := strings.Index(rest, "=")
			fs := strings.Fields(rest[:j])
			g.Name, g.Sort = fs[0], sortNamed(fs[1])
			g.Init = parseExpr(strings.TrimSpace(rest[j+1:]), pos)
			if proto != nil {
				proto.Ghosts = append(proto.Ghosts, g)
			} else {
				con.Ghosts = append(con.Ghosts, g)
			}
		case "on":
			// on event target(params)
			fs := strings.SplitN(rest, " ", 2)
			name, ps, _ := "", []string(nil), []string(nil)
			if len(fs) == 2 {
				name, ps, _ = parseHeader(fs[1])
			}
			hook = &Hook{Event: fs[0], Target: name, Params: ps, Pos: pos}
			proto.Hooks = append(proto.Hooks, hook)
		case "check", "assume":
			a := Action{Kind: w, Clause: parseClause(rest, pos)}
			hook.Acts = append(hook.Acts, a)
		case "pure":
			con.Pure = true
		case "noreturn":
			con.NoReturn = true
		case "sorts":
			con.Sorts = strings.Fields(rest)
		case "global":
			hook.Global = true
		case "ghosts":
			lock.Ghosts = append(lock.Ghosts, splitList(rest)...)
		case "ioguards":
			f, calls, _ := strings.Cut(rest, ":")
			lock.IOGuards = append(lock.IOGuards, splitList(f)...)
			lock.IOCalls = append(lock.IOCalls, strings.Fields(calls)...)
		case "chantype":
			// chantype name = go type of the elements
			j := strings.Index(rest, "=")
			cs.ChanTypes[strings.TrimSpace(rest[:j])] = strings.TrimSpace(rest[j+1:])
		case "chaninv":
			// chaninv name(ch, v)
			name, ps, _ := parseHeader(rest)
			con = &Contract{Func: "channel " + name, Pos: pos, Params: ps}
			cs.ChanInv[name] = con
			proto, hook, lock, lem = nil, nil, nil, nil
		case "table":
			// table name: key value pairs follow as rows
			table = &Table{}
			cs.Tables[rest] = table
			con, proto, hook, lock, lem = nil, nil, nil, nil, nil
		case "row":
			fs := strings.Fields(rest)
			table.Keys = append(table.Keys, fs[0])
			table.Vals = append(table.Vals, fs[1])
		case "xmlvalue":
			name, ps, _ := parseHeader(rest)
			con = &Contract{Func: "xmlvalue " + name, Pos: pos, Params: ps}
			cs.Funcs[con.Func] = con
			proto, hook, lock, lem = nil, nil, nil, nil
		case "set":
			// set name = expr | set name[idx] = expr
			j := strings.Index(rest, " = ")
			lhs := parseExpr(strings.TrimSpace(rest[:j]), pos)
			a := Action{Kind: "set"}
			switch x := lhs.(type) {
			case *ast.Ident:
				a.Name = x.Name
			case *ast.IndexExpr:
				a.Name = x.X.(*ast.Ident).Name
				a.Idx = x.Index
			}
			a.Clause = Clause{Expr: parseExpr(strings.TrimSpace(rest[j+3:]), pos), Pos: pos, Src: rest}
			if hook == nil {
				con.Sets = append(con.Sets, a)
			} else {
				hook.Acts = append(hook.Acts, a)
			}
		case "lock":
			// lock pkg.Type.field self guards f1, f2
			fs := strings.Fields(rest)
			k := strings.LastIndex(fs[0], ".")
			lock = &LockDecl{Type: fs[0][:k], Field: fs[0][k+1:], Self: fs[1], Pos: pos}
			cs.Locks = append(cs.Locks, lock)
			con, proto, hook, lem = nil, nil, nil, nil
		case "guards":
			lock.Guards = append(lock.Guards, splitList(rest)...)
		case "iolock":
			lock.IOLock = true
		case "lockprops":
			if lock != nil {
				lock.Props = strings.Fields(rest)
			} else {
				con.LockProps = strings.Fields(rest)
			}
		case "define":
			j := strings.Index(rest, " = ")
			name, ps, _ := parseHeader(rest[:j])
			cs.Defs[name] = &Define{name, ps, parseExpr(strings.TrimSpace(rest[j+3:]), pos)}
		case "spec":
			// spec name(sorts) sort
			j := strings.Index(rest, "(")
			k := strings.Index(rest, ")")
			cs.Specs[rest[:j]] = append(splitList(rest[j+1:k]), strings.TrimSpace(rest[k+1:]))
		case "codec":
			// codec pkg.Type strict|open
			fs := strings.Fields(rest)
			cd := &Codec{Type: fs[0], Strict: fs[1] == "strict"}
			con = &Contract{Func: "codec " + fs[0], Pos: pos, Codec: cd, Props: []string{"C01", "C02", "C03"}}
			cs.Order = append(cs.Order, con)
			cs.Funcs[con.Func] = con
			proto, hook, lock, lem = nil, nil, nil, nil
		case "prop":
			// prop name kind required|optional field Field
			fs := strings.Fields(rest)
			con.Codec.Props = append(con.Codec.Props, CodecProp{Name: fs[0], Kind: fs[1], Required: fs[2] == "required", Field: fs[4]})
		case "types":
			// types name Cnn: obligations on declarations, one per line
			fs := strings.Fields(rest)
			con = &Contract{Func: "types " + fs[0], Pos: pos, Props: fs[1:], IsTypes: true}
			cs.Order = append(cs.Order, con)
			cs.Funcs[con.Func] = con
			proto, hook, lock, lem = nil, nil, nil, nil
		case "impl", "noimpl", "xmltag", "xmlfield", "initially", "immutable":
			con.Types = append(con.Types, &TypeOb{Kind: w, Args: strings.Fields(rest), Rest: rest, Pos: pos})
		case "shows":
			con.Shows = append(con.Shows, parseClause(rest, pos))
		case "lemma":
			c := parseClause(rest+" : true", pos)
			_ = c
			lem = nil
		default:
			panic(pos + ": unknown directive " + w)
		}
	}
	_ = lem
}
