package main

// Printing of queries, theory instances and solver processes.

import (
	"bufio"
	"crypto/sha256"
	"fmt"
	"io"
	"os"
	"os/exec"
	"sort"
	"strings"
	"sync"
	"time"
)

type Result int

const (
	Unknown Result = iota
	Unsat
	Sat
)

func (r Result) String() string { return [...]string{"unknown", "unsat", "sat"}[r] }

// axiomsFor returns instances of the background theory for one subterm.
// It is filled in by the modelling files.
var axiomHooks []func(t *Term) []*Term

func buildQuery(assume []*Term, goal *Term) string {
	facts := append([]*Term{}, assume...)
	if goal != nil {
		facts = append(facts, Not(goal))
	}
	// instances to a fixpoint, for ground terms
	seen := map[*Term]bool{}
	var order []*Term
	var visit func(t *Term)
	visit = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		for _, a := range t.Args {
			visit(a)
		}
		order = append(order, t)
	}
	done := 0
	factSeen := map[*Term]bool{}
	for _, f := range facts {
		factSeen[f] = true
		visit(f)
	}
	for done < len(order) && len(order) < 60000 {
		t := order[done]
		done++
		if t.hasBound {
			continue
		}
		for _, h := range axiomHooks {
			for _, ax := range h(t) {
				if ax == True || factSeen[ax] {
					continue
				}
				factSeen[ax] = true
				facts = append(facts, ax)
				visit(ax)
			}
		}
	}
	// declarations
	sorts := map[Sort]bool{}
	consts := map[string]Sort{}
	funs := map[string]string{}
	strs := []*Term{}
	addSort := func(s Sort) {
		var rec func(s Sort)
		rec = func(s Sort) {
			if s.isArray() {
				a, b := s.parts()
				rec(a)
				rec(b)
				return
			}
			switch s {
			case SBool, SInt, SReal:
			default:
				sorts[s] = true
			}
		}
		rec(s)
	}
	for _, t := range order {
		addSort(t.S)
		switch t.Op {
		case "const":
			consts[t.Name] = t.S
		case "str":
			strs = append(strs, t)
		case "app":
			var as []string
			for _, a := range t.Args {
				as = append(as, string(a.S))
			}
			sig := "(" + strings.Join(as, " ") + ") " + string(t.S)
			if old, ok := funs[t.Name]; ok && old != sig {
				panic("function " + t.Name + " used with two signatures: " + old + " / " + sig)
			}
			funs[t.Name] = sig
		case "concat":
			funs["concat"] = "(Str Str) Str"
		}
	}
	hasCharConcat := false
	var sb strings.Builder
	var ss []string
	for s := range sorts {
		ss = append(ss, string(s))
	}
	sort.Strings(ss)
	if len(strs) > 0 {
		has := false
		for _, s := range ss {
			if s == "Str" {
				has = true
			}
		}
		if !has {
			ss = append(ss, "Str")
		}
	}
	for _, s := range ss {
		fmt.Fprintf(&sb, "(declare-sort %s 0)\n", s)
	}
	for _, n := range sortedKeys(consts) {
		fmt.Fprintf(&sb, "(declare-const %s %s)\n", symq(n), consts[n])
	}
	for _, n := range sortedKeys(funs) {
		fmt.Fprintf(&sb, "(declare-fun %s %s)\n", symq(n), funs[n])
	}
	_ = hasCharConcat
	if len(strs) > 0 {
		var names []string
		sort.Slice(strs, func(i, j int) bool { return strs[i].id < strs[j].id })
		for _, s := range strs {
			n := fmt.Sprintf("s!%d", s.id)
			names = append(names, n)
			fmt.Fprintf(&sb, "(declare-const %s Str) ; %q\n", n, s.Name)
		}
		if len(names) > 1 {
			fmt.Fprintf(&sb, "(assert (distinct %s))\n", strings.Join(names, " "))
		}
	}
	// shared ground terms become definitions
	defined := map[*Term]string{}
	uses := map[*Term]int{}
	for _, t := range order {
		for _, a := range t.Args {
			uses[a]++
		}
	}
	var pr func(t *Term) string
	pr = func(t *Term) string {
		if d, ok := defined[t]; ok {
			return d
		}
		switch t.Op {
		case "const":
			return symq(t.Name)
		case "bound":
			return symq(t.Name)
		case "int":
			if strings.HasPrefix(t.Name, "-") {
				return "(- " + t.Name[1:] + ")"
			}
			return t.Name
		case "real":
			r := ratOf(t)
			num, den := r.Num().String(), r.Denom().String()
			s := num + ".0"
			if strings.HasPrefix(num, "-") {
				s = "(- " + num[1:] + ".0)"
			}
			if den != "1" {
				s = "(/ " + s + " " + den + ".0)"
			}
			return s
		case "true", "false":
			return t.Op
		case "str":
			return fmt.Sprintf("s!%d", t.id)
		}
		var as []string
		for _, a := range t.Args {
			as = append(as, pr(a))
		}
		switch t.Op {
		case "app":
			if len(as) == 0 {
				return symq(t.Name)
			}
			return "(" + symq(t.Name) + " " + strings.Join(as, " ") + ")"
		case "concat":
			s := as[len(as)-1]
			for i := len(as) - 2; i >= 0; i-- {
				s = "(concat " + as[i] + " " + s + ")"
			}
			return s
		case "constarr":
			return "((as const " + string(t.S) + ") " + as[0] + ")"
		case "forall":
			vars := t.Args[1:]
			trig := ""
			if t.Name == "trig" {
				trig = as[1]
				vars = t.Args[2:]
			}
			var vs []string
			for _, v := range vars {
				vs = append(vs, "("+symq(v.Name)+" "+string(v.S)+")")
			}
			body := as[0]
			if trig != "" {
				body = "(! " + body + " :pattern (" + trig + "))"
			}
			return "(forall (" + strings.Join(vs, " ") + ") " + body + ")"
		}
		return "(" + t.Op + " " + strings.Join(as, " ") + ")"
	}
	for _, t := range order {
		if len(t.Args) == 0 || t.hasBound || uses[t] < 2 {
			continue
		}
		s := pr(t)
		n := fmt.Sprintf("t!%d", t.id)
		fmt.Fprintf(&sb, "(define-fun %s () %s %s)\n", n, t.S, s)
		defined[t] = n
	}
	for _, f := range facts {
		fmt.Fprintf(&sb, "(assert %s)\n", pr(f))
	}
	return sb.String()
}

// ---------------------------------------------------------------- processes

type solver struct {
	kind string // z3-new, z3, cvc5
	cmd  *exec.Cmd
	in   io.WriteCloser
	out  *bufio.Reader
}

func startSolver(kind string) (*solver, error) {
	var cmd *exec.Cmd
	switch kind {
	case "cvc5":
		cmd = exec.Command("cvc5", "--lang=smt2", "--incremental", "--arrays-exp")
	default:
		cmd = exec.Command(kind, "-in", "-smt2")
	}
	in, err := cmd.StdinPipe()
	if err != nil {
		return nil, err
	}
	out, err := cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	if err := cmd.Start(); err != nil {
		return nil, err
	}
	return &solver{kind, cmd, in, bufio.NewReaderSize(out, 1<<16)}, nil
}

func (s *solver) kill() {
	s.in.Close()
	s.cmd.Process.Kill()
	s.cmd.Wait()
}

// ask runs one query in a fresh solver context; model text only for Sat.
func (s *solver) ask(q string, timeout time.Duration, wantModel bool) (Result, string, error) {
	var sb strings.Builder
	sb.WriteString("(reset)\n")
	if s.kind == "cvc5" {
		sb.WriteString("(set-logic ALL)\n")
		fmt.Fprintf(&sb, "(set-option :tlimit-per %d)\n", timeout.Milliseconds())
	} else {
		fmt.Fprintf(&sb, "(set-option :timeout %d)\n(set-option :smt.random_seed 1)\n", timeout.Milliseconds())
		if wantModel {
			sb.WriteString("(set-option :produce-models true)\n")
		}
	}
	sb.WriteString(q)
	sb.WriteString("(check-sat)\n(echo \"<<done>>\")\n")
	type ans struct {
		res  Result
		text string
		err  error
	}
	ch := make(chan ans, 1)
	go func() {
		if _, err := io.WriteString(s.in, sb.String()); err != nil {
			ch <- ans{Unknown, "", err}
			return
		}
		res := Unknown
		var errs []string
		for {
			l, err := s.out.ReadString('\n')
			if err != nil {
				ch <- ans{Unknown, strings.Join(errs, "\n"), err}
				return
			}
			l = strings.TrimSpace(l)
			switch {
			case l == "sat":
				res = Sat
			case l == "unsat":
				res = Unsat
			case strings.Trim(l, "\"") == "<<done>>":
				if len(errs) > 0 {
					res = Unknown
				}
				ch <- ans{res, strings.Join(errs, "\n"), nil}
				return
			case strings.HasPrefix(l, "(error"):
				errs = append(errs, l)
			}
		}
	}()
	select {
	case a := <-ch:
		if a.text != "" && a.res != Unsat {
			return Unknown, a.text, a.err
		}
		if a.text != "" {
			return Unknown, a.text, fmt.Errorf("solver error: %s", a.text)
		}
		if a.err == nil && a.res == Sat && wantModel {
			m := s.model(timeout)
			return a.res, m, nil
		}
		return a.res, a.text, a.err
	case <-time.After(timeout + 5*time.Second):
		return Unknown, "timeout", fmt.Errorf("solver hung")
	}
}

func (s *solver) model(timeout time.Duration) string {
	ch := make(chan string, 1)
	go func() {
		io.WriteString(s.in, "(get-model)\n(echo \"<<done>>\")\n")
		var sb strings.Builder
		for {
			l, err := s.out.ReadString('\n')
			if err != nil || strings.Trim(strings.TrimSpace(l), "\"") == "<<done>>" {
				break
			}
			sb.WriteString(l)
		}
		ch <- sb.String()
	}()
	select {
	case m := <-ch:
		return m
	case <-time.After(timeout):
		return ""
	}
}

type Pool struct {
	kind string
	ch   chan *solver
	mu   sync.Mutex
	memo map[[32]byte]memoRes
	// statistics
	Queries int
	Time    time.Duration
}

type memoRes struct {
	r     Result
	model string
}

func newPool(kind string, n int) *Pool {
	p := &Pool{kind: kind, ch: make(chan *solver, n), memo: map[[32]byte]memoRes{}}
	for i := 0; i < n; i++ {
		p.ch <- nil
	}
	return p
}

var slowQ = os.Getenv("GOCV_SLOW") != ""

func (p *Pool) Ask(q string, timeout time.Duration, wantModel bool) (Result, string, time.Duration) {
	h := sha256.Sum256([]byte(q))
	p.mu.Lock()
	if r, ok := p.memo[h]; ok && (!wantModel || r.r != Sat || r.model != "") {
		p.mu.Unlock()
		return r.r, r.model, 0
	}
	p.mu.Unlock()
	s := <-p.ch
	t0 := time.Now()
	var r Result
	var m string
	for try := 0; try < 2; try++ {
		if s == nil {
			var err error
			s, err = startSolver(p.kind)
			if err != nil {
				m = err.Error()
				break
			}
		}
		var err error
		r, m, err = s.ask(q, timeout, wantModel)
		if err == nil {
			break
		}
		s.kill()
		s = nil
		if strings.HasPrefix(err.Error(), "solver error") || strings.HasPrefix(err.Error(), "solver hung") {
			break
		}
	}
	p.ch <- s
	d := time.Since(t0)
	if slowQ && d > 500*time.Millisecond {
		n := fmt.Sprintf("/tmp/slow%d.smt2", p.Queries)
		os.WriteFile(n, []byte(q), 0o644)
		fmt.Printf("slow query %v %v %s\n", d, r, n)
	}
	p.mu.Lock()
	p.Queries++
	p.Time += d
	p.memo[h] = memoRes{r, m}
	p.mu.Unlock()
	return r, m, d
}

func (p *Pool) Close() {
	for i := 0; i < cap(p.ch); i++ {
		if s := <-p.ch; s != nil {
			s.kill()
		}
	}
}

// symq: a name as a quoted symbol
func symq(n string) string {
	return "|" + strings.ReplaceAll(strings.ReplaceAll(n, "|", "/"), "\\", "/") + "|"
}
