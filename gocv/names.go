package main

// Names. Contracts name functions, fields and unexported types of the repository. A tree in which
// some of them merely have other names is verified under the names the contracts use: what was
// renamed is found by comparing the declarations with contracts/names.txt, and the identifiers
// (as the type checker resolves them) are renamed back before the program is lowered. The result
// is the same program up to the names; a pairing that is wrong can only make a proof fail.

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
)

func loadPackages(dir string, overlay map[string][]byte) ([]*packages.Package, error) {
	cfg := &packages.Config{Mode: packages.LoadSyntax | packages.NeedModule, Dir: dir, Overlay: overlay, Env: append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local")}
	ps, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	for _, p := range ps {
		for _, e := range p.Errors {
			return nil, fmt.Errorf("%s", e)
		}
	}
	return ps, nil
}

// renamed: what was renamed back, for the evidence
var renamed []string

// loadCanonical loads the tree under the names that the contracts use
func loadCanonical(dir, baseline string) ([]*packages.Package, error) {
	ps, err := loadPackages(dir, nil)
	if err != nil {
		return nil, err
	}
	b, err := os.ReadFile(baseline)
	if err != nil {
		return ps, nil
	}
	base := parseDecls(string(b))
	overlay := map[string][]byte{}
	for round := 0; round < 4; round++ {
		now := declsOf(ps)
		ren := matchDecls(base, now)
		if len(ren) == 0 {
			break
		}
		next := map[string][]byte{}
		for k, v := range overlay {
			next[k] = v
		}
		done := applyRenames(ps, ren, next)
		if len(done) == 0 {
			break
		}
		qs, err := loadPackages(dir, next)
		if err != nil {
			break // stay with what there is
		}
		ps, overlay = qs, next
		renamed = append(renamed, done...)
	}
	return ps, nil
}

type decl struct {
	kind, owner, name, sig string
	calls                  []string
	obj                    types.Object
	order                  int
}

func (d *decl) key() string { return d.kind + "\t" + d.owner + "\t" + d.name }

func parseDecls(s string) []*decl {
	var out []*decl
	for i, l := range strings.Split(s, "\n") {
		fs := strings.Split(l, "\t")
		if len(fs) != 5 {
			continue
		}
		d := &decl{kind: fs[0], owner: fs[1], name: fs[2], sig: fs[3], order: i}
		if fs[4] != "" {
			d.calls = strings.Split(fs[4], ",")
		}
		out = append(out, d)
	}
	return out
}

// declsOf lists the declarations that are not part of the API
func declsOf(ps []*packages.Package) []*decl {
	var out []*decl
	for _, p := range ps {
		if strings.Contains(p.PkgPath, "/example") || strings.Contains(p.PkgPath, "/messages") {
			continue
		}
		var ds []*decl
		add := func(kind, owner string, o types.Object, sig string, calls []string) {
			if o.Name() == "_" || o.Name() == "init" || o.Name() == "main" {
				return
			}
			ds = append(ds, &decl{kind: kind, owner: owner, name: o.Name(), sig: sig, calls: calls, obj: o, order: int(o.Pos())})
		}
		sc := p.Types.Scope()
		for _, n := range sc.Names() {
			switch o := sc.Lookup(n).(type) {
			case *types.TypeName:
				if o.IsAlias() {
					continue
				}
				var sig []string
				st, isStruct := o.Type().Underlying().(*types.Struct)
				if isStruct {
					for i := 0; i < st.NumFields(); i++ {
						sig = append(sig, st.Field(i).Name())
					}
					sort.Strings(sig)
				} else {
					sig = []string{types.TypeString(o.Type().Underlying(), qual)}
				}
				if !o.Exported() && isStruct {
					add("type", p.Types.Name(), o, "struct", sig)
				}
				if !o.Exported() && !isStruct {
					add("type", p.Types.Name(), o, sig[0], sig)
				}
				if isStruct {
					for i := 0; i < st.NumFields(); i++ {
						f := st.Field(i)
						if f.Exported() || f.Embedded() { // exported names are part of the encodings
							continue
						}
						add("field", p.Types.Name()+"."+o.Name(), f, types.TypeString(f.Type(), qual)+reflectTag(st.Tag(i)), nil)
					}
				}
			case *types.Var:
				if !o.Exported() {
					add("var", p.Types.Name(), o, types.TypeString(o.Type(), qual), nil)
				}
			}
		}
		for _, f := range p.Syntax {
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Body == nil || fd.Name.IsExported() {
					continue
				}
				o, ok := p.TypesInfo.Defs[fd.Name].(*types.Func)
				if !ok {
					continue
				}
				sig := o.Type().(*types.Signature)
				owner := p.Types.Name()
				if r := sig.Recv(); r != nil {
					owner = types.TypeString(r.Type(), qual)
				}
				calls := map[string]bool{}
				ast.Inspect(fd.Body, func(n ast.Node) bool {
					if c, ok := n.(*ast.CallExpr); ok {
						switch x := c.Fun.(type) {
						case *ast.Ident:
							calls[x.Name] = true
						case *ast.SelectorExpr:
							calls[x.Sel.Name] = true
						}
					}
					return true
				})
				var cs []string
				for c := range calls {
					cs = append(cs, c)
				}
				sort.Strings(cs)
				add("func", owner, o, sigString(sig), cs)
			}
		}
		sort.SliceStable(ds, func(i, j int) bool { return ds[i].order < ds[j].order })
		out = append(out, ds...)
	}
	return out
}

func reflectTag(t string) string {
	if t == "" {
		return ""
	}
	return " " + strings.ReplaceAll(t, "\t", " ")
}

// the types of the parameters and results, without their names
func sigString(s *types.Signature) string {
	tup := func(t *types.Tuple) string {
		var out []string
		for i := 0; i < t.Len(); i++ {
			out = append(out, types.TypeString(t.At(i).Type(), qual))
		}
		return "(" + strings.Join(out, ", ") + ")"
	}
	v := ""
	if s.Variadic() {
		v = "..."
	}
	return tup(s.Params()) + v + tup(s.Results())
}

func printDecls(dir string) error {
	ps, err := loadPackages(dir, nil)
	if err != nil {
		return err
	}
	for _, d := range declsOf(ps) {
		fmt.Printf("%s\t%s\t%s\t%s\t%s\n", d.kind, d.owner, d.name, d.sig, strings.Join(d.calls, ","))
	}
	return nil
}

// matchDecls: object -> the name it had
func matchDecls(base, now []*decl) map[types.Object]string {
	has, had := map[string]bool{}, map[string]bool{}
	for _, d := range now {
		has[d.key()] = true
	}
	for _, d := range base {
		had[d.key()] = true
	}
	group := func(ds []*decl, known map[string]bool) map[string][]*decl {
		out := map[string][]*decl{}
		for _, d := range ds {
			if !known[d.key()] {
				k := d.kind + "\t" + d.owner + "\t" + d.sig
				out[k] = append(out[k], d)
			}
		}
		return out
	}
	lost, found := group(base, has), group(now, had)
	ren := map[types.Object]string{}
	for _, kinds := range [][]string{{"type"}, {"field", "var", "func"}} {
		for k, ls := range lost {
			kind, _, _ := strings.Cut(k, "\t")
			if kind != kinds[0] && (len(kinds) < 3 || kind != kinds[1] && kind != kinds[2]) {
				continue
			}
			fs := found[k]
			if kind == "func" || kind == "type" {
				for _, l := range ls {
					var best *decl
					n := 0
					for _, f := range fs {
						if similar(l.calls, f.calls) {
							best = f
							n++
						}
					}
					if n == 1 && ren[best.obj] == "" {
						ren[best.obj] = l.name
					}
				}
				continue
			}
			if len(fs) != len(ls) {
				continue
			}
			for i, l := range ls {
				ren[fs[i].obj] = l.name
			}
		}
		if len(ren) > 0 {
			return ren // the rest once the types have their names
		}
	}
	return ren
}

func similar(a, b []string) bool {
	in := map[string]bool{}
	for _, x := range a {
		in[x] = true
	}
	common := 0
	for _, x := range b {
		if in[x] {
			common++
		}
	}
	union := len(a) + len(b) - common
	return union > 0 && 2*common >= union
}

func applyRenames(ps []*packages.Package, ren map[types.Object]string, files map[string][]byte) []string {
	// objects by place: packages may have copies of each other's objects
	type use struct {
		from, to int
		name     string
	}
	place := func(p *packages.Package, pos token.Pos) string { return p.Fset.Position(pos).String() }
	want := map[string]string{}
	for o, n := range ren {
		for _, p := range ps {
			if p.Types == o.Pkg() {
				want[place(p, o.Pos())] = n
			}
		}
	}
	blocked := map[string]bool{}
	uses := map[string]map[string][]use{} // place of the object -> file -> uses
	names := map[string]string{}
	for _, p := range ps {
		visit := func(id *ast.Ident, o types.Object) {
			if o == nil || o.Pkg() == nil {
				return
			}
			at := place(p, o.Pos())
			n, ok := want[at]
			if v, isV := o.(*types.Var); isV && v.Embedded() {
				// an embedded field has the name of its type
				nt := types.Unalias(v.Type())
				if pt, isP := nt.(*types.Pointer); isP {
					nt = types.Unalias(pt.Elem())
				}
				named, isN := nt.(*types.Named)
				if !isN {
					return
				}
				at = place(p, named.Obj().Pos())
				n, ok = want[at]
			}
			if !ok || id.Name == n {
				return
			}
			if _, isF := o.(*types.Var); !isF || !o.(*types.Var).IsField() {
				if fn, isFn := o.(*types.Func); !isFn || fn.Type().(*types.Signature).Recv() == nil {
					// nothing of the old name may be in the way
					if s := p.Types.Scope().Innermost(id.Pos()); s != nil {
						if _, x := s.LookupParent(n, id.Pos()); x != nil {
							blocked[at] = true
						}
					}
				}
			}
			if uses[at] == nil {
				uses[at] = map[string][]use{}
			}
			ps := p.Fset.Position(id.Pos())
			names[at] = id.Name
			uses[at][ps.Filename] = append(uses[at][ps.Filename], use{ps.Offset, ps.Offset + len(id.Name), n})
		}
		for id, o := range p.TypesInfo.Defs {
			visit(id, o)
		}
		for id, o := range p.TypesInfo.Uses {
			visit(id, o)
		}
	}
	edits := map[string][]use{}
	var done []string
	for at, byFile := range uses {
		if blocked[at] {
			continue
		}
		done = append(done, fmt.Sprintf("%s is %s", names[at], want[at]))
		for f, us := range byFile {
			edits[f] = append(edits[f], us...)
		}
	}
	sort.Strings(done)
	for f, us := range edits {
		src, ok := files[f]
		if !ok {
			b, err := os.ReadFile(f)
			if err != nil {
				return nil
			}
			src = b
		}
		sort.Slice(us, func(i, j int) bool { return us[i].from > us[j].from })
		last := -1
		for _, u := range us {
			if u.from == last {
				continue
			}
			last = u.from
			src = append(append(append([]byte{}, src[:u.from]...), u.name...), src[u.to:]...)
		}
		files[f] = src
	}
	return done
}
