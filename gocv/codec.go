package main

// The codec contracts: what MarshalJSON and UnmarshalJSON of a message type do,
// expanded from the table of its schema properties.

import (
	"go/types"
)

type codecField struct {
	CodecProp
	fv    *types.Var
	index int
}

func (v *Verifier) codecType(con *Contract) (*types.Named, *types.Struct, []codecField) {
	env := &Env{ex: v.ex, pos: con.Pos}
	t := env.resolveType(parseExpr(con.Codec.Type, con.Pos))
	nt := t.(*types.Named)
	st := nt.Underlying().(*types.Struct)
	var out []codecField
	for _, p := range con.Codec.Props {
		f := codecField{CodecProp: p, index: -1}
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == p.Field {
				f.fv, f.index = st.Field(i), i
			}
		}
		if f.index < 0 {
			panic(unsupported("%s has no field %s", nt, p.Field))
		}
		out = append(out, f)
	}
	return nt, st, out
}

func (v *Verifier) codec(con *Contract) {
	nt, _, fields := v.codecType(con)
	ex := v.ex
	if v.prop == "C01" {
		v.marshal(con, nt, fields)
	} else {
		v.unmarshal(con, nt, fields)
		if v.prop == "C03" {
			v.roundtrip(con, nt, fields)
		}
	}
	_ = ex
}

func timeTexts(t *Term) []*Term {
	var out []*Term
	for _, x := range []*Term{t, App("timeutc", STime, t)} {
		for _, l := range []string{"2006-01-02T15:04:05Z07:00", "2006-01-02T15:04:05.999999999Z07:00"} {
			out = append(out, App("Jstr", SJ, App("timefmt", SStr, x, StrLit(l))))
		}
		out = append(out, App("enctime", SJ, x))
	}
	return out
}

// encodings: the values a property may carry for a field, and whether it can be encoded
func (ex *Exec) encodings(st *State, f codecField, val Value) ([]*Term, *Term) {
	t := f.fv.Type()
	if f.Kind == "time" {
		if p, ok := val.(*Ptr); ok {
			isnil := Eq(p.term(), IntLit(0))
			x := ex.load(st, p, t.Underlying().(*types.Pointer).Elem()).(*Term)
			var out []*Term
			for _, e := range timeTexts(x) {
				out = append(out, Ite(isnil, jnull(), e))
			}
			return out, Or(isnil, App("timeok", SBool, x))
		}
		x := val.(*Term)
		return timeTexts(x), App("timeok", SBool, x)
	}
	j, ok := ex.encodeA(st, val, t, true, 0)
	return []*Term{j}, ok
}

func (ex *Exec) methodOf(nt *types.Named, name string) *types.Func {
	return hasMethod(types.NewPointer(nt), name)
}

func (v *Verifier) codecStart(con *Contract, nt *types.Named) (*State, *Ptr) {
	ex := v.ex
	st := ex.startState()
	m := ex.freshValue(st, "m", types.NewPointer(nt)).(*Ptr)
	st.assume(Ne(m.term(), IntLit(0)))
	ex.hooks = nil
	ex.curVars = map[string]TV{"m": {m, types.NewPointer(nt)}}
	return st, m
}

func (v *Verifier) marshal(con *Contract, nt *types.Named, fields []codecField) {
	ex := v.ex
	c01 := []string{"C01"}
	ex.curProps = c01
	st, m := v.codecStart(con, nt)
	entry := st.clone()
	ex.entry = entry
	sv := ex.load(entry, m, nt).(*StructV)
	verdict := func(s *State, ok, j, jerr *Term) {
		pos := nt.Obj().Pos()
		if ok != False {
			chk := func(label string, goal *Term) {
				ex.check(s, Imp(ok, goal), "ensures", label, c01, pos)
			}
			chk("the result is one well-formed JSON object without duplicate properties", And(jerr, jisobj(j), Not(App("jdup", SBool, j))))
			var known []*Term
			k := BoundVar("k", SStr)
			for _, f := range fields {
				key := StrLit(f.Name)
				known = append(known, Eq(k, key))
				val := sv.Fields[f.index]
				encs, _ := ex.encodings(entry, f, val)
				var alts []*Term
				for _, e := range encs {
					alts = append(alts, Eq(jget(j, key), e))
				}
				chk("property "+f.Name+" carries the value of field "+f.Field, Imp(jhas(j, key), Or(alts...)))
				if f.Required {
					chk("required property "+f.Name+" is present", jhas(j, key))
					if p, isp := val.(*Ptr); isp && f.Kind == "obj" {
						chk("encoding without the required object "+f.Name+" fails", Ne(p.term(), IntLit(0)))
					}
				} else {
					empty := ex.jsonEmptyAny(entry, val, f.fv.Type())
					chk("property "+f.Name+" is left out only if its field is unset", Or(jhas(j, key), empty))
				}
			}
			chk("no property but the schema's appears", Forall(Imp(jhas(j, k), Or(known...)), k))
		}
		if ok != True {
			var why []*Term
			for _, f := range fields {
				val := sv.Fields[f.index]
				_, can := ex.encodings(entry, f, val)
				why = append(why, Not(can))
				if p, isp := val.(*Ptr); isp && f.Kind == "obj" && f.Required {
					why = append(why, Eq(p.term(), IntLit(0)))
				}
			}
			ex.check(s, Or(append(why, ok)...), "ensures", "it fails only if a required object is missing or a value cannot be encoded", c01, pos)
		}
	}
	mf := ex.methodOf(nt, "MarshalJSON")
	if mf == nil {
		ex.returns++
		j, ok := ex.encodeA(entry, sv, nt, true, 0)
		verdict(st, ok, j, True)
		return
	}
	fn := ex.prog.FuncValue(mf)
	if fn == nil || len(fn.Blocks) == 0 || len(fn.Params) != 1 {
		panic(unsupported("%s.MarshalJSON", nt))
	}
	recv := Value(m)
	if _, isPtr := fn.Params[0].Type().(*types.Pointer); !isPtr {
		recv = sv
	}
	ex.pushFrame(st, fn, []Value{recv}, nil, nil)
	ex.run(st, &sink{ret: func(s *State, res []Value) {
		ex.returns++
		b := ex.term(res[0])
		err := res[1].(*IfaceV)
		verdict(s, Eq(err.Tag, IntLit(0)), jval(b), jok(b))
		e := &Env{ex: ex, st: s, old: entry, vars: ex.curVars, pos: con.Pos}
		fc := *con
		fc.Props, fc.Modifies = c01, nil
		v.frame(&fc, s, entry, e, fn)
	}})
	v.reached(con, c01)
}

func (v *Verifier) reached(con *Contract, props []string) {
	if v.ex.returns == 0 {
		v.ex.obls = append(v.ex.obls, &Obligation{Func: con.Func, Kind: "vacuous", Label: "a return is reachable", Goal: False, Props: props})
	}
}

func (ex *Exec) jsonEmptyAny(st *State, v Value, t types.Type) *Term {
	if namedPath(t) == "time.Time" {
		return App("timezero", SBool, v.(*Term))
	}
	return ex.jsonEmpty(st, v, t)
}

func (v *Verifier) unmarshal(con *Contract, nt *types.Named, fields []codecField) {
	ex := v.ex
	c02, c03 := []string{"C02"}, []string{"C03"}
	ex.curProps = c02
	st, m := v.codecStart(con, nt)
	b := ex.freshValue(st, "b", types.NewSlice(types.Typ[types.Byte])).(*Term)
	entry := st.clone()
	ex.entry = entry
	mf := ex.methodOf(nt, "UnmarshalJSON")
	if mf == nil {
		panic(unsupported("%s has no UnmarshalJSON", nt))
	}
	fn := ex.prog.FuncValue(mf)
	if fn == nil || len(fn.Blocks) == 0 || len(fn.Params) != 2 {
		panic(unsupported("%s.UnmarshalJSON", nt))
	}
	j := jval(b)
	k := BoundVar("k", SStr)
	var known []*Term
	conds := []*Term{jok(b), Or(jisobj(j), jisnull(j))}
	for _, f := range fields {
		key := StrLit(f.Name)
		known = append(known, Eq(k, key))
		conds = append(conds, Imp(jhas(j, key), decok(jget(j, key), f.fv.Type())))
		if f.Required {
			conds = append(conds, jhas(j, key))
		}
	}
	strict := Forall(Imp(jhas(j, k), Or(known...)), k)
	ex.pushFrame(st, fn, []Value{m, b}, nil, nil)
	ex.run(st, &sink{ret: func(s *State, res []Value) {
		ex.returns++
		err := res[0].(*IfaceV)
		ok := Eq(err.Tag, IntLit(0))
		pos := nt.Obj().Pos()
		if ok != False {
			chk := func(label string, goal *Term, props []string) {
				ex.check(s, Imp(ok, goal), "ensures", label, props, pos)
			}
			chk("accepted input is a JSON object or null", And(conds[:2]...), c02)
			for _, f := range fields {
				key := StrLit(f.Name)
				if f.Required {
					chk("accepted input has the required property "+f.Name, jhas(j, key), c02)
				}
				chk("property "+f.Name+" of accepted input decodes", Imp(jhas(j, key), decok(jget(j, key), f.fv.Type())), c02)
			}
			if con.Codec.Strict {
				chk("accepted input has no property the schema does not define", strict, c02)
			}
			for _, f := range fields {
				key := StrLit(f.Name)
				fp := ex.fieldOf(m, f)
				ls := leavesOf(f.fv.Type())
				var old, now []*Term
				for _, l := range ls {
					old = append(old, entry.loadLeaf(fp, l))
					now = append(now, s.loadLeaf(fp, l))
				}
				dec := decleaves(jget(j, key), f.fv.Type(), old)
				var cs []*Term
				for i := range ls {
					cs = append(cs, Eq(now[i], Ite(jhas(j, key), dec[i], old[i])))
				}
				chk("field "+f.Field+" holds the decoded property "+f.Name+", or its previous value", And(cs...), c03)
			}
			if hasProp(c03, v.prop) {
				e := &Env{ex: ex, st: s, old: entry, vars: ex.curVars, pos: con.Pos}
				fc := *con
				fc.Props, fc.Modifies = c03, []string{"m"}
				v.frame(&fc, s, entry, e, fn)
			}
		}
		if ok != True {
			all := append([]*Term{}, conds...)
			if con.Codec.Strict {
				all = append(all, strict)
			}
			ex.check(s, Or(ok, Not(And(all...))), "ensures", "input that fits the schema is accepted", c02, pos)
		}
	}})
	v.reached(con, []string{v.prop})
}

func (ex *Exec) fieldOf(m *Ptr, f codecField) *Ptr {
	return &Ptr{Base: m.Base, Root: m.Root, Path: m.Path + "." + f.fv.Name(), Typ: f.fv.Type()}
}

// roundtrip: decoding what the encoding contract allows gives the field back (scalar fields;
// nested values by the contracts of their own types)
func (v *Verifier) roundtrip(con *Contract, nt *types.Named, fields []codecField) {
	ex := v.ex
	c03 := []string{"C03"}
	st, m := v.codecStart(con, nt)
	sv := ex.load(st, m, nt).(*StructV)
	for _, f := range fields {
		val := sv.Fields[f.index]
		t := f.fv.Type()
		if _, isb := t.Underlying().(*types.Basic); !isb {
			continue
		}
		j, _ := ex.encodeA(st, val, t, true, 0)
		x := ex.term(val)
		old := zeroTerm(x.S)
		d := decleaves(j, t, []*Term{old})
		present := And(decok(j, t), Eq(d[0], x))
		absent := Imp(ex.jsonEmptyAny(st, val, t), Eq(old, x))
		ex.check(st, And(present, absent), "lemma", "decoding the encoded "+f.Name+" restores field "+f.Field, c03, nt.Obj().Pos())
	}
}
