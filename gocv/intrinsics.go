package main

// Models of library functions. Everything here is part of the trusted base.

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"golang.org/x/tools/go/ssa"
	"net/textproto"
	"strings"
)

type astExpr = ast.Expr
type astCall = *ast.CallExpr

type intrinsic func(ex *Exec, st *State, cc *callCtx, a []Value) ([]*State, bool)

func strLen(t *Term) *Term {
	if t.Op == "concat" {
		n := IntLit(0)
		for _, p := range t.Args {
			n = Add(n, strLen(p))
		}
		return n
	}
	return App("strlen", SInt, t)
}

func one(f func(ex *Exec, st *State, cc *callCtx, a []Value) Value) intrinsic {
	return func(ex *Exec, st *State, cc *callCtx, a []Value) ([]*State, bool) {
		v := f(ex, st, cc, a)
		if st.dead {
			return nil, true
		}
		if v == nil {
			ex.finish(st, cc)
		} else if tv, ok := v.(TupleV); ok {
			ex.finish(st, cc, tv...)
		} else {
			ex.finish(st, cc, v)
		}
		return nil, st.dead
	}
}

var intrinsics map[string]intrinsic

func bufPtr(p *Ptr) (*Ptr, Leaf) {
	return p, Leaf{".buf", SStr}
}

func (ex *Exec) bufGet(st *State, p *Ptr) *Term {
	q, l := bufPtr(p)
	return st.loadLeaf(q, l)
}

func (ex *Exec) bufAdd(st *State, v Value, t *Term, cc *callCtx) {
	p := ex.deref(st, v, cc.pos)
	q, l := bufPtr(p)
	st.storeLeaf(q, l, Concat(st.loadLeaf(q, l), t))
}

func init() {
	I := map[string]intrinsic{}
	intrinsics = I

	// ---- errors and formatting
	I["errors.New"] = one(func(ex *Exec, st *State, cc *callCtx, a []Value) Value {
		return ex.mkError(st, "errors", ex.term(a[0]))
	})
	I["fmt.Errorf"] = one(func(ex *Exec, st *State, cc *callCtx, a []Value) Value {
		return ex.mkError(st, "fmt", ex.formatText(st, ex.term(a[0]), a[1].(*SliceV)))
	})
	I["fmt.Sprintf"] = one(func(ex *Exec, st *State, cc *callCtx, a []Value) Value {
		return ex.formatText(st, ex.term(a[0]), a[1].(*SliceV))
	})
	for _, n := range []string{"fmt.Sprint", "fmt.Sprintln"} {
		n := n
		I[n] = one(func(ex *Exec, st *State, cc *callCtx, a []Value) Value {
			s := a[0].(*SliceV)
			if s.Len.isInt() && s.Len.intVal() == 1 && n == "fmt.Sprint" {
				return ex.formatText(st, StrLit("%v"), s)
			}
			return Fresh("sprint", SStr)
		})
	}

	// ---- bytes and strings
	I["bytes.NewBuffer"] = one(func(ex *Exec, st *State, cc *callCtx, a []Value) Value {
		t := cc.sig.Results().At(0).Type().(*types.Pointer).Elem()
		p := ex.newObject(st, t)
		st.storeLeaf(p, Leaf{".buf", SStr}, ex.term(a[0]))
		return p
	})
	I["bytes.NewBufferString"] = I["bytes.NewBuffer"]
	I["bytes.NewReader"] = one(func(ex *Exec, st *State, cc *callCtx, a []Value) Value {
		t := cc.sig.Results().At(0).Type().(*types.Pointer).Elem()
		p := ex.newObject(st, t)
		st.storeLeaf(p, Leaf{".s", SStr}, ex.term(a[0]))
		return p
	})
	I["strings.NewReader"] = I["bytes.NewReader"]
	write := func(ex *Exec, st *State, cc *callCtx, a []Value) Value {
		t := ex.term(a[1])
		ex.bufAdd(st, a[0], t, cc)
		return TupleV{strLen(t), nilIface()}
	}
	for _, b := range []string{"(*bytes.Buffer)", "(*strings.Builder)"} {
		I[b+".Write"] = one(write)
		I[b+".WriteString"] = one(write)
		I[b+".WriteByte"] = one(func(ex *Exec, st *State, cc *callCtx, a []Value) Value {
			c := ex.term(a[1])
			s := App("runestr", SStr, c)
			if c.isInt() && c.intVal() < 128 {
				s = StrLit(string(rune(c.intVal())))
			}
			ex.bufAdd(st, a[0], s, cc)
			return nilIface()
		})
		I[b+".WriteRune"] = one(func(ex *Exec, st *State, cc *callCtx, a []Value) Value {
			c := ex.term(a[1])
			s := App("runestr", SStr, c)
			if c.isInt() {
				s = StrLit(string(rune(c.intVal())))
			}
			ex.bufAdd(st, a[0], s, cc)
			return TupleV{strLen(s), nilIface()}
		})
		get := one(func(ex *Exec, st *State, cc *callCtx, a []Value) Value {
			return ex.bufGet(st, ex.deref(st, a[0], cc.pos))
		})
		I[b+".Bytes"] = get
		I[b+".String"] = get
		I[b+".Len"] = one(func(ex *Exec, st *State, cc *callCtx, a []Value) Value {
			return strLen(ex.bufGet(st, ex.deref(st, a[0], cc.pos)))
		})
		I[b+".Grow"] = one(func(ex *Exec, st *State, cc *callCtx, a []Value) Value { return nil })
		I[b+".Truncate"] = one(func(ex *Exec, st *State, cc *callCtx, a []Value) Value {
			p := ex.deref(st, a[0], cc.pos)
			n := ex.term(a[1])
			old := ex.bufGet(st, p)
			r := ex.substr(old, IntLit(0), n)
			ex.safe(st, And(Le(IntLit(0), n), Le(n, strLen(old))), "truncation in range", cc.pos)
			st.storeLeaf(p, Leaf{".buf", SStr}, r)
			return nil
		})
		I[b+".Reset"] = one(func(ex *Exec, st *State, cc *callCtx, a []Value) Value {
			p := ex.deref(st, a[0], cc.pos)
			st.storeLeaf(p, Leaf{".buf", SStr}, StrLit(""))
			return nil
		})
	}
	uf := func(name string) intrinsic {
		return one(func(ex *Exec, st *State, cc *callCtx, a []Value) Value {
			var ts []*Term
			for _, v := range a {
				ts = append(ts, ex.term(v))
			}
			s, _ := scalarSort(cc.sig.Results().At(0).Type())
			return App(name, s, ts...)
		})
	}
	I["strings.TrimPrefix"] = uf("trimprefix")
	I["bytes.TrimPrefix"] = uf("trimprefix")
	I["strings.TrimSuffix"] = uf("trimsuffix")
	I["strings.TrimSpace"] = uf("trimspace")
	I["bytes.TrimSpace"] = uf("trimspace")
	I["strings.Trim"] = uf("strtrim")
	I["strings.TrimLeft"] = uf("strtriml")
	I["strings.TrimRight"] = uf("strtrimr")
	I["strings.ToLower"] = uf("lower")
	I["strings.ToUpper"] = uf("upper")
	I["strings.HasPrefix"] = uf("hasprefix")
	I["strings.HasSuffix"] = uf("hassuffix")
	I["strings.Contains"] = uf("strcontains")
	I["strings.EqualFold"] = uf("equalfold")
	I["strings.Index"] = uf("strindex")
	I["strings.Repeat"] = uf("strrepeat")
	I["strings.Replace"] = uf("replace")
	I["bytes.Replace"] = uf("replace")
	I["strings.ReplaceAll"] = one(func(ex *Exec, st *State, cc *callCtx, a []Value) Value {
		return App("replace", SStr, ex.term(a[0]), ex.term(a[1]), ex.term(a[2]), IntLit(-1))
	})
	I["bytes.ReplaceAll"] = I["strings.ReplaceAll"]
	I["strings.Join"] = one(func(ex *Exec, st *State, cc *callCtx, a []Value) Value {
		s := a[0].(*SliceV)
		sep := ex.term(a[1])
		if s.Len.isInt() && s.Len.intVal() <= 16 {
			var parts []*Term
			for i := int64(0); i < s.Len.intVal(); i++ {
				if i > 0 {
					parts = append(parts, sep)
				}
				p := &Ptr{Base: s.Arr, Idx: Add(s.Off, IntLit(i)), Root: s.Elem, Typ: s.Elem}
				parts = append(parts, ex.term(ex.load(st, p, s.Elem)))
			}
			return Concat(parts...)
		}
		return Fresh("join", SStr)
	})
	I["strconv.Itoa"] = one(func(ex *Exec, st *State, cc *callCtx, a []Value) Value { return itoa(ex.term(a[0])) })
	I["strconv.Quote"] = uf("quote")

	// ---- time
	I["(time.Time).Format"] = uf("timefmt")
	I["(time.Time).IsZero"] = one(func(ex *Exec, st *State, cc *callCtx, a []Value) Value {
		return App("timezero", SBool, ex.term(a[0]))
	})
	I["(time.Time).UTC"] = one(func(ex *Exec, st *State, cc *callCtx, a []Value) Value {
		return App("timeutc", STime, ex.term(a[0]))
	})
	I["time.Now"] = one(func(ex *Exec, st *State, cc *callCtx, a []Value) Value { return Fresh("now", STime) })

	// ---- json
	I["encoding/json.Marshal"] = func(ex *Exec, st *State, cc *callCtx, a []Value) ([]*State, bool) {
		iv := a[0].(*IfaceV)
		j, ok := ex.encode(st, iv, tyAny)
		jtext := jenc(j)
		ex.ownEncoding(st, cc, iv, j, ok)
		return ex.fork2(st, ok, func(s *State) { ex.finish(s, cc, jtext, nilIface()) },
			func(s *State) { ex.finish(s, cc, StrLit(""), ex.newError(s, "json")) })
	}
	I["encoding/json.MarshalIndent"] = I["encoding/json.Marshal"]
	I["encoding/json.Unmarshal"] = func(ex *Exec, st *State, cc *callCtx, a []Value) ([]*State, bool) {
		return ex.jsonUnmarshal(st, ex.term(a[0]), a[1].(*IfaceV), func(s *State, err *IfaceV) { ex.finish(s, cc, err) })
	}
	I["encoding/json.Valid"] = one(func(ex *Exec, st *State, cc *callCtx, a []Value) Value { return jok(ex.term(a[0])) })

	// ---- sync
	lk := func(mode int64, un bool) intrinsic {
		return func(ex *Exec, st *State, cc *callCtx, a []Value) ([]*State, bool) {
			p, ok := a[0].(*Ptr)
			if !ok {
				panic(unsupported("lock of %T", a[0]))
			}
			if un {
				return ex.unlock(st, cc, p, mode)
			}
			return ex.lock(st, cc, p, mode)
		}
	}
	I["(*sync.Mutex).Lock"] = lk(1, false)
	I["(*sync.Mutex).Unlock"] = lk(1, true)
	I["(*sync.RWMutex).Lock"] = lk(1, false)
	I["(*sync.RWMutex).Unlock"] = lk(1, true)
	I["(*sync.RWMutex).RLock"] = lk(2, false)
	I["(*sync.RWMutex).RUnlock"] = lk(2, true)

	// ---- uuid
	I["github.com/google/uuid.New"] = one(func(ex *Exec, st *State, cc *callCtx, a []Value) Value {
		u := Fresh("uuid", SStr)
		if g, ok := st.ghost["uuids"]; ok {
			st.ghost["uuids"] = Store(g, App("uuidstr", SStr, u), True)
		}
		return u
	})
	I["(github.com/google/uuid.UUID).String"] = uf("uuidstr")
	I["github.com/google/uuid.NewString"] = one(func(ex *Exec, st *State, cc *callCtx, a []Value) Value {
		u := App("uuidstr", SStr, Fresh("uuid", SStr))
		if g, ok := st.ghost["uuids"]; ok {
			st.ghost["uuids"] = Store(g, u, True)
		}
		return u
	})

	// ---- reflect (only what the SOAP client needs)
	rv := Sort("RVal")
	I["reflect.ValueOf"] = one(func(ex *Exec, st *State, cc *callCtx, a []Value) Value {
		v := a[0].(*IfaceV)
		return App("rval", rv, v.Tag, ex.ifaceData(v))
	})
	rparts := func(ex *Exec, v Value) (*Term, *Term) {
		t := ex.term(v)
		if t.Op == "app" && t.Name == "rval" {
			return t.Args[0], t.Args[1]
		}
		panic(unsupported("reflection on a value of unknown origin"))
	}
	I["(reflect.Value).IsValid"] = one(func(ex *Exec, st *State, cc *callCtx, a []Value) Value {
		tag, _ := rparts(ex, a[0])
		return Ne(tag, IntLit(0))
	})
	I["(reflect.Value).Type"] = one(func(ex *Exec, st *State, cc *callCtx, a []Value) Value {
		tag, _ := rparts(ex, a[0])
		ex.safe(st, Ne(tag, IntLit(0)), "reflect.Value.Type of an invalid value", cc.pos)
		return &IfaceV{Tag: externTag("reflect.rtype"), Data: App("box!Int", SBox, tag)}
	})
	I["reflect.TypeOf"] = one(func(ex *Exec, st *State, cc *callCtx, a []Value) Value {
		v := a[0].(*IfaceV)
		isn := Eq(v.Tag, IntLit(0))
		return &IfaceV{Tag: Ite(isn, IntLit(0), externTag("reflect.rtype")), Data: Ite(isn, zeroBox, App("box!Int", SBox, v.Tag))}
	})
	I["(reflect.Value).Elem"] = one(func(ex *Exec, st *State, cc *callCtx, a []Value) Value {
		tag, data := rparts(ex, a[0])
		return App("relem", rv, tag, data)
	})
	I["(reflect.Value).IsNil"] = one(func(ex *Exec, st *State, cc *callCtx, a []Value) Value {
		tag, data := rparts(ex, a[0])
		ex.safe(st, Ne(tag, IntLit(0)), "reflect.Value.IsNil of an invalid value", cc.pos)
		return Eq(App("unbox!Int!0", SInt, data), IntLit(0))
	})
	I["(reflect.Value).Set"] = one(func(ex *Exec, st *State, cc *callCtx, a []Value) Value {
		x, y := ex.term(a[0]), ex.term(a[1])
		if x.Op != "app" || x.Name != "relem" || y.Op != "app" || y.Name != "relem" {
			panic(unsupported("reflect.Value.Set of other than pointees"))
		}
		rx, ry := App("unbox!Int!0", SInt, x.Args[1]), App("unbox!Int!0", SInt, y.Args[1])
		ex.safe(st, Eq(x.Args[0], y.Args[0]), "reflect.Value.Set between values of one type", cc.pos)
		ex.safe(st, And(Ne(rx, IntLit(0)), Ne(ry, IntLit(0))), "reflect.Value.Set through nil", cc.pos)
		g := st.ghostArr("copyof", SInt)
		st.ghost["copyof"] = Store(g, rx, ry)
		return nil
	})

	// ---- xml
	I["encoding/xml.Unmarshal"] = func(ex *Exec, st *State, cc *callCtx, a []Value) ([]*State, bool) {
		b := ex.term(a[0])
		iv := a[1].(*IfaceV)
		p, ok := ex.ifaceVal(iv).(*Ptr)
		if !ok || iv.Con == nil {
			panic(unsupported("xml.Unmarshal into a value of unknown type"))
		}
		t := p.Typ
		okc := App("xdecok!"+typeKey(t), SBool, b)
		return ex.fork2(st, okc, func(s *State) {
			ex.bumpAlloc(s)
			for _, l := range leavesOf(t) {
				s.storeLeaf(p, l, App("xdec!"+typeKey(t)+"!"+l.Path, l.S, b))
			}
			v := ex.load(s, p, t)
			ex.wellTyped(s, v, t)
			if con := ex.con.Funcs["xmlvalue "+typeKey(t)]; con != nil {
				env := &Env{ex: ex, st: s, vars: map[string]TV{con.Params[0]: {p, types.NewPointer(t)}, con.Params[1]: {b, nil}}, pos: con.Pos}
				for _, c := range con.Ensures {
					s.assume(env.bool(c.Expr))
				}
			}
			ex.finish(s, cc, nilIface())
		}, func(s *State) {
			for _, l := range leavesOf(t) {
				s.storeLeaf(p, l, Fresh("partial", l.S))
			}
			ex.finish(s, cc, ex.newError(s, "xml"))
		})
	}
	I["encoding/xml.NewEncoder"] = one(func(ex *Exec, st *State, cc *callCtx, a []Value) Value {
		t := cc.sig.Results().At(0).Type().(*types.Pointer).Elem()
		r := ex.newRef(st)
		g := st.ghostArr("xmlenc.w", SInt)
		st.ghost["xmlenc.w"] = Store(g, r, ex.ifaceRef(a[0].(*IfaceV)))
		if v := a[0].(*IfaceV); v.Con == nil || typeKey(v.Con) != "*bytes.Buffer" {
			panic(unsupported("xml encoder on other than a buffer"))
		}
		return &Ptr{Base: r, Root: t, Typ: t}
	})
	I["(*encoding/xml.Encoder).Encode"] = func(ex *Exec, st *State, cc *callCtx, a []Value) ([]*State, bool) {
		p := a[0].(*Ptr)
		ok := Fresh("xencok", SBool)
		return ex.fork2(st, ok, func(s *State) {
			txt := Fresh("xmltext", SStr)
			w := Select(s.ghostArr("xmlenc.w", SInt), p.Base)
			bt := ex.lookupObj("bytes", "Buffer").Type()
			bp := &Ptr{Base: w, Root: bt, Typ: bt}
			l := Leaf{".buf", SStr}
			s.storeLeaf(bp, l, Concat(s.loadLeaf(bp, l), txt))
			if _, ok := s.ghost["xmlout"]; ok {
				s.ghost["xmlout"] = txt
			}
			ex.finish(s, cc, nilIface())
		}, func(s *State) { ex.finish(s, cc, ex.newError(s, "xml")) })
	}
	I["encoding/xml.Marshal"] = func(ex *Exec, st *State, cc *callCtx, a []Value) ([]*State, bool) {
		ok := Fresh("xencok", SBool)
		return ex.fork2(st, ok, func(s *State) {
			txt := Fresh("xmltext", SStr)
			if _, ok := s.ghost["xmlout"]; ok {
				s.ghost["xmlout"] = txt
			}
			ex.finish(s, cc, txt, nilIface())
		}, func(s *State) { ex.finish(s, cc, StrLit(""), ex.newError(s, "xml")) })
	}
	I["(*encoding/xml.Encoder).Flush"] = one(func(ex *Exec, st *State, cc *callCtx, a []Value) Value {
		return ex.maybeError(st, "xml")
	})

	I["(encoding/xml.StartElement).End"] = one(func(ex *Exec, st *State, cc *callCtx, a []Value) Value {
		return &StructV{Typ: cc.sig.Results().At(0).Type(), Fields: []Value{a[0].(*StructV).Fields[0]}}
	})

	// ---- HTTP headers: maps with canonical keys
	for _, n := range []string{"Add", "Set", "Get"} {
		n := n
		I["(net/http.Header)."+n] = func(ex *Exec, st *State, cc *callCtx, a []Value) ([]*State, bool) {
			mt := cc.sig.Recv().Type().Underlying().(*types.Map)
			k := headerKey(ex.term(a[1]))
			m := ex.term(a[0])
			v, _ := ex.mapGet(st, m, mt, k)
			old := v.(*SliceV)
			if n == "Get" {
				l := leavesOf(old.Elem)[0]
				arr := Select(st.arr(heapKey(old.Elem, true, l.Path), elemArrSort(l.S)), old.Arr)
				ex.finish(st, cc, Ite(Lt(IntLit(0), old.Len), Select(arr, old.Off), StrLit("")))
				return nil, st.dead
			}
			ex.safe(st, Ne(m, IntLit(0)), "header map is not nil", cc.pos)
			one := &SliceV{ex.newRef(st), IntLit(0), IntLit(1), old.Elem}
			l := leavesOf(old.Elem)[0]
			hk := heapKey(old.Elem, true, l.Path)
			arr := st.arr(hk, elemArrSort(l.S))
			st.heap[hk] = Store(arr, one.Arr, Store(ConstArr(ArraySort(SInt, l.S), zeroTerm(l.S)), IntLit(0), ex.term(a[2])))
			var nv Value = one
			if n == "Add" {
				nv = ex.appendVal(st, old, one, mt.Elem(), cc.pos)
			}
			ex.mapStore(st, m, mt, k, nv)
			ex.finish(st, cc)
			return nil, st.dead
		}
	}

	// ---- timers
	I["time.After"] = one(func(ex *Exec, st *State, cc *callCtx, a []Value) Value {
		return ex.newTimer(st, ex.term(a[0]))
	})
	I["time.NewTimer"] = one(func(ex *Exec, st *State, cc *callCtx, a []Value) Value {
		ch := ex.newTimer(st, ex.term(a[0]))
		p := ex.newObject(st, cc.sig.Results().At(0).Type().(*types.Pointer).Elem())
		st.storeLeaf(p, Leaf{".C", SInt}, ch)
		return p
	})
	I["context.WithTimeout"] = one(func(ex *Exec, st *State, cc *callCtx, a []Value) Value {
		c := ex.freshValue(st, "timeoutctx", cc.sig.Results().At(0).Type()).(*IfaceV)
		f := ex.freshValue(st, "cancel", cc.sig.Results().At(1).Type())
		st.assume(Ne(c.Tag, IntLit(0)))
		st.assume(Ne(ex.term(f), IntLit(0)))
		done := App("pure!context.Context.Done!0!0", SInt, ex.flatten(c, cc.sig.Results().At(0).Type())...)
		st.ghost["chan.timer"] = Store(st.ghostArr("chan.timer", SInt), done, ex.term(a[1]))
		return TupleV{c, f}
	})

	// ---- registering an HTTP handler: the handler is an activation of its own
	I["net/http.HandleFunc"] = registers(0)
	I["(*net/http.ServeMux).HandleFunc"] = registers(1)
	I["net/http.Handle"] = registers(0)
	I["(*net/http.ServeMux).Handle"] = registers(1)
	serves := func(key string) intrinsic {
		return func(ex *Exec, st *State, cc *callCtx, a []Value) ([]*State, bool) {
			switch x := a[len(a)-1].(type) {
			case *IfaceV: // http.ListenAndServe
				ex.httpHandler(st, cc, x)
			case *Ptr: // (*http.Server).ListenAndServe
				u := x.Typ.Underlying().(*types.Struct)
				for i := 0; i < u.NumFields(); i++ {
					if u.Field(i).Name() == "Handler" {
						if iv, ok := ex.load(st, fieldPtr(x, u, i), u.Field(i).Type()).(*IfaceV); ok {
							ex.httpHandler(st, cc, iv)
						}
					}
				}
			}
			ex.unmodelled(st, cc, key)
			return nil, st.dead
		}
	}
	for _, k := range []string{"net/http.ListenAndServe", "(*net/http.Server).ListenAndServe"} {
		I[k] = serves(k)
	}
}

// registers: the handler given after n arguments and the pattern serves requests
func registers(n int) intrinsic {
	return func(ex *Exec, st *State, cc *callCtx, a []Value) ([]*State, bool) {
		switch x := a[n+1].(type) {
		case *FuncV:
			ex.runHandler(st, cc, x.Fn, nil, x.Bind, x.Fn.Signature)
		case *IfaceV:
			if !ex.httpHandler(st, cc, x) {
				panic(unsupported("handler of unknown origin"))
			}
		default:
			panic(unsupported("handler function of unknown origin"))
		}
		ex.finish(st, cc)
		return nil, st.dead
	}
}

// httpHandler runs an http.Handler of the repository that has no contract of its own
func (ex *Exec) httpHandler(st *State, cc *callCtx, iv *IfaceV) bool {
	if iv.Con == nil {
		return false
	}
	v := ex.ifaceVal(iv)
	if fn, ok := v.(*FuncV); ok {
		ex.runHandler(st, cc, fn.Fn, nil, fn.Bind, fn.Fn.Signature)
		return true
	}
	sel := ex.prog.MethodSets.MethodSet(iv.Con).Lookup(nil, "ServeHTTP")
	if sel == nil {
		return false
	}
	fn := ex.prog.MethodValue(sel)
	if fn == nil || !repoFunc(fn) || len(fn.Blocks) == 0 || fn.Synthetic != "" {
		return false
	}
	if ex.con.Funcs[funcKey(fn)] == nil {
		ex.runHandler(st, cc, fn, []Value{v}, nil, fn.Signature)
	}
	return true
}

// runHandler: an HTTP handler is an activation of its own
func (ex *Exec) runHandler(st *State, cc *callCtx, fn *ssa.Function, recv, bind []Value, sig *types.Signature) {
	if ex.suppress > 0 {
		return
	}
	s := st.clone()
	s.watch = nil
	s.locks = nil
	// it runs at any later time: only the captured variables are as they are
	var cells []*Term
	for _, b := range bind {
		if p, ok := b.(*Ptr); ok {
			cells = append(cells, p.Base)
		}
	}
	ex.bumpAlloc(s)
	ex.havocAll(s, cells...)
	for _, g := range ex.con.GlobalInvs {
		s.assume((&Env{ex: ex, st: s, pos: g.Pos}).bool(g.Expr))
	}
	var args []Value
	for i := 0; i < sig.Params().Len(); i++ {
		t := sig.Params().At(i).Type()
		v := ex.freshValue(s, fmt.Sprintf("h%d", i), t)
		switch x := v.(type) {
		case *Ptr:
			s.assume(Ne(x.term(), IntLit(0)))
		case *IfaceV:
			s.assume(Ne(x.Tag, IntLit(0)))
		}
		args = append(args, v)
	}
	s.frames = nil
	saved := ex.onReturn
	ex.onReturn = nil
	ex.runHooks(s, "handler", "start", args, nil, sigTypes(sig), cc.pos)
	ex.pushFrame(s, fn, append(append([]Value{}, recv...), args...), bind, nil)
	ex.run(s, &sink{ret: func(s *State, res []Value) {
		if props := ex.lockProps(); len(props) > 0 {
			ex.check(s, s.noLocks(), "lock", "every lock taken is released", props, cc.pos)
		}
		ex.runHooks(s, "handler", "end", args, nil, sigTypes(sig), cc.pos)
	}})
	ex.onReturn = saved
}

// ownEncoding: a value that encodes itself does so by the contract of its MarshalJSON
func (ex *Exec) ownEncoding(st *State, cc *callCtx, iv *IfaceV, j, ok *Term) {
	if iv.Con == nil {
		return
	}
	p, isp := ex.ifaceVal(iv).(*Ptr)
	con := ex.con.Funcs["("+typeKey(iv.Con)+").MarshalJSON"]
	if !isp || con == nil || con.Codec != nil || len(con.Ensures) == 0 {
		return
	}
	nn := Ne(p.term(), IntLit(0))
	if v, k := st.known(nn); !k || !v {
		if b, _ := linear(p.term()); !isAllocBase(b) {
			return
		}
	}
	ex.usedCon[con.Func]++
	env := ex.conEnv(st, st, con, []Value{p}, []types.Type{iv.Con})
	for _, r := range con.Requires {
		ex.check(st, env.bool(r.Expr), "requires", con.Func+": "+r.Label, ex.orCur(r.Props), cc.pos)
	}
	env.vars[con.Results[0]] = TV{jenc(j), nil}
	env.vars[con.Results[1]] = TV{&IfaceV{Tag: Ite(ok, IntLit(0), externTag("error:json")), Data: zeroBox}, nil}
	for _, e := range con.Ensures {
		st.assume(env.bool(e.Expr))
	}
}

func itoa(t *Term) *Term {
	if t.isInt() {
		return StrLit(t.Name)
	}
	return App("itoa", SStr, t)
}

// ------------------------------------------------------------ errors

func (ex *Exec) mkError(st *State, kind string, text *Term) *IfaceV {
	r := ex.newRef(st)
	return &IfaceV{Tag: externTag("error:" + kind), Data: App("errbox", SBox, r, text)}
}

func (ex *Exec) newError(st *State, kind string) *IfaceV {
	return ex.mkError(st, kind, Fresh("errtext."+kind, SStr))
}

func (ex *Exec) maybeError(st *State, kind string) *IfaceV {
	e := ex.newError(st, kind)
	ok := Fresh("ok", SBool)
	return &IfaceV{Tag: Ite(ok, IntLit(0), e.Tag), Data: Ite(ok, zeroBox, ex.ifaceData(e))}
}

func (ex *Exec) errText(v *IfaceV) *Term {
	if v.Data == nil && v.Con != nil {
		// error types of the program whose text is their value
		if x, ok := v.Val.(*Term); ok && x.S == SStr {
			return x
		}
	}
	d := ex.ifaceData(v)
	if d.Op == "app" && d.Name == "errbox" {
		return d.Args[1]
	}
	return App("errtext", SStr, v.Tag, d)
}

// errMethodText is the text of an error of a type of the program, by the
// contract on its Error method: an ensures of the form result == e
func (ex *Exec) errMethodText(st *State, v *IfaceV, pos string) *Term {
	if v.Con == nil {
		return nil
	}
	p, ok := v.Con.(*types.Pointer)
	if !ok {
		return nil
	}
	con := ex.con.Funcs["(*"+typeKey(p.Elem())+").Error"]
	if con == nil || len(con.Results) != 1 || len(con.Params) != 1 {
		return nil
	}
	for _, c := range con.Ensures {
		b, ok := c.Expr.(*ast.BinaryExpr)
		if !ok || b.Op != token.EQL {
			continue
		}
		if id, ok := b.X.(*ast.Ident); ok && id.Name == con.Results[0] {
			env := &Env{ex: ex, st: st, vars: map[string]TV{con.Params[0]: {ex.ifaceVal(v), v.Con}}, pos: con.Pos}
			return env.term(b.Y)
		}
	}
	return nil
}

func errAxioms(t *Term) []*Term {
	if t.Op == "app" && t.Name == "errbox" {
		// the text of a made error, whatever tag it has
		return []*Term{Eq(mk("app", "errboxtext", SStr, t), t.Args[1]), Eq(mk("app", "errboxref", SInt, t), t.Args[0])}
	}
	if t.Op == "app" && t.Name == "errtext" {
		var out []*Term
		for _, k := range []string{"error:errors", "error:fmt", "error:json", "error:xml"} {
			if _, ok := typeIDs["extern:"+k]; ok {
				out = append(out, Imp(Eq(t.Args[0], externTag(k)), Eq(t, mk("app", "errboxtext", SStr, t.Args[1]))))
			}
		}
		return out
	}
	if t.Op == "app" {
		switch t.Name {
		case "trimspace":
			// surrounding white space does not matter to a JSON parser
			return []*Term{Eq(App("jval", SJ, t), App("jval", SJ, t.Args[0])), Eq(App("jok", SBool, t), App("jok", SBool, t.Args[0]))}
		case "replace":
			// line breaks between JSON tokens are white space (assumed: none inside strings)
			if len(t.Args) == 4 && t.Args[1] == StrLit("\n") && t.Args[2] == StrLit(" ") {
				return []*Term{Eq(App("jval", SJ, t), App("jval", SJ, t.Args[0])), Eq(App("jok", SBool, t), App("jok", SBool, t.Args[0]))}
			}
		}
	}
	return nil
}

func init() { axiomHooks = append(axiomHooks, errAxioms) }

// ------------------------------------------------------------ formatting

func (ex *Exec) formatText(st *State, f *Term, args *SliceV) *Term {
	if f.Op == "str" && args.Len.isInt() && args.Len.intVal() <= 16 {
		if t := ex.formatLit(st, f.Name, args); t != nil {
			return t
		}
	}
	el := args.Elem
	ts := st.arr(heapKey(el, true, "#t"), elemArrSort(SInt))
	ds := st.arr(heapKey(el, true, "#d"), elemArrSort(SBox))
	return App("fmttext", SStr, f, args.Off, args.Len, Select(ts, args.Arr), Select(ds, args.Arr))
}

func (ex *Exec) formatLit(st *State, f string, args *SliceV) *Term {
	var parts []*Term
	n := int64(0)
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			j := strings.IndexByte(f[i:], '%')
			if j < 0 {
				j = len(f) - i
			}
			parts = append(parts, StrLit(f[i:i+j]))
			i += j - 1
			continue
		}
		i++
		if i >= len(f) {
			return nil
		}
		v := f[i]
		if v == '%' {
			parts = append(parts, StrLit("%"))
			continue
		}
		if !strings.ContainsRune("svdqTwxp", rune(v)) {
			return nil
		}
		if n >= args.Len.intVal() {
			return nil
		}
		p := &Ptr{Base: args.Arr, Idx: Add(args.Off, IntLit(n)), Root: args.Elem, Typ: args.Elem}
		iv := ex.load(st, p, args.Elem).(*IfaceV)
		n++
		parts = append(parts, ex.formatArg(st, v, iv))
	}
	if n != args.Len.intVal() {
		return nil
	}
	return Concat(parts...)
}

func (ex *Exec) formatArg(st *State, v byte, iv *IfaceV) *Term {
	if iv.Con != nil && v != 'T' && v != 'q' && v != 'p' && v != 'x' {
		if s, ok := scalarSort(iv.Con); ok && hasMethod(iv.Con, "Error") == nil && hasMethod(iv.Con, "String") == nil {
			x := ex.ifaceVal(iv)
			_, isb := iv.Con.Underlying().(*types.Basic)
			if sl, ok := iv.Con.Underlying().(*types.Slice); ok && s == SStr && v == 's' {
				if b, ok := sl.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Byte {
					return ex.term(x)
				}
			}
			if isb {
				switch {
				case s == SStr && (v == 's' || v == 'v'):
					return ex.term(x)
				case s == SInt && (v == 'd' || v == 'v'):
					return itoa(ex.term(x))
				}
			}
		}
	}
	if iv.Con == nil || hasMethod(iv.Con, "Error") != nil {
		if v == 'v' || v == 's' || v == 'w' {
			d := ex.ifaceData(iv)
			if d.Op == "app" && d.Name == "errbox" {
				return d.Args[1]
			}
			if iv.Con != nil {
				return ex.errText(iv)
			}
			if g, ok := st.known(ex.implements(iv.Tag, types.Universe.Lookup("error").Type())); ok && g {
				return ex.errText(iv)
			}
		}
	}
	if v == 'w' {
		return ex.errText(iv)
	}
	return App("fmtarg!"+string(v), SStr, iv.Tag, ex.ifaceData(iv))
}

// substr keeps concrete texts concrete
func (ex *Exec) substr(s, lo, hi *Term) *Term {
	if s.Op == "str" && lo.isInt() && hi.isInt() && lo.intVal() >= 0 && hi.intVal() >= lo.intVal() && int(hi.intVal()) <= len(s.Name) {
		return StrLit(s.Name[lo.intVal():hi.intVal()])
	}
	if lo == IntLit(0) && hi == strLen(s) {
		return s
	}
	// trimming a literal end
	if lo == IntLit(0) {
		ps := concatParts(s)
		if n := len(ps); n > 1 && ps[n-1].Op == "str" {
			tail := ps[n-1].Name
			for k := 1; k <= len(tail); k++ {
				if hi == Sub(strLen(s), IntLit(int64(k))) {
					return Concat(append(append([]*Term{}, ps[:n-1]...), StrLit(tail[:len(tail)-k]))...)
				}
			}
		}
	}
	return App("substr", SStr, s, lo, hi)
}

func xmlRewrite(name string, s Sort, args []*Term) *Term {
	switch name {
	case "trimspace":
		if args[0].Op == "str" {
			return StrLit(strings.TrimSpace(args[0].Name))
		}
	case "trimprefix":
		if args[0].Op == "str" && args[1].Op == "str" {
			return StrLit(strings.TrimPrefix(args[0].Name, args[1].Name))
		}
		if args[1].Op == "str" {
			n := IntLit(int64(len(args[1].Name)))
			return Ite(App("hasprefix", SBool, args...), App("substr", SStr, args[0], n, strLen(args[0])), args[0])
		}
	case "hasprefix":
		if args[0].Op == "str" && args[1].Op == "str" {
			return BoolLit(strings.HasPrefix(args[0].Name, args[1].Name))
		}
		if p := args[1]; p.Op == "str" && len(p.Name) <= 4 {
			cs := []*Term{Le(IntLit(int64(len(p.Name))), strLen(args[0]))}
			for i := range p.Name {
				cs = append(cs, Eq(App("strat", SInt, args[0], IntLit(int64(i))), IntLit(int64(p.Name[i]))))
			}
			return And(cs...)
		}
	}
	return nil
}

// ------------------------------------------------------------ further specification functions

func (en *Env) special(name string) (TV, bool) {
	return TV{}, false
}

func strArg(en *Env, e ast.Expr) string {
	t := en.term(e)
	if t.Op != "str" {
		panic(en.errf("literal expected"))
	}
	return t.Name
}

func (en *Env) special2(name string, x *ast.CallExpr) (TV, bool) {
	ex := en.ex
	bt := types.Typ[types.Bool]
	switch name {
	case "trimprefix", "hasprefix", "trimsuffix", "concat2":
		a, b := en.term(x.Args[0]), en.term(x.Args[1])
		switch name {
		case "concat2":
			return TV{Concat(a, b), types.Typ[types.String]}, true
		case "hasprefix":
			return TV{App(name, SBool, a, b), bt}, true
		}
		return TV{App(name, SStr, a, b), types.Typ[types.String]}, true
	case "atlock":
		if en.st.lockSnap == nil {
			return en.eval(x.Args[0]), true
		}
		n := *en
		n.st = en.st.lockSnap
		return n.eval(x.Args[0]), true
	case "decodable":
		// decodable(tag, j): an object of this type decodes j
		return TV{App("decdyn", SBool, en.term(x.Args[0]), en.term(x.Args[1])), bt}, true
	case "atunlock":
		if en.st.unlockSnap == nil {
			return en.eval(x.Args[0]), true
		}
		n := *en
		n.st = en.st.unlockSnap
		return n.eval(x.Args[0]), true
	case "unlocked":
		return TV{BoolLit(en.st.unlockSnap != nil), bt}, true
	case "locked":
		return TV{BoolLit(en.st.lockSnap != nil), bt}, true
	case "fmttext":
		f := en.term(x.Args[0])
		s := en.eval(x.Args[1]).V.(*SliceV)
		return TV{ex.formatText(en.st, f, s), types.Typ[types.String]}, true
	case "printtext": // what a Printf function prints
		return TV{ex.printText(en.st, ex.term(en.eval(x.Args[0]).V), en.eval(x.Args[1]).V.(*SliceV)), types.Typ[types.String]}, true
	case "goodformat": // a literal format whose verbs fit its arguments; "w" allows %w
		w := len(x.Args) > 2 && en.eval(x.Args[2]).V.(*Term) == True
		return TV{ex.goodFormat(en.st, ex.term(en.eval(x.Args[0]).V), en.eval(x.Args[1]).V.(*SliceV), w), types.Typ[types.Bool]}, true
	case "inert": // the method of the value's type does nothing
		return TV{BoolLit(ex.inert(en.eval(x.Args[0]).V.(*IfaceV), ex.term(en.eval(x.Args[1]).V))), types.Typ[types.Bool]}, true
	case "contains": // a text holds another, as far as it is visible in how it was put together
		return TV{textHolds(en.term(x.Args[0]), en.term(x.Args[1])), bt}, true
	case "headerkey": // the canonical spelling of a header's name
		return TV{headerKey(en.term(x.Args[0])), types.Typ[types.String]}, true
	case "isliteral":
		return TV{BoolLit(en.term(x.Args[0]).Op == "str"), bt}, true
	case "xdec":
		// xdec("type", "leaf path", bytes)
		tn, path := strArg(en, x.Args[0]), strArg(en, x.Args[1])
		b := en.term(x.Args[2])
		t := en.resolveType(parseExpr(tn, en.pos))
		for _, l := range leavesOf(t) {
			if l.Path == path {
				return TV{App("xdec!"+typeKey(t)+"!"+path, l.S, b), nil}, true
			}
		}
		panic(en.errf("no leaf %s in %s", path, tn))
	case "xdecok":
		t := en.resolveType(parseExpr(strArg(en, x.Args[0]), en.pos))
		return TV{App("xdecok!"+typeKey(t), SBool, en.term(x.Args[1])), bt}, true
	case "table":
		// table("name", key): the value a named table gives a string key, 0 otherwise
		tb := ex.con.Tables[strArg(en, x.Args[0])]
		if tb == nil {
			panic(en.errf("no table %s", strArg(en, x.Args[0])))
		}
		k := en.term(x.Args[1])
		r := IntLit(0)
		for i := len(tb.Keys) - 1; i >= 0; i-- {
			r = Ite(Eq(k, StrLit(tb.Keys[i])), tagLit(en.resolveType(parseExpr(tb.Vals[i], en.pos))), r)
		}
		return TV{r, nil}, true
	case "tabletag":
		// tabletag("name", tag): the value a table from types to types gives a tag
		tb := ex.con.Tables[strArg(en, x.Args[0])]
		k := en.term(x.Args[1])
		r := IntLit(0)
		for i := len(tb.Keys) - 1; i >= 0; i-- {
			r = Ite(Eq(k, tagLit(en.resolveType(parseExpr(tb.Keys[i], en.pos)))), tagLit(en.resolveType(parseExpr(tb.Vals[i], en.pos))), r)
		}
		return TV{r, nil}, true
	case "tablestr":
		tb := ex.con.Tables[strArg(en, x.Args[0])]
		k := en.term(x.Args[1])
		r := StrLit("")
		for i := len(tb.Keys) - 1; i >= 0; i-- {
			var c *Term
			if k.S == SInt {
				c = Eq(k, tagLit(en.resolveType(parseExpr(tb.Keys[i], en.pos))))
			} else {
				c = Eq(k, StrLit(tb.Keys[i]))
			}
			r = Ite(c, StrLit(tb.Vals[i]), r)
		}
		return TV{r, types.Typ[types.String]}, true
	case "intable":
		tb := ex.con.Tables[strArg(en, x.Args[0])]
		if tb == nil {
			panic(en.errf("no table"))
		}
		k := en.term(x.Args[1])
		var cs []*Term
		for i := range tb.Keys {
			if k.S == SInt {
				cs = append(cs, Eq(k, tagLit(en.resolveType(parseExpr(tb.Keys[i], en.pos)))))
			} else {
				cs = append(cs, Eq(k, StrLit(tb.Keys[i])))
			}
		}
		return TV{Or(cs...), bt}, true
	case "ghostat":
		g := en.st.ghostArr(strArg(en, x.Args[0]), sortNamed(x.Args[2].(*ast.Ident).Name))
		return TV{Select(g, en.term(x.Args[1])), nil}, true
	case "exists":
		// there is a function of that name
		if ex.allFns == nil {
			ex.allFns = ex.functions()
		}
		return TV{BoolLit(ex.allFns[strArg(en, x.Args[0])] != nil), bt}, true
	case "concrete":
		// a boolean that the path decides
		return TV{en.bool(x.Args[0]), bt}, true
	case "rawbuf":
		// content of the buffer behind an io.Reader holding a *bytes.Buffer / *bytes.Reader
		v := en.eval(x.Args[0]).V.(*IfaceV)
		if v.Con != nil {
			if p, ok := ex.ifaceVal(v).(*Ptr); ok {
				switch typeKey(v.Con) {
				case "*bytes.Buffer":
					return TV{en.st.loadLeaf(p, Leaf{".buf", SStr}), nil}, true
				case "*bytes.Reader", "*strings.Reader":
					return TV{en.st.loadLeaf(p, Leaf{".s", SStr}), nil}, true
				}
			}
		}
		return TV{Fresh("unknownbuf", SStr), nil}, true
	case "funcis":
		// funcis(f, g): the function value f is the named function
		t := en.term(x.Args[0])
		n := strArg(en, x.Args[1])
		if f := ex.closures[t]; f != nil {
			return TV{BoolLit(funcKey(f.Fn) == n), bt}, true
		}
		return TV{False, bt}, true
	case "ptrat":
		// ptrat("type", r): the pointer with reference r
		t := en.resolveType(parseExpr(strArg(en, x.Args[0]), en.pos))
		return TV{&Ptr{Base: en.term(x.Args[1]), Root: t, Typ: t}, types.NewPointer(t)}, true
	case "boxref":
		d := en.term(x.Args[0])
		if d.Op == "app" && d.Name == "box!Int" {
			return TV{d.Args[0], nil}, true
		}
		return TV{App("unbox!Int!0", SInt, d), nil}, true
	case "deref":
		v := en.eval(x.Args[0])
		p := v.V.(*Ptr)
		return TV{ex.load(en.st, p, p.Typ), p.Typ}, true
	case "pure":
		// pure("iface.method", result index, args...): the value of a pure interface method
		key := strArg(en, x.Args[0])
		con := ex.con.Funcs[key]
		if con == nil || !con.Pure {
			panic(en.errf("%s has no pure contract", key))
		}
		var fl []*Term
		for _, a := range x.Args[1:] {
			v := en.eval(a)
			fl = append(fl, ex.flatten(v.V, v.T)...)
		}
		s := SInt
		if len(con.Sorts) > 0 {
			s = sortNamed(con.Sorts[0])
		}
		return TV{App(fmt.Sprintf("pure!%s!0!0", key), s, fl...), nil}, true
	}
	return TV{}, false
}

func textHolds(a, b *Term) *Term {
	if a == b {
		return True
	}
	if a.Op == "ite" {
		return Ite(a.Args[0], textHolds(a.Args[1], b), textHolds(a.Args[2], b))
	}
	alts := []*Term{Eq(a, b)}
	if a.Op == "concat" {
		for _, p := range a.Args {
			alts = append(alts, Eq(p, b))
		}
	}
	return Or(alts...)
}

func headerKey(k *Term) *Term {
	if k.Op == "str" {
		return StrLit(textproto.CanonicalMIMEHeaderKey(k.Name))
	}
	return App("canonkey", SStr, k)
}
