package main

import (
	"go/ast"
	"go/token"
	"go/types"
	"strings"
)

type intrinsic func(x *Exec, st *State, args []Val, rts []types.Type, p token.Pos, k cont)

// intrinsics are the models of library functions; each one that is used is listed as trusted.
var intrinsics map[string]intrinsic

// opaque library types with a model
var opaqueTypes = map[string]func() *OpaqueVal{
	"bytes.Buffer":    func() *OpaqueVal { return &OpaqueVal{m: map[string]Val{"content": sEmpty}} },
	"strings.Builder": func() *OpaqueVal { return &OpaqueVal{m: map[string]Val{"content": sEmpty}} },
	"sync.Mutex":      func() *OpaqueVal { return &OpaqueVal{m: map[string]Val{}} },
	"sync.RWMutex":    func() *OpaqueVal { return &OpaqueVal{m: map[string]Val{}} },
	"sync.Once":       func() *OpaqueVal { return &OpaqueVal{m: map[string]Val{}} },
	"sync.WaitGroup":  func() *OpaqueVal { return &OpaqueVal{m: map[string]Val{}} },
	"errgroup.Group":  func() *OpaqueVal { return &OpaqueVal{m: map[string]Val{}} },
}

func opaqueZero(t types.Type) Val {
	if f := opaqueTypes[typeName(t)]; f != nil {
		o := f()
		o.t = t
		return o
	}
	return nil
}

func (x *Exec) opaque(st *State, v Val) (*PtrVal, *OpaqueVal) {
	pv, ok := v.(*PtrVal)
	if !ok {
		return nil, nil
	}
	o := st.obj(pv.obj)
	cur, _ := x.navigate(st, o.v, o.t, pv.path)
	ov, ok := cur.(*OpaqueVal)
	if !ok {
		return nil, nil
	}
	return pv, ov
}

func (x *Exec) setOpaque(st *State, pv *PtrVal, v *OpaqueVal) {
	m := st.mut(pv.obj)
	m.v = x.update(st, m.v, m.t, pv.path, v)
}

func (x *Exec) newErr(st *State) *Term {
	e := x.newRef("newerr")
	return e
}

// anyErr is an arbitrary error, possibly one that the code compares with.
func (x *Exec) anyErr(st *State) *Term {
	e := fresh("anyerr", sInt)
	st.assume(not(eq(e, num(0))))
	return e
}

func errTypeOK(t types.Type) bool { return types.Identical(t, types.Universe.Lookup("error").Type()) }

// fork runs the continuation for several cases.
func (x *Exec) fork(st *State, cases ...func(*State)) {
	for i, c := range cases {
		s := st
		if i < len(cases)-1 {
			s = st.clone()
		}
		c(s)
	}
}

func (x *Exec) bufAppend(st *State, v Val, data *Term, p token.Pos) bool {
	pv, ov := x.opaque(st, v)
	if pv == nil {
		x.unmodelled(st, "unknown buffer", p)
		return false
	}
	if st.obj(pv.obj).frozen {
		x.fail(st, "frame", "write to a shared buffer", p)
		return false
	}
	x.setOpaque(st, pv, ov.with("content", cat(ov.m["content"].(*Term), data)))
	return true
}

func ifaceRef(x *Exec, st *State, v Val) Val {
	if iv, ok := v.(*IfaceVal); ok {
		return iv.v
	}
	return v
}

func pureStr(f func(x *Exec, st *State, args []Val) *Term) intrinsic {
	return func(x *Exec, st *State, args []Val, rts []types.Type, p token.Pos, k cont) {
		k(st, []Val{f(x, st, args)})
	}
}

func havocResults(x *Exec, st *State, args []Val, rts []types.Type, p token.Pos, k cont) {
	var res []Val
	for _, t := range rts {
		res = append(res, x.symbolic(st, "lib", t))
	}
	k(st, res)
}

func noEffect(x *Exec, st *State, args []Val, rts []types.Type, p token.Pos, k cont) {
	havocResults(x, st, args, rts, p, k)
}

func init() {
	beGet := func(n int64, op string) intrinsic {
		return func(x *Exec, st *State, args []Val, _ []types.Type, p token.Pos, k cont) {
			s := x.seqArg(st, args[1])
			x.oblige(st, "bounds", "index out of range (BigEndian)", p, le(num(n), slen(s)))
			k(st, []Val{mk(sInt, op, take(s, num(n)))})
		}
	}
	bePut := func(n int64, op string) intrinsic {
		return func(x *Exec, st *State, args []Val, _ []types.Type, p token.Pos, k cont) {
			d := args[1].(*SliceVal)
			x.oblige(st, "bounds", "index out of range (BigEndian)", p, le(num(n), st.lenOf(d)))
			x.writeWindow(st, d, num(0), mk(sBy, op, args[2].(*Term)), p)
			k(st, nil)
		}
	}
	beApp := func(op string) intrinsic {
		return func(x *Exec, st *State, args []Val, _ []types.Type, p token.Pos, k cont) {
			k(st, []Val{x.appendSlice(st, args[1].(*SliceVal), mk(sBy, op, args[2].(*Term)), p)})
		}
	}
	indexByte := func(x *Exec, st *State, args []Val, _ []types.Type, p token.Pos, k cont) {
		s := x.seqArg(st, args[0])
		c := args[1].(*Term)
		if c.isNum() && c.val.Sign() == 0 {
			has := mk(sBool, "hasNul", s)
			fn := mk(sInt, "firstNul", s)
			x.fork(st, func(st *State) {
				st.assume(has)
				st.assume(le(num(0), fn))
				st.assume(lt(fn, slen(s)))
				k(st, []Val{fn})
			}, func(st *State) {
				st.assume(not(has))
				k(st, []Val{num(-1)})
			})
			return
		}
		r := fresh("index", sInt)
		q := newBound(sInt)
		in := and(le(num(0), r), lt(r, slen(s)), eq(nth(s, r), c), forall([]*Term{q}, implies(and(le(num(0), q), lt(q, r)), not(eq(nth(s, q), c))), mk(sInt, "nth", s, q)))
		none := and(eq(r, num(-1)), forall([]*Term{q}, implies(and(le(num(0), q), lt(q, slen(s))), not(eq(nth(s, q), c))), mk(sInt, "nth", s, q)))
		x.fork(st, func(st *State) { st.assume(in); k(st, []Val{r}) }, func(st *State) { st.assume(none); k(st, []Val{r}) })
	}
	newErr := func(x *Exec, st *State, args []Val, _ []types.Type, p token.Pos, k cont) { k(st, []Val{x.newErr(st)}) }
	bufWrite := func(x *Exec, st *State, args []Val, rts []types.Type, p token.Pos, k cont) {
		d := x.seqArg(st, args[1])
		if !x.bufAppend(st, args[0], d, p) {
			return
		}
		k(st, []Val{slen(d), num(0)})
	}
	bufWriteByte := func(x *Exec, st *State, args []Val, rts []types.Type, p token.Pos, k cont) {
		if !x.bufAppend(st, args[0], unit(args[1].(*Term)), p) {
			return
		}
		k(st, []Val{num(0)})
	}
	newBuf := func(x *Exec, st *State, args []Val, rts []types.Type, p token.Pos, k cont) {
		t := deref(rts[0])
		o := opaqueZero(t).(*OpaqueVal)
		o.m["content"] = x.seqArg(st, args[0])
		k(st, []Val{&PtrVal{obj: st.newObj(t, o, "buffer").id}})
	}
	bufLen := func(x *Exec, st *State, args []Val, rts []types.Type, p token.Pos, k cont) {
		_, ov := x.opaque(st, args[0])
		if ov == nil {
			x.unmodelled(st, "unknown buffer", p)
			return
		}
		k(st, []Val{slen(ov.m["content"].(*Term))})
	}
	bufBytes := func(x *Exec, st *State, args []Val, rts []types.Type, p token.Pos, k cont) {
		_, ov := x.opaque(st, args[0])
		if ov == nil {
			x.unmodelled(st, "unknown buffer", p)
			return
		}
		k(st, []Val{pureSlice(ov.m["content"].(*Term), tFalse, types.Typ[types.Uint8])})
	}
	bufString := func(x *Exec, st *State, args []Val, rts []types.Type, p token.Pos, k cont) {
		_, ov := x.opaque(st, args[0])
		if ov == nil {
			x.unmodelled(st, "unknown buffer", p)
			return
		}
		k(st, []Val{ov.m["content"]})
	}
	bufGrow := func(x *Exec, st *State, args []Val, rts []types.Type, p token.Pos, k cont) {
		n := args[1].(*Term)
		x.oblige(st, "bounds", "Grow with a negative count", p, le(num(0), n))
		x.checkAlloc(st, n, p)
		k(st, nil)
	}
	intrinsics = map[string]intrinsic{
		"(binary.bigEndian).Uint32":       beGet(4, "dec32"),
		"(binary.bigEndian).Uint16":       beGet(2, "dec16"),
		"(binary.bigEndian).PutUint32":    bePut(4, "be32"),
		"(binary.bigEndian).PutUint16":    bePut(2, "be16"),
		"(binary.bigEndian).AppendUint32": beApp("be32"),
		"(binary.bigEndian).AppendUint16": beApp("be16"),
		"bytes.IndexByte":                 indexByte,
		"strings.IndexByte":               indexByte,
		"fmt.Errorf":                      newErr,
		"errors.New":                      newErr,
		"fmt.Sprintf":                     pureStr(func(x *Exec, st *State, args []Val) *Term { return fresh("sprintf", sBy) }),
		"fmt.Sprint":                      pureStr(func(x *Exec, st *State, args []Val) *Term { return fresh("sprint", sBy) }),
		"hex.Dump":                        pureStr(func(x *Exec, st *State, args []Val) *Term { return fresh("hexdump", sBy) }),
		"(*bytes.Buffer).Grow":            bufGrow,
		"(*bytes.Buffer).Write":           bufWrite,
		"(*bytes.Buffer).WriteString":     bufWrite,
		"(*bytes.Buffer).WriteByte":       bufWriteByte,
		"(*bytes.Buffer).Len":             bufLen,
		"(*bytes.Buffer).Bytes":           bufBytes,
		"(*bytes.Buffer).String":          bufString,
		"(*strings.Builder).WriteString":  bufWrite,
		"(*strings.Builder).WriteByte":    bufWriteByte,
		"(*strings.Builder).String":       bufString,
		"bytes.NewBuffer":                 newBuf,
		"bytes.NewBufferString":           newBuf,
		"bytes.Equal": func(x *Exec, st *State, args []Val, _ []types.Type, p token.Pos, k cont) {
			k(st, []Val{seqEq(x.seqArg(st, args[0]), x.seqArg(st, args[1]))})
		},
		"(*url.URL).Query": urlQuery,
		"io.CopyN":         ioCopyN,
		"io.ReadFull":      ioReadFull,
		"reflect.TypeOf": func(x *Exec, st *State, args []Val, _ []types.Type, p token.Pos, k cont) {
			if iv, ok := args[0].(*IfaceVal); ok {
				k(st, []Val{&RTypeVal{t: iv.dyn}})
				return
			}
			x.unmodelled(st, "reflect.TypeOf of an unknown value", p)
		},
		"reflect.New": func(x *Exec, st *State, args []Val, _ []types.Type, p token.Pos, k cont) {
			rt, ok := args[0].(*RTypeVal)
			if !ok {
				x.unmodelled(st, "reflect.New of an unknown type", p)
				return
			}
			v := x.zero(st, rt.t)
			o := st.newObj(rt.t, v, "reflect.New")
			k(st, []Val{&RValueVal{t: types.NewPointer(rt.t), v: &PtrVal{obj: o.id}}})
		},
		"(reflect.Value).Interface": func(x *Exec, st *State, args []Val, _ []types.Type, p token.Pos, k cont) {
			rv, ok := args[0].(*RValueVal)
			if !ok {
				x.unmodelled(st, "Interface of an unknown reflect.Value", p)
				return
			}
			k(st, []Val{&IfaceVal{dyn: rv.t, v: rv.v}})
		},
	}
	for n, h := range moreIntrinsics() {
		intrinsics[n] = h
	}
	for n, h := range fsIntrinsics() {
		intrinsics[n] = h
	}
	for n, h := range cliIntrinsics() {
		intrinsics[n] = h
	}
}

// io.CopyN reads exactly n bytes of the stream or everything that is left of it and then returns an error.
func ioCopyN(x *Exec, st *State, args []Val, _ []types.Type, p token.Pos, k cont) {
	dst := ifaceRef(x, st, args[0])
	src := x.readerTerm(st, args[1])
	n := args[2].(*Term)
	s := st.ghostSel("stream", src)
	x.fork(st, func(st *State) {
		st.assume(le(n, num(0)))
		k(st, []Val{num(0), num(0)})
	}, func(st *State) {
		st.assume(lt(num(0), n))
		st.assume(le(n, slen(s)))
		if st.killed || !x.bufAppend(st, dst, take(s, n), p) {
			return
		}
		st.ghostStore("stream", src, drop(s, n))
		k(st, []Val{n, num(0)})
	}, func(st *State) {
		st.assume(lt(num(0), n))
		st.assume(lt(slen(s), n))
		if st.killed || !x.bufAppend(st, dst, s, p) {
			return
		}
		st.ghostStore("stream", src, sEmpty)
		k(st, []Val{slen(s), x.anyErr(st)})
	})
}

func (x *Exec) readerTerm(st *State, v Val) *Term {
	switch a := v.(type) {
	case *Term:
		return a
	case *IfaceVal:
		return st.toTerm(a.v, a.dyn)
	}
	panic(unsupported{"reader " + errVal(v)})
}

func ioReadFull(x *Exec, st *State, args []Val, _ []types.Type, p token.Pos, k cont) {
	src := x.readerTerm(st, args[0])
	buf := args[1].(*SliceVal)
	n := st.lenOf(buf)
	s := st.ghostSel("stream", src)
	x.fork(st, func(st *State) {
		st.assume(le(n, slen(s)))
		if st.killed {
			return
		}
		x.writeWindow(st, buf, num(0), take(s, n), p)
		st.ghostStore("stream", src, drop(s, n))
		k(st, []Val{n, num(0)})
	}, func(st *State) {
		st.assume(lt(slen(s), n))
		if st.killed {
			return
		}
		x.writeWindow(st, buf, num(0), s, p)
		st.ghostStore("stream", src, sEmpty)
		k(st, []Val{slen(s), x.anyErr(st)})
	})
}

// net.Conn: reads consume the stream, writes append to what has been written; errors are arbitrary.
func connWrite(x *Exec, st *State, args []Val, _ []types.Type, p token.Pos, k cont) {
	c := x.readerTerm(st, args[0])
	d := x.seqArg(st, args[1])
	w := st.ghostSel("written", c)
	x.fork(st, func(st *State) {
		st.ghostStore("written", c, cat(w, d))
		k(st, []Val{slen(d), num(0)})
	}, func(st *State) {
		n := fresh("nwritten", sInt)
		st.assume(le(num(0), n))
		st.assume(le(n, slen(d)))
		st.ghostStore("written", c, cat(w, take(d, n)))
		st.ghostStore("wfailed", c, tTrue)
		k(st, []Val{n, x.anyErr(st)})
	})
}

func lastSeg(s string) string { return s[strings.LastIndex(s, "/")+1:] }

// (*url.URL).Query returns a new map on every call, with the same content for the same URL; every key has a value.
func urlQuery(x *Exec, st *State, args []Val, rts []types.Type, p token.Pos, k cont) {
	x.oblige(st, "nil", "Query of a nil URL", p, not(x.isNil(args[0])))
	u := st.toTerm(args[0], nil)
	mt := under(rts[0]).(*types.Map)
	dom, val := mk(arrSort(sBool), "u_qdom", u), mk(arrSort(sInt), "u_qval", u)
	q := newBound(sInt)
	st.assume(forall([]*Term{q}, implies(mk(sBool, "select", dom, q), lt(num(0), slen(slFn(sSq, mk(sInt, "select", val, q))))), mk(sInt, "select", val, q), mk(sBool, "select", dom, q)))
	n := fresh("nquery", sInt)
	st.assume(le(num(0), n))
	o := st.newObj(mt, &mapContent{dom: dom, val: val, n: n}, "query")
	o.kind = "map"
	k(st, []Val{&MapVal{obj: o.id, kt: mt.Key(), vt: mt.Elem()}})
}

func init() {
	decls["u_qdom"] = "(Int) " + arrSort(sBool)
	decls["u_qval"] = "(Int) " + arrSort(sInt)
	// qhas(u, k), qfirst(u, k): the query of the URL has the key k, its first value
	concSpec["qhas"] = func(e *Env, args []ast.Expr) SV {
		u, k := e.term(e.eval(args[0])), e.term(e.eval(args[1]))
		return SV{sel(mk(arrSort(sBool), "u_qdom", u), boxElem(k)), types.Typ[types.Bool]}
	}
	concSpec["qfirst"] = func(e *Env, args []ast.Expr) SV {
		u, k := e.term(e.eval(args[0])), e.term(e.eval(args[1]))
		l := slFn(sSq, sel(mk(arrSort(sInt), "u_qval", u), boxElem(k)))
		return SV{unboxElem(nth(l, num(0)), types.Typ[types.String]), types.Typ[types.String]}
	}
}
