package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"strconv"
	"strings"
)

// SV is a value of the specification language; t is nil for mathematical values.
type SV struct {
	v Val
	t types.Type
}

type Env struct {
	st   *State
	vars map[string]SV
	old  *Env
	pkg  *types.Package
	w    *World
	neg  bool
}

type specError struct{ msg string }

func (e *Env) fail(f string, a ...any) SV { panic(specError{fmt.Sprintf(f, a...)}) }

func (e *Env) with(name string, v SV) *Env {
	c := *e
	c.vars = map[string]SV{}
	for k, x := range e.vars {
		c.vars[k] = x
	}
	c.vars[name] = v
	if e.old != nil {
		c.old = e.old.with(name, v)
	}
	return &c
}

func (x *Exec) specTerm(e *Env, ex ast.Expr) *Term {
	v := e.eval(ex)
	return e.term(v)
}

// term gives the mathematical value: sequences for slices and strings, references for pointers.
func (e *Env) term(v SV) *Term {
	switch a := v.v.(type) {
	case *Term:
		return a
	case *SliceVal:
		return e.st.seqOf(a)
	case *ArrayVal:
		return a.seq
	case *PtrVal, *IfaceVal, *FuncVal, *MapVal, *RTypeVal:
		return e.st.toTerm(a, v.t)
	}
	panic(specError{"no term for " + errVal(v.v)})
}

func (e *Env) bool(ex ast.Expr) *Term {
	t := e.term(e.eval(ex))
	if t.sort != sBool {
		panic(specError{"boolean expected"})
	}
	return t
}

func (e *Env) int(ex ast.Expr) *Term {
	t := e.term(e.eval(ex))
	if t.sort != sInt {
		panic(specError{"integer expected"})
	}
	return t
}

func (e *Env) eval(ex ast.Expr) SV {
	switch ex := ex.(type) {
	case *ast.ParenExpr:
		return e.eval(ex.X)
	case *ast.BasicLit:
		switch ex.Kind {
		case token.INT:
			n, err := strconv.ParseInt(ex.Value, 0, 64)
			if err != nil {
				return e.fail("%v", err)
			}
			return SV{num(n), types.Typ[types.Int]}
		case token.CHAR:
			r, _, _, err := strconv.UnquoteChar(ex.Value[1:], '\'')
			if err != nil {
				return e.fail("%v", err)
			}
			return SV{num(int64(r)), types.Typ[types.Int]}
		case token.STRING:
			s, err := strconv.Unquote(ex.Value)
			if err != nil {
				return e.fail("%v", err)
			}
			return SV{lit(s), types.Typ[types.String]}
		}
	case *ast.Ident:
		return e.ident(ex.Name)
	case *ast.UnaryExpr:
		switch ex.Op {
		case token.NOT:
			c := *e
			c.neg = !c.neg
			return SV{not(c.bool(ex.X)), types.Typ[types.Bool]}
		case token.SUB:
			return SV{neg(e.int(ex.X)), types.Typ[types.Int]}
		case token.AND:
			if id, ok := ex.X.(*ast.SelectorExpr); ok {
				return e.addr(id)
			}
		}
	case *ast.StarExpr:
		p := e.eval(ex.X)
		if p.t == nil {
			return e.fail("dereference of an untyped value")
		}
		return e.deref(p)
	case *ast.BinaryExpr:
		return e.binary(ex)
	case *ast.SelectorExpr:
		if id, ok := ex.X.(*ast.Ident); ok {
			if _, isVar := e.lookup(id.Name); !isVar {
				if p := e.w.pkgByName(id.Name); p != nil {
					return e.scoped(p, ex.Sel.Name)
				}
			}
		}
		return e.field(e.eval(ex.X), ex.Sel.Name)
	case *ast.IndexExpr:
		b := e.eval(ex.X)
		return e.index(b, ex.Index)
	case *ast.SliceExpr:
		b := e.eval(ex.X)
		s := e.term(b)
		lo := num(0)
		if ex.Low != nil {
			lo = e.int(ex.Low)
		}
		r := drop(s, lo)
		if ex.High != nil {
			r = take(r, sub(e.int(ex.High), lo))
		}
		return SV{&SliceVal{seq: r, nil_: tFalse, elem: e.elemType(b), off: num(0)}, b.t}
	case *ast.CallExpr:
		return e.call(ex)
	}
	return e.fail("unsupported expression %T", ex)
}

func (e *Env) elemType(b SV) types.Type {
	if s, ok := b.v.(*SliceVal); ok {
		return s.elem
	}
	if b.t != nil {
		switch u := under(b.t).(type) {
		case *types.Slice:
			return u.Elem()
		case *types.Array:
			return u.Elem()
		}
	}
	return types.Typ[types.Uint8]
}

func (e *Env) index(b SV, idx ast.Expr) SV {
	switch m := b.v.(type) {
	case *MapVal:
		k := e.term(e.eval(idx))
		return SV{e.st.fromTerm(unboxElem(mapSel(e.st, m, boxElem(k)), m.vt), m.vt), m.vt}
	}
	if b.t != nil {
		if mt, ok := under(b.t).(*types.Map); ok {
			k := e.term(e.eval(idx))
			return SV{e.st.fromTerm(unboxElem(e.st.heapMapVal(e.term(b), mt, boxElem(k)), mt.Elem()), mt.Elem()), mt.Elem()}
		}
	}
	if t, ok := b.v.(*Term); ok && strings.HasPrefix(t.sort, "(Array") {
		return SV{sel(t, e.term(e.eval(idx))), nil}
	}
	s := e.term(b)
	i := e.int(idx)
	et := e.elemType(b)
	return SV{e.st.fromTerm(unboxElem(nth(s, i), et), et), et}
}

func (e *Env) lookup(n string) (SV, bool) {
	if v, ok := e.vars[n]; ok {
		return v, true
	}
	if v, ok := e.st.ghost[n]; ok {
		return SV{v, nil}, true
	}
	return SV{}, false
}

func (e *Env) ident(n string) SV {
	switch n {
	case "true":
		return SV{tTrue, types.Typ[types.Bool]}
	case "false":
		return SV{tFalse, types.Typ[types.Bool]}
	case "nil":
		return SV{num(0), types.Typ[types.UntypedNil]}
	}
	if v, ok := e.lookup(n); ok {
		return v
	}
	return e.scoped(e.pkg, n)
}

func (e *Env) scoped(p *types.Package, n string) SV {
	if p == nil {
		return e.fail("unknown identifier %s", n)
	}
	o := p.Scope().Lookup(n)
	switch o := o.(type) {
	case *types.Const:
		switch o.Val().Kind() {
		case constant.Int:
			i, _ := constant.Int64Val(o.Val())
			return SV{num(i), types.Typ[types.Int]}
		case constant.String:
			return SV{lit(constant.StringVal(o.Val())), types.Typ[types.String]}
		}
	case *types.Var:
		if types.Identical(o.Type(), types.Universe.Lookup("error").Type()) {
			return SV{mkDistinct("err_" + sanitize(p.Name()+"."+n)), o.Type()}
		}
	}
	return e.fail("unknown identifier %s", n)
}

func (e *Env) deref(p SV) SV {
	switch a := p.v.(type) {
	case *PtrVal:
		o := e.st.obj(a.obj)
		v, _ := e.st.x.navigate(e.st, o.v, o.t, a.path)
		return SV{v, deref(p.t)}
	}
	return e.fail("dereference of %s", errVal(p.v))
}

func (e *Env) addr(s *ast.SelectorExpr) SV {
	b := e.eval(s.X)
	stt := deref(b.t)
	st, ok := under(stt).(*types.Struct)
	if !ok {
		return e.fail("address of a field of %s", b.t)
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == s.Sel.Name {
			return SV{fn("fieldaddr_"+sanitize(typeName(stt))+"_"+fmt.Sprint(i), sInt, e.term(b)), types.NewPointer(st.Field(i).Type())}
		}
	}
	return e.fail("no field %s", s.Sel.Name)
}

func (e *Env) field(b SV, name string) SV {
	if b.t == nil {
		return e.fail("field %s of an untyped value", name)
	}
	stt := deref(b.t)
	if iv, ok := b.v.(*IfaceVal); ok {
		stt = deref(iv.dyn)
		b = SV{iv.v, iv.dyn}
	}
	st, ok := under(stt).(*types.Struct)
	if !ok {
		return e.fail("field %s of %s", name, b.t)
	}
	i := -1
	for j := 0; j < st.NumFields(); j++ {
		if st.Field(j).Name() == name {
			i = j
		}
	}
	if i < 0 {
		return e.fail("no field %s in %s", name, stt)
	}
	ft := st.Field(i).Type()
	switch a := b.v.(type) {
	case *StructVal:
		return SV{a.fs[i], ft}
	case *PtrVal:
		o := e.st.obj(a.obj)
		if o.ref != nil && guardedField(o.t, name) {
			return SV{e.st.fromTerm(e.st.heapLoad(stt, i, o.ref), ft), ft}
		}
		v, _ := e.st.x.navigate(e.st, o.v, o.t, append(append([]PathElem{}, a.path...), PathElem{field: i}))
		return SV{v, ft}
	case *Term:
		if guardedField(stt, name) {
			e.st.x.specAccess(e, stt, name, a)
			return SV{e.st.fromTerm(e.st.heapLoad(stt, i, a), ft), ft}
		}
		return SV{e.st.fromTerm(fieldFn(stt, i, a), ft), ft}
	}
	return e.fail("field of %s", errVal(b.v))
}

func (e *Env) binary(ex *ast.BinaryExpr) SV {
	bt := types.Typ[types.Bool]
	switch ex.Op {
	case token.LAND:
		return SV{and(e.bool(ex.X), e.bool(ex.Y)), bt}
	case token.LOR:
		return SV{or(e.bool(ex.X), e.bool(ex.Y)), bt}
	case token.EQL:
		return SV{e.equal(e.eval(ex.X), e.eval(ex.Y)), bt}
	case token.NEQ:
		return SV{not(e.equal(e.eval(ex.X), e.eval(ex.Y))), bt}
	}
	a, b := e.int(ex.X), e.int(ex.Y)
	it := types.Typ[types.Int]
	switch ex.Op {
	case token.ADD:
		return SV{add(a, b), it}
	case token.SUB:
		return SV{sub(a, b), it}
	case token.MUL:
		return SV{mul(a, b), it}
	case token.QUO:
		return SV{ediv(a, b), it}
	case token.REM:
		return SV{emod(a, b), it}
	case token.LSS:
		return SV{lt(a, b), bt}
	case token.LEQ:
		return SV{le(a, b), bt}
	case token.GTR:
		return SV{gt(a, b), bt}
	case token.GEQ:
		return SV{ge(a, b), bt}
	}
	return e.fail("operator %s", ex.Op)
}

func (e *Env) equal(a, b SV) *Term {
	if isNilConst(b.v) && b.t == types.Typ[types.UntypedNil] {
		return e.st.x.isNil(a.v)
	}
	x, y := e.term(a), e.term(b)
	if x.sort != y.sort {
		e.fail("comparison of %s and %s", x.sort, y.sort)
	}
	if isSeqSort(x.sort) {
		return seqEq(x, y)
	}
	return eq(x, y)
}

func (e *Env) call(ex *ast.CallExpr) SV {
	it, bt, by := types.Type(types.Typ[types.Int]), types.Type(types.Typ[types.Bool]), types.Type(types.NewSlice(types.Typ[types.Uint8]))
	var name string
	switch f := ex.Fun.(type) {
	case *ast.Ident:
		name = f.Name
	case *ast.SelectorExpr:
		name = f.X.(*ast.Ident).Name + "." + f.Sel.Name
	default:
		return e.fail("call of %T", f)
	}
	arg := func(i int) ast.Expr {
		if i >= len(ex.Args) {
			panic(specError{"missing argument of " + name})
		}
		return ex.Args[i]
	}
	t := func(i int) *Term { return e.term(e.eval(arg(i))) }
	bytes := func(x *Term) SV { return SV{pureSlice(x, tFalse, types.Typ[types.Uint8]), by} }
	switch name {
	case "len":
		v := e.eval(arg(0))
		return SV{slen(e.term(v)), it}
	case "implies":
		// the consequent is only meaningful when the antecedent can hold
		a := e.bool(arg(0))
		if a == tFalse {
			return SV{tTrue, bt}
		}
		return SV{implies(a, e.bool(arg(1))), bt}
	case "iff":
		return SV{eq(e.bool(arg(0)), e.bool(arg(1))), bt}
	case "ite":
		c := e.bool(arg(0))
		if c == tTrue {
			return e.eval(arg(1))
		}
		if c == tFalse {
			return e.eval(arg(2))
		}
		a, b := e.eval(arg(1)), e.eval(arg(2))
		x, y := e.term(a), e.term(b)
		r := ite(c, x, y)
		if isSeqSort(r.sort) {
			return SV{pureSlice(r, tFalse, e.elemType(a)), a.t}
		}
		return SV{r, a.t}
	case "forall", "exists":
		id := arg(0).(*ast.Ident).Name
		q := newBound(sInt)
		knownBounds[q] = interval{bignum(pow2(63)).val, bignum(pow2(63)).val}
		delete(knownBounds, q)
		lo, hi := e.int(arg(1)), e.int(arg(2))
		if lo.isNum() && hi.isNum() && hi.val.IsInt64() && lo.val.IsInt64() && hi.val.Int64()-lo.val.Int64() <= 4 {
			var parts []*Term
			for i := lo.val.Int64(); i < hi.val.Int64(); i++ {
				parts = append(parts, e.with(id, SV{num(i), it}).bool(arg(3)))
			}
			if name == "exists" {
				return SV{or(parts...), bt}
			}
			return SV{and(parts...), bt}
		}
		sub := e.with(id, SV{q, it})
		sub.st = e.st.quiet()
		body := sub.bool(arg(3))
		rng := and(le(lo, q), lt(q, hi))
		if name == "exists" {
			return SV{not(forall([]*Term{q}, implies(rng, not(body)), patterns(body, q)...)), bt}
		}
		return SV{forall([]*Term{q}, implies(rng, body), patterns(body, q)...), bt}
	case "all": // all(x, body): over all integers (references)
		id := arg(0).(*ast.Ident)
		q := newBound(sInt)
		var ty types.Type = it
		bi := 1
		if len(ex.Args) == 3 {
			ty = e.w.resolveType(arg(1), e.pkg)
			bi = 2
		}
		sub := e.with(id.Name, SV{q, ty})
		sub.st = e.st.quiet()
		body := sub.bool(arg(bi))
		return SV{forall([]*Term{q}, body, patterns(body, q)...), bt}
	case "cat":
		var ts []*Term
		var elem types.Type = types.Typ[types.Uint8]
		var ty types.Type = by
		for i := range ex.Args {
			v := e.eval(arg(i))
			if i == 0 {
				elem = e.elemType(v)
				if _, ok := v.v.(*SliceVal); ok {
					ty = v.t
				}
			}
			ts = append(ts, e.term(v))
		}
		return SV{pureSlice(cat(ts...), tFalse, elem), ty}
	case "unit":
		if v := e.eval(arg(0)); v.t != nil && !isInteger(v.t) {
			return SV{pureSlice(mk(sSq, "unit", boxElem(e.st.toTerm(v.v, v.t))), tFalse, v.t), types.NewSlice(v.t)}
		}
		return bytes(unit(t(0)))
	case "singleton":
		v := e.eval(arg(0))
		return SV{pureSlice(mk(sSq, "unit", boxElem(e.st.toTerm(v.v, v.t))), tFalse, v.t), types.NewSlice(v.t)}
	case "empty":
		return bytes(sEmpty)
	case "be16":
		return bytes(mk(sBy, "be16", t(0)))
	case "be32":
		return bytes(mk(sBy, "be32", t(0)))
	case "dec16":
		return SV{mk(sInt, "dec16", t(0)), it}
	case "dec32":
		return SV{mk(sInt, "dec32", t(0)), it}
	case "u16":
		return SV{wrap(t(0), types.Typ[types.Uint16]), it}
	case "u32":
		return SV{wrap(t(0), types.Typ[types.Uint32]), it}
	case "s16":
		return SV{wrap(t(0), types.Typ[types.Int16]), it}
	case "s32":
		return SV{wrap(t(0), types.Typ[types.Int32]), it}
	case "hasNul":
		return SV{mk(sBool, "hasNul", t(0)), bt}
	case "firstNul":
		return SV{mk(sInt, "firstNul", t(0)), it}
	case "isnil":
		return SV{e.st.x.isNil(e.eval(arg(0)).v), bt}
	case "old":
		if e.old == nil {
			return e.fail("old() is not available here")
		}
		return e.old.eval(arg(0))
	case "typeof": // typeof(x, T): the dynamic type of x is T
		v := e.eval(arg(0))
		ty := e.w.resolveType(arg(1), e.pkg)
		if iv, ok := v.v.(*IfaceVal); ok {
			if types.Identical(iv.dyn, ty) {
				return SV{tTrue, bt}
			}
			return SV{tFalse, bt}
		}
		return SV{eq(fn("typ", sInt, e.term(v)), typeID(ty)), bt}
	case "as": // as(x, T): x seen as a value of type T
		v := e.eval(arg(0))
		ty := e.w.resolveType(arg(1), e.pkg)
		if iv, ok := v.v.(*IfaceVal); ok {
			return SV{iv.v, iv.dyn}
		}
		return SV{v.v, ty}
	case "ptr": // ptr(n, T)
		ty := e.w.resolveType(arg(1), e.pkg)
		return SV{t(0), ty}
	case "unboxed": // unboxed(x, T): value of a non-pointer type T stored in the interface x
		v := e.eval(arg(0))
		ty := e.w.resolveType(arg(1), e.pkg)
		if iv, ok := v.v.(*IfaceVal); ok {
			return SV{iv.v, iv.dyn}
		}
		return SV{e.st.fromTerm(fn("unbox_"+sanitize(typeName(ty)), sortOf(ty), e.term(v)), ty), ty}
	case "has": // has(m, k): key in a map
		m := e.eval(arg(0))
		k := t(1)
		return SV{e.mapHas(m, k), bt}
	case "wire":
		return bytes(e.wire(e.eval(arg(0))))
	}
	if sf, ok := contracts.specs[name]; ok {
		return e.applySpec(sf, ex.Args)
	}
	if f, ok := flats[name]; ok {
		return bytes(mkFlat(f, t(0)))
	}
	if ss, ok := contracts.ufuncs[name]; ok {
		if name == "accepts1" {
			// the result of a function that is known here
			if fv := e.eval(arg(0)); e.st.x != nil {
				if f, isF := fv.v.(*FuncVal); isF || e.st.x.funcs[e.term(fv)] != nil {
					_ = f
					return specApply(e, ex.Args)
				}
			}
		}
		var as []*Term
		for i := range ex.Args {
			as = append(as, t(i))
		}
		r := ss[len(ss)-1]
		for i := range as {
			if i < len(ss)-1 && as[i].sort != sortAlias(ss[i]) {
				e.fail("argument %d of %s has the sort %s", i, name, as[i].sort)
			}
		}
		decls["u_"+name] = declOf(ss)
		return e.wrapSort(mk(sortAlias(r), "u_"+name, as...), r)
	}
	if g := ghostFn(e, name, ex.Args); g != nil {
		return *g
	}
	return e.fail("unknown function %s", name)
}

func (e *Env) wrapSort(t *Term, s string) SV {
	switch s {
	case "bytes":
		return SV{pureSlice(t, tFalse, types.Typ[types.Uint8]), types.NewSlice(types.Typ[types.Uint8])}
	case "string":
		return SV{t, types.Typ[types.String]}
	case "bool":
		return SV{t, types.Typ[types.Bool]}
	}
	return SV{t, types.Typ[types.Int]}
}

func sortAlias(s string) string {
	switch s {
	case "bytes", "string", "By":
		return sBy
	case "bool", "Bool":
		return sBool
	case "seq", "Sq":
		return sSq
	}
	return sInt
}

func declOf(ss []string) string {
	var as []string
	for _, a := range ss[:len(ss)-1] {
		as = append(as, sortAlias(a))
	}
	return "(" + strings.Join(as, " ") + ") " + sortAlias(ss[len(ss)-1])
}

func (e *Env) applySpec(sf *SpecFunc, args []ast.Expr) SV {
	if len(args) != len(sf.params) {
		return e.fail("%s takes %d arguments", sf.name, len(sf.params))
	}
	n := &Env{st: e.st, pkg: e.pkg, w: e.w, vars: map[string]SV{}, neg: e.neg}
	if e.old != nil {
		n.old = &Env{st: e.old.st, pkg: e.pkg, w: e.w, vars: map[string]SV{}}
	}
	for i, p := range sf.params {
		v := e.eval(args[i])
		if p.typ != nil {
			if ty := e.w.resolveType(p.typ, e.pkg); ty != nil {
				if iv, ok := v.v.(*IfaceVal); ok && types.Identical(ty, iv.dyn) {
					v = SV{iv.v, ty}
				} else if v.t == nil || !types.Identical(v.t, ty) {
					v = SV{v.v, ty}
				}
			}
		}
		n.vars[p.name] = v
		if n.old != nil {
			n.old.vars[p.name] = v
		}
	}
	return n.eval(sf.body)
}

// patterns picks the element accesses that mention the bound variable as triggers.
func patterns(body, q *Term) []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] || !t.free {
			return
		}
		seen[t] = true
		if (t.op == "nth" || t.op == "select") && t.args[1] == q && !mentions(t.args[0], q) {
			out = append(out, t)
		} else if t.op != "forall" && len(t.args) > 0 && !logicalOp(t.op) && !isArith(t.op) {
			for _, a := range t.args {
				if a == q {
					out = append(out, t)
					break
				}
			}
		}
		for _, a := range t.args {
			rec(a)
		}
	}
	rec(body)
	if len(out) > 6 {
		out = out[:6]
	}
	return out
}

func isArith(op string) bool {
	switch op {
	case "lin", "<", "<=", "=", "*", "div", "mod", "ite":
		return true
	}
	return false
}

func logicalOp(op string) bool {
	switch op {
	case "and", "or", "not", "=>", "=", "ite", "<", "<=", "lin", "num", "seq.eq":
		return true
	}
	return false
}

func mentions(t, q *Term) bool {
	if t == q {
		return true
	}
	if !t.free {
		return false
	}
	for _, a := range t.args {
		if mentions(a, q) {
			return true
		}
	}
	return false
}

// quiet is a copy of the state whose assumptions (type facts about bound variables) are discarded.
func (s *State) quiet() *State {
	c := s.clone()
	return c
}
