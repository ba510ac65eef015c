package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// mapContent is the content of a local map; keys and values are boxed.
type mapContent struct {
	dom *Term // (Array Int Bool)
	val *Term // (Array Int Int)
	n   *Term // number of entries
}

func (m *mapContent) havoc(name string) *mapContent {
	n := fresh(name+"_n", sInt)
	return &mapContent{dom: fresh(name+"_dom", arrSort(sBool)), val: fresh(name+"_val", arrSort(sInt)), n: n}
}

func (x *Exec) newMap(st *State, m *types.Map) Val {
	o := st.newObj(m, &mapContent{dom: constArr(tFalse), val: constArr(num(0)), n: num(0)}, "map")
	o.kind = "map"
	return &MapVal{obj: o.id, kt: m.Key(), vt: m.Elem()}
}

func mapSel(st *State, m *MapVal, k *Term) *Term {
	if o := st.obj(m.obj); o.ref != nil {
		_, v := st.hmap(o.ref)
		return sel(v, k)
	}
	c := st.obj(m.obj).v.(*mapContent)
	return sel(c.val, k)
}

const kDom, kVal, kCard = "mapdom", "mapval", "mapcard"

func (s *State) hmap(ref *Term) (dom, val *Term) {
	d := s.heapArr(kDom, arrSort(sBool))
	v := s.heapArr(kVal, arrSort(sInt))
	return sel(d, ref), sel(v, ref)
}

func (s *State) hcard(ref *Term) *Term { return sel(s.heapArr(kCard, sInt), ref) }

func (s *State) setHmap(ref, dom, val, n *Term) {
	s.heap[kDom] = store(s.heapArr(kDom, arrSort(sBool)), ref, dom)
	s.heap[kVal] = store(s.heapArr(kVal, arrSort(sInt)), ref, val)
	s.heap[kCard] = store(s.heapArr(kCard, sInt), ref, n)
}

func (s *State) publishMap(m *MapVal) *Term {
	o := s.obj(m.obj)
	if o.ref != nil {
		return o.ref
	}
	ref := s.x.newRef("map")
	c := o.v.(*mapContent)
	s.setHmap(ref, c.dom, c.val, c.n)
	o2 := s.mut(m.obj)
	o2.ref = ref
	o2.frozen = true
	return ref
}

func (s *State) heapMapVal(ref *Term, mt *types.Map, k *Term) *Term {
	_, v := s.hmap(ref)
	return sel(v, k)
}

func (e *Env) domOf(m SV) *Term {
	switch v := m.v.(type) {
	case *MapVal:
		o := e.st.obj(v.obj)
		if o.ref != nil {
			d, _ := e.st.hmap(o.ref)
			return d
		}
		return o.v.(*mapContent).dom
	case *Term:
		if v.isNum() && v.val.Sign() == 0 {
			return constArr(tFalse)
		}
		d, _ := e.st.hmap(v)
		return d
	}
	panic(specError{"domain of " + errVal(m.v)})
}

func (e *Env) boxKey(v SV) *Term { return boxElem(e.term(v)) }

func (e *Env) mapHas(m SV, k *Term) *Term {
	h := sel(e.domOf(m), boxElem(k))
	if v, ok := m.v.(*Term); ok && !v.isNum() {
		nn := not(eq(v, num(0)))
		if t, ok := e.st.known(nn); !ok || !t {
			return and(nn, h)
		}
	}
	return h
}

func (x *Exec) keyTerm(st *State, v Val, t types.Type) *Term { return boxElem(st.toTerm(v, t)) }

// ---- instructions

func (x *Exec) mapParts(st *State, m Val, mt *types.Map) (dom, val, n *Term, ref *Term) {
	switch v := m.(type) {
	case *MapVal:
		o := st.obj(v.obj)
		if o.ref != nil {
			d, vv := st.hmap(o.ref)
			return d, vv, st.hcard(o.ref), o.ref
		}
		c := o.v.(*mapContent)
		return c.dom, c.val, c.n, nil
	case *Term:
		if isNilConst(v) {
			return constArr(tFalse), constArr(num(0)), num(0), v
		}
		d, vv := st.hmap(v)
		return d, vv, st.hcard(v), v
	}
	panic(unsupported{"map operation on " + errVal(m)})
}

func (x *Exec) lookup(st *State, in *ssa.Lookup, k func(*State, Val)) {
	m := x.val(st, in.X)
	key := x.val(st, in.Index)
	if s, ok := m.(*Term); ok && s.sort == sBy {
		i := key.(*Term)
		x.oblige(st, "bounds", "index out of range", in.Pos(), and(le(num(0), i), lt(i, slen(s))))
		k(st, nth(s, i))
		return
	}
	mt := under(in.X.Type()).(*types.Map)
	fin := func(st *State, v Val, ok *Term) {
		if in.CommaOk {
			k(st, TupleVal{v, ok})
			return
		}
		k(st, v)
	}
	if c, ok := m.(*ConstMapVal); ok {
		kt := x.keyTerm(st, key, mt.Key())
		for i := range c.keys {
			e := eq(kt, boxElem(c.keys[i]))
			if e == tFalse {
				continue
			}
			if e == tTrue {
				fin(st, c.vals[i], tTrue)
				return
			}
			s2 := st.clone()
			s2.assume(e)
			if !s2.killed {
				fin(s2, c.vals[i], tTrue)
			}
			st.assume(not(e))
		}
		if !st.killed {
			fin(st, x.zero(st, c.vt), tFalse)
		}
		return
	}
	kt := x.keyTerm(st, key, mt.Key())
	dom, val, _, ref := x.mapParts(st, m, mt)
	if ref != nil && !isNilConst(ref) {
		x.mapAccess(st, ref, false, in.Pos())
	}
	has := sel(dom, kt)
	if ref != nil && !isNilConst(ref) {
		has = and(not(eq(ref, num(0))), has)
	}
	raw := sel(val, kt)
	if v, ok := st.known(has); ok {
		if v {
			fin(st, st.fromTerm(unboxElem(raw, mt.Elem()), mt.Elem()), tTrue)
		} else {
			fin(st, x.zero(st, mt.Elem()), tFalse)
		}
		return
	}
	z := x.zero(st, mt.Elem())
	if zt, ok := z.(*Term); ok {
		v := st.fromTerm(unboxElem(raw, mt.Elem()), mt.Elem())
		fin(st, ite(has, v.(*Term), zt), has)
		return
	}
	s2 := st.clone()
	st.assume(has)
	fin(st, st.fromTerm(unboxElem(raw, mt.Elem()), mt.Elem()), tTrue)
	s2.assume(not(has))
	fin(s2, x.zero(s2, mt.Elem()), tFalse)
}

func (x *Exec) mapUpdate(st *State, in *ssa.MapUpdate) {
	m := x.val(st, in.Map)
	mt := under(in.Map.Type()).(*types.Map)
	if _, ok := m.(*ConstMapVal); ok {
		x.fail(st, "frame", "write to a package-level map", in.Pos())
		return
	}
	k := x.keyTerm(st, x.val(st, in.Key), mt.Key())
	v := boxElem(st.toTerm(x.val(st, in.Value), mt.Elem()))
	dom, val, n, ref := x.mapParts(st, m, mt)
	n2 := ite(sel(dom, k), n, add(n, num(1)))
	if ref != nil {
		x.oblige(st, "nil", "assignment to an entry of a nil map", in.Pos(), not(eq(ref, num(0))))
		x.mapAccess(st, ref, true, in.Pos())
		x.subscribed(st, ref, k, true)
		st.setHmap(ref, store(dom, k, tTrue), store(val, k, v), n2)
		return
	}
	st.mut(m.(*MapVal).obj).v = &mapContent{dom: store(dom, k, tTrue), val: store(val, k, v), n: n2}
}

func (x *Exec) mapDelete(st *State, m, key Val, t types.Type, in ssa.CallCommon, pos token.Pos) {
	mt := under(t).(*types.Map)
	k := x.keyTerm(st, key, mt.Key())
	dom, val, n, ref := x.mapParts(st, m, mt)
	n2 := ite(sel(dom, k), sub(n, num(1)), n)
	if ref != nil {
		if isNilConst(ref) {
			return
		}
		x.mapAccess(st, ref, true, pos)
		x.subscribed(st, ref, k, false)
		// deleting from a nil map does nothing; the content of the nil map stays empty either way
		st.setHmap(ref, store(dom, k, tFalse), val, n2)
		return
	}
	st.mut(m.(*MapVal).obj).v = &mapContent{dom: store(dom, k, tFalse), val: val, n: n2}
}

// ---- iteration

func (x *Exec) rangeIter(st *State, in *ssa.Range) Val {
	m := x.val(st, in.X)
	if t, ok := m.(*Term); ok && t.sort == sBy {
		panic(unsupported{"range over a string"})
	}
	mt, ok := under(in.X.Type()).(*types.Map)
	if !ok {
		panic(unsupported{"range over " + in.X.Type().String()})
	}
	dom, _, _, ref := x.mapParts(st, m, mt)
	if ref != nil && !isNilConst(ref) {
		x.mapAccess(st, ref, false, in.Pos())
		dom = ite(eq(ref, num(0)), constArr(tFalse), dom)
	}
	o := st.newObj(visitedType, constArr(tFalse), "visited")
	o.kind = "iter"
	return &IterVal{m: m, id: o.id, seq: dom}
}

func (x *Exec) next(st *State, in *ssa.Next, k func(*State, Val)) {
	it := x.val(st, in.Iter).(*IterVal)
	mt := under(in.Iter.(*ssa.Range).X.Type()).(*types.Map)
	dom, val, _, ref := x.mapParts(st, it.m, mt)
	if ref != nil && !isNilConst(ref) {
		x.mapAccess(st, ref, false, in.Pos())
	}
	vis := st.obj(it.id).v.(*Term)
	zk, zv := x.zero(st, mt.Key()), x.zero(st, mt.Elem())
	// the end: everything that was there at the start and still is has been visited
	s2 := st.clone()
	if cv, ok := constDom(dom); !ok || !cv {
		key := fresh("key", sInt)
		st.assume(sel(dom, key))
		if ref != nil {
			st.assume(not(eq(ref, num(0))))
		}
		st.assume(not(sel(vis, key)))
		st.trace = append(st.trace, x.pos(in.Pos())+" next")
		st.mut(it.id).v = store(vis, key, tTrue)
		var kv, vv Val = zk, zv
		kv = st.fromTerm(unboxElem(key, mt.Key()), mt.Key())
		if isString(mt.Key()) {
			st.assume(eq(boxElem(kv.(*Term)), key))
		}
		vv = st.fromTerm(unboxElem(sel(val, key), mt.Elem()), mt.Elem())
		if ref != nil {
			x.keyFacts(st, ref, kv, mt.Key())
		}
		if !st.killed {
			k(st, TupleVal{tTrue, kv, vv})
		}
	}
	q := newBound(sInt)
	s2.assume(forall([]*Term{q}, implies(and(mk(sBool, "select", dom, q), mk(sBool, "select", it.seq, q)), mk(sBool, "select", vis, q)), patSel(q, dom, vis)...))
	s2.trace = append(s2.trace, x.pos(in.Pos())+" end")
	k(s2, TupleVal{tFalse, zk, zv})
}

func patSel(q *Term, arrs ...*Term) []*Term {
	var out []*Term
	for _, a := range arrs {
		if a.op == "constarr" || a.op == "ite" {
			continue
		}
		base := a
		for base.op == "store" {
			base = base.args[0]
		}
		if base.op == "constarr" || base.op == "ite" {
			continue
		}
		out = append(out, mk("Bool", "select", a, q))
	}
	return out
}

func constDom(d *Term) (bool, bool) {
	if d.op == "constarr" && d.args[0] == tFalse {
		return true, true
	}
	return false, false
}

var _ = fmt.Sprint

// visitedType marks the set of the keys that an iteration over a map has seen (role type "visited").
var visitedType = types.NewNamed(types.NewTypeName(0, nil, "visited", nil), types.NewStruct(nil, nil), nil)

func init() {
	// visited(it, k): the iteration has been at the key k
	concSpec["visited"] = func(e *Env, args []ast.Expr) SV {
		if len(args) != 2 {
			panic(specError{"visited(iteration, key)"})
		}
		v := e.eval(args[0])
		t, ok := v.v.(*Term)
		if !ok {
			panic(specError{"visited of " + errVal(v.v)})
		}
		return SV{sel(t, boxElem(e.term(e.eval(args[1])))), types.Typ[types.Bool]}
	}
}
