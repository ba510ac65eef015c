package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// PC is the persistent list of assumptions of a path.
type PC struct {
	up   *PC
	t    *Term
	cand *Cand // the assumption is only made while the candidate invariant is alive
}

type Deferred struct {
	call ssa.CallCommon
	args []Val
	fn   Val
	pos  token.Pos
}

type Frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]Val
	loops  []*LoopInst
	unroll map[*ssa.BasicBlock]int
	defers []Deferred
	ret    func(*State, []Val)
	named  []Val
}

func (f *Frame) clone() *Frame {
	c := *f
	c.env = make(map[ssa.Value]Val, len(f.env))
	for k, v := range f.env {
		c.env[k] = v
	}
	c.loops = append([]*LoopInst(nil), f.loops...)
	c.defers = append([]Deferred(nil), f.defers...)
	if f.unroll != nil {
		c.unroll = map[*ssa.BasicBlock]int{}
		for k, v := range f.unroll {
			c.unroll[k] = v
		}
	}
	return &c
}

type State struct {
	frameBase int // where the frames of the goroutine begin
	x         *Exec
	pc        *PC
	facts     map[*Term]bool
	objs      map[int]*Obj
	heap      map[string]*Term
	toks      map[int]bool
	frames    []*Frame
	ghost     map[string]Val
	locks     map[string]*Lock
	trace     []string
	killed    bool
	perms     map[string]bool
	epoch     int

	condToks []condTok
	absent   map[string]*Term // tracked key -> it was not in the map when the lock was last released
	newRefs  map[*Term]bool
	sections []section
	joins    map[*Term][]*Thread // local wait group -> goroutines that report to it
}

type Lock struct {
	key   string
	ref   *Term
	class string
	field string
	rd    bool
	at    *State
}

func (s *State) clone() *State {
	c := *s
	c.objs = make(map[int]*Obj, len(s.objs))
	for k, v := range s.objs {
		c.objs[k] = v
	}
	c.heap = make(map[string]*Term, len(s.heap))
	for k, v := range s.heap {
		c.heap[k] = v
	}
	c.facts = make(map[*Term]bool, len(s.facts))
	for k, v := range s.facts {
		c.facts[k] = v
	}
	c.toks = make(map[int]bool, len(s.toks))
	for k, v := range s.toks {
		c.toks[k] = v
	}
	c.ghost = make(map[string]Val, len(s.ghost))
	for k, v := range s.ghost {
		c.ghost[k] = v
	}
	c.locks = make(map[string]*Lock, len(s.locks))
	for k, v := range s.locks {
		c.locks[k] = v
	}
	c.perms = make(map[string]bool, len(s.perms))
	for k, v := range s.perms {
		c.perms[k] = v
	}
	c.frames = make([]*Frame, len(s.frames))
	for i, f := range s.frames {
		c.frames[i] = f.clone()
	}
	c.trace = append([]string(nil), s.trace...)
	return &c
}

// snapshot for old(): frames are not needed
func (s *State) snapshot() *State {
	c := s.clone()
	c.frames = nil
	return c
}

func (s *State) top() *Frame { return s.frames[len(s.frames)-1] }

func (s *State) assume(t *Term) {
	if t == tTrue || s.facts[t] {
		return
	}
	if t.op == "and" {
		for _, a := range t.args {
			s.assume(a)
		}
		return
	}
	s.facts[t] = true
	if s.facts[not(t)] || t == tFalse {
		s.killed = true
	}
	s.pc = &PC{up: s.pc, t: t}
}

func (s *State) assumeCand(t *Term, c *Cand) {
	if t == tTrue {
		return
	}
	s.pc = &PC{up: s.pc, t: t, cand: c}
}

// known decides a condition syntactically.
func (s *State) known(t *Term) (bool, bool) {
	if t == tTrue || s.facts[t] {
		return true, true
	}
	if t == tFalse || s.facts[not(t)] {
		return false, true
	}
	switch t.op {
	case "and":
		all := true
		for _, a := range t.args {
			v, ok := s.known(a)
			if ok && !v {
				return false, true
			}
			if !ok {
				all = false
			}
		}
		if all {
			return true, true
		}
	case "or":
		all := true
		for _, a := range t.args {
			v, ok := s.known(a)
			if ok && v {
				return true, true
			}
			if !ok {
				all = false
			}
		}
		if all {
			return false, true
		}
	case "not":
		v, ok := s.known(t.args[0])
		return !v, ok
	case "<", "<=":
		if b, ok := bounds(sub(t.args[0], t.args[1])); ok {
			if t.op == "<" {
				if b.hi.Sign() < 0 {
					return true, true
				}
				if b.lo.Sign() >= 0 {
					return false, true
				}
			} else {
				if b.hi.Sign() <= 0 {
					return true, true
				}
				if b.lo.Sign() > 0 {
					return false, true
				}
			}
		}
	}
	return false, false
}

func (s *State) newObj(t types.Type, v Val, name string) *Obj {
	s.x.nobj++
	o := &Obj{id: s.x.nobj, t: t, v: v, name: name}
	s.objs[o.id] = o
	return o
}

func (s *State) obj(id int) *Obj {
	o := s.objs[id]
	if o == nil {
		panic(unsupported{fmt.Sprintf("object %d does not exist on this path", id)})
	}
	return o
}

// mut returns a writable copy of the object.
func (s *State) mut(id int) *Obj {
	o := s.obj(id).clone()
	s.objs[id] = o
	return o
}

func (s *State) newTok() int {
	s.x.ntok++
	s.toks[s.x.ntok] = true
	return s.x.ntok
}

// unsupported is raised for code outside of the supported subset: it becomes a failed obligation.
type unsupported struct{ msg string }

// ---- sequences of slices

func (s *State) seqOf(v *SliceVal) *Term {
	if v.obj != 0 {
		o := s.obj(v.obj)
		if o.stale {
			panic(unsupported{"read of a slice that shares its memory with a changed one"})
		}
		c := o.v.(*Term)
		if v.off.isNum() && v.off.val.Sign() == 0 && v.n == slen(c) {
			return c
		}
		return take(drop(c, v.off), v.n)
	}
	return v.seq
}

func (s *State) lenOf(v *SliceVal) *Term {
	if v.obj != 0 {
		return v.n
	}
	return slen(v.seq)
}

func pureSlice(seq, nilp *Term, elem types.Type) *SliceVal {
	return &SliceVal{seq: seq, nil_: nilp, elem: elem, off: num(0)}
}

func (s *State) freezeSlice(v *SliceVal) *SliceVal {
	if v.obj == 0 {
		return v
	}
	seq := s.seqOf(v)
	o := s.mut(v.obj)
	o.frozen = true
	return &SliceVal{seq: seq, nil_: v.nil_, elem: v.elem, off: num(0), tok: v.tok}
}

// ---- boxing

func slFn(sort string, id *Term) *Term {
	if sort == sBy {
		if id.op == "bx" {
			return id.args[0]
		}
		if id.isNum() && id.val.Sign() == 0 {
			return sEmpty
		}
		return mk(sBy, "sl", id)
	}
	if id.op == "bxq" {
		return id.args[0]
	}
	if id.isNum() && id.val.Sign() == 0 {
		return empty(sSq)
	}
	return mk(sSq, "slq", id)
}

func nilpFn(id *Term) *Term {
	if id.op == "bx" || id.op == "bxq" {
		return id.args[1]
	}
	if id.isNum() && id.val.Sign() == 0 {
		return tTrue
	}
	return mk(sBool, "nilp", id)
}

func boxSlice(seq, nilp *Term) *Term {
	if seq.sort == sBy {
		if seq.op == "sl" && nilp.op == "nilp" && seq.args[0] == nilp.args[0] {
			return seq.args[0]
		}
		return mk(sInt, "bx", seq, nilp)
	}
	if seq.op == "slq" && nilp.op == "nilp" && seq.args[0] == nilp.args[0] {
		return seq.args[0]
	}
	return mk(sInt, "bxq", seq, nilp)
}

// boxElem turns a value of a field or element type into an Int (the element sort of sequences).
func boxElem(t *Term) *Term {
	switch t.sort {
	case sBool:
		return ite(t, num(1), num(0))
	case sBy:
		return boxSlice(t, tFalse)
	}
	return t
}

func unboxElem(t *Term, ty types.Type) *Term {
	switch {
	case isBool(ty):
		return eq(t, num(1))
	case isString(ty):
		return slFn(sBy, t)
	}
	return t
}

// toTerm converts a value to a term of sort sortOf(type); local objects escape.
func (s *State) toTerm(v Val, t types.Type) *Term {
	switch v := v.(type) {
	case *Term:
		return v
	case *SliceVal:
		v = s.freezeSlice(v)
		return boxSlice(v.seq, v.nil_)
	case *PtrVal:
		return s.escape(v)
	case *IfaceVal:
		return s.ifaceTerm(v)
	case *FuncVal:
		return s.funcTerm(v)
	case *MapVal:
		return s.publishMap(v)
	case *StructVal:
		// boxed struct value
		r := s.x.newRef("struct")
		st := under(v.t).(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			s.assume(eq(fieldFn(v.t, i, r), s.toTerm(v.fs[i], st.Field(i).Type())))
		}
		return r
	case *RTypeVal:
		return mkDistinct("rtype_" + sanitize(typeName(v.t)))
	case *ArrayVal:
		return v.seq
	case *HeapPtr:
		// interior pointer: identified by the object and the field
		return fn("fieldaddr_"+sanitize(typeName(v.strct))+"_"+fmt.Sprint(v.field), sInt, v.ref)
	case *OpaqueVal:
		return v.id(s)
	}
	panic(unsupported{fmt.Sprintf("cannot convert %T (%s) to a term", v, t)})
}

// fromTerm is the inverse of toTerm.
func (s *State) fromTerm(x *Term, t types.Type) Val {
	switch u := under(t).(type) {
	case *types.Slice:
		ss := seqSort(u.Elem())
		s.lenFact(slFn(ss, x))
		return &SliceVal{seq: slFn(ss, x), nil_: nilpFn(x), elem: u.Elem(), off: num(0)}
	case *types.Basic:
		if isString(t) {
			s.lenFact(x)
		}
		if isInteger(t) && !x.isNum() {
			if _, ok := bounds(x); !ok {
				s.assume(rangeFact(x, t))
				if !x.free {
					lo, hi, _, _ := intRange(t)
					if x.op != "lin" && x.op != "ite" {
						knownBounds[x] = interval{lo, hi}
					}
				}
			}
		}
		return x
	case *types.Struct:
		sv := &StructVal{t: t}
		for i := 0; i < u.NumFields(); i++ {
			sv.fs = append(sv.fs, s.fromTerm(fieldFn(t, i, x), u.Field(i).Type()))
		}
		return sv
	case *types.Array:
		return &ArrayVal{t: u, seq: x}
	case *types.Signature:
		if f := s.x.funcs[x]; f != nil {
			return f
		}
		return x
	}
	return x
}

// lenFact bounds the length of a slice or string that is read from memory.
func (s *State) lenFact(x *Term) {
	if s.x != nil && !x.free && (x.op == "sl" || x.op == "slq" || strings.HasPrefix(x.op, "fld_")) {
		s.assume(le(slen(x), bignum(maxLen)))
	}
}

// fieldFn is the value of a field of an immutable object.
func fieldFn(t types.Type, i int, ref *Term) *Term {
	st := under(t).(*types.Struct)
	f := st.Field(i)
	so := fieldSort(f.Type())
	name := "fld_" + sanitize(typeName(t)) + "_" + f.Name()
	fldTypes[name] = f.Type()
	fldOwner[name] = fieldID{t, i}
	return fn(name, so, ref)
}

func fieldSort(t types.Type) string {
	if a, ok := under(t).(*types.Array); ok {
		return seqSort(a.Elem())
	}
	return sortOf(t)
}

func (x *Exec) newRef(prefix string) *Term {
	x.nref++
	t := mkDistinct(fmt.Sprintf("%s!%d", sanitize(prefix), x.nref))
	x.newRefs = append(x.newRefs, t)
	return t
}

// escape turns a pointer to a local object into a reference of the symbolic heap. The object is immutable from here on
// unless its type is declared mutable.
func (s *State) escape(p *PtrVal) *Term {
	o := s.obj(p.obj)
	if len(p.path) > 0 {
		o2 := s.mut(p.obj)
		o2.frozen = true
		nm := fmt.Sprintf("inner_%d", p.obj)
		for _, e := range p.path {
			if e.index != nil {
				nm += "_i" + fmt.Sprint(e.index.id)
			} else {
				nm += "_" + fmt.Sprint(e.field)
			}
		}
		return mkDistinct(nm)
	}
	if o.ref != nil {
		return o.ref
	}
	ref := s.x.newRef("new_" + sanitize(typeName(o.t)))
	o = s.mut(p.obj)
	o.ref = ref
	o.frozen = true
	s.assume(eq(fn("typ", sInt, ref), typeID(types.NewPointer(o.t))))
	if sv, ok := o.v.(*StructVal); ok {
		st := under(sv.t).(*types.Struct)
		mc := contracts.mutable[typeName(o.t)]
		for i := 0; i < st.NumFields(); i++ {
			ft := st.Field(i).Type()
			if _, op := sv.fs[i].(*OpaqueVal); op {
				continue
			}
			if _, ok := sv.fs[i].(*StructVal); ok {
				continue
			}
			v := s.toTerm(sv.fs[i], ft)
			if mc != nil && mc.guarded[st.Field(i).Name()] != "" {
				s.heapStore(o.t, i, ref, v)
			} else {
				s.assume(eq(fieldFn(o.t, i, ref), v))
			}
		}
		s.x.onEscape(s, o, ref)
	} else if _, ok := o.v.(*OpaqueVal); !ok {
		// a shared variable: only its identity escapes
		s.x.onEscapeVar(s, o, ref)
	}
	return ref
}

func (s *State) ifaceTerm(v *IfaceVal) *Term {
	if _, ok := under(v.dyn).(*types.Pointer); ok {
		r := s.toTerm(v.v, v.dyn)
		nonnil := not(eq(r, num(0)))
		tid := typeID(v.dyn)
		if k, ok := s.known(nonnil); (ok && k) || distinctConst(r) {
			s.assume(eq(fn("typ", sInt, r), tid))
			s.x.ifaceFacts(s, r, v)
			return r
		}
		tn := mkDistinct("typednil_" + sanitize(typeName(v.dyn)))
		s.assume(implies(nonnil, eq(fn("typ", sInt, r), tid)))
		return ite(nonnil, r, tn)
	}
	// values are boxed
	r := s.x.newRef("iface_" + sanitize(typeName(v.dyn)))
	s.assume(eq(fn("typ", sInt, r), typeID(v.dyn)))
	switch v.v.(type) {
	case *OpaqueVal:
	default:
		if _, isStruct := under(v.dyn).(*types.Struct); !isStruct {
			t := s.toTerm(v.v, v.dyn)
			s.assume(eq(fn("unbox_"+sanitize(typeName(v.dyn)), t.sort, r), t))
			if isString(v.dyn) && s.x.con != nil && s.x.inCli() {
				s.assume(eq(aboutFn(r), aboutFn(t)))
			}
		}
	}
	s.x.ifaceFacts(s, r, v)
	return r
}

func (s *State) funcTerm(v *FuncVal) *Term {
	if v.term != nil {
		return v.term
	}
	nm := v.name
	if v.fn != nil {
		nm = v.fn.Name()
	}
	if v.fn != nil && len(v.bind) == 0 {
		t := mkDistinct("func_" + sanitize(shortName(v.fn)))
		s.x.funcs[t] = v
		return t
	}
	r := s.x.newRef("closure_" + nm)
	v2 := *v
	v2.term = r
	s.x.funcs[r] = &v2
	return r
}

// ---- heap of mutable classes

func heapKey(t types.Type, i int) string {
	st := under(t).(*types.Struct)
	return "f:" + typeName(t) + "." + st.Field(i).Name()
}

func (s *State) heapArr(key, elemSort string) *Term {
	if a, ok := s.heap[key]; ok {
		return a
	}
	a := cnst("H0_"+sanitize(key), arrSort(elemSort))
	s.heap[key] = a
	return a
}

func (s *State) heapLoad(t types.Type, i int, ref *Term) *Term {
	st := under(t).(*types.Struct)
	return sel(s.heapArr(heapKey(t, i), fieldSort(st.Field(i).Type())), ref)
}

func (s *State) heapStore(t types.Type, i int, ref, v *Term) {
	k := heapKey(t, i)
	st := under(t).(*types.Struct)
	s.heap[k] = store(s.heapArr(k, fieldSort(st.Field(i).Type())), ref, v)
}

// OpaqueVal is the content of an object of a library type with a built-in model.
type OpaqueVal struct {
	t types.Type
	m map[string]Val
}

func (o *OpaqueVal) with(k string, v Val) *OpaqueVal {
	n := &OpaqueVal{t: o.t, m: map[string]Val{}}
	for a, b := range o.m {
		n.m[a] = b
	}
	n.m[k] = v
	return n
}

func (o *OpaqueVal) id(s *State) *Term {
	if t, ok := o.m["id"].(*Term); ok {
		return t
	}
	return fresh("opaque", sInt)
}
