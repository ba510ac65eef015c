package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Obligation is a proof obligation generated from the code.
type Obligation struct {
	Unit   string
	Kind   string // ensures, requires, invariant, bounds, nil, ...
	Label  string
	Pos    string
	assume *PC
	goal   *Term
	cand   *Cand    // candidate invariant this obligation belongs to
	meas   *Measure // termination measure
	cover  bool     // must NOT be provable
	Status string   // proved, failed
	Prover string
	Detail string
	Trace  []string
	props  []string
	main   bool
	ante   *Term // antecedent of the clause (for auditVacuity)
	// for the transfer between processes
	Props   []string
	Trivial bool
	Goal    string
}

func (o *Obligation) Name() string { return o.Unit + "/" + o.Kind + "/" + o.Label }

type Exec struct {
	retVars map[string]SV // the parameters and results, at the return
	ante    *Term
	nfailed int32
	w       *World
	unit    string
	nobj    int
	ntok    int
	nref    int
	newRefs []*Term
	funcs   map[*Term]*FuncVal
	obls    []*Obligation
	dry     int
	dryAt   []*dryCtx
	paths   int
	steps   int

	old        *State // entry state
	con        *Contract
	beh        *Behavior
	params     map[string]SV
	invPool    []*Clause
	cands      []*Cand
	measures   [][]*Measure
	needTerm   bool
	allocBound *Clause
	used       map[string]bool // callee contracts used
	inlined    map[string]bool
	trustedUse map[string]bool
	atRet      func(*State, []Val)
	covers     int
	sawRet     int
	noContract map[string]bool
	spawned    []string
	threadOf   string
	loopCount  int
	assumed    map[string]bool
	inlineAll  map[string]bool

	conc       bool // other goroutines run between the steps of this one
	threads    []*Thread
	permTerm   map[string]*Term
	guardedMap map[*Term]*mapGuard
	peek       bool
	taken      map[string]bool
	skolem     map[string]SV
}

type dryCtx struct {
	depth int
	loop  *Loop
	back  func(*State, *ssa.BasicBlock)
}

func (x *Exec) pos(p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	ps := x.w.prog.Fset.Position(p)
	f := ps.Filename
	f = strings.TrimPrefix(f, x.w.dir+"/")
	return fmt.Sprintf("%s:%d", f, ps.Line)
}

// oblige records an obligation and assumes it afterwards.
func (x *Exec) oblige(st *State, kind, label string, p token.Pos, goal *Term) {
	if x.dry == 0 {
		if k, ok := st.known(goal); ok && k {
			goal = tTrue
		}
		x.emit(st, kind, label, p, goal)
	}
	if goal != tFalse {
		st.assume(goal)
	} else {
		st.killed = true
	}
}

func (x *Exec) emit(st *State, kind, label string, p token.Pos, goal *Term) *Obligation {
	o := &Obligation{Unit: x.unit, Kind: kind, Label: label, Pos: x.pos(p), assume: st.pc, goal: goal, Trace: st.trace, ante: x.ante}
	x.ante = nil
	x.obls = append(x.obls, o)
	return o
}

func (x *Exec) fail(st *State, kind, label string, p token.Pos) {
	if x.dry == 0 {
		x.emit(st, kind, label, p, tFalse)
	}
	st.killed = true
}

// ---- running

func (x *Exec) runFunc(st *State, f *ssa.Function, args []Val, bind []Val, ret func(*State, []Val)) {
	if len(st.frames) > 24 {
		panic(unsupported{"call depth limit (recursion) in " + shortName(f)})
	}
	fr := &Frame{fn: f, env: map[ssa.Value]Val{}, ret: ret}
	if len(args) != len(f.Params) {
		panic(unsupported{fmt.Sprintf("call of %s with %d arguments", f, len(args))})
	}
	for i, p := range f.Params {
		fr.env[p] = args[i]
	}
	for i, v := range f.FreeVars {
		fr.env[v] = bind[i]
	}
	st.frames = append(st.frames, fr)
	x.block(st, f.Blocks[0], nil)
}

func (x *Exec) block(st *State, b, prev *ssa.BasicBlock) {
	if st.killed {
		return
	}
	fr := st.top()
	li := x.w.loopsOf(fr.fn)
	// leave loops
	for len(fr.loops) > 0 && !fr.loops[len(fr.loops)-1].loop.blocks[b] {
		if x.dry > 0 {
			d := x.dryAt[len(x.dryAt)-1]
			if len(st.frames) == d.depth && fr.loops[len(fr.loops)-1].loop == d.loop {
				return // dry run ends at the loop exit
			}
		}
		fr.loops = fr.loops[:len(fr.loops)-1]
	}
	if l := li[b]; l != nil {
		if n := len(fr.loops); n > 0 && fr.loops[n-1].loop == l {
			x.loopBack(st, fr.loops[n-1], b, prev)
			return
		}
		if !x.tryUnroll(st, l, b, prev) {
			x.loopEnter(st, l, b, prev)
			return
		}
		return
	}
	x.phis(st, b, prev)
	x.instrs(st, b, firstNonPhi(b))
}

func firstNonPhi(b *ssa.BasicBlock) int {
	i := 0
	for i < len(b.Instrs) {
		if _, ok := b.Instrs[i].(*ssa.Phi); !ok {
			break
		}
		i++
	}
	return i
}

func (x *Exec) phiVals(st *State, b, prev *ssa.BasicBlock) map[*ssa.Phi]Val {
	idx := -1
	for i, p := range b.Preds {
		if p == prev {
			idx = i
		}
	}
	m := map[*ssa.Phi]Val{}
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		m[p] = x.val(st, p.Edges[idx])
	}
	return m
}

func (x *Exec) phis(st *State, b, prev *ssa.BasicBlock) {
	if prev == nil {
		return
	}
	m := x.phiVals(st, b, prev)
	for p, v := range m {
		st.top().env[p] = v
	}
}

func (x *Exec) val(st *State, v ssa.Value) Val {
	switch v := v.(type) {
	case *ssa.Const:
		return x.constVal(st, v)
	case *ssa.Global:
		return &GlobalPtr{v}
	case *ssa.Function:
		return &FuncVal{fn: v}
	case *ssa.Builtin:
		return &FuncVal{name: v.Name()}
	}
	if r, ok := st.top().env[v]; ok {
		return r
	}
	panic(unsupported{fmt.Sprintf("no value for %s in %s", v.Name(), st.top().fn)})
}

func (x *Exec) constVal(st *State, c *ssa.Const) Val {
	t := c.Type()
	if c.Value == nil {
		return x.zero(st, t)
	}
	switch c.Value.Kind() {
	case constant.Bool:
		if constant.BoolVal(c.Value) {
			return tTrue
		}
		return tFalse
	case constant.String:
		return lit(constant.StringVal(c.Value))
	case constant.Int:
		if i, ok := constant.Int64Val(c.Value); ok {
			return num(i)
		}
		if u, ok := constant.Uint64Val(c.Value); ok {
			return bignumU(u)
		}
	}
	panic(unsupported{"constant " + c.String()})
}

func (x *Exec) zero(st *State, t types.Type) Val {
	if o := opaqueZero(t); o != nil {
		return o
	}
	switch u := under(t).(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return tFalse
		case u.Info()&types.IsString != 0:
			return sEmpty
		case u.Info()&types.IsInteger != 0, u.Kind() == types.UntypedNil:
			return num(0)
		}
	case *types.Slice:
		return &SliceVal{seq: empty(seqSort(u.Elem())), nil_: tTrue, elem: u.Elem(), off: num(0), tok: st.newTok()}
	case *types.Struct:
		sv := &StructVal{t: t}
		for i := 0; i < u.NumFields(); i++ {
			sv.fs = append(sv.fs, x.zero(st, u.Field(i).Type()))
		}
		return sv
	case *types.Array:
		return &ArrayVal{t: u, seq: zeros(seqSort(u.Elem()), num(u.Len()))}
	case *types.Pointer, *types.Interface, *types.Map, *types.Chan, *types.Signature:
		return num(0)
	}
	panic(unsupported{"zero value of " + t.String()})
}

func (x *Exec) instrs(st *State, b *ssa.BasicBlock, i int) {
	x.steps++
	if x.steps > 2000000 {
		panic(unsupported{"step limit"})
	}
	for ; i < len(b.Instrs); i++ {
		if st.killed {
			return
		}
		fr := st.top()
		switch in := b.Instrs[i].(type) {
		case *ssa.DebugRef:
		case *ssa.Alloc:
			fr.env[in] = x.alloc(st, in)
		case *ssa.BinOp:
			fr.env[in] = x.binop(st, in.Op, x.val(st, in.X), x.val(st, in.Y), in.X.Type(), in.Y.Type(), in.Type(), in.Pos())
		case *ssa.UnOp:
			if in.Op == token.ARROW {
				bb, ii := b, i
				x.recv(st, in, func(st *State, v Val) {
					st.top().env[in] = v
					x.instrs(st, bb, ii+1)
				})
				return
			}
			fr.env[in] = x.unop(st, in)
		case *ssa.ChangeType:
			v := x.val(st, in.X)
			if f, ok := v.(*FuncVal); ok {
				v = f
			}
			if s, ok := v.(*SliceVal); ok {
				c := *s
				c.elem = under(in.Type()).(*types.Slice).Elem()
				v = &c
			}
			if s, ok := v.(*StructVal); ok {
				v = &StructVal{t: in.Type(), fs: s.fs}
			}
			fr.env[in] = v
		case *ssa.ChangeInterface:
			fr.env[in] = x.val(st, in.X)
		case *ssa.MakeInterface:
			v := x.val(st, in.X)
			fr.env[in] = &IfaceVal{dyn: in.X.Type(), v: v}
		case *ssa.Convert:
			fr.env[in] = x.convert(st, x.val(st, in.X), in.X.Type(), in.Type(), in.Pos())
		case *ssa.MakeClosure:
			f := in.Fn.(*ssa.Function)
			fv := &FuncVal{fn: f}
			for _, bv := range in.Bindings {
				fv.bind = append(fv.bind, x.val(st, bv))
			}
			fr.env[in] = fv
		case *ssa.MakeMap:
			m := under(in.Type()).(*types.Map)
			fr.env[in] = x.newMap(st, m)
		case *ssa.MakeChan:
			fr.env[in] = x.makeChan(st, in)
		case *ssa.MakeSlice:
			fr.env[in] = x.makeSlice(st, in)
		case *ssa.Slice:
			fr.env[in] = x.slice(st, in)
		case *ssa.FieldAddr:
			fr.env[in] = x.fieldAddr(st, x.val(st, in.X), deref(in.X.Type()), in.Field, in.Pos())
		case *ssa.Field:
			v := x.val(st, in.X)
			if s, ok := v.(*StructVal); ok {
				fr.env[in] = s.fs[in.Field]
			} else {
				panic(unsupported{"field of " + errVal(v)})
			}
		case *ssa.IndexAddr:
			fr.env[in] = x.indexAddr(st, in)
		case *ssa.Index:
			fr.env[in] = x.index(st, in)
		case *ssa.Lookup:
			bb, ii := b, i
			x.lookup(st, in, func(st *State, v Val) {
				st.top().env[in] = v
				x.instrs(st, bb, ii+1)
			})
			return
		case *ssa.MapUpdate:
			x.mapUpdate(st, in)
		case *ssa.Extract:
			t := x.val(st, in.Tuple).(TupleVal)
			fr.env[in] = t[in.Index]
		case *ssa.TypeAssert:
			bb, ii := b, i
			x.typeAssert(st, in, func(st *State, v Val) {
				st.top().env[in] = v
				x.instrs(st, bb, ii+1)
			})
			return
		case *ssa.Range:
			fr.env[in] = x.rangeIter(st, in)
		case *ssa.Next:
			bb, ii := b, i
			x.next(st, in, func(st *State, v Val) {
				st.top().env[in] = v
				x.instrs(st, bb, ii+1)
			})
			return
		case *ssa.Store:
			if rawStore(in) {
				continue
			}
			x.store(st, x.val(st, in.Addr), x.val(st, in.Val), in.Pos())
		case *ssa.Send:
			bb, ii := b, i
			x.send(st, x.val(st, in.Chan), x.val(st, in.X), in.Chan.Type(), in.Pos(), func(st *State) { x.instrs(st, bb, ii+1) })
			return
		case *ssa.Select:
			bb, ii := b, i
			x.selectStmt(st, in, func(st *State, v Val) {
				st.top().env[in] = v
				x.instrs(st, bb, ii+1)
			})
			return
		case *ssa.Go:
			x.goStmt(st, in)
		case *ssa.Defer:
			d := Deferred{call: in.Call, pos: in.Pos()}
			for _, a := range in.Call.Args {
				d.args = append(d.args, x.val(st, a))
			}
			if in.Call.IsInvoke() || in.Call.StaticCallee() == nil {
				d.fn = x.val(st, in.Call.Value)
			} else if mc, ok := in.Call.Value.(*ssa.MakeClosure); ok {
				d.fn = x.val(st, mc)
			}
			fr.defers = append(fr.defers, d)
		case *ssa.RunDefers:
			bb, ii := b, i
			x.runDefers(st, func(st *State) { x.instrs(st, bb, ii+1) })
			return
		case *ssa.Call:
			bb, ii := b, i
			var args []Val
			for _, a := range in.Call.Args {
				args = append(args, x.val(st, a))
			}
			if raw, ok := rawArgs(&in.Call); ok {
				var vs TupleVal
				for _, v := range raw {
					vs = append(vs, x.val(st, v))
				}
				args[len(args)-1] = vs
			}
			var fnv Val
			if in.Call.IsInvoke() || in.Call.StaticCallee() == nil {
				fnv = x.val(st, in.Call.Value)
			} else if mc, ok := in.Call.Value.(*ssa.MakeClosure); ok {
				fnv = x.val(st, mc)
			}
			x.call(st, &in.Call, fnv, args, in.Pos(), func(st *State, res []Val) {
				if len(res) == 1 {
					st.top().env[in] = res[0]
				} else {
					st.top().env[in] = TupleVal(res)
				}
				x.instrs(st, bb, ii+1)
			})
			return
		case *ssa.If:
			c := x.val(st, in.Cond).(*Term)
			if v, ok := st.known(c); ok {
				if v {
					x.block(st, b.Succs[0], b)
				} else {
					x.block(st, b.Succs[1], b)
				}
				return
			}
			st2 := st.clone()
			st.assume(c)
			st.trace = append(st.trace, x.pos(in.Pos())+"+")
			x.block(st, b.Succs[0], b)
			st2.assume(not(c))
			st2.trace = append(st2.trace, x.pos(in.Pos())+"-")
			x.block(st2, b.Succs[1], b)
			return
		case *ssa.Jump:
			x.block(st, b.Succs[0], b)
			return
		case *ssa.Return:
			var res []Val
			for _, r := range in.Results {
				res = append(res, x.val(st, r))
			}
			x.doReturn(st, res)
			return
		case *ssa.Panic:
			x.fail(st, "panic", "explicit panic is unreachable", in.Pos())
			return
		default:
			panic(unsupported{fmt.Sprintf("instruction %T in %s", in, fr.fn)})
		}
	}
}

func (x *Exec) doReturn(st *State, res []Val) {
	if x.dry > 0 {
		d := x.dryAt[len(x.dryAt)-1]
		if len(st.frames) == d.depth {
			return
		}
	}
	fr := st.top()
	st.frames = st.frames[:len(st.frames)-1]
	if len(st.frames) == 0 {
		x.paths++
		if x.paths > 30000 {
			panic(unsupported{"path limit"})
		}
	}
	fr.ret(st, res)
}

func (x *Exec) runDefers(st *State, k func(*State)) {
	fr := st.top()
	if len(fr.defers) == 0 {
		k(st)
		return
	}
	d := fr.defers[len(fr.defers)-1]
	fr.defers = fr.defers[:len(fr.defers)-1]
	call := d.call
	x.call(st, &call, d.fn, d.args, d.pos, func(st *State, _ []Val) { x.runDefers(st, k) })
}

// ---- memory

func (x *Exec) alloc(st *State, in *ssa.Alloc) Val {
	t := deref(in.Type())
	v := x.zero(st, t)
	o := st.newObj(t, v, in.Comment)
	if a, ok := v.(*ArrayVal); ok {
		o.backing = true
		o.v = a.seq
		o.elem = a.t.Elem()
	}
	return &PtrVal{obj: o.id}
}

func (x *Exec) nilCheck(st *State, v Val, what string, p token.Pos) {
	t, ok := v.(*Term)
	if !ok {
		return
	}
	x.oblige(st, "nil", what, p, not(eq(t, num(0))))
}

func (x *Exec) fieldAddr(st *State, base Val, t types.Type, i int, p token.Pos) Val {
	switch b := base.(type) {
	case *PtrVal:
		if o := st.obj(b.obj); o.ref != nil && len(b.path) == 0 && contracts.mutable[typeName(o.t)] != nil {
			return &HeapPtr{ref: o.ref, strct: t, field: i}
		}
		return &PtrVal{obj: b.obj, path: append(append([]PathElem{}, b.path...), PathElem{field: i})}
	case *Term:
		x.nilCheck(st, b, "nil dereference of "+typeName(t), p)
		return &HeapPtr{ref: b, strct: t, field: i}
	case *HeapPtr:
		return &HeapPtr{ref: b.ref, strct: b.strct, field: b.field, sub: append(append([]int{}, b.sub...), i)}
	case *GlobalPtr:
		panic(unsupported{"field of the global " + b.g.Name()})
	}
	panic(unsupported{"field address of " + errVal(base)})
}

func (x *Exec) navigate(st *State, v Val, t types.Type, path []PathElem) (Val, types.Type) {
	for _, e := range path {
		if e.index != nil {
			var seq *Term
			var et types.Type
			switch a := v.(type) {
			case *Term:
				seq = a
				et = elemOf(t)
			case *ArrayVal:
				seq = a.seq
				et = a.t.Elem()
			default:
				panic(unsupported{"index into " + errVal(v)})
			}
			v = st.fromTerm(unboxElem(nth(seq, e.index), et), et)
			t = et
			continue
		}
		sv, ok := v.(*StructVal)
		if !ok {
			if ov, ok := v.(*OpaqueVal); ok {
				panic(unsupported{"field of the library type " + typeName(ov.t)})
			}
			panic(unsupported{"field of " + errVal(v)})
		}
		st2 := under(sv.t).(*types.Struct)
		v = sv.fs[e.field]
		t = st2.Field(e.field).Type()
	}
	return v, t
}

func elemOf(t types.Type) types.Type {
	switch u := under(t).(type) {
	case *types.Array:
		return u.Elem()
	case *types.Slice:
		return u.Elem()
	}
	panic(unsupported{"element type of " + t.String()})
}

func (x *Exec) load(st *State, addr Val, p token.Pos) Val {
	switch a := addr.(type) {
	case *PtrVal:
		o := st.obj(a.obj)
		if o.lent {
			x.fail(st, "frame", "read of a variable that another goroutine writes ("+o.name+")", p)
		}
		if o.ref != nil {
			if len(a.path) == 0 && contracts.mutable[typeName(o.t)] != nil {
				panic(unsupported{"copy of a shared object"})
			}
			if x.w.sharedVar(o) {
				return x.loadShared(st, o, a, p)
			}
		}
		if o.stale {
			panic(unsupported{"read of a slice that shares its memory with a changed one"})
		}
		v, t := x.navigate(st, o.v, o.t, a.path)
		if o.backing && len(a.path) == 0 {
			return &ArrayVal{t: under(o.t).(*types.Array), seq: o.v.(*Term)}
		}
		_ = t
		return v
	case *HeapPtr:
		return x.heapRead(st, a, p)
	case *ElemPtr:
		return st.fromTerm(unboxElem(nth(a.seq, a.idx), a.elem), a.elem)
	case *GlobalPtr:
		return x.loadGlobal(st, a.g, p)
	case *Term:
		x.nilCheck(st, a, "nil dereference", p)
		panic(unsupported{"load through an unknown pointer"})
	}
	panic(unsupported{"load from " + errVal(addr)})
}

func (x *Exec) store(st *State, addr, v Val, p token.Pos) {
	switch a := addr.(type) {
	case *PtrVal:
		o := st.obj(a.obj)
		if o.ref != nil && x.w.sharedVar(o) {
			x.storeShared(st, o, a, v, p)
			return
		}
		if o.frozen {
			x.fail(st, "frame", "write to an object that is shared with others ("+o.name+")", p)
			return
		}
		if o.prev != 0 {
			x.staleCheck(st, a.obj)
		}
		x.wrote(o)
		m := st.mut(a.obj)
		if m.backing && len(a.path) == 0 {
			m.v = v.(*ArrayVal).seq
			return
		}
		m.v = x.update(st, m.v, m.t, a.path, v)
	case *HeapPtr:
		x.heapWrite(st, a, v, p)
	case *ElemPtr:
		x.fail(st, "frame", "write to an element of a slice that is shared with others", p)
	case *GlobalPtr:
		x.fail(st, "frame", "write to the package-level variable "+a.g.Name(), p)
	case *Term:
		x.nilCheck(st, a, "nil dereference", p)
		x.fail(st, "unsupported", "store through an unknown pointer", p)
	default:
		panic(unsupported{"store to " + errVal(addr)})
	}
}

func (x *Exec) update(st *State, cur Val, t types.Type, path []PathElem, v Val) Val {
	if len(path) == 0 {
		return v
	}
	e := path[0]
	if e.index != nil {
		et := elemOf(t)
		if len(path) > 1 {
			panic(unsupported{"write into an element's field"})
		}
		b := boxElem(st.toTerm(v, et))
		switch a := cur.(type) {
		case *Term:
			return upd(a, e.index, b)
		case *ArrayVal:
			return &ArrayVal{t: a.t, seq: upd(a.seq, e.index, b)}
		}
		panic(unsupported{"write into " + errVal(cur)})
	}
	sv, ok := cur.(*StructVal)
	if !ok {
		panic(unsupported{"write of a field of " + errVal(cur)})
	}
	n := &StructVal{t: sv.t, fs: append([]Val(nil), sv.fs...)}
	n.fs[e.field] = x.update(st, sv.fs[e.field], under(sv.t).(*types.Struct).Field(e.field).Type(), path[1:], v)
	return n
}

func (x *Exec) loadGlobal(st *State, g *ssa.Global, p token.Pos) Val {
	t := deref(g.Type())
	name := g.Pkg.Pkg.Name() + "." + g.Name()
	if x.w.globalWritten(g) {
		x.fail(st, "unsupported", "read of the mutable package-level variable "+name, p)
		panic(unsupported{"read of the mutable package-level variable " + name})
	}
	if types.Identical(t, types.Universe.Lookup("error").Type()) {
		c := mkDistinct("err_" + sanitize(name))
		return c
	}
	if v, ok := x.w.globalInit(x, st, g); ok {
		return v
	}
	switch under(t).(type) {
	case *types.Basic:
		c := cnst("glob_"+sanitize(name), sortOf(t))
		return st.fromTerm(c, t)
	}
	c := cnst("glob_"+sanitize(name), fieldSort(t))
	v := st.fromTerm(c, t)
	if s, ok := v.(*SliceVal); ok && name == "os.Args" {
		x.trustedUse["os.Args has the name of the program"] = true
		st.assume(le(num(1), st.lenOf(s)))
	}
	return v
}

func (x *Exec) makeSlice(st *State, in *ssa.MakeSlice) Val {
	n := x.val(st, in.Len).(*Term)
	c := x.val(st, in.Cap).(*Term)
	et := elemOf(in.Type())
	x.oblige(st, "bounds", "make: negative length", in.Pos(), le(num(0), n))
	if c != n {
		x.oblige(st, "bounds", "make: length larger than capacity", in.Pos(), le(n, c))
	}
	x.checkAlloc(st, mul(c, num(sizeof(et))), in.Pos())
	o := st.newObj(types.NewSlice(et), zeros(seqSort(et), n), "make")
	o.backing = true
	o.elem = et
	if sortOf(et) == sBy && !n.isNum() {
		// strings: zero elements are empty strings
		st.assume(tTrue)
	}
	return &SliceVal{obj: o.id, off: num(0), n: n, nil_: tFalse, elem: et, tok: st.newTok()}
}

func sizeof(t types.Type) int64 {
	return types.SizesFor("gc", "amd64").Sizeof(t)
}

func (x *Exec) checkAlloc(st *State, bytes *Term, p token.Pos) {
	if x.allocBound == nil {
		return
	}
	b := x.specTerm(x.oldEnv(st), x.allocBound.expr)
	x.oblige(st, "alloc", "allocation bounded by the received bytes", p, le(bytes, b))
}

func (x *Exec) slice(st *State, in *ssa.Slice) Val {
	v := x.val(st, in.X)
	var lo, hi *Term
	if in.Low != nil {
		lo = x.val(st, in.Low).(*Term)
	} else {
		lo = num(0)
	}
	if in.High != nil {
		hi = x.val(st, in.High).(*Term)
	}
	if in.Max != nil {
		// the capacity that is left does not matter; the limit is checked against what is known of the capacity
		h := hi
		if h == nil {
			panic(unsupported{"full slice expression"})
		}
		max := x.val(st, in.Max).(*Term)
		x.sliceVal(st, v, h, max, in.Pos())
	}
	return x.sliceVal(st, v, lo, hi, in.Pos())
}

func (x *Exec) sliceVal(st *State, v Val, lo, hi *Term, p token.Pos) Val {
	check := func(limit *Term) {
		x.oblige(st, "bounds", "slice bounds", p, and(le(num(0), lo), le(lo, hi), le(hi, limit)))
	}
	switch v := v.(type) {
	case *Term: // string
		if v.sort != sBy {
			panic(unsupported{"slicing " + v.String()})
		}
		if hi == nil {
			hi = slen(v)
		}
		check(slen(v))
		return take(drop(v, lo), sub(hi, lo))
	case *SliceVal:
		if v.obj == 0 {
			full := hi == nil || hi == slen(v.seq)
			if hi == nil {
				hi = slen(v.seq)
			}
			check(slen(v.seq))
			r := &SliceVal{seq: take(drop(v.seq, lo), sub(hi, lo)), nil_: v.nil_, elem: v.elem, off: num(0)}
			if full {
				r.tok = v.tok
			}
			return r
		}
		full := hi == nil || hi == v.n
		if hi == nil {
			hi = v.n
		}
		limit := v.n
		if !st.obj(v.obj).frozen && !full {
			limit = sub(slen(st.obj(v.obj).v.(*Term)), v.off) // up to the capacity
		}
		check(limit)
		r := &SliceVal{obj: v.obj, off: add(v.off, lo), n: sub(hi, lo), nil_: v.nil_, elem: v.elem}
		if full {
			r.tok = v.tok
		}
		return r
	case *PtrVal: // pointer to an array
		o := st.obj(v.obj)
		if o.backing && len(v.path) == 0 {
			l := slen(o.v.(*Term))
			full := hi == nil || hi == l
			if hi == nil {
				hi = l
			}
			check(l)
			r := &SliceVal{obj: v.obj, off: lo, n: sub(hi, lo), nil_: tFalse, elem: o.elem}
			if full {
				r.tok = st.newTok()
			}
			return r
		}
		// an array inside of a struct: reads see the current content; writes go through copy only
		c, _ := x.navigate(st, o.v, o.t, v.path)
		a := c.(*ArrayVal)
		if hi == nil {
			hi = slen(a.seq)
		}
		check(slen(a.seq))
		return &SliceVal{seq: take(drop(a.seq, lo), sub(hi, lo)), nil_: tFalse, elem: a.t.Elem(), off: lo, n: nil, obj: 0, tok: -v.obj*64 - x.pathID(v)}
	case *HeapPtr:
		c := x.heapRead(st, v, p)
		a := c.(*ArrayVal)
		st.assume(eq(slen(a.seq), num(a.t.Len())))
		if hi == nil {
			hi = num(a.t.Len())
		}
		check(num(a.t.Len()))
		return &SliceVal{seq: take(drop(a.seq, lo), sub(hi, lo)), nil_: tFalse, elem: a.t.Elem(), off: num(0)}
	}
	panic(unsupported{"slicing " + errVal(v)})
}

// interior arrays of local structs: the slice remembers where it came from
var interior = map[int]*PtrVal{}

func (x *Exec) pathID(p *PtrVal) int {
	for i := 1; i < 64; i++ {
		k := -p.obj*64 - i
		if q, ok := interior[k]; !ok || samePath(q, p) {
			interior[k] = p
			return i
		}
	}
	panic(unsupported{"too many interior slices"})
}

func samePath(a, b *PtrVal) bool {
	if a.obj != b.obj || len(a.path) != len(b.path) {
		return false
	}
	for i := range a.path {
		if a.path[i] != b.path[i] {
			return false
		}
	}
	return true
}

func (x *Exec) indexAddr(st *State, in *ssa.IndexAddr) Val {
	i := x.val(st, in.Index).(*Term)
	v := x.val(st, in.X)
	switch v := v.(type) {
	case *SliceVal:
		x.oblige(st, "bounds", "index out of range", in.Pos(), and(le(num(0), i), lt(i, st.lenOf(v))))
		if v.obj != 0 {
			return &PtrVal{obj: v.obj, path: []PathElem{{index: add(v.off, i)}}}
		}
		if v.tok < 0 {
			p := interior[v.tok]
			return &PtrVal{obj: p.obj, path: append(append([]PathElem{}, p.path...), PathElem{index: add(v.off, i)})}
		}
		return &ElemPtr{seq: v.seq, idx: i, elem: v.elem}
	case *PtrVal:
		at := under(deref(in.X.Type())).(*types.Array)
		x.oblige(st, "bounds", "index out of range", in.Pos(), and(le(num(0), i), lt(i, num(at.Len()))))
		return &PtrVal{obj: v.obj, path: append(append([]PathElem{}, v.path...), PathElem{index: i})}
	case *HeapPtr:
		at := under(deref(in.X.Type())).(*types.Array)
		x.oblige(st, "bounds", "index out of range", in.Pos(), and(le(num(0), i), lt(i, num(at.Len()))))
		a := x.heapRead(st, v, in.Pos()).(*ArrayVal)
		return &ElemPtr{seq: a.seq, idx: i, elem: at.Elem()}
	}
	panic(unsupported{"index address of " + errVal(v)})
}

func (x *Exec) index(st *State, in *ssa.Index) Val {
	i := x.val(st, in.Index).(*Term)
	switch v := x.val(st, in.X).(type) {
	case *Term:
		x.oblige(st, "bounds", "index out of range", in.Pos(), and(le(num(0), i), lt(i, slen(v))))
		return nth(v, i)
	case *ArrayVal:
		x.oblige(st, "bounds", "index out of range", in.Pos(), and(le(num(0), i), lt(i, slen(v.seq))))
		return st.fromTerm(unboxElem(nth(v.seq, i), v.t.Elem()), v.t.Elem())
	}
	panic(unsupported{"index of " + errVal(x.val(st, in.X))})
}

// ---- operators

func (x *Exec) arith(st *State, r *Term, t types.Type, p token.Pos) *Term {
	lo, hi, bits, _ := intRange(t)
	if inRange(r, lo, hi) {
		return r
	}
	if bits == 64 {
		x.oblige(st, "overflow", "64-bit arithmetic does not overflow", p, and(le(bignum(lo), r), le(r, bignum(hi))))
		return r
	}
	return wrap(r, t)
}

func (x *Exec) binop(st *State, op token.Token, a, b Val, ta, tb, tr types.Type, p token.Pos) Val {
	switch op {
	case token.EQL:
		return x.equal(st, a, b, ta, tb)
	case token.NEQ:
		return not(x.equal(st, a, b, ta, tb))
	}
	at, ok1 := a.(*Term)
	bt, ok2 := b.(*Term)
	if !ok1 || !ok2 {
		panic(unsupported{fmt.Sprintf("operator %s on %s", op, errVal(a))})
	}
	if at.sort == sBy {
		if op == token.ADD {
			return cat(at, bt)
		}
		panic(unsupported{"operator " + op.String() + " on strings"})
	}
	switch op {
	case token.ADD:
		return x.arith(st, add(at, bt), tr, p)
	case token.SUB:
		return x.arith(st, sub(at, bt), tr, p)
	case token.MUL:
		return x.arith(st, mul(at, bt), tr, p)
	case token.QUO, token.REM:
		x.oblige(st, "div", "division by zero", p, not(eq(bt, num(0))))
		if !bt.isNum() || bt.val.Sign() <= 0 {
			panic(unsupported{"division by a non-constant"})
		}
		nonneg := le(num(0), at)
		if bd, ok := bounds(at); ok && bd.lo.Sign() >= 0 {
			nonneg = tTrue
		}
		if op == token.QUO {
			return ite(nonneg, ediv(at, bt), neg(ediv(neg(at), bt)))
		}
		return ite(nonneg, emod(at, bt), neg(emod(neg(at), bt)))
	case token.LSS:
		return lt(at, bt)
	case token.LEQ:
		return le(at, bt)
	case token.GTR:
		return gt(at, bt)
	case token.GEQ:
		return ge(at, bt)
	case token.SHL:
		if bt.isNum() {
			return wrap(mul(at, bignum(pow2(uint(bt.int64())))), tr)
		}
	case token.SHR:
		if bt.isNum() {
			return ediv(at, bignum(pow2(uint(bt.int64()))))
		}
	case token.AND:
		if at.isNum() {
			at, bt = bt, at
		}
		if bt.isNum() && bt.val.Sign() >= 0 {
			return andMask(st, at, bt, tr)
		}
		return bitOp(st, op, at, bt, tr)
	case token.OR:
		if r := orDisjoint(at, bt, tr); r != nil {
			return r
		}
		return bitOp(st, op, at, bt, tr)
	case token.XOR, token.AND_NOT:
		return bitOp(st, op, at, bt, tr)
	}
	panic(unsupported{fmt.Sprintf("operator %s", op)})
}

// bitOp is a bitwise operation that is only known by its range.
func bitOp(st *State, op token.Token, a, b *Term, t types.Type) *Term {
	r := freshInt("bits", t)
	lo, hi, _, _ := intRange(t)
	st.assume(and(le(bignum(lo), r), le(r, bignum(hi))))
	nonneg := and(le(num(0), a), le(num(0), b))
	switch op {
	case token.AND:
		st.assume(implies(nonneg, and(le(num(0), r), le(r, a), le(r, b))))
	case token.OR:
		st.assume(implies(nonneg, and(le(a, r), le(b, r), le(r, add(a, b)))))
	case token.XOR:
		st.assume(implies(nonneg, and(le(num(0), r), le(r, add(a, b)))))
	case token.AND_NOT:
		st.assume(implies(nonneg, and(le(num(0), r), le(r, a))))
	}
	return r
}

func (x *Exec) isNil(v Val) *Term {
	switch v := v.(type) {
	case *Term:
		return eq(v, num(0))
	case *SliceVal:
		return v.nil_
	case *MapVal:
		return tFalse
	}
	return tFalse
}

func (x *Exec) equal(st *State, a, b Val, ta, tb types.Type) *Term {
	if isNilConst(b) && !isIntTerm(a, ta) {
		return x.isNil(a)
	}
	if isNilConst(a) && !isIntTerm(b, tb) {
		return x.isNil(b)
	}
	switch av := a.(type) {
	case *Term:
		if bv, ok := b.(*Term); ok {
			return eq(av, bv)
		}
	case *SliceVal:
		// Go only compares slices with nil
		if bv, ok := b.(*SliceVal); ok {
			if bv.nil_ == tTrue {
				return av.nil_
			}
			if av.nil_ == tTrue {
				return bv.nil_
			}
		}
	case *StructVal:
		if bv, ok := b.(*StructVal); ok {
			r := tTrue
			s := under(av.t).(*types.Struct)
			for i := range av.fs {
				r = and(r, x.equal(st, av.fs[i], bv.fs[i], s.Field(i).Type(), s.Field(i).Type()))
			}
			return r
		}
	case *ArrayVal:
		if bv, ok := b.(*ArrayVal); ok {
			return seqEq(av.seq, bv.seq)
		}
	case *PtrVal:
		if bv, ok := b.(*PtrVal); ok {
			if av.obj != bv.obj {
				return tFalse
			}
			if samePath(av, bv) {
				return tTrue
			}
		}
	case *RTypeVal:
		if bv, ok := b.(*RTypeVal); ok {
			if types.Identical(av.t, bv.t) {
				return tTrue
			}
			return tFalse
		}
	case *IfaceVal:
		if bv, ok := b.(*IfaceVal); ok {
			if !types.Identical(av.dyn, bv.dyn) {
				return tFalse
			}
			return x.equal(st, av.v, bv.v, av.dyn, bv.dyn)
		}
	}
	return eq(st.toTerm(a, ta), st.toTerm(b, tb))
}

func isNilConst(v Val) bool {
	t, ok := v.(*Term)
	return ok && t.isNum() && t.val.Sign() == 0
}

func isIntTerm(v Val, t types.Type) bool { return isInteger(t) || isBool(t) || isString(t) }

func (x *Exec) unop(st *State, in *ssa.UnOp) Val {
	v := x.val(st, in.X)
	switch in.Op {
	case token.MUL:
		return x.load(st, v, in.Pos())
	case token.NOT:
		return not(v.(*Term))
	case token.SUB:
		return x.arith(st, neg(v.(*Term)), in.Type(), in.Pos())
	case token.XOR:
		_, hi, _, signed := intRange(in.Type())
		if signed {
			return sub(neg(v.(*Term)), num(1))
		}
		return sub(bignum(hi), v.(*Term))
	}
	panic(unsupported{"unary operator " + in.Op.String()})
}

func (x *Exec) convert(st *State, v Val, from, to types.Type, p token.Pos) Val {
	switch {
	case isInteger(from) && isInteger(to):
		return wrap(v.(*Term), to)
	case isByteSlice(from) && isString(to):
		return st.seqOf(v.(*SliceVal))
	case isString(from) && isByteSlice(to):
		s := v.(*Term)
		et := elemOf(to)
		o := st.newObj(types.NewSlice(et), s, "bytes")
		o.backing = true
		o.elem = et
		return &SliceVal{obj: o.id, off: num(0), n: slen(s), nil_: tFalse, elem: et, tok: st.newTok()}
	case isString(from) && isString(to):
		return v
	}
	panic(unsupported{fmt.Sprintf("conversion from %s to %s", from, to)})
}

func (x *Exec) typeAssert(st *State, in *ssa.TypeAssert, k func(*State, Val)) {
	v := x.val(st, in.X)
	t := in.AssertedType
	_, toIface := under(t).(*types.Interface)
	done := func(st *State, ok bool, r Val) {
		if in.CommaOk {
			o := tFalse
			if ok {
				o = tTrue
			} else {
				r = x.zero(st, t)
			}
			k(st, TupleVal{r, o})
			return
		}
		if !ok {
			x.fail(st, "assert", "type assertion to "+typeName(t), in.Pos())
			return
		}
		k(st, r)
	}
	switch v := v.(type) {
	case *IfaceVal:
		if toIface {
			done(st, types.Implements(v.dyn, under(t).(*types.Interface)), v)
			return
		}
		if types.Identical(v.dyn, t) {
			done(st, true, v.v)
		} else {
			done(st, false, nil)
		}
		return
	case *RTypeVal, *RValueVal:
		panic(unsupported{"type assertion on a reflect value"})
	case *Term:
		if isNilConst(v) {
			done(st, false, nil)
			return
		}
		var c *Term
		if toIface {
			c = and(not(eq(v, num(0))), fn("implements_"+sanitize(typeName(t)), sBool, v))
		} else {
			c = and(not(eq(v, num(0))), eq(fn("typ", sInt, v), typeID(t)))
		}
		var r Val = v
		if !toIface {
			if _, ok := under(t).(*types.Pointer); !ok {
				r = st.fromTerm(fn("unbox_"+sanitize(typeName(t)), sortOf(t), v), t)
			}
		}
		if !in.CommaOk {
			x.oblige(st, "assert", "type assertion to "+typeName(t), in.Pos(), c)
			k(st, r)
			return
		}
		if b, ok := st.known(c); ok {
			done(st, b, r)
			return
		}
		st2 := st.clone()
		st.assume(c)
		done(st, true, r)
		st2.assume(not(c))
		done(st2, false, nil)
		return
	}
	panic(unsupported{"type assertion on " + errVal(v)})
}
