package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Loop struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	n      int
}

// LoopInst is one entry into a loop on one path.
type LoopInst struct {
	id     int
	loop   *Loop
	cands  []*Cand
	hdr    *State // state at the loop header after the havoc
	fresh  map[*Term]bool
	locks  string
	meas   map[string]*Measure
	places []Place
	backs  int
}

type Cand struct {
	id    int
	cl    *Clause
	desc  string
	bind  []Place
	names []string
	auto  func(e *Env, get func(Place) SV) *Term
	dead  bool
	obls  []*Obligation
	inst  *LoopInst
}

type Measure struct {
	name string
	inst *LoopInst
	obls []*Obligation
	bad  bool
}

func findLoops(f *ssa.Function) map[*ssa.BasicBlock]*Loop {
	m := map[*ssa.BasicBlock]*Loop{}
	for _, b := range f.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := m[s]
				if l == nil {
					l = &Loop{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					m[s] = l
				}
				work := []*ssa.BasicBlock{b}
				for len(work) > 0 {
					x := work[len(work)-1]
					work = work[:len(work)-1]
					if l.blocks[x] {
						continue
					}
					l.blocks[x] = true
					work = append(work, x.Preds...)
				}
			}
		}
	}
	return m
}

// Place is something that a role variable of an invariant can be bound to.
type Place struct {
	phi   *ssa.Phi
	add   int64 // phi + add
	frame int   // frame depth of an outer phi
	outer bool
	obj   int
	field int // -1: the whole object
	t     types.Type
	name  string
}

func (p Place) get(x *Exec, st *State, phis map[*ssa.Phi]Val) SV {
	if p.phi != nil {
		v, ok := phis[p.phi]
		if !ok {
			v, ok = st.frames[p.frame].env[p.phi]
			if !ok {
				panic(specError{"no value of " + p.name})
			}
		}
		if p.add != 0 {
			return SV{add(v.(*Term), num(p.add)), p.t}
		}
		return SV{v, p.t}
	}
	o := st.obj(p.obj)
	if o.backing {
		s := o.v.(*Term)
		return SV{&SliceVal{seq: s, nil_: tFalse, elem: o.elem, off: num(0)}, p.t}
	}
	if o.kind == "map" {
		mt := under(o.t).(*types.Map)
		return SV{&MapVal{obj: o.id, kt: mt.Key(), vt: mt.Elem()}, p.t}
	}
	if p.field >= 0 {
		return SV{o.v.(*StructVal).fs[p.field], p.t}
	}
	return SV{o.v, p.t}
}

type modset struct {
	phis  map[*ssa.Phi]bool
	objs  map[int]bool
	heap  map[string]bool
	ghost map[string]bool
	toks  map[int]bool // killed tokens
	perms map[string]bool
	noTok map[string]bool           // changed slices whose token does not survive
	secs  map[string]bool           // locks that are taken in the loop
	refs  map[string]map[*Term]bool // the references at which a heap array changes, if they can be told
	all   bool
}

func newModset() *modset {
	return &modset{phis: map[*ssa.Phi]bool{}, objs: map[int]bool{}, heap: map[string]bool{}, ghost: map[string]bool{}, toks: map[int]bool{}, perms: map[string]bool{}, refs: map[string]map[*Term]bool{}, noTok: map[string]bool{}, secs: map[string]bool{}}
}

func valEq(a, b Val) bool {
	switch x := a.(type) {
	case nil:
		return b == nil
	case *Term:
		return a == b
	case *SliceVal:
		y, ok := b.(*SliceVal)
		return ok && x.seq == y.seq && x.nil_ == y.nil_ && x.obj == y.obj && x.off == y.off && x.n == y.n
	case *PtrVal:
		y, ok := b.(*PtrVal)
		return ok && samePath(x, y)
	case *StructVal:
		y, ok := b.(*StructVal)
		if !ok || len(x.fs) != len(y.fs) {
			return false
		}
		for i := range x.fs {
			if !valEq(x.fs[i], y.fs[i]) {
				return false
			}
		}
		return true
	case *ArrayVal:
		y, ok := b.(*ArrayVal)
		return ok && x.seq == y.seq
	case *OpaqueVal:
		y, ok := b.(*OpaqueVal)
		if !ok || len(x.m) != len(y.m) {
			return false
		}
		for k := range x.m {
			if !valEq(x.m[k], y.m[k]) {
				return false
			}
		}
		return true
	case *MapVal:
		y, ok := b.(*MapVal)
		return ok && x.obj == y.obj
	case *mapContent:
		y, ok := b.(*mapContent)
		return ok && x.dom == y.dom && x.val == y.val && x.n == y.n
	case *FuncVal:
		y, ok := b.(*FuncVal)
		if !ok || x.fn != y.fn || len(x.bind) != len(y.bind) || x.name != y.name || x.term != y.term {
			return false
		}
		for i := range x.bind {
			if !valEq(x.bind[i], y.bind[i]) {
				return false
			}
		}
		return true
	case *IfaceVal:
		y, ok := b.(*IfaceVal)
		return ok && types.Identical(x.dyn, y.dyn) && valEq(x.v, y.v)
	case *HeapPtr:
		y, ok := b.(*HeapPtr)
		return ok && x.ref == y.ref && x.field == y.field && len(x.sub) == 0 && len(y.sub) == 0
	case TupleVal:
		return false
	}
	return a == b
}

// havocVal gives an arbitrary value of the same shape.
func (x *Exec) havocVal(st *State, v Val, t types.Type, name string, tok bool) Val {
	switch a := v.(type) {
	case *Term:
		if a.sort == sInt && t != nil && isInteger(t) {
			return freshInt(name, t)
		}
		return fresh(name, a.sort)
	case *SliceVal:
		seq := fresh(name, seqSort(a.elem))
		nl := fresh(name+"_nil", sBool)
		st.assume(implies(nl, eq(slen(seq), num(0))))
		r := &SliceVal{seq: seq, nil_: nl, elem: a.elem, off: num(0)}
		if tok {
			r.tok = st.newTok()
		}
		return r
	case *PtrVal, *IfaceVal, *HeapPtr:
		return fresh(name, sInt)
	case *StructVal:
		n := &StructVal{t: a.t}
		s := under(a.t).(*types.Struct)
		for i, f := range a.fs {
			n.fs = append(n.fs, x.havocVal(st, f, s.Field(i).Type(), name+"_"+s.Field(i).Name(), false))
		}
		return n
	case *ArrayVal:
		s := fresh(name, a.seq.sort)
		st.assume(eq(slen(s), num(a.t.Len())))
		return &ArrayVal{t: a.t, seq: s}
	case *OpaqueVal:
		n := &OpaqueVal{t: a.t, m: map[string]Val{}}
		for k, f := range a.m {
			n.m[k] = x.havocVal(st, f, nil, name+"_"+k, false)
		}
		return n
	case *mapContent:
		return a.havoc(name)
	}
	panic(unsupported{fmt.Sprintf("loop changes a value of kind %T (%s)", v, name)})
}

func (x *Exec) havocLoop(st *State, l *Loop, m *modset, entry map[*ssa.Phi]Val) map[*ssa.Phi]Val {
	out := map[*ssa.Phi]Val{}
	for _, in := range l.header.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		v := entry[p]
		if !m.phis[p] {
			out[p] = v
			continue
		}
		switch v.(type) {
		case *PtrVal, *IfaceVal:
			st.toTerm(v, p.Type()) // the initial object escapes
		}
		tok := false
		if s, ok := v.(*SliceVal); ok {
			tok = s.tok > 0 && st.toks[s.tok] && !m.noTok[p.Name()]
			if s.obj != 0 {
				st.freezeSlice(s)
			}
		}
		out[p] = x.havocVal(st, v, p.Type(), phiName(p), tok)
	}
	for _, id := range sortedInts(m.objs) {
		o := st.mut(id)
		nm := o.name
		if nm == "" {
			nm = "obj"
		}
		if o.backing {
			s := o.v.(*Term)
			n := fresh(nm, s.sort)
			st.assume(eq(slen(n), slen(s)))
			o.v = n
			continue
		}
		tok := false
		if s, ok := o.v.(*SliceVal); ok {
			tok = s.tok > 0 && st.toks[s.tok] && !m.noTok[fmt.Sprint(id)]
			if s.obj != 0 {
				st.freezeSlice(s)
			}
		}
		o.v = x.havocVal(st, o.v, o.t, nm, tok)
	}
	for _, k := range sortedKeys(m.heap) {
		if rs := m.refs[k]; rs != nil && st.heap[k] != nil {
			a := st.heap[k]
			for _, r := range sortedTerms(rs) {
				el := sel(a, r)
				if el == nil || el.isNum() || el.op == "lit" {
					el = mk(el.sort, "select", a, r)
				}
				a = store(a, r, fresh("h_"+k, el.sort))
			}
			st.heap[k] = a
			continue
		}
		x.havocHeap(st, k)
	}
	for _, k := range sortedKeys(m.ghost) {
		if k == "now" {
			st.tick()
			continue
		}
		st.ghost[k] = x.havocVal(st, st.ghost[k], nil, k, false)
	}
	for t := range m.toks {
		delete(st.toks, t)
	}
	for p := range m.perms {
		delete(st.perms, p)
	}
	for _, k := range sortedKeys(m.secs) {
		st.sections = append(st.sections[:len(st.sections):len(st.sections)], section{lock: k})
	}
	st.condToks = nil
	st.absent = nil
	return out
}

// havocHeap forgets the content of a heap array; monotone ghosts keep what they had.
func (x *Exec) havocHeap(st *State, k string) {
	a := st.heap[k]
	if a == nil {
		return
	}
	n := fresh("H_"+k, a.sort)
	st.heap[k] = n
	monotone(st, k, a, n)
}

func monotone(st *State, k string, a, n *Term) {
	if strings.HasPrefix(k, "n:") { // monotone boolean ghost
		q := newBound(sInt)
		st.assume(forall([]*Term{q}, implies(mk(sBool, "select", a, q), mk(sBool, "select", n, q)), mk(sBool, "select", n, q), mk(sBool, "select", a, q)))
	}
}

func phiName(p *ssa.Phi) string {
	if p.Comment != "" {
		return p.Comment
	}
	return p.Name()
}

func sortedInts(m map[int]bool) []int {
	var out []int
	for k := range m {
		out = append(out, k)
	}
	sort.Ints(out)
	return out
}

func sortedKeys(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// loopMods computes what the loop changes by running its body without recording obligations.
func (x *Exec) loopMods(st *State, l *Loop, entry map[*ssa.Phi]Val) *modset {
	m := newModset()
	mark0 := fresh("loop", sBool).id
	for iter := 0; iter < 12; iter++ {
		s := st.clone()
		hv := x.havocLoop(s, l, m, entry)
		for p, v := range hv {
			s.top().env[p] = v
		}
		inst := &LoopInst{loop: l}
		s.top().loops = append(s.top().loops, inst)
		hdr := s.snapshot()
		changed := false
		mark := func(set map[string]bool, k string) {
			if !set[k] {
				set[k] = true
				changed = true
			}
		}
		d := &dryCtx{depth: len(s.frames), loop: l}
		d.back = func(b *State, prev *ssa.BasicBlock) {
			pv := x.phiVals(b, l.header, prev)
			for p, v := range pv {
				if !valEq(v, hv[p]) && !m.phis[p] {
					m.phis[p] = true
					changed = true
				}
				if sv, ok := v.(*SliceVal); ok && m.phis[p] && (sv.tok <= 0 || !b.toks[sv.tok]) {
					mark(m.noTok, p.Name())
				}
			}
			for id, o := range hdr.objs {
				n := b.objs[id]
				if n == nil {
					continue
				}
				if !valEq(o.v, n.v) && !m.objs[id] {
					m.objs[id] = true
					changed = true
				}
				if sv, ok := n.v.(*SliceVal); ok && m.objs[id] && (sv.tok <= 0 || !b.toks[sv.tok]) {
					mark(m.noTok, fmt.Sprint(id))
				}
			}
			for k, a := range b.heap {
				if o := hdr.heap[k]; o == nil {
					if st.heap[k] == nil {
						st.heap[k] = nil
					}
					// an array that is first used inside of the loop
					delete(st.heap, k)
					init := initialHeap(a)
					st.heap[k] = init
					changed = true
				} else if o != a {
					rs, ok := storedRefs(a, o, mark0)
					if !strings.HasPrefix(k, "g:") {
						ok = false
					}
					if !m.heap[k] {
						m.heap[k] = true
						changed = true
						if ok {
							m.refs[k] = rs
						}
					} else if m.refs[k] != nil {
						if !ok {
							delete(m.refs, k)
							changed = true
						} else {
							for r := range rs {
								if !m.refs[k][r] {
									m.refs[k][r] = true
									changed = true
								}
							}
						}
					}
				}
			}
			for k, a := range b.ghost {
				if o, ok := hdr.ghost[k]; ok && !valEq(o, a) {
					mark(m.ghost, k)
				}
			}
			for t := range hdr.toks {
				if !b.toks[t] && !m.toks[t] && st.toks[t] {
					m.toks[t] = true
					changed = true
				}
			}
			for p := range hdr.perms {
				if !b.perms[p] {
					mark(m.perms, p)
				}
			}
			for i := len(hdr.sections); i < len(b.sections); i++ {
				mark(m.secs, b.sections[i].lock)
			}
		}
		x.dry++
		x.dryAt = append(x.dryAt, d)
		x.instrs(s, l.header, firstNonPhi(l.header))
		x.dryAt = x.dryAt[:len(x.dryAt)-1]
		x.dry--
		if !changed {
			return m
		}
	}
	panic(unsupported{"the set of locations changed by a loop does not stabilise"})
}

// initialHeap strips the updates made since the array was first seen.
func initialHeap(a *Term) *Term {
	for a.op == "store" {
		a = a.args[0]
	}
	if a.op == "ite" {
		return initialHeap(a.args[2])
	}
	return a
}

func (x *Exec) tryUnroll(st *State, l *Loop, b, prev *ssa.BasicBlock) bool {
	fr := st.top()
	if fr.unroll == nil {
		fr.unroll = map[*ssa.BasicBlock]int{}
	}
	if fr.unroll[b] > 70 {
		return false
	}
	ifi, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	// evaluate the header on a copy
	s := st.clone()
	okc := func() (ok bool) {
		defer func() {
			if r := recover(); r != nil {
				if _, u := r.(unsupported); !u {
					panic(r)
				}
				ok = false
			}
		}()
		x.dry++
		defer func() { x.dry-- }()
		x.phis(s, b, prev)
		for i := firstNonPhi(b); i < len(b.Instrs)-1; i++ {
			switch in := b.Instrs[i].(type) {
			case *ssa.BinOp:
				s.top().env[in] = x.binop(s, in.Op, x.val(s, in.X), x.val(s, in.Y), in.X.Type(), in.Y.Type(), in.Type(), in.Pos())
			case *ssa.DebugRef:
			case *ssa.UnOp:
				if in.Op.String() == "<-" {
					return false
				}
				s.top().env[in] = x.unop(s, in)
			case *ssa.Next:
				return false
			default:
				return false
			}
		}
		c, isT := x.val(s, ifi.Cond).(*Term)
		return isT && (c == tTrue || c == tFalse)
	}()
	if !okc {
		return false
	}
	// a cut loop always has a symbolic first iteration: only unroll when the exit condition is decided right now
	fr.unroll[b]++
	x.phis(st, b, prev)
	x.instrs(st, b, firstNonPhi(b))
	return true
}

func (x *Exec) loopEnter(st *State, l *Loop, b, prev *ssa.BasicBlock) {
	fr := st.top()
	entry := x.phiVals(st, b, prev)
	m := x.loopMods(st, l, entry)
	entrySt := st.clone()
	x.loopCount++
	inst := &LoopInst{id: x.loopCount, loop: l, meas: map[string]*Measure{}}

	if x.dry == 0 && x.conc {
		x.settleToks(st)
		for _, c := range st.condToks {
			for _, t := range c.toks {
				if contracts.linear[t.name] || t.name == "conn" {
					x.emit(st, "token", t.name+" may be left unused before a loop", b.Instrs[0].Pos(), not(c.cond))
				}
			}
		}
	}

	// places for the roles of invariants
	var places []Place
	depth := len(st.frames) - 1
	for _, in := range l.header.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if !m.phis[p] {
			continue
		}
		places = append(places, Place{phi: p, frame: depth, t: p.Type(), name: phiName(p), field: -1})
		if isInteger(p.Type()) {
			if t, ok := entry[p].(*Term); ok && t == num(-1) {
				places = append(places, Place{phi: p, add: 1, frame: depth, t: p.Type(), name: phiName(p) + "+1", field: -1})
			}
		}
	}
	for d, f := range st.frames {
		for _, li := range f.loops {
			for _, in := range li.loop.header.Instrs {
				p, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				places = append(places, Place{phi: p, frame: d, outer: true, t: p.Type(), name: "outer " + phiName(p), field: -1})
			}
		}
	}
	for _, id := range sortedInts(m.objs) {
		o := st.obj(id)
		if o.backing {
			places = append(places, Place{obj: id, field: -1, t: types.NewSlice(o.elem), name: o.name})
			continue
		}
		if sv, ok := o.v.(*StructVal); ok {
			s := under(sv.t).(*types.Struct)
			for i := 0; i < s.NumFields(); i++ {
				places = append(places, Place{obj: id, field: i, t: s.Field(i).Type(), name: o.name + "." + s.Field(i).Name()})
			}
		}
		places = append(places, Place{obj: id, field: -1, t: o.t, name: o.name})
	}
	inst.places = places

	// candidates
	if x.dry == 0 {
		x.makeCands(entrySt, inst, l, m, entry)
		for _, c := range inst.cands {
			g, ok := x.evalCand(entrySt, c, entry)
			if !ok {
				c.dead = true
				continue
			}
			o := x.emit(entrySt, "loop-entry", c.desc, b.Instrs[0].Pos(), g)
			o.cand = c
			c.obls = append(c.obls, o)
		}
	}

	hv := x.havocLoop(st, l, m, entry)
	for p, v := range hv {
		fr.env[p] = v
	}
	for _, c := range inst.cands {
		if c.dead {
			continue
		}
		g, ok := x.evalCand(st, c, hv)
		if !ok {
			c.dead = true
			continue
		}
		st.assumeCand(g, c)
	}
	inst.hdr = st.snapshot()
	inst.hdr.frames = nil
	inst.locks = lockKey(st)
	inst.fresh = map[*Term]bool{}
	for _, v := range hv {
		if t, ok := v.(*Term); ok {
			inst.fresh[t] = true
		}
	}
	fr = st.top()
	fr.loops = append(fr.loops, inst)
	x.instrs(st, b, firstNonPhi(b))
}

func lockKey(st *State) string {
	var ks []string
	for k := range st.locks {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return strings.Join(ks, ";")
}

func (x *Exec) loopBack(st *State, inst *LoopInst, b, prev *ssa.BasicBlock) {
	if x.dry > 0 {
		d := x.dryAt[len(x.dryAt)-1]
		if len(st.frames) == d.depth && inst.loop == d.loop {
			d.back(st, prev)
		}
		return
	}
	pv := x.phiVals(st, b, prev)
	for _, c := range inst.cands {
		if c.dead {
			continue
		}
		g, ok := x.evalCand(st, c, pv)
		if !ok {
			c.dead = true
			continue
		}
		o := x.emit(st, "loop-preserve", c.desc, b.Instrs[0].Pos(), g)
		o.cand = c
		c.obls = append(c.obls, o)
	}
	if lockKey(st) != inst.locks {
		x.fail(st, "locks", "the loop body leaves the locks as they were", b.Instrs[0].Pos())
	}
	if x.conc {
		x.leaks(st, inst.hdr.perms, b.Instrs[0].Pos(), "at the end of an iteration")
	}
	if x.needTerm {
		x.measure(st, inst, pv, b)
	}
}

// measure emits obligations for the possible termination measures of the loop.
func (x *Exec) measure(st *State, inst *LoopInst, pv map[*ssa.Phi]Val, b *ssa.BasicBlock) {
	inst.backs++
	add1 := func(name string, g *Term) {
		ms := inst.meas[name]
		if ms == nil {
			ms = &Measure{name: name, inst: inst}
			inst.meas[name] = ms
		}
		o := x.emit(st, "decreases", fmt.Sprintf("loop%d %s", inst.id, name), b.Instrs[0].Pos(), g)
		o.meas = ms
		ms.obls = append(ms.obls, o)
	}
	if len(inst.meas) == 0 {
		x.measures = append(x.measures, nil)
	}
	any := false
	for _, pl := range inst.places {
		if pl.outer {
			continue
		}
		if pl.phi != nil && pl.add == 0 && isInteger(pl.t) {
			h, ok1 := inst.hdrPhi(pl.phi, st)
			v, ok2 := pv[pl.phi].(*Term)
			if !ok1 || !ok2 {
				continue
			}
			// bounded above by a loop-invariant term
			up, down := false, false
			for c := st.pc; c != nil; c = c.up {
				if c.cand != nil || c.t.op != "<" && c.t.op != "<=" {
					continue
				}
				// 0 <= or < d
				d := toLin(sub(c.t.args[1], c.t.args[0]))
				k := d.m[h]
				if k == nil || k.Sign() == 0 {
					continue
				}
				inv := true
				for t := range d.m {
					inv = inv && (t == h || !mentionsAny(t, inst.fresh))
				}
				if !inv {
					continue
				}
				if k.Sign() < 0 && !up {
					add1("up "+pl.name, lt(h, v))
					any, up = true, true
				}
				if k.Sign() > 0 && !down {
					add1("down "+pl.name, lt(v, h))
					any, down = true, true
				}
			}
			continue
		}
		if _, ok := under(pl.t).(*types.Slice); ok {
			var h, v SV
			func() {
				defer func() { _ = recover() }()
				if pl.phi != nil {
					v = pl.get(x, st, pv)
					if s, ok := st.top().env[pl.phi].(*SliceVal); ok {
						h = SV{s, pl.t}
					}
				} else {
					v = pl.get(x, st, pv)
					h = pl.get(x, inst.hdr, nil)
				}
			}()
			hs, ok1 := h.v.(*SliceVal)
			vs, ok2 := v.v.(*SliceVal)
			if ok1 && ok2 {
				add1("len "+pl.name, lt(st.lenOf(vs), inst.hdr.lenOf(hs)))
				any = true
			}
		}
	}
	if !any {
		add1("none", tFalse)
	}
}

func (l *LoopInst) hdrPhi(p *ssa.Phi, st *State) (*Term, bool) {
	v, ok := st.top().env[p].(*Term)
	return v, ok
}

func mentionsAny(t *Term, set map[*Term]bool) bool {
	if set[t] {
		return true
	}
	for _, a := range t.args {
		if mentionsAny(a, set) {
			return true
		}
	}
	return false
}

// ---- candidate invariants

func plus(a, b *Term) *Term { return add(a, b) }

func (x *Exec) makeCands(st *State, inst *LoopInst, l *Loop, m *modset, entry map[*ssa.Phi]Val) {
	add := func(c *Cand) {
		c.id = len(x.cands)
		c.inst = inst
		x.cands = append(x.cands, c)
		inst.cands = append(inst.cands, c)
	}
	fname := shortName(st.top().fn)
	for _, cl := range x.invPool {
		bindings := x.bindRoles(cl.roles, inst.places)
		for _, b := range bindings {
			var ns []string
			for i, r := range cl.roles {
				ns = append(ns, r.name+"="+b[i].name)
			}
			add(&Cand{cl: cl, bind: b, desc: fmt.Sprintf("%s loop%d %s[%s]", fname, inst.id, cl.label, strings.Join(ns, ","))})
		}
	}
	// automatic candidates: bounds of counters
	for _, pl := range inst.places {
		pl := pl
		if pl.phi == nil || pl.outer || !isInteger(pl.t) || pl.add != 0 {
			continue
		}
		e0, ok := entry[pl.phi].(*Term)
		if !ok {
			continue
		}
		add(&Cand{desc: fmt.Sprintf("%s loop%d auto: %s >= initial", fname, inst.id, pl.name), auto: func(e *Env, get func(Place) SV) *Term {
			return le(e0, get(pl).v.(*Term))
		}})
		add(&Cand{desc: fmt.Sprintf("%s loop%d auto: %s <= initial", fname, inst.id, pl.name), auto: func(e *Env, get func(Place) SV) *Term {
			return le(get(pl).v.(*Term), e0)
		}})
		// slices that grow (or shrink) with the counter
		for _, sp := range inst.places {
			sp := sp
			if bt, ok := under(pl.t).(*types.Basic); sp.phi == nil || sp.outer || sp.add != 0 || !ok || bt.Kind() != types.Int {
				continue
			}
			s0, ok := entry[sp.phi].(*SliceVal)
			if !ok {
				continue
			}
			d := sub(st.lenOf(s0), e0)
			sum := plus(st.lenOf(s0), e0)
			add(&Cand{desc: fmt.Sprintf("%s loop%d auto: len(%s) - %s is constant", fname, inst.id, sp.name, pl.name), auto: func(e *Env, get func(Place) SV) *Term {
				sv, ok := get(sp).v.(*SliceVal)
				if !ok {
					return tTrue
				}
				return eq(sub(e.st.lenOf(sv), get(pl).v.(*Term)), d)
			}})
			add(&Cand{desc: fmt.Sprintf("%s loop%d auto: len(%s) + %s is constant", fname, inst.id, sp.name, pl.name), auto: func(e *Env, get func(Place) SV) *Term {
				sv, ok := get(sp).v.(*SliceVal)
				if !ok {
					return tTrue
				}
				return eq(plus(e.st.lenOf(sv), get(pl).v.(*Term)), sum)
			}})
		}
		// upper bounds from the loop conditions
		seen := map[*Term]bool{}
		for blk := range l.blocks {
			ifi, ok := blk.Instrs[len(blk.Instrs)-1].(*ssa.If)
			if !ok {
				continue
			}
			bo, ok := ifi.Cond.(*ssa.BinOp)
			if !ok {
				continue
			}
			for _, o := range []ssa.Value{bo.X, bo.Y} {
				if !isInteger(o.Type()) {
					continue
				}
				t, _ := x.invariantVal(st, l, o, 0).(*Term)
				if t == nil || seen[t] {
					continue
				}
				seen[t] = true
				add(&Cand{desc: fmt.Sprintf("%s loop%d auto: %s <= bound", fname, inst.id, pl.name), auto: func(e *Env, get func(Place) SV) *Term {
					return le(get(pl).v.(*Term), t)
				}})
				add(&Cand{desc: fmt.Sprintf("%s loop%d auto: %s < bound", fname, inst.id, pl.name), auto: func(e *Env, get func(Place) SV) *Term {
					return lt(get(pl).v.(*Term), t)
				}})
			}
		}
	}
	// upper bounds of the length of slices, from loop conditions about it
	for _, sp := range inst.places {
		sp := sp
		if sp.phi == nil || sp.outer || sp.add != 0 {
			continue
		}
		if _, ok := entry[sp.phi].(*SliceVal); !ok {
			continue
		}
		for blk := range l.blocks {
			ifi, ok := blk.Instrs[len(blk.Instrs)-1].(*ssa.If)
			if !ok {
				continue
			}
			bo, ok := ifi.Cond.(*ssa.BinOp)
			if !ok {
				continue
			}
			for i, o := range []ssa.Value{bo.X, bo.Y} {
				c, ok := o.(*ssa.Call)
				if !ok || len(c.Call.Args) != 1 || c.Call.Args[0] != ssa.Value(sp.phi) {
					continue
				}
				if b, ok := c.Call.Value.(*ssa.Builtin); !ok || b.Name() != "len" {
					continue
				}
				t, _ := x.invariantVal(st, l, []ssa.Value{bo.Y, bo.X}[i], 0).(*Term)
				if t == nil {
					continue
				}
				add(&Cand{desc: fmt.Sprintf("%s loop%d auto: len(%s) <= bound", fname, inst.id, sp.name), auto: func(e *Env, get func(Place) SV) *Term {
					sv, ok := get(sp).v.(*SliceVal)
					if !ok {
						return tTrue
					}
					return le(e.st.lenOf(sv), t)
				}})
			}
		}
	}
	for _, k := range sortedLocks(st) {
		lk := st.locks[k]
		mc := contracts.mutable[lk.class]
		if mc == nil || lk.rd {
			continue
		}
		for _, cl := range mc.lockInv[lk.field] {
			cl := cl
			add(&Cand{desc: fmt.Sprintf("%s loop%d auto: lock invariant %s", fname, inst.id, cl.label), auto: func(e *Env, get func(Place) SV) *Term {
				le := x.lockEnv(e.st, lk, cl)
				x.keyed(e.st, le, cl)
				g, err := x.clause(le, cl)
				if err != nil {
					panic(specError{err.Error()})
				}
				return g
			}})
		}
	}
	for _, pl := range inst.places {
		pl := pl
		if pl.outer {
			continue
		}
		if _, ok := under(pl.t).(*types.Pointer); ok && pl.phi != nil {
			add(&Cand{desc: fmt.Sprintf("%s loop%d auto: %s != nil", fname, inst.id, pl.name), auto: func(e *Env, get func(Place) SV) *Term {
				return not(x.isNil(get(pl).v))
			}})
		}
		if _, ok := under(pl.t).(*types.Slice); ok {
			add(&Cand{desc: fmt.Sprintf("%s loop%d auto: %s not nil", fname, inst.id, pl.name), auto: func(e *Env, get func(Place) SV) *Term {
				return not(x.isNil(get(pl).v))
			}})
		}
	}
}

// invariantVal evaluates a loop-invariant expression before the loop; nil if it may change in the loop.
func (x *Exec) invariantVal(st *State, l *Loop, v ssa.Value, d int) (r Val) {
	if d > 6 {
		return nil
	}
	if c, ok := v.(*ssa.Const); ok {
		return x.constVal(st, c)
	}
	in, isInstr := v.(ssa.Instruction)
	if !isInstr || !l.blocks[in.Block()] {
		return st.top().env[v]
	}
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(unsupported); !ok {
				panic(e)
			}
			r = nil
		}
	}()
	switch e := v.(type) {
	case *ssa.Convert:
		if isInteger(e.X.Type()) && isInteger(e.Type()) {
			if t, ok := x.invariantVal(st, l, e.X, d+1).(*Term); ok {
				return wrap(t, e.Type())
			}
		}
	case *ssa.ChangeType:
		return x.invariantVal(st, l, e.X, d+1)
	case *ssa.Call:
		if b, ok := e.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
			switch a := x.invariantVal(st, l, e.Call.Args[0], d+1).(type) {
			case *SliceVal:
				return st.lenOf(a)
			case *Term:
				if a.sort == sBy {
					return slen(a)
				}
			}
		}
	case *ssa.UnOp:
		if e.Op == token.MUL {
			if fa, ok := e.X.(*ssa.FieldAddr); ok {
				t := deref(fa.X.Type())
				if ref, ok := x.invariantVal(st, l, fa.X, d+1).(*Term); ok && contracts.mutable[typeName(t)] == nil {
					ft := under(t).(*types.Struct).Field(fa.Field).Type()
					return st.quiet().fromTerm(fieldFn(t, fa.Field, ref), ft)
				}
			}
		}
	}
	return nil
}

func (x *Exec) bindRoles(roles []Role, places []Place) [][]Place {
	out := [][]Place{{}}
	for _, r := range roles {
		var next [][]Place
		for _, b := range out {
			for _, p := range places {
				if !x.roleMatches(r, p) {
					continue
				}
				dup := false
				for _, q := range b {
					if q == p {
						dup = true
					}
				}
				if dup {
					continue
				}
				next = append(next, append(append([]Place{}, b...), p))
			}
		}
		out = next
		if len(out) > 200 {
			out = out[:200]
		}
	}
	return out
}

func (x *Exec) roleMatches(r Role, p Place) bool {
	if r.typ == nil {
		return true
	}
	if r.src == "int" {
		return isInteger(p.t)
	}
	if r.src == "visited" || p.t == visitedType {
		return r.src == "visited" && p.t == visitedType
	}
	t := x.w.resolveType(r.typ, x.w.conPkg(x.con))
	if t == nil {
		return false
	}
	if types.Identical(t, p.t) {
		return true
	}
	if _, ok := under(t).(*types.Slice); ok {
		return types.Identical(under(t), under(p.t))
	}
	return false
}

func (x *Exec) evalCand(st *State, c *Cand, phis map[*ssa.Phi]Val) (g *Term, ok bool) {
	defer func() {
		if r := recover(); r != nil {
			switch e := r.(type) {
			case specError:
				if debug {
					fmt.Println("candidate", c.desc, ":", e.msg)
				}
				ok = false
			case unsupported:
				ok = false
			default:
				panic(r)
			}
		}
	}()
	e := x.oldEnv(st)
	if c.auto != nil {
		return c.auto(e, func(p Place) SV { return p.get(x, st, phis) }), true
	}
	e2 := &Env{st: e.st, vars: map[string]SV{}, old: e.old, pkg: e.pkg, w: e.w}
	for k, v := range e.vars {
		e2.vars[k] = v
	}
	for i, r := range c.cl.roles {
		v := c.bind[i].get(x, st, phis)
		e2.vars[r.name] = v
		if e.old == nil {
			continue
		}
		// inside of old() the role keeps its present value
		switch a := v.v.(type) {
		case *SliceVal:
			v = SV{pureSlice(st.seqOf(a), a.nil_, a.elem), v.t}
		case *Term:
		default:
			continue
		}
		o := *e2.old
		o.vars = withVar(o.vars, r.name, v)
		e2.old = &o
	}
	return e2.bool(c.cl.expr), true
}

// storedRefs lists the references at which array a differs from o, if they are all known before the loop.
func storedRefs(a, o *Term, mark int) (map[*Term]bool, bool) {
	rs := map[*Term]bool{}
	peel := func(a *Term) (*Term, bool) {
		for a.op == "store" {
			if !olderThan(a.args[1], mark, map[*Term]bool{}) {
				return a, false
			}
			rs[a.args[1]] = true
			a = a.args[0]
		}
		return a, true
	}
	a, ok1 := peel(a)
	o, ok2 := peel(o)
	return rs, ok1 && ok2 && a == o
}

func olderThan(t *Term, mark int, seen map[*Term]bool) bool {
	if seen[t] {
		return true
	}
	seen[t] = true
	if len(t.args) == 0 && !t.isNum() && t.op != "lit" {
		return t.id < mark
	}
	for _, a := range t.args {
		if !olderThan(a, mark, seen) {
			return false
		}
	}
	return true
}

func sortedTerms(m map[*Term]bool) []*Term {
	var out []*Term
	for t := range m {
		out = append(out, t)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out
}
