package main

import (
	"fmt"
	"go/types"
	"os"
	rdebug "runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

// UnitResult is the outcome of the verification of one behaviour of one function.
type UnitResult struct {
	Name       string
	Func       string
	Obls       []*Obligation
	Failed     []*Obligation
	Proved     int
	ByProver   map[string]int
	Used       []string
	Inlined    []string
	Trusted    []string
	Spawned    []string
	Candidates int
	Alive      int
	Returns    int
	Seconds    float64
	Err        string
	Measures   []string
}

type unitKey struct{ con, beh string }

// verifyUnit generates and discharges the obligations of one behaviour.
func verifyUnit(w *World, con *Contract, beh *Behavior) (res *UnitResult) {
	start := time.Now()
	name := con.name
	if beh.name != "main" {
		name += "#" + beh.name
	}
	res = &UnitResult{Name: name, Func: con.name, ByProver: map[string]int{}}
	x := &Exec{w: w, unit: name, con: con, beh: beh, funcs: map[*Term]*FuncVal{}, used: map[string]bool{}, inlined: map[string]bool{}, trustedUse: map[string]bool{}, noContract: map[string]bool{}, assumed: map[string]bool{}, inlineAll: map[string]bool{}, params: map[string]SV{}}
	func() {
		defer func() {
			if r := recover(); r != nil {
				switch e := r.(type) {
				case unsupported:
					res.Err = e.msg
				case specError:
					res.Err = "specification: " + e.msg
				default:
					res.Err = fmt.Sprintf("internal error: %v", r)
					if os.Getenv("GV_DEBUG") != "" {
						fmt.Fprintln(os.Stderr, string(rdebug.Stack()))
					}
				}
			}
		}()
		termMu.Lock()
		defer termMu.Unlock()
		x.generate()
	}()
	if res.Err != "" {
		o := &Obligation{Unit: name, Kind: "unsupported", Label: res.Err, goal: tFalse, Status: "failed", Detail: res.Err}
		x.obls = append(x.obls, o)
	}
	res.Returns = x.sawRet
	x.solve(res)
	x.auditVacuity()
	res.Used = sortedNames(x.used)
	res.Inlined = sortedNames(x.inlined)
	res.Trusted = sortedNames(x.trustedUse)
	sort.Strings(x.spawned)
	res.Spawned = x.spawned
	res.Seconds = time.Since(start).Seconds()
	return res
}

// safety obligations are discharged in the main behaviour; the other ones only add assumptions.
var safetyKinds = map[string]bool{"nil": true, "bounds": true, "assert": true, "overflow": true, "alloc": true, "div": true, "panic": true, "decreases": true, "frame": true, "locks": true, "unsupported": true, "chan": true, "token": true, "thread": true, "lockinv": true, "event": true}

func (x *Exec) generate() {
	w, con, beh := x.w, x.con, x.beh
	f := w.funcs[con.fn()]
	var recvConform types.Type
	if f == nil {
		panic(unsupported{"the function " + con.name + " under contract does not exist"})
	}
	_ = recvConform
	st := &State{x: x, facts: map[*Term]bool{}, objs: map[int]*Obj{}, heap: map[string]*Term{}, toks: map[int]bool{}, ghost: map[string]Val{}, locks: map[string]*Lock{}, perms: map[string]bool{}}
	if len(con.params) != len(f.Params) {
		panic(unsupported{fmt.Sprintf("%s has %d parameters, its contract %d", con.name, len(f.Params), len(con.params))})
	}
	var args []Val
	for i, p := range f.Params {
		n := con.params[i]
		v := x.paramVal(st, con, n, p.Type())
		args = append(args, v)
		x.params[n] = SV{v, p.Type()}
	}
	var bind []Val
	for _, fv := range f.FreeVars {
		v := x.freeVar(st, con, fv)
		bind = append(bind, v)
		x.params[fv.Name()] = SV{v, fv.Type()}
	}
	for _, g := range beh.ghosts {
		t := w.resolveType(g.typ, w.conPkg(con))
		if t == nil {
			panic(unsupported{"unknown type of the ghost " + g.name})
		}
		v := x.symbolic(st, "ghost_"+g.name, t)
		x.params[g.name] = SV{v, t}
		x.params["$"+g.name] = SV{v, t}
	}
	x.setup(st)
	x.old = st.snapshot()
	x.entryTokens(st)
	x.old = st.snapshot()
	env := x.oldEnv(st)
	main := con.behaviors[0]
	use := []*Behavior{main}
	if beh != main {
		use = append(use, beh)
	}
	for _, b := range use {
		for _, c := range b.clauses {
			if c.kind == "requires" || c.kind == "assumes" {
				t, err := x.clause(env, c)
				if err != nil {
					panic(specError{err.Error()})
				}
				st.assume(t)
			}
			if c.kind == "invariant" {
				x.invPool = append(x.invPool, c)
			}
			if c.kind == "decreases" {
				x.needTerm = true
			}
		}
	}
	if con.flags["terminates"] != "" {
		x.needTerm = true
	}
	for _, c := range main.clauses {
		if c.kind == "use" {
			x.addPool(strings.TrimSpace(c.src))
		}
	}
	if v, ok := con.flags["alloc"]; ok {
		e, err := parseExpr(v)
		if err != nil {
			panic(specError{err.Error()})
		}
		x.allocBound = &Clause{expr: e, src: v}
	}
	x.entry(st)
	x.old = st.snapshot()
	if st.killed {
		panic(unsupported{"the precondition is contradictory"})
	}
	x.emitCover(st, "entry")
	if con.target != "" && contracts.funcs[con.target] != nil {
		// the implementation has a contract of its own, which has to imply the one of the interface
		var ts []types.Type
		for _, p := range f.Params {
			ts = append(ts, p.Type())
		}
		x.useContract(st, contracts.funcs[con.target], args, ts, sigResults(f.Signature), f.Pos(), func(st *State, res []Val) { x.atReturn(st, f, res) })
	} else {
		x.runFunc(st, f, args, bind, func(st *State, res []Val) { x.atReturn(st, f, res) })
	}
	if x.sawRet == 0 && con.flags["diverges"] == "" {
		panic(unsupported{"no path of " + con.name + " returns"})
	}
}

func (x *Exec) addPool(name string) {
	c := contracts.funcs["pool:"+name]
	if c == nil {
		panic(specError{"unknown pool " + name})
	}
	for _, cl := range c.behaviors[0].clauses {
		if cl.kind == "invariant" {
			x.invPool = append(x.invPool, cl)
		}
	}
}

func (x *Exec) emitCover(st *State, label string) {
	o := x.emit(st, "cover", label, 0, tFalse)
	o.cover = true
}

func (x *Exec) paramVal(st *State, con *Contract, n string, t types.Type) Val {
	if con.isLocal(n) {
		el := deref(t)
		v := x.symbolic(st, n, el)
		if sv, ok := v.(*SliceVal); ok && con.flags["owns"] == n {
			sv.tok = st.newTok()
		}
		o := st.newObj(el, v, n)
		return &PtrVal{obj: o.id}
	}
	v := x.symbolic(st, n, t)
	if t, ok := v.(*Term); ok && t.sort == sInt && !isInteger(con2t(x, con, n, t)) && !errTypeOK(con2t(x, con, n, t)) {
		st.assume(le(num(0), t))
	}
	return v
}

func con2t(x *Exec, con *Contract, n string, t *Term) types.Type {
	f := x.w.funcs[con.fn()]
	for i, p := range f.Params {
		if con.params[i] == n {
			return p.Type()
		}
	}
	return types.Typ[types.Int]
}

func (x *Exec) atReturn(st *State, f *ssa.Function, res []Val) {
	if st.killed {
		return
	}
	x.sawRet++
	con, beh := x.con, x.beh
	vars := map[string]SV{}
	for k, v := range x.params {
		vars[k] = v
	}
	rts := sigResults(f.Signature)
	for i, r := range res {
		n := fmt.Sprintf("r%d", i)
		if i < len(con.results) {
			n = con.results[i]
		}
		vars[n] = SV{r, rts[i]}
	}
	if sawCovers[x.unit] < 400 {
		sawCovers[x.unit]++
		x.emitCover(st, fmt.Sprintf("return path %d", x.sawRet))
	}
	x.exit(st, vars, f.Pos())
	if con.flags["fresh"] != "" {
		t := st.toTerm(res[0], rts[0])
		isNew := false
		for _, r := range x.newRefs {
			isNew = isNew || r == t
		}
		if !isNew {
			x.emit(st, "frame", "the result is a new object", f.Pos(), tFalse)
		}
	}
	env := &Env{st: st, vars: vars, pkg: x.w.conPkg(con), w: x.w, old: &Env{st: x.old, vars: x.params, pkg: x.w.conPkg(con), w: x.w}}
	var use []*Behavior
	use = append(use, beh)
	for _, b := range use {
		for _, c := range b.clauses {
			if c.kind != "ensures" {
				continue
			}
			t, err := x.clause(env, c)
			if err != nil {
				o := x.emit(st, "ensures", c.label, f.Pos(), tFalse)
				o.Detail = err.Error()
				o.props = c.props
				continue
			}
			x.emit(st, "ensures", c.label, f.Pos(), t).props = c.props
		}
	}
	if x.conc {
		x.sectionClauses(st, vars, f.Pos())
	}
	if n := con.flags["owns"]; n != "" && beh.name == "main" {
		pv := x.params[n].v.(*PtrVal)
		s, ok := st.obj(pv.obj).v.(*SliceVal)
		if !ok || !(s.tok > 0 && st.toks[s.tok]) {
			x.emit(st, "frame", "the buffer owns its capacity at the end", f.Pos(), tFalse)
		}
	}
	// objects behind local pointers that are not in the modifies clause stay the same
	if beh.name == "main" {
		mod := map[string]bool{}
		for _, c := range con.behaviors[0].clauses {
			if c.kind == "modifies" {
				for _, l := range strings.Split(c.src, ",") {
					mod[strings.TrimSpace(l)] = true
				}
			}
		}
		x.frameCheck(st, mod, f.Pos())
	}
}

var privateGhost = map[string]bool{"wins": true, "recvd": true, "pend": true}

var sawCovers = map[string]int{}

// ---- discharging

// how many processes verify units, and how many solvers each of them runs at a time
var processes = numEnv("GV_PROCS", 8)
var workers = numEnv("GV_WORKERS", 4)

func numEnv(n string, d int) int {
	if v, err := strconv.Atoi(os.Getenv(n)); err == nil && v > 0 {
		return v
	}
	return d
}

func (x *Exec) solve(res *UnitResult) {
	skipSafety := x.beh.name != "main"
	var keep []*Obligation
	for _, o := range x.obls {
		if skipSafety && safetyKinds[o.Kind] && o.Status == "" {
			continue
		}
		keep = append(keep, o)
	}
	x.obls = keep
	res.Candidates = len(x.cands)
	// 1. candidate invariants
	x.houdini()
	for _, c := range x.cands {
		if !c.dead {
			res.Alive++
		}
	}
	// 2. the obligations
	var mains []*Obligation
	var covers []*Obligation
	for _, o := range x.obls {
		switch {
		case o.cover:
			covers = append(covers, o)
		case o.cand != nil:
			if !o.cand.dead {
				o.main = true
			}
		case o.meas != nil:
		case o.Status != "":
			mains = append(mains, o)
		default:
			mains = append(mains, o)
		}
	}
	parallel(mains, func(o *Obligation) {
		if o.Status != "" {
			return
		}
		x.discharge(o, false)
	})
	// 3. termination: one measure per loop has to work
	type loopKey struct{ inst *LoopInst }
	groups := map[*LoopInst][]*Measure{}
	var order []*LoopInst
	seen := map[*Measure]bool{}
	for _, o := range x.obls {
		if o.meas != nil && !seen[o.meas] {
			seen[o.meas] = true
			if groups[o.meas.inst] == nil {
				order = append(order, o.meas.inst)
			}
			groups[o.meas.inst] = append(groups[o.meas.inst], o.meas)
		}
	}
	for _, li := range order {
		ok := false
		var last *Obligation
		for _, m := range groups[li] {
			if len(m.obls) < li.backs {
				last = m.obls[0]
				continue // not defined on every way back
			}
			good := true
			for _, o := range m.obls {
				if !x.discharge(o, true) {
					good = false
					last = o
					break
				}
			}
			if good {
				ok = true
				for _, o := range m.obls {
					mains = append(mains, o)
				}
				break
			}
		}
		if !ok && last != nil {
			last.Status = "failed"
			last.Kind = "decreases"
			last.Label = "no measure proves that the loop ends (" + last.Label + ")"
			mains = append(mains, last)
		}
	}
	// 4. vacuity: some way through the function must be possible
	if len(covers) > 0 {
		// the first one is the precondition; of the others, one has to be satisfiable
		vac := covers[0]
		vacuous := x.checkCover(covers[0]) == "vacuous"
		if !vacuous && len(covers) > 1 {
			vacuous = true
			for i := len(covers) - 1; i > 0 && i > len(covers)-40; i-- {
				if x.checkCover(covers[i]) != "vacuous" {
					vacuous = false
					break
				}
			}
		}
		if vacuous {
			o := &Obligation{Unit: x.unit, Kind: "vacuity", Label: "every path is contradictory", Status: "failed", goal: tFalse, Pos: vac.Pos}
			mains = append(mains, o)
		}
	}
	for _, o := range x.obls {
		if o.main {
			mains = append(mains, o)
		}
	}
	res.Obls = mains
	for _, o := range mains {
		if o.Status == "proved" {
			res.Proved++
			res.ByProver[o.Prover]++
		} else {
			res.Failed = append(res.Failed, o)
		}
	}
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func (x *Exec) assumptions(o *Obligation) []*Term {
	var out []*Term
	for p := o.assume; p != nil; p = p.up {
		if p.cand != nil && p.cand.dead {
			continue
		}
		out = append(out, p.t)
	}
	// oldest first
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

func (x *Exec) discharge(o *Obligation, quick bool) bool {
	if o.goal == tTrue {
		o.Status, o.Prover = "proved", "simplifier"
		return true
	}
	// once several obligations have failed, so has the unit: do not spend much time on the other ones
	by, det := prove(x.assumptions(o), o.goal, quick || atomic.LoadInt32(&x.nfailed) >= 4)
	o.Detail = det
	if by != "" {
		o.Status, o.Prover = "proved", by
		return true
	}
	o.Status = "failed"
	if !quick {
		atomic.AddInt32(&x.nfailed, 1)
	}
	return false
}

func (x *Exec) checkCover(o *Obligation) string {
	as := x.assumptions(o)
	termMu.Lock()
	subs, err := presolveSafe(as, tFalse)
	if err == "" && len(subs) == 0 {
		termMu.Unlock()
		return "vacuous"
	}
	if err == "" {
		as = subs[0].hyps
	}
	q := buildQuery(as, nil, 0)
	termMu.Unlock()
	if runSolver(solvers[0], q, 1000*time.Millisecond) == "unsat" {
		return "vacuous"
	}
	return "covered"
}

func (x *Exec) houdini() {
	cache := map[*Obligation]bool{}
	for round := 0; round < 40; round++ {
		var todo []*Obligation
		for _, o := range x.obls {
			if o.cand != nil && !o.cand.dead && !cache[o] {
				todo = append(todo, o)
			}
		}
		if len(todo) == 0 {
			return
		}
		var mu sync.Mutex
		died := map[*Cand]bool{}
		parallel(todo, func(o *Obligation) {
			mu.Lock()
			d := died[o.cand]
			mu.Unlock()
			if d {
				return
			}
			ok := x.discharge(o, true)
			mu.Lock()
			cache[o] = ok
			if !ok {
				died[o.cand] = true
			}
			mu.Unlock()
		})
		if len(died) == 0 {
			return
		}
		for c := range died {
			c.dead = true
			if debug {
				for _, o := range c.obls {
					if o.Status == "failed" {
						fmt.Println("candidate died:", c.desc, c.srcOf(), "::", o.Kind, o.Detail, "\n     goal", o.goal)
						if os.Getenv("GV_SHOW") == "3" {
							for _, s := range presolve(x.assumptions(o), o.goal) {
								fmt.Println("      SUBGOAL:", s.goal)
								for _, h := range s.hyps {
									fmt.Println("          |", h)
								}
							}
						}
						if os.Getenv("GV_SHOW") == "2" {
							for _, a := range x.assumptions(o) {
								fmt.Println("          |", a)
							}
						}
						break
					}
				}
			}
		}
		// obligations that relied on a dead candidate are checked again
		for o := range cache {
			if o.cand.dead {
				continue
			}
			for p := o.assume; p != nil; p = p.up {
				if p.cand != nil && died[p.cand] {
					delete(cache, o)
					break
				}
			}
		}
	}
}

func parallel(os []*Obligation, f func(*Obligation)) {
	var wg sync.WaitGroup
	ch := make(chan *Obligation)
	for i := 0; i < workers; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for o := range ch {
				f(o)
			}
		}()
	}
	for _, o := range os {
		ch <- o
	}
	close(ch)
	wg.Wait()
}

func (x *Exec) frameCheck(st *State, mod map[string]bool, p interface{}) {
	for n, v := range x.params {
		pv, ok := v.v.(*PtrVal)
		if !ok || mod["*"+n] || len(pv.path) > 0 {
			continue
		}
		a := x.old.obj(pv.obj)
		b := st.obj(pv.obj)
		if b.lent {
			x.emit(st, "frame", "*"+n+" belongs to the caller again", 0, tFalse)
			continue
		}
		if sv, ok := b.v.(*StructVal); ok {
			// w.f: only this field
			av := a.v.(*StructVal)
			same := true
			stt := under(sv.t).(*types.Struct)
			for i := range sv.fs {
				same = same && (mod[n+"."+stt.Field(i).Name()] || valEq(av.fs[i], sv.fs[i]))
			}
			if same {
				continue
			}
		}
		if !valEq(a.v, b.v) {
			x.emit(st, "frame", "*"+n+" is not modified", 0, tFalse)
		}
	}
	for k, a := range st.heap {
		if !strings.HasPrefix(k, "g:") {
			continue
		}
		name := ""
		for gn, g := range ghostArrays {
			if g.key == k {
				name = gn
			}
		}
		if mod[name] || privateGhost[name] && x.con.target != "" {
			// the events and channels of an implementation are not visible through the interface
			continue
		}
		o := x.old.heap[k]
		if o == nil {
			o = initialHeap(a)
		}
		if o == a {
			continue
		}
		// only changed at the listed references
		goal := tTrue
		var refs []*Term
		for m := range mod {
			if strings.HasPrefix(m, name+"[") {
				e, err := parseExpr(m[len(name)+1 : len(m)-1])
				if err == nil {
					env := x.oldEnv(x.old)
					refs = append(refs, env.refOf(env.eval(e)))
				}
			}
		}
		exp := o
		for _, r := range refs {
			exp = store(exp, r, sel(a, r))
		}
		for _, r := range x.newRefs {
			exp = store(exp, r, sel(a, r))
		}
		q := newBound(sInt)
		g := eq(sel(a, q), sel(exp, q))
		goal = forall([]*Term{q}, g, mk(sel(a, q).sort, "select", a, q))
		if os := initialHeap(a); len(refs) == 0 && os == o {
			// written references must be fresh or the list is incomplete
			_ = os
		}
		x.emit(st, "frame", "ghost "+name+" changes only where declared", 0, goal)
	}
}

// setupImpls adds, for every interface contract, one contract per implementation in the module.
func setupImpls(w *World) (missing []string) {
	var ifs []*Contract
	for _, n := range contractNames2() {
		if c := contracts.funcs[n]; c.iface && !strings.HasPrefix(n, "field:") {
			ifs = append(ifs, c)
		}
	}
	for _, c := range ifs {
		i := strings.LastIndex(c.name, ".")
		in, mn := c.name[:i], c.name[i+1:]
		it := w.namedType(in)
		if it == nil {
			missing = append(missing, "unknown interface "+in)
			continue
		}
		for _, t := range w.implementations(it) {
			tn := typeName(t)
			ok := false
			for _, cf := range contracts.conforms {
				if cf.typ == tn && cf.iface == in {
					ok = true
				}
			}
			if !ok && usesConform(in) {
				missing = append(missing, tn+" implements "+in+" and has no conform declaration")
				continue
			}
			fn := "(" + tn + ")." + mn
			if w.funcs[fn] == nil {
				continue // promoted from an embedded interface
			}
			cc := *c
			cc.name = fn + "@" + in
			cc.target = fn
			cc.iface = false
			contracts.funcs[cc.name] = &cc
			c.impls = append(c.impls, cc.name)
		}
	}
	return
}

func usesConform(in string) bool {
	for _, c := range contracts.conforms {
		if c.iface == in {
			return true
		}
	}
	return false
}

func contractNames2() []string { return contractNames() }

func contractNames() []string {
	var out []string
	for n := range contracts.funcs {
		out = append(out, n)
	}
	sort.Strings(out)
	return out
}

// setupFlats evaluates the bodies of the flat functions once with a bound variable.
func setupFlats(w *World) {
	for n := range contracts.flatDefs {
		flats[n] = &Flat{name: n}
	}
	for n, sf := range contracts.flatDefs {
		q := newBound(sInt)
		x := &Exec{w: w, funcs: map[*Term]*FuncVal{}}
		st := &State{x: x, facts: map[*Term]bool{}, objs: map[int]*Obj{}, heap: map[string]*Term{}, toks: map[int]bool{}, ghost: map[string]Val{}, locks: map[string]*Lock{}, perms: map[string]bool{}}
		var t types.Type
		var pkg *types.Package
		for _, p := range w.tpkgs {
			if t = w.resolveType(sf.params[0].typ, p); t != nil {
				pkg = p
				break
			}
		}
		if t == nil {
			panic("flat " + n + ": unknown type " + sf.params[0].src)
		}
		e := &Env{st: st, w: w, pkg: pkg, vars: map[string]SV{sf.params[0].name: {st.fromTerm(unboxElem(q, t), t), t}}}
		flats[n].elem = q
		flats[n].body = e.term(e.eval(sf.body))
		flats[n].typ = t
	}
}

func (c *Cand) srcOf() string {
	if c.cl != nil {
		return c.cl.src
	}
	return ""
}
