package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type cont func(*State, []Val)

func (x *Exec) call(st *State, c *ssa.CallCommon, fnv Val, args []Val, p token.Pos, k cont) {
	if c.IsInvoke() {
		x.invoke(st, fnv, c.Value.Type(), c.Method, args, p, k)
		return
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		x.builtin(st, b.Name(), c, args, p, k)
		return
	}
	if f := c.StaticCallee(); f != nil {
		var bind []Val
		if fv, ok := fnv.(*FuncVal); ok {
			bind = fv.bind
		}
		x.callFn(st, f, args, bind, p, k)
		return
	}
	x.callVal(st, fnv, c.Value.Type(), c.Value, args, p, k)
}

func (x *Exec) callVal(st *State, fnv Val, ft types.Type, src ssa.Value, args []Val, p token.Pos, k cont) {
	switch f := fnv.(type) {
	case *FuncVal:
		if f.meth != nil {
			x.invoke(st, f.recv, f.meth.Type().(*types.Signature).Recv().Type(), f.meth, args, p, k)
			return
		}
		if f.fn != nil {
			x.callFn(st, f.fn, args, f.bind, p, k)
			return
		}
	case *Term:
		if g := x.funcs[f]; g != nil && g.fn != nil {
			x.callFn(st, g.fn, args, g.bind, p, k)
			return
		}
		x.oblige(st, "nil", "call of a nil function", p, not(eq(f, num(0))))
		if id, ok := fldOwner[f.op]; ok {
			// a function in a field under contract
			key := "field:" + typeName(id.t) + "." + under(id.t).(*types.Struct).Field(id.i).Name()
			if con := contracts.funcs[key]; con != nil {
				sig := under(ft).(*types.Signature)
				x.used[con.name] = true
				x.useContract(st, con, args, sigParams(sig), sigResults(sig), p, k)
				return
			}
		}
		if x.fsCall(st, f, p, k) {
			return
		}
		key := "dyn:" + typeName(ft)
		if con := contracts.funcs[key]; con != nil {
			sig := under(ft).(*types.Signature)
			x.useContract(st, con, append([]Val{f}, args...), append([]types.Type{ft}, sigParams(sig)...), sigResults(sig), p, k)
			return
		}
		x.unmodelled(st, "call of an unknown function of type "+typeName(ft), p)
		return
	}
	x.unmodelled(st, "call through "+errVal(fnv), p)
}

func sigParams(s *types.Signature) []types.Type {
	var out []types.Type
	for i := 0; i < s.Params().Len(); i++ {
		out = append(out, s.Params().At(i).Type())
	}
	return out
}

func sigResults(s *types.Signature) []types.Type {
	var out []types.Type
	for i := 0; i < s.Results().Len(); i++ {
		out = append(out, s.Results().At(i).Type())
	}
	return out
}

func (x *Exec) unmodelled(st *State, what string, p token.Pos) {
	x.fail(st, "unsupported", what, p)
}

func (x *Exec) invoke(st *State, recv Val, it types.Type, m *types.Func, args []Val, p token.Pos, k cont) {
	if iv, ok := recv.(*IfaceVal); ok {
		if n, isN := iv.dyn.(*types.Named); isN && !x.w.ours[n.Obj().Pkg()] {
			if h := intrinsics["("+shortType(iv.dyn)+")."+m.Name()]; h != nil {
				h(x, st, append([]Val{iv.v}, args...), nil, p, k)
				return
			}
		}
		ms := x.w.prog.MethodSets.MethodSet(iv.dyn)
		s := ms.Lookup(m.Pkg(), m.Name())
		if s == nil {
			s = ms.Lookup(nil, m.Name())
		}
		if s == nil {
			x.unmodelled(st, "no method "+m.Name()+" in "+typeName(iv.dyn), p)
			return
		}
		f := x.w.prog.MethodValue(s)
		x.callFn(st, f, append([]Val{iv.v}, args...), nil, p, k)
		return
	}
	switch r := recv.(type) {
	case *RTypeVal, *RValueVal:
		_ = r
		x.unmodelled(st, "reflect method "+m.Name(), p)
		return
	case *Term:
		x.oblige(st, "nil", "method call on a nil interface", p, not(eq(r, num(0))))
		if st.killed {
			return
		}
		key := shortType(it) + "." + m.Name()
		if h := intrinsics[key]; h != nil {
			h(x, st, append([]Val{r}, args...), sigResults(m.Type().(*types.Signature)), p, k)
			return
		}
		if con := contracts.funcs[key]; con != nil {
			sig := m.Type().(*types.Signature)
			x.useContract(st, con, append([]Val{r}, args...), append([]types.Type{it}, sigParams(sig)...), sigResults(sig), p, k)
			return
		}
		// methods of embedded interfaces
		if rt := m.Type().(*types.Signature).Recv(); rt != nil && typeName(rt.Type()) != typeName(it) {
			x.invoke(st, recv, rt.Type(), m, args, p, k)
			return
		}
		x.unmodelled(st, "call of the interface method "+key, p)
		return
	}
	x.unmodelled(st, "method call on "+errVal(recv), p)
}

func shortType(t types.Type) string { return typeName(t) }

func (x *Exec) callFn(st *State, f *ssa.Function, args, bind []Val, p token.Pos, k cont) {
	name := shortName(f)
	if h := intrinsics[name]; h != nil {
		x.trustedUse["intrinsic "+name] = true
		h(x, st, args, sigResults(f.Signature), p, k)
		return
	}
	if strings.HasPrefix(name, "logrus.") || strings.HasPrefix(name, "(*logrus.") {
		x.trustedUse["intrinsic logrus (no effect on the verified state)"] = true
		var res []Val
		for _, t := range sigResults(f.Signature) {
			res = append(res, x.symbolic(st, "log", t))
		}
		k(st, res)
		return
	}
	if con := contracts.funcs[name]; con != nil && !x.inlineAll[name] && con.flags["inline"] == "" {
		var ts []types.Type
		for _, pa := range f.Params {
			ts = append(ts, pa.Type())
		}
		if len(f.Params) == 0 { // no body
			if r := f.Signature.Recv(); r != nil {
				ts = append(ts, r.Type())
			}
			ts = append(ts, sigParams(f.Signature)...)
		}
		x.useContract(st, con, args, ts, sigResults(f.Signature), p, k)
		return
	}
	own := f.Pkg != nil && x.w.ours[f.Pkg.Pkg] || f.Synthetic != "" && f.Pkg == nil && len(f.Blocks) > 0 || f.Parent() != nil
	if own && len(f.Blocks) == 0 && f.Synthetic != "" {
		own = false
	}
	if own && len(f.Blocks) > 0 {
		if len(x.threads) > 5 {
			x.unmodelled(st, "goroutines that start each other ("+name+")", p)
			return
		}
		for _, fr := range st.frames[st.frameBase:] {
			if fr.fn == f {
				x.unmodelled(st, "recursive call of "+name+" without a contract", p)
				return
			}
		}
		x.inlined[name] = true
		x.runFunc(st, f, args, bind, func(st *State, res []Val) { k(st, res) })
		return
	}
	x.unmodelled(st, "call of the unmodelled function "+name, p)
}

// symbolic is an arbitrary value of a type.
func (x *Exec) symbolic(st *State, name string, t types.Type) Val {
	switch u := under(t).(type) {
	case *types.Basic:
		switch {
		case isInteger(t):
			c := freshInt(name, t)
			st.assume(rangeFact(c, t))
			return c
		case isString(t), isBool(t):
			return fresh(name, sortOf(t))
		}
	case *types.Slice:
		s := fresh(name, seqSort(u.Elem()))
		n := fresh(name+"_nil", sBool)
		st.assume(implies(n, eq(slen(s), num(0))))
		st.assume(le(slen(s), bignum(maxLen)))
		return &SliceVal{seq: s, nil_: n, elem: u.Elem(), off: num(0)}
	case *types.Struct:
		if o := opaqueZero(t); o != nil {
			return fresh(name, sInt)
		}
		sv := &StructVal{t: t}
		for i := 0; i < u.NumFields(); i++ {
			sv.fs = append(sv.fs, x.symbolic(st, name+"_"+u.Field(i).Name(), u.Field(i).Type()))
		}
		return sv
	case *types.Array:
		s := fresh(name, seqSort(u.Elem()))
		st.assume(eq(slen(s), num(u.Len())))
		return &ArrayVal{t: u, seq: s}
	}
	return fresh(name, sInt)
}

func (x *Exec) oldEnv(st *State) *Env {
	e := &Env{st: st, vars: x.params, pkg: x.w.conPkg(x.con), w: x.w}
	if x.old != nil {
		e.old = &Env{st: x.old, vars: x.params, pkg: e.pkg, w: x.w}
	}
	return e
}

// specBool evaluates a clause and turns errors of the specification into failed obligations.
func (x *Exec) clause(e *Env, c *Clause) (t *Term, err error) {
	defer func() {
		if r := recover(); r != nil {
			switch v := r.(type) {
			case specError:
				err = fmt.Errorf("%s:%d: %s", c.file, c.line, v.msg)
			case unsupported:
				err = fmt.Errorf("%s:%d: %s", c.file, c.line, v.msg)
			default:
				panic(r)
			}
		}
	}()
	if audit {
		x.ante = nil
		if ce, ok := c.expr.(*ast.CallExpr); ok {
			if id, ok := ce.Fun.(*ast.Ident); ok && id.Name == "implies" {
				x.ante = e.bool(ce.Args[0])
			}
		}
	}
	return e.bool(c.expr), nil
}

func (x *Exec) assumeClause(st *State, e *Env, c *Clause) {
	t, err := x.clause(e, c)
	if err != nil {
		// not being able to state an assumption is safe
		if debug {
			fmt.Println("assumption not usable:", err)
		}
		return
	}
	st.assume(t)
}

// useContract is a call that is checked against the contract of the callee.
func (x *Exec) useContract(st *State, con *Contract, args []Val, pts, rts []types.Type, p token.Pos, k cont) {
	if con.trusted {
		x.trustedUse["contract "+con.name] = true
	} else {
		x.used[con.name] = true
	}
	if len(con.params) != len(args) {
		x.unmodelled(st, fmt.Sprintf("contract of %s has %d parameters, the code has %d", con.name, len(con.params), len(args)), p)
		return
	}
	pkg := x.w.conPkg(con)
	vars := map[string]SV{}
	var raw SV
	if len(args) > 0 {
		raw = SV{args[0], pts[0]}
	}
	for i, n := range con.params {
		v := args[i]
		// slices that the callee may keep must not change anymore
		if s, ok := v.(*SliceVal); ok {
			if con.flags["writes"] != n {
				v = st.freezeSlice(s)
			}
		}
		if pv, ok := v.(*PtrVal); ok && con.isLocal(n) {
			v = pv
		} else if ok {
			v = st.toTerm(pv, pts[i])
		}
		if fv, ok := v.(*FuncVal); ok && con.flags["keepfn"] == "" {
			v = fv
		}
		t := pts[i]
		if iv, ok := v.(*IfaceVal); ok {
			// references in interfaces escape
			if pv, ok := iv.v.(*PtrVal); ok {
				v = &IfaceVal{dyn: iv.dyn, v: st.toTerm(pv, iv.dyn)}
			}
		}
		vars[n] = SV{v, t}
	}
	if x.dry == 0 {
		for _, c := range x.beh.clauses {
			if c.kind != "before" || c.at != con.name {
				continue
			}
			cv := map[string]SV{}
			for n, v := range x.params {
				cv[n] = v
			}
			for i, r := range c.roles {
				if i < len(con.params) {
					cv[r.name] = vars[con.params[i]]
				}
			}
			pk := x.w.conPkg(x.con)
			g, err := x.clause(&Env{st: st, vars: cv, pkg: pk, w: x.w, old: &Env{st: x.old, vars: x.params, pkg: pk, w: x.w}}, c)
			if err != nil {
				panic(specError{err.Error()})
			}
			x.emit(st, "before", c.label, p, g).props = c.props
		}
	}
	if con.flags["owns"] != "" {
		n := con.flags["owns"]
		if pv, ok := vars[n].v.(*PtrVal); ok {
			v, _ := x.navigate(st, st.obj(pv.obj).v, st.obj(pv.obj).t, pv.path)
			s := v.(*SliceVal)
			if !(s.tok > 0 && st.toks[s.tok]) {
				x.fail(st, "frame", "append to a buffer that may share its capacity", p)
				return
			}
		}
	}
	pre := &Env{st: st, vars: vars, pkg: pkg, w: x.w}
	main := con.behaviors[0]
	for _, c := range main.clauses {
		if c.kind != "requires" {
			continue
		}
		t, err := x.clause(pre, c)
		if err != nil {
			x.fail(st, "requires", con.name+"/"+c.label+": "+err.Error(), p)
			return
		}
		x.oblige(st, "requires", con.name+"/"+c.label, p, t)
		if st.killed {
			return
		}
	}
	x.callTokens(st, con, pre, p)
	if st.killed {
		return
	}
	if fs := con.flags["callbacks"]; fs != "" && x.conc {
		x.callbacks(st, strings.Fields(fs), raw, p)
		if st.killed {
			return
		}
	}
	if x.conc && con.flags["pure"] == "" {
		st.tick()
		st.newRefs = nil
	}
	if n := con.flags["fires"]; n != "" && x.conc {
		x.fires(st, pre.refOf(vars[n]), nil, p)
		if st.killed {
			return
		}
	}
	before := st.snapshot()
	oldE := &Env{st: before, vars: vars, pkg: pkg, w: x.w}
	// frame
	for _, c := range main.clauses {
		if c.kind == "modifies" {
			x.applyModifies(st, c, vars, con, p)
		}
	}
	x.writerHavoc(st, con, pre)
	if con.flags["noreturn"] != "" {
		return
	}
	if x.conc && con.flags["pure"] == "" {
		st.tick()
	}
	res := make([]Val, len(rts))
	vars2 := map[string]SV{}
	for n, v := range vars {
		vars2[n] = v
	}
	for i, t := range rts {
		n := fmt.Sprintf("r%d", i)
		if i < len(con.results) {
			n = con.results[i]
		}
		base := con.name[strings.LastIndexAny(con.name, ".:")+1:]
		if i == 0 && con.flags["fresh"] != "" {
			res[i] = x.newRef(base + "_" + n)
			if x.conc {
				x.grant(st, "unowned", res[i].(*Term))
			}
		} else {
			res[i] = x.symbolic(st, base+"_"+n, t)
		}
		vars2[n] = SV{res[i], t}
	}
	post := &Env{st: st, vars: vars2, pkg: pkg, w: x.w, old: oldE}
	for _, n := range con.params {
		x.ownerFacts(st, vars2[n])
	}
	for _, n := range con.results {
		x.ownerFacts(st, vars2[n])
	}
	x.callGives(st, con, post, p, true)
	for _, b := range con.behaviors {
		if len(b.ghosts) > 0 {
			x.useGhostBehavior(st, con, b, post, oldE)
			continue
		}
		if b.flags["internal"] != "" {
			continue
		}
		pre := tTrue
		skip := false
		for _, c := range b.clauses {
			if c.kind == "assumes" || (c.kind == "requires" && b != main) {
				t, err := x.clause(oldE, c)
				if err != nil {
					skip = true
					break
				}
				pre = and(pre, t)
			}
		}
		if skip {
			continue
		}
		if b != main {
			x.used[con.name+"#"+b.name] = true
		}
		for _, c := range b.clauses {
			if c.kind != "ensures" {
				continue
			}
			t, err := x.clause(post, c)
			if err != nil {
				if debug {
					fmt.Println("postcondition not usable:", con.name, err)
				}
				continue
			}
			st.assume(implies(pre, t))
		}
	}
	x.callGives(st, con, post, p, false)
	if n := con.flags["fires"]; n != "" && x.conc && !st.killed {
		x.fires(st, post.refOf(vars[n]), res[0].(*Term), p)
	}
	if st.killed {
		return
	}
	// results that are fixed by the postcondition
	for i, n := range con.results {
		if i < len(res) {
			if t, ok := res[i].(*Term); ok {
				res[i] = st.resolveEq(t)
				_ = n
			}
		}
	}
	k(st, res)
}

// resolveEq follows an equality with a constant or boolean fact.
func (s *State) resolveEq(t *Term) *Term {
	if t.sort == sBool {
		if v, ok := s.known(t); ok {
			if v {
				return tTrue
			}
			return tFalse
		}
	}
	return t
}

func (c *Contract) isLocal(p string) bool {
	for _, n := range strings.Fields(c.flags["local"]) {
		if n == p {
			return true
		}
	}
	return false
}

// useGhostBehavior instantiates the ghosts of a behaviour of the callee with ghosts of the caller's unit of the same name.
func (x *Exec) useGhostBehavior(st *State, con *Contract, b *Behavior, post, old *Env) {
	if x.beh == nil || b.flags["internal"] != "" {
		return
	}
	pv, ov := post, old
	for _, g := range b.ghosts {
		v, ok := x.params["$"+g.name]
		if !ok {
			return
		}
		ty := x.w.resolveType(g.typ, x.w.conPkg(con))
		if ty != nil && v.t != nil && !types.Identical(ty, v.t) {
			return
		}
		pv = &Env{st: pv.st, vars: withVar(pv.vars, g.name, v), pkg: pv.pkg, w: pv.w, old: pv.old}
		ov = &Env{st: ov.st, vars: withVar(ov.vars, g.name, v), pkg: ov.pkg, w: ov.w}
		pv.old = ov
	}
	pre := tTrue
	for _, c := range b.clauses {
		if c.kind == "assumes" || c.kind == "requires" {
			t, err := x.clause(ov, c)
			if err != nil {
				return
			}
			pre = and(pre, t)
		}
	}
	x.used[con.name+"#"+b.name] = true
	for _, c := range b.clauses {
		if c.kind == "ensures" {
			t, err := x.clause(pv, c)
			if err == nil {
				st.assume(implies(pre, t))
			}
		}
	}
}

func withVar(m map[string]SV, n string, v SV) map[string]SV {
	r := map[string]SV{}
	for k, x := range m {
		r[k] = x
	}
	r[n] = v
	return r
}

// applyModifies havocs the locations of a modifies clause.
func (x *Exec) applyModifies(st *State, c *Clause, vars map[string]SV, con *Contract, p token.Pos) {
	for _, l := range strings.Split(c.src, ",") {
		l = strings.TrimSpace(l)
		switch {
		case strings.HasPrefix(l, "*"):
			v, ok := vars[l[1:]]
			if !ok {
				panic(unsupported{"modifies " + l})
			}
			pv, ok := v.v.(*PtrVal)
			if !ok {
				panic(unsupported{"modifies through " + errVal(v.v)})
			}
			o := st.obj(pv.obj)
			if o.frozen {
				x.fail(st, "frame", "write to a shared object ("+con.name+")", p)
				return
			}
			cur, t := x.navigate(st, o.v, o.t, pv.path)
			nv := x.havocVal(st, cur, t, "mod_"+l[1:], con.flags["owns"] == l[1:])
			m := st.mut(pv.obj)
			m.v = x.update(st, m.v, m.t, pv.path, nv)
		case localField(vars, l) != nil:
			_, f, _ := strings.Cut(l, ".")
			pv := localField(vars, l)
			o := st.obj(pv.obj)
			stt := under(o.t).(*types.Struct)
			for i := 0; i < stt.NumFields(); i++ {
				if stt.Field(i).Name() == f && len(pv.path) == 0 {
					m := st.mut(pv.obj)
					m.v = x.update(st, m.v, m.t, []PathElem{{field: i}}, x.symbolic(st, "mod_"+f, stt.Field(i).Type()))
				}
			}
		case strings.Contains(l, "["):
			// ghost array at a reference: stream[r]
			i := strings.Index(l, "[")
			e, err := parseExpr(l[i+1 : len(l)-1])
			if err != nil {
				panic(unsupported{"modifies " + l})
			}
			env := &Env{st: st, vars: vars, pkg: x.w.conPkg(con), w: x.w}
			x.havocGhostAt(st, l[:i], env.term(env.eval(e)))
		default:
			x.havocNamed(st, l, vars, con)
		}
	}
}

// ---- ghost arrays

type ghostDecl struct{ key, elem string }

var ghostArrays = map[string]ghostDecl{
	"stream":  {"g:stream", sBy},
	"written": {"g:written", sBy},
	"nwrites": {"g:nwrites", sInt},
	"wfailed": {"g:wfailed", sBool},
	"closed":  {"n:closed", sBool},
}

func (s *State) ghostArr(n string) *Term {
	g, ok := ghostArrays[n]
	if !ok {
		panic(unsupported{"ghost array " + n})
	}
	return s.heapArr(g.key, g.elem)
}

func (s *State) ghostSel(n string, r *Term) *Term {
	if strings.HasPrefix(ghostArrays[n].key, "m:") {
		return s.happened(n, r)
	}
	return sel(s.ghostArr(n), r)
}

func (s *State) ghostStore(n string, r, v *Term) {
	if strings.HasPrefix(ghostArrays[n].key, "m:") {
		s.tick()
		s.assume(implies(v, s.happened(n, r)))
		return
	}
	s.heap[ghostArrays[n].key] = store(s.ghostArr(n), r, v)
}

func (x *Exec) havocGhostAt(st *State, n string, r *Term) {
	g, ok := ghostArrays[n]
	if !ok {
		panic(unsupported{"ghost array " + n})
	}
	if strings.HasPrefix(g.key, "m:") {
		st.tick()
		return
	}
	v := fresh("gh_"+n, g.elem)
	if strings.HasPrefix(g.key, "n:") {
		st.assume(implies(st.ghostSel(n, r), v))
	}
	st.ghostStore(n, r, v)
}

func (x *Exec) havocNamed(st *State, n string, vars map[string]SV, con *Contract) {
	if g, ok := ghostArrays[n]; ok {
		if strings.HasPrefix(g.key, "m:") {
			st.tick()
			return
		}
		st.heapArr(g.key, g.elem)
		x.havocHeap(st, g.key)
		return
	}
	panic(unsupported{"modifies " + n})
}

// ---- specification functions over interfaces and ghost state

func ghostFn(e *Env, name string, args []ast.Expr) *SV {
	if g, ok := ghostArrays[name]; ok && len(args) == 1 {
		r := e.refOf(e.eval(args[0]))
		v := e.st.ghostSel(name, r)
		var sv SV
		switch g.elem {
		case sBy:
			sv = SV{pureSlice(v, tFalse, types.Typ[types.Uint8]), types.NewSlice(types.Typ[types.Uint8])}
		case sSq:
			sv = SV{pureSlice(v, tFalse, ghostSeqElem), types.NewSlice(ghostSeqElem)}
		case sBool:
			sv = SV{v, types.Typ[types.Bool]}
		default:
			sv = SV{v, types.Typ[types.Int]}
		}
		return &sv
	}
	if so, ok := ifaceFns[name]; ok && len(args) == 1 {
		v := e.ifaceFn(name, so, e.eval(args[0]))
		return &v
	}
	if h := concSpec[name]; h != nil {
		v := h(e, args)
		return &v
	}
	return nil
}

func (e *Env) refOf(v SV) *Term {
	if iv, ok := v.v.(*IfaceVal); ok {
		return e.st.toTerm(iv.v, iv.dyn)
	}
	return e.term(v)
}

// ifaceFns are specification functions on interfaces that are defined per dynamic type by conform declarations.
var ifaceFns = map[string]string{}

func setupConforms() {
	for _, c := range contracts.conforms {
		for _, q := range c.eqs {
			b, ok := q.expr.(*ast.BinaryExpr)
			if !ok || b.Op != token.EQL {
				panic("conform: equation expected: " + q.src)
			}
			f := b.X.(*ast.CallExpr).Fun.(*ast.Ident).Name
			if _, ok := ifaceFns[f]; !ok {
				ifaceFns[f] = ""
			}
		}
	}
	for f := range ifaceFns {
		ss, ok := contracts.ufuncs[f]
		if !ok {
			panic("conform: declare ufunc " + f)
		}
		ifaceFns[f] = ss[len(ss)-1]
		delete(contracts.ufuncs, f)
		decls["u_"+f] = "(Int) " + sortAlias(ss[len(ss)-1])
	}
}

func conformDef(f string, t types.Type) (*Conform, ast.Expr) {
	tn := typeName(t)
	for _, c := range contracts.conforms {
		if c.typ != tn {
			continue
		}
		for _, q := range c.eqs {
			b := q.expr.(*ast.BinaryExpr)
			if b.X.(*ast.CallExpr).Fun.(*ast.Ident).Name == f {
				return c, b.Y
			}
		}
	}
	return nil, nil
}

func (e *Env) ifaceFn(f, so string, v SV) SV {
	t := v.t
	val := v.v
	if iv, ok := val.(*IfaceVal); ok {
		t, val = iv.dyn, iv.v
	}
	if t != nil {
		if _, isI := under(t).(*types.Interface); !isI {
			if c, def := conformDef(f, t); c != nil {
				n := &Env{st: e.st, w: e.w, pkg: e.w.conPkg(&Contract{name: c.typ}), vars: map[string]SV{c.recv: {val, t}}}
				return n.eval(def)
			}
			if _, isIface := val.(*Term); !isIface {
				return e.fail("%s is not defined for %s", f, typeName(t))
			}
			return e.fail("%s is not defined for %s", f, typeName(t))
		}
	}
	x, ok := val.(*Term)
	if !ok {
		return e.fail("%s of %s", f, errVal(val))
	}
	return e.wrapSort(mk(sortAlias(so), "u_"+f, x), so)
}

func (e *Env) wire(v SV) *Term { r := e.ifaceFn("wire", "bytes", v); return e.term(r) }

// ifaceFacts connects the uninterpreted functions of a reference with the definitions for its dynamic type.
func (x *Exec) ifaceFacts(st *State, r *Term, v *IfaceVal) {
	tn := typeName(v.dyn)
	for _, c := range contracts.conforms {
		if c.typ != tn {
			continue
		}
		for _, q := range c.eqs {
			b := q.expr.(*ast.BinaryExpr)
			f := b.X.(*ast.CallExpr).Fun.(*ast.Ident).Name
			e := &Env{st: st, w: x.w, pkg: x.w.conPkg(&Contract{name: c.typ}), vars: map[string]SV{c.recv: {v.v, v.dyn}}}
			func() {
				defer func() {
					if rr := recover(); rr != nil {
						if _, ok := rr.(specError); !ok {
							panic(rr)
						}
					}
				}()
				d := e.term(e.eval(b.Y))
				st.assume(eq(mk(d.sort, "u_"+f, r), d))
			}()
		}
	}
}

// ---- builtins

func (x *Exec) builtin(st *State, name string, c *ssa.CallCommon, args []Val, p token.Pos, k cont) {
	switch name {
	case "len":
		switch a := args[0].(type) {
		case *Term:
			if a.sort == sBy {
				k(st, []Val{slen(a)})
				return
			}
			if _, ok := under(c.Args[0].Type()).(*types.Map); ok {
				if isNilConst(a) {
					k(st, []Val{num(0)})
					return
				}
				x.mapAccess(st, a, false, p)
				n := st.hcard(a)
				st.assume(le(num(0), n))
				k(st, []Val{ite(eq(a, num(0)), num(0), n)})
				return
			}
			if _, ok := under(c.Args[0].Type()).(*types.Chan); ok {
				n := fresh("chanlen", sInt)
				st.assume(le(num(0), n))
				k(st, []Val{n})
				return
			}
		case *SliceVal:
			k(st, []Val{st.lenOf(a)})
			return
		case *MapVal:
			_, _, n, _ := x.mapParts(st, a, under(c.Args[0].Type()).(*types.Map))
			st.assume(le(num(0), n))
			k(st, []Val{n})
			return
		case *ArrayVal:
			k(st, []Val{slen(a.seq)})
			return
		}
	case "cap":
		if a, ok := args[0].(*SliceVal); ok {
			n := fresh("cap", sInt)
			st.assume(le(st.lenOf(a), n))
			st.assume(le(n, bignum(maxLen)))
			k(st, []Val{n})
			return
		}
	case "append":
		k(st, []Val{x.appendSlice(st, args[0].(*SliceVal), args[1], p)})
		return
	case "copy":
		n := x.copySlice(st, args[0].(*SliceVal), args[1], p)
		k(st, []Val{n})
		return
	case "delete":
		x.mapDelete(st, args[0], args[1], c.Args[0].Type(), *c, p)
		k(st, nil)
		return
	case "close":
		x.closeChan(st, args[0], c.Args[0].Type(), p, func(st *State) { k(st, nil) })
		return
	case "ssa:wrapnilchk":
		x.nilCheck(st, args[0], "nil receiver", p)
		k(st, []Val{args[0]})
		return
	case "print", "println":
		k(st, nil)
		return
	}
	x.unmodelled(st, "builtin "+name, p)
}

func (x *Exec) seqArg(st *State, v Val) *Term {
	switch a := v.(type) {
	case *Term:
		return a
	case *SliceVal:
		return st.seqOf(a)
	case *ArrayVal:
		return a.seq
	}
	panic(unsupported{"sequence " + errVal(v)})
}

func (x *Exec) appendSlice(st *State, s *SliceVal, t Val, p token.Pos) Val {
	ts := x.seqArg(st, t)
	if ts.op == "empty" {
		return s
	}
	base := st.seqOf(s)
	if !(s.tok > 0 && st.toks[s.tok]) {
		if s.nil_ != tTrue {
			x.oblige(st, "frame", "append to a slice that may share its capacity", p, s.nil_)
		}
	} else {
		delete(st.toks, s.tok)
	}
	if ts.sort != base.sort {
		panic(unsupported{"append of a different element type"})
	}
	seq := cat(base, ts)
	nl := and(s.nil_, eq(slen(ts), num(0)))
	if s.obj != 0 {
		st.mut(s.obj).frozen = true
		o := st.newObj(types.NewSlice(s.elem), seq, "append")
		o.backing = true
		o.elem = s.elem
		o.prev = s.obj
		return &SliceVal{obj: o.id, off: num(0), n: slen(seq), nil_: nl, elem: s.elem, tok: st.newTok()}
	}
	if slen(base).isNum() && slen(base).val.Sign() == 0 {
		o := st.newObj(types.NewSlice(s.elem), seq, "append")
		o.backing = true
		o.elem = s.elem
		return &SliceVal{obj: o.id, off: num(0), n: slen(seq), nil_: nl, elem: s.elem, tok: st.newTok()}
	}
	return &SliceVal{seq: seq, nil_: nl, elem: s.elem, off: num(0), tok: st.newTok()}
}

func minTerm(st *State, a, b *Term) *Term {
	if a == b {
		return a
	}
	c := le(a, b)
	if v, ok := st.known(c); ok {
		if v {
			return a
		}
		return b
	}
	return ite(c, a, b)
}

func (x *Exec) copySlice(st *State, dst *SliceVal, src Val, p token.Pos) *Term {
	s := x.seqArg(st, src)
	n := minTerm(st, st.lenOf(dst), slen(s))
	x.writeWindow(st, dst, num(0), take(s, n), p)
	return n
}

// writeWindow replaces dst[off:off+len(seq)].
func (x *Exec) writeWindow(st *State, dst *SliceVal, off, seq *Term, p token.Pos) {
	splice := func(c, at *Term) *Term {
		return cat(take(c, at), seq, drop(c, add(at, slen(seq))))
	}
	switch {
	case dst.obj != 0:
		o := st.obj(dst.obj)
		if o.frozen {
			x.fail(st, "frame", "write to a slice that is shared with others ("+o.name+")", p)
			return
		}
		x.staleCheck(st, dst.obj)
		m := st.mut(dst.obj)
		m.v = splice(o.v.(*Term), add(dst.off, off))
	case dst.tok < 0:
		pv := interior[dst.tok]
		o := st.obj(pv.obj)
		if o.frozen {
			x.fail(st, "frame", "write to an array that is shared with others", p)
			return
		}
		cur, _ := x.navigate(st, o.v, o.t, pv.path)
		a := cur.(*ArrayVal)
		nv := &ArrayVal{t: a.t, seq: splice(a.seq, add(dst.off, off))}
		m := st.mut(pv.obj)
		m.v = x.update(st, m.v, m.t, pv.path, nv)
	default:
		if slen(seq).isNum() && slen(seq).val.Sign() == 0 {
			return
		}
		x.fail(st, "frame", "write to a slice that is shared with others", p)
	}
}

// staleCheck: a write to the result of append invalidates what is known about the slice it was appended to.
func (x *Exec) staleCheck(st *State, id int) {
	for o := st.obj(id); o.prev != 0; {
		m := st.mut(o.prev)
		m.stale = true
		o = m
	}
}

func sortedNames(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// localField: n.f with a local object n.
func localField(vars map[string]SV, l string) *PtrVal {
	n, _, ok := strings.Cut(l, ".")
	if !ok || strings.Contains(l, "[") {
		return nil
	}
	v, ok := vars[n]
	if !ok {
		return nil
	}
	pv, _ := v.v.(*PtrVal)
	return pv
}
