package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Verification of code with goroutines.
//
// A function is verified for one goroutine; the other ones are represented by what they may do:
//   - guarded fields are only touched with their lock held; taking the lock yields arbitrary values that satisfy the
//     lock invariant, releasing it obliges to the lock invariant and to the two-state relation of the lock;
//   - monotone ghosts (an event has been fired, a channel has been closed, ...) become true at one point of time:
//     g(r) holds now iff tm_g(r) <= now, and every step of another goroutine moves now forward;
//   - tokens say which goroutine may send to, close, or receive from a channel and read from or write to a connection;
//     a goroutine takes the tokens that it uses away from the one that started it.
// All other fields of shared objects are immutable once the object is shared.

var concSpec = map[string]func(e *Env, args []ast.Expr) SV{}

var ghostSeqElem = types.Type(types.NewPointer(types.NewNamed(types.NewTypeName(0, nil, "ghostelem", nil), types.NewStruct(nil, nil), nil)))

type fieldID struct {
	t types.Type
	i int
}

var fldOwner = map[string]fieldID{}

// Thread is a goroutine that is being verified at the place where it is started.
type Thread struct {
	used    map[string]int // token -> 1 shared, 2 exclusive
	ends    []map[string]bool
	calls   map[string]bool
	group   bool // started by an errgroup
	accepts bool // waits for connections
	depth   int

	start *State // when it was started
	dry   int
	wrote map[int]bool // variables that it was lent and writes
	dones []doneRec
	fs    bool // event loop of a file watcher
	ended int
	facts map[happening]bool // what has happened whenever it has ended
}

type happening struct {
	ghost string
	ref   *Term
}

// happenings lists what has happened for certain.
func (s *State) happenings() map[happening]bool {
	out := map[happening]bool{}
	for f := range s.facts {
		if f.op == "<=" && strings.HasPrefix(f.args[0].op, "tm_") && len(f.args[0].args) == 1 && len(f.args[1].args) == 0 && strings.HasPrefix(f.args[1].op, "now") {
			out[happening{f.args[0].op[3:], f.args[0].args[0]}] = true
		}
	}
	return out
}

// groupOf is the group of goroutines in a local variable.
func (x *Exec) groupOf(st *State, v Val) *Term {
	if pv, is := v.(*PtrVal); is && len(pv.path) == 0 && typeName(st.obj(pv.obj).t) == "errgroup.Group" {
		return fn("localgroup", sInt, num(int64(pv.obj)))
	}
	return nil
}

// wgTok names the token of a goroutine that is registered by one of this depth.
func wgTok(depth int) string { return fmt.Sprintf("wgtask%d", depth) }

// tracked: a wait group waits for the goroutine.
func (t *Thread) tracked() bool {
	for k := range t.used {
		if strings.HasPrefix(k, wgTok(t.depth)+":") {
			return true
		}
	}
	return false
}

type mapGuard struct {
	lock string // key of the lock
	cls  string
	fld  string
	ref  *Term
}

// ChanDecl describes the channel in a field.
type ChanDecl struct {
	name    string
	owner   string
	val     string
	flags   map[string]string
	clauses []*Clause
}

func init() {
	for n, d := range map[string]ghostDecl{
		"sent":       {"g:sent", sSq},
		"recvd":      {"g:recvd", sSq},
		"pend":       {"g:pend", sBool},
		"rmsgs":      {"g:rmsgs", sSq},
		"wmsgs":      {"g:wmsgs", sSq},
		"wins":       {"g:wins", sInt},
		"ndials":     {"g:ndials", sInt},
		"lastdial":   {"g:lastdial", sBy},
		"lastconn":   {"g:lastconn", sInt},
		"nlistens":   {"g:nlistens", sInt},
		"lastlisten": {"g:lastlisten", sBy},
		"lastln":     {"g:lastln", sInt},
		"waitres":    {"g:waitres", sInt},
		"lastcancel": {"g:lastcancel", sInt},
		"closes":     {"g:closes", sInt},
		"lastsub":    {"g:lastsub", sInt},
		"nsubs":      {"g:nsubs", sInt},
		"lastchecks": {"g:lastchecks", sSq},
		"suberr":     {"g:suberr", sInt},
		"ssldue":     {"g:ssldue", sBy},
		"laststart":  {"g:laststart", sInt},
		"rfail":      {"g:rfail", sBool},
		"parsedfrom": {"g:parsedfrom", sBy},
		"sessof":     {"g:sessof", sInt},
		"lastget":    {"g:lastget", sInt},
		"begun":      {"m:begun", sBool},
		"done":       {"m:done", sBool},
		"isfired":    {"m:isfired", sBool},
		"chclosed":   {"m:chclosed", sBool},
		"drained":    {"m:drained", sBool},
		"shut":       {"m:shut", sBool},
		"swept":      {"m:swept", sBool},
		"waited":     {"m:waited", sBool},
		"installed":  {"m:installed", sBool},
		"exhausted":  {"m:exhausted", sBool},
		"hascfg":     {"m:hascfg", sBool},
		"served":     {"m:served", sBool},
		"released":   {"m:released", sBool},
	} {
		ghostArrays[n] = d
	}
	concSpec["locked"] = func(e *Env, args []ast.Expr) SV {
		// the value at the time when the lock that is held was taken
		if len(e.st.locks) != 1 {
			panic(specError{"locked() with other than one lock held"})
		}
		for _, l := range e.st.locks {
			if l.at != nil {
				n := &Env{st: l.at, vars: e.vars, pkg: e.pkg, w: e.w}
				return n.eval(args[0])
			}
		}
		panic(specError{"locked()"})
	}
	concSpec["apply"] = specApply
	concSpec["tempErr"] = func(e *Env, args []ast.Expr) SV {
		return SV{fn("tempErr", sBool, e.term(e.eval(args[0]))), types.Typ[types.Bool]}
	}
	concSpec["joinhp"] = func(e *Env, args []ast.Expr) SV {
		return SV{joinHP(e.term(e.eval(args[0])), e.term(e.eval(args[1]))), types.Typ[types.String]}
	}
	concSpec["final"] = func(e *Env, args []ast.Expr) SV {
		se, ok := args[0].(*ast.SelectorExpr)
		if !ok {
			panic(specError{"final(x.f)"})
		}
		v := e.eval(se.X)
		t := deref(v.t)
		stt := under(t).(*types.Struct)
		for i := 0; i < stt.NumFields(); i++ {
			if stt.Field(i).Name() == se.Sel.Name {
				ft := stt.Field(i).Type()
				return SV{e.st.fromTerm(fieldFn(t, i, e.term(v)), ft), ft}
			}
		}
		panic(specError{"final: no field " + se.Sel.Name})
	}
	concSpec["last"] = func(e *Env, args []ast.Expr) SV {
		v := e.eval(args[0])
		s := v.v.(*SliceVal)
		q := e.st.seqOf(s)
		return SV{nth(q, sub(slen(q), num(1))), s.elem}
	}
}

// what the one goroutine that may do it has sent, received, ...; nothing for a new object
var privateSeqs = map[string]bool{"sent": true, "recvd": true, "rmsgs": true, "wmsgs": true, "ssldue": true, "written": true}

func joinHP(h, p *Term) *Term { return fn("joinHostPort", sBy, h, p) }

// ---- time

func (s *State) now() *Term {
	if v, ok := s.ghost["now"].(*Term); ok {
		return v
	}
	t := cnst("now0", sInt)
	s.ghost["now"] = t
	return t
}

// tick lets the other goroutines run.
func (s *State) tick() {
	old := s.now()
	n := fresh("now", sInt)
	s.assume(le(old, n))
	s.ghost["now"] = n
	if s.x != nil {
		for _, k := range sortedNames(s.perms) {
			// what only this goroutine could do
			if strings.HasPrefix(k, "closer:") {
				s.assume(lt(n, fn("tm_chclosed", sInt, s.x.permTerm[k])))
			} else if strings.HasPrefix(k, "once:") {
				s.assume(lt(n, fn("tm_done", sInt, s.x.permTerm[k])))
			}
		}
	}
	for _, k := range sortedLocks(s) {
		l := s.locks[k]
		if mc := contracts.mutable[l.class]; mc != nil && !l.rd {
			for _, c := range mc.lockSet[l.field] {
				if c.target != nil {
					continue
				}
				tm := fn("tm_"+c.label, sInt, l.ref)
				s.assume(eq(le(tm, n), le(tm, old)))
			}
		}
	}
}

func (s *State) happened(n string, r *Term) *Term { return le(fn("tm_"+n, sInt, r), s.now()) }

func (x *Exec) setGhost(st *State, n string, r *Term) { st.ghostStore(n, r, tTrue) }

// freshRef: nothing has happened yet to a new object.
func (x *Exec) freshRef(st *State, ref *Term) {
	var ns []string
	for n, g := range ghostArrays {
		if strings.HasPrefix(g.key, "m:") || x.conc && privateSeqs[n] {
			ns = append(ns, n)
		}
	}
	sort.Strings(ns)
	if x.conc {
		// there are no tokens of an object that does not exist
		for _, k := range sortedNames(st.perms) {
			if t := x.permTerm[k]; t != nil && t != ref {
				st.assume(not(eq(t, ref)))
			}
		}
	}
	for _, n := range ns {
		if privateSeqs[n] {
			st.assume(eq(slen(st.ghostSel(n, ref)), num(0)))
			continue
		}
		st.assume(lt(st.now(), fn("tm_"+n, sInt, ref)))
	}
	if x.conc {
		// nothing has failed on a new connection
		st.assume(not(st.ghostSel("rfail", ref)))
		st.assume(not(st.ghostSel("wfailed", ref)))
	}
}

func sortedLocks(s *State) []string {
	var out []string
	for k := range s.locks {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// ---- unit hooks

func (x *Exec) setup(st *State) {
	x.taken = map[string]bool{}
	x.permTerm = map[string]*Term{}
	x.guardedMap = map[*Term]*mapGuard{}
	pk := x.w.conPkg(x.con)
	if pk != nil && (pk.Name() == "server" || pk.Name() == "cli" || pk.Name() == "main") {
		x.conc = true
	}
	st.now()
	if !x.conc {
		return
	}
	for _, g := range ghostArrays {
		if strings.HasPrefix(g.key, "g:") {
			st.heapArr(g.key, g.elem)
		}
	}
	st.heap["g:pend"] = constArr(tFalse)
	st.heap["g:wins"] = constArr(num(0))
}

func (x *Exec) entryTokens(st *State) {
	if !x.conc {
		return
	}
	env := &Env{st: st, vars: x.params, pkg: x.w.conPkg(x.con), w: x.w}
	for _, c := range x.con.behaviors[0].clauses {
		if c.kind == "holds" || c.kind == "takes" {
			for _, t := range x.tokens(env, c) {
				x.grant(st, t.name, t.ref)
				if c.kind == "takes" && t.name != "conn" && t.name != "open" || c.kind == "holds" {
					x.taken[tokKey(t.name, t.ref)] = true
				}
			}
		}
	}
}

func (x *Exec) entry(st *State) {
	if !x.conc {
		return
	}
	for _, v := range x.params {
		x.typeFacts(st, v)
	}
}

// typeFacts: the general invariants of the class of an object.
func (x *Exec) typeFacts(st *State, v SV) {
	if v.t == nil {
		return
	}
	r, ok := v.v.(*Term)
	if !ok {
		return
	}
	if mc := contracts.mutable[typeName(deref(v.t))]; mc != nil {
		x.always(st, mc, deref(v.t), r, "", 0)
	}
}

// always assumes (kind == "") or checks the general invariants of a class.
func (x *Exec) always(st *State, mc *MutClass, t types.Type, ref *Term, kind string, p token.Pos) {
	if kind == "" {
		x.ownerFacts(st, SV{ref, types.NewPointer(t)})
	}
	for _, c := range mc.always {
		e := &Env{st: st, w: x.w, pkg: x.w.conPkg(&Contract{name: mc.name + ".x"}), vars: map[string]SV{c.roles[0].name: {ref, types.NewPointer(t)}}}
		g, err := x.clause(e, c)
		if err != nil {
			panic(specError{err.Error()})
		}
		if kind == "" {
			st.assume(implies(not(eq(ref, num(0))), g))
			// it holds from the time on at which its condition becomes true
			if ce, ok := c.expr.(*ast.CallExpr); ok && len(ce.Args) == 2 {
				if id, ok := ce.Fun.(*ast.Ident); ok && id.Name == "implies" {
					if ae, ok := ce.Args[0].(*ast.CallExpr); ok && len(ae.Args) == 1 {
						if gid, ok := ae.Fun.(*ast.Ident); ok && strings.HasPrefix(ghostArrays[gid.Name].key, "m:") {
							tm := fn("tm_"+gid.Name, sInt, e.refOf(e.eval(ae.Args[0])))
							now := st.now()
							st.ghost["now"] = tm
							t := e.bool(ce.Args[1])
							st.ghost["now"] = now
							st.assume(implies(not(eq(ref, num(0))), t))
						}
					}
				}
			}
		} else {
			x.oblige(st, kind, mc.name+"/"+c.label, p, g)
		}
	}
}

func (x *Exec) exit(st *State, vars map[string]SV, p token.Pos) {
	if !x.conc {
		return
	}
	if len(st.locks) > 0 {
		x.emit(st, "locks", "no lock is held at the return ("+lockKey(st)+")", p, tFalse)
	}
	main := x.con.behaviors[0]
	env := &Env{st: st, vars: vars, pkg: x.w.conPkg(x.con), w: x.w, old: x.oldEnv(st).old}
	given := map[string]bool{}
	for k := range x.taken {
		given[k] = true
	}
	for _, c := range main.clauses {
		if c.kind == "gives" && !x.hasTokCond(st, env, c) {
			for _, t := range x.tokens(env, c) {
				if k, ok := x.findTok(st, t.name, t.ref); ok {
					given[k] = true
				}
			}
		}
	}
	// tokens that are given under a condition
	x.settleToks(st)
	var dealt []condTok
	for _, c := range main.clauses {
		if c.kind != "gives" || c.expr == nil {
			continue
		}
		cond, err := x.clause(env, c)
		if err != nil {
			x.emit(st, "token", c.src+": "+err.Error(), p, tFalse)
			continue
		}
		if _, ok := st.known(cond); ok {
			continue
		}
		for _, t := range x.tokens(env, c) {
			must := contracts.linear[t.name] || t.name == "conn"
			if x.hasTok(st, t.name, t.ref) {
				k, _ := x.findTok(st, t.name, t.ref)
				if must {
					x.emit(st, "token", t.name+" is left unused at the return", p, cond)
				}
				given[k] = true
				continue
			}
			have := tFalse
			for _, ct := range st.condToks {
				for _, o := range ct.toks {
					if o.name == t.name && o.ref == t.ref {
						have = or(have, ct.cond)
						dealt = append(dealt, condTok{ct.cond, []tok{o}})
					}
				}
			}
			x.emit(st, "token", "gives "+t.name, p, implies(cond, have))
			if must {
				x.emit(st, "token", t.name+" is left unused at the return", p, implies(have, cond))
			}
		}
	}
	for i, ct := range st.condToks {
		var rest []tok
		for _, o := range ct.toks {
			used := false
			for _, d := range dealt {
				used = used || d.cond == ct.cond && d.toks[0] == o
			}
			if !used {
				rest = append(rest, o)
			}
		}
		if len(rest) != len(ct.toks) {
			st.condToks = append([]condTok{}, st.condToks...)
			st.condToks[i].toks = rest
		}
	}
	x.retVars = env.vars
	x.leaks(st, given, p, "at the return")
	x.retVars = nil
	// the channels of the goroutine are all served, or none of them is used
	var unused []string
	some := false
	for _, c := range main.clauses {
		if c.kind != "takes" {
			continue
		}
		for _, t := range x.tokens(x.oldEnv(st), c) {
			d, _, _ := x.chanDecl(t.ref)
			if must := t.name == "closer" || t.name == "receiver" && d != nil && d.flags["mustclose"] != ""; must || t.name == "conn" {
				if x.hasTok(st, t.name, t.ref) {
					if must && d != nil {
						unused = append(unused, t.name+" "+d.name)
						continue
					}
					x.emit(st, "token", t.name+" is used up by the end of the goroutine", p, tFalse)
				} else if must && d != nil {
					some = true
				}
			}
		}
	}
	for _, u := range unused {
		if some {
			x.emit(st, "token", u+" is used up by the end of the goroutine", p, tFalse)
		}
	}
	for _, c := range main.clauses {
		switch c.kind {
		case "gives", "holds":
			if c.expr2 != nil {
				continue
			}
			if c.kind == "gives" && c.expr != nil {
				if t, err := x.clause(env, c); err == nil {
					if v, ok := st.known(t); !ok || !v {
						continue
					}
				}
			}
			for _, t := range x.tokens(env, c) {
				if !x.hasTok(st, t.name, t.ref) && !x.hasTokCond(st, env, c) {
					x.emit(st, "token", c.kind+" "+t.name, p, tFalse)
				}
			}
		}
	}
	st.tick()
}

func (x *Exec) hasTokCond(st *State, env *Env, c *Clause) bool {
	if c.expr == nil {
		return false
	}
	t, err := x.clause(env, c)
	if err != nil {
		return false
	}
	v, ok := st.known(t)
	return ok && !v
}

func (x *Exec) freeVar(st *State, con *Contract, v *ssa.FreeVar) Val {
	return x.symbolic(st, v.Name(), v.Type())
}

// ---- tokens

type tok struct {
	name string
	ref  *Term
}

// tokens evaluates a token list: name(expr), name(expr) [if cond]
func (x *Exec) tokens(env *Env, c *Clause) []tok {
	var out []tok
	for _, e := range c.list {
		ce, ok := e.(*ast.CallExpr)
		if !ok || len(ce.Args) != 1 {
			panic(specError{"token expected: " + c.src})
		}
		out = append(out, tok{ce.Fun.(*ast.Ident).Name, env.refOf(env.eval(ce.Args[0]))})
	}
	return out
}

func tokKey(name string, ref *Term) string { return fmt.Sprintf("%s:%d", name, ref.id) }

func (x *Exec) grant(st *State, name string, ref *Term) {
	k := tokKey(name, ref)
	x.permTerm[k] = ref
	st.perms[k] = true
}

func (x *Exec) fieldRef(ref *Term, cls, f string) *Term {
	t := x.classType(cls)
	stt := under(t).(*types.Struct)
	for i := 0; i < stt.NumFields(); i++ {
		if stt.Field(i).Name() == f {
			return fieldFn(t, i, ref)
		}
	}
	panic(specError{"no field " + f + " in " + cls})
}

func (x *Exec) findTok(st *State, name string, ref *Term) (string, bool) {
	x.settleToks(st)
	k := tokKey(name, ref)
	if st.perms[k] {
		return k, true
	}
	var ks []string
	for p := range st.perms {
		ks = append(ks, p)
	}
	sort.Strings(ks)
	for _, p := range ks {
		if strings.HasPrefix(p, name+":") {
			if v, ok := st.known(eq(x.permTerm[p], ref)); ok && v {
				return p, true
			}
		}
	}
	var cg *congruence
	for _, p := range ks {
		if strings.HasPrefix(p, name+":") {
			if cg == nil {
				cg = newCongruence(st)
			}
			if cg.nf(x.permTerm[p]) == cg.nf(ref) {
				return p, true
			}
		}
	}
	return "", false
}

// congruence decides equality of references from the equations that are known.
type congruence struct {
	rep  map[*Term]*Term
	memo map[*Term]*Term
}

func newCongruence(st *State) *congruence {
	c := &congruence{rep: map[*Term]*Term{}}
	var eqs []*Term
	for t, v := range st.facts {
		if v && t.op == "=" && t.args[0].sort == sInt {
			eqs = append(eqs, t)
		}
	}
	sort.Slice(eqs, func(i, j int) bool { return eqs[i].id < eqs[j].id })
	for i := 0; i < 4; i++ {
		changed := false
		for _, e := range eqs {
			c.memo = map[*Term]*Term{}
			a, b := c.nf(e.args[0]), c.nf(e.args[1])
			if a != b {
				if size(b) > size(a) || size(a) == size(b) && b.id > a.id {
					a, b = b, a
				}
				c.rep[a] = b
				changed = true
			}
		}
		if !changed {
			break
		}
	}
	c.memo = map[*Term]*Term{}
	return c
}

func size(t *Term) int {
	n := 1
	for _, a := range t.args {
		n += size(a)
	}
	return n
}

func (c *congruence) nf(t *Term) *Term {
	if r, ok := c.memo[t]; ok {
		return r
	}
	r := t
	if len(t.args) > 0 && fldOwner[t.op] != (fieldID{}) {
		as := make([]*Term, len(t.args))
		for i, a := range t.args {
			as[i] = c.nf(a)
		}
		r = mk(t.sort, t.op, as...)
	}
	for i := 0; i < 50; i++ {
		n, ok := c.rep[r]
		if !ok {
			break
		}
		r = n
	}
	c.memo[t] = r
	return r
}

func (x *Exec) hasTok(st *State, name string, ref *Term) bool {
	_, ok := x.findTok(st, name, ref)
	return ok
}

// useTok checks that the goroutine has a token; the goroutines that it runs in lose it to the innermost one.
func (x *Exec) useTok(st *State, name string, ref *Term, p token.Pos, what string) bool {
	k, ok := x.findTok(st, name, ref)
	if !ok {
		x.fail(st, "token", what+": the goroutine does not have "+name, p)
		return false
	}
	for _, t := range x.threads {
		t.used[k] = 2
	}
	return true
}

func (x *Exec) takeTok(st *State, name string, ref *Term, p token.Pos, what string) bool {
	if !x.useTok(st, name, ref, p, what) {
		return false
	}
	k, _ := x.findTok(st, name, ref)
	delete(st.perms, k)
	return true
}

// readTok: the token allows to read something that only its holder writes.
func (x *Exec) readTok(st *State, name string, ref *Term) bool {
	k, ok := x.findTok(st, name, ref)
	if !ok {
		k, ok = x.findTok(st, name+"_ro", ref)
	}
	if ok && !x.peek {
		for _, t := range x.threads {
			if t.used[k] == 0 {
				t.used[k] = 1
			}
		}
	}
	return ok
}

func (x *Exec) callTokens(st *State, con *Contract, env *Env, p token.Pos) {
	if !x.conc {
		return
	}
	if con.flags["acquires"] != "" || len(st.locks) > 0 {
		x.callLocks(st, con, p)
	}
	if con.flags["blocking"] != "" && len(st.locks) > 0 {
		x.fail(st, "locks", "no lock is held while waiting ("+con.name+")", p)
		return
	}
	for _, t := range x.threads {
		t.calls[con.name] = true
	}
	if con.flags["tracked"] != "" && len(x.threads) == 0 {
		x.fail(st, "thread", con.name+" runs in a goroutine of its own", p)
		return
	}
	if !con.trusted && st.perms["wgdone"] {
		x.fail(st, "thread", "work of the goroutine after it reported to be done ("+con.name+")", p)
		return
	}
	for _, c := range con.behaviors[0].clauses {
		if c.kind != "holds" && c.kind != "takes" && c.kind != "consumes" {
			continue
		}
		for _, t := range x.tokens(env, c) {
			if strings.HasSuffix(t.name, "_ro") {
				if !x.readTok(st, strings.TrimSuffix(t.name, "_ro"), t.ref) {
					x.fail(st, "token", con.name+": the goroutine does not have "+t.name, p)
				}
				continue
			}
			if !x.useTok(st, t.name, t.ref, p, con.name) {
				return
			}
			if c.kind != "holds" {
				k, _ := x.findTok(st, t.name, t.ref)
				delete(st.perms, k)
			}
		}
	}
}

// writerHavoc: a function that has the token of the only goroutine that writes a field may have written it.
func (x *Exec) writerHavoc(st *State, con *Contract, env *Env) {
	if !x.conc {
		return
	}
	for _, c := range con.behaviors[0].clauses {
		if c.kind != "holds" && c.kind != "takes" && c.kind != "consumes" {
			continue
		}
		for _, t := range x.tokens(env, c) {
			for _, n := range sortedClasses() {
				mc := contracts.mutable[n]
				for _, f := range sortedMap(mc.writer) {
					if mc.writer[f] != t.name {
						continue
					}
					ct := x.classType(n)
					stt := under(ct).(*types.Struct)
					for i := 0; i < stt.NumFields(); i++ {
						if stt.Field(i).Name() == f {
							nv := fresh("written_"+f, fieldSort(stt.Field(i).Type()))
							st.heapStore(ct, i, t.ref, nv)
							_ = st.fromTerm(nv, stt.Field(i).Type())
						}
					}
				}
			}
		}
	}
}

func sortedClasses() []string {
	var out []string
	for n := range contracts.mutable {
		out = append(out, n)
	}
	sort.Strings(out)
	return out
}

func sortedMap(m map[string]string) []string {
	var out []string
	for n := range m {
		out = append(out, n)
	}
	sort.Strings(out)
	return out
}

// callGives grants the tokens that a function gives, those without a condition before its postconditions are used.
func (x *Exec) callGives(st *State, con *Contract, env *Env, p token.Pos, first bool) {
	if !x.conc {
		return
	}
	main := con.behaviors[0]
	for _, c := range main.clauses {
		if first != (c.kind == "gives" && c.expr == nil) {
			continue
		}
		switch c.kind {
		case "gives":
			cond := tTrue
			if c.expr != nil {
				t, err := x.clause(env, c)
				if err != nil {
					continue
				}
				cond = t
			}
			if v, ok := st.known(cond); ok && !v {
				continue
			} else if !ok {
				// decided by the branch of the caller
				st.condToks = append(st.condToks[:len(st.condToks):len(st.condToks)], condTok{cond, x.tokens(env, c)})
				continue
			}
			for _, t := range x.tokens(env, c) {
				x.grant(st, t.name, t.ref)
			}
		case "effect":
			x.effect(st, c, env, p)
		}
	}
}

type condTok struct {
	cond *Term
	toks []tok
}

// settleToks grants the tokens whose condition has been decided.
func (x *Exec) settleToks(st *State) {
	if len(st.condToks) == 0 {
		return
	}
	var rest []condTok
	for _, c := range st.condToks {
		v, ok := st.known(c.cond)
		if !ok {
			rest = append(rest, c)
			continue
		}
		if v {
			for _, t := range c.toks {
				x.grant(st, t.name, t.ref)
			}
		}
	}
	st.condToks = rest
}

// effect GHOST[REF] := EXPR [if COND]
func (x *Exec) effect(st *State, c *Clause, env *Env, p token.Pos) {
	lhs, rhs, ok := strings.Cut(c.src, ":=")
	if !ok {
		panic(specError{"effect: " + c.src})
	}
	rhs, cnd, hasCond := strings.Cut(rhs, " if ")
	lhs = strings.TrimSpace(lhs)
	i := strings.Index(lhs, "[")
	ev := func(s string) SV {
		e, err := parseExpr(strings.TrimSpace(s))
		if err != nil {
			panic(specError{"effect: " + c.src})
		}
		return env.eval(e)
	}
	n := lhs[:i]
	ref := env.refOf(ev(lhs[i+1 : len(lhs)-1]))
	v := env.ghostVal(n, ev(rhs))
	cond := tTrue
	if hasCond {
		cond = env.term(ev(cnd))
	}
	if strings.HasPrefix(ghostArrays[n].key, "m:") {
		st.tick()
		st.assume(implies(and(cond, v), st.happened(n, ref)))
		return
	}
	st.ghostStore(n, ref, ite(cond, v, st.ghostSel(n, ref)))
}

func (e *Env) ghostVal(n string, v SV) *Term {
	if s, ok := v.v.(*SliceVal); ok && (ghostArrays[n].elem == sSq || ghostArrays[n].elem == sBy) {
		return e.st.seqOf(s)
	}
	return e.refOf(v)
}

// leaks: what must not be forgotten at the end of an iteration or of the function.
func (x *Exec) leaks(st *State, from map[string]bool, p token.Pos, what string) {
	x.settleToks(st)
	for _, c := range st.condToks {
		for _, t := range c.toks {
			if contracts.linear[t.name] || t.name == "conn" {
				x.emit(st, "token", t.name+" may be left unused "+what, p, not(c.cond))
			}
		}
	}
	for _, k := range sortedNames(st.perms) {
		if from[k] {
			continue
		}
		name, _, _ := strings.Cut(k, ":")
		if contracts.linear[name] {
			if g := x.dropGoal(st, name, x.permTerm[k]); g != nil {
				x.emit(st, "token", name+" is left unused "+what, p, g)
				continue
			}
			if name == "open" {
				x.emit(st, "token", "a session is neither served nor closed "+what, p, st.happened("begun", x.fieldRef(x.permTerm[k], "server.Session", "closed")))
				continue
			}
			g := tFalse
			if a := st.absent[k]; a != nil {
				g = a
			}
			x.emit(st, "token", name+" is left unused "+what, p, g)
			continue
		}
		if strings.HasPrefix(k, "wgtask") {
			x.emit(st, "token", "a goroutine is waited for that does not exist "+what, p, tFalse)
		}
		if strings.HasPrefix(k, "conn:") {
			c := x.permTerm[k]
			x.emit(st, "token", "a connection or listener is neither served nor closed "+what, p, st.happened("shut", c))
		}
	}
}

// noteAbsent: a key that is not in the tracked map when the lock is released has been removed.
func (x *Exec) noteAbsent(st *State, l *Lock, mc *MutClass) {
	for _, f := range sortedNamesOf(mc.tracks) {
		if mc.guarded[f] != l.field {
			continue
		}
		ct := x.classType(l.class)
		var mt *types.Map
		stt := under(ct).(*types.Struct)
		for i := 0; i < stt.NumFields(); i++ {
			if stt.Field(i).Name() == f {
				mt, _ = under(stt.Field(i).Type()).(*types.Map)
			}
		}
		if mt == nil {
			continue
		}
		e, _ := parser.ParseExpr("has(l_." + f + ", k_)")
		for _, k := range sortedNames(st.perms) {
			if name, _, _ := strings.Cut(k, ":"); name != mc.tracks[f] {
				continue
			}
			env := &Env{st: st, w: x.w, pkg: x.w.conPkg(&Contract{name: l.class + ".x"}), vars: map[string]SV{"l_": {l.ref, types.NewPointer(ct)}, "k_": {x.permTerm[k], mt.Key()}}}
			m := map[string]*Term{k: not(env.term(env.eval(e)))}
			for o, t := range st.absent {
				if o != k {
					m[o] = t
				}
			}
			st.absent = m
		}
	}
}

func sortedNamesOf(m map[string]string) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// dropGoal is the condition under which the token need not be used.
func (x *Exec) dropGoal(st *State, name string, ref *Term) *Term {
	for _, c := range x.con.behaviors[0].clauses {
		if c.kind != "drops" || c.at != name {
			continue
		}
		vars := map[string]SV{c.roles[0].name: {ref, types.Typ[types.Int]}}
		for n, v := range x.params {
			if n != c.roles[0].name {
				vars[n] = v
			}
		}
		// at the return the results may be mentioned
		for n, v := range x.retVars {
			if _, ok := vars[n]; !ok {
				vars[n] = v
			}
		}
		pk := x.w.conPkg(x.con)
		g, err := x.clause(&Env{st: st, vars: vars, pkg: pk, w: x.w, old: &Env{st: x.old, vars: x.params, pkg: pk, w: x.w}}, c)
		if err != nil {
			panic(specError{err.Error()})
		}
		return g
	}
	return nil
}

// ---- locks

func (x *Exec) lockOf(st *State, v Val) (*Term, string, string, bool) {
	switch h := v.(type) {
	case *HeapPtr:
		stt := under(h.strct).(*types.Struct)
		return h.ref, typeName(h.strct), stt.Field(h.field).Name(), len(h.sub) == 0
	case *PtrVal:
		o := st.obj(h.obj)
		if len(h.path) == 1 && h.path[0].index == nil {
			if stt, ok := under(o.t).(*types.Struct); ok {
				ref := st.toTerm(&PtrVal{obj: h.obj}, types.NewPointer(o.t))
				return ref, typeName(o.t), stt.Field(h.path[0].field).Name(), true
			}
		}
	}
	return nil, "", "", false
}

func (x *Exec) classType(cls string) types.Type { return x.w.namedType(cls) }

func (x *Exec) lockEnv(st *State, l *Lock, c *Clause) *Env {
	e := &Env{st: st, w: x.w, pkg: x.w.conPkg(&Contract{name: l.class + ".x"}), vars: map[string]SV{c.roles[0].name: {l.ref, types.NewPointer(x.classType(l.class))}}}
	if l.at != nil {
		e.old = &Env{st: l.at, w: e.w, pkg: e.pkg, vars: e.vars}
	}
	return e
}

// keyed adds the further roles of a lock clause: the ghost of this name of the behaviour, or an arbitrary value.
// ok tells that the clause has to be proved in this behaviour.
func (x *Exec) keyed(st *State, e *Env, c *Clause) (ok bool) {
	ok = true
	for _, r := range c.roles[1:] {
		t := x.w.resolveType(r.typ, e.pkg)
		if t == nil {
			panic(specError{"unknown type " + r.src})
		}
		v, has := x.params["$"+r.name]
		if !has || !types.Identical(v.t, t) {
			if x.skolem == nil {
				x.skolem = map[string]SV{}
			}
			if v, has = x.skolem[r.name]; !has {
				v = SV{x.symbolic(st, "any_"+r.name, t), t}
				x.skolem[r.name] = v
			}
			for _, b := range x.con.behaviors {
				for _, g := range b.ghosts {
					if g.name == r.name {
						ok = false
					}
				}
			}
		}
		e.vars[r.name] = v
		if e.old != nil && &e.old.vars != &e.vars {
			e.old.vars = e.vars
		}
	}
	return ok
}

// lockClause evaluates a clause of a lock and obliges to it (kind "") or gives it back.
func (x *Exec) lockClause(st *State, l *Lock, c *Clause, oblige bool, what string, p token.Pos) {
	e := x.lockEnv(st, l, c)
	mine := x.keyed(st, e, c)
	g, err := x.clause(e, c)
	if err != nil {
		panic(specError{err.Error()})
	}
	if !oblige {
		st.assume(g)
		return
	}
	if !mine {
		return
	}
	if len(c.roles) > 1 && x.beh.name != "main" {
		if x.dry == 0 {
			x.emit(st, "lockinvk", l.class+"."+l.field+"/"+c.label+what, p, g)
		}
		return
	}
	x.oblige(st, "lockinv", l.class+"."+l.field+"/"+c.label+what, p, g)
}

func (x *Exec) rank(l string) int {
	for i, n := range contracts.lockOrder {
		if n == l {
			return i
		}
	}
	return -1
}

func (x *Exec) acquire(st *State, v Val, rd bool, p token.Pos) bool {
	ref, cls, fld, ok := x.lockOf(st, v)
	if !ok {
		x.unmodelled(st, "lock that is not a field", p)
		return false
	}
	key := fmt.Sprintf("%s.%s@%d", cls, fld, ref.id)
	for _, k := range sortedLocks(st) {
		o := st.locks[k]
		same := o.class == cls && o.field == fld
		if same {
			x.oblige(st, "locks", "the lock "+cls+"."+fld+" is not acquired twice", p, not(eq(o.ref, ref)))
			if st.killed {
				return false
			}
		}
		if a, b := x.rank(o.class+"."+o.field), x.rank(cls+"."+fld); a < 0 || b < 0 || a >= b {
			x.fail(st, "locks", "the lock "+cls+"."+fld+" is acquired in the declared order (after "+o.class+"."+o.field+")", p)
			return false
		}
	}
	st.tick()
	l := &Lock{key: key, ref: ref, class: cls, field: fld, rd: rd}
	mc := contracts.mutable[cls]
	if mc != nil {
		t := x.classType(cls)
		stt := under(t).(*types.Struct)
		for i := 0; i < stt.NumFields(); i++ {
			f := stt.Field(i)
			if mc.guarded[f.Name()] != fld {
				continue
			}
			if w := mc.writer[f.Name()]; w != "" && (x.hasTok(st, w, ref) || x.hasTok(st, w+"_ro", ref)) {
				continue
			}
			nv := fresh("shared_"+f.Name(), fieldSort(f.Type()))
			if mc.setOnce[f.Name()] {
				fv := fieldFn(t, i, ref)
				st.assume(lt(num(0), fv))
				st.assume(or(eq(nv, num(0)), eq(nv, fv)))
			}
			st.heapStore(t, i, ref, nv)
			if _, ok := under(f.Type()).(*types.Map); ok {
				x.guardedMap[nv] = &mapGuard{lock: key, cls: cls, fld: f.Name(), ref: ref}
			}
			_ = st.fromTerm(nv, f.Type())
		}
		for _, g := range mc.havoc[fld] {
			if rd {
				continue // nobody changes it with the lock held for reading
			}
			st.heapArr(ghostArrays[g].key, ghostArrays[g].elem)
			x.havocHeap(st, ghostArrays[g].key)
		}
		st.locks[key] = l
		for _, c := range mc.lockInv[fld] {
			x.lockClause(st, l, c, false, "", p)
		}
		x.always(st, mc, t, ref, "", p)
		if len(x.threads) == 0 {
			// what the object keeps is not what this goroutine owns
			for _, f := range sortedClauses(mc.keeps) {
				if mc.guarded[f] != fld {
					continue
				}
				c := mc.keeps[f]
				e := &Env{st: st, w: x.w, pkg: x.w.conPkg(&Contract{name: mc.name + ".x"}), vars: map[string]SV{c.roles[0].name: {ref, types.NewPointer(t)}}}
				kept := e.refOf(e.eval(c.expr))
				for _, k := range sortedNames(st.perms) {
					if strings.HasPrefix(k, "conn:") {
						st.assume(not(eq(kept, x.permTerm[k])))
					}
				}
			}
		}
	}
	st.locks[key] = l
	l.at = st.snapshot()
	return true
}

func (x *Exec) release(st *State, v Val, rd bool, p token.Pos) bool {
	ref, cls, fld, ok := x.lockOf(st, v)
	if !ok {
		x.unmodelled(st, "lock that is not a field", p)
		return false
	}
	var l *Lock
	for _, k := range sortedLocks(st) {
		o := st.locks[k]
		if o.class == cls && o.field == fld {
			if o.ref == ref {
				l = o
			} else if v, ok := st.known(eq(o.ref, ref)); ok && v {
				l = o
			}
		}
	}
	if l == nil || l.rd != rd {
		x.fail(st, "locks", "release of the lock "+cls+"."+fld+" that is not held", p)
		return false
	}
	mc := contracts.mutable[cls]
	if mc != nil && !rd {
		st.tick()
		n := fresh("now", sInt)
		var sets []*Term
		for _, c := range mc.lockSet[fld] {
			e := x.lockEnv(st, l, c)
			g, err := x.clause(e, c)
			if err != nil {
				panic(specError{err.Error()})
			}
			tgt := ref
			if c.target != nil {
				tgt = e.refOf(e.eval(c.target))
			}
			tm := fn("tm_"+c.label, sInt, tgt)
			sets = append(sets, eq(le(tm, n), or(le(tm, st.now()), g)))
		}
		if len(sets) > 0 {
			st.assume(le(st.now(), n))
			for _, s := range sets {
				st.assume(s)
			}
			st.ghost["now"] = n
		}
		if len(mc.lockSet[fld]) > 0 {
			x.always(st, mc, x.classType(cls), ref, "event", p)
		}
		for _, c := range mc.lockInv[fld] {
			x.lockClause(st, l, c, true, "", p)
		}
		for _, c := range mc.lockTrans[fld] {
			x.lockClause(st, l, c, true, "", p)
		}
		stated := false
		for _, b := range x.con.behaviors {
			for _, c := range b.clauses {
				if (c.kind == "unlock" || c.kind == "section" || c.kind == "ifsection") && c.at == cls+"."+fld {
					stated = true
				}
			}
		}
		for _, g := range mc.havoc[fld] {
			if k := ghostArrays[g].key; !stated && st.heap[k] != l.at.heap[k] {
				x.fail(st, "lockinv", cls+"."+fld+"/"+g+" does not change in a function that does not say so", p)
			}
		}
		if st.killed {
			return false
		}
		x.unlockClauses(st, l, p)
		for _, g := range mc.clears[fld] {
			// the update has been published
			e := &Env{st: st, w: x.w, pkg: x.w.conPkg(&Contract{name: cls + ".x"}), vars: map[string]SV{g.roles[0].name: {ref, types.NewPointer(x.classType(cls))}}}
			r := e.refOf(e.eval(g.expr))
			st.ghostStore("pend", r, tFalse)
		}
		x.noteAbsent(st, l, mc)
	}
	st.sections = append(st.sections[:len(st.sections):len(st.sections)], section{cls + "." + fld, l.at, st.snapshot()})
	delete(st.locks, l.key)
	st.tick()
	return true
}

// section is the time in which a lock was held; at is nil if it cannot be told anymore.
type section struct {
	lock    string
	at, end *State
}

// sectionClauses checks what is said about the last time in which a lock was held.
func (x *Exec) sectionClauses(st *State, vars map[string]SV, p token.Pos) {
	for _, c := range x.beh.clauses {
		if c.kind != "section" && c.kind != "ifsection" {
			continue
		}
		pk := x.w.conPkg(x.con)
		var last *section
		for i := range st.sections {
			if st.sections[i].lock == c.at {
				last = &st.sections[i]
			}
		}
		e := &Env{st: st, vars: vars, pkg: pk, w: x.w, old: &Env{st: x.old, vars: x.params, pkg: pk, w: x.w}}
		cl := c
		if last != nil && last.at != nil {
			// what happens once counts until the return
			end := last.end.snapshot()
			g := map[string]Val{}
			for k, v := range end.ghost {
				g[k] = v
			}
			end.ghost = g
			end.ghost["now"] = st.now()
			e = &Env{st: end, vars: vars, pkg: pk, w: x.w, old: &Env{st: last.at, vars: vars, pkg: pk, w: x.w}}
		} else if last == nil && c.kind == "ifsection" {
			continue
		} else {
			// the lock was not taken: the condition of the clause must not be fulfilled
			ce, ok := c.expr.(*ast.CallExpr)
			if id, isId := ast.Expr(nil), false; ok {
				id = ce.Fun
				_, isId = id.(*ast.Ident)
				ok = isId && id.(*ast.Ident).Name == "implies"
			}
			if !ok {
				x.emit(st, "ensures", c.label+" (the lock has not been taken)", p, tFalse).props = c.props
				continue
			}
			n := *c
			n.expr = &ast.UnaryExpr{Op: token.NOT, X: &ast.ParenExpr{X: ce.Args[0]}}
			cl = &n
		}
		t, err := x.clause(e, cl)
		if err != nil {
			o := x.emit(st, "ensures", c.label, p, tFalse)
			o.Detail = err.Error()
			o.props = c.props
			continue
		}
		x.emit(st, "ensures", c.label, p, t).props = c.props
	}
}

// unlockClauses checks the two-state clauses of the behaviour that is verified.
func (x *Exec) unlockClauses(st *State, l *Lock, p token.Pos) {
	if len(x.threads) > 0 && x.beh.flags["threads"] == "" {
		return
	}
	bs := []*Behavior{x.beh}
	for _, b := range bs {
		for _, c := range b.clauses {
			if c.kind != "unlock" || c.at != l.class+"."+l.field {
				continue
			}
			env := &Env{st: st, vars: x.params, pkg: x.w.conPkg(x.con), w: x.w, old: &Env{st: l.at, vars: x.params, pkg: x.w.conPkg(x.con), w: x.w}}
			t, err := x.clause(env, c)
			if err != nil {
				o := x.emit(st, "unlock", c.label, p, tFalse)
				o.Detail = err.Error()
				o.props = c.props
				continue
			}
			if x.dry == 0 {
				x.emit(st, "unlock", c.label, p, t).props = c.props
			}
		}
	}
}

// callLocks: a callee that takes a lock of a class is not called while such a lock is held, nor against the order.
func (x *Exec) callLocks(st *State, con *Contract, p token.Pos) {
	if con.trusted && con.flags["acquires"] == "" {
		return
	}
	acq := x.w.acquires(con)
	for _, k := range sortedLocks(st) {
		o := st.locks[k]
		n := o.class + "." + o.field
		for _, a := range acq {
			if a == n {
				x.fail(st, "locks", "the lock "+n+" is not acquired twice (call of "+con.name+")", p)
				return
			}
			if ra, rb := x.rank(n), x.rank(a); ra < 0 || rb < 0 || ra >= rb {
				x.fail(st, "locks", "the lock "+a+" is acquired in the declared order (call of "+con.name+" after "+n+")", p)
				return
			}
		}
	}
}

// acquires lists the locks that a function may take, from its code and the code that it calls in the same goroutine.
func (w *World) acquires(con *Contract) []string {
	set := map[string]bool{}
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if f == nil || seen[f] {
			return
		}
		seen[f] = true
		if f.Pkg != nil && !w.ours[f.Pkg.Pkg] {
			return
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var c *ssa.CallCommon
				switch in := in.(type) {
				case *ssa.Call:
					c = &in.Call
				case *ssa.Defer:
					c = &in.Call
				case *ssa.MakeClosure:
					visit(in.Fn.(*ssa.Function))
				}
				if c == nil {
					continue
				}
				if c.IsInvoke() {
					it := c.Value.Type()
					for _, t := range w.implementations(it) {
						visit(w.funcs["("+typeName(t)+")."+c.Method.Name()])
					}
					continue
				}
				g := c.StaticCallee()
				if g == nil {
					continue
				}
				switch n := shortName(g); n {
				case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).RLock":
					if fa, ok := c.Args[0].(*ssa.FieldAddr); ok {
						t := deref(fa.X.Type())
						set[typeName(t)+"."+under(t).(*types.Struct).Field(fa.Field).Name()] = true
					} else {
						set["?"] = true
					}
				default:
					visit(g)
				}
			}
		}
	}
	if con.iface {
		i := strings.LastIndex(con.name, ".")
		if it := w.namedType(con.name[:i]); it != nil {
			for _, t := range w.implementations(it) {
				visit(w.funcs["("+typeName(t)+")."+con.name[i+1:]])
			}
		}
	} else {
		visit(w.funcs[con.fn()])
	}
	return sortedNames(set)
}

func (x *Exec) lockHeld(st *State, ref *Term, cls, mu string, write bool) bool {
	for _, l := range st.locks {
		if l.class == cls && l.field == mu && (!write || !l.rd) {
			if l.ref == ref {
				return true
			}
			if v, ok := st.known(eq(l.ref, ref)); ok && v {
				return true
			}
		}
	}
	return false
}

func guardedField(t types.Type, f string) bool {
	mc := contracts.mutable[typeName(t)]
	return mc != nil && mc.guarded[f] != ""
}

// specAccess: a specification may only mention a guarded field where its value is stable.
func (x *Exec) specAccess(e *Env, t types.Type, f string, ref *Term) {
	if !x.conc {
		return
	}
	mc := contracts.mutable[typeName(t)]
	if x.lockHeld(e.st, ref, mc.name, mc.guarded[f], false) {
		return
	}
	if w := mc.writer[f]; w != "" && (x.hasTok(e.st, w, ref) || x.hasTok(e.st, w+"_ro", ref)) {
		return
	}
	if o := e.st.newRefs[ref]; o {
		return
	}
	panic(specError{"the guarded field " + mc.name + "." + f + " is not stable here"})
}

func (x *Exec) heapRead(st *State, h *HeapPtr, p token.Pos) Val {
	if len(h.sub) > 0 {
		// a field of a structure within an immutable object
		if n, ok := h.strct.(*types.Named); !ok || x.w.ours[n.Obj().Pkg()] {
			panic(unsupported{"nested field"})
		}
		nm, t := "fldn_"+sanitize(typeName(h.strct)), types.Type(h.strct)
		for _, i := range append([]int{h.field}, h.sub...) {
			f := under(t).(*types.Struct).Field(i)
			nm += "_" + f.Name()
			t = f.Type()
		}
		return st.fromTerm(fn(nm, fieldSort(t), h.ref), t)
	}
	stt := under(h.strct).(*types.Struct)
	fld := stt.Field(h.field)
	ft := fld.Type()
	mc := contracts.mutable[typeName(h.strct)]
	if mc != nil && mc.atomic[fld.Name()] {
		x.fail(st, "locks", "access to the atomic field "+fld.Name()+" without an atomic operation", p)
		return x.symbolic(st, fld.Name(), ft)
	}
	if mc != nil && mc.guarded[fld.Name()] != "" {
		held := x.lockHeld(st, h.ref, mc.name, mc.guarded[fld.Name()], false)
		if !held {
			if w := mc.writer[fld.Name()]; w != "" && x.readTok(st, w, h.ref) {
				held = true
			}
		}
		if !held {
			x.fail(st, "locks", "read of "+mc.name+"."+fld.Name()+" with the lock "+mc.guarded[fld.Name()]+" held", p)
			return x.symbolic(st, fld.Name(), ft)
		}
		return st.fromTerm(st.heapLoad(h.strct, h.field, h.ref), ft)
	}
	v := st.fromTerm(fieldFn(h.strct, h.field, h.ref), ft)
	if a, ok := v.(*ArrayVal); ok {
		st.assume(eq(slen(a.seq), num(a.t.Len())))
	}
	if t, ok := v.(*Term); ok && x.conc {
		x.typeFacts(st, SV{t, ft})
	}
	return v
}

func (x *Exec) heapWrite(st *State, h *HeapPtr, v Val, p token.Pos) {
	stt := under(h.strct).(*types.Struct)
	fld := stt.Field(h.field)
	mc := contracts.mutable[typeName(h.strct)]
	if mc == nil || mc.guarded[fld.Name()] == "" || len(h.sub) > 0 {
		x.fail(st, "frame", "write to a field of a shared object ("+typeName(h.strct)+"."+fld.Name()+")", p)
		return
	}
	if !x.lockHeld(st, h.ref, mc.name, mc.guarded[fld.Name()], true) {
		x.fail(st, "locks", "write to "+mc.name+"."+fld.Name()+" with the lock "+mc.guarded[fld.Name()]+" held", p)
		return
	}
	if w := mc.writer[fld.Name()]; w != "" && !x.useTok(st, w, h.ref, p, "write to "+mc.name+"."+fld.Name()) {
		return
	}
	t := st.toTerm(v, fld.Type())
	if mc.setOnce[fld.Name()] {
		x.oblige(st, "lockinv", mc.name+"."+fld.Name()+" is set once", p, eq(st.heapLoad(h.strct, h.field, h.ref), num(0)))
	}
	for _, c := range mc.assign[fld.Name()] {
		e := &Env{st: st, w: x.w, pkg: x.w.conPkg(&Contract{name: mc.name + ".x"}), vars: map[string]SV{c.roles[0].name: {h.ref, types.NewPointer(h.strct)}, c.roles[1].name: {v, fld.Type()}}}
		g, err := x.clause(e, c)
		if err != nil {
			panic(specError{err.Error()})
		}
		if x.dry == 0 {
			x.emit(st, "lockinv", "assignment to "+mc.name+"."+fld.Name()+"/"+c.label, p, or(eq(t, num(0)), g))
		}
	}
	if st.killed {
		return
	}
	st.heapStore(h.strct, h.field, h.ref, t)
	if mc.setOnce[fld.Name()] {
		fv := fieldFn(h.strct, h.field, h.ref)
		st.assume(lt(num(0), fv))
		st.assume(or(eq(t, num(0)), eq(t, fv)))
	}
	if c := mc.keeps[fld.Name()]; c != nil && t != num(0) {
		e := &Env{st: st, w: x.w, pkg: x.w.conPkg(&Contract{name: mc.name + ".x"}), vars: map[string]SV{c.roles[0].name: {h.ref, types.NewPointer(h.strct)}}}
		x.takeTok(st, "conn", e.refOf(e.eval(c.expr)), p, "assignment to "+mc.name+"."+fld.Name())
		if st.killed {
			return
		}
	}
	if _, ok := under(fld.Type()).(*types.Map); ok && !isNilConst(t) {
		if g := x.guardedMap[t]; g == nil {
			for k, l := range st.locks {
				if l.class == mc.name && l.field == mc.guarded[fld.Name()] {
					x.guardedMap[t] = &mapGuard{lock: k, cls: mc.name, fld: fld.Name(), ref: h.ref}
				}
			}
		}
	}
}

// mapAccess: maps in guarded fields are only used with the lock held, others are immutable once shared.
func (x *Exec) mapAccess(st *State, ref *Term, write bool, p token.Pos) {
	if g := x.guardedMap[ref]; g != nil {
		if mc := contracts.mutable[g.cls]; mc.writer[g.fld] != "" && !write {
			if x.readTok(st, mc.writer[g.fld], g.ref) {
				return
			}
		}
		l := st.locks[g.lock]
		if l == nil || write && l.rd {
			x.fail(st, "locks", "use of the map "+g.cls+"."+g.fld+" with its lock held", p)
		}
		return
	}
	if write {
		x.fail(st, "frame", "write to a map that is shared with others", p)
	}
}

// subscribed: entering a channel into a guarded map hands over the right to send to it, deleting returns it.
func (x *Exec) subscribed(st *State, ref, key *Term, add bool) {
	g := x.guardedMap[ref]
	if g == nil {
		return
	}
	if n := contracts.mutable[g.cls].tracks[g.fld]; n != "" {
		if add {
			x.grant(st, n, key)
		} else if k, ok := x.findTok(st, n, key); ok {
			delete(st.perms, k)
		}
		return
	}
	if contracts.mutable[g.cls].subs[g.fld] == "" {
		return
	}
	if add {
		if k, ok := x.findTok(st, "sender", key); ok {
			delete(st.perms, k)
			x.grant(st, "subscription", key)
		}
	} else {
		for _, c := range x.con.behaviors[0].clauses {
			if c.kind == "gives" && strings.HasPrefix(c.src, "sender(") {
				x.grant(st, "sender", key)
			}
		}
	}
}

// ownerFacts: the objects in owning fields belong to the object, if it is one of a mutable class.
func (x *Exec) ownerFacts(st *State, v SV) {
	ref, ok := v.v.(*Term)
	pt, isPtr := v.t.(*types.Pointer)
	if !x.conc || !ok || !isPtr || isNilConst(ref) {
		return
	}
	mc := contracts.mutable[typeName(pt.Elem())]
	if mc == nil {
		return
	}
	for _, f := range mc.owned {
		o, n := ownedField(pt.Elem(), f, ref)
		st.assume(implies(not(eq(ref, num(0))), and(eq(fn("owner", sInt, o), ref), eq(fn("ownerfield", sInt, o), n))))
	}
}

// ownedField returns the value of an owning field and a number for the field.
func ownedField(t types.Type, f string, ref *Term) (*Term, *Term) {
	stt := under(t).(*types.Struct)
	for i := 0; i < stt.NumFields(); i++ {
		if stt.Field(i).Name() == f {
			n := typeName(t) + "." + f
			k := contracts.ownedIDs[n]
			if k == 0 {
				k = len(contracts.ownedIDs) + 1
				contracts.ownedIDs[n] = k
			}
			return fieldFn(t, i, ref), num(int64(k))
		}
	}
	panic(specError{"no field " + f + " in " + typeName(t)})
}

func (x *Exec) onEscape(st *State, o *Obj, ref *Term) {
	if st.newRefs == nil {
		st.newRefs = map[*Term]bool{}
	} else {
		n := map[*Term]bool{}
		for k := range st.newRefs {
			n[k] = true
		}
		st.newRefs = n
	}
	st.newRefs[ref] = true
	x.freshRef(st, ref)
	mc := contracts.mutable[typeName(o.t)]
	if mc == nil || !x.conc {
		return
	}
	x.always(st, mc, o.t, ref, "event", 0)
	x.grant(st, "unowned", ref)
	for _, f := range mc.owned {
		v, n := ownedField(o.t, f, ref)
		x.takeTok(st, "unowned", v, 0, "the object in "+mc.name+"."+f+" is new and belongs to nobody else")
		st.assume(and(eq(fn("owner", sInt, v), ref), eq(fn("ownerfield", sInt, v), n)))
	}
	var fs []string
	for f := range mc.lockInv {
		fs = append(fs, f)
	}
	sort.Strings(fs)
	for _, f := range fs {
		for _, c := range mc.lockInv[f] {
			x.lockClause(st, &Lock{ref: ref, class: mc.name, field: f}, c, true, " initially", 0)
		}
	}
	for n := range mc.tokens {
		x.grant(st, n, ref)
	}
	// connections that the object is responsible for from now on
	stt := under(o.t).(*types.Struct)
	for i := 0; i < stt.NumFields(); i++ {
		c := mc.keeps[stt.Field(i).Name()]
		if c == nil || mc.guarded[stt.Field(i).Name()] != "" {
			continue
		}
		e := &Env{st: st, w: x.w, pkg: x.w.conPkg(&Contract{name: mc.name + ".x"}), vars: map[string]SV{c.roles[0].name: {ref, types.NewPointer(o.t)}}}
		x.takeTok(st, "conn", e.refOf(e.eval(c.expr)), 0, "the new "+mc.name)
	}
	// the right to close the channel is handed over to the one that fires the event
	for _, d := range mc.onces {
		stt := under(o.t).(*types.Struct)
		for i := 0; i < stt.NumFields(); i++ {
			if stt.Field(i).Name() == d["closer"] {
				ch := fieldFn(o.t, i, ref)
				x.takeTok(st, "closer", ch, 0, "event")
				if k, ok := x.findTok(st, "sender", ch); ok {
					delete(st.perms, k)
				}
			}
		}
	}
}

func (x *Exec) onEscapeVar(st *State, o *Obj, ref *Term) {}
func (x *Exec) loadShared(st *State, o *Obj, a *PtrVal, p token.Pos) Val {
	panic(unsupported{"shared variable"})
}
func (x *Exec) storeShared(st *State, o *Obj, a *PtrVal, v Val, p token.Pos) {
	panic(unsupported{"shared variable"})
}

// ---- channels

func (x *Exec) makeChan(st *State, in *ssa.MakeChan) Val {
	ref := x.newRef("chan")
	x.freshRef(st, ref)
	x.grant(st, "sender", ref)
	x.grant(st, "closer", ref)
	x.grant(st, "receiver", ref)
	return ref
}

// chanDecl finds the declaration of the channel in a field.
func (x *Exec) chanDecl(ch *Term) (*ChanDecl, *Term, types.Type) {
	if id, ok := fldOwner[ch.op]; ok && len(ch.args) == 1 {
		n := typeName(id.t) + "." + under(id.t).(*types.Struct).Field(id.i).Name()
		return contracts.chans[n], ch.args[0], id.t
	}
	return nil, nil, nil
}

func (x *Exec) chanEnv(st *State, d *ChanDecl, owner *Term, ot types.Type, ch *Term, v Val, et types.Type) *Env {
	e := &Env{st: st, w: x.w, pkg: x.w.conPkg(&Contract{name: typeName(ot) + ".x"}), vars: map[string]SV{"ch": {ch, types.Typ[types.Int]}}}
	e.vars[d.owner] = SV{owner, types.NewPointer(ot)}
	if v != nil {
		e.vars[d.val] = SV{v, et}
	}
	return e
}

func (x *Exec) chanClauses(st *State, kind string, d *ChanDecl, e *Env, p token.Pos) {
	for _, c := range d.clauses {
		if c.kind != kind {
			continue
		}
		g, err := x.clause(e, c)
		if err != nil {
			if x.dry == 0 {
				o := x.emit(st, "chan", d.name+" "+kind+" "+c.label, p, tFalse)
				o.Detail = err.Error()
				o.props = c.props
			}
			continue
		}
		if x.dry == 0 {
			x.emit(st, "chan", d.name+" "+kind+" "+c.label, p, g).props = c.props
		}
		st.assume(g)
	}
}

func (x *Exec) chanFacts(st *State, kind string, d *ChanDecl, e *Env) {
	for _, c := range d.clauses {
		if c.kind == kind {
			x.assumeClause(st, e, c)
		}
	}
}

func chanElem(t types.Type) types.Type { return under(t).(*types.Chan).Elem() }

// recvCh receives: the continuation gets the value and whether it was one.
func (x *Exec) recvCh(st *State, cv Val, t types.Type, wakers []*Term, p token.Pos, k func(*State, Val, *Term)) {
	ch, ok := cv.(*Term)
	if !ok {
		x.unmodelled(st, "receive from "+errVal(cv), p)
		return
	}
	if isNilConst(ch) {
		return // blocks for ever
	}
	if x.fsRecv(st, ch, t, p, k) {
		return
	}
	et := chanElem(t)
	d, owner, ot := x.chanDecl(ch)
	signal := d != nil && d.flags["signal"] != ""
	if !signal && !x.useTok(st, "receiver", ch, p, "receive") {
		return
	}
	if d != nil && d.flags["unlocked"] != "" && len(st.locks) > 0 {
		x.fail(st, "locks", "no lock is held while receiving from "+d.name, p)
		return
	}
	st.tick()
	if !signal && d != nil && d.flags["mustclose"] == "" && !x.wakes(st, wakers, d, owner, ot) {
		x.fail(st, "thread", "the wait ends when the "+d.flags["wake"]+" event is fired ("+d.name+")", p)
		return
	}
	if signal {
		if id, ok := fldOwner[owner.op]; ok && len(owner.args) == 1 {
			n := typeName(id.t) + "." + under(id.t).(*types.Struct).Field(id.i).Name()
			if ed := contracts.events[n]; ed != nil {
				x.chanClauses(st, "wait", ed, x.chanEnv(st, ed, owner.args[0], id.t, ch, nil, nil), p)
			}
		}
	}
	if x.dry == 0 && len(x.threads) == 0 && len(st.frames) > 0 {
		for _, c := range x.beh.clauses {
			if c.kind == "receives" && c.at == typeName(et) {
				pk := x.w.conPkg(x.con)
				g, err := x.clause(&Env{st: st, vars: x.params, pkg: pk, w: x.w, old: &Env{st: x.old, vars: x.params, pkg: pk, w: x.w}}, c)
				if err != nil {
					panic(specError{err.Error()})
				}
				x.emit(st, "receives", c.label, p, g).props = c.props
			}
		}
	}
	td := contracts.chans["type:"+typeName(et)]
	if d != nil {
		x.chanClauses(st, "recv", d, x.chanEnv(st, d, owner, ot, ch, nil, nil), p)
	}
	st2 := st.clone()
	// a value
	if !signal {
		v := x.symbolic(st, "recv", et)
		if tv, ok := v.(*Term); ok && tv.sort == sInt && !isInteger(et) && !errTypeOK(et) {
			st.assume(le(num(0), tv))
		}
		if d != nil {
			x.chanFacts(st, "elem", d, x.chanEnv(st, d, owner, ot, ch, v, et))
		}
		if td != nil {
			x.chanFacts(st, "elem", td, &Env{st: st, w: x.w, pkg: x.w.conPkg(x.con), vars: map[string]SV{td.val: {v, et}}})
		}
		st.ghostStore("recvd", ch, cat(st.ghostSel("recvd", ch), unit2(boxElem(st.toTerm(v, et)))))
		st.ghostStore("pend", ch, tTrue)
		if !st.killed {
			k(st, v, tTrue)
		}
	}
	// closed
	if x.hasTok(st2, "closer", ch) {
		return // only this goroutine could have closed it
	}
	st2.assume(st2.happened("chclosed", ch))
	if !signal {
		x.setGhost(st2, "drained", ch)
	} else if d != nil {
		if mc := contracts.mutable[typeName(ot)]; mc != nil {
			x.always(st2, mc, ot, owner, "", p)
		}
		x.eventFacts(st2, owner)
	}
	if !st2.killed {
		k(st2, x.zero(st2, et), tFalse)
	}
}

// wakes: the declared event, or the default of a select, ends the wait for the channel.
func (x *Exec) wakes(st *State, wakers []*Term, d *ChanDecl, owner *Term, ot types.Type) bool {
	f := d.flags["wake"]
	if f == "" {
		return true
	}
	ev := x.fieldRef(owner, typeName(ot), f)
	for _, w := range wakers {
		if w == nil || w == ev {
			return true
		}
		if v, ok := st.known(eq(w, ev)); ok && v {
			return true
		}
	}
	return false
}

func unit2(t *Term) *Term { return mk(sSq, "unit", t) }

func (x *Exec) recv(st *State, in *ssa.UnOp, k func(*State, Val)) {
	x.recvCh(st, x.val(st, in.X), in.X.Type(), nil, in.Pos(), func(st *State, v Val, ok *Term) {
		if in.CommaOk {
			k(st, TupleVal{v, ok})
			return
		}
		k(st, v)
	})
}

func (x *Exec) sendCh(st *State, cv, v Val, t types.Type, wakers []*Term, p token.Pos, k func(*State)) {
	ch, ok := cv.(*Term)
	if !ok {
		x.unmodelled(st, "send to "+errVal(cv), p)
		return
	}
	if isNilConst(ch) {
		return
	}
	et := chanElem(t)
	d, owner, ot := x.chanDecl(ch)
	if d != nil && d.flags["signal"] != "" {
		x.fail(st, "chan", "nothing is sent to "+d.name, p)
		return
	}
	if d != nil && d.flags["unlocked"] != "" && len(st.locks) > 0 {
		x.fail(st, "locks", "no lock is held while sending to "+d.name, p)
		return
	}
	if _, has := x.findTok(st, "sender", ch); has {
		x.useTok(st, "sender", ch, p, "send")
	} else if g := x.subscribedTo(st, ch); g != nil {
		x.oblige(st, "token", "send to a subscribed channel only", p, g)
	} else {
		x.fail(st, "token", "send: the goroutine does not have sender", p)
		return
	}
	if d != nil && !x.wakes(st, wakers, d, owner, ot) {
		x.fail(st, "thread", "the wait ends when the "+d.flags["wake"]+" event is fired ("+d.name+")", p)
		return
	}
	tv := st.toTerm(v, et)
	if d != nil {
		e := x.chanEnv(st, d, owner, ot, ch, v, et)
		x.chanClauses(st, "elem", d, e, p)
		x.chanClauses(st, "send", d, e, p)
	}
	if td := contracts.chans["type:"+typeName(et)]; td != nil {
		x.chanClauses(st, "elem", td, &Env{st: st, w: x.w, pkg: x.w.conPkg(x.con), vars: map[string]SV{td.val: {v, et}}}, p)
	}
	st.ghostStore("sent", ch, cat(st.ghostSel("sent", ch), unit2(boxElem(tv))))
	st.tick()
	if !st.killed {
		k(st)
	}
}

// subscribedTo: the condition under which the channel is in a guarded map whose lock is held.
func (x *Exec) subscribedTo(st *State, ch *Term) *Term {
	for _, k := range sortedLocks(st) {
		l := st.locks[k]
		mc := contracts.mutable[l.class]
		if mc == nil || l.rd {
			continue
		}
		for f := range mc.subs {
			if mc.guarded[f] != l.field {
				continue
			}
			t := x.classType(l.class)
			stt := under(t).(*types.Struct)
			for i := 0; i < stt.NumFields(); i++ {
				if stt.Field(i).Name() == f {
					m := st.heapLoad(t, i, l.ref)
					dom, _ := st.hmap(m)
					return and(not(eq(m, num(0))), sel(dom, ch))
				}
			}
		}
	}
	return nil
}

func (x *Exec) send(st *State, ch, v Val, t types.Type, p token.Pos, k func(*State)) {
	x.sendCh(st, ch, v, t, nil, p, k)
}

func (x *Exec) selectStmt(st *State, in *ssa.Select, k func(*State, Val)) {
	n := len(in.States)
	// the result is (index, recvOk, value of each receive)
	res := func(st *State, idx int, ok *Term, ri int, v Val) Val {
		t := TupleVal{num(int64(idx)), ok}
		j := 0
		for _, s := range in.States {
			if s.Dir == types.RecvOnly {
				if j == ri {
					t = append(t, v)
				} else {
					t = append(t, x.zero(st, chanElem(s.Chan.Type())))
				}
				j++
			}
		}
		return t
	}
	var fsch []*Term
	for _, s := range in.States {
		if ch, ok := x.val(st, s.Chan).(*Term); ok && s.Dir == types.RecvOnly {
			fsch = append(fsch, ch)
		}
	}
	x.fsSelect(st, fsch, in.Pos())
	var wakers []*Term
	if !in.Blocking {
		wakers = append(wakers, nil)
	}
	for _, s := range in.States {
		if s.Dir == types.RecvOnly {
			if ch, ok := x.val(st, s.Chan).(*Term); ok {
				if d, o, _ := x.chanDecl(ch); d != nil && d.flags["signal"] != "" {
					wakers = append(wakers, o)
				}
			}
		}
	}
	ri := 0
	for i, s := range in.States {
		i, s := i, s
		c := st.clone()
		ch := x.val(c, s.Chan)
		if s.Dir == types.RecvOnly {
			r := ri
			ri++
			x.recvCh(c, ch, s.Chan.Type(), wakers, s.Pos, func(st *State, v Val, ok *Term) { k(st, res(st, i, ok, r, v)) })
		} else {
			x.sendCh(c, ch, x.val(c, s.Send), s.Chan.Type(), wakers, s.Pos, func(st *State) { k(st, res(st, i, tFalse, -1, nil)) })
		}
	}
	_ = n
	if !in.Blocking {
		st.tick()
		for _, s := range in.States {
			if ch, ok := x.val(st, s.Chan).(*Term); ok && s.Dir == types.RecvOnly && !isNilConst(ch) {
				st.assume(not(st.happened("chclosed", ch)))
				if d, owner, ot := x.chanDecl(ch); d != nil && d.flags["signal"] != "" {
					if mc := contracts.mutable[typeName(ot)]; mc != nil {
						x.always(st, mc, ot, owner, "", s.Pos)
					}
				}
			}
		}
		k(st, res(st, -1, tFalse, -1, nil))
	}
}

func (x *Exec) closeChan(st *State, cv Val, t types.Type, p token.Pos, k func(*State)) {
	ch, ok := cv.(*Term)
	if !ok {
		x.unmodelled(st, "close of "+errVal(cv), p)
		return
	}
	x.oblige(st, "nil", "close of a nil channel", p, not(eq(ch, num(0))))
	if st.killed {
		return
	}
	if !x.takeTok(st, "closer", ch, p, "close") {
		return
	}
	d, owner, ot := x.chanDecl(ch)
	signal := d != nil && d.flags["signal"] != ""
	if !signal && !x.takeTok(st, "sender", ch, p, "close") {
		return
	}
	if d != nil {
		x.chanClauses(st, "close", d, x.chanEnv(st, d, owner, ot, ch, nil, nil), p)
	}
	x.setGhost(st, "chclosed", ch)
	if d != nil {
		if mc := contracts.mutable[typeName(ot)]; mc != nil {
			x.always(st, mc, ot, owner, "event", p)
		}
	}
	k(st)
}

// ---- goroutines

func (x *Exec) freezeVal(st *State, v Val, seen map[int]bool) {
	switch a := v.(type) {
	case *PtrVal:
		if seen[a.obj] {
			return
		}
		seen[a.obj] = true
		o := st.obj(a.obj)
		if _, op := o.v.(*OpaqueVal); op {
			return
		}
		m := st.mut(a.obj)
		m.frozen = true
		x.freezeVal(st, m.v, seen)
		if m.kind == "map" {
			st.publishMap(&MapVal{obj: a.obj})
		}
	case *FuncVal:
		for _, b := range a.bind {
			x.freezeVal(st, b, seen)
		}
	case *StructVal:
		for _, f := range a.fs {
			x.freezeVal(st, f, seen)
		}
	case *IfaceVal:
		x.freezeVal(st, a.v, seen)
	case *MapVal:
		st.publishMap(a)
	case *SliceVal:
		if a.obj != 0 {
			st.freezeSlice(a)
		}
	}
}

var tokGhosts = map[string][]string{"sender": {"sent"}, "receiver": {"recvd", "pend"}, "reader": {"rmsgs", "stream", "laststart", "ssldue", "rfail"}, "writer": {"wmsgs", "written", "wfailed"}}

func (x *Exec) spawn(st *State, p token.Pos, group bool, run func(*State, func(*State, []Val))) {
	x.spawnLending(st, p, group, nil, nil, run)
}

func (x *Exec) spawnLending(st *State, p token.Pos, group bool, lend []int, wgs []*Term, run func(*State, func(*State, []Val))) {
	th := &Thread{used: map[string]int{}, calls: map[string]bool{}, group: group, depth: len(x.threads), dry: x.dry, wrote: map[int]bool{}}
	x.threads = append(x.threads, th)
	st.newRefs = nil
	x.settleToks(st)
	c := st.clone()
	c.locks = map[string]*Lock{}
	c.frameBase = len(c.frames)
	c.tick()
	delete(c.perms, "wgdone")
	delete(c.perms, "fsrecv")
	c.joins = nil
	for _, id := range lend {
		m := c.mut(id)
		m.frozen = false
		m.lend = len(x.threads)
	}
	th.start = c.snapshot()
	// the goroutine shares what only one may write: nobody writes it anymore
	run(c, func(e *State, res []Val) {
		if e.killed {
			return
		}
		if len(e.locks) > 0 && x.dry == 0 {
			x.emit(e, "locks", "no lock is held at the end of the goroutine ("+lockKey(e)+")", p, tFalse)
		}
		th.ends = append(th.ends, e.perms)
		hs := e.happenings()
		for h := range th.facts {
			if !hs[h] {
				delete(th.facts, h)
			}
		}
		if th.ended == 0 {
			th.facts = hs
		}
		th.ended++
		if x.dry == 0 && th.fs {
			x.emit(e, "thread", "every event is handled", p, eq(e.ghostSel("fsdue", num(0)), num(0)))
		}
		if x.dry == 0 {
			for _, k := range sortedNames(e.perms) {
				if strings.HasPrefix(k, "fswatch:") && e.perms[k] && !th.start.perms[k] {
					x.emit(e, "token", "the file watcher is closed by the goroutine", p, tFalse)
				}
			}
		}
		for k := range th.used {
			if x.dry == 0 && strings.HasPrefix(k, "conn:") && e.perms[k] {
				x.emit(e, "token", "a connection or listener is neither served nor closed by the goroutine", p, e.happened("shut", x.permTerm[k]))
			}
		}
		for _, k := range sortedUsed(th.used) {
			name, _, _ := strings.Cut(k, ":")
			if x.dry == 0 && contracts.linear[name] && e.perms[k] {
				if g := x.dropGoal(e, name, x.permTerm[k]); g != nil {
					x.emit(e, "token", name+" is left unused by the goroutine", p, g)
				}
			}
		}
		if x.dry == 0 && th.accepts && !th.tracked() {
			x.emit(e, "thread", "the goroutine that accepts connections is waited for", p, tFalse)
		}
		if x.dry == 0 {
			for _, n := range sortedNames(th.calls) {
				con := contracts.funcs[n]
				if con != nil && con.flags["grouped"] != "" && !th.group {
					x.emit(e, "thread", "the goroutine that runs "+n+" is waited for and its error is reported", p, tFalse)
				}
				if con != nil && con.flags["tracked"] != "" && !th.tracked() {
					x.emit(e, "thread", "the goroutine that runs "+n+" is waited for", p, tFalse)
				}
			}
		}
	})
	x.threads = x.threads[:len(x.threads)-1]
	for _, id := range lend {
		if th.wrote[id] {
			st.mut(id).lent = true
		}
	}
	if len(wgs) > 0 {
		n := map[*Term][]*Thread{}
		for w, ths := range st.joins {
			n[w] = ths
		}
		for _, w := range wgs {
			n[w] = append(n[w][:len(n[w]):len(n[w])], th)
		}
		st.joins = n
	}
	for _, k := range sortedUsed(th.used) {
		if !st.perms[k] {
			continue
		}
		name, _, _ := strings.Cut(k, ":")
		if th.used[k] == 1 {
			if !strings.HasSuffix(name, "_ro") {
				delete(st.perms, k)
				x.grant(st, name+"_ro", x.permTerm[k])
			}
			continue
		}
		delete(st.perms, k)
		for _, g := range tokGhosts[name] {
			x.havocGhostAt(st, g, x.permTerm[k])
		}
		if strings.HasPrefix(name, "wgtask") || name == "closer" {
			for _, e := range th.ends {
				if e[k] && x.dry == 0 {
					what := "the goroutine reports that it is done"
					if name == "closer" {
						what = "the goroutine closes its channel"
					}
					x.emit(st, "token", what+" on every way", p, tFalse)
					break
				}
			}
		}
	}
	x.disjoint(st, th, p)
	st.tick()
}

// disjoint: the goroutine serves one direction of a session only.
func (x *Exec) disjoint(st *State, th *Thread, p token.Pos) {
	if x.dry > 0 {
		return
	}
	groups := map[string]string{}
	for k := range th.used {
		name, _, _ := strings.Cut(k, ":")
		t := x.permTerm[k]
		if id, ok := fldOwner[t.op]; ok {
			n := name + " " + typeName(id.t) + "." + under(id.t).(*types.Struct).Field(id.i).Name()
			if g := contracts.groups[n]; g != "" {
				groups[g] = n
			}
		}
	}
	if len(groups) > 1 {
		var ns []string
		for _, n := range groups {
			ns = append(ns, n)
		}
		sort.Strings(ns)
		x.emit(st, "thread", "a goroutine serves one direction only ("+strings.Join(ns, ", ")+")", p, tFalse)
	}
}

func sortedUsed(m map[string]int) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func (x *Exec) goStmt(st *State, in *ssa.Go) {
	call := in.Call
	var args []Val
	for _, a := range call.Args {
		args = append(args, x.val(st, a))
	}
	var fnv Val
	if call.IsInvoke() || call.StaticCallee() == nil {
		fnv = x.val(st, call.Value)
	} else if mc, ok := call.Value.(*ssa.MakeClosure); ok {
		fnv = x.val(st, mc)
	}
	lend, wgs := x.lendable(st, append([]Val{fnv}, args...)...)
	seen := map[int]bool{}
	for _, a := range args {
		x.freezeVal(st, a, seen)
	}
	x.freezeVal(st, fnv, seen)
	x.spawnLending(st, in.Pos(), false, lend, wgs, func(c *State, k func(*State, []Val)) {
		x.call(c, &call, fnv, args, in.Pos(), k)
	})
}

// ---- events: sync.Once and atomics

func (x *Exec) eventFacts(st *State, ev *Term) {
	if id, ok := fldOwner[ev.op]; ok && len(ev.args) == 1 {
		n := typeName(id.t) + "." + under(id.t).(*types.Struct).Field(id.i).Name()
		if d := contracts.events[n]; d != nil {
			e := &Env{st: st, w: x.w, pkg: x.w.conPkg(&Contract{name: typeName(id.t) + ".x"}), vars: map[string]SV{d.owner: {ev.args[0], types.NewPointer(id.t)}}}
			x.chanFacts(st, "when", d, e)
		}
	}
}

// fires: a declared event is fired (before) or has been fired by this call if r is true (after).
func (x *Exec) fires(st *State, ev *Term, r *Term, p token.Pos) {
	id, ok := fldOwner[ev.op]
	if !ok || len(ev.args) != 1 {
		return
	}
	d := contracts.events[typeName(id.t)+"."+under(id.t).(*types.Struct).Field(id.i).Name()]
	if d == nil {
		return
	}
	e := x.chanEnv(st, d, ev.args[0], id.t, ev, nil, nil)
	if r == nil {
		for _, c := range d.clauses {
			if c.kind != "when" {
				continue
			}
			g, err := x.clause(e, c)
			if err != nil {
				panic(specError{err.Error()})
			}
			x.oblige(st, "event", d.name+" fires when "+c.label, p, g)
		}
		return
	}
	for _, c := range d.clauses {
		switch c.kind {
		case "gained":
			g, err := x.clause(e, c)
			if err != nil {
				panic(specError{err.Error()})
			}
			st.assume(implies(r, g))
		case "grants":
			st.condToks = append(st.condToks[:len(st.condToks):len(st.condToks)], condTok{r, x.tokens(e, c)})
		}
	}
}

func onceDo(x *Exec, st *State, args []Val, rts []types.Type, p token.Pos, k cont) {
	ref, cls, fld, ok := x.lockOf(st, args[0])
	mc := contracts.mutable[cls]
	if !ok || mc == nil || mc.onces[fld] == nil {
		x.unmodelled(st, "sync.Once that is not declared", p)
		return
	}
	o := mc.onces[fld]
	t := x.classType(cls)
	for _, l := range st.locks {
		_ = l
		x.unmodelled(st, "sync.Once under a lock", p)
		return
	}
	st.tick()
	x.always(st, mc, t, ref, "", p)
	x.fork(st, func(st *State) {
		// this call runs the function
		st.assume(not(st.happened(o["begin"], ref)))
		x.always(st, mc, t, ref, "", p)
		if g := o["closer"]; g != "" {
			stt := under(t).(*types.Struct)
			for i := 0; i < stt.NumFields(); i++ {
				if stt.Field(i).Name() == g {
					x.grant(st, "closer", fieldFn(t, i, ref))
				}
			}
		}
		x.setGhost(st, o["begin"], ref)
		st.ghostStore("wins", ref, add(st.ghostSel("wins", ref), num(1)))
		x.grant(st, "once", ref)
		x.callVal(st, args[1], nil, nil, nil, p, func(st *State, _ []Val) {
			if k, ok := x.findTok(st, "once", ref); ok {
				delete(st.perms, k)
			}
			x.setGhost(st, o["end"], ref)
			x.always(st, mc, t, ref, "event", p)
			if !st.killed {
				k(st, nil)
			}
		})
	}, func(st *State) {
		// another call has run the function before
		st.tick()
		st.assume(st.happened(o["begin"], ref))
		st.assume(st.happened(o["end"], ref))
		x.always(st, mc, t, ref, "", p)
		st.perms["lost"] = true
		if !st.killed {
			k(st, nil)
		}
	})
}

func (x *Exec) atomicField(st *State, v Val) (*Term, *MutClass, types.Type, string, bool) {
	ref, cls, fld, ok := x.lockOf(st, v)
	mc := contracts.mutable[cls]
	if !ok || mc == nil || !mc.atomic[fld] {
		return nil, nil, nil, "", false
	}
	return ref, mc, x.classType(cls), mc.atomicGhost[fld], true
}

func atomicLoad(x *Exec, st *State, args []Val, rts []types.Type, p token.Pos, k cont) {
	ref, mc, t, g, ok := x.atomicField(st, args[0])
	if !ok {
		x.unmodelled(st, "atomic load of an undeclared variable", p)
		return
	}
	st.tick()
	x.always(st, mc, t, ref, "", p)
	k(st, []Val{ite(st.happened(g, ref), num(1), num(0))})
}

func atomicStore(x *Exec, st *State, args []Val, rts []types.Type, p token.Pos, k cont) {
	ref, mc, t, g, ok := x.atomicField(st, args[0])
	if !ok {
		x.unmodelled(st, "atomic store to an undeclared variable", p)
		return
	}
	x.oblige(st, "event", "the flag is only ever set", p, eq(args[1].(*Term), num(1)))
	if st.killed {
		return
	}
	x.setGhost(st, g, ref)
	x.always(st, mc, t, ref, "event", p)
	k(st, nil)
}

// specApply(f, args...) is the result of a function value of this package that has no effects.
func specApply(e *Env, args []ast.Expr) SV {
	x := e.st.x
	fv := e.eval(args[0])
	f, ok := fv.v.(*FuncVal)
	if !ok {
		if t, isT := fv.v.(*Term); isT {
			f = x.funcs[t]
		}
	}
	if f == nil || f.fn == nil {
		panic(specError{"apply of an unknown function"})
	}
	var as []Val
	for _, a := range args[1:] {
		as = append(as, e.eval(a).v)
	}
	st := e.st.clone()
	base := st.pc
	st.frames = nil
	type res struct {
		c *Term
		v *Term
	}
	var rs []res
	obls := len(x.obls)
	x.dry++
	x.dryAt = append(x.dryAt, &dryCtx{depth: -1})
	x.runFunc(st, f.fn, as, f.bind, func(st *State, r []Val) {
		c := tTrue
		for p := st.pc; p != base && p != nil; p = p.up {
			c = and(p.t, c)
		}
		rs = append(rs, res{c, r[0].(*Term)})
	})
	x.dryAt = x.dryAt[:len(x.dryAt)-1]
	x.dry--
	x.obls = x.obls[:obls]
	if len(rs) == 0 {
		panic(specError{"apply: the function does not return"})
	}
	out := rs[len(rs)-1].v
	for i := len(rs) - 2; i >= 0; i-- {
		out = ite(rs[i].c, rs[i].v, out)
	}
	return SV{out, sigResults(f.fn.Signature)[0]}
}

// ---- library functions

func moreIntrinsics() map[string]intrinsic {
	lock := func(rd, acq bool) intrinsic {
		return func(x *Exec, st *State, args []Val, rts []types.Type, p token.Pos, k cont) {
			ok := false
			if acq {
				ok = x.acquire(st, args[0], rd, p)
			} else {
				ok = x.release(st, args[0], rd, p)
			}
			if ok && !st.killed {
				k(st, nil)
			}
		}
	}
	closeIt := func(x *Exec, st *State, args []Val, rts []types.Type, p token.Pos, k cont) {
		c := st.toTerm(ifaceRef(x, st, args[0]), nil)
		if tk, ok := x.findTok(st, "conn", c); ok {
			for _, t := range x.threads {
				t.used[tk] = 2
			}
			delete(st.perms, tk)
		}
		x.setGhost(st, "shut", c)
		e := fresh("closeerr", sInt)
		k(st, []Val{e})
	}
	closeListener := func(x *Exec, st *State, args []Val, rts []types.Type, p token.Pos, k cont) {
		c := st.toTerm(ifaceRef(x, st, args[0]), nil)
		if !x.hasTok(st, "conn", c) {
			// only its owner closes a listener: the object that keeps it, with its lock held
			own := tFalse
			for _, lk := range sortedLocks(st) {
				l := st.locks[lk]
				mc := contracts.mutable[l.class]
				if mc == nil || l.at == nil {
					continue
				}
				for _, f := range sortedClauses(mc.keeps) {
					cl := mc.keeps[f]
					if mc.guarded[f] != l.field {
						continue
					}
					for _, s := range []*State{st, l.at} {
						e := &Env{st: s, w: x.w, pkg: x.w.conPkg(&Contract{name: mc.name + ".x"}), vars: map[string]SV{cl.roles[0].name: {l.ref, types.NewPointer(x.classType(l.class))}}}
						own = or(own, eq(c, e.refOf(e.eval(cl.expr))))
					}
				}
			}
			x.oblige(st, "thread", "a listener is closed by its owner", p, own)
			if st.killed {
				return
			}
		}
		st.ghostStore("closes", c, add(st.ghostSel("closes", c), num(1)))
		closeIt(x, st, args, rts, p, k)
	}
	dial := func(x *Exec, st *State, cancel *Term, args []Val, p token.Pos, k cont) {
		z := num(0)
		if len(st.locks) > 0 {
			x.fail(st, "locks", "no lock is held while connecting", p)
			return
		}
		st.tick()
		st.ghostStore("ndials", z, add(st.ghostSel("ndials", z), num(1)))
		st.ghostStore("lastcancel", z, cancel)
		st.ghostStore("lastdial", z, args[1].(*Term))
		x.oblige(st, "requires", "net.Dial/tcp", p, eq(args[0].(*Term), lit("tcp")))
		if st.killed {
			return
		}
		x.fork(st, func(st *State) {
			c := x.newRef("netconn")
			x.freshRef(st, c)
			x.grant(st, "conn", c)
			x.grant(st, "reader", c)
			x.grant(st, "writer", c)
			st.ghostStore("lastconn", z, c)
			k(st, []Val{c, z})
		}, func(st *State) {
			st.ghostStore("lastconn", z, z)
			k(st, []Val{z, x.anyErr(st)})
		})
	}
	m := map[string]intrinsic{
		"net.Conn.Write":          connWrite,
		"net.Conn.Close":          closeIt,
		"net.Listener.Close":      closeListener,
		"net.Conn.RemoteAddr":     havocNonNil,
		"net.Addr.String":         havocResults,
		"(*sync.Mutex).Lock":      lock(false, true),
		"(*sync.Mutex).Unlock":    lock(false, false),
		"(*sync.RWMutex).Lock":    lock(false, true),
		"(*sync.RWMutex).Unlock":  lock(false, false),
		"(*sync.RWMutex).RLock":   lock(true, true),
		"(*sync.RWMutex).RUnlock": lock(true, false),
		"(*sync.Once).Do":         onceDo,
		"atomic.LoadInt32":        atomicLoad,
		"atomic.StoreInt32":       atomicStore,
		"(*sync.WaitGroup).Add": func(x *Exec, st *State, args []Val, rts []types.Type, p token.Pos, k cont) {
			ref, cls, fld, _, ok := x.wgOf(st, args[0])
			if !ok {
				x.unmodelled(st, "wait group that is not a field", p)
				return
			}
			x.oblige(st, "thread", "one goroutine is registered at a time", p, eq(args[1].(*Term), num(1)))
			if mc := contracts.mutable[cls]; mc != nil {
				for _, c := range mc.adds[fld] {
					// the label names the lock that orders it before the wait
					held := false
					for _, l := range st.locks {
						held = held || l.class == cls && l.field == c.label && !l.rd && l.ref == ref
					}
					if !held {
						x.fail(st, "thread", "goroutines are registered with "+cls+"."+c.label+" held", p)
						return
					}
					e := x.lockEnv(st, &Lock{ref: ref, class: cls, field: fld}, c)
					g, err := x.clause(e, c)
					if err != nil {
						panic(specError{err.Error()})
					}
					x.oblige(st, "thread", "no goroutine is registered after the wait has begun", p, g)
				}
			}
			if st.killed {
				return
			}
			if x.hasTok(st, wgTok(len(x.threads)), ref) {
				x.fail(st, "thread", "the registered goroutine is started before the next one is registered", p)
				return
			}
			x.grant(st, wgTok(len(x.threads)), ref)
			k(st, nil)
		},
		"(*sync.WaitGroup).Done": func(x *Exec, st *State, args []Val, rts []types.Type, p token.Pos, k cont) {
			ref, _, _, local, ok := x.wgOf(st, args[0])
			if !ok {
				x.unmodelled(st, "wait group that is not a field", p)
				return
			}
			if local {
				if x.localDone(st, ref, p) {
					k(st, nil)
				}
				return
			}
			tn := wgTok(len(x.threads) - 1)
			if !x.hasTok(st, tn, ref) {
				tn = wgTok(len(x.threads))
			}
			if !x.takeTok(st, tn, ref, p, "(*sync.WaitGroup).Done") {
				return
			}
			if len(x.threads) > 0 {
				st.perms["wgdone"] = true
			}
			k(st, nil)
		},
		"(*sync.WaitGroup).Wait": func(x *Exec, st *State, args []Val, rts []types.Type, p token.Pos, k cont) {
			ref, cls, fld, local, ok := x.wgOf(st, args[0])
			if !ok {
				x.unmodelled(st, "wait group that is not a field", p)
				return
			}
			if local {
				x.localWait(st, ref, p, k)
				return
			}
			if len(st.locks) > 0 {
				x.fail(st, "locks", "no lock is held while waiting for goroutines", p)
				return
			}
			if mc := contracts.mutable[cls]; mc != nil {
				for _, c := range mc.waits[fld] {
					e := x.lockEnv(st, &Lock{ref: ref, class: cls, field: fld}, c)
					g, err := x.clause(e, c)
					if err != nil {
						panic(specError{err.Error()})
					}
					x.oblige(st, "thread", "wait: "+c.label, p, g)
				}
			}
			if st.killed {
				return
			}
			x.setGhost(st, "waited", ref)
			k(st, nil)
		},
		"(*errgroup.Group).Go": func(x *Exec, st *State, args []Val, rts []types.Type, p token.Pos, k cont) {
			x.freezeVal(st, args[1], map[int]bool{})
			var gs []*Term
			if g := x.groupOf(st, args[0]); g != nil {
				gs = append(gs, g)
			}
			x.spawnLending(st, p, true, nil, gs, func(c *State, k func(*State, []Val)) {
				x.callVal(c, args[1], types.NewSignatureType(nil, nil, nil, nil, nil, false), nil, nil, p, k)
			})
			if !st.killed {
				k(st, nil)
			}
		},
		"(*errgroup.Group).Wait": func(x *Exec, st *State, args []Val, rts []types.Type, p token.Pos, k cont) {
			if len(st.locks) > 0 {
				x.fail(st, "locks", "no lock is held while waiting for goroutines", p)
				return
			}
			st.tick()
			if g := x.groupOf(st, args[0]); g != nil {
				for _, th := range st.joins[g] {
					var hs []happening
					for h := range th.facts {
						hs = append(hs, h)
					}
					sort.Slice(hs, func(i, j int) bool {
						if hs[i].ghost != hs[j].ghost {
							return hs[i].ghost < hs[j].ghost
						}
						return hs[i].ref.id < hs[j].ref.id
					})
					for _, h := range hs {
						if h.ghost == "chclosed" || h.ghost == "drained" {
							if x.hasTok(st, "closer", h.ref) {
								x.fail(st, "thread", "whoever closes a channel that is waited for has been started", p)
								return
							}
						}
						st.assume(st.happened(h.ghost, h.ref))
					}
				}
			}
			r := fresh("waitres", sInt)
			st.ghostStore("waitres", num(0), r)
			k(st, []Val{r})
		},
		"time.AfterFunc":     havocNonNil,
		"(*time.Timer).Stop": havocResults,
		"net.JoinHostPort": func(x *Exec, st *State, args []Val, rts []types.Type, p token.Pos, k cont) {
			k(st, []Val{joinHP(args[0].(*Term), args[1].(*Term))})
		},
		"net.Dial": func(x *Exec, st *State, args []Val, rts []types.Type, p token.Pos, k cont) {
			dial(x, st, num(0), args, p, k)
		},
		"(*net.Dialer).Dial": func(x *Exec, st *State, args []Val, rts []types.Type, p token.Pos, k cont) {
			pv, ok := args[0].(*PtrVal)
			if !ok {
				x.unmodelled(st, "Dial of an unknown dialer", p)
				return
			}
			o := st.obj(pv.obj)
			_, t := x.navigate(st, o.v, o.t, pv.path)
			stt, ok := under(t).(*types.Struct)
			if !ok {
				x.unmodelled(st, "Dial of an unknown dialer", p)
				return
			}
			for i := 0; i < stt.NumFields(); i++ {
				f := stt.Field(i).Name()
				v := x.load(st, &PtrVal{obj: pv.obj, path: append(pv.path[:len(pv.path):len(pv.path)], PathElem{field: i})}, p)
				switch f {
				case "Cancel":
					dial(x, st, st.toTerm(v, nil), args[1:], p, k)
					return
				}
			}
		},
		"net.Listen": func(x *Exec, st *State, args []Val, rts []types.Type, p token.Pos, k cont) {
			z := num(0)
			st.tick()
			st.ghostStore("nlistens", z, add(st.ghostSel("nlistens", z), num(1)))
			st.ghostStore("lastlisten", z, args[1].(*Term))
			x.oblige(st, "requires", "net.Listen/tcp", p, eq(args[0].(*Term), lit("tcp")))
			if st.killed {
				return
			}
			x.fork(st, func(st *State) {
				c := x.newRef("listener")
				x.freshRef(st, c)
				x.grant(st, "conn", c)
				x.grant(st, "unserved", c)
				st.ghostStore("lastln", z, c)
				k(st, []Val{c, z})
			}, func(st *State) { k(st, []Val{z, x.anyErr(st)}) })
		},
		"net.Listener.Accept": func(x *Exec, st *State, args []Val, rts []types.Type, p token.Pos, k cont) {
			st.tick()
			if len(st.locks) > 0 {
				x.fail(st, "locks", "no lock is held while waiting for connections", p)
				return
			}
			if ln := st.toTerm(ifaceRef(x, st, args[0]), nil); x.hasTok(st, "conn", ln) {
				x.fail(st, "thread", "others can close the listener while it waits for connections", p)
				return
			}
			ln := st.toTerm(ifaceRef(x, st, args[0]), nil)
			if len(x.threads) > 0 {
				x.threads[len(x.threads)-1].accepts = true
			}
			if tk, ok := x.findTok(st, "unserved", ln); ok {
				for _, t := range x.threads {
					t.used[tk] = 2
				}
			}
			x.fork(st, func(st *State) {
				c := x.newRef("netconn")
				x.freshRef(st, c)
				x.grant(st, "conn", c)
				x.grant(st, "reader", c)
				x.grant(st, "writer", c)
				x.grant(st, "unserved", c)
				k(st, []Val{c, num(0)})
			}, func(st *State) {
				e := x.anyErr(st)
				st.ghostStore("waitres", num(0), e)
				st.tick()
				st.assume(implies(not(fn("tempErr", sBool, e)), st.happened("exhausted", ln)))
				k(st, []Val{num(0), e})
			})
		},
		"errors.As": func(x *Exec, st *State, args []Val, rts []types.Type, p token.Pos, k cont) {
			// errors.As(err, &target) with target of type net.Error
			iv, ok := args[1].(*IfaceVal)
			if !ok {
				x.unmodelled(st, "errors.As with an unknown target", p)
				return
			}
			pv, ok := iv.v.(*PtrVal)
			if !ok || typeName(deref(iv.dyn)) != "net.Error" {
				x.unmodelled(st, "errors.As with a target of another type than net.Error", p)
				return
			}
			e := st.toTerm(args[0], nil)
			x.fork(st, func(st *State) {
				st.assume(fn("isNetErr", sBool, e))
				ne := fn("netErrOf", sInt, e)
				st.assume(not(eq(ne, num(0))))
				st.assume(eq(fn("errTemporary", sBool, ne), fn("tempErr", sBool, e)))
				m := st.mut(pv.obj)
				m.v = x.update(st, m.v, m.t, pv.path, ne)
				k(st, []Val{tTrue})
			}, func(st *State) {
				st.assume(not(fn("isNetErr", sBool, e)))
				st.assume(not(fn("tempErr", sBool, e)))
				k(st, []Val{tFalse})
			})
		},
		"net.Error.Temporary": func(x *Exec, st *State, args []Val, rts []types.Type, p token.Pos, k cont) {
			k(st, []Val{fn("errTemporary", sBool, args[0].(*Term))})
		},
		"strings.Contains": havocResults,
	}
	for n, h := range sqlIntrinsics() {
		m[n] = h
	}
	return m
}

func havocNonNil(x *Exec, st *State, args []Val, rts []types.Type, p token.Pos, k cont) {
	var res []Val
	for _, t := range rts {
		v := x.symbolic(st, "lib", t)
		if tv, ok := v.(*Term); ok && tv.sort == sInt {
			st.assume(lt(num(0), tv))
		}
		res = append(res, v)
	}
	k(st, res)
}

// keyFacts: the lock invariant about the keys of a guarded map, for this key, at the time when the lock was taken.
func (x *Exec) keyFacts(st *State, ref *Term, key Val, kt types.Type) {
	g := x.guardedMap[ref]
	if g == nil {
		return
	}
	l := st.locks[g.lock]
	mc := contracts.mutable[g.cls]
	if l == nil || l.at == nil || mc == nil {
		return
	}
	for _, c := range mc.lockInv[l.field] {
		if len(c.roles) != 2 {
			continue
		}
		at := *l
		at.at = nil
		e := x.lockEnv(l.at, &at, c)
		t := x.w.resolveType(c.roles[1].typ, e.pkg)
		if t == nil || !types.Identical(t, kt) {
			continue
		}
		e.vars[c.roles[1].name] = SV{key, kt}
		t2, err := x.clause(e, c)
		if err != nil {
			panic(specError{err.Error()})
		}
		st.assume(t2)
	}
}

func sortedClauses(m map[string]*Clause) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
