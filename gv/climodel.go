package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Models of the libraries that package cli uses: kingpin, toml, paths and output, and callbacks that a library-like
// function of the module runs later in a goroutine of its own.

// kpVal is the state of the command line parser.
type kpVal struct {
	flags   map[*Term]string // flag -> name
	targets []kpTarget
	term    Val // the function that is called instead of os.Exit
	hasTerm bool
}

type kpTarget struct {
	flag string
	ptr  Val
	kind string
}

func (v *kpVal) clone() *kpVal {
	c := &kpVal{flags: map[*Term]string{}, term: v.term, hasTerm: v.hasTerm, targets: append([]kpTarget(nil), v.targets...)}
	for k, n := range v.flags {
		c.flags[k] = n
	}
	return c
}

func kp(x *Exec, st *State, p token.Pos) *kpVal {
	v, ok := st.ghost["kp"].(*kpVal)
	if !ok {
		x.unmodelled(st, "command line parser that was not made by kingpin.New", p)
		return nil
	}
	v = v.clone()
	st.ghost["kp"] = v
	return v
}

func constStr(v Val) (string, bool) {
	t, ok := v.(*Term)
	if !ok || t.sort != sBy {
		return "", false
	}
	return t.litString()
}

func init() {
	for n, d := range map[string]ghostDecl{
		"nruns":       {"g:nruns", sInt},
		"lastrun":     {"g:lastrun", sInt},
		"runerr":      {"g:runerr", sInt},
		"nreads":      {"g:nreads", sInt},
		"lastread":    {"g:lastread", sInt},
		"readerr":     {"g:readerr", sInt},
		"readpath":    {"g:readpath", sBy},
		"nwatches":    {"g:nwatches", sInt},
		"watcherr":    {"g:watcherr", sInt},
		"watchpath":   {"g:watchpath", sBy},
		"watchedpath": {"g:watchedpath", sBy},
		"watchres":    {"g:watchres", sInt},
		"watchchan":   {"g:watchchan", sInt},
		"nabs":        {"g:nabs", sInt},
		"decs":        {"g:decs", sInt},
		"decerr":      {"g:decerr", sInt},
		"decpath":     {"g:decpath", sBy},
		"lastdec":     {"g:lastdec", sInt},
		"nprints":     {"g:nprints", sInt},
		"lastprint":   {"g:lastprint", sInt},
		"parseerr":    {"g:parseerr", sInt},
		"asked":       {"g:asked", sBool},
		"confpath":    {"g:confpath", sBy},
		"parsedargs":  {"g:parsedargs", sSq},
		"exitcode":    {"g:exitcode", sInt},
		"cliargs":     {"g:cliargs", sSq},
	} {
		ghostArrays[n] = d
	}
	// about(e): the error that an error or a text describes
	concSpec["about"] = func(e *Env, args []ast.Expr) SV {
		return SV{aboutFn(e.term(e.eval(args[0]))), types.Typ[types.Int]}
	}
	// file(p): the file that a path names
	concSpec["file"] = func(e *Env, args []ast.Expr) SV {
		return SV{fn("pathfile", sInt, e.term(e.eval(args[0]))), types.Typ[types.Int]}
	}
	// samevals(p, q): the objects have the same values in all fields
	concSpec["samevals"] = func(e *Env, args []ast.Expr) SV {
		a, b := e.eval(args[0]), e.term(e.eval(args[1]))
		t := deref(a.t)
		stt := under(t).(*types.Struct)
		r := tTrue
		for i := 0; i < stt.NumFields(); i++ {
			var v *Term
			if pv, ok := a.v.(*PtrVal); ok {
				v = e.st.toTerm(e.st.x.load(e.st, &PtrVal{obj: pv.obj, path: append(pv.path[:len(pv.path):len(pv.path)], PathElem{field: i})}, 0), stt.Field(i).Type())
			} else {
				v = fieldFn(t, i, e.term(a))
			}
			r = and(r, eq(v, fieldFn(t, i, b)))
		}
		return SV{r, types.Typ[types.Bool]}
	}
}

// aboutFn: what an error is about; a text is about what has been formatted.
func aboutFn(t *Term) *Term {
	if t.sort == sBy {
		return fn("about_s", sInt, t)
	}
	return fn("about_e", sInt, t)
}

// lastArg is the last of the variadic arguments.
func lastArg(x *Exec, st *State, v Val) Val {
	s, ok := v.(*SliceVal)
	if !ok {
		return nil
	}
	n := st.lenOf(s)
	if !n.isNum() || n.val.Sign() == 0 {
		return nil
	}
	q := st.seqOf(s)
	return nth(q, sub(n, num(1)))
}

// formatted: the new text or error describes what the last argument describes.
func formatted(x *Exec, st *State, r *Term, v Val) {
	if !x.inCli() {
		return
	}
	a := lastArg(x, st, v)
	if a == nil {
		return
	}
	t, ok := a.(*Term)
	if !ok {
		return
	}
	st.assume(eq(aboutFn(r), boxedAbout(t)))
}

func (x *Exec) inCli() bool {
	pk := x.w.conPkg(x.con)
	return pk != nil && pk.Name() == "cli"
}

// boxedAbout is what an element of a list of interfaces is about.
func boxedAbout(t *Term) *Term {
	return fn("about_e", sInt, unboxElem(t, types.Universe.Lookup("error").Type()))
}

func printTo(variadic int) intrinsic {
	return func(x *Exec, st *State, args []Val, rts []types.Type, p token.Pos, k cont) {
		w := st.toTerm(args[0], nil)
		x.oblige(st, "nil", "output to a nil writer", p, not(eq(w, num(0))))
		if st.killed {
			return
		}
		st.ghostStore("nprints", w, add(st.ghostSel("nprints", w), num(1)))
		l := fresh("printed", sInt)
		if a, ok := lastArg(x, st, args[variadic]).(*Term); ok {
			l = boxedAbout(a)
		}
		st.ghostStore("lastprint", w, l)
		havocResults(x, st, nil, rts, p, k)
	}
}

func cliIntrinsics() map[string]intrinsic {
	flagOf := func(x *Exec, st *State, v Val, p token.Pos) (*kpVal, string) {
		kv := kp(x, st, p)
		if kv == nil {
			return nil, ""
		}
		var ref *Term
		switch a := v.(type) {
		case *HeapPtr:
			ref = a.ref
		case *Term:
			ref = a
		}
		n, ok := kv.flags[ref]
		if !ok {
			x.unmodelled(st, "unknown command line flag", p)
			return nil, ""
		}
		return kv, n
	}
	same := func(x *Exec, st *State, args []Val, rts []types.Type, p token.Pos, k cont) {
		k(st, []Val{args[0]})
	}
	target := func(kind string) intrinsic {
		return func(x *Exec, st *State, args []Val, rts []types.Type, p token.Pos, k cont) {
			kv, n := flagOf(x, st, args[0], p)
			if kv == nil {
				return
			}
			kv.targets = append(kv.targets, kpTarget{n, args[1], kind})
			k(st, nil)
		}
	}
	appField := func(x *Exec, st *State, app Val, name string) *Term {
		r, ok := app.(*Term)
		if !ok {
			return nil
		}
		t := x.w.extType("kingpin", "Application")
		if t == nil {
			return nil
		}
		stt := under(t).(*types.Struct)
		for i := 0; i < stt.NumFields(); i++ {
			if stt.Field(i).Name() == name {
				return fieldFn(t, i, r)
			}
		}
		return nil
	}
	parse := func(x *Exec, st *State, args []Val, rts []types.Type, p token.Pos, k cont) {
		kv := kp(x, st, p)
		if kv == nil {
			return
		}
		z := num(0)
		st.ghostStore("parsedargs", z, x.seqArg(st, args[1]))
		set := func(st *State, asked, ok bool) {
			path := fresh("confpath", sBy)
			st.lenFact(path)
			if ok {
				st.ghostStore("confpath", z, path)
			}
			for _, t := range kv.targets {
				var v Val
				switch {
				case t.flag == "config" && t.kind == "string":
					v = path
				case (t.flag == "help" || t.flag == "version") && !asked && ok:
					continue // not given
				case t.kind == "bool":
					v = fresh("flag_"+t.flag, sBool)
				default:
					s := fresh("flag_"+t.flag, sBy)
					st.lenFact(s)
					v = s
				}
				x.store(st, t.ptr, v, p)
				if st.killed {
					return
				}
			}
		}
		stop := func(st *State, k func(*State)) {
			if !kv.hasTerm {
				return // the process exits
			}
			if t, ok := kv.term.(*Term); ok && t == z {
				k(st)
				return
			}
			sig := types.NewSignatureType(nil, nil, nil, types.NewTuple(types.NewVar(0, nil, "status", types.Typ[types.Int])), nil, false)
			x.callVal(st, kv.term, sig, nil, []Val{z}, p, func(st *State, _ []Val) { k(st) })
		}
		ret := func(st *State, asked bool, err *Term) {
			st.ghostStore("parseerr", z, err)
			if asked {
				st.ghostStore("asked", z, tTrue)
			} else {
				st.ghostStore("asked", z, tFalse)
			}
			cmd := fresh("command", sBy)
			st.lenFact(cmd)
			k(st, []Val{cmd, err})
		}
		x.fork(st, func(st *State) {
			set(st, false, false)
			if !st.killed {
				ret(st, false, x.anyErr(st))
			}
		}, func(st *State) {
			set(st, true, false)
			if !st.killed {
				stop(st, func(st *State) { ret(st, true, x.anyErr(st)) })
			}
		}, func(st *State) {
			set(st, true, true)
			if !st.killed {
				stop(st, func(st *State) { ret(st, true, z) })
			}
		}, func(st *State) {
			set(st, false, true)
			if !st.killed {
				ret(st, false, z)
			}
		})
	}
	decode := func(x *Exec, st *State, path *Term, dst Val, rts []types.Type, p token.Pos, k cont) {
		iv, ok := dst.(*IfaceVal)
		if !ok {
			x.unmodelled(st, "decoding into an unknown value", p)
			return
		}
		pv, ok := iv.v.(*PtrVal)
		if !ok {
			x.unmodelled(st, "decoding into a shared value", p)
			return
		}
		t := deref(iv.dyn)
		stt, ok := under(t).(*types.Struct)
		if !ok {
			x.unmodelled(st, "decoding into a value of type "+typeName(t), p)
			return
		}
		z := num(0)
		st.ghostStore("decs", z, add(st.ghostSel("decs", z), num(1)))
		st.ghostStore("decpath", z, path)
		dec := x.newRef("decoded")
		st.ghostStore("lastdec", z, dec)
		fill := func(st *State, part bool) {
			for i := 0; i < stt.NumFields(); i++ {
				fp := &PtrVal{obj: pv.obj, path: append(pv.path[:len(pv.path):len(pv.path)], PathElem{field: i})}
				ft := stt.Field(i).Type()
				old := st.toTerm(x.load(st, fp, p), ft)
				val := fieldFn(t, i, dec)
				zero := st.toTerm(x.zero(st, ft), ft)
				if val.sort == sBy {
					st.lenFact(val)
				}
				v := val
				if part {
					v = fresh("partial", val.sort)
				} else if old != zero {
					// what the file does not say stays as it is
					has := fn("tomlhas_"+stt.Field(i).Name(), sBool, dec)
					st.assume(implies(not(has), eq(val, zero)))
					v = ite(has, val, old)
				}
				x.store(st, fp, st.fromTerm(v, ft), p)
				if st.killed {
					return
				}
			}
		}
		ret := func(st *State, err *Term) {
			st.ghostStore("decerr", z, err)
			k(st, []Val{x.symbolic(st, "tomlmeta", rts[0]), err})
		}
		x.fork(st, func(st *State) {
			fill(st, true)
			if !st.killed {
				ret(st, x.anyErr(st))
			}
		}, func(st *State) {
			fill(st, false)
			if !st.killed {
				ret(st, z)
			}
		})
	}
	m := map[string]intrinsic{
		"kingpin.New": func(x *Exec, st *State, args []Val, rts []types.Type, p token.Pos, k cont) {
			if st.ghost["kp"] != nil {
				x.unmodelled(st, "second command line parser", p)
				return
			}
			a := x.newRef("kingpin")
			kv := &kpVal{flags: map[*Term]string{}}
			h := appField(x, st, a, "HelpFlag")
			if h == nil {
				x.unmodelled(st, "kingpin without a help flag", p)
				return
			}
			st.assume(not(eq(h, num(0))))
			kv.flags[h] = "help"
			st.ghost["kp"] = kv
			k(st, []Val{a})
		},
		"(*kingpin.Application).Terminate": func(x *Exec, st *State, args []Val, rts []types.Type, p token.Pos, k cont) {
			kv := kp(x, st, p)
			if kv == nil {
				return
			}
			kv.term, kv.hasTerm = args[1], true
			k(st, []Val{args[0]})
		},
		"(*kingpin.Application).Version": func(x *Exec, st *State, args []Val, rts []types.Type, p token.Pos, k cont) {
			kv := kp(x, st, p)
			if kv == nil {
				return
			}
			v := appField(x, st, args[0], "VersionFlag")
			if v == nil {
				x.unmodelled(st, "kingpin without a version flag", p)
				return
			}
			st.assume(not(eq(v, num(0))))
			kv.flags[v] = "version"
			k(st, []Val{args[0]})
		},
		"(*kingpin.Application).Writer":      same,
		"(*kingpin.Application).ErrorWriter": same,
		"(*kingpin.Application).UsageWriter": same,
		"(*kingpin.Application).Author":      same,
		"(*kingpin.FlagClause).Short":        same,
		"(*kingpin.FlagClause).PlaceHolder":  same,
		"(*kingpin.FlagClause).Default":      same,
		"(*kingpin.FlagClause).Hidden":       same,
		"(*kingpin.parserMixin).StringVar":   target("string"),
		"(*kingpin.parserMixin).BoolVar":     target("bool"),
		"(*kingpin.Application).Parse":       parse,
		"(*kingpin.flagGroup).Flag": func(x *Exec, st *State, args []Val, rts []types.Type, p token.Pos, k cont) {
			kv := kp(x, st, p)
			if kv == nil {
				return
			}
			n, ok := constStr(args[1])
			if !ok {
				x.unmodelled(st, "command line flag without a constant name", p)
				return
			}
			for _, o := range kv.flags {
				if o == n {
					x.unmodelled(st, "command line flag "+n+" is defined twice", p)
					return
				}
			}
			f := x.newRef("flag_" + n)
			kv.flags[f] = n
			k(st, []Val{f})
		},
		"fmt.Fprintf":  printTo(2),
		"fmt.Fprintln": printTo(1),
		"fmt.Fprint":   printTo(1),
		"filepath.Join": pureStr(func(x *Exec, st *State, args []Val) *Term {
			r := fresh("joined", sBy)
			st.lenFact(r)
			return r
		}),
		"filepath.Dir": pureStr(func(x *Exec, st *State, args []Val) *Term {
			r := fn("pathdir", sBy, args[0].(*Term))
			st.lenFact(r)
			return r
		}),
		"filepath.Clean": pureStr(func(x *Exec, st *State, args []Val) *Term {
			r := fn("pathclean", sBy, args[0].(*Term))
			st.lenFact(r)
			st.assume(eq(fn("pathfile", sInt, r), fn("pathfile", sInt, args[0].(*Term))))
			return r
		}),
		"filepath.Abs": func(x *Exec, st *State, args []Val, rts []types.Type, p token.Pos, k cont) {
			a := args[0].(*Term)
			x.fork(st, func(st *State) {
				r := fresh("abspath", sBy)
				st.lenFact(r)
				st.assume(eq(fn("pathfile", sInt, r), fn("pathfile", sInt, a)))
				k(st, []Val{r, num(0)})
			}, func(st *State) {
				st.ghostStore("nabs", num(0), add(st.ghostSel("nabs", num(0)), num(1)))
				k(st, []Val{sEmpty, x.anyErr(st)})
			})
		},
		"toml.DecodeFile": func(x *Exec, st *State, args []Val, rts []types.Type, p token.Pos, k cont) {
			decode(x, st, args[0].(*Term), args[1], rts, p, k)
		},
		"toml.Decode": func(x *Exec, st *State, args []Val, rts []types.Type, p token.Pos, k cont) {
			decode(x, st, fn("contentpath", sBy, args[0].(*Term)), args[1], rts, p, k)
		},
		"fmt.Errorf": func(x *Exec, st *State, args []Val, rts []types.Type, p token.Pos, k cont) {
			e := x.newErr(st)
			formatted(x, st, e, args[1])
			k(st, []Val{e})
		},
		"errors.New": func(x *Exec, st *State, args []Val, rts []types.Type, p token.Pos, k cont) {
			e := x.newErr(st)
			if x.inCli() {
				st.assume(eq(aboutFn(e), aboutFn(args[0].(*Term))))
			}
			k(st, []Val{e})
		},
		"fmt.Sprintf": func(x *Exec, st *State, args []Val, rts []types.Type, p token.Pos, k cont) {
			r := fresh("sprintf", sBy)
			formatted(x, st, r, args[1])
			k(st, []Val{r})
		},
		"fmt.Sprint": func(x *Exec, st *State, args []Val, rts []types.Type, p token.Pos, k cont) {
			r := fresh("sprint", sBy)
			formatted(x, st, r, args[0])
			k(st, []Val{r})
		},
		"error.Error": func(x *Exec, st *State, args []Val, rts []types.Type, p token.Pos, k cont) {
			r := fresh("errtext", sBy)
			st.lenFact(r)
			st.assume(eq(aboutFn(r), aboutFn(args[0].(*Term))))
			k(st, []Val{r})
		},
	}
	read := func(x *Exec, st *State, args []Val, rts []types.Type, p token.Pos, k cont) {
		x.fork(st, func(st *State) {
			d := fresh("content", sBy)
			st.lenFact(d)
			st.assume(eq(fn("contentpath", sBy, d), args[0].(*Term)))
			k(st, []Val{pureSlice(d, tFalse, types.Typ[types.Uint8]), num(0)})
		}, func(st *State) {
			z := num(0)
			st.ghostStore("nabs", z, add(st.ghostSel("nabs", z), num(1)))
			k(st, []Val{pureSlice(sEmpty, tTrue, types.Typ[types.Uint8]), x.anyErr(st)})
		})
	}
	m["os.ReadFile"], m["ioutil.ReadFile"] = read, read
	return m
}

// extType is a named type of a package outside of the module.
func (w *World) extType(pkg, name string) types.Type {
	p := w.tpkgs[pkg]
	if p == nil {
		return nil
	}
	o := p.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	return o.Type()
}

// ---- callbacks

// callbacks verifies the functions that the callee runs any number of times in another goroutine.
func (x *Exec) callbacks(st *State, fields []string, w SV, p token.Pos) {
	t := deref(w.t)
	stt := under(t).(*types.Struct)
	for _, f := range fields {
		for i := 0; i < stt.NumFields(); i++ {
			if stt.Field(i).Name() != f {
				continue
			}
			var v Val
			if pv, ok := w.v.(*PtrVal); ok {
				v = x.load(st, &PtrVal{obj: pv.obj, path: append(pv.path[:len(pv.path):len(pv.path)], PathElem{field: i})}, p)
			} else {
				v = fieldFn(t, i, w.v.(*Term))
			}
			x.callback(st, f, v, stt.Field(i).Type(), p)
		}
		if st.killed {
			return
		}
	}
}

func (x *Exec) callback(st *State, name string, f Val, ft types.Type, p token.Pos) {
	var cls []*Clause
	for _, c := range x.beh.clauses {
		if c.kind == "callback" && c.at == name {
			cls = append(cls, c)
		}
	}
	if t, ok := f.(*Term); ok {
		isNil, known := st.known(eq(t, num(0)))
		if known && isNil || t == num(0) {
			if len(cls) > 0 {
				x.fail(st, "callback", name+" is set", p)
			}
			return
		}
	}
	x.freezeVal(st, f, map[int]bool{})
	x.spawn(st, p, false, func(c *State, k func(*State, []Val)) {
		for _, n := range sortedGhosts() {
			if g := ghostArrays[n]; len(g.key) > 2 && g.key[:2] == "g:" && !privateGhost[n] {
				c.heapArr(g.key, g.elem)
				x.havocHeap(c, g.key)
			}
		}
		start := c.snapshot()
		x.callVal(c, f, ft, nil, nil, p, func(e *State, _ []Val) {
			if x.dry == 0 {
				pk := x.w.conPkg(x.con)
				env := &Env{st: e, vars: x.params, pkg: pk, w: x.w, old: &Env{st: start, vars: x.params, pkg: pk, w: x.w}}
				for _, cl := range cls {
					g, err := x.clause(env, cl)
					if err != nil {
						panic(specError{err.Error()})
					}
					x.emit(e, "callback", name+" "+cl.label, p, g).props = cl.props
				}
			}
			k(e, nil)
		})
	})
}

// ---- contracts of functions in fields

// setupFields adds a contract for every function that is stored to a field under contract.
func setupFields(w *World) (missing []string) {
	for _, n := range contractNames() {
		c := contracts.funcs[n]
		if len(n) < 6 || n[:6] != "field:" || c.target != "" {
			continue
		}
		seen := map[string]bool{}
		var fs []*ssa.Function
		for _, fname := range sortedFuncs(w) {
			fs = append(fs, w.funcs[fname])
		}
		for _, f := range fs {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					s, ok := in.(*ssa.Store)
					if !ok {
						continue
					}
					fa, ok := s.Addr.(*ssa.FieldAddr)
					if !ok {
						continue
					}
					t := deref(fa.X.Type())
					stt, ok := under(t).(*types.Struct)
					if !ok || "field:"+typeName(t)+"."+stt.Field(fa.Field).Name() != n {
						continue
					}
					g, ok := s.Val.(*ssa.Function)
					if !ok {
						missing = append(missing, fmt.Sprintf("%s is set to something else than a function of the module", n))
						continue
					}
					tn := shortName(g)
					if seen[tn] {
						continue
					}
					seen[tn] = true
					cc := *c
					cc.name = tn + "@" + n
					cc.target = tn
					cc.iface = false
					contracts.funcs[cc.name] = &cc
					c.impls = append(c.impls, cc.name)
				}
			}
		}
	}
	return
}

func sortedFuncs(w *World) []string {
	m := map[string]bool{}
	for n := range w.funcs {
		m[n] = true
	}
	return sortedNames(m)
}

func sortedGhosts() []string {
	m := map[string]bool{}
	for n := range ghostArrays {
		m[n] = true
	}
	return sortedNames(m)
}
