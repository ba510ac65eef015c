package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Model of database/sql for the inspector: a result set is the n-th query of its database; its rows, and the error that
// ends it early, are functions of the result set.

func init() {
	for n, d := range map[string]ghostDecl{
		"rowidx":   {"g:rowidx", sInt},   // rows read so far
		"rowserr":  {"g:rowserr", sInt},  // error that ended the iteration
		"opensets": {"g:opensets", sInt}, // open result sets of a database
		"nqueries": {"g:nqueries", sInt}, // queries made with a database
		"opendbs":  {"g:opendbs", sInt},  // open databases (at reference 0)
		"pinged":   {"n:pinged", sBool},  // a database has answered
	} {
		ghostArrays[n] = d
	}
	decls["u_resultset"] = "(Int Int) Int"
	decls["u_nrows"] = "(Int) Int"
	decls["u_rowint"] = "(Int Int By) Int"
	decls["u_rowstr"] = "(Int Int By) By"
	decls["u_stmtof"] = "(Int) By"
	it := types.Type(types.Typ[types.Int])
	ev := func(e *Env, args []ast.Expr, i int) *Term { return e.term(e.eval(args[i])) }
	// resultset(db, n): the result of the n-th query; nrows(rs): its rows; rowint(rs, i, "col"), rowstr: values
	concSpec["resultset"] = func(e *Env, a []ast.Expr) SV { return SV{mk(sInt, "u_resultset", ev(e, a, 0), ev(e, a, 1)), it} }
	concSpec["nrows"] = func(e *Env, a []ast.Expr) SV { return SV{mk(sInt, "u_nrows", ev(e, a, 0)), it} }
	concSpec["rowint"] = func(e *Env, a []ast.Expr) SV {
		return SV{mk(sInt, "u_rowint", ev(e, a, 0), ev(e, a, 1), ev(e, a, 2)), it}
	}
	concSpec["rowstr"] = func(e *Env, a []ast.Expr) SV {
		return SV{mk(sBy, "u_rowstr", ev(e, a, 0), ev(e, a, 1), ev(e, a, 2)), types.Typ[types.String]}
	}
}

// rawVariadic are the functions whose variadic interface arguments are handed over as they are (pointers to variables).
var rawVariadic = map[string]bool{"(*sql.Rows).Scan": true, "(*sql.Row).Scan": true}

// rawArgs gives the values in the variadic argument of a call.
func rawArgs(c *ssa.CallCommon) (out []ssa.Value, ok bool) {
	f := c.StaticCallee()
	if f == nil || !rawVariadic[shortName(f)] {
		return nil, false
	}
	sl, isSl := c.Args[len(c.Args)-1].(*ssa.Slice)
	if !isSl {
		return nil, false
	}
	al, isAl := sl.X.(*ssa.Alloc)
	if !isAl {
		return nil, false
	}
	n := under(deref(al.Type())).(*types.Array).Len()
	out = make([]ssa.Value, n)
	for _, r := range *al.Referrers() {
		ia, isIA := r.(*ssa.IndexAddr)
		if !isIA {
			continue
		}
		ix, isC := ia.Index.(*ssa.Const)
		if !isC {
			return nil, false
		}
		i, _ := constant.Int64Val(ix.Value)
		for _, q := range *ia.Referrers() {
			if s, isS := q.(*ssa.Store); isS {
				out[i] = s.Val
			}
		}
	}
	for _, v := range out {
		if v == nil {
			return nil, false
		}
	}
	return out, true
}

// rawStore reports if a store only fills the variadic argument of such a call.
func rawStore(s *ssa.Store) bool {
	ia, ok := s.Addr.(*ssa.IndexAddr)
	if !ok {
		return false
	}
	al, ok := ia.X.(*ssa.Alloc)
	if !ok || al.Comment != "varargs" {
		return false
	}
	for _, r := range *al.Referrers() {
		sl, ok := r.(*ssa.Slice)
		if !ok {
			continue
		}
		for _, q := range *sl.Referrers() {
			c, ok := q.(*ssa.Call)
			if !ok {
				return false
			}
			if _, ok := rawArgs(&c.Call); !ok {
				return false
			}
			return true
		}
	}
	return false
}

func sqlIntrinsics() map[string]intrinsic {
	zero := num(0)
	return map[string]intrinsic{
		"sql.Open": func(x *Exec, st *State, args []Val, _ []types.Type, p token.Pos, k cont) {
			x.fork(st, func(st *State) {
				db := x.newRef("sqldb")
				st.ghostStore("opendbs", zero, add(st.ghostSel("opendbs", zero), num(1)))
				st.assume(not(st.ghostSel("closed", db)))
				st.assume(not(st.ghostSel("pinged", db)))
				k(st, []Val{db, zero})
			}, func(st *State) { k(st, []Val{zero, x.anyErr(st)}) })
		},
		"(*sql.DB).Ping": func(x *Exec, st *State, args []Val, _ []types.Type, p token.Pos, k cont) {
			db := args[0].(*Term)
			x.nilCheck(st, db, "nil database", p)
			x.fork(st, func(st *State) {
				st.assume(not(st.ghostSel("closed", db)))
				st.ghostStore("pinged", db, tTrue)
				k(st, []Val{zero})
			}, func(st *State) { k(st, []Val{x.anyErr(st)}) })
		},
		"(*sql.DB).Close": func(x *Exec, st *State, args []Val, _ []types.Type, p token.Pos, k cont) {
			db := args[0].(*Term)
			x.nilCheck(st, db, "nil database", p)
			st.ghostStore("opendbs", zero, sub(st.ghostSel("opendbs", zero), ite(st.ghostSel("closed", db), zero, num(1))))
			st.ghostStore("closed", db, tTrue)
			e := fresh("closeerr", sInt)
			k(st, []Val{e})
		},
		"(*sql.DB).Query": func(x *Exec, st *State, args []Val, _ []types.Type, p token.Pos, k cont) {
			db := args[0].(*Term)
			x.nilCheck(st, db, "nil database", p)
			n := st.ghostSel("nqueries", db)
			rs := mk(sInt, "u_resultset", db, n)
			st.ghostStore("nqueries", db, add(n, num(1)))
			x.fork(st, func(st *State) {
				st.assume(lt(zero, rs))
				st.assume(eq(mk(sBy, "u_stmtof", rs), args[1].(*Term)))
				st.assume(le(zero, mk(sInt, "u_nrows", rs)))
				st.assume(eq(fn("dbof", sInt, rs), db))
				st.assume(not(st.ghostSel("closed", rs)))
				st.ghostStore("rowidx", rs, zero)
				st.ghostStore("rowserr", rs, zero)
				st.ghostStore("opensets", db, add(st.ghostSel("opensets", db), num(1)))
				k(st, []Val{rs, zero})
			}, func(st *State) { k(st, []Val{zero, x.anyErr(st)}) })
		},
		"(*sql.Rows).Next": func(x *Exec, st *State, args []Val, _ []types.Type, p token.Pos, k cont) {
			rs := args[0].(*Term)
			x.nilCheck(st, rs, "nil result set", p)
			i := st.ghostSel("rowidx", rs)
			st.assume(le(zero, i))
			st.assume(le(i, mk(sInt, "u_nrows", rs)))
			x.fork(st, func(st *State) {
				st.assume(lt(i, mk(sInt, "u_nrows", rs)))
				st.assume(eq(st.ghostSel("rowserr", rs), zero))
				st.ghostStore("rowidx", rs, add(i, num(1)))
				k(st, []Val{tTrue})
			}, func(st *State) {
				e := fresh("rowserr", sInt)
				st.assume(or(not(eq(e, zero)), le(mk(sInt, "u_nrows", rs), i)))
				st.ghostStore("rowserr", rs, e)
				x.closeRows(st, rs) // Next closes the result set at its end
				k(st, []Val{tFalse})
			})
		},
		"(*sql.Rows).Err": func(x *Exec, st *State, args []Val, _ []types.Type, p token.Pos, k cont) {
			x.nilCheck(st, args[0], "nil result set", p)
			k(st, []Val{st.ghostSel("rowserr", args[0].(*Term))})
		},
		"(*sql.Rows).Close": func(x *Exec, st *State, args []Val, _ []types.Type, p token.Pos, k cont) {
			rs := args[0].(*Term)
			x.nilCheck(st, rs, "nil result set", p)
			x.closeRows(st, rs)
			e := fresh("closeerr", sInt)
			k(st, []Val{e})
		},
		"(*sql.Rows).Scan": func(x *Exec, st *State, args []Val, _ []types.Type, p token.Pos, k cont) {
			rs := args[0].(*Term)
			dest, ok := args[1].(TupleVal)
			if !ok {
				x.unmodelled(st, "Scan into unknown variables", p)
				return
			}
			x.nilCheck(st, rs, "nil result set", p)
			i := st.ghostSel("rowidx", rs)
			x.oblige(st, "requires", "Scan after Next", p, lt(zero, i))
			cols := selectList(x.stmtText(st, rs))
			set := func(st *State, good bool) bool {
				for j, d := range dest {
					iv, ok := d.(*IfaceVal)
					var pv *PtrVal
					if ok {
						pv, ok = iv.v.(*PtrVal)
					}
					if !ok {
						x.unmodelled(st, "Scan into an unknown variable", p)
						return false
					}
					el := deref(iv.dyn)
					var v Val
					switch {
					case good && j < len(cols) && isInteger(el):
						v = mk(sInt, "u_rowint", rs, sub(i, num(1)), lit(cols[j]))
						st.assume(rangeFact(v.(*Term), el))
					case good && j < len(cols) && isString(el):
						v = mk(sBy, "u_rowstr", rs, sub(i, num(1)), lit(cols[j]))
					default:
						v = x.symbolic(st, "scanned", el)
					}
					x.store(st, pv, v, p)
					if st.killed {
						return false
					}
				}
				return true
			}
			x.fork(st, func(st *State) {
				if len(cols) != len(dest) {
					return // Scan fails
				}
				if set(st, true) {
					k(st, []Val{zero})
				}
			}, func(st *State) {
				if set(st, false) {
					k(st, []Val{x.anyErr(st)})
				}
			})
		},
		"(*sql.DB).QueryRow": func(x *Exec, st *State, args []Val, _ []types.Type, p token.Pos, k cont) {
			x.nilCheck(st, args[0], "nil database", p)
			r := x.newRef("sqlrow")
			k(st, []Val{r})
		},
		"(*sql.Row).Scan": func(x *Exec, st *State, args []Val, _ []types.Type, p token.Pos, k cont) {
			dest, ok := args[1].(TupleVal)
			if !ok {
				x.unmodelled(st, "Scan into unknown variables", p)
				return
			}
			for _, d := range dest {
				iv, ok := d.(*IfaceVal)
				if !ok {
					x.unmodelled(st, "Scan into an unknown variable", p)
					return
				}
				x.store(st, iv.v, x.symbolic(st, "scanned", deref(iv.dyn)), p)
			}
			e := fresh("rowerr", sInt)
			k(st, []Val{e})
		},
	}
}

func (x *Exec) closeRows(st *State, rs *Term) {
	db := fn("dbof", sInt, rs)
	st.ghostStore("opensets", db, sub(st.ghostSel("opensets", db), ite(st.ghostSel("closed", rs), num(0), num(1))))
	st.ghostStore("closed", rs, tTrue)
}

// stmtText is the text of the statement of a result set if it is a constant.
func (x *Exec) stmtText(st *State, rs *Term) string {
	for c := st.pc; c != nil; c = c.up {
		if c.t.op == "=" {
			for i := 0; i < 2; i++ {
				a, b := c.t.args[i], c.t.args[1-i]
				if a.op == "u_stmtof" && a.args[0] == rs && b.op == "lit" {
					str, _ := b.litString()
					return str
				}
			}
		}
		if c.t.op == "seq.eq" {
			for i := 0; i < 2; i++ {
				a, b := c.t.args[i], c.t.args[1-i]
				if a.op == "u_stmtof" && a.args[0] == rs && b.op == "lit" {
					str, _ := b.litString()
					return str
				}
			}
		}
	}
	return ""
}

// selectList gives the names of the columns a SELECT statement takes its values from ("c.oid AS x" is oid).
func selectList(q string) []string {
	f := strings.Fields(q)
	if len(f) == 0 || !strings.EqualFold(f[0], "select") {
		return nil
	}
	var cols []string
	cur := ""
	depth := 0
	body := strings.Join(f[1:], " ")
	i := strings.Index(strings.ToLower(body), " from ")
	if i < 0 {
		return nil
	}
	for _, r := range body[:i] + "," {
		switch {
		case r == '(':
			depth++
		case r == ')':
			depth--
		case r == ',' && depth == 0:
			w := strings.Fields(cur)
			if len(w) == 0 {
				return nil
			}
			c := strings.ToLower(strings.Trim(w[0], `"`))
			if j := strings.LastIndex(c, "."); j >= 0 {
				c = c[j+1:]
			}
			if len(w) > 1 && !(len(w) == 3 && strings.EqualFold(w[1], "as") || len(w) == 2) {
				c = fmt.Sprintf("expression %s", cur)
			}
			cols = append(cols, c)
			cur = ""
			continue
		}
		cur += string(r)
	}
	return cols
}
