package main

import (
	"bytes"
	"context"
	"fmt"
	"go/types"
	"os"
	"os/exec"
	rdebug "runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// ---- printing

type printer struct {
	names map[*Term]string
	syms  map[string]bool
}

func (p *printer) sym(s string) string {
	if p.syms != nil {
		p.syms[s] = true
	}
	return s
}

func (p *printer) str(t *Term) string {
	if p.names != nil {
		if n, ok := p.names[t]; ok {
			return n
		}
	}
	return p.body(t)
}

func numStr(s string) string {
	if strings.HasPrefix(s, "-") {
		return "(- " + s[1:] + ")"
	}
	return s
}

func (p *printer) body(t *Term) string {
	switch t.op {
	case "num":
		return numStr(t.val.String())
	case "lin":
		var parts []string
		for i, a := range t.args {
			c := t.coefs[i].String()
			if c == "1" {
				parts = append(parts, p.str(a))
			} else {
				parts = append(parts, "(* "+numStr(c)+" "+p.str(a)+")")
			}
		}
		if t.val.Sign() != 0 {
			parts = append(parts, numStr(t.val.String()))
		}
		if len(parts) == 1 {
			return parts[0]
		}
		return "(+ " + strings.Join(parts, " ") + ")"
	case "bound":
		return t.vars[0]
	case "lit":
		return p.sym("lit_" + t.vars[0])
	case "empty":
		return p.sym(t.sort + ".empty")
	case "len", "nth", "take", "drop", "upd", "seq.eq":
		op := t.op
		if op == "seq.eq" {
			op = "eq"
		}
		return p.app(t.args[0].sort+"."+op, t.args)
	case "unit", "zeros":
		return p.app(t.sort+"."+t.op, t.args)
	case "cat":
		s := p.str(t.args[len(t.args)-1])
		for i := len(t.args) - 2; i >= 0; i-- {
			s = "(" + p.sym(t.sort+".cat") + " " + p.str(t.args[i]) + " " + s + ")"
		}
		return s
	case "constarr":
		return "((as const " + t.sort + ") " + p.str(t.args[0]) + ")"
	case "forall", "exists":
		var vs []string
		for _, v := range t.vars {
			vs = append(vs, "("+v+")")
		}
		b := p.str(t.args[0])
		if len(t.pats) > 0 {
			var ps []string
			for _, x := range t.pats {
				ps = append(ps, ":pattern ("+p.str(x)+")")
			}
			b = "(! " + b + " " + strings.Join(ps, " ") + ")"
		}
		return "(" + t.op + " (" + strings.Join(vs, " ") + ") " + b + ")"
	}
	if len(t.args) == 0 {
		return p.sym(t.op)
	}
	return p.app(t.op, t.args)
}

func (p *printer) app(op string, args []*Term) string {
	var sb strings.Builder
	sb.WriteByte('(')
	sb.WriteString(p.sym(op))
	for _, a := range args {
		sb.WriteByte(' ')
		sb.WriteString(p.str(a))
	}
	sb.WriteByte(')')
	return sb.String()
}

// ---- the theory

func seqTheory(p string) string {
	elemRange := ""
	unitAx := "(assert (forall ((t Int)) (! (and (= (P.len (P.unit t)) 1) (= (P.nth (P.unit t) 0) t)) :pattern ((P.unit t)))))"
	updAx := "(assert (forall ((s P) (n Int) (v Int) (i Int)) (! (=> (and (<= 0 i) (< i (P.len s))) (= (P.nth (P.upd s n v) i) (ite (= i n) v (P.nth s i)))) :pattern ((P.nth (P.upd s n v) i)))))"
	if p == sBy {
		elemRange = "(assert (forall ((s P) (i Int)) (! (and (<= 0 (P.nth s i)) (<= (P.nth s i) 255)) :pattern ((P.nth s i)))))"
		unitAx = "(assert (forall ((t Int)) (! (and (= (P.len (P.unit t)) 1) (=> (and (<= 0 t) (<= t 255)) (= (P.nth (P.unit t) 0) t))) :pattern ((P.unit t)))))"
		updAx = "(assert (forall ((s P) (n Int) (v Int) (i Int)) (! (=> (and (<= 0 i) (< i (P.len s)) (<= 0 v) (<= v 255)) (= (P.nth (P.upd s n v) i) (ite (= i n) v (P.nth s i)))) :pattern ((P.nth (P.upd s n v) i)))))"
	}
	return strings.ReplaceAll(`(declare-sort P 0)
(declare-fun P.len (P) Int)
(declare-fun P.nth (P Int) Int)
(declare-fun P.cat (P P) P)
(declare-fun P.take (P Int) P)
(declare-fun P.drop (P Int) P)
(declare-fun P.unit (Int) P)
(declare-fun P.upd (P Int Int) P)
(declare-fun P.zeros (Int) P)
(declare-fun P.eq (P P) Bool)
(declare-const P.empty P)
(assert (forall ((s P)) (! (>= (P.len s) 0) :pattern ((P.len s)))))
(assert (= (P.len P.empty) 0))
(assert (forall ((s P)) (! (=> (= (P.len s) 0) (= s P.empty)) :pattern ((P.len s)))))
`+unitAx+"\n"+elemRange+`
(assert (forall ((n Int)) (! (=> (<= 0 n) (= (P.len (P.zeros n)) n)) :pattern ((P.zeros n)))))
(assert (forall ((n Int) (i Int)) (! (=> (and (<= 0 i) (< i n)) (= (P.nth (P.zeros n) i) 0)) :pattern ((P.nth (P.zeros n) i)))))
(assert (forall ((a P) (b P)) (! (= (P.len (P.cat a b)) (+ (P.len a) (P.len b))) :pattern ((P.cat a b)))))
(assert (forall ((a P) (b P) (i Int)) (! (and (=> (< i (P.len a)) (= (P.nth (P.cat a b) i) (P.nth a i))) (=> (<= (P.len a) i) (= (P.nth (P.cat a b) i) (P.nth b (- i (P.len a)))))) :pattern ((P.nth (P.cat a b) i)))))
(assert (forall ((a P)) (! (= (P.cat a P.empty) a) :pattern ((P.cat a P.empty)))))
(assert (forall ((a P)) (! (= (P.cat P.empty a) a) :pattern ((P.cat P.empty a)))))
(assert (forall ((s P) (n Int)) (! (=> (and (<= 0 n) (<= n (P.len s))) (= (P.len (P.take s n)) n)) :pattern ((P.take s n)))))
(assert (forall ((s P) (n Int) (i Int)) (! (=> (and (<= 0 i) (< i n) (<= n (P.len s))) (= (P.nth (P.take s n) i) (P.nth s i))) :pattern ((P.nth (P.take s n) i)) :pattern ((P.nth s i) (P.take s n)))))
(assert (forall ((s P) (n Int)) (! (=> (and (<= 0 n) (<= n (P.len s))) (= (P.len (P.drop s n)) (- (P.len s) n))) :pattern ((P.drop s n)))))
(assert (forall ((s P) (n Int) (i Int)) (! (=> (and (<= 0 n) (<= 0 i) (< i (- (P.len s) n))) (= (P.nth (P.drop s n) i) (P.nth s (+ i n)))) :pattern ((P.nth (P.drop s n) i)))))
(assert (forall ((s P) (n Int) (i Int)) (! (=> (and (<= 0 n) (<= n i) (< i (P.len s))) (= (P.nth (P.drop s n) (- i n)) (P.nth s i))) :pattern ((P.nth s i) (P.drop s n)))))
(assert (forall ((s P) (n Int) (v Int)) (! (= (P.len (P.upd s n v)) (P.len s)) :pattern ((P.upd s n v)))))
`+updAx+`
(assert (forall ((a P) (b P)) (! (= (P.eq a b) (and (= (P.len a) (P.len b)) (forall ((j Int)) (! (=> (and (<= 0 j) (< j (P.len a))) (= (P.nth a j) (P.nth b j))) :pattern ((P.nth a j)) :pattern ((P.nth b j)))))) :pattern ((P.eq a b)))))
(assert (forall ((a P) (b P)) (! (=> (P.eq a b) (= a b)) :pattern ((P.eq a b)))))
(assert (forall ((s P)) (! (= (P.take s (P.len s)) s) :pattern ((P.take s (P.len s))))))
(assert (forall ((s P)) (! (= (P.drop s 0) s) :pattern ((P.drop s 0)))))
(assert (forall ((s P) (n Int)) (! (=> (and (<= 0 n) (<= n (P.len s))) (= s (P.cat (P.take s n) (P.drop s n)))) :pattern ((P.take s n) (P.drop s n)))))
(assert (forall ((s P) (n Int) (i Int) (v Int)) (! (and (=> (and (<= 0 n) (<= n i) (<= n (P.len s))) (= (P.take (P.upd s i v) n) (P.take s n))) (=> (and (<= 0 i) (< i n) (<= n (P.len s))) (= (P.take (P.upd s i v) n) (P.upd (P.take s n) i v)))) :pattern ((P.take (P.upd s i v) n)))))
(assert (forall ((s P) (n Int) (i Int) (v Int)) (! (=> (and (<= 0 i) (< i n) (<= n (P.len s))) (= (P.drop (P.upd s i v) n) (P.drop s n))) :pattern ((P.drop (P.upd s i v) n)))))
(assert (forall ((a P) (b P) (n Int)) (! (and (=> (and (<= 0 n) (<= n (P.len a))) (= (P.take (P.cat a b) n) (P.take a n))) (=> (and (<= (P.len a) n) (<= n (+ (P.len a) (P.len b)))) (= (P.take (P.cat a b) n) (P.cat a (P.take b (- n (P.len a))))))) :pattern ((P.take (P.cat a b) n)))))
(assert (forall ((a P) (b P) (n Int)) (! (and (=> (and (<= 0 n) (<= n (P.len a))) (= (P.drop (P.cat a b) n) (P.cat (P.drop a n) b))) (=> (and (<= (P.len a) n) (<= n (+ (P.len a) (P.len b)))) (= (P.drop (P.cat a b) n) (P.drop b (- n (P.len a)))))) :pattern ((P.drop (P.cat a b) n)))))
(assert (forall ((s P) (m Int) (n Int)) (! (=> (and (<= 0 m) (<= 0 n) (<= (+ m n) (P.len s))) (= (P.drop (P.drop s m) n) (P.drop s (+ m n)))) :pattern ((P.drop (P.drop s m) n)))))
(assert (forall ((a P)) (! (= (P.take a 0) P.empty) :pattern ((P.take a 0)))))
`, "P", p)
}

type axiomGroup struct {
	name  string
	syms  []string // included when one of these symbols occurs
	decl  string
	text  string
	level int // 0: always, 1: only in the second attempt
	trust string
}

var axiomGroups = []*axiomGroup{
	{name: "be16", syms: []string{"be16", "dec16"}, decl: "(declare-fun be16 (Int) By)(declare-fun dec16 (By) Int)",
		text: `(assert (forall ((u Int)) (! (= (By.len (be16 u)) 2) :pattern ((be16 u)))))
(assert (forall ((u Int)) (! (=> (and (<= 0 u) (< u 65536)) (= (dec16 (be16 u)) u)) :pattern ((be16 u)))))
(assert (forall ((s By)) (! (and (<= 0 (dec16 s)) (< (dec16 s) 65536) (=> (= (By.len s) 2) (= (be16 (dec16 s)) s))) :pattern ((dec16 s)))))`},
	{name: "be32", syms: []string{"be32", "dec32"}, decl: "(declare-fun be32 (Int) By)(declare-fun dec32 (By) Int)",
		text: `(assert (forall ((u Int)) (! (= (By.len (be32 u)) 4) :pattern ((be32 u)))))
(assert (forall ((u Int)) (! (=> (and (<= 0 u) (< u 4294967296)) (= (dec32 (be32 u)) u)) :pattern ((be32 u)))))
(assert (forall ((s By)) (! (and (<= 0 (dec32 s)) (< (dec32 s) 4294967296) (=> (= (By.len s) 4) (= (be32 (dec32 s)) s))) :pattern ((dec32 s)))))`},
	{name: "be16.def", level: 1, syms: []string{"be16", "dec16"},
		text: `(assert (forall ((u Int)) (! (=> (and (<= 0 u) (< u 65536)) (and (= (By.nth (be16 u) 0) (div u 256)) (= (By.nth (be16 u) 1) (mod u 256)))) :pattern ((be16 u)))))
(assert (forall ((s By)) (! (=> (= (By.len s) 2) (= (dec16 s) (+ (* 256 (By.nth s 0)) (By.nth s 1)))) :pattern ((dec16 s)))))`},
	{name: "be32.def", level: 1, syms: []string{"be32", "dec32"},
		text: `(assert (forall ((u Int)) (! (=> (and (<= 0 u) (< u 4294967296)) (and (= (By.nth (be32 u) 0) (div u 16777216)) (= (By.nth (be32 u) 1) (mod (div u 65536) 256)) (= (By.nth (be32 u) 2) (mod (div u 256) 256)) (= (By.nth (be32 u) 3) (mod u 256)))) :pattern ((be32 u)))))
(assert (forall ((s By)) (! (=> (= (By.len s) 4) (= (dec32 s) (+ (* 16777216 (By.nth s 0)) (* 65536 (By.nth s 1)) (* 256 (By.nth s 2)) (By.nth s 3)))) :pattern ((dec32 s)))))`},
	{name: "nul", syms: []string{"firstNul", "hasNul"}, decl: "(declare-fun firstNul (By) Int)(declare-fun hasNul (By) Bool)",
		text: `(assert (forall ((s By)) (! (=> (hasNul s) (and (<= 0 (firstNul s)) (< (firstNul s) (By.len s)) (= (By.nth s (firstNul s)) 0))) :pattern ((hasNul s)))))
(assert (forall ((s By) (i Int)) (! (=> (and (hasNul s) (<= 0 i) (< i (firstNul s))) (not (= (By.nth s i) 0))) :pattern ((hasNul s) (By.nth s i)))))
(assert (forall ((s By) (i Int)) (! (=> (and (not (hasNul s)) (<= 0 i) (< i (By.len s))) (not (= (By.nth s i) 0))) :pattern ((hasNul s) (By.nth s i)))))
(assert (not (hasNul By.empty)))
(assert (forall ((s By) (r By)) (! (=> (not (hasNul s)) (and (hasNul (By.cat s (By.cat lit_00 r))) (= (firstNul (By.cat s (By.cat lit_00 r))) (By.len s)))) :pattern ((By.cat s (By.cat lit_00 r))))))
(assert (forall ((s By)) (! (=> (not (hasNul s)) (and (hasNul (By.cat s lit_00)) (= (firstNul (By.cat s lit_00)) (By.len s)))) :pattern ((By.cat s lit_00)))))
(assert (forall ((r By)) (! (and (hasNul (By.cat lit_00 r)) (= (firstNul (By.cat lit_00 r)) 0)) :pattern ((By.cat lit_00 r)))))
(assert (and (hasNul lit_00) (= (firstNul lit_00) 0)))
(assert (forall ((s By)) (! (=> (hasNul s) (not (hasNul (By.take s (firstNul s))))) :pattern ((By.take s (firstNul s))))))`},
	{name: "box", syms: []string{"sl", "nilp", "bx", "slq"}, decl: "(declare-fun sl (Int) By)(declare-fun slq (Int) Sq)(declare-fun nilp (Int) Bool)(declare-fun bx (By Bool) Int)(declare-fun bxq (Sq Bool) Int)",
		text: `(assert (= (sl 0) By.empty))(assert (nilp 0))(assert (= (slq 0) Sq.empty))
(assert (forall ((x Int)) (! (=> (nilp x) (= (sl x) By.empty)) :pattern ((nilp x) (sl x)))))
(assert (forall ((x Int)) (! (=> (nilp x) (= (slq x) Sq.empty)) :pattern ((nilp x) (slq x)))))
(assert (forall ((s By) (n Bool)) (! (and (= (sl (bx s n)) s) (= (nilp (bx s n)) n)) :pattern ((bx s n)))))
(assert (forall ((s Sq) (n Bool)) (! (and (= (slq (bxq s n)) s) (= (nilp (bxq s n)) n)) :pattern ((bxq s n)))))`},
}

// Flat is a spec function that maps a sequence to the concatenation of the encodings of its elements.
type Flat struct {
	name string
	elem *Term // bound variable
	body *Term
	typ  types.Type
}

var flats = map[string]*Flat{}

func (f *Flat) at(x *Term) *Term { return subst(f.body, map[*Term]*Term{f.elem: x}) }

// mkFlat applies a flat function with the structural equations built in.
func mkFlat(f *Flat, s *Term) *Term {
	switch s.op {
	case "empty":
		return empty(sBy)
	case "cat":
		var out []*Term
		for _, a := range s.args {
			out = append(out, mkFlat(f, a))
		}
		return cat(out...)
	case "unit":
		return f.at(s.args[0])
	}
	return mk(sBy, f.name, s)
}

// minLen is a lower bound of the length of a sequence term.
func minLen(t *Term) int64 {
	switch t.op {
	case "cat":
		n := int64(0)
		for _, a := range t.args {
			n += minLen(a)
		}
		return n
	case "ite":
		a, b := minLen(t.args[1]), minLen(t.args[2])
		if b < a {
			return b
		}
		return a
	}
	if l := slen(t); l.isNum() {
		return l.int64()
	}
	return 0
}

func flatInstances(t *Term) []*Term {
	f := flats[t.op]
	x := t.args[0]
	var out []*Term
	// by induction over the sequence: every element takes at least minLen bytes
	if n := minLen(f.body); n > 0 {
		out = append(out, le(mul(num(n), slen(x)), slen(t)))
	}
	switch x.op {
	case "take":
		s, j := x.args[0], x.args[1]
		p := sub(j, num(1))
		out = append(out,
			implies(eq(j, num(0)), eq(t, sEmpty)),
			implies(and(lt(num(0), j), le(j, slen(s))), eq(t, cat(mkFlat(f, take(s, p)), f.at(nth(s, p))))))
	case "drop":
		s, j := x.args[0], x.args[1]
		out = append(out,
			implies(eq(j, slen(s)), eq(t, sEmpty)),
			implies(and(le(num(0), j), lt(j, slen(s))), eq(t, cat(f.at(nth(s, j)), mkFlat(f, drop(s, add(j, num(1))))))))
	default:
		out = append(out,
			implies(eq(slen(x), num(0)), eq(t, sEmpty)),
			implies(lt(num(0), slen(x)), eq(t, cat(f.at(nth(x, num(0))), mkFlat(f, drop(x, num(1)))))))
	}
	return out
}

// polarity conversion: extensional equality is only useful in goals
func relaxEq(t *Term, assume bool) *Term {
	switch t.op {
	case "seq.eq":
		if assume {
			return eq(t.args[0], t.args[1])
		}
		return t
	case "=":
		if !assume && isSeqSort(t.args[0].sort) {
			return seqEq(t.args[0], t.args[1])
		}
		if t.args[0].sort == sBool {
			return t
		}
		return t
	case "and", "or":
		as := make([]*Term, len(t.args))
		for i, a := range t.args {
			as[i] = relaxEq(a, assume)
		}
		return mk(sBool, t.op, as...)
	case "not":
		return not(relaxEq(t.args[0], !assume))
	case "=>":
		return implies(relaxEq(t.args[0], !assume), relaxEq(t.args[1], assume))
	case "ite":
		if t.sort == sBool {
			return ite(t.args[0], relaxEq(t.args[1], assume), relaxEq(t.args[2], assume))
		}
	case "forall":
		return mkFull(sBool, "forall", []*Term{relaxEq(t.args[0], assume)}, nil, nil, t.vars, t.pats)
	}
	return t
}

func buildQuery(assumps []*Term, goal *Term, level int) string {
	var all []*Term
	seenA := map[*Term]bool{}
	for _, a := range assumps {
		a = relaxEq(a, true)
		if a == tTrue || seenA[a] {
			continue
		}
		seenA[a] = true
		all = append(all, a)
	}
	if goal != nil {
		all = append(all, not(relaxEq(goal, false)))
	}

	// unfold flat functions: one step for each occurrence
	done := map[*Term]bool{}
	collect := func(ts []*Term) []*Term {
		var fl []*Term
		vis := map[*Term]bool{}
		var rec func(t *Term)
		rec = func(t *Term) {
			if vis[t] {
				return
			}
			vis[t] = true
			if flats[t.op] != nil && !t.free && !done[t] {
				done[t] = true
				fl = append(fl, t)
			}
			for _, a := range t.args {
				rec(a)
			}
		}
		for _, t := range ts {
			rec(t)
		}
		return fl
	}
	for _, t := range collect(all) {
		for _, i := range flatInstances(t) {
			if i != tTrue {
				all = append(all, i)
			}
		}
	}

	// types of constants and other ground terms
	vis := map[*Term]bool{}
	var ranges []*Term
	var rangesOf func(t *Term)
	rangesOf = func(t *Term) {
		if vis[t] {
			return
		}
		vis[t] = true
		if b, ok := knownBounds[t]; ok && !t.free && !t.isNum() {
			ranges = append(ranges, mk(sBool, "<=", bignum(b.lo), t), mk(sBool, "<=", t, bignum(b.hi)))
		}
		for _, a := range t.args {
			rangesOf(a)
		}
	}
	for _, t := range all {
		rangesOf(t)
	}
	for _, r := range ranges {
		if !seenA[r] {
			seenA[r] = true
			all = append(all, r)
		}
	}

	// sharing
	refs := map[*Term]int{}
	var order []*Term
	var visit func(t *Term)
	visit = func(t *Term) {
		refs[t]++
		if refs[t] > 1 {
			return
		}
		for _, a := range t.args {
			visit(a)
		}
		for _, p := range t.pats {
			visit(p)
		}
		order = append(order, t)
	}
	for _, t := range all {
		visit(t)
	}
	p := &printer{names: map[*Term]string{}, syms: map[string]bool{}}
	var defs bytes.Buffer
	for _, t := range order {
		if refs[t] > 1 && len(t.args) > 0 && !t.free && t.size > 2 {
			b := p.body(t)
			n := "t" + strconv.Itoa(t.id)
			fmt.Fprintf(&defs, "(define-fun %s () %s %s)\n", n, t.sort, b)
			p.names[t] = n
		}
	}
	var asserts bytes.Buffer
	for _, t := range all {
		fmt.Fprintf(&asserts, "(assert %s)\n", p.str(t))
	}

	// axioms
	var ax, axDecl bytes.Buffer
	incl := map[*axiomGroup]bool{}
	for changed := true; changed; {
		changed = false
		for _, g := range axiomGroups {
			if incl[g] || g.level > level {
				continue
			}
			use := false
			for _, s := range g.syms {
				if p.syms[s] {
					use = true
				}
			}
			if !use {
				continue
			}
			incl[g] = true
			changed = true
			axDecl.WriteString(g.decl + "\n")
			ax.WriteString(g.text + "\n")
			for _, s := range tokens(g.text) {
				p.syms[s] = true
			}
		}
	}
	groupDecl := axDecl.String()

	var q bytes.Buffer
	q.WriteString("(set-logic ALL)\n")
	q.WriteString(seqTheory(sBy))
	needSq := false
	for s := range p.syms {
		if strings.HasPrefix(s, "Sq.") || strings.Contains(decls[s], "Sq") {
			needSq = true
		}
	}
	if needSq || strings.Contains(groupDecl, "Sq") {
		q.WriteString(seqTheory(sSq))
	}
	q.WriteString(groupDecl)
	var syms []string
	for s := range p.syms {
		syms = append(syms, s)
	}
	sort.Strings(syms)
	var lits []string
	var dist []string
	for _, s := range syms {
		if strings.HasPrefix(s, "lit_") {
			lits = append(lits, s)
			fmt.Fprintf(&q, "(declare-const %s By)\n", s)
			continue
		}
		if flats[s] != nil {
			fmt.Fprintf(&q, "(declare-fun %s (Sq) By)\n", s)
			continue
		}
		if ft := fldTypes[s]; ft != nil {
			if a, ok := under(ft).(*types.Array); ok {
				fmt.Fprintf(&ax, "(assert (forall ((x Int)) (! (= (%s.len (%s x)) %d) :pattern ((%s x)))))\n", seqSort(a.Elem()), s, a.Len(), s)
			} else if isInteger(ft) {
				lo, hi, _, _ := intRange(ft)
				fmt.Fprintf(&ax, "(assert (forall ((x Int)) (! (and (<= %s (%s x)) (<= (%s x) %s)) :pattern ((%s x)))))\n", numStr(lo.String()), s, s, numStr(hi.String()), s)
			}
		}
		if d, ok := decls[s]; ok && !strings.Contains(groupDecl, " "+s+" ") {
			fmt.Fprintf(&q, "(declare-fun %s %s)\n", s, d)
		}
	}
	for i, t := range distinctList {
		if p.syms[t.op] {
			dist = append(dist, t.op)
			fmt.Fprintf(&q, "(assert (= %s (- %d)))\n", t.op, i+1000)
		}
	}
	for _, l := range lits {
		hex := l[4:]
		n := len(hex) / 2
		fmt.Fprintf(&q, "(assert (= (By.len %s) %d))\n", l, n)
		for i := 0; i < n && i < 48; i++ {
			v, _ := strconv.ParseUint(hex[2*i:2*i+2], 16, 8)
			fmt.Fprintf(&q, "(assert (= (By.nth %s %d) %d))\n", l, i, v)
		}
	}
	q.Write(ax.Bytes())
	q.Write(defs.Bytes())
	q.Write(asserts.Bytes())
	q.WriteString("(check-sat)\n")
	return q.String()
}

func tokens(s string) []string {
	return strings.FieldsFunc(s, func(r rune) bool { return strings.ContainsRune(" ()\n\t:", r) })
}

// ---- solvers

type solver struct {
	name string
	cmd  []string
}

var solvers = []solver{
	{"cvc5", []string{"cvc5", "--lang=smt2", "-q"}},
	{"z3-new", []string{"z3-new", "-in", "smt.mbqi=false", "smt.auto_config=false"}},
	{"z3", []string{"z3", "-in", "smt.mbqi=false", "smt.auto_config=false"}},
}

type solverStats struct {
	mu      sync.Mutex
	calls   map[string]int
	seconds map[string]float64
	proved  map[string]int
}

var stats = &solverStats{calls: map[string]int{}, seconds: map[string]float64{}, proved: map[string]int{}}

func runSolver(s solver, q string, timeout time.Duration) string {
	// the limit is on processor time, so that the verdict does not depend on what else the machine does
	timeout *= time.Duration(limitScale)
	ctx, cancel := context.WithTimeout(context.Background(), 6*timeout)
	defer cancel()
	start := time.Now()
	c := exec.CommandContext(ctx, "/bin/sh", append([]string{"-c", fmt.Sprintf("ulimit -t %d; exec \"$@\"", int(timeout/time.Second)), "sh"}, s.cmd...)...)
	c.Stdin = strings.NewReader(q)
	var out, errb bytes.Buffer
	c.Stdout = &out
	c.Stderr = &errb
	_ = c.Run()
	d := time.Since(start).Seconds()
	stats.mu.Lock()
	stats.calls[s.name]++
	stats.seconds[s.name] += d
	stats.mu.Unlock()
	r := strings.TrimSpace(out.String())
	if ctx.Err() != nil || (c.ProcessState != nil && !c.ProcessState.Exited()) || (r == "" && c.ProcessState != nil && c.ProcessState.UserTime()+c.ProcessState.SystemTime() > timeout-200*time.Millisecond) {
		return "timeout"
	}
	if strings.Contains(r, "error") || (r != "sat" && r != "unsat" && r != "unknown") {
		if os.Getenv("GV_DEBUG") != "" {
			_ = os.WriteFile("/tmp/gv_bad.smt2", []byte(q), 0o644)
			fmt.Fprintln(os.Stderr, "solver error:", s.name, r, errb.String())
		}
		return "error: " + r + " " + errb.String()
	}
	return r
}

// prove returns the back end that proved the goal, or "" and the verdicts of all back ends.
func prove(assumps []*Term, goal *Term, quick bool) (string, string) {
	g := goal
	if g == tTrue {
		return "simplifier", ""
	}
	for _, a := range assumps {
		if a == g || a == tFalse {
			return "simplifier", ""
		}
	}
	termMu.Lock()
	start := time.Now()
	subs, err := presolveSafe(assumps, g)
	presolveTime += time.Since(start)
	termMu.Unlock()
	if err == "" {
		if len(subs) == 0 {
			return "simplifier", ""
		}
		by, det := "", ""
		ok := true
		for _, s := range subs {
			b, d := proveOne(s.hyps, s.goal, quick)
			det += d + ";"
			if b == "" {
				ok = false
				break
			}
			by = b
		}
		if ok {
			return by, det
		}
		if quick {
			return "", det
		}
		b, d := proveOne(assumps, g, quick)
		return b, det + " raw " + d
	}
	return proveOne(assumps, g, quick)
}

var presolveTime time.Duration
var noPresolve = os.Getenv("GV_NOPRESOLVE") != ""

func presolveSafe(assumps []*Term, g *Term) (subs []subgoal, err string) {
	if noPresolve {
		return nil, "off"
	}
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Sprint(r)
			if debug {
				fmt.Fprintln(os.Stderr, "presolve:", err, string(rdebug.Stack()))
			}
		}
	}()
	return presolve(assumps, g), ""
}

func proveOne(assumps []*Term, g *Term, quick bool) (string, string) {
	type attempt struct {
		s     solver
		level int
		t     time.Duration
	}
	var plan []attempt
	if quick {
		plan = []attempt{{solvers[0], 0, 2 * time.Second}, {solvers[1], 0, 2 * time.Second}}
	} else {
		plan = []attempt{
			{solvers[0], 0, 3 * time.Second},
			{solvers[1], 0, 5 * time.Second},
			{solvers[0], 1, 10 * time.Second},
			{solvers[2], 0, 10 * time.Second},
			{solvers[1], 1, 10 * time.Second},
		}
	}
	qs := map[int]string{}
	var verdicts []string
	for _, a := range plan {
		q, ok := qs[a.level]
		if !ok {
			termMu.Lock()
			q = buildQuery(assumps, g, a.level)
			termMu.Unlock()
			qs[a.level] = q
			if a.level == 1 && q == qs[0] {
				continue
			}
		}
		if a.level == 1 && q == qs[0] {
			continue
		}
		r := runSolver(a.s, q, a.t)
		verdicts = append(verdicts, a.s.name+":"+r)
		if r == "unsat" {
			stats.mu.Lock()
			stats.proved[a.s.name]++
			stats.mu.Unlock()
			return a.s.name, strings.Join(verdicts, " ")
		}
	}
	return "", strings.Join(verdicts, " ")
}

var termMu sync.Mutex
