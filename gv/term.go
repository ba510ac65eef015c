package main

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

// Sorts of the logic. Go integers are mathematical integers (wrap-around is applied explicitly by the typed
// operations), strings and slices are finite sequences (sort S), every reference is an Int.
const (
	sInt  = "Int"
	sBool = "Bool"
	sBy   = "By" // byte sequences: strings and []byte
	sSq   = "Sq" // sequences of boxed elements: all the other slices
)

func isSeqSort(s string) bool { return s == sBy || s == sSq }

// Term is an interned SMT term.
type Term struct {
	op    string
	args  []*Term
	sort  string
	id    int
	val   *big.Int // integer constants
	free  bool     // contains a bound variable
	coefs []*big.Int
	vars  []string // bound variables of a quantifier: "name sort"
	pats  []*Term
	size  int
}

var (
	interned = map[string]*Term{}
	terms    []*Term
)

func mk(sort, op string, args ...*Term) *Term { return mkFull(sort, op, args, nil, nil, nil, nil) }

func mkFull(sort, op string, args []*Term, val *big.Int, coefs []*big.Int, vars []string, pats []*Term) *Term {
	var sb strings.Builder
	sb.WriteString(sort)
	sb.WriteByte('|')
	sb.WriteString(op)
	for _, a := range args {
		sb.WriteByte(' ')
		sb.WriteString(strconv.Itoa(a.id))
	}
	if val != nil {
		sb.WriteByte('#')
		sb.WriteString(val.String())
	}
	for _, c := range coefs {
		sb.WriteByte('*')
		sb.WriteString(c.String())
	}
	for _, v := range vars {
		sb.WriteByte('?')
		sb.WriteString(v)
	}
	for _, p := range pats {
		sb.WriteByte('!')
		sb.WriteString(strconv.Itoa(p.id))
	}
	k := sb.String()
	if t, ok := interned[k]; ok {
		return t
	}
	t := &Term{op: op, args: args, sort: sort, id: len(terms), val: val, coefs: coefs, vars: vars, pats: pats, size: 1}
	for _, a := range args {
		if a.free {
			t.free = true
		}
		t.size += a.size
	}
	if op == "bound" {
		t.free = true
	}
	if op == "forall" || op == "exists" {
		t.free = hasFreeOutside(t)
	}
	interned[k] = t
	terms = append(terms, t)
	return t
}

func boundVar(name, sort string) *Term {
	return mkFull(sort, "bound", nil, nil, nil, []string{name}, nil)
}

func hasFreeOutside(q *Term) bool {
	bs := map[string]bool{}
	var rec func(t *Term, b map[string]bool) bool
	rec = func(t *Term, b map[string]bool) bool {
		if !t.free {
			return false
		}
		if t.op == "bound" {
			return !b[t.vars[0]]
		}
		nb := b
		if t.op == "forall" || t.op == "exists" {
			nb = map[string]bool{}
			for k := range b {
				nb[k] = true
			}
			for _, v := range t.vars {
				nb[strings.Fields(v)[0]] = true
			}
		}
		for _, a := range t.args {
			if rec(a, nb) {
				return true
			}
		}
		return false
	}
	for _, v := range q.vars {
		bs[strings.Fields(v)[0]] = true
	}
	for _, a := range q.args {
		if rec(a, bs) {
			return true
		}
	}
	return false
}

var freshCounter = map[string]int{}

// declared constants and functions: name -> "(args) result"
var decls = map[string]string{}

func fresh(prefix, sort string) *Term {
	prefix = sanitize(prefix)
	freshCounter[prefix]++
	n := fmt.Sprintf("%s!%d", prefix, freshCounter[prefix])
	return cnst(n, sort)
}

func sanitize(s string) string {
	var sb strings.Builder
	for _, c := range s {
		if c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' || c == '.' || c == '!' {
			sb.WriteRune(c)
		} else {
			sb.WriteByte('_')
		}
	}
	return sb.String()
}

func cnst(name, sort string) *Term {
	decls[name] = "() " + sort
	return mk(sort, name)
}

func fn(name, sort string, args ...*Term) *Term {
	if _, ok := decls[name]; !ok {
		var as []string
		for _, a := range args {
			as = append(as, a.sort)
		}
		decls[name] = "(" + strings.Join(as, " ") + ") " + sort
	}
	return mk(sort, name, args...)
}

// ---- integers

func num(n int64) *Term { return bignum(big.NewInt(n)) }
func bignum(n *big.Int) *Term {
	return mkFull(sInt, "num", nil, new(big.Int).Set(n), nil, nil, nil)
}

func (t *Term) isNum() bool { return t.op == "num" }
func (t *Term) int64() int64 {
	return t.val.Int64()
}

type lin struct {
	c *big.Int
	m map[*Term]*big.Int
}

func toLin(t *Term) lin {
	l := lin{big.NewInt(0), map[*Term]*big.Int{}}
	l.add(t, big.NewInt(1))
	return l
}

func (l *lin) add(t *Term, k *big.Int) {
	switch t.op {
	case "num":
		l.c = new(big.Int).Add(l.c, new(big.Int).Mul(k, t.val))
	case "lin":
		l.c = new(big.Int).Add(l.c, new(big.Int).Mul(k, t.val))
		for i, a := range t.args {
			l.addAtom(a, new(big.Int).Mul(k, t.coefs[i]))
		}
	default:
		l.addAtom(t, k)
	}
}

func (l *lin) addAtom(t *Term, k *big.Int) {
	if o, ok := l.m[t]; ok {
		n := new(big.Int).Add(o, k)
		if n.Sign() == 0 {
			delete(l.m, t)
		} else {
			l.m[t] = n
		}
	} else if k.Sign() != 0 {
		l.m[t] = k
	}
}

func (l *lin) term() *Term {
	if len(l.m) == 0 {
		return bignum(l.c)
	}
	var as []*Term
	for a := range l.m {
		as = append(as, a)
	}
	sort.Slice(as, func(i, j int) bool { return as[i].id < as[j].id })
	if len(as) == 1 && l.c.Sign() == 0 && l.m[as[0]].IsInt64() && l.m[as[0]].Int64() == 1 {
		return as[0]
	}
	var cs []*big.Int
	for _, a := range as {
		cs = append(cs, l.m[a])
	}
	return mkFull(sInt, "lin", as, l.c, cs, nil, nil)
}

func add(ts ...*Term) *Term {
	l := lin{big.NewInt(0), map[*Term]*big.Int{}}
	for _, t := range ts {
		l.add(t, big.NewInt(1))
	}
	return l.term()
}

func sub(a, b *Term) *Term {
	l := toLin(a)
	l.add(b, big.NewInt(-1))
	return l.term()
}

func mul(a, b *Term) *Term {
	if b.isNum() {
		a, b = b, a
	}
	if a.isNum() {
		l := lin{big.NewInt(0), map[*Term]*big.Int{}}
		l.add(b, a.val)
		return l.term()
	}
	return mk(sInt, "*", a, b)
}

func neg(a *Term) *Term { return mul(num(-1), a) }

// Euclidean division and modulo by a positive constant (SMT-LIB semantics).
func ediv(a, b *Term) *Term {
	if a.isNum() && b.isNum() && b.val.Sign() > 0 {
		q := new(big.Int)
		q.DivMod(a.val, b.val, new(big.Int))
		return bignum(q)
	}
	if b.isNum() && b.int64() == 1 {
		return a
	}
	return mk(sInt, "div", a, b)
}

func emod(a, b *Term) *Term {
	if a.isNum() && b.isNum() && b.val.Sign() > 0 {
		m := new(big.Int)
		new(big.Int).DivMod(a.val, b.val, m)
		return bignum(m)
	}
	return mk(sInt, "mod", a, b)
}

// ---- booleans

var (
	tTrue  = mk(sBool, "true")
	tFalse = mk(sBool, "false")
)

func not(a *Term) *Term {
	switch a.op {
	case "true":
		return tFalse
	case "false":
		return tTrue
	case "not":
		return a.args[0]
	}
	return mk(sBool, "not", a)
}

func and(ts ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if t == tFalse {
			return false
		}
		if t == tTrue || seen[t] {
			return true
		}
		if t.op == "and" {
			for _, a := range t.args {
				if !rec(a) {
					return false
				}
			}
			return true
		}
		if seen[not(t)] {
			return false
		}
		seen[t] = true
		out = append(out, t)
		return true
	}
	for _, t := range ts {
		if !rec(t) {
			return tFalse
		}
	}
	if len(out) == 0 {
		return tTrue
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk(sBool, "and", out...)
}

func or(ts ...*Term) *Term {
	var ns []*Term
	for _, t := range ts {
		ns = append(ns, not(t))
	}
	a := and(ns...)
	if a.op == "and" {
		var out []*Term
		for _, x := range a.args {
			out = append(out, not(x))
		}
		return mk(sBool, "or", out...)
	}
	return not(a)
}

func implies(a, b *Term) *Term {
	if a == tTrue {
		return b
	}
	if a == tFalse || b == tTrue || a == b {
		return tTrue
	}
	if b == tFalse {
		return not(a)
	}
	return mk(sBool, "=>", a, b)
}

func iff(a, b *Term) *Term { return eq(a, b) }

func ite(c, a, b *Term) *Term {
	if c == tTrue {
		return a
	}
	if c == tFalse {
		return b
	}
	if a == b {
		return a
	}
	if a.sort == sBool {
		if a == tTrue && b == tFalse {
			return c
		}
		if a == tFalse && b == tTrue {
			return not(c)
		}
		if a == tTrue {
			return or(c, b)
		}
		if a == tFalse {
			return and(not(c), b)
		}
		if b == tFalse {
			return and(c, a)
		}
		if b == tTrue {
			return or(not(c), a)
		}
	}
	return mk(a.sort, "ite", c, a, b)
}

func eq(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("sort mismatch in equality: %s (%s) vs %s (%s)", a, a.sort, b, b.sort))
	}
	if a.sort == sInt {
		d := sub(a, b)
		if d.isNum() {
			if d.val.Sign() == 0 {
				return tTrue
			}
			return tFalse
		}
		if distinctConst(a) && (distinctConst(b) || b.isNum() && b.val.Sign() >= 0) || distinctConst(b) && a.isNum() && a.val.Sign() >= 0 {
			return tFalse // distinct constants are negative
		}
		if a.op == b.op && (a.op == "bx" || a.op == "bxq") && a.args[1] == b.args[1] {
			return eq(a.args[0], b.args[0])
		}
		if a.op == "ite" && (b.isNum() || distinctConst(b)) {
			return ite(a.args[0], eq(a.args[1], b), eq(a.args[2], b))
		}
		if b.op == "ite" && (a.isNum() || distinctConst(a)) {
			return ite(b.args[0], eq(b.args[1], a), eq(b.args[2], a))
		}
	}
	if a.sort == sBool {
		if a == tTrue {
			return b
		}
		if b == tTrue {
			return a
		}
		if a == tFalse {
			return not(b)
		}
		if b == tFalse {
			return not(a)
		}
	}
	if isSeqSort(a.sort) {
		if a.op == "lit" && b.op == "lit" {
			return tFalse // interned: different literals
		}
		if (a.op == "empty" && b.op == "lit") || (b.op == "empty" && a.op == "lit") {
			return tFalse
		}
		if a.op == "empty" {
			return eq(slen(b), num(0))
		}
		if b.op == "empty" {
			return eq(slen(a), num(0))
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk(sBool, "=", a, b)
}

// distinct constants: error variables, type identifiers and so on; they denote pairwise different non-zero integers.
var distinctConsts = map[*Term]bool{}
var distinctList []*Term

func distinctConst(t *Term) bool { return distinctConsts[t] }

func mkDistinct(name string) *Term {
	t := cnst(name, sInt)
	if !distinctConsts[t] {
		distinctConsts[t] = true
		distinctList = append(distinctList, t)
	}
	return t
}

func le(a, b *Term) *Term {
	d := sub(a, b)
	if d.isNum() {
		if d.val.Sign() <= 0 {
			return tTrue
		}
		return tFalse
	}
	return mk(sBool, "<=", a, b)
}

func lt(a, b *Term) *Term {
	d := sub(a, b)
	if d.isNum() {
		if d.val.Sign() < 0 {
			return tTrue
		}
		return tFalse
	}
	return mk(sBool, "<", a, b)
}

func ge(a, b *Term) *Term { return le(b, a) }
func gt(a, b *Term) *Term { return lt(b, a) }

func forall(vars []*Term, body *Term, pats ...*Term) *Term {
	if body == tTrue || body == tFalse {
		return body
	}
	var vs []string
	for _, v := range vars {
		vs = append(vs, v.vars[0]+" "+v.sort)
	}
	return mkFull(sBool, "forall", []*Term{body}, nil, nil, vs, pats)
}

var boundCounter int

func newBound(sort string) *Term {
	boundCounter++
	return boundVar(fmt.Sprintf("q%d", boundCounter), sort)
}

// ---- sequences

var sEmpty = mk(sBy, "empty")

func empty(sort string) *Term { return mk(sort, "empty") }

func lit(s string) *Term {
	if s == "" {
		return sEmpty
	}
	return mkFull(sBy, "lit", nil, nil, nil, []string{fmt.Sprintf("%x", s)}, nil)
}

func (t *Term) litString() (string, bool) {
	if t.op == "empty" {
		return "", true
	}
	if t.op != "lit" {
		return "", false
	}
	b := make([]byte, len(t.vars[0])/2)
	for i := range b {
		v, _ := strconv.ParseUint(t.vars[0][2*i:2*i+2], 16, 8)
		b[i] = byte(v)
	}
	return string(b), true
}

func slen(s *Term) *Term {
	switch s.op {
	case "empty":
		return num(0)
	case "lit":
		return num(int64(len(s.vars[0]) / 2))
	case "unit":
		return num(1)
	case "cat":
		var ls []*Term
		for _, a := range s.args {
			ls = append(ls, slen(a))
		}
		return add(ls...)
	case "upd":
		return slen(s.args[0])
	case "zeros":
		return s.args[0]
	case "be16":
		return num(2)
	case "be32":
		return num(4)
	}
	if t := fldTypes[s.op]; t != nil {
		if a, ok := t.Underlying().(*types.Array); ok {
			return num(a.Len())
		}
	}
	return mk(sInt, "len", s)
}

func nth(s, i *Term) *Term {
	switch s.op {
	case "unit":
		if i.isNum() && i.val.Sign() == 0 {
			return s.args[0]
		}
	case "lit":
		if i.isNum() {
			str, _ := s.litString()
			if k := i.int64(); k >= 0 && k < int64(len(str)) {
				return num(int64(str[k]))
			}
		}
	case "upd":
		if s.args[1] == i && i.isNum() && i.val.Sign() >= 0 && slen(s).isNum() && i.val.Cmp(slen(s).val) < 0 {
			return s.args[2]
		}
		if s.args[1].isNum() && i.isNum() && s.args[1] != i {
			return nth(s.args[0], i)
		}
	case "cat":
		if i.isNum() && i.val.Sign() >= 0 {
			off := int64(0)
			for _, a := range s.args {
				l := slen(a)
				if !l.isNum() {
					break
				}
				if i.int64() < off+l.int64() {
					return nth(a, num(i.int64()-off))
				}
				off += l.int64()
			}
		}
	}
	return mk(sInt, "nth", s, i)
}

func unit(v *Term) *Term {
	if v.isNum() && v.val.Sign() >= 0 && v.val.BitLen() <= 8 {
		return lit(string([]byte{byte(v.int64())}))
	}
	return mk(sBy, "unit", v)
}

func unitOf(sort string, v *Term) *Term {
	if sort == sBy {
		return unit(v)
	}
	return mk(sSq, "unit", v)
}

// cat is kept flat (right-associated when printed).
func cat(ts ...*Term) *Term {
	var out []*Term
	var rec func(t *Term)
	rec = func(t *Term) {
		if t.op == "empty" {
			return
		}
		if t.op == "cat" {
			for _, a := range t.args {
				rec(a)
			}
			return
		}
		if n := len(out); n > 0 && t.op == "lit" && out[n-1].op == "lit" {
			a, _ := out[n-1].litString()
			b, _ := t.litString()
			out[n-1] = lit(a + b)
			return
		}
		out = append(out, t)
	}
	for _, t := range ts {
		if t.sort != ts[0].sort {
			panic("cat: mixed sorts")
		}
		rec(t)
	}
	if ts[0].sort == sBy {
		out = bigEndianUnits(out)
	}
	if len(out) == 0 {
		return empty(ts[0].sort)
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk(ts[0].sort, "cat", out...)
}

// bigEndianUnits finds the four (two) bytes of a number, written out one by one.
func bigEndianUnits(ts []*Term) []*Term {
	for i := 0; i+1 < len(ts); i++ {
		for _, n := range []int{4, 2} {
			if i+n > len(ts) {
				continue
			}
			if t := bigEndian(ts[i : i+n]); t != nil {
				ts = append(append(append([]*Term{}, ts[:i]...), t), ts[i+n:]...)
				break
			}
		}
	}
	return ts
}

func bigEndian(ts []*Term) *Term {
	wide, op := types.Type(types.Typ[types.Uint32]), "be32"
	if len(ts) == 2 {
		wide, op = types.Typ[types.Uint16], "be16"
	}
	var u *Term
	for i, t := range ts {
		if t.op != "unit" {
			return nil
		}
		a := t.args[0]
		if o, ok := wrapped[a]; ok {
			a = o.x
		}
		sh := uint(8 * (len(ts) - 1 - i))
		if sh > 0 {
			if a.op == "mod" && a.args[1] == num(256) {
				a = a.args[0]
			}
			if a.op != "div" || a.args[1] != bignum(pow2(sh)) {
				return nil
			}
			a = a.args[0]
		} else if a.op == "mod" && a.args[1] == num(256) {
			a = a.args[0]
		}
		w := wrap(a, wide)
		if u != nil && u != w {
			return nil
		}
		u = w
	}
	return mk(sBy, op, u)
}

func take(s, n *Term) *Term {
	if n.isNum() && n.val.Sign() == 0 {
		return empty(s.sort)
	}
	if slen(s) == n {
		return s
	}
	if s.op == "lit" && n.isNum() {
		str, _ := s.litString()
		if k := n.int64(); k >= 0 && k <= int64(len(str)) {
			return lit(str[:k])
		}
	}
	if s.op == "cat" {
		// strip whole prefixes when the split point is syntactically a boundary
		acc := num(0)
		for i, a := range s.args {
			if acc == n {
				return cat(append([]*Term{empty(s.sort)}, s.args[:i]...)...)
			}
			acc = add(acc, slen(a))
		}
		if n.isNum() {
			off := int64(0)
			for i, a := range s.args {
				l := slen(a)
				if !l.isNum() {
					break
				}
				if n.int64() < off+l.int64() && n.val.Sign() > 0 {
					return cat(append(append([]*Term{}, s.args[:i]...), take(a, num(n.int64()-off)))...)
				}
				off += l.int64()
			}
		}
	}
	return mk(s.sort, "take", s, n)
}

func drop(s, n *Term) *Term {
	if n.isNum() && n.val.Sign() == 0 {
		return s
	}
	if slen(s) == n {
		return empty(s.sort)
	}
	if s.op == "lit" && n.isNum() {
		str, _ := s.litString()
		if k := n.int64(); k >= 0 && k <= int64(len(str)) {
			return lit(str[k:])
		}
	}
	if s.op == "cat" {
		acc := num(0)
		for i, a := range s.args {
			if acc == n {
				return cat(s.args[i:]...)
			}
			acc = add(acc, slen(a))
		}
		if n.isNum() {
			off := int64(0)
			for i, a := range s.args {
				l := slen(a)
				if !l.isNum() {
					break
				}
				if n.int64() < off+l.int64() && n.val.Sign() > 0 {
					return cat(append([]*Term{drop(a, num(n.int64()-off))}, s.args[i+1:]...)...)
				}
				off += l.int64()
			}
		}
	}
	return mk(s.sort, "drop", s, n)
}

func sliceSeq(s, lo, hi *Term) *Term { return take(drop(s, lo), sub(hi, lo)) }

func upd(s, i, v *Term) *Term {
	if s.op == "lit" && i.isNum() && v.isNum() {
		str, _ := s.litString()
		if k := i.int64(); k >= 0 && k < int64(len(str)) && v.val.Sign() >= 0 && v.val.BitLen() <= 8 {
			b := []byte(str)
			b[k] = byte(v.int64())
			return lit(string(b))
		}
	}
	// concrete-length sequences are written out
	if i.isNum() && slen(s).isNum() {
		n := slen(s).int64()
		if k := i.int64(); n <= 16 && k >= 0 && k < n {
			return cat(take(s, i), unitOf(s.sort, v), drop(s, num(k+1)))
		}
	}
	return mk(s.sort, "upd", s, i, v)
}

// seqEq is the extensional equality used in goals.
func seqEq(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	if a.op == "empty" || b.op == "empty" || (a.op == "lit" && b.op == "lit") {
		return eq(a, b)
	}
	return mk(sBool, "seq.eq", a, b)
}

// zeros is a sequence of n zero elements.
func zeros(sort string, n *Term) *Term {
	if n.isNum() && n.val.Sign() == 0 {
		return empty(sort)
	}
	if sort == sBy && n.isNum() && n.val.Sign() >= 0 && n.int64() <= 64 {
		return lit(strings.Repeat("\x00", int(n.int64())))
	}
	return mk(sort, "zeros", n)
}

// ---- arrays

func arrSort(elem string) string { return "(Array Int " + elem + ")" }

func sel(a, i *Term) *Term {
	es := strings.TrimSuffix(strings.TrimPrefix(a.sort, "(Array Int "), ")")
	for a.op == "store" {
		if a.args[1] == i {
			return a.args[2]
		}
		if eq(a.args[1], i) == tFalse {
			a = a.args[0]
			continue
		}
		break
	}
	if a.op == "constarr" {
		return a.args[0]
	}
	return mk(es, "select", a, i)
}

func store(a, i, v *Term) *Term {
	if a.op == "store" && a.args[1] == i {
		a = a.args[0]
	}
	return mk(a.sort, "store", a, i, v)
}

func constArr(v *Term) *Term { return mk(arrSort(v.sort), "constarr", v) }

// ---- substitution (used for instantiating bound variables)

func subst(t *Term, m map[*Term]*Term) *Term {
	if r, ok := m[t]; ok {
		return r
	}
	if len(t.args) == 0 {
		return t
	}
	ch := false
	as := make([]*Term, len(t.args))
	for i, a := range t.args {
		as[i] = subst(a, m)
		if as[i] != a {
			ch = true
		}
	}
	if !ch {
		return t
	}
	r := rebuild(t, as)
	if o, ok := wrapped[t]; ok && r.op == "ite" {
		if _, ok := wrapped[r]; !ok {
			wrapped[r] = wrapOrigin{subst(o.x, m), o.bits, o.t}
		}
	}
	return r
}

func rebuild(t *Term, as []*Term) *Term {
	switch t.op {
	case "lin":
		l := lin{new(big.Int).Set(t.val), map[*Term]*big.Int{}}
		for i, a := range as {
			l.add(a, t.coefs[i])
		}
		return l.term()
	case "and":
		return and(as...)
	case "or":
		return or(as...)
	case "not":
		return not(as[0])
	case "=>":
		return implies(as[0], as[1])
	case "=":
		return eq(as[0], as[1])
	case "<":
		return lt(as[0], as[1])
	case "<=":
		return le(as[0], as[1])
	case "ite":
		return ite(as[0], as[1], as[2])
	case "cat":
		return cat(as...)
	case "take":
		return take(as[0], as[1])
	case "drop":
		return drop(as[0], as[1])
	case "len":
		return slen(as[0])
	case "nth":
		return nth(as[0], as[1])
	case "unit":
		return unitOf(t.sort, as[0])
	case "select":
		return sel(as[0], as[1])
	case "seq.eq":
		return seqEq(as[0], as[1])
	case "div":
		return ediv(as[0], as[1])
	case "mod":
		return emod(as[0], as[1])
	}
	return mkFull(t.sort, t.op, as, t.val, t.coefs, t.vars, t.pats)
}

func (t *Term) String() string {
	p := &printer{}
	return p.str(t)
}
