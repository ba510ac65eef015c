package main

import (
	"math/big"
	"sort"
)

// The preprocessor of the back ends. It works on the facts and the goal of one obligation: unit propagation,
// substitution of solved equations, interval reasoning for integers, and the splitting of equations between
// concatenations. Every step replaces a term by one that is equal under the facts, or a fact by a consequence of
// the facts, so a proof of the result is a proof of the obligation.

type pEntry struct {
	to  *Term
	src *pFact
}

type pBound struct {
	k   *big.Int
	src *pFact
}

type pFact struct {
	t    *Term
	dead bool
	keys []*Term // entries of the fact in m
	bnds []*Term // entries of the fact in lo and hi
	app  bool    // an equation that is kept although its left side is replaced
	inst bool
}

type presolver struct {
	m     map[*Term][]pEntry
	lo    map[*Term][]pBound
	hi    map[*Term][]pBound
	memo  map[*Term]*Term
	self  *pFact
	facts []*pFact
	queue []*Term
	seen  map[*Term]bool
	wr    map[*Term]wrapOrigin
	false bool
	steps int
}

func newPresolver() *presolver {
	return &presolver{m: map[*Term][]pEntry{}, lo: map[*Term][]pBound{}, hi: map[*Term][]pBound{}, memo: map[*Term]*Term{}, seen: map[*Term]bool{}, wr: map[*Term]wrapOrigin{}}
}

func (p *presolver) lookup(t *Term) *Term {
	for _, e := range p.m[t] {
		if e.src != p.self && !e.src.dead {
			return e.to
		}
	}
	return nil
}

// ---- linear normal form of inequalities

// normLE turns d >= 0 into k <= L (lo true) or L <= k.
func normGE(d *Term) (l *Term, k *big.Int, lower bool) {
	x := toLin(d)
	if len(x.m) == 0 {
		return nil, x.c, true
	}
	var as []*Term
	for a := range x.m {
		as = append(as, a)
	}
	sort.Slice(as, func(i, j int) bool { return as[i].id < as[j].id })
	g := new(big.Int)
	for _, a := range as {
		g.GCD(nil, nil, g, new(big.Int).Abs(x.m[a]))
	}
	pos := x.m[as[0]].Sign() > 0
	y := lin{big.NewInt(0), map[*Term]*big.Int{}}
	for _, a := range as {
		c := new(big.Int).Div(new(big.Int).Abs(x.m[a]), g)
		if (x.m[a].Sign() > 0) != pos {
			c.Neg(c)
		}
		y.m[a] = c
	}
	// sum + c >= 0  =>  pos: L >= ceil(-c/g);  neg: L <= floor(c/g)
	if pos {
		n := new(big.Int).Neg(x.c)
		q, r := new(big.Int).DivMod(n, g, new(big.Int))
		if r.Sign() != 0 {
			q.Add(q, big1)
		}
		return y.term(), q, true
	}
	q, _ := new(big.Int).DivMod(x.c, g, new(big.Int))
	return y.term(), q, false
}

type rng struct{ lo, hi *big.Int } // nil: unbounded

func (p *presolver) tableRange(l *Term) rng {
	var r rng
	for _, b := range p.lo[l] {
		if b.src != p.self && !b.src.dead && (r.lo == nil || b.k.Cmp(r.lo) > 0) {
			r.lo = b.k
		}
	}
	for _, b := range p.hi[l] {
		if b.src != p.self && !b.src.dead && (r.hi == nil || b.k.Cmp(r.hi) < 0) {
			r.hi = b.k
		}
	}
	return r
}

func (r rng) meet(o rng) rng {
	if r.lo == nil || (o.lo != nil && o.lo.Cmp(r.lo) > 0) {
		r.lo = o.lo
	}
	if r.hi == nil || (o.hi != nil && o.hi.Cmp(r.hi) < 0) {
		r.hi = o.hi
	}
	return r
}

func (p *presolver) rangeAtom(t *Term, depth int) rng {
	var r rng
	if b, ok := bounds(t); ok {
		r = rng{b.lo, b.hi}
	} else if t.op == "len" {
		r = rng{lo: big.NewInt(0)}
	}
	if t.op == "ite" && depth < 4 {
		a, b := p.rangeOf(t.args[1], depth+1), p.rangeOf(t.args[2], depth+1)
		// a wrapped value has the range of its type whatever the branches say
		var j rng
		if a.lo != nil && b.lo != nil {
			j.lo = a.lo
			if b.lo.Cmp(a.lo) < 0 {
				j.lo = b.lo
			}
		}
		if a.hi != nil && b.hi != nil {
			j.hi = a.hi
			if b.hi.Cmp(a.hi) > 0 {
				j.hi = b.hi
			}
		}
		r = r.meet(j)
	}
	if o, ok := p.origin(t); ok && o.t != nil {
		lo, hi, _, _ := intRange(o.t)
		r = r.meet(rng{lo, hi})
	}
	return r.meet(p.tableRange(t))
}

func (p *presolver) rangeOf(t *Term, depth int) rng {
	switch t.op {
	case "num":
		return rng{t.val, t.val}
	case "lin":
		// the table knows the canonical multiple of the linear part
		var r rng
		lo, hi := new(big.Int).Set(t.val), new(big.Int).Set(t.val)
		okL, okH := true, true
		for i, a := range t.args {
			x := p.rangeAtom(a, depth)
			l, h := x.lo, x.hi
			if t.coefs[i].Sign() < 0 {
				l, h = h, l
			}
			if l == nil {
				okL = false
			} else {
				lo.Add(lo, new(big.Int).Mul(l, t.coefs[i]))
			}
			if h == nil {
				okH = false
			} else {
				hi.Add(hi, new(big.Int).Mul(h, t.coefs[i]))
			}
		}
		if okL {
			r.lo = lo
		}
		if okH {
			r.hi = hi
		}
		// t >= 0  <=>  L >= k (or L <= k); the difference between t and the multiple of L is a constant
		l, _, _ := normGE(t)
		if l != nil {
			g := new(big.Int)
			ll := toLin(l)
			a0 := t.args[0]
			if c, ok := ll.m[a0]; ok {
				g.Quo(t.coefs[0], c) // t = g*l + rest
				tr := p.tableRange(l)
				rest := t.val
				a, b := tr.lo, tr.hi
				if g.Sign() < 0 {
					a, b = b, a
				}
				var y rng
				if a != nil {
					y.lo = new(big.Int).Add(new(big.Int).Mul(a, g), rest)
				}
				if b != nil {
					y.hi = new(big.Int).Add(new(big.Int).Mul(b, g), rest)
				}
				r = r.meet(y)
			}
		}
		return r
	}
	return p.rangeAtom(t, depth)
}

// holdsGE: d >= 0 is decided by the intervals: 1 yes, -1 no, 0 unknown. One step of transitivity through a
// difference is tried as well.
func (p *presolver) signGE(d *Term) int {
	r := p.rangeOf(d, 0)
	if r.lo != nil && r.lo.Sign() >= 0 {
		return 1
	}
	if r.hi != nil && r.hi.Sign() < 0 {
		return -1
	}
	return 0
}

func (p *presolver) isGE(a, b *Term) bool { return p.signGE(sub(a, b)) == 1 }

// isGE2 also combines two known inequalities: a >= b because d = (known >= 0) + (>= 0).
func (p *presolver) isGE2(a, b *Term) bool {
	d := sub(a, b)
	if p.signGE(d) == 1 {
		return true
	}
	if d.op != "lin" || len(d.args) < 2 {
		return false
	}
	n := 0
	seen := map[*Term]bool{}
	for _, at := range d.args {
		for l := range p.byAtom(at) {
			if seen[l] {
				continue
			}
			seen[l] = true
			if n++; n > 40 {
				return false
			}
			r := p.tableRange(l)
			if r.lo != nil && p.signGE(sub(d, sub(l, bignum(r.lo)))) == 1 {
				return true
			}
			if r.hi != nil && p.signGE(sub(d, sub(bignum(r.hi), l))) == 1 {
				return true
			}
		}
	}
	return false
}

func (p *presolver) byAtom(a *Term) map[*Term]bool {
	out := map[*Term]bool{}
	for _, m := range []map[*Term][]pBound{p.lo, p.hi} {
		for l := range m {
			if l.op != "lin" {
				continue
			}
			for _, x := range l.args {
				if x == a {
					out[l] = true
				}
			}
		}
	}
	return out
}

func (p *presolver) origin(t *Term) (wrapOrigin, bool) {
	if o, ok := p.wr[t]; ok {
		return o, true
	}
	o, ok := wrapped[t]
	return o, ok
}

// ---- simplification of terms

func (p *presolver) simp(t *Term) *Term {
	if len(t.args) == 0 && len(p.m[t]) == 0 {
		return t
	}
	if r, ok := p.memo[t]; ok {
		return r
	}
	if p.steps++; p.steps > 400000 {
		return t
	}
	r := p.simp1(t)
	p.memo[t] = r
	return r
}

func (p *presolver) simp1(t *Term) *Term {
	if r := p.lookup(t); r != nil {
		return p.simp(r)
	}
	if len(t.args) == 0 {
		return t
	}
	r := p.simpArgs(t)
	for i := 0; i < 12 && r != nil; i++ {
		if len(r.args) == 0 && len(p.m[r]) == 0 {
			return r
		}
		if x := p.lookup(r); x != nil {
			return p.simp(x)
		}
		n := p.rules(r)
		if n == r {
			return r
		}
		if x, ok := p.memo[n]; ok {
			return x
		}
		// the parts of the new term may be new
		if len(n.args) > 0 {
			n = p.simpArgs(n)
		}
		r = n
	}
	return r
}

func (p *presolver) simpArgs(t *Term) *Term {
	if o, ok := p.origin(t); ok && t.op == "ite" && o.t != nil {
		x := p.simp(o.x)
		if y, ok := p.origin(x); ok && y.bits >= o.bits {
			x = y.x
		}
		lo, hi, bits, signed := intRange(o.t)
		if r := p.rangeOf(x, 0); r.lo != nil && r.hi != nil && r.lo.Cmp(lo) >= 0 && r.hi.Cmp(hi) <= 0 {
			return x
		}
		w := wrap0(x, lo, hi, bits, signed)
		if w.op == "ite" {
			w2 := ite(p.simp(w.args[0]), p.simp(w.args[1]), p.simp(w.args[2]))
			p.wr[w2] = wrapOrigin{x, bits, o.t}
			return w2
		}
		return w
	}
	if t.op == "forall" || t.op == "exists" {
		b := p.simp(t.args[0])
		if b == t.args[0] {
			return t
		}
		if b == tTrue || b == tFalse {
			return b
		}
		var q *Term
		var bounds []*Term
		for _, v := range t.vars {
			q = boundOf(v)
			bounds = append(bounds, q)
		}
		var pats []*Term
		if len(bounds) == 1 {
			pats = patterns(b, q)
		}
		return mkFull(sBool, t.op, []*Term{b}, nil, nil, t.vars, pats)
	}
	ch := false
	as := make([]*Term, len(t.args))
	for i, a := range t.args {
		as[i] = p.simp(a)
		if as[i] != a {
			ch = true
		}
	}
	if !ch {
		return t
	}
	return rebuild(t, as)
}

func boundOf(v string) *Term {
	for i := 0; i < len(v); i++ {
		if v[i] == ' ' {
			return boundVar(v[:i], v[i+1:])
		}
	}
	return nil
}

func (p *presolver) rules(t *Term) *Term {
	switch t.op {
	case "not":
		a := t.args[0]
		switch a.op {
		case "<":
			return le(a.args[1], a.args[0])
		case "<=":
			return lt(a.args[1], a.args[0])
		}
	case "<", "<=":
		d := sub(t.args[1], t.args[0])
		if t.op == "<" {
			d = sub(d, num(1))
		}
		switch p.signGE(d) {
		case 1:
			return tTrue
		case -1:
			return tFalse
		}
		if p.isGE2(d, num(0)) {
			return tTrue
		}
		if p.isGE2(sub(num(-1), d), num(0)) {
			return tFalse
		}
		l, k, lower := normGE(d)
		if l == nil {
			return t
		}
		if lower {
			return le(bignum(k), l)
		}
		return le(l, bignum(k))
	case "=":
		return p.equation(t, false)
	case "seq.eq":
		return p.equation(t, true)
	case "and":
		// a conjunct may contradict another one only syntactically; that is done by the constructor
	case "=>":
		return t
	case "ite":
		if r := p.lookup(t.args[0]); r != nil {
			return ite(r, t.args[1], t.args[2])
		}
	case "mod":
		if t.args[1].isNum() && t.args[1].val.Sign() > 0 {
			r := p.rangeOf(t.args[0], 0)
			if r.lo != nil && r.hi != nil && r.lo.Sign() >= 0 && r.hi.Cmp(t.args[1].val) < 0 {
				return t.args[0]
			}
		}
	case "div":
		if t.args[1].isNum() && t.args[1].val.Sign() > 0 {
			r := p.rangeOf(t.args[0], 0)
			if r.lo != nil && r.hi != nil && r.lo.Sign() >= 0 && r.hi.Cmp(t.args[1].val) < 0 {
				return num(0)
			}
		}
	case "dec16", "dec32":
		a := t.args[0]
		be, lim := "be16", two16
		if t.op == "dec32" {
			be, lim = "be32", two32
		}
		if str, ok := a.litString(); ok && len(str) == map[string]int{"be16": 2, "be32": 4}[be] {
			return bignum(new(big.Int).SetBytes([]byte(str)))
		}
		if a.op == be {
			r := p.rangeOf(a.args[0], 0)
			if r.lo != nil && r.hi != nil && r.lo.Sign() >= 0 && r.hi.Cmp(lim) < 0 {
				return a.args[0]
			}
		}
	case "be16", "be32":
		a := t.args[0]
		n := int64(2)
		if t.op == "be32" {
			n = 4
		}
		if (a.op == "dec16" && n == 2 || a.op == "dec32" && n == 4) && p.lenIs(a.args[0], n) {
			return a.args[0]
		}
		if a.isNum() && a.val.Sign() >= 0 && a.val.BitLen() <= int(8*n) {
			b := make([]byte, n)
			v := a.val.Uint64()
			for i := range b {
				b[i] = byte(v >> (8 * (uint(n) - 1 - uint(i))))
			}
			return lit(string(b))
		}
	case "len":
		s := t.args[0]
		switch s.op {
		case "take":
			if p.isGE2(s.args[1], num(0)) && p.isGE2(p.len(s.args[0]), s.args[1]) {
				return s.args[1]
			}
		case "drop":
			if p.isGE2(s.args[1], num(0)) && p.isGE2(p.len(s.args[0]), s.args[1]) {
				return sub(p.len(s.args[0]), s.args[1])
			}
		}
	case "take":
		return p.takeRule(t)
	case "drop":
		return p.dropRule(t)
	case "nth":
		return p.nthRule(t)
	case "cat":
		return p.catRule(t)
	case "sl", "slq":
		if b := t.args[0]; b.op == "bx" && t.op == "sl" || b.op == "bxq" && t.op == "slq" {
			return b.args[0]
		}
	case "nilp":
		if b := t.args[0]; b.op == "bx" || b.op == "bxq" {
			return b.args[1]
		}
	case "hasNul", "firstNul":
		s := t.args[0]
		off := num(0)
		var parts []*Term
		if s.op == "cat" {
			parts = s.args
		} else {
			parts = []*Term{s}
		}
		for _, a := range parts {
			if str, ok := a.litString(); ok {
				for i := 0; i < len(str); i++ {
					if str[i] == 0 {
						if t.op == "hasNul" {
							return tTrue
						}
						return add(off, num(int64(i)))
					}
				}
			} else if len(parts) > 1 && p.simp(mk(sBool, "hasNul", a)) == tFalse {
			} else {
				return t
			}
			off = add(off, p.len(a))
		}
		if t.op == "hasNul" && s.op != "take" && (s.op == "lit" || s.op == "empty" || len(parts) > 1) {
			return tFalse
		}
		if s.op == "take" && t.op == "hasNul" && s.args[1].op == "firstNul" && s.args[1].args[0] == s.args[0] && p.simp(mk(sBool, "hasNul", s.args[0])) == tTrue {
			return tFalse
		}
	}
	if f := flats[t.op]; f != nil {
		return p.flatRule(f, t)
	}
	return t
}

func (p *presolver) len(s *Term) *Term { return p.simp(slen(s)) }
func (p *presolver) lenIs(s *Term, n int64) bool {
	l := p.len(s)
	return l.isNum() && l.int64() == n
}

func (p *presolver) takeRule(t *Term) *Term {
	s, n := t.args[0], t.args[1]
	if n.isNum() && n.val.Sign() == 0 {
		return empty(s.sort)
	}
	if p.len(s) == n {
		return s
	}
	switch s.op {
	case "take":
		if p.isGE2(n, num(0)) && p.isGE2(s.args[1], n) && p.isGE2(p.len(s.args[0]), s.args[1]) {
			return take(s.args[0], n)
		}
	case "upd":
		i := s.args[1]
		if p.isGE2(n, num(0)) && p.isGE2(i, n) && p.isGE2(p.len(s), n) {
			return take(s.args[0], n)
		}
		if p.isGE2(i, num(0)) && sub(n, i) == num(1) && p.isGE2(p.len(s), n) && p.elemOK(s, s.args[2]) {
			return cat(take(s.args[0], i), unitOf(s.sort, s.args[2]))
		}
	case "cat":
		off := num(0)
		for i, a := range s.args {
			l := p.len(a)
			d := sub(n, off)
			if !p.isGE2(d, l) {
				if p.isGE2(l, d) && p.isGE2(d, num(0)) {
					out := append([]*Term{}, s.args[:i]...)
					return cat(append(out, take(a, d))...)
				}
				if i > 0 && p.isGE2(d, num(0)) {
					out := append([]*Term{}, s.args[:i]...)
					rest := cat(s.args[i:]...)
					if p.isGE2(p.len(rest), d) {
						return cat(append(out, take(rest, d))...)
					}
				}
				return t
			}
			off = add(off, l)
		}
		if p.simp(off) == n {
			return s
		}
	}
	return t
}

func (p *presolver) elemOK(s, v *Term) bool {
	if s.sort != sBy {
		return true
	}
	r := p.rangeOf(v, 0)
	return r.lo != nil && r.hi != nil && r.lo.Sign() >= 0 && r.hi.Cmp(big.NewInt(255)) <= 0
}

func (p *presolver) dropRule(t *Term) *Term {
	s, n := t.args[0], t.args[1]
	if n.isNum() && n.val.Sign() == 0 {
		return s
	}
	if p.len(s) == n {
		return empty(s.sort)
	}
	switch s.op {
	case "drop":
		if p.isGE2(n, num(0)) && p.isGE2(s.args[1], num(0)) && p.isGE2(p.len(s.args[0]), add(s.args[1], n)) {
			return drop(s.args[0], add(s.args[1], n))
		}
	case "take":
		if p.isGE2(n, num(0)) && p.isGE2(s.args[1], n) && p.isGE2(p.len(s.args[0]), s.args[1]) {
			return take(drop(s.args[0], n), sub(s.args[1], n))
		}
	case "upd":
		i := s.args[1]
		if p.isGE2(i, num(0)) && p.isGE2(n, add(i, num(1))) && p.isGE2(p.len(s), n) {
			return drop(s.args[0], n)
		}
	case "cat":
		off := num(0)
		for i, a := range s.args {
			l := p.len(a)
			d := sub(n, off)
			if !p.isGE2(d, l) {
				if p.isGE2(l, d) && p.isGE2(d, num(0)) {
					return cat(append([]*Term{drop(a, d)}, s.args[i+1:]...)...)
				}
				if i > 0 && p.isGE2(d, num(0)) {
					rest := cat(s.args[i:]...)
					if p.isGE2(p.len(rest), d) {
						return drop(rest, d)
					}
				}
				return t
			}
			off = add(off, l)
		}
	}
	return t
}

func (p *presolver) nthRule(t *Term) *Term {
	s, i := t.args[0], t.args[1]
	switch s.op {
	case "take":
		if p.isGE2(i, num(0)) && p.isGE2(s.args[1], add(i, num(1))) && p.isGE2(p.len(s.args[0]), s.args[1]) {
			return nth(s.args[0], i)
		}
	case "drop":
		if p.isGE2(i, num(0)) && p.isGE2(s.args[1], num(0)) && p.isGE2(p.len(s.args[0]), add(s.args[1], i, num(1))) {
			return nth(s.args[0], add(i, s.args[1]))
		}
	case "upd":
		j := s.args[1]
		if i == j {
			if p.isGE2(i, num(0)) && p.isGE2(p.len(s), add(i, num(1))) && p.elemOK(s, s.args[2]) {
				return s.args[2]
			}
		} else if (p.isGE2(i, add(j, num(1))) || p.isGE2(j, add(i, num(1)))) && p.isGE2(i, num(0)) && p.isGE2(p.len(s), add(i, num(1))) {
			return nth(s.args[0], i)
		}
	case "unit":
		if i.isNum() && i.val.Sign() == 0 && p.elemOK(s, s.args[0]) {
			return s.args[0]
		}
	case "cat":
		off := num(0)
		for k, a := range s.args {
			l := p.len(a)
			d := sub(i, off)
			if p.isGE2(d, l) {
				off = add(off, l)
				continue
			}
			if p.isGE2(l, add(d, num(1))) && p.isGE2(d, num(0)) {
				return nth(a, d)
			}
			if k > 0 && p.isGE2(d, num(0)) {
				return nth(cat(s.args[k:]...), d)
			}
			return t
		}
	}
	return t
}

// catRule joins take(s,n) ++ drop(s,n).
func (p *presolver) catRule(t *Term) *Term {
	for i := 0; i+1 < len(t.args); i++ {
		a, b := t.args[i], t.args[i+1]
		var j *Term
		if a.op == "take" && b.op == "drop" {
			s, n := a.args[0], a.args[1]
			if s == b.args[0] && n == b.args[1] && p.isGE2(n, num(0)) && p.isGE2(p.len(s), n) {
				j = s
			} else if s.op == "drop" && s.args[0] == b.args[0] && add(s.args[1], n) == b.args[1] && p.isGE2(s.args[1], num(0)) && p.isGE2(n, num(0)) && p.isGE2(p.len(b.args[0]), b.args[1]) {
				j = s
			}
		}
		if j == nil && a.op == "take" && b.op == "take" && b.args[0].op == "drop" {
			s, n := a.args[0], a.args[1]
			d, k := b.args[0], b.args[1]
			if s == d.args[0] && n == d.args[1] && p.isGE2(n, num(0)) && p.isGE2(k, num(0)) && p.isGE2(p.len(s), add(n, k)) {
				j = take(s, add(n, k))
			}
		}
		if j != nil {
			as := append([]*Term{}, t.args[:i]...)
			as = append(as, j)
			return cat(append(as, t.args[i+2:]...)...)
		}
	}
	return t
}

// flatRule unrolls a flat function at the ends that are known to exist.
func (p *presolver) flatRule(f *Flat, t *Term) *Term {
	s := t.args[0]
	switch s.op {
	case "empty", "cat", "unit":
		return mkFlat(f, s)
	case "take":
		q, n := s.args[0], s.args[1]
		c := big.NewInt(0)
		if n.op == "lin" {
			c = n.val
		} else if n.isNum() {
			c = n.val
		}
		if c.Sign() > 0 && c.Cmp(big.NewInt(16)) <= 0 && p.isGE2(n, num(1)) && p.isGE2(p.len(q), n) {
			return cat(mkFlat(f, take(q, sub(n, num(1)))), f.at(nth(q, sub(n, num(1)))))
		}
	case "drop":
		q, n := s.args[0], s.args[1]
		if p.isGE2(n, num(0)) && p.isGE2(p.len(q), add(n, num(1))) && (!n.isNum() || n.val.Cmp(big.NewInt(16)) < 0) {
			return cat(f.at(nth(q, n)), mkFlat(f, drop(q, add(n, num(1)))))
		}
	}
	if p.lenIs(s, 0) {
		return sEmpty
	}
	return t
}

// ---- equations

func (p *presolver) equation(t *Term, ext bool) *Term {
	a, b := t.args[0], t.args[1]
	mkEq := func(x, y *Term) *Term {
		if isSeqSort(x.sort) && ext {
			return seqEq(x, y)
		}
		return eq(x, y)
	}
	if a.sort == sInt {
		d := sub(a, b)
		r := p.rangeOf(d, 0)
		if (r.lo != nil && r.lo.Sign() > 0) || (r.hi != nil && r.hi.Sign() < 0) {
			return tFalse
		}
		if r.lo != nil && r.hi != nil && r.lo.Sign() == 0 && r.hi.Sign() == 0 {
			return tTrue
		}
		// the wrapped values of integers in one period
		x, okx := p.origin(a)
		y, oky := p.origin(b)
		if okx && oky && x.bits == y.bits && x.t != nil && y.t != nil && sameInt(x, y) {
			rx, ry := p.rangeOf(x.x, 0), p.rangeOf(y.x, 0)
			j := rx
			if rx.lo != nil && ry.lo != nil && rx.hi != nil && ry.hi != nil {
				if ry.lo.Cmp(j.lo) < 0 {
					j.lo = ry.lo
				}
				if ry.hi.Cmp(j.hi) > 0 {
					j.hi = ry.hi
				}
				if new(big.Int).Sub(j.hi, j.lo).Cmp(pow2(x.bits)) < 0 {
					return eq(x.x, y.x)
				}
			}
		}
		for k := 0; k < 2; k++ {
			if okx && x.t != nil && b.isNum() {
				// wrap(x) = n
				rx := p.rangeOf(x.x, 0)
				if rx.lo != nil && rx.hi != nil && new(big.Int).Sub(rx.hi, rx.lo).Cmp(pow2(x.bits)) < 0 {
					v := new(big.Int).Sub(b.val, rx.lo)
					v.Mod(v, pow2(x.bits))
					v.Add(v, rx.lo)
					return and(rangeOfType(b, x), eq(x.x, bignum(v)))
				}
			}
			a, b = b, a
			x, okx, y, oky = y, oky, x, okx
		}
		if d.op == "lin" && (a.isNum() || b.isNum() || a.op == "lin" || b.op == "lin") {
			// divide by the common factor
			l, k, lower := normGE(d)
			l2, k2, _ := normGE(neg(d))
			if l == l2 && l != nil {
				if k.Cmp(k2) != 0 {
					return tFalse
				}
				_ = lower
				return eq(l, bignum(k))
			}
		}
		return t
	}
	if !isSeqSort(a.sort) {
		return t
	}
	la, lb := p.len(a), p.len(b)
	if dl := sub(la, lb); dl.isNum() && dl.val.Sign() != 0 {
		return tFalse
	} else {
		r := p.rangeOf(dl, 0)
		if (r.lo != nil && r.lo.Sign() > 0) || (r.hi != nil && r.hi.Sign() < 0) {
			return tFalse
		}
	}
	if (a.op == "be16" || a.op == "be32") && a.op == b.op {
		lim := two16
		if a.op == "be32" {
			lim = two32
		}
		in := func(x *Term) bool {
			r := p.rangeOf(x, 0)
			return r.lo != nil && r.hi != nil && r.lo.Sign() >= 0 && r.hi.Cmp(lim) < 0
		}
		if in(a.args[0]) && in(b.args[0]) {
			return eq(a.args[0], b.args[0])
		}
		return t
	}
	for k := 0; k < 2; k++ {
		if (a.op == "be16" || a.op == "be32") && b.op == "lit" {
			str, _ := b.litString()
			v := new(big.Int).SetBytes([]byte(str))
			r := p.rangeOf(a.args[0], 0)
			lim := two16
			if a.op == "be32" {
				lim = two32
			}
			if r.lo != nil && r.hi != nil && r.lo.Sign() >= 0 && r.hi.Cmp(lim) < 0 && len(str) == map[string]int{"be16": 2, "be32": 4}[a.op] {
				return eq(a.args[0], bignum(v))
			}
		}
		if a.op == "unit" && p.elemOK(a, a.args[0]) {
			if b.op == "unit" && p.elemOK(b, b.args[0]) {
				return eq(a.args[0], b.args[0])
			}
			if str, ok := b.litString(); ok && len(str) == 1 {
				return eq(a.args[0], num(int64(str[0])))
			}
			if p.lenIs(b, 1) && b.op != "unit" && b.op != "lit" {
				return eq(a.args[0], nth(b, num(0)))
			}
		}
		a, b = b, a
	}
	// split equal prefixes and suffixes
	pa, pb := partsOf(a), partsOf(b)
	if len(pa) == 1 && len(pb) == 1 {
		return t
	}
	var conj []*Term
	changed := false
	for len(pa) > 0 && len(pb) > 0 {
		x, y := pa[0], pb[0]
		if x == y {
			pa, pb = pa[1:], pb[1:]
			changed = true
			continue
		}
		if len(pa) == 1 && len(pb) == 1 {
			break
		}
		lx, ly := p.len(x), p.len(y)
		if lx == ly {
			conj = append(conj, mkEq(x, y))
			pa, pb = pa[1:], pb[1:]
			changed = true
			continue
		}
		if lx.isNum() && ly.isNum() {
			// split the longer one when it is a literal
			if s, ok := x.litString(); ok && ly.int64() < lx.int64() {
				n := ly.int64()
				conj = append(conj, mkEq(lit(s[:n]), y))
				pa = append([]*Term{lit(s[n:])}, pa[1:]...)
				pb = pb[1:]
				changed = true
				continue
			}
			if s, ok := y.litString(); ok && lx.int64() < ly.int64() {
				n := lx.int64()
				conj = append(conj, mkEq(x, lit(s[:n])))
				pb = append([]*Term{lit(s[n:])}, pb[1:]...)
				pa = pa[1:]
				changed = true
				continue
			}
		}
		break
	}
	for len(pa) > 0 && len(pb) > 0 {
		x, y := pa[len(pa)-1], pb[len(pb)-1]
		if x == y {
			pa, pb = pa[:len(pa)-1], pb[:len(pb)-1]
			changed = true
			continue
		}
		if len(pa) == 1 && len(pb) == 1 {
			break
		}
		if p.len(x) == p.len(y) {
			conj = append(conj, mkEq(x, y))
			pa, pb = pa[:len(pa)-1], pb[:len(pb)-1]
			changed = true
			continue
		}
		break
	}
	if !changed {
		return t
	}
	s := a.sort
	conj = append(conj, mkEq(cat(append([]*Term{empty(s)}, pa...)...), cat(append([]*Term{empty(s)}, pb...)...)))
	return and(conj...)
}

func sameInt(x, y wrapOrigin) bool {
	a, _, _, _ := intRange(x.t)
	b, _, _, _ := intRange(y.t)
	return a.Cmp(b) == 0
}

func rangeOfType(n *Term, o wrapOrigin) *Term {
	lo, hi, _, _ := intRange(o.t)
	return and(le(bignum(lo), n), le(n, bignum(hi)))
}

func partsOf(t *Term) []*Term {
	if t.op == "cat" {
		return append([]*Term{}, t.args...)
	}
	if t.op == "empty" {
		return nil
	}
	return []*Term{t}
}

// ---- facts

func interpretedOp(t *Term) bool {
	switch t.op {
	case "num", "lin", "*", "div", "mod", "true", "false", "not", "and", "or", "=>", "=", "<", "<=", "ite", "forall", "exists", "bound",
		"lit", "empty", "cat", "take", "drop", "upd", "unit", "zeros", "be16", "be32", "dec16", "dec32", "store", "constarr", "seq.eq", "bx", "bxq":
		return true
	}
	return false
}

// atomRank: how eagerly an equation is solved for the term; 0 never.
func atomRank(t *Term) int {
	if t.free || interpretedOp(t) || distinctConst(t) || flats[t.op] != nil {
		return 0
	}
	if len(t.args) == 0 {
		return 3
	}
	switch t.op {
	case "len", "nth", "firstNul", "hasNul", "nilp":
		return 1
	}
	return 2
}

func occurs(a, t *Term) bool {
	seen := map[*Term]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if t == a {
			return true
		}
		if seen[t] || t.size < a.size {
			return false
		}
		seen[t] = true
		for _, x := range t.args {
			if rec(x) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

// rhsRank prefers to replace an atom by something explicit.
func explicit(t *Term) int {
	switch t.op {
	case "num", "lit", "empty", "true", "false":
		return 4
	case "cat", "be16", "be32", "unit", "bx", "bxq":
		return 3
	case "take", "drop":
		return 1
	}
	return 2
}

func (p *presolver) orient(t *Term) (l, r *Term) {
	a, b := t.args[0], t.args[1]
	if a.sort == sBool {
		return nil, nil
	}
	if a.sort == sInt {
		// solve the linear equation for an atom with coefficient 1 or -1
		d := toLin(sub(a, b))
		var as []*Term
		for x := range d.m {
			as = append(as, x)
		}
		sort.Slice(as, func(i, j int) bool { return as[i].id > as[j].id })
		best, bestR := (*Term)(nil), 0
		for _, x := range as {
			if !d.m[x].IsInt64() || (d.m[x].Int64() != 1 && d.m[x].Int64() != -1) {
				continue
			}
			rk := atomRank(x)
			if rk == 0 {
				continue
			}
			ok := true
			for _, y := range as {
				if y != x && occurs(x, y) {
					ok = false
				}
			}
			// long sums are not substituted into applications
			if rk < 3 && len(as) > 3 {
				ok = false
			}
			if ok && rk > bestR {
				best, bestR = x, rk
			}
		}
		if best == nil {
			return nil, nil
		}
		rest := lin{new(big.Int).Set(d.c), map[*Term]*big.Int{}}
		for x, c := range d.m {
			if x != best {
				rest.m[x] = c
			}
		}
		r := rest.term()
		if d.m[best].Sign() > 0 {
			r = neg(r)
		}
		return best, r
	}
	ra, rb := atomRank(a), atomRank(b)
	if ra > 0 && occurs(a, b) {
		ra = 0
	}
	if rb > 0 && occurs(b, a) {
		rb = 0
	}
	switch {
	case ra == 0 && rb == 0:
		return nil, nil
	case ra > rb:
		return a, b
	case rb > ra:
		return b, a
	}
	if a.id > b.id {
		return a, b
	}
	return b, a
}

func (p *presolver) push(t *Term) { p.queue = append(p.queue, relaxEq(t, true)) }

// addFact puts a simplified fact into the active set.
func (p *presolver) addFact(t *Term) {
	if t == tTrue {
		return
	}
	if t == tFalse {
		p.false = true
		return
	}
	if t.op == "and" {
		for _, a := range t.args {
			p.push(a)
		}
		return
	}
	if t.op == "not" && t.args[0].op == "or" {
		for _, a := range t.args[0].args {
			p.push(not(a))
		}
		return
	}
	if t.op == "not" && t.args[0].op == "=>" {
		p.push(t.args[0].args[0])
		p.push(not(t.args[0].args[1]))
		return
	}
	f := &pFact{t: t}
	p.facts = append(p.facts, f)
	set := func(k, v *Term) {
		p.m[k] = append(p.m[k], pEntry{v, f})
		f.keys = append(f.keys, k)
	}
	switch {
	case t.op == "=" && t.args[0].sort != sBool:
		if l, r := p.orient(t); l != nil {
			set(l, r)
			f.app = true
			if len(l.args) == 0 {
				f.app = false
			}
			if t.args[0].sort == sInt {
				d := sub(t.args[0], t.args[1])
				p.bound(f, d)
				p.bound(f, neg(d))
				if b, ok := bounds(l); ok {
					p.push(le(bignum(b.lo), r))
					p.push(le(r, bignum(b.hi)))
				}
			}
		} else {
			set(t, tTrue)
			if t.args[0].sort == sInt {
				d := sub(t.args[0], t.args[1])
				p.bound(f, d)
				p.bound(f, neg(d))
			}
		}
	case t.op == "<=":
		set(t, tTrue)
		p.bound(f, sub(t.args[1], t.args[0]))
	case t.op == "<":
		set(t, tTrue)
		p.bound(f, sub(sub(t.args[1], t.args[0]), num(1)))
	case t.op == "not":
		set(t.args[0], tFalse)
		if t.args[0].op == "=" && t.args[0].args[0].sort == sInt {
			// a bound may become strict
			a, b := t.args[0].args[0], t.args[0].args[1]
			d := sub(a, b)
			if p.signGE(d) == 1 {
				p.bound(f, sub(d, num(1)))
			} else if p.signGE(neg(d)) == 1 {
				p.bound(f, sub(neg(d), num(1)))
			}
		}
	default:
		set(t, tTrue)
	}
	p.memo = map[*Term]*Term{}
}

func (p *presolver) bound(f *pFact, d *Term) {
	l, k, lower := normGE(d)
	if l == nil {
		return
	}
	if lower {
		p.lo[l] = append(p.lo[l], pBound{k, f})
	} else {
		p.hi[l] = append(p.hi[l], pBound{k, f})
	}
	if f.t.op != "=" {
		if r := p.rangeOf(l, 0); r.lo != nil && r.hi != nil && r.lo.Cmp(r.hi) == 0 {
			p.push(eq(l, bignum(r.lo)))
		}
	}
}

func (p *presolver) kill(f *pFact) {
	f.dead = true
	p.memo = map[*Term]*Term{}
}

// simpFact simplifies an active fact with the other ones.
func (p *presolver) simpFact(f *pFact) *Term {
	p.self = f
	defer func() { p.self = nil }()
	t := f.t
	if t.op == "=" && t.args[0].sort != sBool && len(f.keys) == 1 && f.keys[0] != t {
		// an oriented equation: the left side keeps its own entry
		l := f.keys[0]
		if p.lookup(l) == nil {
			var nl *Term = l
			if len(l.args) > 0 {
				as := make([]*Term, len(l.args))
				for i, a := range l.args {
					as[i] = p.simpNoMemo(a)
				}
				nl = rebuild(l, as)
			}
			_, r := p.orientFor(t, l)
			nr := p.simpNoMemo(r)
			if nl == l && nr == r {
				return t
			}
			e := eq(nl, nr)
			if e.op == "=" {
				e = p.rules(e)
			}
			return e
		}
	}
	var body *Term
	neg := false
	if t.op == "not" {
		body, neg = t.args[0], true
	} else {
		body = t
	}
	if len(body.args) == 0 {
		return t
	}
	r := p.simpTop(body)
	if neg {
		r = not(r)
		if r.op == "not" {
			r = p.rules(r)
		}
	}
	return r
}

// memo entries computed while a fact is hidden are not reused
func (p *presolver) simpNoMemo(t *Term) *Term {
	return p.simp(t)
}

func (p *presolver) orientFor(t, l *Term) (*Term, *Term) {
	a, b := t.args[0], t.args[1]
	if a.sort != sInt {
		if a == l {
			return a, b
		}
		return b, a
	}
	d := toLin(sub(a, b))
	rest := lin{new(big.Int).Set(d.c), map[*Term]*big.Int{}}
	for x, c := range d.m {
		if x != l {
			rest.m[x] = c
		}
	}
	r := rest.term()
	if c, ok := d.m[l]; ok && c.Sign() > 0 {
		r = neg(r)
	}
	return l, r
}

func (p *presolver) simpTop(t *Term) *Term {
	r := p.simpArgs(t)
	for i := 0; i < 12; i++ {
		if r != t {
			if x := p.lookup(r); x != nil {
				return x
			}
		}
		if len(r.args) == 0 {
			return r
		}
		n := p.rules(r)
		if n == r {
			return r
		}
		if len(n.args) > 0 {
			n = p.simpArgs(n)
		}
		r = n
	}
	return r
}

func (p *presolver) saturate() {
	for round := 0; round < 12; round++ {
		for len(p.queue) > 0 && !p.false {
			t := p.queue[0]
			p.queue = p.queue[1:]
			if t.op == "and" {
				p.queue = append(append([]*Term{}, t.args...), p.queue...)
				continue
			}
			p.addFact(p.simp(t))
		}
		if p.false {
			return
		}
		changed := false
		for i := 0; i < len(p.facts) && !p.false; i++ {
			f := p.facts[i]
			if f.dead {
				continue
			}
			if p.steps > 400000 {
				return
			}
			n := p.simpFact(f)
			// the memo was filled while the fact was hidden; that only weakens it
			if n == f.t {
				continue
			}
			p.kill(f)
			changed = true
			p.addFact(n)
			for len(p.queue) > 0 && !p.false {
				t := p.queue[0]
				p.queue = p.queue[1:]
				if t.op == "and" {
					p.queue = append(append([]*Term{}, t.args...), p.queue...)
					continue
				}
				p.addFact(p.simp(t))
			}
		}
		var live []*pFact
		for _, f := range p.facts {
			if !f.dead {
				live = append(live, f)
			}
		}
		p.facts = live
		p.memo = map[*Term]*Term{}
		if !changed && len(p.queue) == 0 {
			return
		}
	}
}

// instantiate adds the instances of the universal facts for the ground terms that match one of their selections.
func (p *presolver) instantiate(goals []*Term) {
	ground := map[*Term][]*Term{} // sequence or array -> indices
	vis := map[*Term]bool{}
	apps := map[string][]*Term{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if vis[t] {
			return
		}
		vis[t] = true
		if (t.op == "nth" || t.op == "select") && !t.free {
			ground[t.args[0]] = append(ground[t.args[0]], t.args[1])
		} else if !t.free && len(t.args) == 1 && !interpretedOp(t) {
			apps[t.op] = append(apps[t.op], t.args[0])
		}
		for _, a := range t.args {
			rec(a)
		}
	}
	for _, f := range p.facts {
		rec(f.t)
	}
	for _, g := range goals {
		rec(g)
	}
	n := 0
	for _, f := range p.facts {
		if f.t.op != "forall" || len(f.t.vars) != 1 || f.inst {
			continue
		}
		f.inst = true
		q := boundOf(f.t.vars[0])
		insts := map[*Term]bool{}
		var order []*Term
		v2 := map[*Term]bool{}
		var find func(t *Term)
		find = func(t *Term) {
			if v2[t] || !t.free {
				return
			}
			v2[t] = true
			if (t.op == "nth" || t.op == "select") && t.args[1] == q && !t.args[0].free {
				for _, i := range ground[t.args[0]] {
					if !insts[i] && i.sort == q.sort {
						insts[i] = true
						order = append(order, i)
					}
				}
			}
			for _, a := range t.args {
				find(a)
			}
		}
		find(f.t.args[0])
		for _, i := range order {
			if n++; n > 60 {
				return
			}
			p.push(subst(f.t.args[0], map[*Term]*Term{q: i}))
		}
	}
}

// splitGoal turns a goal into several with their own hypotheses.
type subgoal struct {
	hyps []*Term
	goal *Term
}

func splitGoal(g *Term, hyps []*Term, out *[]subgoal) {
	switch g.op {
	case "true":
		return
	case "and":
		for _, a := range g.args {
			splitGoal(a, hyps, out)
		}
		return
	case "=>":
		h := append(append([]*Term{}, hyps...), g.args[0])
		splitGoal(g.args[1], h, out)
		return
	case "forall":
		m := map[*Term]*Term{}
		for _, v := range g.vars {
			q := boundOf(v)
			m[q] = fresh("sk", q.sort)
		}
		splitGoal(subst(g.args[0], m), hyps, out)
		return
	case "not":
		if a := g.args[0]; a.op == "or" {
			for _, x := range a.args {
				splitGoal(not(x), hyps, out)
			}
			return
		} else if a.op == "=>" {
			splitGoal(a.args[0], hyps, out)
			splitGoal(not(a.args[1]), hyps, out)
			return
		}
	case "or":
		// the other disjuncts are refuted hypotheses; the last one is the goal
		h := append([]*Term{}, hyps...)
		last := g.args[len(g.args)-1]
		for _, x := range g.args[:len(g.args)-1] {
			h = append(h, not(x))
		}
		splitGoal(last, h, out)
		return
	case "=":
		if g.args[0].sort == sBool {
			splitGoal(implies(g.args[0], g.args[1]), hyps, out)
			splitGoal(implies(g.args[1], g.args[0]), hyps, out)
			return
		}
	case "ite":
		splitGoal(implies(g.args[0], g.args[1]), hyps, out)
		splitGoal(implies(not(g.args[0]), g.args[2]), hyps, out)
		return
	}
	*out = append(*out, subgoal{hyps, g})
}

// presolve returns the queries that are left of an obligation; an empty list means that it is proved.
func presolve(assumps []*Term, goal *Term) []subgoal {
	var parts []subgoal
	splitGoal(goal, nil, &parts)
	var out []subgoal
	for _, sg := range parts {
		presolve1(assumps, sg, 0, &out)
	}
	return out
}

// splitOn finds a flat function of the rest of a sequence that may be empty or not.
func (p *presolver) splitOn(g *Term) *Term {
	var found *Term
	vis := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if vis[t] || found != nil {
			return
		}
		vis[t] = true
		if t.op == "ite" && isSeqSort(t.sort) && !t.args[0].free {
			found = t.args[0]
			return
		}
		if t.op == "nth" && t.args[0].op == "upd" && !t.free {
			found = p.simp(eq(t.args[1], t.args[0].args[1]))
			if found == tTrue || found == tFalse {
				found = nil
			}
			return
		}
		if flats[t.op] != nil && !t.free && t.args[0].op == "drop" {
			q, n := t.args[0].args[0], t.args[0].args[1]
			if p.isGE2(n, num(0)) && p.isGE2(p.len(q), n) && !p.isGE2(p.len(q), add(n, num(1))) {
				found = p.simp(le(p.len(q), n))
				if found == tTrue || found == tFalse {
					found = nil
				}
				return
			}
		}
		for _, a := range t.args {
			rec(a)
		}
	}
	rec(g)
	for _, f := range p.facts {
		rec(f.t)
	}
	return found
}

func presolve1(assumps []*Term, sg subgoal, depth int, out *[]subgoal) {
	p := newPresolver()
	for _, a := range assumps {
		p.push(a)
	}
	for _, a := range sg.hyps {
		p.push(a)
	}
	p.saturate()
	if p.false {
		return
	}
	g := p.simp(sg.goal)
	if g == tTrue {
		return
	}
	for i := 0; i < 2; i++ {
		p.instantiate([]*Term{g})
		if len(p.queue) == 0 {
			break
		}
		p.saturate()
		if p.false {
			return
		}
		g = p.simp(g)
		if g == tTrue {
			return
		}
	}
	split := (*Term)(nil)
	if depth < 3 {
		split = p.splitOn(g)
	}
	var fs []*Term
	for _, f := range p.facts {
		if f.dead {
			continue
		}
		if f.t.op == "=" && len(f.keys) == 1 && f.keys[0] != f.t && len(f.keys[0].args) == 0 {
			continue // eliminated constant
		}
		fs = append(fs, f.t)
	}
	if split != nil {
		presolve1(fs, subgoal{[]*Term{split}, g}, depth+1, out)
		presolve1(fs, subgoal{[]*Term{not(split)}, g}, depth+1, out)
		return
	}
	var parts []subgoal
	splitGoal(g, nil, &parts)
	for _, s := range parts {
		if depth < 2 && (len(parts) > 1 || len(s.hyps) > 0 || s.goal != g) {
			presolve1(fs, s, depth+1, out)
			continue
		}
		*out = append(*out, subgoal{append(append([]*Term{}, fs...), s.hyps...), s.goal})
	}
}
