package main

import (
	"fmt"
	"go/types"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

// Val is a symbolic Go value.
type Val interface{}

// Scalars (integers, booleans, strings, references into the symbolic heap, channels, opaque interfaces) are *Term.

// SliceVal is a slice. obj != nil: a window of a mutable local backing array; otherwise it is a value that nothing
// writes to anymore.
type SliceVal struct {
	seq  *Term
	nil_ *Term
	obj  int // object id, 0 if none
	off  *Term
	n    *Term // length of the window when obj != 0
	tok  int   // append-ownership token
	elem types.Type
}

// PtrVal points to (a part of) a local object.
type PtrVal struct {
	obj  int
	path []PathElem
}

type PathElem struct {
	field int   // struct field
	index *Term // element of an array or of the backing of a slice; nil for a field
}

// HeapPtr points to a field of an object of the symbolic heap.
type HeapPtr struct {
	ref   *Term
	strct types.Type // named struct type
	field int
	sub   []int // nested fields
}

// ElemPtr points to an element of an immutable slice.
type ElemPtr struct {
	seq  *Term
	idx  *Term
	elem types.Type
}

// GlobalPtr points to a package-level variable.
type GlobalPtr struct{ g *ssa.Global }

type StructVal struct {
	t  types.Type
	fs []Val
}

// ArrayVal is an array value; its elements are the sequence.
type ArrayVal struct {
	t   *types.Array
	seq *Term
}

// IfaceVal is an interface with a known dynamic type.
type IfaceVal struct {
	dyn types.Type
	v   Val
}

type FuncVal struct {
	fn   *ssa.Function
	bind []Val
	recv Val         // bound method on an interface value
	meth *types.Func // set with recv
	name string      // builtin or external function value
	term *Term       // identity if the function escaped
	sig  *types.Signature
}

type TupleVal []Val

// MapVal is a local map.
type MapVal struct {
	obj  int
	kt   types.Type
	vt   types.Type
	nil_ bool
}

// RTypeVal is a reflect.Type constant; RValueVal the result of reflect.New.
type RTypeVal struct{ t types.Type }
type RValueVal struct {
	t types.Type // pointer type
	v Val
}

// IterVal is the state of a range over a map or string.
type IterVal struct {
	m   Val
	id  int
	seq *Term
}

type Obj struct {
	id      int
	t       types.Type
	v       Val    // content; for backing arrays an ArrayVal-like sequence in seq
	backing bool   // backing array of slices: v is *Term (sequence)
	frozen  bool   // escaped: no writes
	ref     *Term  // reference after the object escaped
	name    string // name of the variable
	kind    string // "buffer", "map", "waitgroup", ...
	elem    types.Type
	prev    int  // the slice this one was appended to
	lend    int  // depth of the goroutine that may write it
	lent    bool // another goroutine writes it
	stale   bool // the content may have been changed through a slice that was appended to it
}

func (o *Obj) clone() *Obj { c := *o; return &c }

// ---- types

func under(t types.Type) types.Type { return t.Underlying() }

func isByteSlice(t types.Type) bool {
	s, ok := under(t).(*types.Slice)
	if !ok {
		return false
	}
	b, ok := under(s.Elem()).(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func isString(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func isBool(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func isInteger(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func seqSort(elem types.Type) string {
	if b, ok := under(elem).(*types.Basic); ok && b.Kind() == types.Uint8 {
		return sBy
	}
	return sSq
}

func sortOf(t types.Type) string {
	switch {
	case isBool(t):
		return sBool
	case isString(t):
		return sBy
	}
	return sInt
}

var (
	big1  = big.NewInt(1)
	two16 = pow2(16)
	two32 = pow2(32)
)

func pow2(n uint) *big.Int { return new(big.Int).Lsh(big1, n) }

func intRange(t types.Type) (lo, hi *big.Int, bits uint, signed bool) {
	b := under(t).(*types.Basic)
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt, types.UntypedRune:
		bits, signed = 64, true
	case types.Int32:
		bits, signed = 32, true
	case types.Int16:
		bits, signed = 16, true
	case types.Int8:
		bits, signed = 8, true
	case types.Uint, types.Uint64, types.Uintptr:
		bits = 64
	case types.Uint32:
		bits = 32
	case types.Uint16:
		bits = 16
	case types.Uint8:
		bits = 8
	default:
		bits, signed = 64, true
	}
	if signed {
		hi = new(big.Int).Sub(pow2(bits-1), big1)
		lo = new(big.Int).Neg(pow2(bits - 1))
	} else {
		lo = big.NewInt(0)
		hi = new(big.Int).Sub(pow2(bits), big1)
	}
	return
}

type interval struct{ lo, hi *big.Int }

var knownBounds = map[*Term]interval{}
var maxLen = pow2(48)

// fldTypes has the types of the fields behind the functions fld_T_f: their values are always in range.
var fldTypes = map[string]types.Type{}

func bounds(t *Term) (interval, bool) {
	if ft := fldTypes[t.op]; ft != nil && t.sort == sInt && isInteger(ft) {
		lo, hi, _, _ := intRange(ft)
		return interval{lo, hi}, true
	}
	if b, ok := knownBounds[t]; ok {
		return b, true
	}
	switch t.op {
	case "num":
		return interval{t.val, t.val}, true
	case "len":
		return interval{big.NewInt(0), maxLen}, true
	case "nth":
		if t.args[0].sort == sBy {
			return interval{big.NewInt(0), big.NewInt(255)}, true
		}
	case "dec16":
		return interval{big.NewInt(0), new(big.Int).Sub(two16, big1)}, true
	case "dec32":
		return interval{big.NewInt(0), new(big.Int).Sub(two32, big1)}, true
	case "mod":
		if t.args[1].isNum() {
			return interval{big.NewInt(0), new(big.Int).Sub(t.args[1].val, big1)}, true
		}
	case "div":
		if t.args[1].isNum() && t.args[1].val.Sign() > 0 {
			if b, ok := bounds(t.args[0]); ok {
				lo, hi := new(big.Int), new(big.Int)
				lo.DivMod(b.lo, t.args[1].val, new(big.Int))
				hi.DivMod(b.hi, t.args[1].val, new(big.Int))
				return interval{lo, hi}, true
			}
		}
	case "ite":
		a, ok := bounds(t.args[1])
		b, ok2 := bounds(t.args[2])
		if ok && ok2 {
			r := interval{a.lo, a.hi}
			if b.lo.Cmp(r.lo) < 0 {
				r.lo = b.lo
			}
			if b.hi.Cmp(r.hi) > 0 {
				r.hi = b.hi
			}
			return r, true
		}
	case "lin":
		lo, hi := new(big.Int).Set(t.val), new(big.Int).Set(t.val)
		for i, a := range t.args {
			b, ok := bounds(a)
			if !ok {
				return interval{}, false
			}
			x := new(big.Int).Mul(b.lo, t.coefs[i])
			y := new(big.Int).Mul(b.hi, t.coefs[i])
			if t.coefs[i].Sign() < 0 {
				x, y = y, x
			}
			lo.Add(lo, x)
			hi.Add(hi, y)
		}
		return interval{lo, hi}, true
	}
	return interval{}, false
}

func inRange(t *Term, lo, hi *big.Int) bool {
	b, ok := bounds(t)
	return ok && b.lo.Cmp(lo) >= 0 && b.hi.Cmp(hi) <= 0
}

// wrap converts a mathematical integer to the given integer type.
func wrap(x *Term, t types.Type) *Term {
	lo, hi, bits, signed := intRange(t)
	if o, ok := wrapped[x]; ok && o.bits >= bits {
		return wrap(o.x, t)
	}
	if inRange(x, lo, hi) {
		return x
	}
	w := wrap0(x, lo, hi, bits, signed)
	if w != x && !w.isNum() {
		wrapped[w] = wrapOrigin{x, bits, t}
	}
	return w
}

type wrapOrigin struct {
	x    *Term
	bits uint
	t    types.Type
}

// wrapped remembers the mathematical value of narrowed integers: narrowing further only depends on that value.
var wrapped = map[*Term]wrapOrigin{}

func wrap0(x *Term, lo, hi *big.Int, bits uint, signed bool) *Term {
	if x.isNum() {
		m := new(big.Int).Mod(x.val, pow2(bits))
		if signed && m.Cmp(hi) > 0 {
			m.Sub(m, pow2(bits))
		}
		return bignum(m)
	}
	// signed(u(x)) and unsigned(s(x)) of the same width
	in := and(le(bignum(lo), x), le(x, bignum(hi)))
	var w *Term
	if signed {
		h := bignum(pow2(bits - 1))
		w = sub(emod(add(x, h), bignum(pow2(bits))), h)
	} else {
		w = emod(x, bignum(pow2(bits)))
	}
	if b, ok := bounds(x); ok && b.hi.Cmp(new(big.Int).Add(hi, pow2(bits))) <= 0 && b.lo.Cmp(new(big.Int).Sub(lo, pow2(bits))) >= 0 {
		// at most one period away: no modulo is needed
		w = ite(lt(x, bignum(lo)), add(x, bignum(pow2(bits))), ite(lt(bignum(hi), x), sub(x, bignum(pow2(bits))), x))
		return w
	}
	return ite(in, x, w)
}

func freshInt(prefix string, t types.Type) *Term {
	c := fresh(prefix, sInt)
	lo, hi, _, _ := intRange(t)
	knownBounds[c] = interval{lo, hi}
	return c
}

// rangeFact is the type invariant of an integer.
func rangeFact(x *Term, t types.Type) *Term {
	if x.isNum() {
		return tTrue
	}
	lo, hi, _, _ := intRange(t)
	return and(le(bignum(lo), x), le(x, bignum(hi)))
}

func typeName(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

// typeID is the constant that identifies a dynamic type.
func typeID(t types.Type) *Term { return mkDistinct("T_" + sanitize(typeName(t))) }

func namedStruct(t types.Type) (*types.Struct, bool) {
	s, ok := under(t).(*types.Struct)
	return s, ok
}

func deref(t types.Type) types.Type {
	if p, ok := under(t).(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func errVal(v Val) string { return fmt.Sprintf("%T", v) }
