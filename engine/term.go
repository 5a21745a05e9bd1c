package main

import (
	"fmt"
	"math/bits"
	"sort"
)

// Terms: hash-consed bit-vector (w = 1..64) and Boolean (w = 0) expressions.
// Every constructor simplifies; the rules are local and sound for all values.

type Op uint8

const (
	OConst Op = iota // val
	OVar             // val = variable index
	OAdd             // bit-vector arithmetic
	OSub
	OMul
	OUDiv
	OURem
	OSDiv
	OSRem
	OAnd
	OOr
	OXor
	ONot
	OShl
	OLshr
	OAshr
	OConcat
	OExtract // val = hi<<8 | lo
	OIte     // a Boolean, b, c (bit-vectors or Booleans)
	// Booleans
	OTrue
	OFalse
	OEq
	OUlt
	OSlt
	OBNot
	OBAnd
	OBOr
)

type Term struct {
	id      int32
	op      Op
	w       uint8
	val     uint64
	a, b, c *Term
}

type termKey struct {
	op      Op
	w       uint8
	val     uint64
	a, b, c int32
}

// Ctx owns the terms of one job. It is not safe for concurrent use.
type Ctx struct {
	tab    map[termKey]*Term
	n      int32
	vars   []*Term
	vnames []string
	T, F   *Term
}

func NewCtx() *Ctx {
	c := &Ctx{tab: make(map[termKey]*Term, 1<<12)}
	c.T = c.mk(OTrue, 0, 0, nil, nil, nil)
	c.F = c.mk(OFalse, 0, 0, nil, nil, nil)
	return c
}

func tid(t *Term) int32 {
	if t == nil {
		return -1
	}
	return t.id
}

func (c *Ctx) mk(op Op, w uint8, val uint64, a, b, d *Term) *Term {
	k := termKey{op, w, val, tid(a), tid(b), tid(d)}
	if t := c.tab[k]; t != nil {
		return t
	}
	t := &Term{c.n, op, w, val, a, b, d}
	c.n++
	c.tab[k] = t
	return t
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func (t *Term) isConst() bool { return t.op == OConst }
func (t *Term) isBool() bool  { return t.w == 0 }

func (c *Ctx) Const(w uint8, v uint64) *Term { return c.mk(OConst, w, v&mask(w), nil, nil, nil) }
func (c *Ctx) Bool(b bool) *Term {
	if b {
		return c.T
	}
	return c.F
}

func (c *Ctx) Var(w uint8, name string) *Term {
	t := c.mk(OVar, w, uint64(len(c.vars)), nil, nil, nil)
	c.vars = append(c.vars, t)
	c.vnames = append(c.vnames, name)
	return t
}

func sext(v uint64, w uint8) int64 {
	s := 64 - w
	return int64(v<<s) >> s
}

// ---- concat / extract normal form ----

func (c *Ctx) Concat(hi, lo *Term) *Term {
	w := hi.w + lo.w
	if w > 64 {
		panic("concat too wide")
	}
	if hi.isConst() && lo.isConst() {
		return c.Const(w, hi.val<<lo.w|lo.val)
	}
	// right-associate
	if hi.op == OConcat {
		return c.Concat(hi.a, c.Concat(hi.b, lo))
	}
	// merge adjacent parts
	first, rest := lo, (*Term)(nil)
	if lo.op == OConcat {
		first, rest = lo.a, lo.b
	}
	var m *Term
	if hi.isConst() && first.isConst() {
		m = c.Const(hi.w+first.w, hi.val<<first.w|first.val)
	} else if hi.op == OExtract && first.op == OExtract && hi.a == first.a && hi.val&0xff == (first.val>>8)+1 {
		m = c.Extract(hi.a, uint8(hi.val>>8), uint8(first.val&0xff))
	}
	if m != nil {
		if rest == nil {
			return m
		}
		return c.Concat(m, rest)
	}
	return c.mk(OConcat, w, 0, hi, lo, nil)
}

func (c *Ctx) ZExt(t *Term, w uint8) *Term {
	if t.w == w {
		return t
	}
	if t.w > w {
		return c.Extract(t, w-1, 0)
	}
	return c.Concat(c.Const(w-t.w, 0), t)
}

func (c *Ctx) SExt(t *Term, w uint8) *Term {
	if t.w == w {
		return t
	}
	if t.w > w {
		return c.Extract(t, w-1, 0)
	}
	if t.isConst() {
		return c.Const(w, uint64(sext(t.val, t.w)))
	}
	if t.op == OConcat && t.a.isConst() && t.a.val>>(t.a.w-1) == 0 {
		return c.ZExt(t, w)
	}
	s := c.Extract(t, t.w-1, t.w-1)
	n := w - t.w
	return c.Concat(c.Ite(c.Eq(s, c.Const(1, 1)), c.Const(n, mask(n)), c.Const(n, 0)), t)
}

func (c *Ctx) Extract(t *Term, hi, lo uint8) *Term {
	w := hi - lo + 1
	if w == t.w {
		return t
	}
	switch t.op {
	case OConst:
		return c.Const(w, t.val>>lo)
	case OExtract:
		l := uint8(t.val & 0xff)
		return c.Extract(t.a, hi+l, lo+l)
	case OConcat:
		lw := t.b.w
		if hi < lw {
			return c.Extract(t.b, hi, lo)
		}
		if lo >= lw {
			return c.Extract(t.a, hi-lw, lo-lw)
		}
		return c.Concat(c.Extract(t.a, hi-lw, 0), c.Extract(t.b, lw-1, lo))
	case OAnd:
		return c.And(c.Extract(t.a, hi, lo), c.Extract(t.b, hi, lo))
	case OOr:
		return c.Or(c.Extract(t.a, hi, lo), c.Extract(t.b, hi, lo))
	case OXor:
		return c.Xor(c.Extract(t.a, hi, lo), c.Extract(t.b, hi, lo))
	case ONot:
		return c.Not(c.Extract(t.a, hi, lo))
	case OIte:
		if t.b.isConst() || t.c.isConst() {
			return c.Ite(t.a, c.Extract(t.b, hi, lo), c.Extract(t.c, hi, lo))
		}
	case OAdd, OSub, OMul:
		if lo == 0 {
			return c.arith(t.op, c.Extract(t.a, hi, 0), c.Extract(t.b, hi, 0))
		}
	case OShl:
		if w == 1 && t.a.isConst() && t.a.val == 1 {
			return c.Ite(c.Eq(t.b, c.Const(t.b.w, uint64(lo))), c.Const(1, 1), c.Const(1, 0))
		}
		// the low part of x<<n is (low part of x)<<n; n must fit the narrower width
		if lo == 0 && leadingZeroBits(t.b) >= t.b.w-w {
			return c.Shl(c.Extract(t.a, hi, 0), c.Extract(t.b, w-1, 0))
		}
	case OLshr:
		// bit 0 of x>>n is bit n of x
		if w == 1 && lo == 0 {
			if r := c.bitTest(t.a, t.b); r != nil {
				return c.Ite(r, c.Const(1, 1), c.Const(1, 0))
			}
		}
	}
	return c.mk(OExtract, w, uint64(hi)<<8|uint64(lo), t, nil, nil)
}

// ---- bitwise ----

func order(a, b *Term) (*Term, *Term) {
	if a.id > b.id {
		return b, a
	}
	return a, b
}

// splitAt returns t cut at bit p if that is free (constants and concats with that boundary).
func (c *Ctx) cutPoint(t *Term) (uint8, bool) {
	if t.op == OConcat {
		return t.b.w, true
	}
	return 0, false
}

func (c *Ctx) And(a, b *Term) *Term {
	if a.isConst() {
		a, b = b, a
	}
	if a == b {
		return a
	}
	if b.isConst() {
		if a.isConst() {
			return c.Const(a.w, a.val&b.val)
		}
		if b.val == 0 {
			return b
		}
		if b.val == mask(b.w) {
			return a
		}
		// constant mask: cut into runs of ones and zeros
		var out *Term
		lo := uint8(0)
		for lo < a.w {
			bit := b.val >> lo & 1
			hi := lo
			for hi+1 < a.w && b.val>>(hi+1)&1 == bit {
				hi++
			}
			var p *Term
			if bit == 1 {
				p = c.Extract(a, hi, lo)
			} else {
				p = c.Const(hi-lo+1, 0)
			}
			if out == nil {
				out = p
			} else {
				out = c.Concat(p, out)
			}
			lo = hi + 1
		}
		return out
	}
	if (a.op == ONot && a.a == b) || (b.op == ONot && b.a == a) {
		return c.Const(a.w, 0)
	}
	if p, ok := c.cutPoint(a); ok && b.op == OConcat && b.b.w == p {
		return c.Concat(c.And(a.a, b.a), c.And(a.b, b.b))
	}
	if a.op == OConcat && a.a.isConst() && a.a.val == 0 {
		return c.Concat(a.a, c.And(a.b, c.Extract(b, a.b.w-1, 0)))
	}
	if b.op == OConcat && b.a.isConst() && b.a.val == 0 {
		return c.Concat(b.a, c.And(b.b, c.Extract(a, b.b.w-1, 0)))
	}
	a, b = order(a, b)
	return c.mk(OAnd, a.w, 0, a, b, nil)
}

func (c *Ctx) Or(a, b *Term) *Term {
	if a.isConst() {
		a, b = b, a
	}
	if a == b {
		return a
	}
	if b.isConst() {
		if a.isConst() {
			return c.Const(a.w, a.val|b.val)
		}
		if b.val == 0 {
			return a
		}
		if b.val == mask(b.w) {
			return b
		}
	}
	if a.op == OConcat && (b.isConst() || (b.op == OConcat && b.b.w == a.b.w)) {
		lw := a.b.w
		return c.Concat(c.Or(a.a, c.Extract(b, b.w-1, lw)), c.Or(a.b, c.Extract(b, lw-1, 0)))
	}
	if b.op == OConcat && a.isConst() {
		return c.Or(b, a)
	}
	// zero-padded parts that do not overlap: (hi,0) | (0,lo)
	if a.op == OConcat && b.op == OConcat {
		if r := c.orDisjoint(a, b); r != nil {
			return r
		}
		if r := c.orDisjoint(b, a); r != nil {
			return r
		}
	}
	return c.chain(OOr, a, b)
}

// chain builds the canonical form of an associative, commutative, idempotent operator:
// a left-leaning chain of distinct leaves in id order.
func (c *Ctx) chain(op Op, a, b *Term) *Term {
	var buf [48]*Term
	l := leaves(op, b, leaves(op, a, buf[:0]))
	if op == OOr { // merge constants
		ci := -1
		k := 0
		for _, x := range l {
			if x.isConst() {
				if ci >= 0 {
					l[ci] = c.Const(x.w, l[ci].val|x.val)
					continue
				}
				ci = k
			}
			l[k] = x
			k++
		}
		l = l[:k]
	}
	sort.Slice(l, func(i, j int) bool { return l[i].id < l[j].id })
	out := l[0]
	for i := 1; i < len(l); i++ {
		if l[i] == l[i-1] {
			continue
		}
		out = c.mk(op, out.w, 0, out, l[i], nil)
	}
	return out
}

func leaves(op Op, t *Term, out []*Term) []*Term {
	for t.op == op {
		out = leaves(op, t.b, out)
		t = t.a
	}
	return append(out, t)
}

// orDisjoint: hi has z trailing zero bits, lo fits into z bits.
func (c *Ctx) orDisjoint(hi, lo *Term) *Term {
	z := trailingZeroBits(hi)
	if z == 0 || z >= hi.w {
		return nil
	}
	if leadingZeroBits(lo) < lo.w-z {
		return nil
	}
	return c.Concat(c.Extract(hi, hi.w-1, z), c.Extract(lo, z-1, 0))
}

func trailingZeroBits(t *Term) uint8 {
	switch t.op {
	case OConst:
		if t.val == 0 {
			return t.w
		}
		return uint8(bits.TrailingZeros64(t.val))
	case OConcat:
		z := trailingZeroBits(t.b)
		if z == t.b.w {
			return z + trailingZeroBits(t.a)
		}
		return z
	}
	return 0
}

func leadingZeroBits(t *Term) uint8 {
	switch t.op {
	case OConst:
		return uint8(bits.LeadingZeros64(t.val)) - (64 - t.w)
	case OConcat:
		z := leadingZeroBits(t.a)
		if z == t.a.w {
			return z + leadingZeroBits(t.b)
		}
		return z
	}
	return 0
}

func (c *Ctx) Xor(a, b *Term) *Term {
	if a.isConst() {
		a, b = b, a
	}
	if a == b {
		return c.Const(a.w, 0)
	}
	if b.isConst() {
		if a.isConst() {
			return c.Const(a.w, a.val^b.val)
		}
		if b.val == 0 {
			return a
		}
		if b.val == mask(b.w) {
			return c.Not(a)
		}
	}
	a, b = order(a, b)
	return c.mk(OXor, a.w, 0, a, b, nil)
}

func (c *Ctx) Not(a *Term) *Term {
	if a.isConst() {
		return c.Const(a.w, ^a.val)
	}
	if a.op == ONot {
		return a.a
	}
	return c.mk(ONot, a.w, 0, a, nil, nil)
}

// ---- shifts: count already has the width of a; counts >= w give 0 / sign ----

func (c *Ctx) Shl(a, n *Term) *Term {
	w := a.w
	if n.isConst() {
		if n.val >= uint64(w) {
			return c.Const(w, 0)
		}
		if n.val == 0 {
			return a
		}
		k := uint8(n.val)
		return c.Concat(c.Extract(a, w-1-k, 0), c.Const(k, 0))
	}
	if a.isConst() && a.val == 0 {
		return a
	}
	return c.mk(OShl, w, 0, a, n, nil)
}

func (c *Ctx) Lshr(a, n *Term) *Term {
	w := a.w
	if n.isConst() {
		if n.val >= uint64(w) {
			return c.Const(w, 0)
		}
		if n.val == 0 {
			return a
		}
		k := uint8(n.val)
		return c.Concat(c.Const(k, 0), c.Extract(a, w-1, k))
	}
	if a.isConst() && a.val == 0 {
		return a
	}
	return c.mk(OLshr, w, 0, a, n, nil)
}

func (c *Ctx) Ashr(a, n *Term) *Term {
	w := a.w
	if n.isConst() {
		if n.val == 0 {
			return a
		}
		if n.val >= uint64(w) {
			n = c.Const(w, uint64(w-1))
		}
		k := uint8(n.val)
		return c.SExt(c.Extract(a, w-1, k), w)
	}
	return c.mk(OAshr, w, 0, a, n, nil)
}

// ---- arithmetic ----

func (c *Ctx) arith(op Op, a, b *Term) *Term {
	switch op {
	case OAdd:
		return c.Add(a, b)
	case OSub:
		return c.Sub(a, b)
	case OMul:
		return c.Mul(a, b)
	}
	panic("arith")
}

func (c *Ctx) Add(a, b *Term) *Term {
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		if a.isConst() {
			return c.Const(a.w, a.val+b.val)
		}
		if b.val == 0 {
			return a
		}
		if a.op == OAdd && a.b.isConst() {
			return c.Add(a.a, c.Const(a.w, a.b.val+b.val))
		}
		return c.mk(OAdd, a.w, 0, a, b, nil)
	}
	if a.op == OAdd && a.b.isConst() {
		return c.Add(c.Add(a.a, b), a.b)
	}
	if b.op == OAdd && b.b.isConst() {
		return c.Add(c.Add(a, b.a), b.b)
	}
	a, b = order(a, b)
	return c.mk(OAdd, a.w, 0, a, b, nil)
}

func (c *Ctx) Sub(a, b *Term) *Term {
	if a == b {
		return c.Const(a.w, 0)
	}
	if b.isConst() {
		return c.Add(a, c.Const(a.w, -b.val))
	}
	return c.mk(OSub, a.w, 0, a, b, nil)
}

func (c *Ctx) Mul(a, b *Term) *Term {
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		if a.isConst() {
			return c.Const(a.w, a.val*b.val)
		}
		if b.val == 0 {
			return b
		}
		if b.val == 1 {
			return a
		}
		if b.val&(b.val-1) == 0 {
			return c.Shl(a, c.Const(a.w, uint64(bits.TrailingZeros64(b.val))))
		}
	}
	a, b = order(a, b)
	return c.mk(OMul, a.w, 0, a, b, nil)
}

// division by zero is excluded by the caller (Go panics)
func (c *Ctx) Div(op Op, a, b *Term) *Term {
	if a.isConst() && b.isConst() && b.val != 0 {
		x, y := a.val, b.val
		sx, sy := sext(x, a.w), sext(y, b.w)
		switch op {
		case OUDiv:
			return c.Const(a.w, x/y)
		case OURem:
			return c.Const(a.w, x%y)
		case OSDiv:
			if sy == -1 {
				return c.Const(a.w, uint64(-sx))
			}
			return c.Const(a.w, uint64(sx/sy))
		case OSRem:
			if sy == -1 {
				return c.Const(a.w, 0)
			}
			return c.Const(a.w, uint64(sx%sy))
		}
	}
	if b.isConst() && b.val != 0 && b.val&(b.val-1) == 0 {
		k := uint64(bits.TrailingZeros64(b.val))
		if op == OUDiv {
			return c.Lshr(a, c.Const(a.w, k))
		}
		if op == OURem {
			return c.And(a, c.Const(a.w, b.val-1))
		}
	}
	return c.mk(op, a.w, 0, a, b, nil)
}

// ---- Booleans ----

func (c *Ctx) BNot(a *Term) *Term {
	switch a.op {
	case OTrue:
		return c.F
	case OFalse:
		return c.T
	case OBNot:
		return a.a
	}
	return c.mk(OBNot, 0, 0, a, nil, nil)
}

func (c *Ctx) BAnd(a, b *Term) *Term {
	if a == c.F || b == c.F {
		return c.F
	}
	if a == c.T {
		return b
	}
	if b == c.T || a == b {
		return a
	}
	if (a.op == OBNot && a.a == b) || (b.op == OBNot && b.a == a) {
		return c.F
	}
	return c.boolChain(OBAnd, a, b)
}

func (c *Ctx) BOr(a, b *Term) *Term {
	if a == c.T || b == c.T {
		return c.T
	}
	if a == c.F {
		return b
	}
	if b == c.F || a == b {
		return a
	}
	if (a.op == OBNot && a.a == b) || (b.op == OBNot && b.a == a) {
		return c.T
	}
	return c.boolChain(OBOr, a, b)
}

func (c *Ctx) boolChain(op Op, a, b *Term) *Term {
	if a.op == op || b.op == op {
		// complementary leaves
		var buf [48]*Term
		l := leaves(op, b, leaves(op, a, buf[:0]))
		for _, x := range l {
			if x.op == OBNot {
				for _, y := range l {
					if y == x.a {
						return c.Bool(op == OBOr)
					}
				}
			}
		}
	}
	return c.chain(op, a, b)
}

func (c *Ctx) Implies(a, b *Term) *Term { return c.BOr(c.BNot(a), b) }

func (c *Ctx) Ite(p, a, b *Term) *Term {
	if p == c.T || a == b {
		return a
	}
	if p == c.F {
		return b
	}
	if p.op == OBNot {
		return c.Ite(p.a, b, a)
	}
	if a.isBool() {
		if a == c.T {
			return c.BOr(p, b)
		}
		if a == c.F {
			return c.BAnd(c.BNot(p), b)
		}
		if b == c.T {
			return c.BOr(c.BNot(p), a)
		}
		if b == c.F {
			return c.BAnd(p, a)
		}
	}
	return c.mk(OIte, a.w, 0, p, a, b)
}

func (c *Ctx) Eq(a, b *Term) *Term {
	if a == b {
		return c.T
	}
	if a.isBool() {
		if a == c.T {
			return b
		}
		if b == c.T {
			return a
		}
		if a == c.F {
			return c.BNot(b)
		}
		if b == c.F {
			return c.BNot(a)
		}
		a, b = order(a, b)
		return c.mk(OEq, 0, 0, a, b, nil)
	}
	if a.w != b.w {
		panic(fmt.Sprintf("eq width %d %d", a.w, b.w))
	}
	if a.isConst() {
		if b.isConst() {
			return c.Bool(a.val == b.val)
		}
		a, b = b, a
	}
	if b.isConst() {
		switch a.op {
		case OConcat:
			lw := a.b.w
			return c.BAnd(c.Eq(a.a, c.Const(a.a.w, b.val>>lw)), c.Eq(a.b, c.Const(lw, b.val)))
		case OAdd:
			if a.b.isConst() {
				return c.Eq(a.a, c.Const(a.w, b.val-a.b.val))
			}
		case ONot:
			return c.Eq(a.a, c.Const(a.w, ^b.val))
		case OIte:
			if a.b.isConst() || a.c.isConst() {
				return c.Ite(a.a, c.Eq(a.b, b), c.Eq(a.c, b))
			}
		case OAnd:
			if b.val == 0 {
				if r := c.andIsZero(a.a, a.b); r != nil {
					return r
				}
			}
		case OOr:
			if b.val == 0 {
				return c.BAnd(c.Eq(a.a, b), c.Eq(a.b, b))
			}
		case OShl:
			if b.val == 0 && a.a.isConst() && a.a.val == 1 {
				return c.BNot(c.Ult(a.b, c.Const(a.b.w, uint64(a.w))))
			}
		}
	} else if a.op == OConcat && b.op == OConcat {
		if a.b.w == b.b.w {
			return c.BAnd(c.Eq(a.a, b.a), c.Eq(a.b, b.b))
		}
		m := a.b.w
		if b.b.w < m {
			m = b.b.w
		}
		return c.BAnd(c.Eq(c.Extract(a, a.w-1, m), c.Extract(b, b.w-1, m)),
			c.Eq(c.Extract(a, m-1, 0), c.Extract(b, m-1, 0)))
	}
	if c1, c2, ok := shl1(a, b); ok { // 1<<x == 1<<y
		return c.oneHotEq(c1, c2, a.w)
	}
	a, b = order(a, b)
	return c.mk(OEq, 0, 0, a, b, nil)
}

func shl1(a, b *Term) (*Term, *Term, bool) {
	if a.op == OShl && b.op == OShl && a.a.isConst() && b.a == a.a && a.a.val == 1 {
		return a.b, b.b, true
	}
	return nil, nil, false
}

func (c *Ctx) oneHotEq(x, y *Term, w uint8) *Term {
	k := c.Const(x.w, uint64(w))
	inx, iny := c.Ult(x, k), c.Ult(y, k)
	if inx == c.T && iny == c.T {
		return c.Eq(x, y)
	}
	return c.BOr(c.BAnd(c.BNot(inx), c.BNot(iny)), c.BAnd(c.BAnd(inx, iny), c.Eq(x, y)))
}

// andIsZero decides x & y == 0 when one side is a one-hot 1<<d.
func (c *Ctx) andIsZero(x, y *Term) *Term {
	if !(y.op == OShl && y.a.isConst() && y.a.val == 1) {
		x, y = y, x
	}
	if !(y.op == OShl && y.a.isConst() && y.a.val == 1) {
		return nil
	}
	t := c.bitTest(x, y.b)
	if t == nil {
		return nil
	}
	return c.BNot(t)
}

// bitTest: d < w(x) and bit d of x is set; nil if x has no suitable form.
func (c *Ctx) bitTest(x, d *Term) *Term {
	w := c.Const(d.w, uint64(x.w))
	switch x.op {
	case OConst:
		r := c.F
		for j := uint8(0); j < x.w; j++ {
			if x.val>>j&1 == 1 {
				r = c.BOr(r, c.Eq(d, c.Const(d.w, uint64(j))))
			}
		}
		return r
	case OShl:
		if x.a.isConst() && x.a.val == 1 {
			return c.BAnd(c.Ult(d, w), c.Eq(x.b, d))
		}
		if x.a.isConst() && x.a.val == mask(x.w) {
			return c.BAnd(c.Ult(d, w), c.BNot(c.Ult(d, x.b)))
		}
		if d.w == x.w { // bit d of y<<n is bit d-n of y
			if t := c.bitTest(x.a, c.Sub(d, x.b)); t != nil {
				return c.BAnd(c.BAnd(c.Ult(d, w), c.BNot(c.Ult(d, x.b))), t)
			}
		}
	case OLshr:
		if d.w == x.w && leadingZeroBits(d) > 0 && leadingZeroBits(x.b) > 0 {
			if t := c.bitTest(x.a, c.Add(d, x.b)); t != nil {
				return c.BAnd(c.Ult(d, w), t)
			}
		}
	case OIte:
		a, b := c.bitTest(x.b, d), c.bitTest(x.c, d)
		if a == nil || b == nil {
			return nil
		}
		return c.Ite(x.a, a, b)
	case OAdd: // (1<<r)-1
		o, k := x.a, x.b
		if o.isConst() {
			o, k = k, o
		}
		if k.isConst() && k.val == mask(x.w) && o.op == OShl && o.a.isConst() && o.a.val == 1 {
			return c.BAnd(c.Ult(d, w), c.BOr(c.Ult(d, o.b), c.BNot(c.Ult(o.b, w))))
		}
	case OOr, OAnd, OXor:
		a := c.bitTest(x.a, d)
		if a == nil {
			return nil
		}
		b := c.bitTest(x.b, d)
		if b == nil {
			return nil
		}
		if x.op == OOr {
			return c.BOr(a, b)
		}
		if x.op == OXor {
			return c.BNot(c.Eq(a, b))
		}
		return c.BAnd(a, b)
	case ONot:
		a := c.bitTest(x.a, d)
		if a == nil {
			return nil
		}
		return c.BAnd(c.Ult(d, w), c.BNot(a))
	case OConcat:
		// split at the boundary when the top is a constant 0
		if x.a.isConst() && x.a.val == 0 {
			return c.bitTest(x.b, d)
		}
	}
	return nil
}

func (c *Ctx) Ult(a, b *Term) *Term {
	if a == b {
		return c.F
	}
	if x, y, ok := shl1(a, b); ok {
		k := c.Const(x.w, uint64(a.w))
		if c.Ult(x, k) == c.T && c.Ult(y, k) == c.T {
			return c.Ult(x, y)
		}
	}
	if a.isConst() && b.isConst() {
		return c.Bool(a.val < b.val)
	}
	if b.isConst() {
		if b.val == 0 {
			return c.F
		}
		if b.val == 1 {
			return c.Eq(a, c.Const(a.w, 0))
		}
		lz := leadingZeroBits(a)
		if lz > 0 {
			m := mask(a.w - lz)
			if b.val > m {
				return c.T
			}
			if lz < a.w {
				return c.Ult(c.Extract(a, a.w-lz-1, 0), c.Const(a.w-lz, b.val))
			}
		}
	}
	if a.isConst() {
		if a.val == mask(a.w) {
			return c.F
		}
		if a.val == 0 {
			return c.BNot(c.Eq(b, a))
		}
		lz := leadingZeroBits(b)
		if lz > 0 && lz < b.w {
			if a.val >= mask(b.w-lz) {
				return c.F
			}
			return c.Ult(c.Const(b.w-lz, a.val), c.Extract(b, b.w-lz-1, 0))
		}
	}
	if !a.isConst() && !b.isConst() {
		z := leadingZeroBits(a)
		if y := leadingZeroBits(b); y < z {
			z = y
		}
		if z > 0 && z < a.w {
			return c.Ult(c.Extract(a, a.w-z-1, 0), c.Extract(b, b.w-z-1, 0))
		}
	}
	return c.mk(OUlt, 0, 0, a, b, nil)
}

func (c *Ctx) Slt(a, b *Term) *Term {
	if a == b {
		return c.F
	}
	if a.isConst() && b.isConst() {
		return c.Bool(sext(a.val, a.w) < sext(b.val, b.w))
	}
	nonneg := func(t *Term) bool {
		if t.isConst() {
			return t.val>>(t.w-1) == 0
		}
		return leadingZeroBits(t) > 0
	}
	if nonneg(a) && nonneg(b) {
		return c.Ult(a, b)
	}
	return c.mk(OSlt, 0, 0, a, b, nil)
}

// rebuild makes a term of t's shape with new arguments, simplifying.
func (c *Ctx) rebuild(t, a, b, d *Term) *Term {
	switch t.op {
	case OAdd, OMul:
		return c.arith(t.op, a, b)
	case OSub:
		return c.Sub(a, b)
	case OUDiv, OURem, OSDiv, OSRem:
		return c.Div(t.op, a, b)
	case OAnd:
		return c.And(a, b)
	case OOr:
		return c.Or(a, b)
	case OXor:
		return c.Xor(a, b)
	case ONot:
		return c.Not(a)
	case OShl:
		return c.Shl(a, b)
	case OLshr:
		return c.Lshr(a, b)
	case OAshr:
		return c.Ashr(a, b)
	case OConcat:
		return c.Concat(a, b)
	case OExtract:
		return c.Extract(a, uint8(t.val>>8), uint8(t.val))
	case OIte:
		return c.Ite(a, b, d)
	case OEq:
		return c.Eq(a, b)
	case OUlt:
		return c.Ult(a, b)
	case OSlt:
		return c.Slt(a, b)
	case OBNot:
		return c.BNot(a)
	case OBAnd:
		return c.BAnd(a, b)
	case OBOr:
		return c.BOr(a, b)
	}
	panic("rebuild")
}

// ---- evaluation under an assignment ----

type Model map[*Term]uint64

type evaler struct {
	m    Model
	def  func(v *Term) uint64
	memo map[*Term]uint64
}

func (e *evaler) eval(t *Term) uint64 {
	switch t.op {
	case OConst:
		return t.val
	case OTrue:
		return 1
	case OFalse:
		return 0
	case OVar:
		if v, ok := e.m[t]; ok {
			return v
		}
		return e.def(t) & mask(t.w)
	}
	if v, ok := e.memo[t]; ok {
		return v
	}
	var r uint64
	b2u := func(b bool) uint64 {
		if b {
			return 1
		}
		return 0
	}
	switch t.op {
	case OIte:
		if e.eval(t.a) != 0 {
			r = e.eval(t.b)
		} else {
			r = e.eval(t.c)
		}
	case OBNot:
		r = 1 - e.eval(t.a)
	case OBAnd:
		r = e.eval(t.a)
		if r != 0 {
			r = e.eval(t.b)
		}
	case OBOr:
		r = e.eval(t.a)
		if r == 0 {
			r = e.eval(t.b)
		}
	case OEq:
		r = b2u(e.eval(t.a) == e.eval(t.b))
	case OUlt:
		r = b2u(e.eval(t.a) < e.eval(t.b))
	case OSlt:
		r = b2u(sext(e.eval(t.a), t.a.w) < sext(e.eval(t.b), t.b.w))
	case ONot:
		r = ^e.eval(t.a)
	case OExtract:
		r = e.eval(t.a) >> uint8(t.val)
	case OConcat:
		r = e.eval(t.a)<<t.b.w | e.eval(t.b)
	default:
		x, y := e.eval(t.a), e.eval(t.b)
		switch t.op {
		case OAdd:
			r = x + y
		case OSub:
			r = x - y
		case OMul:
			r = x * y
		case OUDiv:
			if y == 0 {
				r = ^uint64(0)
			} else {
				r = x / y
			}
		case OURem:
			if y == 0 {
				r = x
			} else {
				r = x % y
			}
		case OSDiv, OSRem:
			sx, sy := sext(x, t.w), sext(y, t.w)
			if sy == 0 {
				if t.op == OSRem {
					r = x
				} else if sx < 0 {
					r = 1
				} else {
					r = ^uint64(0)
				}
			} else if sy == -1 {
				if t.op == OSDiv {
					r = uint64(-sx)
				}
			} else if t.op == OSDiv {
				r = uint64(sx / sy)
			} else {
				r = uint64(sx % sy)
			}
		case OAnd:
			r = x & y
		case OOr:
			r = x | y
		case OXor:
			r = x ^ y
		case OShl:
			if y < uint64(t.w) {
				r = x << y
			}
		case OLshr:
			if y < uint64(t.w) {
				r = x >> y
			}
		case OAshr:
			if y >= uint64(t.w) {
				y = uint64(t.w) - 1
			}
			r = uint64(sext(x, t.w) >> y)
		default:
			panic(fmt.Sprintf("eval op %d", t.op))
		}
	}
	if t.w > 0 {
		r &= mask(t.w)
	}
	e.memo[t] = r
	return r
}
