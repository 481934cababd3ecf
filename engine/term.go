package main

// Hash-consed terms over fixed-width bit-vectors and booleans, with light
// simplification and signed interval bounds. Terms are printed as SMT-LIB2.

import (
	"fmt"
	"math/bits"
	"sort"
	"strings"
)

type Op uint8

const (
	OConst Op = iota
	OVar
	OAdd
	OSub
	OMul
	OUdiv
	OUrem
	OSdiv
	OSrem
	OAnd
	OOr
	OXor
	OShl
	OLshr
	OAshr
	OBnot
	ONeg
	OTrunc
	OZext
	OSext
	OIte
	// boolean result
	OEq
	OUlt
	OUle
	OSlt
	OSle
	ONot
	OBAnd
	OBOr
)

// Term is an immutable node. W==0 means boolean.
type Term struct {
	Op      Op
	W       uint8
	C       uint64 // constant value (masked to W) or variable index
	A, B, D *Term
	ID      uint32
	lo, hi  int64 // signed bounds of the value interpreted as a W-bit signed integer
	v1      int32 // index of the only variable occurring in the term, -1 when none, -2 when several
	size    int32
	ev      uint64
	evE     uint32
	vars    []int32
}

type termKey struct {
	op      Op
	w       uint8
	c       uint64
	a, b, d *Term
}

type TB struct {
	tab     map[termKey]*Term
	n       uint32
	envs    uint32
	True    *Term
	False   *Term
	Vars    []*VarInfo
	byKey   map[string]*Term
	dom2    map[uint32]*ivset
	nheld   int
	facts   map[*Term][]fact
	lins    map[*Term]*lin
	linInfo *liaInfo
	budget  int
	dom     map[uint32]*ivset // cache: satisfying set of single-variable conditions
}

type VarInfo struct {
	Name   string
	W      uint8
	Lo, Hi int64
	T      *Term
	Signed bool
}

func NewTB() *TB {
	tb := &TB{tab: map[termKey]*Term{}, dom: map[uint32]*ivset{}, byKey: map[string]*Term{}}
	tb.True = tb.mk(OConst, 0, 1, nil, nil, nil)
	tb.False = tb.mk(OConst, 0, 0, nil, nil, nil)
	return tb
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func sx(c uint64, w uint8) int64 {
	if w == 0 {
		return int64(c)
	}
	s := 64 - uint(w)
	return int64(c<<s) >> s
}

func minS(w uint8) int64 { return -1 << (w - 1) }
func maxS(w uint8) int64 { return int64(mask(w) >> 1) }

func (tb *TB) mk(op Op, w uint8, c uint64, a, b, d *Term) *Term {
	k := termKey{op, w, c, a, b, d}
	if t, ok := tb.tab[k]; ok {
		return t
	}
	t := &Term{Op: op, W: w, C: c, A: a, B: b, D: d, ID: tb.n}
	tb.n++
	t.v1 = -1
	t.size = 1
	if op == OVar {
		t.v1 = int32(c)
	}
	for _, x := range [3]*Term{a, b, d} {
		if x == nil {
			continue
		}
		t.size += x.size
		if t.size > 1<<28 {
			t.size = 1 << 28
		}
		switch {
		case x.v1 == -1:
		case t.v1 == -1:
			t.v1 = x.v1
		case t.v1 != x.v1:
			t.v1 = -2
		}
	}
	tb.bounds(t)
	tb.tab[k] = t
	return t
}

func (tb *TB) Const(c uint64, w uint8) *Term { return tb.mk(OConst, w, c&mask(w), nil, nil, nil) }

func (tb *TB) Bool(b bool) *Term {
	if b {
		return tb.True
	}
	return tb.False
}

func (tb *TB) NewVar(name string, w uint8, lo, hi int64, signed bool) *Term {
	key := fmt.Sprintf("%s/%d/%d/%d", name, w, lo, hi)
	if t, ok := tb.byKey[key]; ok {
		return t
	}
	vi := &VarInfo{Name: name, W: w, Lo: lo, Hi: hi, Signed: signed}
	t := &Term{Op: OVar, W: w, C: uint64(len(tb.Vars)), ID: tb.n, lo: lo, hi: hi, size: 1}
	tb.n++
	t.v1 = int32(len(tb.Vars))
	if w == 0 {
		t.lo, t.hi = 0, 1
	}
	vi.T = t
	tb.Vars = append(tb.Vars, vi)
	tb.byKey[key] = t
	return t
}

func (t *Term) isC() bool { return t.Op == OConst }

func addOv(a, b int64) (int64, bool) {
	s := a + b
	return s, (s > a) != (b > 0) && b != 0
}

func (tb *TB) bounds(t *Term) {
	w := t.W
	if w == 0 {
		t.lo, t.hi = 0, 1
		return
	}
	t.lo, t.hi = minS(w), maxS(w)
	fit := func(lo, hi int64) {
		if lo >= minS(w) && hi <= maxS(w) {
			t.lo, t.hi = lo, hi
		}
	}
	switch t.Op {
	case OConst:
		v := sx(t.C, w)
		t.lo, t.hi = v, v
	case OAdd:
		l, o1 := addOv(t.A.lo, t.B.lo)
		h, o2 := addOv(t.A.hi, t.B.hi)
		if !o1 && !o2 {
			fit(l, h)
		}
	case OSub:
		if t.B.lo > -1<<62 && t.B.hi < 1<<62 {
			l, o1 := addOv(t.A.lo, -t.B.hi)
			h, o2 := addOv(t.A.hi, -t.B.lo)
			if !o1 && !o2 {
				fit(l, h)
			}
		}
	case ONeg:
		if t.A.lo > minS(w) {
			fit(-t.A.hi, -t.A.lo)
		}
	case OMul:
		const L = 1 << 31
		if t.A.lo > -L && t.A.hi < L && t.B.lo > -L && t.B.hi < L {
			p := []int64{t.A.lo * t.B.lo, t.A.lo * t.B.hi, t.A.hi * t.B.lo, t.A.hi * t.B.hi}
			l, h := p[0], p[0]
			for _, x := range p {
				l, h = min(l, x), max(h, x)
			}
			fit(l, h)
		}
	case OZext:
		if t.A.lo >= 0 {
			t.lo, t.hi = t.A.lo, t.A.hi
		} else if t.A.W < w {
			t.lo, t.hi = 0, int64(mask(t.A.W))
		}
	case OSext:
		t.lo, t.hi = t.A.lo, t.A.hi
	case OTrunc:
		fit(t.A.lo, t.A.hi)
	case OIte:
		t.lo, t.hi = min(t.B.lo, t.D.lo), max(t.B.hi, t.D.hi)
	case OAnd:
		if t.A.lo >= 0 && t.B.lo >= 0 {
			t.lo, t.hi = 0, min(t.A.hi, t.B.hi)
		} else if t.B.lo >= 0 {
			t.lo, t.hi = 0, t.B.hi
		} else if t.A.lo >= 0 {
			t.lo, t.hi = 0, t.A.hi
		}
	case OOr, OXor:
		if t.A.lo >= 0 && t.B.lo >= 0 {
			m := uint64(t.A.hi) | uint64(t.B.hi)
			t.lo, t.hi = 0, int64((uint64(1)<<uint(bits.Len64(m)))-1)
		}
	case OLshr:
		if t.B.isC() && t.A.lo >= 0 {
			if t.B.C >= uint64(w) {
				t.lo, t.hi = 0, 0
			} else {
				t.lo, t.hi = t.A.lo>>t.B.C, t.A.hi>>t.B.C
			}
		} else if t.A.lo >= 0 {
			t.lo, t.hi = 0, t.A.hi
		}
	case OAshr:
		if t.B.isC() {
			s := min(t.B.C, 63)
			t.lo, t.hi = t.A.lo>>s, t.A.hi>>s
		} else if t.A.lo >= 0 {
			t.lo, t.hi = 0, t.A.hi
		}
	case OShl:
		if t.B.isC() && t.B.C < 31 && t.A.lo > -(1<<31) && t.A.hi < 1<<31 {
			fit(t.A.lo<<t.B.C, t.A.hi<<t.B.C)
		}
	case OUrem:
		if t.A.lo >= 0 && t.B.lo > 0 {
			t.lo, t.hi = 0, min(t.A.hi, t.B.hi-1)
		}
	case OSrem:
		if t.B.isC() {
			d := sx(t.B.C, w)
			if d < 0 {
				d = -d
			}
			if d > 0 {
				t.lo, t.hi = 0, d-1
				if t.A.lo < 0 {
					t.lo = -(d - 1)
				}
				if t.A.hi <= 0 {
					t.hi = 0
				}
			}
		}
	case OUdiv, OSdiv:
		if t.A.lo >= 0 && t.B.lo > 0 {
			t.lo, t.hi = t.A.lo/t.B.hi, t.A.hi/t.B.lo
		}
	}
}

func evalBin(op Op, a, b uint64, w uint8) uint64 {
	m := mask(w)
	switch op {
	case OAdd:
		return (a + b) & m
	case OSub:
		return (a - b) & m
	case OMul:
		return (a * b) & m
	case OUdiv:
		if b == 0 {
			return m
		}
		return a / b
	case OUrem:
		if b == 0 {
			return a
		}
		return a % b
	case OSdiv:
		x, y := sx(a, w), sx(b, w)
		if y == 0 {
			if x >= 0 {
				return m
			}
			return 1
		}
		if y == -1 {
			return uint64(-x) & m
		}
		return uint64(x/y) & m
	case OSrem:
		x, y := sx(a, w), sx(b, w)
		if y == 0 {
			return a
		}
		if y == -1 {
			return 0
		}
		return uint64(x%y) & m
	case OAnd:
		return a & b
	case OOr:
		return a | b
	case OXor:
		return a ^ b
	case OShl:
		if b >= uint64(w) {
			return 0
		}
		return (a << b) & m
	case OLshr:
		if b >= uint64(w) {
			return 0
		}
		return a >> b
	case OAshr:
		if b >= uint64(w) {
			b = uint64(w) - 1
		}
		return uint64(sx(a, w)>>b) & m
	}
	panic("evalBin")
}

func (tb *TB) Bin(op Op, a, b *Term) *Term {
	w := a.W
	if a.W != b.W {
		panic(fmt.Sprintf("width mismatch op %d: %d vs %d", op, a.W, b.W))
	}
	if a.isC() && b.isC() {
		return tb.Const(evalBin(op, a.C, b.C, w), w)
	}
	switch op {
	case OAdd, OMul, OAnd, OOr, OXor:
		if a.isC() || (!b.isC() && a.ID > b.ID) {
			a, b = b, a
		}
	}
	if b.isC() {
		c := b.C
		switch op {
		case OAdd:
			if c == 0 {
				return a
			}
			if a.Op == OAdd && a.B.isC() {
				return tb.Bin(OAdd, a.A, tb.Const(a.B.C+c, w))
			}
			if a.Op == OIte && a.B.isC() && a.D.isC() {
				return tb.Ite(a.A, tb.Bin(op, a.B, b), tb.Bin(op, a.D, b))
			}
		case OSub:
			return tb.Bin(OAdd, a, tb.Const(-c, w))
		case OMul:
			if c == 0 {
				return b
			}
			if c == 1 {
				return a
			}
		case OAnd:
			if c == 0 {
				return b
			}
			if c == mask(w) {
				return a
			}
			// mask of low bits covering the range
			if a.lo >= 0 && bits.TrailingZeros64(^c) >= bits.Len64(uint64(a.hi)) {
				return a
			}
		case OOr, OXor:
			if c == 0 {
				return a
			}
			if op == OOr && c == mask(w) {
				return b
			}
		case OShl, OLshr, OAshr:
			if c == 0 {
				return a
			}
			if c >= uint64(w) && op != OAshr {
				return tb.Const(0, w)
			}
			if op == OAshr && a.lo >= 0 {
				return tb.Bin(OLshr, a, b)
			}
		case OSdiv:
			if c == 1 {
				return a
			}
			if a.lo >= 0 && sx(c, w) > 0 {
				return tb.Bin(OUdiv, a, b)
			}
		case OSrem:
			if c == 1 {
				return tb.Const(0, w)
			}
			if a.lo >= 0 && sx(c, w) > 0 {
				return tb.Bin(OUrem, a, b)
			}
		case OUdiv:
			if c != 0 && c&(c-1) == 0 {
				return tb.Bin(OLshr, a, tb.Const(uint64(bits.TrailingZeros64(c)), w))
			}
		case OUrem:
			if c != 0 && c&(c-1) == 0 {
				return tb.Bin(OAnd, a, tb.Const(c-1, w))
			}
			if a.lo >= 0 && sx(c, w) > 0 && a.hi < sx(c, w) {
				return a
			}
		}
	}
	if a == b {
		switch op {
		case OSub, OXor:
			return tb.Const(0, w)
		case OAnd, OOr:
			return a
		}
	}
	if op == OSub && b.Op == OAdd && b.A == a && b.B.isC() {
		return tb.Const(-b.B.C, w)
	}
	if op == OSub && a.Op == OAdd && a.B.isC() && a.A == b {
		return a.B
	}
	return tb.mk(op, w, 0, a, b, nil)
}

func (tb *TB) Neg(a *Term) *Term {
	if a.isC() {
		return tb.Const(-a.C, a.W)
	}
	return tb.mk(ONeg, a.W, 0, a, nil, nil)
}

func (tb *TB) Bnot(a *Term) *Term {
	if a.isC() {
		return tb.Const(^a.C, a.W)
	}
	return tb.mk(OBnot, a.W, 0, a, nil, nil)
}

func (tb *TB) Trunc(a *Term, w uint8) *Term {
	if a.W == w {
		return a
	}
	if a.W < w {
		panic("trunc")
	}
	if a.isC() {
		return tb.Const(a.C, w)
	}
	if (a.Op == OZext || a.Op == OSext) && a.A.W >= w {
		return tb.Trunc(a.A, w)
	}
	if (a.Op == OZext || a.Op == OSext) && a.A.W < w {
		if a.Op == OZext {
			return tb.Zext(a.A, w)
		}
		return tb.Sext(a.A, w)
	}
	if a.Op == OIte && a.B.isC() && a.D.isC() {
		return tb.Ite(a.A, tb.Trunc(a.B, w), tb.Trunc(a.D, w))
	}
	return tb.mk(OTrunc, w, 0, a, nil, nil)
}

func (tb *TB) Zext(a *Term, w uint8) *Term {
	if a.W == w {
		return a
	}
	if a.isC() {
		return tb.Const(a.C, w)
	}
	if a.Op == OZext {
		return tb.Zext(a.A, w)
	}
	if a.Op == OIte && a.B.isC() && a.D.isC() {
		return tb.Ite(a.A, tb.Zext(a.B, w), tb.Zext(a.D, w))
	}
	return tb.mk(OZext, w, 0, a, nil, nil)
}

func (tb *TB) Sext(a *Term, w uint8) *Term {
	if a.W == w {
		return a
	}
	if a.isC() {
		return tb.Const(uint64(sx(a.C, a.W)), w)
	}
	if a.lo >= 0 {
		return tb.Zext(a, w)
	}
	if a.Op == OSext {
		return tb.Sext(a.A, w)
	}
	if a.Op == OIte && a.B.isC() && a.D.isC() {
		return tb.Ite(a.A, tb.Sext(a.B, w), tb.Sext(a.D, w))
	}
	return tb.mk(OSext, w, 0, a, nil, nil)
}

func (tb *TB) Not(a *Term) *Term {
	if a.isC() {
		return tb.Bool(a.C == 0)
	}
	if a.Op == ONot {
		return a.A
	}
	switch a.Op {
	case OSlt:
		return tb.Cmp(OSle, a.B, a.A)
	case OSle:
		if a.A.isC() || a.B.isC() {
			break // canonical: not (x <= c)
		}
		return tb.Cmp(OSlt, a.B, a.A)
	case OUlt:
		return tb.Cmp(OUle, a.B, a.A)
	case OUle:
		return tb.Cmp(OUlt, a.B, a.A)
	}
	return tb.mk(ONot, 0, 0, a, nil, nil)
}

func (tb *TB) And(a, b *Term) *Term {
	if a.isC() {
		if a.C == 0 {
			return a
		}
		return b
	}
	if b.isC() {
		if b.C == 0 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if tb.Not(a) == b {
		return tb.False
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return tb.mk(OBAnd, 0, 0, a, b, nil)
}

func (tb *TB) Or(a, b *Term) *Term {
	if a.isC() {
		if a.C == 1 {
			return a
		}
		return b
	}
	if b.isC() {
		if b.C == 1 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if tb.Not(a) == b {
		return tb.True
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return tb.mk(OBOr, 0, 0, a, b, nil)
}

// Ite builds if-then-else for bit-vectors or booleans.
func (tb *TB) Ite(c, a, b *Term) *Term {
	if c.isC() {
		if c.C == 1 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if a.W == 0 {
		switch {
		case a.isC() && a.C == 1:
			return tb.Or(c, b)
		case a.isC() && a.C == 0:
			return tb.And(tb.Not(c), b)
		case b.isC() && b.C == 1:
			return tb.Or(tb.Not(c), a)
		case b.isC() && b.C == 0:
			return tb.And(c, a)
		}
	}
	if c.Op == ONot {
		return tb.Ite(c.A, b, a)
	}
	return tb.mk(OIte, a.W, 0, c, a, b)
}

func (tb *TB) Eq(a, b *Term) *Term {
	if a == b {
		return tb.True
	}
	if a.isC() && b.isC() {
		return tb.Bool(a.C == b.C)
	}
	if a.isC() || (!b.isC() && a.ID > b.ID) {
		a, b = b, a
	}
	if a.W == 0 {
		if b.isC() {
			if b.C == 1 {
				return a
			}
			return tb.Not(a)
		}
		return tb.mk(OEq, 0, 0, a, b, nil)
	}
	if a.hi < b.lo || b.hi < a.lo {
		return tb.False
	}
	if b.isC() {
		switch a.Op {
		case OZext:
			if b.C > mask(a.A.W) {
				return tb.False
			}
			return tb.Eq(a.A, tb.Const(b.C, a.A.W))
		case OSext:
			if uint64(sx(b.C, a.A.W))&mask(b.W) != b.C {
				return tb.False
			}
			return tb.Eq(a.A, tb.Const(b.C, a.A.W))
		case OAdd:
			if a.B.isC() {
				return tb.Eq(a.A, tb.Const(b.C-a.B.C, a.W))
			}
		case OIte:
			if a.B.isC() || a.D.isC() {
				return tb.Ite(a.A, tb.Eq(a.B, b), tb.Eq(a.D, b))
			}
		}
	}
	if (a.Op == OZext && b.Op == OZext || a.Op == OSext && b.Op == OSext) && a.A.W == b.A.W {
		return tb.Eq(a.A, b.A)
	}
	return tb.mk(OEq, 0, 0, a, b, nil)
}

func (tb *TB) Cmp(op Op, a, b *Term) *Term {
	if a.isC() && b.isC() {
		x, y := sx(a.C, a.W), sx(b.C, b.W)
		switch op {
		case OUlt:
			return tb.Bool(a.C < b.C)
		case OUle:
			return tb.Bool(a.C <= b.C)
		case OSlt:
			return tb.Bool(x < y)
		case OSle:
			return tb.Bool(x <= y)
		}
	}
	if a == b {
		return tb.Bool(op == OUle || op == OSle)
	}
	if (op == OUlt || op == OUle) && a.lo >= 0 && b.lo >= 0 {
		if op == OUlt {
			op = OSlt
		} else {
			op = OSle
		}
	}
	if op == OUlt || op == OUle {
		if a.lo >= 0 && b.hi < 0 {
			return tb.True
		}
		if a.hi < 0 && b.lo >= 0 {
			return tb.False
		}
	}
	switch op {
	case OSlt:
		if a.hi < b.lo {
			return tb.True
		}
		if a.lo >= b.hi {
			return tb.False
		}
	case OSle:
		if a.hi <= b.lo {
			return tb.True
		}
		if a.lo > b.hi {
			return tb.False
		}
	case OUlt:
		// unsigned: b a non-negative constant and a possibly negative: leave
		if b.isC() && b.C == 0 {
			return tb.False
		}
	}
	// canonical form for constants: x < c -> x <= c-1 ; c < x -> not(x <= c)
	if op == OSlt {
		if b.isC() {
			return tb.Cmp(OSle, a, tb.Const(b.C-1, b.W)) // b != min because not folded above
		}
		if a.isC() {
			return tb.Not(tb.cmpRaw(OSle, b, a))
		}
	}
	if op == OSle && a.isC() {
		// c <= x  ->  not (x <= c-1)
		return tb.Not(tb.cmpRaw(OSle, b, tb.Const(a.C-1, a.W)))
	}
	return tb.cmpRaw(op, a, b)
}

func (tb *TB) cmpRaw(op Op, a, b *Term) *Term {
	if op == OSle && b.isC() {
		c := sx(b.C, b.W)
		if a.hi <= c {
			return tb.True
		}
		if a.lo > c {
			return tb.False
		}
		switch a.Op {
		case OSext:
			return tb.cmpRaw(OSle, a.A, tb.Const(b.C, a.A.W))
		case OZext:
			if a.A.lo >= 0 {
				return tb.cmpRaw(OSle, a.A, tb.Const(b.C, a.A.W))
			}
		case OAdd:
			if a.B.isC() {
				d := sx(a.B.C, a.W)
				l, o1 := addOv(a.A.lo, d)
				h, o2 := addOv(a.A.hi, d)
				n, o3 := addOv(c, -d)
				if !o1 && !o2 && !o3 && d != -d && l >= minS(a.W) && h <= maxS(a.W) && n >= minS(a.W) && n <= maxS(a.W) {
					return tb.cmpRaw(OSle, a.A, tb.Const(uint64(n), a.W))
				}
			}
		case OIte:
			if a.B.isC() || a.D.isC() {
				return tb.Ite(a.A, tb.cmpRaw(op, a.B, b), tb.cmpRaw(op, a.D, b))
			}
		case OLshr:
			// x>>k <= c  ->  x <= (c<<k)|ones, for non-negative x
			if a.B.isC() && a.A.lo >= 0 && c >= 0 && a.B.C < 32 && c < 1<<30 {
				k := a.B.C
				n := (uint64(c) << k) | ((1 << k) - 1)
				if int64(n) >= a.A.hi {
					return tb.True
				}
				return tb.cmpRaw(OSle, a.A, tb.Const(n, a.W))
			}
		}
		if a.isC() {
			return tb.Bool(sx(a.C, a.W) <= c)
		}
	}
	// The SMT form is a <= b; when it is "c <= x" it is kept as a negation by Cmp.
	return tb.mk(op, 0, 0, a, b, nil)
}

// ---- evaluation under a concrete assignment (used to validate models)

// Env is a concrete assignment; variables beyond its length take their lower bound.
type Env struct {
	v     []uint64
	epoch uint32
}

func (tb *TB) NewEnv(v []uint64) *Env {
	tb.envs++
	return &Env{v: v, epoch: tb.envs}
}

func (tb *TB) val(e *Env, i int) uint64 {
	if i < len(e.v) {
		return e.v[i]
	}
	return uint64(tb.Vars[i].Lo) & mask64(tb.Vars[i].W)
}

func (tb *TB) Eval(t *Term, env *Env) uint64 {
	if t.Op == OConst {
		return t.C
	}
	if t.evE == env.epoch {
		return t.ev
	}
	var r uint64
	b2u := func(b bool) uint64 {
		if b {
			return 1
		}
		return 0
	}
	switch t.Op {
	case OVar:
		// not cached: a variable may get a value after the first evaluation
		return tb.val(env, int(t.C)) & mask64(t.W)
	case OBnot:
		r = ^tb.Eval(t.A, env) & mask(t.W)
	case ONeg:
		r = -tb.Eval(t.A, env) & mask(t.W)
	case OTrunc:
		r = tb.Eval(t.A, env) & mask(t.W)
	case OZext:
		r = tb.Eval(t.A, env)
	case OSext:
		r = uint64(sx(tb.Eval(t.A, env), t.A.W)) & mask(t.W)
	case OIte:
		if tb.Eval(t.A, env) == 1 {
			r = tb.Eval(t.B, env)
		} else {
			r = tb.Eval(t.D, env)
		}
	case OEq:
		r = b2u(tb.Eval(t.A, env) == tb.Eval(t.B, env))
	case OUlt:
		r = b2u(tb.Eval(t.A, env) < tb.Eval(t.B, env))
	case OUle:
		r = b2u(tb.Eval(t.A, env) <= tb.Eval(t.B, env))
	case OSlt:
		r = b2u(sx(tb.Eval(t.A, env), t.A.W) < sx(tb.Eval(t.B, env), t.B.W))
	case OSle:
		r = b2u(sx(tb.Eval(t.A, env), t.A.W) <= sx(tb.Eval(t.B, env), t.B.W))
	case ONot:
		r = 1 - tb.Eval(t.A, env)
	case OBAnd:
		r = tb.Eval(t.A, env) & tb.Eval(t.B, env)
	case OBOr:
		r = tb.Eval(t.A, env) | tb.Eval(t.B, env)
	default:
		r = evalBin(t.Op, tb.Eval(t.A, env), tb.Eval(t.B, env), t.W)
	}
	t.ev, t.evE = r, env.epoch
	return r
}

// varsOf returns the indices of the variables of a term.
func (tb *TB) varsOf(t *Term) []int32 {
	if t.v1 == -1 {
		return nil
	}
	if t.vars != nil {
		return t.vars
	}
	if t.v1 >= 0 {
		t.vars = []int32{t.v1}
		return t.vars
	}
	set := map[int32]bool{}
	for _, x := range [3]*Term{t.A, t.B, t.D} {
		if x != nil {
			for _, v := range tb.varsOf(x) {
				set[v] = true
			}
		}
	}
	for v := range set {
		t.vars = append(t.vars, v)
	}
	return t.vars
}

func mask64(w uint8) uint64 {
	if w == 0 {
		return 1
	}
	return mask(w)
}

// ---- SMT printing

var smtOps = map[Op]string{
	OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul", OUdiv: "bvudiv", OUrem: "bvurem", OSdiv: "bvsdiv", OSrem: "bvsrem",
	OAnd: "bvand", OOr: "bvor", OXor: "bvxor", OShl: "bvshl", OLshr: "bvlshr", OAshr: "bvashr", OBnot: "bvnot", ONeg: "bvneg",
	OEq: "=", OUlt: "bvult", OUle: "bvule", OSlt: "bvslt", OSle: "bvsle", ONot: "not", OBAnd: "and", OBOr: "or", OIte: "ite",
}

func sortOf(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func bvLit(c uint64, w uint8) string {
	if w == 0 {
		if c == 1 {
			return "true"
		}
		return "false"
	}
	return fmt.Sprintf("(_ bv%d %d)", c, w)
}

// ref returns the name by which a term is referred to.
func (t *Term) ref(vars []*VarInfo) string {
	switch t.Op {
	case OConst:
		return bvLit(t.C, t.W)
	case OVar:
		return fmt.Sprintf("v%d", t.C)
	}
	return fmt.Sprintf("t%d", t.ID)
}

// body prints the defining expression of a non-leaf term.
func (t *Term) body(vars []*VarInfo) string {
	var sb strings.Builder
	switch t.Op {
	case OTrunc:
		fmt.Fprintf(&sb, "((_ extract %d 0) %s)", t.W-1, t.A.ref(vars))
	case OZext:
		fmt.Fprintf(&sb, "((_ zero_extend %d) %s)", t.W-t.A.W, t.A.ref(vars))
	case OSext:
		fmt.Fprintf(&sb, "((_ sign_extend %d) %s)", t.W-t.A.W, t.A.ref(vars))
	default:
		sb.WriteByte('(')
		sb.WriteString(smtOps[t.Op])
		for _, x := range [3]*Term{t.A, t.B, t.D} {
			if x != nil {
				sb.WriteByte(' ')
				sb.WriteString(x.ref(vars))
			}
		}
		sb.WriteByte(')')
	}
	return sb.String()
}

// ---- interval sets: exact satisfying sets of single-variable conditions

type ivset struct {
	iv []iv // sorted, disjoint, non-adjacent; signed values
}
type iv struct{ lo, hi int64 }

func ivAll(lo, hi int64) *ivset { return &ivset{[]iv{{lo, hi}}} }

func (s *ivset) inter(o *ivset) *ivset {
	r := &ivset{}
	i, j := 0, 0
	for i < len(s.iv) && j < len(o.iv) {
		lo, hi := max(s.iv[i].lo, o.iv[j].lo), min(s.iv[i].hi, o.iv[j].hi)
		if lo <= hi {
			r.iv = append(r.iv, iv{lo, hi})
		}
		if s.iv[i].hi < o.iv[j].hi {
			i++
		} else {
			j++
		}
	}
	return r
}

func (s *ivset) compl(lo, hi int64) *ivset {
	r := &ivset{}
	cur := lo
	done := false
	for _, x := range s.iv {
		if x.lo > cur {
			r.iv = append(r.iv, iv{cur, x.lo - 1})
		}
		if x.hi >= hi {
			done = true
			break
		}
		cur = x.hi + 1
	}
	if !done && cur <= hi {
		r.iv = append(r.iv, iv{cur, hi})
	}
	return r
}

// satSet0 computes the exact set of values of the single variable of t (boolean)
// for which t holds, or nil when the shape is not supported.
func (tb *TB) satSet0(t *Term) *ivset {
	if t.v1 < 0 {
		return nil
	}
	if s, ok := tb.dom[t.ID]; ok {
		return s
	}
	v := tb.Vars[t.v1]
	lo, hi := v.Lo, v.Hi
	var r *ivset
	switch t.Op {
	case OVar:
		if t.W == 0 {
			r = ivAll(1, 1)
			lo, hi = 0, 1
		}
	case ONot:
		if s := tb.satSet0(t.A); s != nil {
			if v.W == 0 {
				lo, hi = 0, 1
			}
			r = s.compl(lo, hi)
		}
	case OBAnd:
		a, b := tb.satSet0(t.A), tb.satSet0(t.B)
		if a != nil && b != nil {
			r = a.inter(b)
		}
	case OBOr:
		a, b := tb.satSet0(t.A), tb.satSet0(t.B)
		if a != nil && b != nil {
			if v.W == 0 {
				lo, hi = 0, 1
			}
			r = a.compl(lo, hi).inter(b.compl(lo, hi)).compl(lo, hi)
		}
	case OIte:
		c := tb.satSetC(t.A, v)
		a, b := tb.satSetC(t.B, v), tb.satSetC(t.D, v)
		if c != nil && a != nil && b != nil {
			if v.W == 0 {
				lo, hi = 0, 1
			}
			x := c.inter(a)
			y := c.compl(lo, hi).inter(b)
			r = x.compl(lo, hi).inter(y.compl(lo, hi)).compl(lo, hi)
		}
	case OEq, OSle, OSlt, OUle, OUlt:
		if t.B.isC() && t.A.W > 0 {
			r = tb.preimage(t.A, cmpSet(t.Op, t.B.C, t.A.W, false), v)
		} else if t.A.isC() && t.B.W > 0 {
			r = tb.preimage(t.B, cmpSet(t.Op, t.A.C, t.B.W, true), v)
		}
	}
	if r == nil {
		r = tb.enumSet(t, v)
	}
	tb.dom[t.ID] = r
	tb.held(r)
	return r
}

// uset is a union of sorted disjoint intervals of unsigned values.
type uset [][2]uint64

// cmpSet is the set of x with "x op c" ("c op x" when flipped).
func cmpSet(op Op, c uint64, w uint8, flip bool) uset {
	m := mask(w)
	c &= m
	h := uint64(1) << (w - 1)
	// signed order is unsigned order of x^h
	signed := func(lo, hi uint64) uset { // interval in the shifted order
		if lo > hi {
			return uset{}
		}
		switch {
		case hi < h: // all negative
			return uset{{lo + h, hi + h}}
		case lo >= h:
			return uset{{lo - h, hi - h}}
		}
		return uset{{0, hi - h}, {lo + h, m}}
	}
	k := (c ^ h) & m
	switch op {
	case OEq:
		return uset{{c, c}}
	case OUle, OUlt:
		strict := op == OUlt
		if !flip {
			if strict {
				if c == 0 {
					return uset{}
				}
				c--
			}
			return uset{{0, c}}
		}
		if strict {
			if c == m {
				return uset{}
			}
			c++
		}
		return uset{{c, m}}
	case OSle, OSlt:
		strict := op == OSlt
		if !flip {
			if strict {
				if k == 0 {
					return uset{}
				}
				k--
			}
			return signed(0, k)
		}
		if strict {
			if k == m {
				return uset{}
			}
			k++
		}
		return signed(k, m)
	}
	return nil
}

// preimage gives the values of the variable for which t lies in u, nil when not known.
func (tb *TB) preimage(t *Term, u uset, v *VarInfo) *ivset {
	lo, hi := v.Lo, v.Hi
	if v.W == 0 {
		lo, hi = 0, 1
	}
	if len(u) == 0 {
		return &ivset{}
	}
	if len(u) > 64 {
		return nil
	}
	w := t.W
	switch t.Op {
	case OConst:
		for _, x := range u {
			if x[0] <= t.C && t.C <= x[1] {
				return ivAll(lo, hi)
			}
		}
		return &ivset{}
	case OVar:
		if w == 0 {
			return nil
		}
		h := uint64(1) << (w - 1)
		out := &ivset{}
		var neg, pos []iv
		for _, x := range u {
			if x[0] < h {
				pos = append(pos, iv{int64(x[0]), int64(min(x[1], h-1))})
			}
			if x[1] >= h {
				neg = append(neg, iv{sx(max(x[0], h), w), sx(x[1], w)})
			}
		}
		out.iv = append(neg, pos...)
		// join adjacent intervals
		var j []iv
		for _, x := range out.iv {
			if n := len(j); n > 0 && j[n-1].hi+1 == x.lo {
				j[n-1].hi = x.hi
			} else {
				j = append(j, x)
			}
		}
		out.iv = j
		return out.inter(ivAll(lo, hi))
	case OZext:
		m := mask(t.A.W)
		var n uset
		for _, x := range u {
			if x[0] <= m {
				n = append(n, [2]uint64{x[0], min(x[1], m)})
			}
		}
		return tb.preimage(t.A, n, v)
	case OSext:
		// split at the sign, fold the upper part
		m := mask(t.A.W)
		h := uint64(1) << (t.A.W - 1)
		up := mask(w) - (h - 1) // first sign-extended negative
		var n, ng uset
		for _, x := range u {
			if x[0] < h {
				n = append(n, [2]uint64{x[0], min(x[1], h-1)})
			}
			if x[1] >= up {
				ng = append(ng, [2]uint64{max(x[0], up) & m, x[1] & m})
			}
		}
		return tb.preimage(t.A, append(n, ng...), v)
	case OTrunc:
		if t.A.lo < 0 {
			return nil
		}
		return tb.preLow(t.A, u, mask(w)+1, v)
	case OAnd:
		if t.B.isC() && t.A.lo >= 0 && t.B.C&(t.B.C+1) == 0 && t.B.C < 1<<40 {
			var n uset
			for _, x := range u {
				if x[0] <= t.B.C {
					n = append(n, [2]uint64{x[0], min(x[1], t.B.C)})
				}
			}
			return tb.preLow(t.A, n, t.B.C+1, v)
		}
	case OAdd, OSub:
		if t.B.isC() {
			d := t.B.C
			if t.Op == OAdd {
				d = -d & mask(w)
			}
			var n, wrap uset
			m := mask(w)
			for _, x := range u {
				a, b := (x[0]+d)&m, (x[1]+d)&m
				if a <= b {
					n = append(n, [2]uint64{a, b})
				} else {
					n = append(n, [2]uint64{a, m})
					wrap = append(wrap, [2]uint64{0, b})
				}
			}
			n = append(n, wrap...)
			return tb.preimage(t.A, sortU(n), v)
		}
	case OLshr:
		if t.B.isC() && t.B.C < uint64(w) {
			k := t.B.C
			top := mask(w) >> k
			var n uset
			for _, x := range u {
				if x[0] <= top {
					n = append(n, [2]uint64{x[0] << k, min(x[1], top)<<k | (1<<k - 1)})
				}
			}
			return tb.preimage(t.A, n, v)
		}
	case OIte:
		c := tb.satSetC(t.A, v)
		if c == nil {
			return nil
		}
		a, b := tb.preimage(t.B, u, v), tb.preimage(t.D, u, v)
		if a == nil || b == nil {
			return nil
		}
		x := c.inter(a)
		y := c.compl(lo, hi).inter(b)
		return x.compl(lo, hi).inter(y.compl(lo, hi)).compl(lo, hi)
	}
	return nil
}

func sortU(u uset) uset {
	sort.Slice(u, func(i, j int) bool { return u[i][0] < u[j][0] })
	return u
}

// preLow: preimage of "a mod m in u" for a non-negative a.
func (tb *TB) preLow(a *Term, u uset, m uint64, v *VarInfo) *ivset {
	if m == 0 || a.hi < 0 {
		return nil
	}
	k0, k1 := uint64(a.lo)/m, uint64(a.hi)/m
	if k1-k0 > 32 {
		return nil
	}
	var n uset
	for k := k0; k <= k1; k++ {
		for _, x := range u {
			if l := len(n); l > 0 && n[l-1][1]+1 == x[0]+k*m {
				n[l-1][1] = x[1] + k*m
			} else {
				n = append(n, [2]uint64{x[0] + k*m, x[1] + k*m})
			}
		}
	}
	return tb.preimage(a, n, v)
}

// enumSet evaluates a condition over a small domain.
func (tb *TB) enumSet(t *Term, v *VarInfo) *ivset {
	lo, hi := v.Lo, v.Hi
	if v.W == 0 {
		lo, hi = 0, 1
	}
	if hi-lo > 300 || t.W != 0 {
		return nil
	}
	out := &ivset{}
	m := make([]uint64, t.v1+1)
	for x := lo; x <= hi; x++ {
		m[t.v1] = uint64(x) & mask64(v.W)
		if tb.Eval(t, tb.NewEnv(m)) == 1 {
			if n := len(out.iv); n > 0 && out.iv[n-1].hi+1 == x {
				out.iv[n-1].hi = x
			} else {
				out.iv = append(out.iv, iv{x, x})
			}
		}
	}
	return out
}

func (tb *TB) satSetC(t *Term, v *VarInfo) *ivset {
	if t.isC() {
		lo, hi := v.Lo, v.Hi
		if v.W == 0 {
			lo, hi = 0, 1
		}
		if t.C == 1 {
			return ivAll(lo, hi)
		}
		return &ivset{}
	}
	return tb.satSet0(t)
}

// satSet computes the exact set of values of the single variable of t (boolean) for which t
// holds, or nil when it is not known how to.
func (tb *TB) satSet(t *Term) *ivset {
	if s := tb.satSet0(t); s != nil || t.v1 < 0 {
		return s
	}
	if s, ok := tb.dom2[t.ID]; ok {
		return s
	}
	v := tb.Vars[t.v1]
	lo, hi := v.Lo, v.Hi
	if v.W == 0 {
		lo, hi = 0, 1
	}
	if tb.dom2 == nil {
		tb.dom2 = map[uint32]*ivset{}
	}
	tb.budget = 100000
	s := tb.satIn(t, v, ivAll(lo, hi))
	if tb.dom2 == nil {
		tb.dom2 = map[uint32]*ivset{}
	}
	tb.dom2[t.ID] = s
	tb.held(s)
	return s
}

// held counts the intervals kept and forgets them when there are too many.
func (tb *TB) held(s *ivset) {
	if s == nil {
		return
	}
	if tb.nheld += len(s.iv); tb.nheld > 6000000 {
		tb.nheld = 0
		tb.dom, tb.dom2 = map[uint32]*ivset{}, nil
	}
}

// minus is the part of s that is not in o.
func (s *ivset) minus(o *ivset) *ivset {
	if len(s.iv) == 0 || len(o.iv) == 0 {
		return s
	}
	return s.inter(o.compl(s.iv[0].lo, s.iv[len(s.iv)-1].hi))
}

// union is the union of two sets.
func (s *ivset) union(o *ivset) *ivset {
	if len(s.iv) == 0 {
		return o
	}
	if len(o.iv) == 0 {
		return s
	}
	lo, hi := min(s.iv[0].lo, o.iv[0].lo), max(s.iv[len(s.iv)-1].hi, o.iv[len(o.iv)-1].hi)
	return s.compl(lo, hi).inter(o.compl(lo, hi)).compl(lo, hi)
}

func (s *ivset) count() int64 {
	n := int64(0)
	for _, x := range s.iv {
		n += x.hi - x.lo + 1
	}
	return n
}

// satIn computes the values of ctx for which t holds.
func (tb *TB) satIn(t *Term, v *VarInfo, ctx *ivset) *ivset {
	if tb.budget--; tb.budget < 0 {
		return nil
	}
	if len(ctx.iv) == 0 {
		return ctx
	}
	if t.isC() {
		if t.C == 1 {
			return ctx
		}
		return &ivset{}
	}
	if s := tb.satSet0(t); s != nil {
		return ctx.inter(s)
	}
	if s := tb.dom2[t.ID]; s != nil {
		return ctx.inter(s)
	}
	switch t.Op {
	case ONot:
		if s := tb.satIn(t.A, v, ctx); s != nil {
			return ctx.minus(s)
		}
	case OBAnd, OBOr:
		// the simplest operands first: they narrow the context of the others
		ops := flatten(t, t.Op, nil)
		sort.SliceStable(ops, func(i, j int) bool { return ops[i].size < ops[j].size })
		rest := ctx // where the result is not known yet
		for len(ops) > 0 {
			var later []*Term
			for _, x := range ops {
				s := tb.satIn(x, v, rest)
				switch {
				case s == nil:
					later = append(later, x)
				case t.Op == OBAnd:
					rest = s
				default:
					rest = rest.minus(s)
				}
			}
			if len(later) == len(ops) {
				break
			}
			ops = later
		}
		if len(ops) == 0 {
			if t.Op == OBAnd {
				return rest
			}
			return ctx.minus(rest)
		}
	case OIte:
		if c := tb.satIn(t.A, v, ctx); c != nil {
			a, b := tb.satIn(t.B, v, c), tb.satIn(t.D, v, ctx.minus(c))
			if a != nil && b != nil {
				return a.union(b)
			}
		}
	case OEq, OSle, OSlt, OUle, OUlt:
		var s *ivset
		if t.B.isC() && t.A.W > 0 {
			s = tb.preIn(t.A, cmpSet(t.Op, t.B.C, t.A.W, false), v, ctx)
		} else if t.A.isC() && t.B.W > 0 {
			s = tb.preIn(t.B, cmpSet(t.Op, t.A.C, t.B.W, true), v, ctx)
		}
		if s != nil {
			return s
		}
	}
	if ctx.count() > 4096 || t.v1 < 0 {
		return nil
	}
	return tb.enumIn(ctx, v, t, func(y uint64) bool { return y == 1 })
}

// enumIn evaluates t over the values of ctx.
func (tb *TB) enumIn(ctx *ivset, v *VarInfo, t *Term, ok func(uint64) bool) *ivset {
	out := &ivset{}
	i := int32(v.T.C)
	m := make([]uint64, i+1)
	for _, c := range ctx.iv {
		for x := c.lo; x <= c.hi; x++ {
			tb.budget--
			m[i] = uint64(x) & mask64(v.W)
			if ok(tb.Eval(t, tb.NewEnv(m))) {
				if n := len(out.iv); n > 0 && out.iv[n-1].hi+1 == x {
					out.iv[n-1].hi = x
				} else {
					out.iv = append(out.iv, iv{x, x})
				}
			}
		}
	}
	return out
}

// preIn is preimage within ctx, for the shapes where ctx helps.
func (tb *TB) preIn(t *Term, u uset, v *VarInfo, ctx *ivset) *ivset {
	if tb.budget--; tb.budget < 0 {
		return nil
	}
	if len(ctx.iv) == 0 || len(u) == 0 {
		return &ivset{}
	}
	switch t.Op {
	case OIte:
		if c := tb.satIn(t.A, v, ctx); c != nil {
			a, b := tb.preIn(t.B, u, v, c), tb.preIn(t.D, u, v, ctx.minus(c))
			if a != nil && b != nil {
				return a.union(b)
			}
		}
		return nil
	case OZext:
		m := mask(t.A.W)
		var n uset
		for _, x := range u {
			if x[0] <= m {
				n = append(n, [2]uint64{x[0], min(x[1], m)})
			}
		}
		return tb.preIn(t.A, n, v, ctx)
	case OUrem:
		if !t.B.isC() || t.B.C == 0 {
			return nil
		}
		// the operand is the variable plus a constant, without wrapping over ctx
		x, d := t.A, uint64(0)
		if x.Op == OAdd && x.B.isC() {
			x, d = x.A, x.B.C
		}
		for x.Op == OZext || x.Op == OTrunc && ctx.iv[0].lo >= 0 && uint64(ctx.iv[len(ctx.iv)-1].hi) <= mask(x.W) {
			x = x.A
		}
		if x.Op != OVar {
			return nil
		}
		m := mask(t.W)
		a := (uint64(ctx.iv[0].lo) + d) & m
		b := (uint64(ctx.iv[len(ctx.iv)-1].hi) + d) & m
		k := t.B.C
		if a > b || b-a != uint64(ctx.iv[len(ctx.iv)-1].hi-ctx.iv[0].lo) || b/k-a/k > 2000 {
			return nil
		}
		out := &ivset{}
		for q := a / k; q <= b/k; q++ {
			for _, y := range u {
				if y[0] >= k {
					continue
				}
				lo, hi := q*k+y[0], q*k+min(y[1], k-1)
				if hi < a || lo > b {
					continue
				}
				lo, hi = max(lo, a), min(hi, b)
				c := ctx.iv[0].lo
				out = out.union(ivAll(c+int64(lo-a), c+int64(hi-a)))
			}
		}
		return out.inter(ctx)
	case OTrunc:
		if t.A.Op == OVar && t.A.W > t.W && ctx.iv[0].lo >= 0 && uint64(ctx.iv[len(ctx.iv)-1].hi) <= mask(t.W) {
			return tb.preIn(t.A, u, v, ctx)
		}
	}
	if s := tb.preimage(t, u, v); s != nil {
		return ctx.inter(s)
	}
	if ctx.count() > 4096 {
		return nil
	}
	return tb.enumIn(ctx, v, t, func(y uint64) bool {
		for _, x := range u {
			if x[0] <= y && y <= x[1] {
				return true
			}
		}
		return false
	})
}

// show renders a term for diagnostics.
func (tb *TB) show(t *Term, depth int) string {
	if t == nil {
		return ""
	}
	switch t.Op {
	case OConst:
		return fmt.Sprint(sx(t.C, t.W))
	case OVar:
		return tb.Vars[t.C].Name
	}
	if depth == 0 {
		return "..."
	}
	s := fmt.Sprintf("(op%d", t.Op)
	for _, x := range []*Term{t.A, t.B, t.D} {
		if x != nil {
			s += " " + tb.show(x, depth-1)
		}
	}
	return s + ")"
}

// flatten lists the operands of nested conjunctions or disjunctions.
func flatten(t *Term, op Op, out []*Term) []*Term {
	if t.Op == op {
		return flatten(t.B, op, flatten(t.A, op, out))
	}
	return append(out, t)
}
