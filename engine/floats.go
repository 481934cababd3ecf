package main

import (
	"fmt"
	"go/token"
	"math"
)

// Symbolic float64 values that are not integers.
//
//   - FT is an exact function of one bounded integer term, given by a table of float64.
//   - FX is a sum of such values over different terms: an expression tree that can be
//     evaluated exactly once its leaves are known, with a fixed-point term that
//     approximates it within a known error. Comparisons are decided by the fixed-point
//     terms when they are further apart than the errors; otherwise (ties, mostly) the
//     leaves are enumerated and the comparison is done with float64.

type (
	FT struct {
		T    *Term
		lo   int64
		vals []float64
	}
	FX struct {
		N   *Term // value * 2^fxBits, 64 bits
		E   int64 // error, in the same unit
		max float64
		op  token.Token
		a   V
		b   V
	}
	fact struct {
		cond *Term
		c    int64
	}
)

const (
	fxBits   = 8
	maxTable = 4096
)

// noteLE records that cond is equivalent to t <= c.
func (tb *TB) noteLE(t, cond *Term, c int64) {
	if cond.isC() || t.isC() {
		return
	}
	if tb.facts == nil {
		tb.facts = map[*Term][]fact{}
	}
	for _, f := range tb.facts[t] {
		if f.cond == cond {
			return
		}
	}
	tb.facts[t] = append(tb.facts[t], fact{cond, c})
}

// rangeOf bounds t on the current path.
func (vm *VM) rangeOf(t *Term) (int64, int64) {
	lo, hi := t.lo, t.hi
	for _, f := range vm.tb.facts[t] {
		if vm.known[f.cond] && f.c < hi {
			hi = f.c
		}
		if vm.known[vm.tb.Not(f.cond)] && f.c+1 > lo {
			lo = f.c + 1
		}
	}
	if useLIA {
		l, h := vm.linRange(t)
		return max(lo, l), min(hi, h)
	}
	if t.Op == OVar {
		d := vm.domOf(t.v1)
		if l := d.iv[0].lo; l > lo {
			lo = l
		}
		if h := d.iv[len(d.iv)-1].hi; h < hi {
			hi = h
		}
	}
	return lo, hi
}

// table views a float as a function of one term.
func (vm *VM) table(v V) *FT {
	var t *Term
	f := func(i int64) float64 { return float64(i) }
	switch x := v.X.(type) {
	case *FT:
		return x
	case *FI:
		t = x.T
	case *FQ:
		t = x.T
		d := x.D
		f = func(i int64) float64 { return float64(i) / d }
	default:
		return nil
	}
	lo, hi := vm.rangeOf(t)
	if hi < lo || hi-lo >= maxTable {
		return nil
	}
	r := &FT{T: t, lo: lo, vals: make([]float64, hi-lo+1)}
	for i := range r.vals {
		r.vals[i] = f(lo + int64(i))
	}
	return r
}

func (t *FT) apply(f func(float64) float64) V {
	r := &FT{T: t.T, lo: t.lo, vals: make([]float64, len(t.vals))}
	same := true
	for i, v := range t.vals {
		r.vals[i] = f(v)
		if math.Float64bits(r.vals[i]) != math.Float64bits(r.vals[0]) {
			same = false
		}
	}
	if same {
		return vF(r.vals[0])
	}
	return V{X: r}
}

// affine views a table of whole numbers as a linear function of its term, when it is one.
func (t *FT) affine(tb *TB) (*FI, bool) {
	if len(t.vals) < 2 {
		return nil, false
	}
	c0, k := t.vals[0], t.vals[1]-t.vals[0]
	if !isInt(c0) || !isInt(k) {
		return nil, false
	}
	for i, v := range t.vals {
		if v != c0+float64(i)*k || !isInt(v) || v == 0 && math.Signbit(v) {
			return nil, false
		}
	}
	if t.T.W != 64 {
		return nil, false
	}
	return &FI{T: tb.Bin(OAdd, tb.Bin(OMul, t.T, tb.Const(uint64(int64(k)), 64)), tb.Const(uint64(int64(c0)-t.lo*int64(k)), 64))}, true
}

// floatMap applies a function of one float.
func (vm *VM) floatMap(v V, f func(float64) float64) V {
	if v.X == nil {
		return vF(f(v.f64()))
	}
	if t := vm.table(v); t != nil {
		return t.apply(f)
	}
	return vF(f(vm.concFloat(v).f64()))
}

func floatOp(op token.Token, x, y float64, k Kind) float64 {
	var r float64
	switch op {
	case token.ADD:
		r = x + y
	case token.SUB:
		r = x - y
	case token.MUL:
		r = x * y
	case token.QUO:
		r = x / y
	}
	if k == KF32 {
		r = float64(float32(r))
	}
	return r
}

// floatMap2 applies a function of two floats when both depend on the same term at most.
func (vm *VM) floatMap2(a, b V, f func(x, y float64) float64) (V, bool) {
	switch {
	case a.X == nil && b.X == nil:
		return vF(f(a.f64(), b.f64())), true
	case a.X == nil:
		if t := vm.table(b); t != nil {
			c := a.f64()
			return t.apply(func(y float64) float64 { return f(c, y) }), true
		}
	case b.X == nil:
		if t := vm.table(a); t != nil {
			c := b.f64()
			return t.apply(func(x float64) float64 { return f(x, c) }), true
		}
	default:
		ta, tb := floatLeaf(a), floatLeaf(b)
		if ta == nil || ta != tb {
			return V{}, false
		}
		x, y := vm.table(a), vm.table(b)
		if x == nil || y == nil {
			return V{}, false
		}
		lo, hi := x.lo, x.lo+int64(len(x.vals))-1
		if y.lo > lo {
			lo = y.lo
		}
		if h := y.lo + int64(len(y.vals)) - 1; h < hi {
			hi = h
		}
		if hi < lo {
			return V{}, false
		}
		i := 0
		r := &FT{T: ta, lo: lo, vals: x.vals[lo-x.lo : hi-x.lo+1]}
		return r.apply(func(v float64) float64 { i++; return f(v, y.vals[lo-y.lo+int64(i-1)]) }), true
	}
	return V{}, false
}

func floatLeaf(v V) *Term {
	switch x := v.X.(type) {
	case *FI:
		return x.T
	case *FQ:
		return x.T
	case *FT:
		return x.T
	}
	return nil
}

func fix(v float64) (int64, bool) {
	s := math.Round(math.Ldexp(v, fxBits))
	if math.IsNaN(s) || math.Abs(s) >= 1<<60 {
		return 0, false
	}
	return int64(s), true
}

// fx gives the fixed-point view of a float, or nil.
func (vm *VM) fx(v V) *FX {
	tb := vm.tb
	switch x := v.X.(type) {
	case *FX:
		return x
	case nil:
		n, ok := fix(v.f64())
		if !ok {
			return nil
		}
		return &FX{N: tb.Const(uint64(n), 64), E: 1, max: math.Abs(v.f64()), op: token.ILLEGAL, a: v}
	case *FI:
		if x.T.lo > -1<<40 && x.T.hi < 1<<40 {
			m := math.Max(math.Abs(float64(x.T.lo)), math.Abs(float64(x.T.hi)))
			return &FX{N: tb.Bin(OMul, x.T, tb.Const(1<<fxBits, 64)), max: m, op: token.ILLEGAL, a: v}
		}
	}
	t := vm.table(v)
	if t == nil {
		return nil
	}
	var m float64
	n := make([]int64, len(t.vals))
	for i, f := range t.vals {
		var ok bool
		if n[i], ok = fix(f); !ok {
			return nil
		}
		m = math.Max(m, math.Abs(f))
	}
	return &FX{N: vm.tree(t.T, t.lo, n), E: 1, max: m, op: token.ILLEGAL, a: v}
}

// tree is the term for n[t-lo].
func (vm *VM) tree(t *Term, lo int64, n []int64) *Term {
	tb := vm.tb
	same := true
	for _, v := range n {
		if v != n[0] {
			same = false
			break
		}
	}
	if same {
		return tb.Const(uint64(n[0]), 64)
	}
	m := len(n) / 2
	c := tb.Cmp(OSle, t, tb.Const(uint64(lo+int64(m)-1), 64))
	return tb.Ite(c, vm.tree(t, lo, n[:m]), vm.tree(t, lo+int64(m), n[m:]))
}

// fxBin adds or subtracts floats that depend on several terms.
func (vm *VM) fxBin(op token.Token, a, b V, k Kind) (V, bool) {
	if k == KF32 || op != token.ADD && op != token.SUB {
		return V{}, false
	}
	x, y := vm.fx(a), vm.fx(b)
	if x == nil || y == nil {
		return V{}, false
	}
	o := OAdd
	if op == token.SUB {
		o = OSub
	}
	r := &FX{N: vm.tb.Bin(o, x.N, y.N), max: x.max + y.max, op: op, a: a, b: b}
	if math.Ldexp(r.max, fxBits) >= 1<<60 {
		return V{}, false
	}
	r.E = x.E + y.E + int64(math.Ceil(math.Ldexp(r.max, fxBits-52))) + 1
	return V{X: r}, true
}

// fxCmp decides a < b or a <= b. When the difference is below the precision of the
// fixed-point terms both outcomes are explored, consistently along the path.
func (vm *VM) fxCmp(op token.Token, a, b V) (V, bool) {
	if a.X == b.X && a.X != nil {
		return vBool(op != token.LSS), true
	}
	x, y := vm.fx(a), vm.fx(b)
	if x == nil && y != nil && a.X == nil && math.Abs(a.f64()) > 2*y.max {
		return vBool(op != token.EQL && a.f64() < 0), true
	}
	if y == nil && x != nil && b.X == nil && math.Abs(b.f64()) > 2*x.max {
		return vBool(op != token.EQL && b.f64() > 0), true
	}
	if x == nil || y == nil {
		return V{}, false
	}
	al, ah := vm.floatBounds(a)
	bl, bh := vm.floatBounds(b)
	switch {
	case ah < bl:
		return vBool(op != token.EQL), true
	case bh < al:
		return vBool(false), true
	}
	tb := vm.tb
	d := tb.Bin(OSub, y.N, x.N)
	e := int64(8) // the same for most comparisons, so that one may follow from another
	for e < x.E+y.E {
		e *= 2
	}
	if op == token.EQL {
		if !vm.branchT(tb.And(tb.Cmp(OSle, d, tb.Const(uint64(e), 64)), tb.Cmp(OSle, tb.Const(uint64(-e), 64), d))) {
			return vBool(false), true
		}
	} else {
		gt, lt := tb.Cmp(OSlt, tb.Const(uint64(e), 64), d), tb.Cmp(OSlt, d, tb.Const(uint64(-e), 64))
		if useLIA {
			m := math.Ldexp(float64(2*e+2), -fxBits) + (math.Abs(x.max)+math.Abs(y.max))*1e-14
			if vm.minDiff(a, b) > m {
				vm.crossCheck(tb.Not(gt), Unsat)
				vm.addCond(gt)
				return vBool(true), true
			}
			if vm.minDiff(b, a) > m {
				vm.crossCheck(tb.Not(lt), Unsat)
				vm.addCond(lt)
				return vBool(false), true
			}
		}
		switch vm.concretize(tb.Ite(gt, tb.Const(1, 8), tb.Ite(lt, tb.Const(2, 8), tb.Const(0, 8)))) {
		case 1:
			vm.addCond(gt)
			return vBool(true), true
		case 2:
			vm.addCond(lt)
			return vBool(false), true
		}
	}
	if vm.sameFloat(a, b) {
		return vBool(op != token.LSS), true
	}
	less := func(a, b V) bool { return vm.branchT(vm.tie(a, b)) }
	var r bool
	switch op {
	case token.LSS:
		r = !less(b, a) && less(a, b)
	case token.LEQ:
		r = less(a, b) || !less(b, a)
	default:
		r = !less(a, b) && !less(b, a)
	}
	return vBool(r), true
}

// tie is the unknown outcome of a < b.
func (vm *VM) tie(a, b V) *Term {
	vm.nties++
	for i, t := range vm.ties {
		if vm.sameFloat(t[0], a) && vm.sameFloat(t[1], b) {
			return vm.tb.NewVar(fmt.Sprintf("tie#%d", i), 0, 0, 1, false)
		}
	}
	vm.ties = append(vm.ties, [2]V{a, b})
	return vm.tb.NewVar(fmt.Sprintf("tie#%d", len(vm.ties)-1), 0, 0, 1, false)
}

// floatBounds bounds a float, from what is known of the terms it depends on.
func (vm *VM) floatBounds(v V) (float64, float64) {
	if v.X == nil {
		return v.f64(), v.f64()
	}
	if x, ok := v.X.(*FX); ok {
		if x.op == token.ILLEGAL {
			return vm.floatBounds(x.a)
		}
		al, ah := vm.floatBounds(x.a)
		bl, bh := vm.floatBounds(x.b)
		if x.op == token.SUB {
			bl, bh = -bh, -bl
		}
		return al + bl, ah + bh // rounding is monotone
	}
	l, h := math.Inf(-1), math.Inf(1)
	switch x := v.X.(type) {
	case *FI:
		lo, hi := vm.rangeOf(x.T)
		l, h = float64(lo), float64(hi)
	case *FQ:
		lo, hi := vm.rangeOf(x.T)
		l, h = float64(lo)/x.D, float64(hi)/x.D
	case *FT:
		lo, hi := vm.rangeOf(x.T)
		if x.lo > lo {
			lo = x.lo
		}
		if m := x.lo + int64(len(x.vals)) - 1; m < hi {
			hi = m
		}
		if lo > hi {
			return l, h
		}
		l, h = h, l
		for i := lo; i <= hi; i++ {
			l, h = math.Min(l, x.vals[i-x.lo]), math.Max(h, x.vals[i-x.lo])
		}
	}
	return l, h
}

// sameFloat tells if both are the same expression.
func (vm *VM) sameFloat(a, b V) bool {
	switch x := a.X.(type) {
	case nil:
		return b.X == nil && a.N == b.N
	case *FX:
		y, ok := b.X.(*FX)
		if !ok {
			return false
		}
		if x == y {
			return true
		}
		if x.op != y.op {
			return false
		}
		if x.op == token.ILLEGAL {
			return vm.sameFloat(x.a, y.a)
		}
		return vm.sameFloat(x.a, y.a) && vm.sameFloat(x.b, y.b) ||
			x.op == token.ADD && vm.sameFloat(x.a, y.b) && vm.sameFloat(x.b, y.a)
	}
	if floatLeaf(a) == nil || floatLeaf(a) != floatLeaf(b) {
		return false
	}
	x, y := vm.table(a), vm.table(b)
	if x == nil || y == nil || x.lo != y.lo || len(x.vals) != len(y.vals) {
		return false
	}
	for i := range x.vals {
		if x.vals[i] != y.vals[i] {
			return false
		}
	}
	return true
}

// member is the condition that t is one of the values for which p holds.
func (vm *VM) member(t *FT, p func(float64) bool) *Term {
	tb := vm.tb
	r := tb.False
	n := int64(len(t.vals))
	for i := int64(0); i < n; {
		if !p(t.vals[i]) {
			i++
			continue
		}
		j := i
		for j+1 < n && p(t.vals[j+1]) {
			j++
		}
		c := tb.True
		if i > 0 {
			c = tb.Cmp(OSle, tb.Const(uint64(t.lo+i), 64), t.T)
		}
		if j < n-1 {
			le := tb.Cmp(OSle, t.T, tb.Const(uint64(t.lo+j), 64))
			if i == 0 {
				tb.noteLE(t.T, le, t.lo+j)
			}
			c = tb.And(c, le)
		}
		r = tb.Or(r, c)
		i = j + 1
	}
	return r
}

// leaves lists the terms of a sum.
func leaves(v V, out []V) ([]V, bool) {
	x, ok := v.X.(*FX)
	if !ok {
		return append(out, v), true
	}
	if x.op == token.ILLEGAL {
		return leaves(x.a, out)
	}
	if x.op != token.ADD {
		return nil, false
	}
	out, ok = leaves(x.a, out)
	if !ok {
		return nil, false
	}
	return leaves(x.b, out)
}

type leafT struct {
	v      V
	lo, hi float64
	t      *FT // nil for a constant or a large table
	tl, th int64
}

// minDiff bounds b - a from below: the terms of both sums are paired, using how the
// arguments of the tables compare.
func (vm *VM) minDiff(a, b V) float64 {
	prep := func(v V) ([]leafT, bool) {
		ls, ok := leaves(v, nil)
		if !ok || len(ls) > 6 {
			return nil, false
		}
		var r []leafT
		for _, x := range ls {
			l := leafT{v: x}
			l.lo, l.hi = vm.floatBounds(x)
			if x.X != nil {
				if t := vm.table(x); t != nil && len(t.vals) <= 100 {
					lo, hi := vm.rangeOf(t.T)
					l.t, l.tl, l.th = t, max(lo, t.lo), min(hi, t.lo+int64(len(t.vals))-1)
				}
			}
			r = append(r, l)
		}
		return r, true
	}
	la, ok1 := prep(a)
	lb, ok2 := prep(b)
	if !ok1 || !ok2 {
		return math.Inf(-1)
	}
	pair := make([][]float64, len(la))
	for i, x := range la {
		pair[i] = make([]float64, len(lb))
		for j, y := range lb {
			pair[i][j] = y.lo - x.hi
			if x.t == nil || y.t == nil {
				continue
			}
			kl, kh := vm.linDiff(y.t.T, x.t.T)
			best := math.Inf(1)
			for p := x.tl; p <= x.th; p++ {
				l, h := y.tl, y.th
				if kl > -1<<40 {
					l = max(l, p+kl)
				}
				if kh < 1<<40 {
					h = min(h, p+kh)
				}
				for q := l; q <= h; q++ {
					best = math.Min(best, y.t.vals[q-y.t.lo]-x.t.vals[p-x.t.lo])
				}
			}
			pair[i][j] = math.Max(pair[i][j], best)
		}
	}
	used := make([]bool, len(lb))
	var rec func(i int) float64
	rec = func(i int) float64 {
		if i == len(la) {
			s := 0.0
			for j, y := range lb {
				if !used[j] {
					s += y.lo
				}
			}
			return s
		}
		best := rec(i+1) - la[i].hi
		for j := range lb {
			if !used[j] {
				used[j] = true
				best = math.Max(best, pair[i][j]+rec(i+1))
				used[j] = false
			}
		}
		return best
	}
	return rec(0)
}

// linDiff bounds y - x.
func (vm *VM) linDiff(y, x *Term) (int64, int64) {
	d := vm.tb.linOf(y).add(vm.tb.linOf(x), -1)
	if d == nil {
		return math.MinInt64, math.MaxInt64
	}
	return -vm.maxOf((&lin{}).add(d, -1), 2), vm.maxOf(d, 2)
}
