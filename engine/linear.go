package main

import "math"

// Linear facts: the comparisons that hold on the current path, kept as bounds of sums of
// terms. A comparison that follows from one or two of them needs no query.

type linTerm struct {
	t *Term
	c int64
}

// lin is the sum of the terms plus k.
type lin struct {
	k  int64
	ts []linTerm // by increasing ID
}

type linFact struct {
	l  *lin
	ub int64
}

const linMax = 12

func (a *lin) add(b *lin, f int64) *lin {
	if a == nil || b == nil {
		return nil
	}
	r := &lin{k: a.k + f*b.k, ts: make([]linTerm, 0, len(a.ts)+len(b.ts))}
	i, j := 0, 0
	for i < len(a.ts) || j < len(b.ts) {
		switch {
		case j == len(b.ts) || i < len(a.ts) && a.ts[i].t.ID < b.ts[j].t.ID:
			r.ts = append(r.ts, a.ts[i])
			i++
		case i == len(a.ts) || b.ts[j].t.ID < a.ts[i].t.ID:
			r.ts = append(r.ts, linTerm{b.ts[j].t, f * b.ts[j].c})
			j++
		default:
			if c := a.ts[i].c + f*b.ts[j].c; c != 0 {
				r.ts = append(r.ts, linTerm{a.ts[i].t, c})
			}
			i++
			j++
		}
	}
	if len(r.ts) > linMax {
		return nil
	}
	return r
}

// linOf is the linear form of a term that does not overflow, nil when there is none.
func (tb *TB) linOf(t *Term) *lin {
	if r, ok := tb.lins[t]; ok {
		return r
	}
	if tb.lins == nil {
		tb.lins = map[*Term]*lin{}
		tb.linInfo = &liaInfo{ok: map[*Term]bool{}}
	}
	var r *lin
	const L = 1 << 58
	switch {
	case t.W == 0:
	case t.isC():
		if v := sx(t.C, t.W); v > -L && v < L {
			r = &lin{k: v}
		}
	case t.lo <= -L || t.hi >= L:
	case t.Op == OVar || !tb.linInfo.good(t):
		r = &lin{ts: []linTerm{{t, 1}}}
	case t.Op == OAdd:
		r = tb.linOf(t.A).add(tb.linOf(t.B), 1)
	case t.Op == OSub:
		r = tb.linOf(t.A).add(tb.linOf(t.B), -1)
	case t.Op == ONeg:
		r = (&lin{}).add(tb.linOf(t.A), -1)
	case t.Op == OSext || t.Op == OTrunc || t.Op == OZext:
		r = tb.linOf(t.A)
	case t.Op == OMul && t.B.isC() && sx(t.B.C, t.W) < 1<<20 && sx(t.B.C, t.W) > -1<<20 && t.A.hi < 1<<20 && t.A.lo > -1<<20:
		r = (&lin{}).add(tb.linOf(t.A), sx(t.B.C, t.W))
	default:
		r = &lin{ts: []linTerm{{t, 1}}}
	}
	tb.lins[t] = r
	return r
}

// leq gives l such that the comparison t is equivalent to l <= 0.
func (tb *TB) leq(t *Term) *lin {
	neg := false
	if t.Op == ONot {
		neg = true
		t = t.A
	}
	if t.Op != OSle && t.Op != OSlt || t.A.W == 0 {
		return nil
	}
	l := tb.linOf(t.A).add(tb.linOf(t.B), -1) // a-b
	if l == nil {
		return nil
	}
	// copy: the forms are shared
	l = &lin{k: l.k, ts: l.ts}
	if t.Op == OSlt {
		l.k++
	}
	if neg { // l > 0 iff 1-l <= 0
		l = (&lin{k: 1}).add(l, -1)
	}
	return l
}

func (vm *VM) noteLin(t *Term) {
	if t.Op == OEq && t.A.W > 0 {
		if l := vm.tb.linOf(t.A).add(vm.tb.linOf(t.B), -1); l != nil && len(l.ts) > 0 {
			vm.facts = append(vm.facts, linFact{l, 0}, linFact{(&lin{}).add(l, -1), 0})
		}
		return
	}
	if l := vm.tb.leq(t); l != nil && len(l.ts) > 1 {
		vm.facts = append(vm.facts, linFact{l, 0})
	}
}

// maxOf bounds l from the facts of the path.
func (vm *VM) maxOf(l *lin, depth int) int64 {
	best := l.k
	for _, x := range l.ts {
		lo, hi := x.t.lo, x.t.hi
		if x.t.Op == OVar {
			d := vm.domOf(x.t.v1)
			if n := len(d.iv); n > 0 {
				lo, hi = d.iv[0].lo, d.iv[n-1].hi
			}
		}
		if x.c > 0 {
			best += x.c * hi
		} else {
			best += x.c * lo
		}
	}
	if depth == 0 {
		return best
	}
	for _, f := range vm.facts {
		if !cancels(l, f.l) {
			continue
		}
		r := l.add(f.l, -1)
		if r == nil || len(r.ts) > len(l.ts)+1 {
			continue
		}
		if m := vm.maxOf(r, depth-1) + f.ub; m < best {
			best = m
		}
	}
	return best
}

func cancels(a, b *lin) bool {
	i, j := 0, 0
	for i < len(a.ts) && j < len(b.ts) {
		switch {
		case a.ts[i].t.ID < b.ts[j].t.ID:
			i++
		case b.ts[j].t.ID < a.ts[i].t.ID:
			j++
		default:
			if a.ts[i].c == b.ts[j].c {
				return true
			}
			i++
			j++
		}
	}
	return false
}

// linear decides a comparison from the facts: 1, 0, or -1 when they do not tell.
func (vm *VM) linear(t *Term) int {
	if t.Op == OBAnd {
		a, b := vm.linear(t.A), vm.linear(t.B)
		switch {
		case a == 0 || b == 0:
			return 0
		case a == 1 && b == 1:
			return 1
		}
		return -1
	}
	l := vm.tb.leq(t)
	if l == nil || len(l.ts) == 0 {
		return -1
	}
	if vm.maxOf(l, 2) <= 0 {
		return 1
	}
	if vm.maxOf((&lin{k: 1}).add(l, -1), 2) <= 0 {
		return 0
	}
	return -1
}

// linRange bounds a term from the facts.
func (vm *VM) linRange(t *Term) (int64, int64) {
	l := vm.tb.linOf(t)
	if l == nil {
		return math.MinInt64, math.MaxInt64
	}
	return -vm.maxOf((&lin{}).add(l, -1), 2), vm.maxOf(l, 2)
}
