package main

import (
	"fmt"
	"os"
	"strings"
)

// Conditions made of sums, comparisons and choices that provably never overflow are sent
// to the solver as linear integer arithmetic rather than as bit vectors.

type liaInfo struct{ ok map[*Term]bool }

func (l *liaInfo) good(t *Term) bool {
	if r, done := l.ok[t]; done {
		return r
	}
	r := l.good1(t)
	l.ok[t] = r
	return r
}

func (l *liaInfo) good1(t *Term) bool {
	for _, x := range [3]*Term{t.A, t.B, t.D} {
		if x != nil && !l.good(x) {
			return false
		}
	}
	w := t.W
	fits := func(lo, hi int64, ok bool) bool { return ok && lo >= minS(w) && hi <= maxS(w) }
	switch t.Op {
	case OConst, OVar:
		return true
	case OAdd:
		lo, o1 := addOv(t.A.lo, t.B.lo)
		hi, o2 := addOv(t.A.hi, t.B.hi)
		return fits(lo, hi, !o1 && !o2)
	case OSub:
		if t.B.lo <= -1<<62 || t.B.hi >= 1<<62 {
			return false
		}
		lo, o1 := addOv(t.A.lo, -t.B.hi)
		hi, o2 := addOv(t.A.hi, -t.B.lo)
		return fits(lo, hi, !o1 && !o2)
	case ONeg:
		return t.A.lo > minS(w)
	case OMul:
		const L = 1 << 31
		if !t.A.isC() && !t.B.isC() || t.A.lo <= -L || t.A.hi >= L || t.B.lo <= -L || t.B.hi >= L {
			return false
		}
		for _, p := range []int64{t.A.lo * t.B.lo, t.A.lo * t.B.hi, t.A.hi * t.B.lo, t.A.hi * t.B.hi} {
			if p < minS(w) || p > maxS(w) {
				return false
			}
		}
		return true
	case OZext:
		return t.A.lo >= 0 && t.A.W > 0
	case OSext:
		return t.A.W > 0
	case OTrunc:
		return t.A.lo >= minS(w) && t.A.hi <= maxS(w)
	case OIte, OEq, OSlt, OSle, ONot, OBAnd, OBOr:
		return true
	case OUlt, OUle:
		return t.A.lo >= 0 && t.B.lo >= 0
	}
	return false
}

var liaOps = map[Op]string{
	OAdd: "+", OSub: "-", ONeg: "-", OMul: "*", OEq: "=", OUlt: "<", OUle: "<=", OSlt: "<", OSle: "<=",
	ONot: "not", OBAnd: "and", OBOr: "or", OIte: "ite",
}

func liaLit(c int64) string {
	if c < 0 {
		return fmt.Sprintf("(- %d)", uint64(-c))
	}
	return fmt.Sprint(c)
}

func (s *Solver) sort(w uint8) string {
	if s.lia && w > 0 {
		return "Int"
	}
	return sortOf(w)
}

func (s *Solver) ref(t *Term) string {
	if s.lia && t.Op == OConst && t.W > 0 {
		return liaLit(sx(t.C, t.W))
	}
	return t.ref(s.tb.Vars)
}

func (s *Solver) body(t *Term) string {
	if !s.lia {
		return t.body(s.tb.Vars)
	}
	switch t.Op {
	case OTrunc, OZext, OSext:
		return s.ref(t.A)
	}
	var sb strings.Builder
	sb.WriteByte('(')
	sb.WriteString(liaOps[t.Op])
	for _, x := range [3]*Term{t.A, t.B, t.D} {
		if x != nil {
			sb.WriteByte(' ')
			sb.WriteString(s.ref(x))
		}
	}
	sb.WriteByte(')')
	return sb.String()
}

// alternate gives the integer solver when the query is suited to it.
func (s *Solver) alternate(pc []*Term, extra *Term) *Solver {
	if !s.useLIA || s.lia {
		return nil
	}
	if s.info == nil {
		s.info = &liaInfo{ok: map[*Term]bool{}}
	}
	if extra != nil && !s.info.good(extra) {
		return nil
	}
	for _, t := range pc {
		if !s.info.good(t) {
			return nil
		}
	}
	if s.alt == nil {
		if p := os.Getenv("GOSYM_LIALOG"); p != "" {
			s.log, _ = os.Create(p)
		}
		s.alt = &Solver{tb: s.tb, timeout: s.timeout, cmdline: s.cmdline, lia: true, log: s.log}
		s.alt.start()
	}
	s.alt.deadline = s.deadline
	return s.alt
}

// absorb counts the queries of the integer solver.
func (s *Solver) absorb(a *Solver) {
	s.Queries += a.Queries
	s.NSat += a.NSat
	s.NUnsat += a.NUnsat
	s.NUnk += a.NUnk
	s.Time += a.Time
	s.NLIA += a.Queries
	a.Queries, a.NSat, a.NUnsat, a.NUnk, a.Time = 0, 0, 0, 0, 0
}
