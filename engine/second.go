package main

// A second solver: a sample of the queries is sent again, always as bit vectors,
// to another solver, within a budget of time.

import (
	"os/exec"
	"sync"
	"time"
)

type sampling struct{ n, next int }

type second struct {
	kind   string
	budget time.Duration // of each worker
	mu     sync.Mutex
	asked, agreed, unanswered,
	sat, unsat int
	disagree []string
	sec      float64
}

// check sends the query again when there is budget left. Queries are sampled more and more
// rarely so that the budget spreads over the run.
func (s *Solver) recheck(pc []*Term, extra *Term, r Result) {
	o := s.sec2
	if o == nil || r == Unknown || s.lia {
		return
	}
	n := &s.n2[r]
	if n.n++; n.n < n.next {
		return
	}
	n.next = n.n + 1 + n.n/20
	if s.shadow == nil {
		bin := map[string]string{"cvc5": "cvc5", "z3": "z3"}[o.kind]
		if _, err := exec.LookPath(bin); err != nil {
			s.sec2 = nil
			return
		}
		s.shadow = NewSolver(s.tb, o.kind, 2000)
		s.shadow.lowered = 100 // the first solver confirmed the equivalence
	}
	if s.shadow.Time > o.budget || time.Now().Add(3*time.Second).After(s.deadline) {
		return
	}
	t0 := s.shadow.Time
	r2 := s.shadow.Check(pc, extra)
	o.mu.Lock()
	defer o.mu.Unlock()
	o.sec += (s.shadow.Time - t0).Seconds()
	o.asked++
	switch {
	case r2 == Unknown:
		o.unanswered++
		return
	case r2 != r:
		if len(o.disagree) < 5 {
			o.disagree = append(o.disagree, s.shadow.cmdline[0]+" tells "+r2.String()+" where "+s.cmdline[0]+" tells "+r.String())
		}
		return
	case r2 == Sat:
		o.sat++
	default:
		o.unsat++
	}
	o.agreed++
}
