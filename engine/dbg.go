package main

import (
	"fmt"
	"os"
	"time"
)

var debugSlow = os.Getenv("GOSYM_DEBUG_SLOW") != ""

func (s *Solver) slow(t0 time.Time, pc []*Term, extra *Term) {
	if !debugSlow || time.Since(t0) < 300*time.Millisecond {
		return
	}
	fmt.Fprintf(os.Stderr, "SLOW %v raw=%v pc=%d:", time.Since(t0), s.raw, len(pc))
	for _, t := range pc {
		fmt.Fprintf(os.Stderr, " %d(%d)", t.size, s.lower(t).size)
	}
	if extra != nil {
		n := 0
		if set := s.tb.satSet(extra); set != nil {
			n = len(set.iv)
		}
		if n == 0 {
			fmt.Fprintln(os.Stderr, "BLAME", s.tb.show(s.tb.blame(extra), 9))
		}
		fmt.Fprintf(os.Stderr, " extra v1=%d %d dag=%d set=%d op=%v", extra.v1, extra.size, dagSize(extra), n, extra.Op)
	}
	fmt.Fprintln(os.Stderr)
}

func dagSize(t *Term) int {
	seen := map[*Term]bool{}
	var f func(t *Term)
	f = func(t *Term) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		f(t.A)
		f(t.B)
		f(t.D)
	}
	f(t)
	return len(seen)
}

func (tb *TB) blame(t *Term) *Term {
	for {
		next := (*Term)(nil)
		for _, x := range []*Term{t.A, t.B, t.D} {
			if x != nil && x.W == 0 && x.Op != OConst && tb.satSet(x) == nil {
				next = x
			}
		}
		if next == nil {
			return t
		}
		t = next
	}
}
