package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

type Result int

const (
	Unsat Result = iota
	Sat
	Unknown
)

func (r Result) String() string { return [...]string{"unsat", "sat", "unknown"}[r] }

// Solver drives one long-lived SMT process over a pipe.
type Solver struct {
	cmdline []string
	cmd     *exec.Cmd
	in      *bufio.Writer
	out     *bufio.Reader
	tb      *TB
	def     map[uint32]bool
	nvars   int
	ndefs   int
	stack   []*Term // asserted path-condition prefix (one scope each)
	Queries int
	NSat    int
	NUnsat  int
	NUnk    int
	Time    time.Duration
	timeout int // ms
	log     io.Writer
	dead    bool

	deadline time.Time
	raw      bool // send conditions as they are
	low      map[*Term]*Term
	lowered  int
	lowerOK  int

	useLIA bool
	lia    bool // integer arithmetic
	info   *liaInfo
	alt    *Solver
	NLIA   int

	sec2   *second
	shadow *Solver
	n2     [2]sampling
}

func NewSolver(tb *TB, kind string, timeoutMS int) *Solver {
	s := &Solver{tb: tb, timeout: timeoutMS}
	switch kind {
	case "cvc5":
		s.cmdline = []string{"cvc5", "--incremental", "--lang=smt2", "--produce-models", fmt.Sprintf("--tlimit-per=%d", timeoutMS)}
	case "z3":
		s.cmdline = []string{"z3", "-in", fmt.Sprintf("-t:%d", timeoutMS)}
	default:
		s.cmdline = []string{"z3-new", "-in", fmt.Sprintf("-t:%d", timeoutMS)}
	}
	s.start()
	return s
}

func (s *Solver) start() {
	s.cmd = exec.Command(s.cmdline[0], s.cmdline[1:]...)
	in, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	s.cmd.Stderr = os.Stderr
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.in = bufio.NewWriterSize(in, 1<<16)
	s.out = bufio.NewReaderSize(out, 1<<16)
	s.def = map[uint32]bool{}
	s.nvars, s.ndefs, s.stack = 0, 0, nil
	s.dead = false
	s.w("(set-option :global-declarations true)\n(set-option :produce-models true)\n(set-logic " + map[bool]string{false: "QF_BV", true: "QF_LIA"}[s.lia] + ")\n")
}

func (s *Solver) Close() {
	if s.alt != nil {
		s.alt.Close()
		s.alt = nil
	}
	if s.shadow != nil {
		s.shadow.Close()
		s.shadow = nil
	}
	if s.cmd != nil && s.cmd.Process != nil {
		_ = s.cmd.Process.Kill()
		_ = s.cmd.Wait()
	}
}

func (s *Solver) restart() {
	o := s.shadow
	s.shadow = nil
	s.Close()
	s.shadow = o
	s.start()
}

func (s *Solver) w(str string) {
	if s.log != nil {
		io.WriteString(s.log, str)
	}
	s.in.WriteString(str)
}

func (s *Solver) declare() {
	if s.nvars == len(s.tb.Vars) {
		return
	}
	// declarations and range constraints are asserted at level 0
	if len(s.stack) > 0 {
		s.w(fmt.Sprintf("(pop %d)\n", len(s.stack)))
		s.stack = s.stack[:0]
	}
	for ; s.nvars < len(s.tb.Vars); s.nvars++ {
		v := s.tb.Vars[s.nvars]
		s.w(fmt.Sprintf("(declare-fun v%d () %s)\n", s.nvars, s.sort(v.W)))
		if s.lia {
			if v.W > 0 {
				s.w(fmt.Sprintf("(assert (and (<= %s v%d) (<= v%d %s)))\n", liaLit(v.Lo), s.nvars, s.nvars, liaLit(v.Hi)))
			}
		} else if r := rangeOf(v, s.nvars); r != "" {
			s.w("(assert " + r + ")\n")
		}
	}
}

// rangeOf returns the defining range constraint of a variable.
func rangeOf(v *VarInfo, i int) string {
	if v.W == 0 {
		return ""
	}
	if v.Lo == minS(v.W) && v.Hi == maxS(v.W) {
		return ""
	}
	return fmt.Sprintf("(and (bvsle %s v%d) (bvsle v%d %s))", bvLit(uint64(v.Lo)&mask(v.W), v.W), i, i, bvLit(uint64(v.Hi)&mask(v.W), v.W))
}

func (s *Solver) define(t *Term) {
	if t.Op == OConst || t.Op == OVar || s.def[t.ID] {
		return
	}
	// iterative post-order
	type item struct {
		t   *Term
		exp bool
	}
	st := []item{{t, false}}
	for len(st) > 0 {
		it := st[len(st)-1]
		st = st[:len(st)-1]
		x := it.t
		if x.Op == OConst || x.Op == OVar || s.def[x.ID] {
			continue
		}
		if it.exp {
			s.w(fmt.Sprintf("(define-fun t%d () %s %s)\n", x.ID, s.sort(x.W), s.body(x)))
			s.def[x.ID] = true
			s.ndefs++
			continue
		}
		st = append(st, item{x, true})
		for _, y := range [3]*Term{x.A, x.B, x.D} {
			if y != nil && !s.def[y.ID] {
				st = append(st, item{y, false})
			}
		}
	}
}

// sync aligns the solver's assertion stack with the path condition.
func (s *Solver) sync(pc []*Term) {
	if s.dead {
		s.restart()
	}
	if s.ndefs > 60000 {
		s.restart()
	}
	for _, t := range pc {
		s.lower(t)
	}
	s.declare()
	for i := range s.stack {
		if i >= len(pc) || s.stack[i] != pc[i] {
			s.w(fmt.Sprintf("(pop %d)\n", len(s.stack)-i))
			s.stack = s.stack[:i]
			break
		}
	}
	for len(s.stack) < len(pc) {
		t := pc[len(s.stack)]
		c := s.lower(t)
		s.define(c)
		s.w(fmt.Sprintf("(push 1)\n(assert %s)\n", s.ref(c)))
		s.stack = append(s.stack, t)
	}
}

// Check decides pc /\ extra. ranges of all variables are part of the query.
func (s *Solver) Check(pc []*Term, extra *Term) Result {
	r := s.check(pc, extra)
	if s.sec2 != nil {
		s.recheck(pc, extra, r)
	}
	return r
}

func (s *Solver) check(pc []*Term, extra *Term) Result {
	if a := s.alternate(pc, extra); a != nil {
		r := a.Check(pc, extra)
		s.absorb(a)
		return r
	}
	t0 := time.Now()
	defer func() { s.Time += time.Since(t0); s.slow(t0, pc, extra) }()
	s.Queries++
	if extra != nil {
		extra = s.lower(extra)
	}
	s.sync(pc)
	if extra != nil {
		s.define(extra)
	}
	s.w("(push 1)\n")
	if extra != nil {
		s.w(fmt.Sprintf("(assert %s)\n", s.ref(extra)))
	}
	s.w("(check-sat)\n")
	r := s.readResult()
	if !s.dead {
		s.w("(pop 1)\n")
	}
	switch r {
	case Sat:
		s.NSat++
	case Unsat:
		s.NUnsat++
	default:
		s.NUnk++
	}
	return r
}

func (s *Solver) readResult() Result {
	s.in.Flush()
	// the solver's own time limit is not always honoured
	lim := time.Duration(s.timeout)*time.Millisecond + 3*time.Second
	if !s.deadline.IsZero() {
		if d := time.Until(s.deadline); d < lim {
			lim = max(d, 500*time.Millisecond)
		}
	}
	p := s.cmd.Process
	defer time.AfterFunc(lim, func() { _ = p.Kill() }).Stop()
	for {
		line, err := s.out.ReadString('\n')
		if err != nil {
			s.dead = true
			return Unknown
		}
		line = strings.TrimSpace(line)
		switch {
		case line == "sat":
			return Sat
		case line == "unsat":
			return Unsat
		case line == "unknown" || line == "timeout":
			return Unknown
		case strings.HasPrefix(line, "(error"):
			fmt.Fprintln(os.Stderr, "solver error:", line)
			s.dead = true // inconclusive; start afresh
			return Unknown
		case line == "":
		default:
			fmt.Fprintln(os.Stderr, "solver said:", line)
		}
	}
}

// Model decides pc /\ extra and returns values of all variables when sat.
func (s *Solver) Model(pc []*Term, extra *Term) (Result, []uint64) {
	r, m := s.model(pc, extra)
	if s.sec2 != nil {
		s.recheck(pc, extra, r)
	}
	return r, m
}

func (s *Solver) model(pc []*Term, extra *Term) (Result, []uint64) {
	if a := s.alternate(pc, extra); a != nil {
		r, m := a.Model(pc, extra)
		s.absorb(a)
		return r, m
	}
	t0 := time.Now()
	defer func() { s.Time += time.Since(t0); s.slow(t0, pc, extra) }()
	s.Queries++
	if extra != nil {
		extra = s.lower(extra)
	}
	s.sync(pc)
	if extra != nil {
		s.define(extra)
	}
	s.w("(push 1)\n")
	if extra != nil {
		s.w(fmt.Sprintf("(assert %s)\n", s.ref(extra)))
	}
	s.w("(check-sat)\n")
	r := s.readResult()
	var env []uint64
	if r == Sat {
		s.NSat++
		env = make([]uint64, s.nvars)
		if s.nvars > 0 {
			var sb strings.Builder
			sb.WriteString("(get-value (")
			for i := 0; i < s.nvars; i++ {
				fmt.Fprintf(&sb, " v%d", i)
			}
			sb.WriteString("))\n")
			s.w(sb.String())
			s.in.Flush()
			s.readValues(env)
		}
	} else if r == Unsat {
		s.NUnsat++
	} else {
		s.NUnk++
	}
	if !s.dead {
		s.w("(pop 1)\n")
	}
	return r, env
}

// readValues parses ((v0 #x..) (v1 true) ...).
func (s *Solver) readValues(env []uint64) {
	depth := 0
	var sb strings.Builder
	for {
		c, err := s.out.ReadByte()
		if err != nil {
			s.dead = true
			return
		}
		if c == '(' {
			depth++
		}
		if c == ')' {
			depth--
		}
		sb.WriteByte(c)
		if depth == 0 && c == ')' {
			break
		}
	}
	f := strings.FieldsFunc(sb.String(), func(r rune) bool { return r == '(' || r == ')' || r == ' ' || r == '\n' })
	for i := 0; i+1 < len(f); i++ {
		if len(f[i]) < 2 || f[i][0] != 'v' {
			continue
		}
		var n int
		if _, err := fmt.Sscanf(f[i][1:], "%d", &n); err != nil || n >= len(env) {
			continue
		}
		val := f[i+1]
		n0 := n
		var x uint64
		switch {
		case strings.HasPrefix(val, "#x"):
			x, _ = strconv.ParseUint(val[2:], 16, 64)
		case strings.HasPrefix(val, "#b"):
			x, _ = strconv.ParseUint(val[2:], 2, 64)
		case val == "true":
			x = 1
		case val == "-" && i+2 < len(f):
			n, _ := strconv.ParseInt(f[i+2], 10, 64)
			x = uint64(-n) & mask64(s.tb.Vars[n0].W)
		case val[0] >= '0' && val[0] <= '9':
			n, _ := strconv.ParseInt(val, 10, 64)
			x = uint64(n) & mask64(s.tb.Vars[n0].W)
		case val == "_" && i+2 < len(f) && strings.HasPrefix(f[i+2], "bv"):
			x, _ = strconv.ParseUint(f[i+2][2:], 10, 64)
		}
		env[n] = x
	}
}

// lowerSize is the (tree) size above which a condition on a single variable is sent to the
// solver as a search tree over the bounds of its set of solutions.
const lowerSize = 1500

// lower replaces the large single-variable conditions in t by the compact equivalent.
// The solver itself confirms the equivalence of the first ones.
func (s *Solver) lower(t *Term) *Term {
	if t.W != 0 || t.size < lowerSize || s.raw {
		return t
	}
	if c, ok := s.low[t]; ok {
		return c
	}
	c := t
	tb := s.tb
	if t.v1 >= 0 {
		if set := tb.satSet(t); set != nil && len(set.iv) < 2000 {
			c = tb.member(tb.Vars[t.v1], t.v1, set)
			if c.size >= t.size {
				c = t
			} else if s.lowered++; s.lowered <= 2 {
				s.raw = true
				r := s.Check(nil, tb.Or(tb.And(t, tb.Not(c)), tb.And(c, tb.Not(t))))
				s.raw = false
				if r == Sat {
					panic("lowering of a condition is not equivalent")
				}
				if r == Unsat {
					s.lowerOK++
				}
			}
		}
	} else {
		switch t.Op {
		case ONot:
			c = tb.Not(s.lower(t.A))
		case OBAnd:
			c = tb.And(s.lower(t.A), s.lower(t.B))
		case OBOr:
			c = tb.Or(s.lower(t.A), s.lower(t.B))
		}
	}
	if s.low == nil {
		s.low = map[*Term]*Term{}
	}
	s.low[t] = c
	return c
}

// member builds a balanced search for the value of variable i in set.
func (tb *TB) member(v *VarInfo, i int32, set *ivset) *Term {
	lo, hi := v.Lo, v.Hi
	x := v.T
	if v.W == 0 {
		if len(set.iv) == 0 {
			return tb.False
		}
		if set.iv[0].lo == 0 && set.iv[len(set.iv)-1].hi == 1 {
			return tb.True
		}
		if set.iv[0].lo == 1 {
			return x
		}
		return tb.Not(x)
	}
	c := func(n int64) *Term { return tb.Const(uint64(n)&mask(v.W), v.W) }
	var rec func(ivs []iv, lo, hi int64) *Term
	rec = func(ivs []iv, lo, hi int64) *Term {
		switch len(ivs) {
		case 0:
			return tb.False
		case 1:
			r := tb.True
			if ivs[0].lo > lo {
				r = tb.And(r, tb.Cmp(OSle, c(ivs[0].lo), x))
			}
			if ivs[0].hi < hi {
				r = tb.And(r, tb.Cmp(OSle, x, c(ivs[0].hi)))
			}
			return r
		}
		m := len(ivs) / 2
		cut := ivs[m].lo
		return tb.Ite(tb.Cmp(OSlt, x, c(cut)), rec(ivs[:m], lo, cut-1), rec(ivs[m:], cut, hi))
	}
	return rec(set.iv, lo, hi)
}
