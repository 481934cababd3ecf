package main

// Concurrent callers: the order of the synchronisation operations is symbolic, and for each
// order the solver decides whether two conflicting accesses can happen at the same time.
//
// A caller can be preempted before each operation that synchronises (lock, once, atomic, pool).
// This is enough when there is no data race, since what happens in between only touches memory
// that is not shared, or not written, or protected by a lock. Races are looked for on each path:
// every access belongs to a segment between two synchronisation points, points are ordered by the
// program and by the releases and acquisitions, and a race is a pair of conflicting accesses in
// segments that the solver can overlap.

import (
	"fmt"
	"go/token"
)

type (
	point struct{ thread, v int } // a synchronisation point

	acc struct {
		thread int32
		seg    int32 // index of the point that opens the segment
		write  bool
		pos    token.Pos
		cond   *Term // nil, or when the access is to this cell
	}

	symAcc struct {
		acc
		addr *SymAddr
	}

	syncVar struct {
		holder  int   // thread, or -1
		readers []int // threads, for read locks
		rel     []int // points that released last
		relR    []int // points that released read locks since
		running bool  // once
	}

	thread struct {
		id       int
		resume   chan bool
		done     bool
		blocked  func() bool
		started  bool
		pan      any
		regs     []V
		sp       int
		depth    int
		frame    *frame
		pos      token.Pos
		cur      int // current segment
		segments []int
	}

	accessLog struct {
		threads []*thread
		cur     *thread
		back    chan struct{}
		points  []int    // thread of each point
		edges   [][2]int // first before second
		cells   map[any][]acc
		syms    []symAcc
		vars    map[any]*syncVar
		nacc    int64
	}

	threadKill struct{}
)

func (l *accessLog) add(key any, write bool, pos token.Pos) {
	if l.cur == nil {
		return
	}
	l.nacc++
	t, s := int32(l.cur.id), int32(l.cur.cur)
	list := l.cells[key]
	for i := len(list) - 1; i >= 0; i-- {
		if list[i].thread == t && list[i].seg == s && (list[i].write || !write) {
			return
		}
	}
	l.cells[key] = append(list, acc{thread: t, seg: s, write: write, pos: pos})
}

// access logs an access to a variable, or to all the parts of a structure.
func (l *accessLog) access(vm *VM, p *V, write bool, pos token.Pos) {
	if ag, ok := p.X.(*Agg); ok && len(ag.E) <= 64 {
		for i := range ag.E {
			l.access(vm, &ag.E[i], write, pos)
		}
		if len(ag.E) > 0 {
			return
		}
	}
	l.add(p, write, pos)
}

func (l *accessLog) slice(vm *VM, e []V, write bool, pos token.Pos) {
	for i := range e {
		l.access(vm, &e[i], write, pos)
	}
}

func (l *accessLog) symAccess(vm *VM, a *SymAddr, pos token.Pos) {
	if l.cur != nil {
		l.syms = append(l.syms, symAcc{acc{thread: int32(l.cur.id), seg: int32(l.cur.cur), pos: pos}, a})
	}
}

func (l *accessLog) mapAccess(vm *VM, m *Map, write bool, pos token.Pos) { l.add(m, write, pos) }

func (l *accessLog) variable(p any) *syncVar {
	s := l.vars[p]
	if s == nil {
		s = &syncVar{holder: -1}
		l.vars[p] = s
	}
	return s
}

// newPoint closes the segment of the running thread.
func (l *accessLog) newPoint() int {
	n := len(l.points)
	l.points = append(l.points, l.cur.id)
	if l.cur.started {
		l.edges = append(l.edges, [2]int{l.cur.cur, n})
	}
	l.cur.started = true
	l.cur.cur = n
	l.cur.segments = append(l.cur.segments, n)
	return n
}

func (l *accessLog) acquired(from ...int) {
	n := l.newPoint()
	for _, f := range from {
		l.edges = append(l.edges, [2]int{f, n})
	}
}

// yield lets the scheduler choose which thread goes on.
func (l *accessLog) yield(vm *VM, blocked func() bool) {
	t := l.cur
	if t == nil {
		return
	}
	if vm.sub != nil {
		panic(mergeFail{})
	}
	t.blocked = blocked
	t.save(vm)
	l.back <- struct{}{}
	if !<-t.resume {
		panic(threadKill{})
	}
	t.restore(vm)
	t.blocked = nil
}

func (t *thread) save(vm *VM) {
	t.regs, t.sp, t.depth, t.frame, t.pos = vm.regs, vm.sp, vm.depth, vm.curFrame, vm.curPos
}

func (t *thread) restore(vm *VM) {
	vm.regs, vm.sp, vm.depth, vm.curFrame, vm.curPos = t.regs, t.sp, t.depth, t.frame, t.pos
}

func (l *accessLog) lock(vm *VM, p *V, excl bool) {
	if l.cur == nil {
		return
	}
	s := l.variable(p)
	l.yield(vm, func() bool { return s.holder >= 0 || excl && len(s.readers) > 0 })
	if excl {
		s.holder = l.cur.id
		l.acquired(append(append([]int{}, s.rel...), s.relR...)...)
	} else {
		s.readers = append(s.readers, l.cur.id)
		l.acquired(s.rel...)
	}
}

func (l *accessLog) unlock(vm *VM, p *V, excl bool) {
	if l.cur == nil {
		return
	}
	s := l.variable(p)
	n := l.newPoint()
	if excl {
		s.holder = -1
		s.rel, s.relR = []int{n}, nil
		return
	}
	for i, r := range s.readers {
		if r == l.cur.id {
			s.readers = append(s.readers[:i:i], s.readers[i+1:]...)
			break
		}
	}
	s.relR = append(s.relR, n)
}

// sync is an atomic operation: it acquires and releases.
func (l *accessLog) sync(vm *VM, p *V) {
	if l.cur == nil {
		return
	}
	l.yield(vm, nil)
	s := l.variable(p)
	l.acquired(s.rel...)
	s.rel = []int{l.newPoint()}
}

// onceBegin waits until the function of a sync.Once is not being run by another thread.
func (l *accessLog) onceBegin(vm *VM, p *V, done func() bool) {
	if l.cur == nil {
		return
	}
	s := l.variable(p)
	if !done() {
		l.yield(vm, func() bool { return s.running })
	}
	if done() {
		if len(s.rel) > 0 {
			l.acquired(s.rel...)
		}
		return
	}
	s.running = true
}

func (l *accessLog) onceEnd(vm *VM, p *V) {
	if l.cur == nil {
		return
	}
	s := l.variable(p)
	s.running = false
	s.rel = []int{l.newPoint()}
}

// concurrently runs functions at the same time and waits for all of them.
func (vm *VM) concurrently(fs []V) {
	if vm.reads != nil || vm.sub != nil || !vm.log {
		panic(vm.unsupp("nested concurrency"))
	}
	l := &accessLog{back: make(chan struct{}), cells: map[any][]acc{}, vars: map[any]*syncVar{}}
	var self thread
	self.save(vm)
	for i := range fs {
		f := fs[i]
		t := &thread{id: i, resume: make(chan bool), regs: make([]V, 1<<12), depth: vm.depth}
		l.threads = append(l.threads, t)
		go func() {
			if <-t.resume {
				func() {
					defer func() {
						if x := recover(); x != nil {
							t.pan = x
						}
					}()
					t.restore(vm)
					l.newPoint()
					vm.callValue(f, nil)
					l.newPoint()
				}()
			}
			t.done = true
			l.back <- struct{}{}
		}()
	}
	vm.reads = l
	killAll := func() {
		for _, t := range l.threads {
			if !t.done {
				t.resume <- false
				<-l.back
			}
		}
		vm.reads = nil
		self.restore(vm)
	}
	ended := false
	defer func() {
		if !ended {
			l.cur = nil
			killAll()
		}
	}()
	for {
		var ready []*thread
		left := 0
		for _, t := range l.threads {
			if !t.done {
				left++
				if t.blocked == nil || !t.blocked() {
					ready = append(ready, t)
				}
			}
		}
		if left == 0 {
			break
		}
		if len(ready) == 0 {
			panic(abort{why: "deadlock", kind: abSteps})
		}
		t := ready[vm.choose("sched", len(ready))]
		l.cur = t
		t.resume <- true
		<-l.back
		l.cur = nil
		self.restore(vm)
		if t.pan != nil {
			panic(t.pan)
		}
	}
	ended = true
	vm.reads = nil
	self.restore(vm)
	l.races(vm)
}

type segPair struct{ a, b int32 }

// races asks the solver whether conflicting accesses can overlap.
func (l *accessLog) races(vm *VM) {
	if vm.dpos < len(vm.decs) {
		return // checked when this prefix was first explored
	}
	type found struct {
		cond *Term
		a, b acc
	}
	pairs := map[segPair][]found{}
	var order []segPair
	add := func(a, b acc, c *Term) {
		if a.thread > b.thread {
			a, b = b, a
		}
		k := segPair{a.seg, b.seg}
		for _, f := range pairs[k] {
			if f.cond == c {
				return
			}
		}
		if len(pairs[k]) == 0 {
			order = append(order, k)
		}
		pairs[k] = append(pairs[k], found{c, a, b})
	}
	for _, list := range l.cells {
		for i, a := range list {
			for _, b := range list[:i] {
				if a.thread != b.thread && (a.write || b.write) {
					add(a, b, nil)
				}
			}
		}
	}
	for _, s := range l.syms {
		for i, c := range s.addr.cands {
			for _, a := range l.cells[c] {
				if a.thread != s.thread && a.write {
					add(a, s.acc, vm.tb.Eq(s.addr.idx, vm.tb.Const(uint64(i), s.addr.idx.W)))
				}
			}
		}
	}
	j := vm.curJob
	j.mu.Lock()
	j.st.Accesses += l.nacc
	j.st.Conflicts += int64(len(order))
	j.st.Schedules++
	j.mu.Unlock()
	// where each point is in time
	tb := vm.tb
	at := make([]*Term, len(l.points))
	for i := range at {
		at[i] = tb.NewVar(fmt.Sprintf("point!%d", i), 16, 0, 32767, false)
	}
	base := tb.Bool(true)
	next := map[int]int{}
	for _, t := range l.threads {
		for i := 1; i < len(t.segments); i++ {
			next[t.segments[i-1]] = t.segments[i]
		}
	}
	for _, e := range l.edges {
		base = tb.And(base, tb.Cmp(OUlt, at[e[0]], at[e[1]]))
	}
	now := tb.NewVar("point!now", 16, 0, 32767, false)
	during := func(s int32) *Term {
		c := tb.Cmp(OUlt, at[s], now)
		if n, ok := next[int(s)]; ok {
			c = tb.And(c, tb.Cmp(OUlt, now, at[n]))
		}
		return c
	}
	ask := func(c *Term) (Result, []uint64) {
		r, m := vm.sol.Model(vm.pc, c)
		j.mu.Lock()
		j.st.AssertQueries++
		switch r {
		case Unsat:
			j.st.AssertUnsat++
		case Unknown:
			j.st.AssUnk++
		}
		j.mu.Unlock()
		return r, m
	}
	if len(order) == 0 {
		j.mu.Lock()
		j.st.AssertConst++
		j.mu.Unlock()
		return
	}
	// all at once, then one by one when there is something to find
	all := tb.Bool(false)
	for _, k := range order {
		o := tb.And(during(k.a), during(k.b))
		c := tb.Bool(false)
		for _, f := range pairs[k] {
			if f.cond == nil {
				c = tb.Bool(true)
			} else {
				c = tb.Or(c, f.cond)
			}
		}
		all = tb.Or(all, tb.And(o, c))
	}
	if r, _ := ask(tb.And(base, all)); r == Unsat {
		return
	}
	for _, k := range order {
		for _, f := range pairs[k] {
			c := tb.And(base, tb.And(during(k.a), during(k.b)))
			if f.cond != nil {
				c = tb.And(c, f.cond)
			}
			if r, m := ask(c); r == Sat {
				what := func(a acc) string {
					return map[bool]string{true: "write at ", false: "read at "}[a.write] + vm.eng.fset.Position(a.pos).String()
				}
				vm.candidate("race", "data race: "+what(f.a)+" and "+what(f.b), m)
				panic(abort{why: "violated", kind: abInfeasible})
			}
		}
	}
}
