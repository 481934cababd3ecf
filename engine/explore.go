package main

// Jobs, workers, assertions.

import (
	"fmt"
	"sort"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

type job struct {
	id      int
	pkg     string
	name    string
	fn      *ssa.Function
	setup   *ssa.Function
	params  map[string]int
	steps   int64
	note    string
	mu      sync.Mutex
	st      jobStats
	pending int64 // tasks not finished
	stop    atomic.Bool
	t0      time.Time
	t1      time.Time
	viols   []*violation
	samples []sample
	funcs   map[string]int64
	first   bool
	spec    jobSpec
}

type sample struct {
	values map[string]int64
	obs    []int64
	full   bool // the path ran to its end, so observations are complete
}

type jobStats struct {
	Paths, Infeasible, Unsupported, StepAborts                int64
	Branches, DomainDecided, Merges, Crossed, Guessed, Linear int64
	Queries, Sat, Unsat, Unknown                              int64
	SolverSec                                                 float64
	AssertQueries, AssertUnsat, AssertConst, AssUnk           int64
	Accesses, Conflicts, Schedules                            int64
	Steps                                                     int64
	MaxDecisions                                              int
	Covers                                                    map[string]int64
	UnsuppWhy                                                 map[string]int64
	Complete                                                  bool
	PathHash                                                  map[uint64]bool `json:"-"`
}

type violation struct {
	job     *job
	msg     string
	values  map[string]int64
	kind    string // assert, panic, steps
	guessed bool   // nearly equal floats were compared on the path
}

type task struct {
	j    *job
	decs []decision
}

type Pool struct {
	eng      *Engine
	mu       sync.Mutex
	cond     *sync.Cond
	queue    []*task
	idle     int
	n        int
	active   int
	done     bool
	deadline time.Time
	solver   string
	second   *second
	timeout  int
	onViol   func(v *violation) bool // returns true to stop everything
	stopAll  atomic.Bool
	hungry   atomic.Bool
	jobs     []*job
	vms      []*VM
	initNote []string
}

type worker struct {
	p  *Pool
	vm *VM
	id int
}

func (p *Pool) Run(jobs []*job, n int) {
	p.jobs = jobs
	p.n = n
	p.cond = sync.NewCond(&p.mu)
	for _, j := range jobs {
		j.pending = 1
		j.st.Covers = map[string]int64{}
		j.st.UnsuppWhy = map[string]int64{}
		j.funcs = map[string]int64{}
		p.queue = append(p.queue, &task{j: j})
	}
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			w := &worker{p: p, id: i}
			w.loop()
		}(i)
	}
	wg.Wait()
	for _, j := range jobs {
		j.st.Complete = j.pending == 0 && !j.stop.Load() && j.st.Unsupported == 0 && j.st.StepAborts == 0 && j.st.AssUnk == 0 && !p.stopAll.Load()
	}
}

func (p *Pool) next() *task {
	p.mu.Lock()
	defer p.mu.Unlock()
	for {
		if p.stopAll.Load() {
			return nil
		}
		if len(p.queue) > 0 {
			t := p.queue[0]
			p.queue = p.queue[1:]
			p.active++
			p.hungry.Store(p.idle > 0 && len(p.queue) == 0)
			return t
		}
		if p.active == 0 {
			p.done = true
			p.cond.Broadcast()
			return nil
		}
		p.idle++
		p.hungry.Store(true)
		p.cond.Wait()
		p.idle--
		if p.done {
			return nil
		}
	}
}

func (p *Pool) finish(t *task, complete bool) {
	p.mu.Lock()
	defer p.mu.Unlock()
	p.active--
	if complete {
		t.j.pending--
	}
	if t.j.pending == 0 {
		t.j.t1 = time.Now()
	}
	p.cond.Broadcast()
}

func (p *Pool) donate(t *task) {
	p.mu.Lock()
	defer p.mu.Unlock()
	t.j.pending++
	p.queue = append(p.queue, t)
	p.hungry.Store(p.idle > len(p.queue))
	p.cond.Signal()
}

func (w *worker) loop() {
	var cur *job
	var base int
	for {
		t := w.p.next()
		if t == nil {
			break
		}
		if w.vm == nil {
			w.vm = NewVM(w.p.eng, w.p.solver, w.p.timeout)
			w.vm.sol.deadline = w.p.deadline.Add(2 * time.Second)
			w.vm.sol.sec2 = w.p.second
			w.vm.worker = w
			w.vm.initEmbeds()
			done := map[*ssa.Package]bool{}
			for _, j := range w.p.jobs {
				if pk := j.fn.Pkg; !done[pk] {
					done[pk] = true
					w.vm.runInit(pk)
				}
			}
			w.vm.log = true
			if len(w.vm.notes) > 0 {
				w.p.mu.Lock()
				w.p.initNote = w.vm.notes
				w.p.mu.Unlock()
			}
		}
		vm := w.vm
		ok := true
		if cur != t.j {
			vm.rollback(0)
			cur = t.j
			vm.curJob = cur
			if cur.setup != nil {
				vm.resetPath()
				vm.stepLimit = 1 << 62
				vm.decs = nil
				kind, why := vm.protect(func() { vm.invoke(vm.fnOf(cur.setup), nil, nil) })
				if kind != "" {
					cur.mu.Lock()
					cur.st.Unsupported++
					cur.st.UnsuppWhy["setup: "+why]++
					cur.mu.Unlock()
					ok = false
				}
			}
			base = len(vm.trail)
		}
		if ok {
			ok = w.explore(t, base)
		}
		if !ok && cur.setup != nil && vm.curJob == cur && len(cur.st.UnsuppWhy) > 0 {
			// keep going with other jobs
		}
		w.p.finish(t, ok)
	}
	if w.vm != nil {
		w.vm.sol.Close()
	}
}

func (vm *VM) resetPath() {
	vm.undoConds(0)
	vm.pc = vm.pc[:0]
	vm.dpos = 0
	vm.sub = nil
	vm.sp, vm.depth = 0, 0
	vm.curFrame = nil
	vm.mapOrd = false
	vm.ties = vm.ties[:0]
	vm.reads = nil
	clear(vm.symCnt)
	vm.symLog = vm.symLog[:0]
	vm.obs = vm.obs[:0]
	vm.steps = 0
}

// protect runs f and classifies how it ended.
func (vm *VM) protect(f func()) (kind, why string) {
	defer func() {
		switch x := recover().(type) {
		case nil:
		case abort:
			why = x.why
			switch x.kind {
			case abInfeasible:
				kind = "infeasible"
			case abUnsupported:
				kind = "unsupported"
			case abSteps:
				kind = "steps"
			case abStop:
				kind = "stop"
			}
		case targetPanic:
			kind, why = "panic", x.msg+vm.where()
		case mergeFail:
			kind, why = "unsupported", "merge"
		default:
			panic(x)
		}
	}()
	f()
	return "", ""
}

func (w *worker) explore(t *task, base int) bool {
	vm, j := w.vm, t.j
	if !j.first {
		j.mu.Lock()
		if !j.first {
			j.first = true
			j.t0 = time.Now()
		}
		j.mu.Unlock()
	}
	vm.decs = append([]decision{}, t.decs...)
	vm.setModel(nil)
	q0 := *vm.sol
	b0, d0, m0, c0 := vm.nbranch, vm.ndom, vm.nmerge, vm.crossed
	defer func() {
		j.mu.Lock()
		j.st.Queries += int64(vm.sol.Queries - q0.Queries)
		j.st.Sat += int64(vm.sol.NSat - q0.NSat)
		j.st.Unsat += int64(vm.sol.NUnsat - q0.NUnsat)
		j.st.Unknown += int64(vm.sol.NUnk - q0.NUnk)
		j.st.SolverSec += (vm.sol.Time - q0.Time).Seconds()
		j.st.Branches += vm.nbranch - b0
		j.st.DomainDecided += vm.ndom - d0
		j.st.Merges += vm.nmerge - m0
		j.st.Crossed += vm.crossed - c0
		j.st.Linear += int64(vm.sol.NLIA - q0.NLIA)
		for f, x := range vm.fns {
			if x.calls > 0 && (x.inRepo || !x.std) && f.Name() != "init" {
				j.funcs[x.name] += x.calls
			}
			x.calls = 0
		}
		j.mu.Unlock()
	}()
	f := vm.fnOf(j.fn)
	for {
		if w.p.stopAll.Load() || j.stop.Load() || time.Now().After(w.p.deadline) {
			return false
		}
		vm.rollback(base)
		vm.resetPath()
		vm.stepLimit = j.steps
		kind, why := vm.protect(func() { vm.invoke(f, nil, nil) })
		j.mu.Lock()
		j.st.Steps += vm.steps
		if len(vm.decs) > j.st.MaxDecisions {
			j.st.MaxDecisions = len(vm.decs)
		}
		switch kind {
		case "":
			j.st.Paths++
		case "infeasible":
			j.st.Infeasible++
		case "unsupported":
			j.st.Unsupported++
			if len(j.st.UnsuppWhy) < 50 {
				j.st.UnsuppWhy[why]++
			}
		}
		np := j.st.Paths
		j.mu.Unlock()
		switch kind {
		case "":
			// sample paths for validation against the real build
			if np <= 4 || np&(np-1) == 0 || np%997 == 0 {
				vm.sample(j)
			}
		case "panic":
			vm.report("panic", "unexpected panic: "+why)
		case "steps":
			if vm.report("steps", "no termination within the step bound: "+why) {
				j.mu.Lock()
				j.st.StepAborts++
				j.mu.Unlock()
			}
		}
		if !vm.backtrack() {
			return true
		}
		if w.p.hungry.Load() {
			w.tryDonate(j)
		}
	}
}

// tryDonate hands the shallowest unexplored alternative to another worker.
func (w *worker) tryDonate(j *job) {
	vm := w.vm
	// the last decision is the one about to be explored by this worker
	for i := 0; i < len(vm.decs)-1; i++ {
		d := &vm.decs[i]
		if d.fixed || !d.alt {
			continue
		}
		pre := make([]decision, i+1)
		copy(pre, vm.decs[:i+1])
		for k := range pre {
			pre[k].fixed = true
			pre[k].alt = false
			pre[k].model = nil
		}
		last := &pre[i]
		if d.kind == dBranch {
			last.val ^= 1
		} else {
			last.fixed = false
			last.alt = true
			last.pending = true
			last.excl = append([]uint64{}, d.excl...)
		}
		d.alt = false
		d.model = nil
		w.p.donate(&task{j: j, decs: pre})
		return
	}
}

func (vm *VM) values(m []uint64) map[string]int64 {
	out := map[string]int64{}
	e := vm.tb.NewEnv(m)
	for _, s := range vm.symLog {
		v := vm.tb.Eval(s.t, e)
		x := int64(v)
		if s.k.signed() {
			x = sx(v, s.t.W)
		}
		out[s.name] = x
	}
	return out
}

func (vm *VM) sample(j *job) {
	if len(j.samples) >= 60 || len(vm.ties) > 0 {
		return
	}
	if vm.model == nil {
		r, m := vm.sol.Model(vm.pc, nil)
		if r != Sat {
			return
		}
		vm.setModel(m)
	}
	v := vm.values(vm.model)
	e := vm.tb.NewEnv(vm.model)
	var obs []int64
	for _, o := range vm.obs {
		if t, ok := o.X.(*Term); ok {
			obs = append(obs, int64(vm.tb.Eval(t, e)))
		} else {
			obs = append(obs, int64(o.N))
		}
	}
	j.mu.Lock()
	j.samples = append(j.samples, sample{v, obs, true})
	j.mu.Unlock()
}

// report builds a candidate violation from a model of the path condition.
func (vm *VM) report(kind, msg string) bool {
	r, m := vm.sol.Model(vm.pc, nil)
	if r == Unsat {
		return false
	}
	if r != Sat {
		vm.curJob.mu.Lock()
		vm.curJob.st.AssUnk++
		vm.curJob.mu.Unlock()
		return false
	}
	vm.candidate(kind, msg, m)
	return true
}

func (vm *VM) candidate(kind, msg string, m []uint64) {
	j := vm.curJob
	if len(vm.ties) > 0 && vm.candidateTied(kind, msg, m) {
		return
	}
	v := &violation{job: j, msg: msg, values: vm.values(m), kind: kind}
	j.mu.Lock()
	j.viols = append(j.viols, v)
	n := len(j.viols)
	j.mu.Unlock()
	if vm.worker.p.onViol(v) {
		vm.worker.p.stopAll.Store(true)
		vm.worker.p.mu.Lock()
		vm.worker.p.done = true
		vm.worker.p.cond.Broadcast()
		vm.worker.p.mu.Unlock()
	}
	if n >= 40 {
		j.stop.Store(true)
	}
}

// candidateTied handles the candidates of a path on which comparisons of nearly equal
// floats have been guessed: the inputs of the model may well take another path.
func (vm *VM) candidateTied(kind, msg string, m []uint64) bool {
	if vm.worker.p.onViol(&violation{job: vm.curJob, msg: msg, values: vm.values(m), kind: kind, guessed: true}) {
		return false
	}
	vm.curJob.mu.Lock()
	vm.curJob.st.Guessed++
	vm.curJob.mu.Unlock()
	return true
}

func (vm *VM) assert(c V, msg string) {
	j := vm.curJob
	if vm.sub != nil {
		panic(mergeFail{})
	}
	if vm.dpos < len(vm.decs) {
		return // checked when this prefix was first explored
	}
	t, ok := c.X.(*Term)
	if !ok {
		if c.N != 0 {
			j.mu.Lock()
			j.st.AssertConst++
			j.mu.Unlock()
			return
		}
		if vm.report("assert", msg) {
			panic(abort{why: "violated", kind: abInfeasible})
		}
		panic(abort{why: "violated on an infeasible path", kind: abInfeasible})
	}
	r, m := vm.sol.Model(vm.pc, vm.tb.Not(t))
	j.mu.Lock()
	j.st.AssertQueries++
	switch r {
	case Unsat:
		j.st.AssertUnsat++
	case Unknown:
		j.st.AssUnk++
	}
	j.mu.Unlock()
	if r == Sat {
		vm.candidate("assert", msg, m)
		panic(abort{why: "violated", kind: abInfeasible})
	}
}

func (vm *VM) cover(name string) {
	if vm.dpos < len(vm.decs) || vm.sub != nil {
		return
	}
	j := vm.curJob
	j.mu.Lock()
	n := j.st.Covers[name]
	j.mu.Unlock()
	if n == 0 {
		// reachability witness: the solver must give a model of the path
		r, m := vm.sol.Model(vm.pc, nil)
		if r != Sat {
			return
		}
		v := vm.values(m)
		j.mu.Lock()
		j.samples = append(j.samples, sample{values: v})
		j.mu.Unlock()
	}
	j.mu.Lock()
	j.st.Covers[name]++
	j.mu.Unlock()
}

func sortedKeys[T any](m map[string]T) []string {
	var k []string
	for x := range m {
		k = append(k, x)
	}
	sort.Strings(k)
	return k
}

var _ = fmt.Sprint
