package main

// Path exploration: decisions, path condition, feasibility.

import (
	"fmt"
	"os"
)

var debugEnt = os.Getenv("GOSYM_DEBUG_ENT") != ""

type decKind uint8

const (
	dBranch decKind = iota
	dValue
)

type decision struct {
	kind    decKind
	val     uint64
	alt     bool     // an unexplored alternative remains
	model   []uint64 // model of the alternative (nil: unknown)
	excl    []uint64 // values already explored (dValue)
	pending bool     // dValue: the next value is to be searched
	fixed   bool     // prefix of a task: never backtracked
}

// abort ends the current path.
type abort struct {
	why  string
	kind abortKind
}
type abortKind uint8

const (
	abInfeasible abortKind = iota // assumption failed, normal
	abUnsupported
	abSteps
	abStop
)

type targetPanic struct {
	v   V
	msg string
}

func (vm *VM) unsupp(f string, a ...any) abort {
	return abort{why: fmt.Sprintf(f, a...) + vm.where(), kind: abUnsupported}
}

func (vm *VM) where() string {
	if vm.curPos.IsValid() {
		return " at " + vm.eng.fset.Position(vm.curPos).String()
	}
	return ""
}

type kundo struct {
	t    *Term
	v    int32
	dom  *ivset
	ent  bool
	kind uint8 // 0 known, 1 dom, 2 entangled
}

// addCond records that t holds on the current path.
func (vm *VM) addCond(t *Term) {
	if t.isC() {
		return
	}
	if t.Op == OBAnd {
		vm.addCond(t.A)
		vm.addCond(t.B)
		return
	}
	if vm.known[t] {
		return
	}
	if vm.sub == nil {
		vm.pc = append(vm.pc, t)
	}
	vm.known[t] = true
	vm.kundo = append(vm.kundo, kundo{t: t})
	if useLIA {
		if n := len(vm.facts); true {
			vm.noteLin(t)
			if len(vm.facts) > n {
				vm.kundo = append(vm.kundo, kundo{v: int32(n), kind: 3})
			}
		}
	}
	tb := vm.tb
	if t.v1 >= 0 {
		v := t.v1
		d := vm.domOf(v)
		if s := vm.satDom(t, d); s != nil {
			vm.kundo = append(vm.kundo, kundo{v: v, dom: vm.dom[v], kind: 1})
			vm.dom[v] = s
			return
		}
	}
	if debugEnt {
		if t.v1 >= 0 {
			d := vm.domOf(t.v1)
			println("DOM", len(d.iv), d.iv[0].lo, d.iv[len(d.iv)-1].hi, vm.sub != nil)
		}
		println("entangled by", tb.show(t, 6), vm.where())
	}
	for _, v := range tb.varsOf(t) {
		vm.domOf(v)
		if !vm.ent[v] {
			vm.ent[v] = true
			vm.kundo = append(vm.kundo, kundo{v: v, kind: 2})
		}
	}
}

func (vm *VM) undoConds(n int) {
	for len(vm.kundo) > n {
		u := vm.kundo[len(vm.kundo)-1]
		vm.kundo = vm.kundo[:len(vm.kundo)-1]
		switch u.kind {
		case 0:
			delete(vm.known, u.t)
		case 1:
			vm.dom[u.v] = u.dom
		case 2:
			vm.ent[u.v] = false
		case 3:
			vm.facts = vm.facts[:u.v]
		}
	}
}

func (vm *VM) domOf(v int32) *ivset {
	for int(v) >= len(vm.dom) {
		i := len(vm.dom)
		vi := vm.tb.Vars[i]
		lo, hi := vi.Lo, vi.Hi
		if vi.W == 0 {
			lo, hi = 0, 1
		}
		vm.dom = append(vm.dom, ivAll(lo, hi))
		vm.ent = append(vm.ent, false)
	}
	return vm.dom[v]
}

// quick decides a condition from the path's known facts: 1 true, 0 false, -1 unknown,
// -2 both outcomes feasible for sure (true set and rest are returned).
func (vm *VM) quick(t *Term) (int, *ivset, *ivset) {
	if t.isC() {
		return int(t.C), nil, nil
	}
	if vm.known[t] {
		return 1, nil, nil
	}
	if vm.known[vm.tb.Not(t)] {
		return 0, nil, nil
	}
	if t.v1 >= 0 {
		d := vm.domOf(t.v1)
		if yes := vm.satDom(t, d); yes != nil {
			if len(yes.iv) == 0 {
				vm.crossCheck(t, Unsat)
				return 0, nil, nil
			}
			no := d.minus(yes)
			if len(no.iv) == 0 {
				vm.crossCheck(vm.tb.Not(t), Unsat)
				return 1, nil, nil
			}
			if !vm.ent[t.v1] {
				vm.crossCheck(t, Sat)
				vm.crossCheck(vm.tb.Not(t), Sat)
				return -2, yes, no
			}
			return -1, yes, no
		}
	}
	if useLIA && t.v1 < 0 {
		switch vm.linear(t) {
		case 1:
			vm.crossCheck(vm.tb.Not(t), Unsat)
			return 1, nil, nil
		case 0:
			vm.crossCheck(t, Unsat)
			return 0, nil, nil
		}
	}
	return -1, nil, nil
}

// satDom is the part of the domain d of the variable of t where t holds, nil when not known.
func (vm *VM) satDom(t *Term, d *ivset) *ivset {
	if s := vm.tb.satSet(t); s != nil {
		return d.inter(s)
	}
	k := domKey{t, d}
	if s, ok := vm.domc[k]; ok {
		return s
	}
	vm.tb.budget = 20000
	s := vm.tb.satIn(t, vm.tb.Vars[t.v1], d)
	if s != nil {
		vm.ndomc += len(s.iv)
	}
	if len(vm.domc) > 100000 || vm.ndomc > 6000000 || vm.domc == nil {
		vm.domc, vm.ndomc = map[domKey]*ivset{}, 0
	}
	vm.domc[k] = s
	return s
}

type domKey struct {
	t *Term
	d *ivset
}

// crossCheck asks the solver to confirm every so many verdicts of the interval domain.
func (vm *VM) crossCheck(t *Term, want Result) {
	if vm.sub != nil || vm.curJob == nil {
		return
	}
	vm.ncross++
	n := vm.ncross
	if n > 64 && n&4095 != 0 {
		return
	}
	if t.size > 4000 {
		// merged searches in large tables: a few are enough
		if vm.nbig++; vm.nbig > 2 {
			return
		}
	}
	r := vm.sol.Check(vm.pc, t)
	if r != want && r != Unknown {
		if want == Unsat || len(vm.pc) == 0 || vm.sol.Check(vm.pc, nil) == Sat {
			panic(vm.unsupp("interval domain and solver disagree"))
		}
	}
	vm.crossed++
}

func (vm *VM) setModel(m []uint64) {
	vm.model = m
	vm.env = nil
	if m != nil {
		vm.env = vm.tb.NewEnv(m)
	}
}

// branchT decides a boolean term, forking when both outcomes are possible.
func (vm *VM) branchT(t *Term) bool {
	q, yes, no := vm.quick(t)
	if q == 0 || q == 1 {
		return q == 1
	}
	if vm.sub != nil {
		return vm.subBranch(t)
	}
	tb := vm.tb
	if vm.dpos < len(vm.decs) {
		d := &vm.decs[vm.dpos]
		if d.kind != dBranch {
			panic(vm.unsupp("decision replay mismatch"))
		}
		vm.dpos++
		if d.val == 1 {
			vm.addCond(t)
		} else {
			vm.addCond(tb.Not(t))
		}
		return d.val == 1
	}
	vm.nbranch++
	var d decision
	// which side does the current model take?
	if vm.model == nil && !vm.refreshModel() {
		// feasibility of the path itself is unknown: explore both
		d = decision{kind: dBranch, val: 1, alt: true}
	} else {
		side := tb.Eval(t, vm.env)
		d = decision{kind: dBranch, val: side}
		if q == -2 {
			set := yes
			if side == 1 {
				set = no
			}
			vm.ndom++
			d.alt = true
			d.model = vm.modelWith(t.v1, uint64(set.iv[0].lo))
		} else {
			other := t
			if side == 1 {
				other = tb.Not(t)
			}
			r, m := vm.sol.Model(vm.pc, other)
			switch r {
			case Sat:
				d.alt, d.model = true, m
			case Unknown:
				d.alt = true
			}
		}
	}
	vm.decs = append(vm.decs, d)
	vm.dpos++
	if d.val == 1 {
		vm.addCond(t)
	} else {
		vm.addCond(tb.Not(t))
	}
	return d.val == 1
}

func (vm *VM) modelWith(v int32, x uint64) []uint64 {
	m := make([]uint64, len(vm.tb.Vars))
	copy(m, vm.model)
	for i := len(vm.model); i < len(m); i++ {
		m[i] = uint64(vm.tb.Vars[i].Lo) & mask64(vm.tb.Vars[i].W)
	}
	m[v] = x & mask64(vm.tb.Vars[v].W)
	return m
}

// refreshModel obtains a model of the current path condition.
func (vm *VM) refreshModel() bool {
	r, m := vm.sol.Model(vm.pc, nil)
	switch r {
	case Sat:
		vm.setModel(m)
		return true
	case Unsat:
		panic(abort{why: "infeasible path", kind: abInfeasible})
	}
	return false
}

func (vm *VM) branch(v V) bool {
	if t, ok := v.X.(*Term); ok {
		return vm.branchT(t)
	}
	return v.N != 0
}

const maxValues = 5000

// concretize forks on every feasible value of a term.
func (vm *VM) concretize(t *Term) uint64 {
	if t.isC() {
		return t.C
	}
	tb := vm.tb
	if vm.sub != nil {
		panic(mergeFail{})
	}
	if e := vm.knownValue(t); e != nil {
		return e.C
	}
	if vm.dpos < len(vm.decs) {
		d := &vm.decs[vm.dpos]
		if d.kind != dValue {
			panic(vm.unsupp("decision replay mismatch (value)"))
		}
		if !d.pending {
			vm.dpos++
			vm.addCond(tb.Eq(t, tb.Const(d.val, t.W)))
			return d.val
		}
		// take the next value
		m := d.model
		if m == nil {
			m, _ = vm.another(t, d.excl)
		}
		if m == nil {
			d.alt = false
			panic(vm.unsupp("solver gave no answer while enumerating values"))
		}
		vm.setModel(m)
		v := tb.Eval(t, vm.env)
		d.excl = append(d.excl, v)
		if len(d.excl) > maxValues {
			d.alt = false
			panic(vm.unsupp("too many values to enumerate"))
		}
		d.val = v
		d.model, d.alt = vm.another(t, d.excl)
		d.pending = false
		vm.dpos++
		vm.addCond(tb.Eq(t, tb.Const(v, t.W)))
		return v
	}
	if vm.model == nil && !vm.refreshModel() {
		panic(vm.unsupp("solver gave no answer"))
	}
	v := tb.Eval(t, vm.env)
	d := decision{kind: dValue, val: v, excl: []uint64{v}}
	d.model, d.alt = vm.another(t, d.excl)
	vm.decs = append(vm.decs, d)
	vm.dpos++
	vm.addCond(tb.Eq(t, tb.Const(v, t.W)))
	return v
}

// knownValue is the constant a chosen value reduces to when its conditions are known.
func (vm *VM) knownValue(t *Term) *Term {
	for t.Op == OIte {
		q, _, _ := vm.quick(t.A)
		switch q {
		case 1:
			t = t.B
		case 0:
			t = t.D
		default:
			return nil
		}
	}
	if t.isC() {
		return t
	}
	return nil
}

// another looks for a model with a value of t that is not excluded; no model and true when the solver does not tell.
func (vm *VM) another(t *Term, excl []uint64) ([]uint64, bool) {
	tb := vm.tb
	c := tb.True
	for _, e := range excl {
		c = tb.And(c, tb.Not(tb.Eq(t, tb.Const(e, t.W))))
	}
	if c.isC() && c.C == 0 {
		return nil, false
	}
	r, m := vm.sol.Model(vm.pc, c)
	switch r {
	case Unsat:
		return nil, false
	case Sat:
		return m, true
	}
	return nil, true
}

// backtrack moves to the next unexplored alternative; false when exhausted.
func (vm *VM) backtrack() bool {
	for len(vm.decs) > 0 {
		d := &vm.decs[len(vm.decs)-1]
		if d.fixed {
			return false
		}
		if d.alt {
			switch d.kind {
			case dBranch:
				d.val ^= 1
				d.alt = false
				vm.setModel(d.model)
				d.model = nil
			case dValue:
				d.pending = true
				vm.setModel(nil)
			}
			return true
		}
		vm.decs = vm.decs[:len(vm.decs)-1]
	}
	return false
}

// ---- function-level merging

type mergeFail struct{}

type subDec struct {
	c   *Term
	val bool
	alt bool
}

type subctx struct {
	decs []subDec
	pos  int
}

func (vm *VM) subBranch(t *Term) bool {
	s := vm.sub
	if s.pos < len(s.decs) {
		v := s.decs[s.pos].val
		s.pos++
		if v {
			vm.addCond(t)
		} else {
			vm.addCond(vm.tb.Not(t))
		}
		return v
	}
	s.decs = append(s.decs, subDec{c: t, val: true, alt: true})
	s.pos++
	vm.addCond(t)
	return true
}

type mtree struct {
	c    *Term
	t, f *mtree
	leaf []V
}

const maxLeaves = 4000

// merge runs a pure scalar function on all its paths and returns the merged results.
func (vm *VM) merge(f *Fn, args, free []V) (res []V, ok bool) {
	if f.mergeFails >= 3 {
		return nil, false
	}
	var key string
	if f.std && len(free) == 0 {
		key = argKey(args)
		if r, hit := f.cache[key]; hit && key != "" {
			return r, true
		}
	}
	outer := vm.sub
	k0 := len(vm.kundo)
	t0 := len(vm.trail)
	sp, regs, depth, cf := vm.sp, vm.regs, vm.depth, vm.curFrame
	restore := func() {
		vm.undoConds(k0)
		vm.rollback(t0)
		vm.sp, vm.regs, vm.depth, vm.curFrame = sp, regs, depth, cf
		vm.sub = outer
	}
	nested := outer != nil
	// a cached result must not depend on the facts of the current path
	var savedKnown map[*Term]bool
	var savedDom []*ivset
	var savedEnt []bool
	var savedUndo []kundo
	useCache := f.std && key != ""
	if useCache {
		savedKnown, savedDom, savedEnt, savedUndo = vm.known, vm.dom, vm.ent, vm.kundo
		savedFacts := vm.facts
		defer func() { vm.facts = savedFacts }()
		vm.facts = nil
		vm.known, vm.dom, vm.ent, vm.kundo = map[*Term]bool{}, nil, nil, nil
		k0 = 0
	}
	defer func() {
		if r := recover(); r != nil {
			restore()
			if useCache {
				vm.known, vm.dom, vm.ent, vm.kundo = savedKnown, savedDom, savedEnt, savedUndo
			}
			switch x := r.(type) {
			case mergeFail, targetPanic:
			case abort:
				if x.kind == abStop {
					panic(r)
				}
			default:
				panic(r)
			}
			f.mergeFails++
			if nested {
				panic(mergeFail{})
			}
			res, ok = nil, false
		}
	}()
	root := &mtree{}
	var decs []subDec
	leaves := 0
	for {
		vm.sub = &subctx{decs: decs}
		r := vm.invoke(f, args, free)
		decs = vm.sub.decs
		vm.undoConds(k0)
		vm.rollback(t0)
		vm.sp, vm.regs, vm.depth, vm.curFrame = sp, regs, depth, cf
		leaves++
		if leaves > maxLeaves {
			panic(mergeFail{})
		}
		n := root
		for _, d := range decs {
			if n.c == nil {
				n.c = d.c
				n.t, n.f = &mtree{}, &mtree{}
			}
			if d.val {
				n = n.t
			} else {
				n = n.f
			}
		}
		if tp, isT := r.X.(Tuple); isT && len(f.resKinds) > 1 {
			n.leaf = tp
		} else {
			n.leaf = []V{r}
		}
		for len(decs) > 0 && !decs[len(decs)-1].alt {
			decs = decs[:len(decs)-1]
		}
		if len(decs) == 0 {
			break
		}
		decs = append([]subDec{}, decs...)
		d := &decs[len(decs)-1]
		d.val, d.alt = false, false
	}
	restore()
	if useCache {
		vm.known, vm.dom, vm.ent, vm.kundo = savedKnown, savedDom, savedEnt, savedUndo
	}
	res = make([]V, len(f.resKinds))
	for i, k := range f.resKinds {
		res[i] = fromTerm(vm.buildMerge(root, i, k), k)
	}
	vm.nmerge++
	if useCache {
		if f.cache == nil {
			f.cache = map[string][]V{}
		}
		f.cache[key] = res
	}
	return res, true
}

func (vm *VM) buildMerge(n *mtree, i int, k Kind) *Term {
	if n.c == nil {
		return vm.toTerm(n.leaf[i], k)
	}
	return vm.tb.Ite(n.c, vm.buildMerge(n.t, i, k), vm.buildMerge(n.f, i, k))
}

func argKey(args []V) string {
	s := ""
	for _, a := range args {
		switch x := a.X.(type) {
		case nil:
			s += fmt.Sprintf("n%d,", a.N)
		case *Term:
			s += fmt.Sprintf("t%d,", x.ID)
		case *V:
			s += fmt.Sprintf("p%p,", x)
		case *Slice:
			s += fmt.Sprintf("s%p:%d:%d,", x.A, x.Off, x.Len)
		default:
			return ""
		}
	}
	return s
}
