package main

// The interpreter.

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type undo struct {
	p  *V
	v  V
	fn func()
}

type VM struct {
	eng     *Engine
	tb      *TB
	sol     *Solver
	fns     map[*ssa.Function]*Fn
	globals map[*ssa.Global]*V
	meths   map[methKey]*Fn

	trail []undo
	log   bool
	regs  []V
	sp    int
	depth int

	steps, stepLimit, allSteps int64
	curPos                     token.Pos

	// path state
	pc       []*Term
	known    map[*Term]bool
	dom      []*ivset
	ent      []bool
	facts    []linFact
	kundo    []kundo
	model    []uint64
	env      *Env
	decs     []decision
	dpos     int
	sub      *subctx
	symCnt   map[string]int
	symLog   []symUse
	mapOrd   bool
	reads    *accessLog
	curJob   *job
	worker   *worker
	nties    int64
	ties     [][2]V // comparisons of floats that are too close, on this path
	nbranch  int64
	ndom     int64
	nmerge   int64
	ndomc    int // intervals kept in domc
	ncross   int64
	nbig     int64
	domc     map[domKey]*ivset
	crossed  int64
	mutexes  map[*V]int
	curFrame *frame
	notes    []string
	obs      []V
}

type methKey struct {
	t types.Type
	m string
}

type symUse struct {
	name string
	t    *Term
	k    Kind
}

func NewVM(e *Engine, solver string, timeoutMS int) *VM {
	vm := &VM{eng: e, tb: NewTB(), fns: map[*ssa.Function]*Fn{}, globals: map[*ssa.Global]*V{}, meths: map[methKey]*Fn{},
		known: map[*Term]bool{}, symCnt: map[string]int{}, mutexes: map[*V]int{}}
	vm.sol = NewSolver(vm.tb, solver, timeoutMS)
	vm.sol.useLIA = useLIA
	vm.regs = make([]V, 1<<14)
	vm.stepLimit = math.MaxInt64
	return vm
}

func (vm *VM) canon(t types.Type) types.Type { return vm.eng.canon(t) }

func (vm *VM) global(g *ssa.Global) *V {
	if p, ok := vm.globals[g]; ok {
		return p
	}
	p := new(V)
	*p = zero(g.Type().Underlying().(*types.Pointer).Elem())
	vm.globals[g] = p
	return p
}

func (vm *VM) rollback(n int) {
	for len(vm.trail) > n {
		u := vm.trail[len(vm.trail)-1]
		vm.trail = vm.trail[:len(vm.trail)-1]
		if u.p != nil {
			*u.p = u.v
		} else {
			u.fn()
		}
	}
}

func (vm *VM) set(p *V, v V) {
	if vm.log {
		vm.trail = append(vm.trail, undo{p: p, v: *p})
	}
	*p = v
}

// assign stores a value with copy semantics, keeping the identity of nested cells.
func (vm *VM) assign(p *V, v V) {
	if src, ok := v.X.(*Agg); ok {
		if dst, ok := p.X.(*Agg); ok && len(dst.E) == len(src.E) {
			if dst == src {
				return
			}
			for i := range src.E {
				vm.assign(&dst.E[i], src.E[i])
			}
			return
		}
		v = copyVal(v)
	}
	vm.set(p, v)
}

func (vm *VM) tpanic(f string, a ...any) targetPanic {
	s := fmt.Sprintf(f, a...)
	return targetPanic{v: V{X: &Iface{T: types.Typ[types.String], V: vStr(s)}}, msg: s}
}

func (vm *VM) call(f *Fn, args []V, free []V) V {
	if f.intr != nil {
		return f.intr(vm, args)
	}
	if f.isInit {
		vm.initPkg(f)
		return V{}
	}
	if f.resScal && vm.eng.merging && vm.log {
		sym := false
		for i := range args {
			if _, ok := args[i].X.(*Term); ok {
				sym = true
				break
			}
		}
		if sym && vm.isPure(f) {
			if vm.sub == nil || f.std {
				if r, ok := vm.merge(f, args, free); ok {
					if len(r) == 1 {
						return r[0]
					}
					return V{X: Tuple(r)}
				}
			}
		}
	}
	return vm.invoke(f, args, free)
}

// isPure: no effects but on the memory it allocates; the targets of dynamic calls are looked at
// when they are made.
func (vm *VM) isPure(f *Fn) bool {
	if f.purity != 0 {
		return f.purity == 1
	}
	f.purity = 2 // recursion
	if f.f.Blocks == nil || f.intr != nil {
		return false
	}
	var local func(v ssa.Value) bool
	local = func(v ssa.Value) bool {
		switch x := v.(type) {
		case *ssa.Alloc, *ssa.MakeSlice:
			return true
		case *ssa.Slice:
			return local(x.X)
		case *ssa.FieldAddr:
			return local(x.X)
		case *ssa.IndexAddr:
			return local(x.X)
		}
		return false
	}
	for _, b := range f.f.Blocks {
		for _, in := range b.Instrs {
			switch t := in.(type) {
			case *ssa.Store:
				if !local(t.Addr) {
					return false
				}
			case *ssa.MapUpdate, *ssa.Go, *ssa.Defer, *ssa.Send, *ssa.Select, *ssa.MakeChan, *ssa.MakeMap, *ssa.RunDefers:
				return false
			case *ssa.Range:
				if _, ok := t.X.Type().Underlying().(*types.Basic); !ok {
					return false
				}
			case *ssa.UnOp:
				if t.Op == token.ARROW {
					return false
				}
			case *ssa.Call:
				if t.Call.IsInvoke() {
					continue // looked at when called
				}
				if bi, ok := t.Call.Value.(*ssa.Builtin); ok {
					switch bi.Name() {
					case "len", "cap", "min", "max":
						continue
					}
					return false
				}
				g := t.Call.StaticCallee()
				if g == nil {
					continue // looked at when called
				}
				if !vm.isPure(vm.fnOf(g)) {
					return false
				}
			}
		}
	}
	f.purity = 1
	return true
}

func (vm *VM) invoke(f *Fn, args []V, free []V) (ret V) {
	if !f.compiled {
		vm.compile(f)
	}
	if f.code == nil {
		panic(vm.unsupp("function without body %s", f.name))
	}
	f.calls++
	base := vm.sp
	old := vm.regs
	if base+f.nreg > len(vm.regs) {
		// frames keep slices into the old array, which stay valid
		vm.regs = make([]V, 2*len(vm.regs)+f.nreg)
		base = 0
	}
	osp := vm.sp
	r := vm.regs[base : base+f.nreg : base+f.nreg]
	vm.sp = base + f.nreg
	clear(r)
	copy(r, args)
	copy(r[f.nparam:], free)
	vm.depth++
	if vm.depth > 3000 {
		panic(vm.unsupp("call depth"))
	}
	if f.hasDefer {
		ret = vm.runDefer(f, r)
	} else {
		ret = vm.run(f, r, 0, nil)
	}
	vm.depth--
	vm.regs, vm.sp = old, osp
	return ret
}

type deferred struct {
	op   opcode
	fn   *Fn
	cl   V
	args []V
	free []V
	it   *instr
}

type frame struct {
	defers    []deferred
	panicking *targetPanic
	recovered bool
}

func (vm *VM) runDefer(f *Fn, r []V) (ret V) {
	fr := &frame{}
	done := false
	depth, oregs, osp := vm.depth, vm.regs, vm.sp
	func() {
		defer func() {
			if done {
				return
			}
			x := recover()
			tp, ok := x.(targetPanic)
			if !ok {
				panic(x)
			}
			fr.panicking = &tp
		}()
		ret = vm.run(f, r, 0, fr)
		done = true
	}()
	if done {
		return ret
	}
	vm.depth, vm.regs, vm.sp = depth, oregs, osp
	vm.runDefers(fr)
	if fr.panicking != nil {
		panic(*fr.panicking)
	}
	if f.recover >= 0 {
		return vm.run(f, r, f.recover, fr)
	}
	// zero results
	if len(f.resKinds) == 0 {
		return V{}
	}
	if len(f.resKinds) == 1 {
		return zero(f.f.Signature.Results().At(0).Type())
	}
	return zero(f.f.Signature.Results())
}

func (vm *VM) runDefers(fr *frame) {
	prev := vm.curFrame
	depth, oregs, osp := vm.depth, vm.regs, vm.sp
	defer func() { vm.curFrame = prev }()
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		vm.curFrame = fr
		func() {
			done := false
			defer func() {
				if done {
					return
				}
				x := recover()
				tp, ok := x.(targetPanic)
				if !ok {
					panic(x)
				}
				fr.panicking = &tp
				vm.depth, vm.regs, vm.sp = depth, oregs, osp
			}()
			vm.callDeferred(d)
			done = true
		}()
	}
}

func (vm *VM) callDeferred(d deferred) {
	switch d.op {
	case xBuiltin:
		vm.builtin(d.it, d.args)
	default:
		if d.fn != nil {
			vm.call(d.fn, d.args, d.free)
			return
		}
		vm.callValue(d.cl, d.args)
	}
}

// callValue calls a function value.
func (vm *VM) callValue(cl V, args []V) V {
	c, ok := cl.X.(*Closure)
	if !ok || c == nil {
		panic(vm.tpanic("invalid memory address or nil pointer dereference"))
	}
	if c.Native != nil {
		if vm.sub != nil {
			panic(mergeFail{})
		}
		return c.Native(vm, args)
	}
	vm.mustBePure(vm.fnOf(c.Fn))
	return vm.call(vm.fnOf(c.Fn), args, c.Free)
}

// mustBePure gives up merging when a function called through a value has effects.
func (vm *VM) mustBePure(f *Fn) {
	if vm.sub != nil && !vm.isPure(f) {
		panic(mergeFail{})
	}
}

func (vm *VM) run(f *Fn, r []V, blk int, fr *frame) V {
	consts := f.consts
	get := func(o int32) V {
		if o >= 0 {
			return r[o]
		}
		return consts[^o]
	}
	for {
		code := f.code[blk]
		vm.steps += int64(len(code)) + 1
		if vm.steps > vm.stepLimit {
			panic(abort{why: "step limit in " + f.name, kind: abSteps})
		}
		var ed *edge
		for i := range code {
			it := &code[i]
			switch it.op {
			case xBin:
				a, b := get(it.a), get(it.b)
				if a.X == nil && b.X == nil && it.k <= KU64 && it.k != KBool {
					if v, ok := fastBin(it.tok, a.N, b.N, it.k); ok {
						r[it.dst] = V{N: v}
						continue
					}
				}
				vm.curPos = it.pos
				r[it.dst] = vm.binop(it, a, b)
			case xLoad:
				a := get(it.a)
				switch p := a.X.(type) {
				case *V:
					if vm.reads != nil {
						vm.reads.access(vm, p, false, it.pos)
					}
					v := *p
					if _, ok := v.X.(*Agg); ok {
						v = copyVal(v)
					}
					r[it.dst] = v
				case *SymAddr:
					vm.curPos = it.pos
					if vm.reads != nil {
						vm.reads.symAccess(vm, p, it.pos)
					}
					r[it.dst] = vm.loadSym(p, it.k, it.t)
				default:
					vm.curPos = it.pos
					vm.badPtr(a)
				}
			case xStore:
				a := get(it.a)
				p, ok := a.X.(*V)
				if !ok {
					vm.curPos = it.pos
					if sa, ok := a.X.(*SymAddr); ok {
						p = vm.resolve(sa)
					} else {
						vm.badPtr(a)
					}
				}
				if vm.reads != nil {
					vm.reads.access(vm, p, true, it.pos)
				}
				v := get(it.b)
				if _, ok := v.X.(*Agg); ok {
					vm.assign(p, v)
				} else {
					if vm.log && it.n == 0 {
						vm.trail = append(vm.trail, undo{p: p, v: *p})
					}
					*p = v
				}
			case xFieldAddr:
				a := get(it.a)
				switch p := a.X.(type) {
				case *V:
					r[it.dst] = V{X: &p.X.(*Agg).E[it.n]}
				case *SymAddr:
					q := &SymAddr{idx: p.idx, k: p.k, cands: make([]*V, len(p.cands))}
					for i, c := range p.cands {
						q.cands[i] = &c.X.(*Agg).E[it.n]
					}
					r[it.dst] = V{X: q}
				default:
					vm.curPos = it.pos
					vm.badPtr(a)
				}
			case xIndexAddr:
				vm.curPos = it.pos
				r[it.dst] = vm.indexAddr(it, get(it.a), get(it.b))
			case xIf:
				c := get(it.a)
				var t bool
				if c.X == nil {
					t = c.N != 0
				} else {
					vm.curPos = it.pos
					t = vm.branch(c)
				}
				if t {
					ed = &it.e0
				} else {
					ed = &it.e1
				}
			case xJump:
				ed = &it.e0
			case xReturn:
				switch len(it.args) {
				case 0:
					return V{}
				case 1:
					return get(it.args[0])
				}
				tp := make(Tuple, len(it.args))
				for i, a := range it.args {
					tp[i] = get(a)
				}
				return V{X: tp}
			case xCall:
				vm.curPos = it.pos
				var buf [6]V
				args := buf[:0]
				if len(it.args) > 6 {
					args = make([]V, 0, len(it.args))
				}
				for _, a := range it.args {
					args = append(args, get(a))
				}
				if it.fn != nil {
					var free []V
					if it.a != noOp {
						free = get(it.a).X.(*Closure).Free
					}
					r[it.dst] = vm.call(it.fn, args, free)
				} else {
					r[it.dst] = vm.callValue(get(it.a), args)
				}
			case xInvoke:
				vm.curPos = it.pos
				recv := get(it.a)
				ifc, ok := recv.X.(*Iface)
				if !ok {
					vm.badPtr(recv)
				}
				args := make([]V, 1, 1+len(it.args))
				args[0] = ifc.V
				for _, a := range it.args {
					args = append(args, get(a))
				}
				m := vm.method(ifc.T, it.meth)
				vm.mustBePure(m)
				r[it.dst] = vm.call(m, args, nil)
			case xBuiltin:
				vm.curPos = it.pos
				args := make([]V, len(it.args))
				for i, a := range it.args {
					args[i] = get(a)
				}
				v := vm.builtin(it, args)
				r[it.dst] = v
			case xAlloc:
				p := new(V)
				*p = copyVal(it.x.(V))
				r[it.dst] = V{X: p}
			case xExtract:
				r[it.dst] = get(it.a).X.(Tuple)[it.n]
			case xMove:
				r[it.dst] = get(it.a)
			case xNot:
				a := get(it.a)
				if t, ok := a.X.(*Term); ok {
					r[it.dst] = fromTerm(vm.tb.Not(t), KBool)
				} else {
					r[it.dst] = V{N: a.N ^ 1}
				}
			case xNeg:
				a := get(it.a)
				switch x := a.X.(type) {
				case *Term:
					r[it.dst] = fromTerm(vm.tb.Neg(x), it.k)
				case *FI:
					r[it.dst] = V{X: &FI{T: vm.tb.Neg(x.T)}}
				case *FQ, *FT:
					r[it.dst] = vm.floatMap(a, func(f float64) float64 { return -f })
				case *FX:
					r[it.dst] = vF(-vm.concFloat(a).f64())
				case nil:
					if it.k.isFloat() {
						r[it.dst] = vF(-a.f64())
					} else {
						r[it.dst] = V{N: norm(-a.N, it.k)}
					}
				default:
					panic(vm.unsupp("neg of %T", a.X))
				}
			case xCompl:
				a := get(it.a)
				if t, ok := a.X.(*Term); ok {
					r[it.dst] = fromTerm(vm.tb.Bnot(t), it.k)
				} else {
					r[it.dst] = V{N: norm(^a.N, it.k)}
				}
			case xConvert:
				vm.curPos = it.pos
				r[it.dst] = vm.convert(get(it.a), it.t, it.t2, it.k, it.k2)
			case xMakeIface:
				r[it.dst] = V{X: &Iface{T: it.t, V: get(it.a)}}
			case xMakeClosure:
				c := &Closure{Fn: it.x.(*ssa.Function)}
				for _, a := range it.args {
					c.Free = append(c.Free, get(a))
				}
				r[it.dst] = V{X: c}
			case xMakeMap:
				r[it.dst] = V{X: newMap(it.t)}
			case xMakeSlice:
				vm.curPos = it.pos
				n, c := vm.concInt(get(it.a)), vm.concInt(get(it.b))
				if n < 0 || n > 1<<31 {
					panic(vm.tpanic("runtime error: makeslice: len out of range"))
				}
				if c < n || c > 1<<31 {
					panic(vm.tpanic("runtime error: makeslice: cap out of range"))
				}
				r[it.dst] = V{X: newSlice(it.t, it.k, n, c)}
			case xSlice:
				vm.curPos = it.pos
				r[it.dst] = vm.slice(it, get)
			case xField:
				v := get(it.a).X.(*Agg).E[it.n]
				r[it.dst] = copyVal(v)
			case xIndex:
				vm.curPos = it.pos
				r[it.dst] = vm.index(it, get(it.a), get(it.b))
			case xLookup:
				vm.curPos = it.pos
				a := get(it.a)
				m, _ := a.X.(*Map)
				var v V
				ok := false
				if m != nil {
					if vm.reads != nil {
						vm.reads.mapAccess(vm, m, false, it.pos)
					}
					v, ok = vm.mapGet(m, get(it.b))
				}
				if !ok {
					v = zero(it.t)
				} else {
					v = copyVal(v)
				}
				if it.comma {
					r[it.dst] = V{X: Tuple{v, vBool(ok)}}
				} else {
					r[it.dst] = v
				}
			case xMapUpdate:
				vm.curPos = it.pos
				m, _ := get(it.a).X.(*Map)
				if m == nil {
					panic(vm.tpanic("assignment to entry in nil map"))
				}
				if vm.reads != nil {
					vm.reads.mapAccess(vm, m, true, it.pos)
				}
				vm.mapPut(m, get(it.b), copyVal(get(it.c)))
			case xRange:
				vm.curPos = it.pos
				r[it.dst] = vm.rangeIter(get(it.a), it.k)
			case xNext:
				vm.curPos = it.pos
				r[it.dst] = vm.next(get(it.a).X.(*Iter), it)
			case xTypeAssert:
				vm.curPos = it.pos
				r[it.dst] = vm.typeAssert(it, get(it.a))
			case xRunDefers:
				if fr != nil {
					vm.runDefers(fr)
					if fr.panicking != nil {
						p := *fr.panicking
						fr.panicking = nil
						panic(p)
					}
				}
			case xDefer:
				d := deferred{op: opcode(it.n), it: it}
				for _, a := range it.args {
					d.args = append(d.args, get(a))
				}
				switch d.op {
				case xInvoke:
					ifc, ok := get(it.a).X.(*Iface)
					if !ok {
						vm.badPtr(V{})
					}
					d.fn = vm.method(ifc.T, it.meth)
					d.args = append([]V{ifc.V}, d.args...)
				case xCall:
					if it.fn != nil {
						d.fn = it.fn
						if it.a != noOp {
							d.free = get(it.a).X.(*Closure).Free
						}
					} else {
						d.cl = get(it.a)
					}
				}
				fr.defers = append(fr.defers, d)
			case xPanic:
				vm.curPos = it.pos
				v := get(it.a)
				panic(targetPanic{v: v, msg: "panic: " + show(v, 0)})
			case xGo:
				vm.curPos = it.pos
				panic(vm.unsupp("go statement"))
			case xUnsupp, xSend, xRecv, xMakeChan:
				vm.curPos = it.pos
				panic(vm.unsupp("instruction %s", it.name))
			case xNop:
			default:
				panic(vm.unsupp("opcode %d", it.op))
			}
		}
		if ed == nil {
			return V{}
		}
		blk = ed.to
		switch len(ed.moves) {
		case 0:
		case 1:
			r[ed.moves[0].dst] = get(ed.moves[0].src)
		case 2:
			x, y := get(ed.moves[0].src), get(ed.moves[1].src)
			r[ed.moves[0].dst], r[ed.moves[1].dst] = x, y
		default:
			var tmp [16]V
			t := tmp[:0]
			for _, m := range ed.moves {
				t = append(t, get(m.src))
			}
			for i, m := range ed.moves {
				r[m.dst] = t[i]
			}
		}
	}
}

func fastBin(op token.Token, a, b uint64, k Kind) (uint64, bool) {
	switch op {
	case token.ADD:
		return norm(a+b, k), true
	case token.SUB:
		return norm(a-b, k), true
	case token.EQL:
		if a == b {
			return 1, true
		}
		return 0, true
	case token.NEQ:
		if a != b {
			return 1, true
		}
		return 0, true
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		var lt, eq bool
		eq = a == b
		if k.signed() {
			lt = int64(a) < int64(b)
		} else {
			lt = a < b
		}
		var r bool
		switch op {
		case token.LSS:
			r = lt
		case token.LEQ:
			r = lt || eq
		case token.GTR:
			r = !lt && !eq
		default:
			r = !lt
		}
		if r {
			return 1, true
		}
		return 0, true
	case token.AND:
		return a & b, true
	case token.OR:
		return a | b, true
	case token.XOR:
		return norm(a^b, k), true
	case token.AND_NOT:
		return a &^ b, true
	case token.MUL:
		return norm(a*b, k), true
	}
	return 0, false
}

func (vm *VM) badPtr(a V) {
	if a.X == nil {
		panic(vm.tpanic("runtime error: invalid memory address or nil pointer dereference"))
	}
	if u, ok := a.X.(unsuppVal); ok {
		panic(vm.unsupp("%s", string(u)))
	}
	panic(vm.unsupp("pointer of kind %T", a.X))
}

// SymAddr is the address of an element selected by a symbolic index.
type SymAddr struct {
	cands []*V
	idx   *Term // 0 <= idx < len(cands) on this path
	k     Kind
}

func (vm *VM) resolve(s *SymAddr) *V {
	i := vm.concretize(s.idx)
	return s.cands[int(i)]
}

func (vm *VM) loadSym(s *SymAddr, k Kind, t types.Type) V {
	if k > KU64 {
		return copyVal(*vm.resolve(s))
	}
	return fromTerm(vm.selectTerm(s.idx, len(s.cands), func(i int) *Term { return vm.toTerm(*s.cands[i], k) }), k)
}

// selectTerm builds a balanced if-then-else over runs of equal values.
func (vm *VM) selectTerm(idx *Term, n int, at func(int) *Term) *Term {
	tb := vm.tb
	lo, hi := 0, n-1
	if idx.lo > 0 {
		lo = int(min(idx.lo, int64(n-1)))
	}
	if idx.hi < int64(hi) {
		hi = int(max(idx.hi, 0))
	}
	if idx.v1 >= 0 && idx.Op == OVar {
		if d := vm.domOf(idx.v1); len(d.iv) > 0 {
			lo = max(lo, int(max(d.iv[0].lo, 0)))
			hi = min(hi, int(d.iv[len(d.iv)-1].hi))
		}
	}
	if hi < lo {
		hi = lo
	}
	type run struct {
		hi int
		t  *Term
	}
	var runs []run
	for i := lo; i <= hi; i++ {
		t := at(i)
		if len(runs) > 0 && runs[len(runs)-1].t == t {
			runs[len(runs)-1].hi = i
			continue
		}
		runs = append(runs, run{i, t})
	}
	var build func(a, b int) *Term
	build = func(a, b int) *Term {
		if a == b {
			return runs[a].t
		}
		m := (a + b) / 2
		return tb.Ite(tb.Cmp(OSle, idx, tb.Const(uint64(runs[m].hi), idx.W)), build(a, m), build(m+1, b))
	}
	return build(0, len(runs)-1)
}

// idx64 widens an index value to a 64-bit signed term.
func (vm *VM) idx64(v V, k Kind) *Term {
	t := vm.toTerm(v, k)
	if t.W == 64 {
		return t
	}
	if k.signed() {
		return vm.tb.Sext(t, 64)
	}
	return vm.tb.Zext(t, 64)
}

// checkIndex decides 0 <= i < n; concrete result index or symbolic term.
func (vm *VM) checkIndex(v V, k Kind, n int) (int, *Term) {
	if v.X == nil {
		i := int64(v.N)
		if i < 0 || i >= int64(n) {
			panic(vm.tpanic("runtime error: index out of range [%d] with length %d", i, n))
		}
		return int(i), nil
	}
	tb := vm.tb
	t := vm.idx64(v, k)
	ok := tb.And(tb.Cmp(OSle, tb.Const(0, 64), t), tb.Cmp(OSlt, t, tb.Const(uint64(n), 64)))
	if !vm.branchT(ok) {
		panic(vm.tpanic("runtime error: index out of range with length %d", n))
	}
	if t.isC() {
		return int(t.C), nil
	}
	return 0, t
}

func (vm *VM) indexAddr(it *instr, a, b V) V {
	var el []V
	switch x := a.X.(type) {
	case *Slice:
		el = x.A.E[x.Off : x.Off+x.Len]
	case *V: // pointer to array
		ar, ok := x.X.(*Agg)
		if !ok {
			panic(vm.unsupp("index of pointer to %T", x.X))
		}
		el = ar.E
	case nil:
		if it.k == KPtr {
			vm.badPtr(a)
		}
	case *SymAddr:
		p := vm.resolve(x)
		el = p.X.(*Agg).E
	default:
		vm.badPtr(a)
	}
	i, t := vm.checkIndex(b, it.k2, len(el))
	if t == nil {
		return V{X: &el[i]}
	}
	if it.comma { // only loaded
		c := make([]*V, len(el))
		for i := range el {
			c[i] = &el[i]
		}
		return V{X: &SymAddr{cands: c, idx: t}}
	}
	return V{X: &el[int(vm.concretize(t))]}
}

func (vm *VM) index(it *instr, a, b V) V {
	if it.k == KString {
		switch s := a.X.(type) {
		case nil:
			panic(vm.tpanic("runtime error: index out of range with length 0"))
		case string:
			i, t := vm.checkIndex(b, it.k2, len(s))
			if t == nil {
				return V{N: uint64(s[i])}
			}
			return fromTerm(vm.selectTerm(t, len(s), func(i int) *Term { return vm.tb.Const(uint64(s[i]), 8) }), KU8)
		default:
			bs := vm.strBytes(a)
			i, t := vm.checkIndex(b, it.k2, len(bs))
			if t == nil {
				return bs[i]
			}
			return fromTerm(vm.selectTerm(t, len(bs), func(i int) *Term { return vm.toTerm(bs[i], KU8) }), KU8)
		}
	}
	ar, ok := a.X.(*Agg)
	if !ok {
		panic(vm.unsupp("index of %T", a.X))
	}
	i, t := vm.checkIndex(b, it.k2, len(ar.E))
	if t == nil {
		return copyVal(ar.E[i])
	}
	k := kindOf(it.t)
	if k > KU64 {
		return copyVal(ar.E[int(vm.concretize(t))])
	}
	return fromTerm(vm.selectTerm(t, len(ar.E), func(i int) *Term { return vm.toTerm(ar.E[i], k) }), k)
}

func newSlice(et types.Type, k Kind, n, c int) *Slice {
	a := &Agg{E: make([]V, c)}
	if k == KStruct || k == KArray {
		for i := range a.E {
			a.E[i] = zero(et)
		}
	}
	return &Slice{A: a, Len: n, Cap: c}
}

// concInt returns a concrete integer, forking if necessary.
func (vm *VM) concInt(v V) int {
	switch t := v.X.(type) {
	case nil:
		return v.int()
	case *Term:
		return int(sx(vm.concretize(t), t.W))
	}
	panic(vm.unsupp("concInt of %T", v.X))
}

func (vm *VM) slice(it *instr, get func(int32) V) V {
	x := get(it.a)
	opt := func(o int32) (int, bool) {
		if o == noOp {
			return 0, false
		}
		return vm.concInt(get(o)), true
	}
	lo, _ := opt(it.b)
	hi, hasHi := opt(it.c)
	mx, hasMax := opt(it.d)
	if it.k == KString {
		if s, ok := x.X.(string); ok || x.X == nil {
			if !hasHi {
				hi = len(s)
			}
			if lo < 0 || hi < lo || hi > len(s) {
				panic(vm.tpanic("runtime error: slice bounds out of range [%d:%d] with length %d", lo, hi, len(s)))
			}
			return vStr(s[lo:hi])
		}
		if ss := x.X.(*SStr); ss.HasR && lo == 0 && !hasHi {
			return x
		}
		b := vm.strBytes(x)
		if !hasHi {
			hi = len(b)
		}
		if lo < 0 || hi < lo || hi > len(b) {
			panic(vm.tpanic("runtime error: slice bounds out of range [%d:%d] with length %d", lo, hi, len(b)))
		}
		return mkStr(b[lo:hi])
	}
	var s Slice
	switch y := x.X.(type) {
	case *Slice:
		s = *y
	case *V:
		ar := y.X.(*Agg)
		s = Slice{A: ar, Len: len(ar.E), Cap: len(ar.E)}
	case nil:
		if it.k == KPtr {
			vm.badPtr(x)
		}
		if lo == 0 && (!hasHi || hi == 0) && (!hasMax || mx == 0) {
			return V{}
		}
		panic(vm.tpanic("runtime error: slice bounds out of range"))
	default:
		panic(vm.unsupp("slice of %T", x.X))
	}
	if !hasHi {
		hi = s.Len
	}
	c := s.Cap
	if hasMax {
		if mx < 0 || mx > s.Cap {
			panic(vm.tpanic("runtime error: slice bounds out of range [::%d] with capacity %d", mx, s.Cap))
		}
		c = mx
	}
	if lo < 0 || hi < lo || hi > c {
		panic(vm.tpanic("runtime error: slice bounds out of range [%d:%d] with capacity %d", lo, hi, c))
	}
	return V{X: &Slice{A: s.A, Off: s.Off + lo, Len: hi - lo, Cap: c - lo}}
}

func (vm *VM) method(t types.Type, m *types.Func) *Fn {
	key := methKey{t, m.Id()}
	if f, ok := vm.meths[key]; ok {
		return f
	}
	f := vm.eng.lookupMethod(t, m.Pkg(), m.Name())
	if f == nil {
		panic(vm.unsupp("method %s of %s", m.Name(), t))
	}
	x := vm.fnOf(f)
	vm.meths[key] = x
	return x
}

func (vm *VM) typeAssert(it *instr, a V) V {
	ifc, _ := a.X.(*Iface)
	ok := false
	toIface := types.IsInterface(it.t)
	if ifc != nil {
		if toIface {
			ok = vm.eng.implements(ifc.T, it.t)
		} else {
			ok = ifc.T == it.t || types.Identical(ifc.T, it.t)
		}
	}
	var v V
	if ok {
		if toIface {
			v = a
		} else {
			v = copyVal(ifc.V)
		}
	} else {
		if !it.comma {
			panic(vm.tpanic("interface conversion: not %s", it.t))
		}
		v = zero(it.t)
	}
	if it.comma {
		return V{X: Tuple{v, vBool(ok)}}
	}
	return v
}

// ---- operators

func (vm *VM) eq(a, b V, t types.Type) V {
	switch kindOf(t) {
	case KString:
		return vm.strEq(a, b)
	case KStruct:
		st := t.Underlying().(*types.Struct)
		x, y := a.X.(*Agg), b.X.(*Agg)
		r := vm.tb.True
		for i := range x.E {
			if st.Field(i).Name() == "_" {
				continue
			}
			r = vm.tb.And(r, vm.toTerm(vm.eq(x.E[i], y.E[i], st.Field(i).Type()), KBool))
		}
		return fromTerm(r, KBool)
	case KArray:
		et := t.Underlying().(*types.Array).Elem()
		x, y := a.X.(*Agg), b.X.(*Agg)
		r := vm.tb.True
		for i := range x.E {
			r = vm.tb.And(r, vm.toTerm(vm.eq(x.E[i], y.E[i], et), KBool))
		}
		return fromTerm(r, KBool)
	case KIface:
		x, _ := a.X.(*Iface)
		y, _ := b.X.(*Iface)
		if x == nil || y == nil {
			return vBool(x == nil && y == nil)
		}
		if !types.Identical(x.T, y.T) {
			return vBool(false)
		}
		switch kindOf(x.T) {
		case KSlice, KMap, KFunc:
			panic(vm.tpanic("runtime error: comparing uncomparable type %s", x.T))
		}
		return vm.eq(x.V, y.V, x.T)
	case KPtr, KUnsafe, KMap, KChan, KFunc:
		return vBool(a.X == b.X)
	case KSlice:
		x, _ := a.X.(*Slice)
		y, _ := b.X.(*Slice)
		return vBool(x == nil && y == nil)
	case KF64, KF32:
		return vm.floatCmp(token.EQL, a, b)
	case KBool:
		return fromTerm(vm.tb.Eq(vm.toTerm(a, KBool), vm.toTerm(b, KBool)), KBool)
	}
	k := kindOf(t)
	if !k.isInt() {
		panic(vm.unsupp("comparison of %s", t))
	}
	return fromTerm(vm.tb.Eq(vm.toTerm(a, k), vm.toTerm(b, k)), KBool)
}

func (vm *VM) binop(it *instr, a, b V) V {
	tb := vm.tb
	k := it.k
	for _, v := range [2]V{a, b} {
		if u, ok := v.X.(unsuppVal); ok {
			panic(vm.unsupp("%s", string(u)))
		}
	}
	switch it.tok {
	case token.EQL, token.NEQ:
		var r V
		if k == KIface && it.k2 != KIface {
			panic(vm.unsupp("mixed comparison"))
		}
		r = vm.eq(a, b, it.t)
		if it.tok == token.NEQ {
			return fromTerm(tb.Not(vm.toTerm(r, KBool)), KBool)
		}
		return r
	}
	if k == KString {
		switch it.tok {
		case token.ADD:
			return vm.strConcat(a, b)
		case token.LSS:
			return vm.strLess(a, b)
		case token.GTR:
			return vm.strLess(b, a)
		case token.LEQ:
			return fromTerm(tb.Not(vm.toTerm(vm.strLess(b, a), KBool)), KBool)
		case token.GEQ:
			return fromTerm(tb.Not(vm.toTerm(vm.strLess(a, b), KBool)), KBool)
		}
	}
	if k.isFloat() {
		return vm.floatBin(it.tok, a, b, k)
	}
	if k == KBool {
		x, y := vm.toTerm(a, k), vm.toTerm(b, k)
		switch it.tok {
		case token.AND, token.LAND:
			return fromTerm(tb.And(x, y), k)
		case token.OR, token.LOR:
			return fromTerm(tb.Or(x, y), k)
		case token.XOR:
			return fromTerm(tb.Not(tb.Eq(x, y)), k)
		}
	}
	if !k.isInt() {
		panic(vm.unsupp("binop %s on %s", it.tok, it.t))
	}
	if it.tok == token.SHL || it.tok == token.SHR {
		return vm.shift(it, a, b)
	}
	if it.tok == token.QUO || it.tok == token.REM {
		if b.X == nil {
			if b.N == 0 {
				panic(vm.tpanic("runtime error: integer divide by zero"))
			}
		} else if vm.branchT(tb.Eq(vm.toTerm(b, k), tb.Const(0, k.width()))) {
			panic(vm.tpanic("runtime error: integer divide by zero"))
		}
	}
	x, y := vm.toTerm(a, k), vm.toTerm(b, k)
	var op Op
	switch it.tok {
	case token.ADD:
		op = OAdd
	case token.SUB:
		op = OSub
	case token.MUL:
		op = OMul
	case token.QUO:
		op = OUdiv
		if k.signed() {
			op = OSdiv
		}
	case token.REM:
		op = OUrem
		if k.signed() {
			op = OSrem
		}
	case token.AND:
		op = OAnd
	case token.OR:
		op = OOr
	case token.XOR:
		op = OXor
	case token.AND_NOT:
		return fromTerm(tb.Bin(OAnd, x, tb.Bnot(y)), k)
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		if it.tok == token.GTR || it.tok == token.GEQ {
			x, y = y, x
		}
		strict := it.tok == token.LSS || it.tok == token.GTR
		var c Op
		switch {
		case k.signed() && strict:
			c = OSlt
		case k.signed():
			c = OSle
		case strict:
			c = OUlt
		default:
			c = OUle
		}
		return fromTerm(tb.Cmp(c, x, y), KBool)
	default:
		panic(vm.unsupp("binop %s", it.tok))
	}
	return fromTerm(tb.Bin(op, x, y), k)
}

func (vm *VM) shift(it *instr, a, b V) V {
	k, w := it.k, it.k.width()
	if b.X == nil && it.k2.signed() && int64(b.N) < 0 {
		panic(vm.tpanic("runtime error: negative shift amount"))
	}
	if a.X == nil && b.X == nil {
		s := b.N
		if it.tok == token.SHL {
			if s >= 64 {
				return V{}
			}
			return V{N: norm(a.N<<s, k)}
		}
		if k.signed() {
			if s > 63 {
				s = 63
			}
			return V{N: norm(uint64(int64(a.N)>>s), k)}
		}
		if s >= 64 {
			return V{}
		}
		return V{N: norm(a.N>>s, k)}
	}
	tb := vm.tb
	x := vm.toTerm(a, k)
	y := vm.toTerm(b, it.k2)
	if it.k2.signed() && b.X != nil {
		if vm.branchT(tb.Cmp(OSlt, y, tb.Const(0, y.W))) {
			panic(vm.tpanic("runtime error: negative shift amount"))
		}
	}
	op := OShl
	if it.tok == token.SHR {
		op = OLshr
		if k.signed() {
			op = OAshr
		}
	}
	// align the width of the amount, saturating
	if y.W > w {
		big := tb.Not(tb.Cmp(OUlt, y, tb.Const(uint64(w), y.W)))
		y = tb.Ite(big, tb.Const(uint64(w), w), tb.Trunc(y, w))
	} else {
		y = tb.Zext(y, w)
	}
	return fromTerm(tb.Bin(op, x, y), k)
}

func (vm *VM) convert(a V, from, to types.Type, k, k2 Kind) V {
	if u, ok := a.X.(unsuppVal); ok {
		panic(vm.unsupp("%s", string(u)))
	}
	switch {
	case k == KBool && k2 == KBool:
		return a
	case k.isInt() && k2.isInt():
		t, ok := a.X.(*Term)
		if !ok {
			return V{N: norm(a.N, k2)}
		}
		w := k2.width()
		switch {
		case w < t.W:
			t = vm.tb.Trunc(t, w)
		case w > t.W && k.signed():
			t = vm.tb.Sext(t, w)
		case w > t.W:
			t = vm.tb.Zext(t, w)
		}
		return fromTerm(t, k2)
	case k.isInt() && k2.isFloat():
		if t, ok := a.X.(*Term); ok {
			if k.signed() {
				t = vm.tb.Sext(t, 64)
			} else if t.W < 64 {
				t = vm.tb.Zext(t, 64)
			} else {
				panic(vm.unsupp("uint64 to float"))
			}
			const L = 1 << 40
			if t.lo < -L || t.hi > L {
				panic(vm.unsupp("large symbolic integer to float"))
			}
			return V{X: &FI{T: t}}
		}
		var f float64
		if k.signed() {
			f = float64(int64(a.N))
		} else {
			f = float64(a.N)
		}
		if k2 == KF32 {
			f = float64(float32(f))
		}
		return vF(f)
	case k.isFloat() && k2.isInt():
		if fi, ok := a.X.(*FI); ok {
			t := fi.T
			if k2.width() < 64 {
				t = vm.tb.Trunc(t, k2.width())
			}
			return fromTerm(t, k2)
		}
		if _, ok := a.X.(*FX); !ok && a.X != nil && k2.signed() {
			if t := vm.table(a); t != nil {
				n := make([]int64, len(t.vals))
				fine := true
				for i, f := range t.vals {
					fine = fine && math.Abs(f) < 1<<31
					n[i] = int64(f)
				}
				if fine {
					r := vm.tree(t.T, t.lo, n)
					if k2.width() < 64 {
						r = vm.tb.Trunc(r, k2.width())
					}
					return fromTerm(r, k2)
				}
			}
		}
		if a.X != nil {
			a = vm.concFloat(a)
		}
		f := a.f64()
		if k2.signed() {
			return V{N: norm(uint64(int64(f)), k2)}
		}
		return V{N: norm(uint64(f), k2)}
	case k.isFloat() && k2.isFloat():
		if k2 == KF32 && a.X == nil {
			return vF(float64(float32(a.f64())))
		}
		return a
	case k == KString && k2 == KString:
		return a
	case k.isInt() && k2 == KString:
		t, ok := a.X.(*Term)
		if !ok {
			n := int64(a.N)
			if n < 0 || n > 0x10FFFF {
				n = 0xFFFD
			}
			return vStr(string(rune(n)))
		}
		if t.W != 32 {
			panic(vm.unsupp("string of wide integer"))
		}
		return mkRuneStr([]V{vm.validRune(a)})
	case k == KString && k2 == KSlice:
		et := to.Underlying().(*types.Slice).Elem()
		var el []V
		if kindOf(et) == KI32 {
			el = vm.strRunes(a)
		} else {
			el = vm.strBytes(a)
		}
		e := make([]V, len(el))
		copy(e, el)
		return V{X: &Slice{A: &Agg{E: e}, Len: len(e), Cap: len(e)}}
	case k == KSlice && k2 == KString:
		s, _ := a.X.(*Slice)
		if s == nil {
			return V{}
		}
		et := from.Underlying().(*types.Slice).Elem()
		if vm.reads != nil {
			vm.reads.slice(vm, s.A.E[s.Off:s.Off+s.Len], false, vm.curPos)
		}
		el := append([]V{}, s.A.E[s.Off:s.Off+s.Len]...)
		if kindOf(et) == KI32 {
			for i := range el {
				el[i] = vm.validRune(el[i])
			}
			return mkRuneStr(el)
		}
		return mkStr(el)
	case k2 == KUnsafe || k == KUnsafe:
		return a
	case k == k2:
		return a
	}
	panic(vm.unsupp("conversion %s -> %s", from, to))
}

// ---- floats: concrete, integer-valued symbolic (FI), or quotient by a constant (FQ)

// FQ is the float64 quotient T/D of a bounded integer term by a positive constant.
type FQ struct {
	T *Term
	D float64
}

func (vm *VM) concFloat(v V) V {
	switch x := v.X.(type) {
	case nil:
		return v
	case *FI:
		return vF(float64(int64(vm.concretize(x.T))))
	case *FQ:
		return vF(float64(int64(vm.concretize(x.T))) / x.D)
	case *FT:
		i := int64(vm.concretize(x.T)) - x.lo
		if i < 0 || i >= int64(len(x.vals)) {
			panic(vm.unsupp("float table out of its range"))
		}
		return vF(x.vals[i])
	case *FX:
		if x.op == token.ILLEGAL {
			return vm.concFloat(x.a)
		}
		return vF(floatOp(x.op, vm.concFloat(x.a).f64(), vm.concFloat(x.b).f64(), KF64))
	}
	panic(vm.unsupp("float %T", v.X))
}

func isInt(f float64) bool { return f == math.Trunc(f) && math.Abs(f) < 1<<45 }

func (vm *VM) floatBin(op token.Token, a, b V, k Kind) V {
	if a.X == nil && b.X == nil {
		x, y := a.f64(), b.f64()
		var r float64
		switch op {
		case token.ADD:
			r = x + y
		case token.SUB:
			r = x - y
		case token.MUL:
			r = x * y
		case token.QUO:
			r = x / y
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			return vm.floatCmp(op, a, b)
		default:
			panic(vm.unsupp("float op %s", op))
		}
		if k == KF32 {
			r = float64(float32(r))
		}
		return vF(r)
	}
	tb := vm.tb
	switch op {
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		return vm.floatCmp(op, a, b)
	case token.ADD, token.SUB, token.MUL:
		x, okx := fiTerm(tb, a)
		y, oky := fiTerm(tb, b)
		if okx && oky {
			o := map[token.Token]Op{token.ADD: OAdd, token.SUB: OSub, token.MUL: OMul}[op]
			if op != token.MUL || x.isC() || y.isC() {
				r := tb.Bin(o, x, y)
				if r.lo > -1<<50 && r.hi < 1<<50 {
					if r.isC() {
						return vF(float64(int64(r.C)))
					}
					return V{X: &FI{T: r}}
				}
			}
		}
	case token.QUO:
		if fi, ok := a.X.(*FI); ok && b.X == nil {
			if d := b.f64(); d > 0 {
				if d == 1 {
					return a
				}
				return V{X: &FQ{T: fi.T, D: d}}
			}
		}
	}
	if r, ok := vm.floatMap2(a, b, func(x, y float64) float64 { return floatOp(op, x, y, k) }); ok {
		return r
	}
	if r, ok := vm.fxBin(op, a, b, k); ok {
		return r
	}
	return vm.floatBin(op, vm.concFloat(a), vm.concFloat(b), k)
}

// fiTerm views an integer-valued float as a 64-bit term. The sign of zero is not kept:
// callers only add, subtract, multiply and compare.
func fiTerm(tb *TB, v V) (*Term, bool) {
	switch x := v.X.(type) {
	case *FI:
		return x.T, true
	case nil:
		f := v.f64()
		if isInt(f) {
			return tb.Const(uint64(int64(f)), 64), true
		}
	}
	return nil, false
}

func (vm *VM) floatCmp(op token.Token, a, b V) V {
	tb := vm.tb
	if a.X == nil && b.X == nil {
		x, y := a.f64(), b.f64()
		switch op {
		case token.EQL:
			return vBool(x == y)
		case token.LSS:
			return vBool(x < y)
		case token.LEQ:
			return vBool(x <= y)
		case token.GTR:
			return vBool(x > y)
		case token.GEQ:
			return vBool(x >= y)
		}
	}
	if op == token.GTR || op == token.GEQ {
		a, b = b, a
		if op == token.GTR {
			op = token.LSS
		} else {
			op = token.LEQ
		}
	}
	x, okx := fiTerm(tb, a)
	y, oky := fiTerm(tb, b)
	if okx && oky {
		switch op {
		case token.EQL:
			return fromTerm(tb.Eq(x, y), KBool)
		case token.LSS:
			c := tb.Cmp(OSlt, x, y)
			tb.noteLE(tb.Bin(OSub, x, y), c, -1)
			tb.noteLE(tb.Bin(OSub, y, x), tb.Not(c), 0)
			return fromTerm(c, KBool)
		default:
			c := tb.Cmp(OSle, x, y)
			tb.noteLE(tb.Bin(OSub, x, y), c, 0)
			tb.noteLE(tb.Bin(OSub, y, x), tb.Not(c), -1)
			return fromTerm(c, KBool)
		}
	}
	if isTab(a) || isTab(b) {
		f := func(x, y float64) float64 {
			if op == token.LSS && x < y || op == token.LEQ && x <= y || op == token.EQL && x == y {
				return 1
			}
			return 0
		}
		if r, ok := vm.floatMap2(a, b, f); ok {
			if r.X == nil {
				return vBool(r.f64() == 1)
			}
			return fromTerm(vm.member(r.X.(*FT), func(v float64) bool { return v == 1 }), KBool)
		}
	}
	if a.X != nil && b.X != nil || isTab(a) || isTab(b) {
		if r, ok := vm.fxCmp(op, a, b); ok {
			return r
		}
		return vm.floatCmp(op, vm.concFloat(a), vm.concFloat(b))
	}
	// monotone function of one bounded integer against a constant: find the threshold
	if b.X == nil && a.X != nil {
		t, f := vm.monotone(a)
		c := b.f64()
		switch op {
		case token.LSS:
			return fromTerm(vm.threshold(t, func(i int64) bool { return f(i) < c }), KBool)
		case token.LEQ:
			return fromTerm(vm.threshold(t, func(i int64) bool { return f(i) <= c }), KBool)
		case token.EQL:
			lt := vm.threshold(t, func(i int64) bool { return f(i) < c })
			le := vm.threshold(t, func(i int64) bool { return f(i) <= c })
			return fromTerm(tb.And(le, tb.Not(lt)), KBool)
		}
	}
	if a.X == nil && b.X != nil {
		t, f := vm.monotone(b)
		c := a.f64()
		switch op {
		case token.LSS: // c < f(t)
			return fromTerm(tb.Not(vm.threshold(t, func(i int64) bool { return f(i) <= c })), KBool)
		case token.LEQ:
			return fromTerm(tb.Not(vm.threshold(t, func(i int64) bool { return f(i) < c })), KBool)
		case token.EQL:
			return vm.floatCmp(op, b, a)
		}
	}
	return vm.floatCmp(op, vm.concFloat(a), vm.concFloat(b))
}

func isTab(v V) bool {
	switch v.X.(type) {
	case *FT, *FX:
		return true
	}
	return false
}

func (vm *VM) monotone(v V) (*Term, func(int64) float64) {
	switch x := v.X.(type) {
	case *FI:
		return x.T, func(i int64) float64 { return float64(i) }
	case *FQ:
		d := x.D
		return x.T, func(i int64) float64 { return float64(i) / d }
	}
	panic(vm.unsupp("float %T", v.X))
}

// threshold returns the term for "p holds of t", p being downward closed.
func (vm *VM) threshold(t *Term, p func(int64) bool) *Term {
	lo, hi := t.lo, t.hi
	if p(hi) {
		return vm.tb.True
	}
	if !p(lo) {
		return vm.tb.False
	}
	for hi-lo > 1 {
		m := lo + (hi-lo)/2
		if p(m) {
			lo = m
		} else {
			hi = m
		}
	}
	c := vm.tb.Cmp(OSle, t, vm.tb.Const(uint64(lo), 64))
	vm.tb.noteLE(t, c, lo)
	return c
}

// ---- maps

func newMap(t types.Type) *Map {
	mt := t.Underlying().(*types.Map)
	return &Map{KT: kindOf(mt.Key()), kt: mt.Key(), vt: mt.Elem(), idx: map[any]int{}}
}

// hashKey returns a comparable Go value for a concrete key.
func (vm *VM) hashKey(v V, t types.Type) (any, bool) {
	k := kindOf(t)
	switch k {
	case KString:
		switch s := v.X.(type) {
		case nil:
			return "", true
		case string:
			return s, true
		}
		return nil, false
	case KIface:
		i, _ := v.X.(*Iface)
		if i == nil {
			return nil, true
		}
		h, ok := vm.hashKey(i.V, i.T)
		return [2]any{i.T, h}, ok
	case KStruct, KArray:
		a := v.X.(*Agg)
		s := ""
		for i, e := range a.E {
			var et types.Type
			if k == KStruct {
				et = t.Underlying().(*types.Struct).Field(i).Type()
			} else {
				et = t.Underlying().(*types.Array).Elem()
			}
			h, ok := vm.hashKey(e, et)
			if !ok {
				return nil, false
			}
			s += fmt.Sprintf("%v|", h)
		}
		return s, true
	case KPtr, KChan, KUnsafe:
		return v.X, true
	}
	if v.X != nil {
		return nil, false
	}
	if k.isFloat() && v.f64() == 0 {
		return uint64(0), true
	}
	return v.N, true
}

// find returns the entry index of a key, forking on symbolic equality.
func (vm *VM) find(m *Map, key V) int {
	h, ok := vm.hashKey(key, m.kt)
	if ok {
		if i, hit := m.idx[h]; hit {
			return i
		}
		if m.nsym == 0 {
			return -1
		}
		for i := range m.ents {
			e := &m.ents[i]
			if e.dead || !e.sym {
				continue
			}
			if vm.branch(vm.eq(e.k, key, m.kt)) {
				return i
			}
		}
		return -1
	}
	for i := range m.ents {
		e := &m.ents[i]
		if e.dead {
			continue
		}
		if vm.branch(vm.eq(e.k, key, m.kt)) {
			return i
		}
	}
	return -1
}

func (vm *VM) mapGet(m *Map, key V) (V, bool) {
	i := vm.find(m, key)
	if i < 0 {
		return V{}, false
	}
	return m.ents[i].v, true
}

func (vm *VM) mapPut(m *Map, key, val V) {
	i := vm.find(m, key)
	if i >= 0 {
		old := m.ents[i].v
		m.ents[i].v = val
		if vm.log {
			vm.trail = append(vm.trail, undo{fn: func() { m.ents[i].v = old }})
		}
		return
	}
	h, ok := vm.hashKey(key, m.kt)
	i = len(m.ents)
	m.ents = append(m.ents, ent{k: copyVal(key), v: val, sym: !ok})
	m.n++
	if ok {
		m.idx[h] = i
	} else {
		m.nsym++
	}
	if vm.log {
		vm.trail = append(vm.trail, undo{fn: func() {
			m.ents = m.ents[:i]
			m.n--
			if ok {
				delete(m.idx, h)
			} else {
				m.nsym--
			}
		}})
	}
}

func (vm *VM) mapDelete(m *Map, key V) {
	i := vm.find(m, key)
	if i < 0 {
		return
	}
	e := &m.ents[i]
	e.dead = true
	m.n--
	h, ok := vm.hashKey(e.k, m.kt)
	if ok {
		delete(m.idx, h)
	}
	if vm.log {
		vm.trail = append(vm.trail, undo{fn: func() {
			m.ents[i].dead = false
			m.n++
			if ok {
				m.idx[h] = i
			}
		}})
	}
}

func (vm *VM) rangeIter(v V, k Kind) V {
	if k == KString {
		it := &Iter{}
		switch s := v.X.(type) {
		case nil:
		case string:
			for i, r := range s {
				it.str = append(it.str, V{N: uint64(int64(r))})
				it.offs = append(it.offs, vInt(i))
			}
		case *SStr:
			if s.HasR && !s.HasB {
				it.str = s.R
				it.lazy = true
			} else {
				off := 0
				for off < len(s.B) {
					r, n := vm.decodeRune(s.B[off:])
					it.str = append(it.str, r)
					it.offs = append(it.offs, vInt(off))
					off += n
				}
			}
		}
		return V{X: it}
	}
	m, _ := v.X.(*Map)
	it := &Iter{m: m}
	if m != nil {
		if vm.reads != nil {
			vm.reads.mapAccess(vm, m, false, vm.curPos)
		}
		for i := range m.ents {
			if !m.ents[i].dead {
				it.order = append(it.order, i)
			}
		}
	}
	return V{X: it}
}

// runeLenTerm is the UTF-8 length of a valid rune as a term.
func (vm *VM) runeLenTerm(r V) *Term {
	tb := vm.tb
	t := vm.toTerm(r, KI32)
	c := func(x int64) *Term { return tb.Const(uint64(x), 32) }
	n := func(x uint64) *Term { return tb.Const(x, 64) }
	return tb.Ite(tb.Cmp(OSle, t, c(0x7F)), n(1), tb.Ite(tb.Cmp(OSle, t, c(0x7FF)), n(2), tb.Ite(tb.Cmp(OSle, t, c(0xFFFF)), n(3), n(4))))
}

func (vm *VM) next(it *Iter, in *instr) V {
	old := *it
	if vm.log {
		ord := append([]int{}, it.order...)
		vm.trail = append(vm.trail, undo{fn: func() { *it = old; it.order = ord }})
	}
	if in.comma {
		if it.pos >= len(it.str) {
			return V{X: Tuple{vBool(false), V{}, V{}}}
		}
		r := it.str[it.pos]
		var off V
		if it.lazy {
			// byte offset as the sum of the lengths so far
			if it.off == nil {
				it.off = vm.tb.Const(0, 64)
			}
			off = fromTerm(it.off, KI64)
			it.off = vm.tb.Bin(OAdd, it.off, vm.runeLenTerm(r))
		} else {
			off = it.offs[it.pos]
		}
		it.pos++
		return V{X: Tuple{vBool(true), off, r}}
	}
	for it.m != nil && len(it.order) > 0 {
		j := 0
		if vm.mapOrd && len(it.order) > 1 && vm.sub == nil {
			j = vm.choose("maporder", len(it.order))
		}
		i := it.order[j]
		it.order = append(it.order[:j:j], it.order[j+1:]...)
		if it.m.ents[i].dead {
			continue
		}
		return V{X: Tuple{vBool(true), it.m.ents[i].k, copyVal(it.m.ents[i].v)}}
	}
	return V{X: Tuple{vBool(false), V{}, V{}}}
}

// choose forks n ways.
func (vm *VM) choose(name string, n int) int {
	if n <= 1 {
		return 0
	}
	t := vm.newSym(name, KI64, 0, int64(n-1))
	return int(vm.concretize(t))
}

func (vm *VM) newSym(name string, k Kind, lo, hi int64) *Term {
	c := vm.symCnt[name]
	vm.symCnt[name] = c + 1
	full := fmt.Sprintf("%s#%d", name, c)
	t := vm.tb.NewVar(full, k.width(), lo, hi, k.signed())
	vm.symLog = append(vm.symLog, symUse{full, t, k})
	return t
}

// ---- builtins

func (vm *VM) builtin(it *instr, a []V) V {
	switch it.name {
	case "len":
		switch it.k {
		case KString:
			if s, ok := a[0].X.(*SStr); ok && s.HasR && !s.HasB {
				t := vm.tb.Const(0, 64)
				for _, r := range s.R {
					t = vm.tb.Bin(OAdd, t, vm.runeLenTerm(r))
				}
				return fromTerm(t, KI64)
			}
			return vInt(vm.strLen(a[0]))
		case KSlice:
			if s, ok := a[0].X.(*Slice); ok {
				return vInt(s.Len)
			}
			return V{}
		case KMap:
			if m, ok := a[0].X.(*Map); ok && m != nil {
				if vm.reads != nil {
					vm.reads.mapAccess(vm, m, false, it.pos)
				}
				return vInt(m.n)
			}
			return V{}
		case KArray:
			return vInt(len(a[0].X.(*Agg).E))
		case KPtr:
			return vInt(int(it.t.Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()))
		}
	case "cap":
		switch it.k {
		case KSlice:
			if s, ok := a[0].X.(*Slice); ok {
				return vInt(s.Cap)
			}
			return V{}
		case KArray:
			return vInt(len(a[0].X.(*Agg).E))
		}
	case "append":
		et := it.t.Underlying().(*types.Slice).Elem()
		var add []V
		if len(a) > 1 {
			switch s := a[1].X.(type) {
			case nil:
			case *Slice:
				add = s.A.E[s.Off : s.Off+s.Len]
				if vm.reads != nil {
					for i := range add {
						vm.reads.access(vm, &add[i], false, it.pos)
					}
				}
			case string, *SStr:
				add = vm.strBytes(a[1])
			default:
				panic(vm.unsupp("append of %T", a[1].X))
			}
		}
		return vm.appendSlice(a[0], add, et)
	case "copy":
		d, _ := a[0].X.(*Slice)
		if d == nil {
			return V{}
		}
		var src []V
		switch s := a[1].X.(type) {
		case *Slice:
			src = s.A.E[s.Off : s.Off+s.Len]
		case string, *SStr:
			src = vm.strBytes(a[1])
		}
		n := min(d.Len, len(src))
		tmp := make([]V, n)
		for i := range tmp {
			tmp[i] = copyVal(src[i])
			if vm.reads != nil {
				vm.reads.access(vm, &src[i], false, it.pos)
			}
		}
		for i := range tmp {
			if vm.reads != nil {
				vm.reads.access(vm, &d.A.E[d.Off+i], true, it.pos)
			}
			vm.assign(&d.A.E[d.Off+i], tmp[i])
		}
		return vInt(n)
	case "delete":
		m, _ := a[0].X.(*Map)
		if m != nil {
			if vm.reads != nil {
				vm.reads.mapAccess(vm, m, true, it.pos)
			}
			vm.mapDelete(m, a[1])
		}
		return V{}
	case "clear":
		switch x := a[0].X.(type) {
		case *Map:
			for i := range x.ents {
				if !x.ents[i].dead {
					vm.mapDelete(x, x.ents[i].k)
				}
			}
		case *Slice:
			et := it.t.Underlying().(*types.Slice).Elem()
			for i := 0; i < x.Len; i++ {
				vm.assign(&x.A.E[x.Off+i], zero(et))
			}
		}
		return V{}
	case "min", "max":
		r := a[0]
		for _, b := range a[1:] {
			var less V
			if it.k.isFloat() {
				less = vm.floatCmp(token.LSS, b, r)
			} else if it.k == KString {
				less = vm.strLess(b, r)
			} else {
				op := OSlt
				if !it.k.signed() {
					op = OUlt
				}
				less = fromTerm(vm.tb.Cmp(op, vm.toTerm(b, it.k), vm.toTerm(r, it.k)), KBool)
			}
			if it.k.isInt() {
				c := vm.toTerm(less, KBool)
				x, y := vm.toTerm(b, it.k), vm.toTerm(r, it.k)
				if it.name == "max" {
					// larger of the two
					x, y = y, x
				}
				r = fromTerm(vm.tb.Ite(c, x, y), it.k)
				continue
			}
			l := vm.branch(less)
			if l == (it.name == "min") {
				r = b
			}
		}
		return r
	case "print", "println":
		return V{}
	case "recover":
		fr := vm.curFrame
		if fr != nil && fr.panicking != nil {
			p := fr.panicking
			fr.panicking = nil
			return p.v
		}
		return V{}
	case "ssa:wrapnilchk":
		if a[0].X == nil {
			panic(vm.tpanic("runtime error: invalid memory address or nil pointer dereference"))
		}
		return a[0]
	case "SliceData", "unsafe.SliceData":
		return a[0]
	case "StringData", "unsafe.StringData":
		b := vm.strBytes(a[0])
		return V{X: &Slice{A: &Agg{E: b}, Len: len(b), Cap: len(b)}}
	case "String", "unsafe.String":
		n := vm.concInt(a[1])
		s, ok := a[0].X.(*Slice)
		if !ok {
			if n == 0 {
				return V{}
			}
			if p, ok := a[0].X.(*V); ok && n == 1 {
				return mkStr([]V{*p})
			}
			panic(vm.unsupp("unsafe.String of %T", a[0].X))
		}
		return mkStr(append([]V{}, s.A.E[s.Off:s.Off+n]...))
	case "Slice", "unsafe.Slice":
		if s, ok := a[0].X.(*Slice); ok {
			n := vm.concInt(a[1])
			return V{X: &Slice{A: s.A, Off: s.Off, Len: n, Cap: n}}
		}
	}
	panic(vm.unsupp("builtin %s", it.name))
}

// growCap follows runtime.growslice without size-class rounding except for small sizes.
func growCap(old, need, esize int) int {
	n := old
	if d := 2 * old; need > d {
		n = need
	} else if old < 256 {
		n = d
	} else {
		for n < need {
			n += (n + 3*256) / 4
		}
	}
	// round up to a malloc size class
	b := n * esize
	classes := []int{8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}
	for _, c := range classes {
		if b <= c {
			return c / esize
		}
	}
	return (b + 8191) / 8192 * 8192 / esize
}

func sizeOf(t types.Type) int {
	s := types.SizesFor("gc", "amd64").Sizeof(t)
	if s <= 0 {
		return 1
	}
	return int(s)
}

func (vm *VM) appendSlice(dst V, add []V, et types.Type) V {
	s, _ := dst.X.(*Slice)
	if len(add) == 0 {
		return dst
	}
	var n, c int
	if s != nil {
		n, c = s.Len, s.Cap
	}
	if n+len(add) <= c {
		tmp := make([]V, len(add))
		for i := range add {
			tmp[i] = copyVal(add[i])
		}
		for i := range tmp {
			if vm.reads != nil {
				vm.reads.access(vm, &s.A.E[s.Off+n+i], true, vm.curPos)
			}
			vm.assign(&s.A.E[s.Off+n+i], tmp[i])
		}
		return V{X: &Slice{A: s.A, Off: s.Off, Len: n + len(add), Cap: c}}
	}
	nc := max(growCap(c, n+len(add), sizeOf(et)), n+len(add))
	e := make([]V, nc)
	if s != nil {
		if vm.reads != nil {
			vm.reads.slice(vm, s.A.E[s.Off:s.Off+n], false, vm.curPos)
		}
		for i := 0; i < n; i++ {
			e[i] = copyVal(s.A.E[s.Off+i])
		}
	}
	for i := range add {
		e[n+i] = copyVal(add[i])
	}
	if k := kindOf(et); k == KStruct || k == KArray {
		for i := n + len(add); i < nc; i++ {
			e[i] = zero(et)
		}
	}
	return V{X: &Slice{A: &Agg{E: e}, Len: n + len(add), Cap: nc}}
}

var _ = strings.Repeat
