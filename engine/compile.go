package main

// SSA -> flat register code.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

type opcode uint8

const (
	xNop opcode = iota
	xAlloc
	xBin
	xNot
	xNeg
	xCompl
	xLoad
	xRecv
	xMove // ChangeType
	xConvert
	xMakeIface
	xChangeIface
	xMakeClosure
	xMakeMap
	xMakeChan
	xMakeSlice
	xSlice
	xFieldAddr
	xField
	xIndexAddr
	xIndex
	xLookup
	xRange
	xNext
	xTypeAssert
	xExtract
	xJump
	xIf
	xReturn
	xRunDefers
	xPanic
	xGo
	xDefer
	xSend
	xStore
	xMapUpdate
	xCall
	xBuiltin
	xInvoke
	xUnsupp
	xArrPtr
	xSelect
)

type mv struct{ dst, src int32 }

type edge struct {
	to    int
	moves []mv
}

type instr struct {
	op      opcode
	tok     token.Token
	k, k2   Kind
	comma   bool
	dst     int32
	a, b, c int32 // operands: >=0 register, <0 constant pool (^x), noOp = absent
	d       int32
	args    []int32
	n       int
	t, t2   types.Type
	x       any
	fn      *Fn // static callee
	name    string
	meth    *types.Func
	e0, e1  edge
	pos     token.Pos
}

const noOp = int32(math.MinInt32)

type Fn struct {
	f          *ssa.Function
	code       [][]instr
	nreg       int
	consts     []V
	nparam     int
	nfree      int
	hasDefer   bool
	intr       func(vm *VM, args []V) V
	purity     int8 // 0 unknown, 1 pure, 2 not
	std        bool
	compiled   bool
	name       string
	recover    int
	resKinds   []Kind
	resScal    bool
	calls      int64
	inRepo     bool
	isInit     bool
	mergeFails int
	cache      map[string][]V
}

func (vm *VM) fnOf(f *ssa.Function) *Fn {
	if x, ok := vm.fns[f]; ok {
		return x
	}
	x := &Fn{f: f, name: f.String(), recover: -1}
	if o := f.Origin(); o != nil {
		x.name = o.String()
	}
	vm.fns[f] = x
	x.nparam = len(f.Params)
	x.nfree = len(f.FreeVars)
	if p := pkgOf(f); p != nil {
		x.std = isStdPath(p.Pkg.Path())
		x.inRepo = vm.eng.inRepo(p.Pkg.Path())
	}
	res := f.Signature.Results()
	x.resScal = res.Len() > 0
	for i := 0; i < res.Len(); i++ {
		k := kindOf(res.At(i).Type())
		x.resKinds = append(x.resKinds, k)
		if k > KU64 {
			x.resScal = false
		}
	}
	x.intr = intrinsicFor(x.name, f)
	x.isInit = f.Synthetic == "package initializer"
	return x
}

func pkgOf(f *ssa.Function) *ssa.Package {
	for f != nil {
		if f.Pkg != nil {
			return f.Pkg
		}
		if o := f.Origin(); o != nil && o.Pkg != nil {
			return o.Pkg
		}
		if f.Object() != nil && f.Object().Pkg() != nil {
			if p := f.Prog.Package(f.Object().Pkg()); p != nil {
				return p
			}
		}
		f = f.Parent()
	}
	return nil
}

type fcomp struct {
	vm   *VM
	x    *Fn
	reg  map[ssa.Value]int32
	cidx map[ssa.Value]int32
}

func (vm *VM) compile(x *Fn) {
	if x.compiled {
		return
	}
	x.compiled = true
	f := x.f
	if f.Blocks == nil {
		return
	}
	c := &fcomp{vm: vm, x: x, reg: map[ssa.Value]int32{}, cidx: map[ssa.Value]int32{}}
	n := int32(0)
	for _, p := range f.Params {
		c.reg[p] = n
		n++
	}
	for _, p := range f.FreeVars {
		c.reg[p] = n
		n++
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				c.reg[v] = n
				n++
			}
			if _, ok := in.(*ssa.Defer); ok {
				x.hasDefer = true
			}
		}
	}
	x.nreg = int(n)
	x.code = make([][]instr, len(f.Blocks))
	for i, b := range f.Blocks {
		var out []instr
		for _, in := range b.Instrs {
			switch in.(type) {
			case *ssa.Phi, *ssa.DebugRef:
				continue
			}
			it := c.instr(b, in)
			if !it.pos.IsValid() {
				it.pos = in.Pos()
			}
			out = append(out, it)
		}
		x.code[i] = out
	}
	if f.Recover != nil {
		x.recover = f.Recover.Index
	}
}

func (c *fcomp) o(v ssa.Value) int32 {
	if v == nil {
		return noOp
	}
	if r, ok := c.reg[v]; ok {
		return r
	}
	if i, ok := c.cidx[v]; ok {
		return i
	}
	var val V
	switch t := v.(type) {
	case *ssa.Const:
		val = constVal(t)
	case *ssa.Global:
		val = V{X: c.vm.global(t)}
	case *ssa.Function:
		val = V{X: &Closure{Fn: t}}
	case *ssa.Builtin:
		val = V{}
	default:
		panic(fmt.Sprintf("operand %T", v))
	}
	c.x.consts = append(c.x.consts, val)
	i := ^int32(len(c.x.consts) - 1)
	c.cidx[v] = i
	return i
}

func constVal(t *ssa.Const) V {
	if t.Value == nil {
		return zero(t.Type())
	}
	k := kindOf(t.Type())
	switch {
	case k == KBool:
		return vBool(constant.BoolVal(t.Value))
	case k == KString:
		if t.Value.Kind() == constant.Int {
			r, _ := constant.Int64Val(t.Value)
			return vStr(string(rune(r)))
		}
		return vStr(constant.StringVal(t.Value))
	case k == KF64:
		f, _ := constant.Float64Val(constant.ToFloat(t.Value))
		return vF(f)
	case k == KF32:
		f, _ := constant.Float32Val(constant.ToFloat(t.Value))
		return vF(float64(f))
	case k.isInt():
		v := constant.ToInt(t.Value)
		if i, ok := constant.Int64Val(v); ok {
			return V{N: norm(uint64(i), k)}
		}
		u, _ := constant.Uint64Val(v)
		return V{N: norm(u, k)}
	}
	if tp, ok := t.Type().Underlying().(*types.Interface); ok && tp != nil {
		return V{}
	}
	return V{X: unsuppVal(fmt.Sprintf("constant of type %s", t.Type()))}
}

type unsuppVal string

func (c *fcomp) edge(from *ssa.BasicBlock, to *ssa.BasicBlock) edge {
	e := edge{to: to.Index}
	pi := -1
	for i, p := range to.Preds {
		if p == from {
			pi = i
			break
		}
	}
	for _, in := range to.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		e.moves = append(e.moves, mv{c.reg[ph], c.o(ph.Edges[pi])})
	}
	return e
}

func (c *fcomp) instr(b *ssa.BasicBlock, in ssa.Instruction) instr {
	it := instr{dst: noOp, a: noOp, b: noOp, c: noOp, d: noOp}
	if v, ok := in.(ssa.Value); ok {
		it.dst = c.reg[v]
	}
	switch t := in.(type) {
	case *ssa.Alloc:
		it.op = xAlloc
		it.t = t.Type().Underlying().(*types.Pointer).Elem()
		it.x = zero(it.t)
	case *ssa.BinOp:
		it.op = xBin
		it.tok = t.Op
		it.k = kindOf(t.X.Type())
		it.k2 = kindOf(t.Y.Type())
		it.a, it.b = c.o(t.X), c.o(t.Y)
		it.t = t.X.Type()
		it.t2 = t.Y.Type()
	case *ssa.UnOp:
		it.a = c.o(t.X)
		it.k = kindOf(t.X.Type())
		it.comma = t.CommaOk
		it.t = t.Type()
		switch t.Op {
		case token.NOT:
			it.op = xNot
		case token.SUB:
			it.op = xNeg
		case token.XOR:
			it.op = xCompl
		case token.MUL:
			it.op = xLoad
			it.k = kindOf(t.Type())
		case token.ARROW:
			it.op = xRecv
		}
	case *ssa.ChangeType:
		it.op = xMove
		it.a = c.o(t.X)
	case *ssa.Convert:
		it.op = xConvert
		it.a = c.o(t.X)
		it.t, it.t2 = t.X.Type(), t.Type()
		it.k, it.k2 = kindOf(it.t), kindOf(it.t2)
	case *ssa.MultiConvert:
		it.op = xConvert
		it.a = c.o(t.X)
		it.t, it.t2 = t.X.Type(), t.Type()
		it.k, it.k2 = kindOf(it.t), kindOf(it.t2)
	case *ssa.ChangeInterface:
		it.op = xMove
		it.a = c.o(t.X)
	case *ssa.SliceToArrayPointer:
		it.op = xUnsupp
		it.name = "slice to array pointer"
	case *ssa.MakeInterface:
		it.op = xMakeIface
		it.a = c.o(t.X)
		it.t = c.vm.canon(t.X.Type())
	case *ssa.MakeClosure:
		it.op = xMakeClosure
		it.x = t.Fn.(*ssa.Function)
		for _, v := range t.Bindings {
			it.args = append(it.args, c.o(v))
		}
	case *ssa.MakeMap:
		it.op = xMakeMap
		it.t = t.Type()
	case *ssa.MakeChan:
		it.op = xMakeChan
		it.a = c.o(t.Size)
	case *ssa.MakeSlice:
		it.op = xMakeSlice
		it.a, it.b = c.o(t.Len), c.o(t.Cap)
		it.t = t.Type().Underlying().(*types.Slice).Elem()
		it.k = kindOf(it.t)
	case *ssa.Slice:
		it.op = xSlice
		it.a, it.b, it.c, it.d = c.o(t.X), c.o(t.Low), c.o(t.High), c.o(t.Max)
		it.k = kindOf(t.X.Type())
		if p, ok := t.X.Type().Underlying().(*types.Pointer); ok {
			it.k2 = kindOf(p.Elem())
		}
	case *ssa.FieldAddr:
		it.op = xFieldAddr
		it.a = c.o(t.X)
		it.n = t.Field
	case *ssa.Field:
		it.op = xField
		it.a = c.o(t.X)
		it.n = t.Field
	case *ssa.IndexAddr:
		it.op = xIndexAddr
		it.a, it.b = c.o(t.X), c.o(t.Index)
		it.k = kindOf(t.X.Type())
		it.k2 = kindOf(t.Index.Type())
		it.t = t.Type().Underlying().(*types.Pointer).Elem()
		it.comma = onlyLoaded(t)
	case *ssa.Index:
		it.op = xIndex
		it.a, it.b = c.o(t.X), c.o(t.Index)
		it.k = kindOf(t.X.Type())
		it.k2 = kindOf(t.Index.Type())
		it.t = t.Type()
	case *ssa.Lookup:
		it.a, it.b = c.o(t.X), c.o(t.Index)
		it.comma = t.CommaOk
		if kindOf(t.X.Type()) == KMap {
			it.op = xLookup
			it.t = t.X.Type().Underlying().(*types.Map).Elem()
		} else {
			it.op = xIndex
			it.k = KString
			it.k2 = kindOf(t.Index.Type())
			it.t = t.Type()
		}
	case *ssa.Range:
		it.op = xRange
		it.a = c.o(t.X)
		it.k = kindOf(t.X.Type())
	case *ssa.Next:
		it.op = xNext
		it.a = c.o(t.Iter)
		it.comma = t.IsString
		it.t = t.Type()
	case *ssa.TypeAssert:
		it.op = xTypeAssert
		it.a = c.o(t.X)
		it.t = c.vm.canon(t.AssertedType)
		it.comma = t.CommaOk
		it.t2 = t.Type()
	case *ssa.Extract:
		it.op = xExtract
		it.a = c.o(t.Tuple)
		it.n = t.Index
	case *ssa.Jump:
		it.op = xJump
		it.e0 = c.edge(b, b.Succs[0])
	case *ssa.If:
		it.op = xIf
		it.a = c.o(t.Cond)
		it.e0 = c.edge(b, b.Succs[0])
		it.e1 = c.edge(b, b.Succs[1])
	case *ssa.Return:
		it.op = xReturn
		for _, v := range t.Results {
			it.args = append(it.args, c.o(v))
		}
	case *ssa.RunDefers:
		it.op = xRunDefers
	case *ssa.Panic:
		it.op = xPanic
		it.a = c.o(t.X)
	case *ssa.Store:
		it.op = xStore
		it.a, it.b = c.o(t.Addr), c.o(t.Val)
		if ownAlloc(t.Addr) {
			it.n = 1 // memory of this call: nothing to restore
		}
	case *ssa.MapUpdate:
		it.op = xMapUpdate
		it.a, it.b, it.c = c.o(t.Map), c.o(t.Key), c.o(t.Value)
	case *ssa.Send:
		it.op = xSend
		it.a, it.b = c.o(t.Chan), c.o(t.X)
	case *ssa.Select:
		it.op = xUnsupp
		it.name = "select"
	case *ssa.Call:
		c.call(&it, &t.Call)
	case *ssa.Go:
		c.call(&it, &t.Call)
		it.n = int(it.op)
		it.op = xGo
	case *ssa.Defer:
		c.call(&it, &t.Call)
		it.n = int(it.op)
		it.op = xDefer
	default:
		it.op = xUnsupp
		it.name = fmt.Sprintf("%T", in)
	}
	return it
}

// onlyLoaded reports whether an element address is used for reads only, so that a
// symbolic index can be turned into an if-then-else over the elements.
func onlyLoaded(a *ssa.IndexAddr) bool {
	for _, r := range *a.Referrers() {
		switch u := r.(type) {
		case *ssa.UnOp:
			if u.Op != token.MUL {
				return false
			}
		case *ssa.DebugRef:
		case *ssa.FieldAddr:
			for _, r2 := range *u.Referrers() {
				switch w := r2.(type) {
				case *ssa.UnOp:
					if w.Op != token.MUL {
						return false
					}
				case *ssa.DebugRef:
				default:
					return false
				}
			}
		default:
			return false
		}
	}
	return true
}

func (c *fcomp) call(it *instr, cc *ssa.CallCommon) {
	it.pos = cc.Pos()
	for _, a := range cc.Args {
		it.args = append(it.args, c.o(a))
	}
	if cc.IsInvoke() {
		it.op = xInvoke
		it.a = c.o(cc.Value)
		it.meth = cc.Method
		it.name = cc.Method.Name()
		return
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		it.op = xBuiltin
		it.name = b.Name()
		var ts []types.Type
		for _, a := range cc.Args {
			ts = append(ts, a.Type())
		}
		it.x = ts
		if len(ts) > 0 {
			it.k = kindOf(ts[0])
			it.t = ts[0]
		}
		if s := cc.Signature(); s != nil && s.Results().Len() > 0 {
			it.t2 = s.Results().At(0).Type()
		}
		return
	}
	it.op = xCall
	if f := cc.StaticCallee(); f != nil {
		it.fn = c.vm.fnOf(f)
		if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
			it.a = c.o(mc)
		} else {
			it.a = noOp
		}
		return
	}
	it.a = c.o(cc.Value)
}

// ownAlloc tells whether an address is in memory allocated by the current call of the function.
func ownAlloc(v ssa.Value) bool {
	for {
		switch x := v.(type) {
		case *ssa.Alloc:
			return true
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		default:
			return false
		}
	}
}

var _ = utf8.RuneError
