package main

// Models of functions whose source is not interpreted: assembly, runtime, sync,
// fmt and the harness API (package verifsym).

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"os"
	"path/filepath"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

type intrinsic = func(vm *VM, a []V) V

const symPath = "github.com/fredbi/go-typeset/verifsym"

func intrinsicFor(name string, f *ssa.Function) intrinsic {
	if i, ok := intrinsics[name]; ok {
		return i
	}
	if strings.HasPrefix(name, symPath+".") {
		if i, ok := symIntrinsics[strings.TrimPrefix(name, symPath+".")]; ok {
			return i
		}
	}
	return nil
}

func elems(v V) []V {
	s, _ := v.X.(*Slice)
	if s == nil {
		return nil
	}
	return s.A.E[s.Off : s.Off+s.Len]
}

func mkSlice(e []V) V { return V{X: &Slice{A: &Agg{E: e}, Len: len(e), Cap: len(e)}} }

func unary(f func(float64) float64) intrinsic {
	return func(vm *VM, a []V) V { return vm.floatMap(a[0], f) }
}

func binary(f func(x, y float64) float64) intrinsic {
	return func(vm *VM, a []V) V {
		if r, ok := vm.floatMap2(a[0], a[1], f); ok {
			return r
		}
		return vF(f(vm.concFloat(a[0]).f64(), vm.concFloat(a[1]).f64()))
	}
}

func onFI(keep bool, f func(float64) float64) intrinsic {
	return func(vm *VM, a []V) V {
		if _, ok := a[0].X.(*FI); ok && keep {
			return a[0]
		}
		r := vm.floatMap(a[0], f)
		if t, ok := r.X.(*FT); ok && keep {
			if i, ok := t.affine(vm.tb); ok {
				return V{X: i}
			}
		}
		return r
	}
}

func (vm *VM) findByte(b []V, c V) V {
	for i := range b {
		if vm.branch(vm.eqK(b[i], c, KU8)) {
			return vInt(i)
		}
	}
	return vInt(-1)
}

func (vm *VM) eqK(a, b V, k Kind) V {
	return fromTerm(vm.tb.Eq(vm.toTerm(a, k), vm.toTerm(b, k)), KBool)
}

func (vm *VM) indexSeq(s, sep []V) V {
	for i := 0; i+len(sep) <= len(s); i++ {
		if vm.branch(vm.seqEq(s[i:i+len(sep)], sep, KU8)) {
			return vInt(i)
		}
	}
	return vInt(-1)
}

func (vm *VM) countByte(b []V, c V) V {
	t := vm.tb.Const(0, 64)
	for i := range b {
		e := vm.toTerm(vm.eqK(b[i], c, KU8), KBool)
		t = vm.tb.Bin(OAdd, t, vm.tb.Ite(e, vm.tb.Const(1, 64), vm.tb.Const(0, 64)))
	}
	return fromTerm(t, KI64)
}

func ptr(vm *VM, v V) *V {
	p, ok := v.X.(*V)
	if !ok {
		vm.badPtr(v)
	}
	return p
}

// leaf finds the first scalar cell below a pointer.
func leaf(p *V) *V {
	for {
		a, ok := p.X.(*Agg)
		if !ok || len(a.E) == 0 {
			return p
		}
		if i := len(a.E) - 1; len(a.E) > 1 {
			p = &a.E[i]
		} else {
			p = &a.E[0]
		}
	}
}

func (vm *VM) lockOp(kind string) intrinsic { return nil }

var intrinsics map[string]intrinsic

func init() {
	str := func(vm *VM, v V) []V { return vm.strBytes(v) }
	intrinsics = map[string]intrinsic{
		"internal/bytealg.IndexByte":       func(vm *VM, a []V) V { return vm.findByte(elems(a[0]), a[1]) },
		"internal/bytealg.IndexByteString": func(vm *VM, a []V) V { return vm.findByte(str(vm, a[0]), a[1]) },
		"internal/bytealg.Count":           func(vm *VM, a []V) V { return vm.countByte(elems(a[0]), a[1]) },
		"internal/bytealg.CountString":     func(vm *VM, a []V) V { return vm.countByte(str(vm, a[0]), a[1]) },
		"internal/bytealg.Index":           func(vm *VM, a []V) V { return vm.indexSeq(elems(a[0]), elems(a[1])) },
		"internal/bytealg.IndexString":     func(vm *VM, a []V) V { return vm.indexSeq(str(vm, a[0]), str(vm, a[1])) },
		"internal/bytealg.Equal":           func(vm *VM, a []V) V { return vm.seqEq(elems(a[0]), elems(a[1]), KU8) },
		"bytes.Equal":                      func(vm *VM, a []V) V { return vm.seqEq(elems(a[0]), elems(a[1]), KU8) },
		"internal/bytealg.Compare": func(vm *VM, a []V) V {
			return vm.cmp3(mkStr(elems(a[0])), mkStr(elems(a[1])))
		},
		"internal/bytealg.CompareString": func(vm *VM, a []V) V { return vm.cmp3(a[0], a[1]) },
		"cmp.Compare":                    nil,
		"internal/bytealg.MakeNoZero": func(vm *VM, a []V) V {
			n := vm.concInt(a[0])
			return V{X: newSlice(types.Typ[types.Uint8], KU8, n, growCap(0, n, 1))}
		},
		"strings.Index":         func(vm *VM, a []V) V { return vm.indexSeq(str(vm, a[0]), str(vm, a[1])) },
		"strings.IndexByte":     func(vm *VM, a []V) V { return vm.findByte(str(vm, a[0]), a[1]) },
		"internal/abi.NoEscape": func(vm *VM, a []V) V { return a[0] },
		"internal/abi.Escape":   func(vm *VM, a []V) V { return a[0] },
		"runtime.GC":            func(vm *VM, a []V) V { return V{} },
		"runtime.KeepAlive":     func(vm *VM, a []V) V { return V{} },
		"runtime.SetFinalizer":  func(vm *VM, a []V) V { return V{} },

		"math.Float64bits":     func(vm *VM, a []V) V { return V{N: vm.concFloat(a[0]).N} },
		"math.Float64frombits": func(vm *VM, a []V) V { return V{N: uint64(vm.concInt(a[0]))} },
		"math.Round":           onFI(true, math.Round),
		"math.Floor":           onFI(true, math.Floor),
		"math.Ceil":            onFI(true, math.Ceil),
		"math.Trunc":           onFI(true, math.Trunc),
		"math.RoundToEven":     onFI(true, math.RoundToEven),
		"math.Abs": func(vm *VM, a []V) V {
			abs := func(t *Term) *Term {
				return vm.tb.Ite(vm.tb.Cmp(OSlt, t, vm.tb.Const(0, 64)), vm.tb.Neg(t), t)
			}
			switch x := a[0].X.(type) {
			case *FI:
				return V{X: &FI{T: abs(x.T)}}
			case *FQ:
				return V{X: &FQ{T: abs(x.T), D: x.D}}
			}
			return vm.floatMap(a[0], math.Abs)
		},
		"math.Sqrt":  unary(math.Sqrt),
		"math.Log":   unary(math.Log),
		"math.Exp":   unary(math.Exp),
		"math.Log2":  unary(math.Log2),
		"math.IsNaN": func(vm *VM, a []V) V { return vBool(a[0].X == nil && math.IsNaN(a[0].f64())) },
		"math.IsInf": func(vm *VM, a []V) V {
			return vBool(a[0].X == nil && math.IsInf(a[0].f64(), vm.concInt(a[1])))
		},
		"math.Pow": binary(math.Pow),
		"math.Mod": binary(math.Mod),
		"math.Max": func(vm *VM, a []V) V { return vm.fminmax(a, false) },
		"math.Min": func(vm *VM, a []V) V { return vm.fminmax(a, true) },
		"math.Inf": func(vm *VM, a []V) V { return vF(math.Inf(vm.concInt(a[0]))) },

		"fmt.Sprintf":  func(vm *VM, a []V) V { return vm.sprintf(a[0], elems(a[1])) },
		"fmt.Sprint":   func(vm *VM, a []V) V { return vm.sprintf(vStr(strings.Repeat("%v", len(elems(a[0])))), elems(a[0])) },
		"fmt.Errorf":   func(vm *VM, a []V) V { return vm.mkErr(vm.sprintf(a[0], elems(a[1]))) },
		"fmt.Println":  func(vm *VM, a []V) V { return V{X: Tuple{V{}, V{}}} },
		"fmt.Printf":   func(vm *VM, a []V) V { return V{X: Tuple{V{}, V{}}} },
		"fmt.Fprintln": func(vm *VM, a []V) V { return V{X: Tuple{V{}, V{}}} },
		"fmt.Fprintf":  func(vm *VM, a []V) V { panic(vm.unsupp("fmt.Fprintf")) },

		"(*sync.Mutex).Lock":      func(vm *VM, a []V) V { return vm.lock(a[0], true) },
		"(*sync.Mutex).Unlock":    func(vm *VM, a []V) V { return vm.unlock(a[0], true) },
		"(*sync.Mutex).TryLock":   func(vm *VM, a []V) V { vm.lock(a[0], true); return vBool(true) },
		"(*sync.RWMutex).Lock":    func(vm *VM, a []V) V { return vm.lock(a[0], true) },
		"(*sync.RWMutex).Unlock":  func(vm *VM, a []V) V { return vm.unlock(a[0], true) },
		"(*sync.RWMutex).RLock":   func(vm *VM, a []V) V { return vm.lock(a[0], false) },
		"(*sync.RWMutex).RUnlock": func(vm *VM, a []V) V { return vm.unlock(a[0], false) },
		"(*sync.Once).Do": func(vm *VM, a []V) V {
			p := ptr(vm, a[0])
			l := leaf(p)
			if vm.reads != nil {
				vm.reads.onceBegin(vm, p, func() bool { return l.N != 0 })
			}
			if l.N == 0 {
				func() {
					defer func() {
						vm.set(l, V{N: 1})
					}()
					vm.callValue(a[1], nil)
				}()
				if vm.reads != nil {
					vm.reads.onceEnd(vm, p)
				}
			}
			return V{}
		},
		"(*sync.Pool).Get": func(vm *VM, a []V) V {
			p := ptr(vm, a[0])
			if vm.reads != nil {
				vm.reads.sync(vm, p)
			}
			ag := p.X.(*Agg)
			nf := ag.E[len(ag.E)-1]
			// last pooled object, as kept by Put
			if ag.E[len(ag.E)-2].X != nil {
				if st, ok := ag.E[len(ag.E)-2].X.(*poolStack); ok && len(st.v) > 0 {
					v := st.v[len(st.v)-1]
					vm.set(&ag.E[len(ag.E)-2], V{X: &poolStack{v: st.v[: len(st.v)-1 : len(st.v)-1]}})
					return v
				}
			}
			if nf.X == nil {
				return V{}
			}
			return vm.callValue(nf, nil)
		},
		"(*sync.Pool).Put": func(vm *VM, a []V) V {
			p := ptr(vm, a[0])
			if vm.reads != nil {
				vm.reads.sync(vm, p)
			}
			ag := p.X.(*Agg)
			st, _ := ag.E[len(ag.E)-2].X.(*poolStack)
			n := &poolStack{}
			if st != nil {
				n.v = append(n.v, st.v...)
			}
			n.v = append(n.v, a[1])
			vm.set(&ag.E[len(ag.E)-2], V{X: n})
			return V{}
		},
		"sort.Slice":       func(vm *VM, a []V) V { return vm.sortSlice(a[0], a[1]) },
		"sort.SliceStable": func(vm *VM, a []V) V { return vm.sortSlice(a[0], a[1]) },
		"os.Exit":          func(vm *VM, a []V) V { panic(vm.unsupp("os.Exit")) },
		"strings.ToLower":  nil,
		"unicode/utf8.RuneCountInString": func(vm *VM, a []V) V {
			if s, ok := a[0].X.(*SStr); ok && s.HasR {
				return vInt(len(s.R))
			}
			return vInt(len(vm.strRunes(a[0])))
		},
		"unicode/utf8.ValidString": func(vm *VM, a []V) V {
			if s, ok := a[0].X.(*SStr); ok {
				if s.HasR {
					return vBool(true)
				}
				for off := 0; off < len(s.B); {
					r, n := vm.decodeRune(s.B[off:])
					if n == 1 && r.X == nil && r.N == utf8.RuneError {
						return vBool(false)
					}
					off += n
				}
				return vBool(true)
			}
			s, _ := a[0].X.(string)
			return vBool(utf8.ValidString(s))
		},
	}
	for k, v := range intrinsics {
		if v == nil {
			delete(intrinsics, k)
		}
	}
	for _, p := range []string{"sync/atomic.", "internal/runtime/atomic."} {
		for _, t := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer", "32", "64", "Uint8", "8", "uintptr", ""} {
			t := t
			intrinsics[p+"Load"+t] = func(vm *VM, a []V) V { return vm.atomic(a[0], false) }
			intrinsics[p+"Store"+t] = func(vm *VM, a []V) V { vm.atomic(a[0], true); vm.set(ptr(vm, a[0]), a[1]); return V{} }
			intrinsics[p+"Swap"+t] = func(vm *VM, a []V) V {
				o := vm.atomic(a[0], true)
				vm.set(ptr(vm, a[0]), a[1])
				return o
			}
			intrinsics[p+"Add"+t] = func(vm *VM, a []V) V {
				o := vm.atomic(a[0], true)
				k := KI64
				if strings.HasSuffix(t, "32") {
					k = KI32
				}
				n := fromTerm(vm.tb.Bin(OAdd, vm.toTerm(o, k), vm.toTerm(a[1], k)), k)
				vm.set(ptr(vm, a[0]), n)
				return n
			}
			intrinsics[p+"CompareAndSwap"+t] = func(vm *VM, a []V) V {
				o := vm.atomic(a[0], true)
				var same bool
				if o.X == nil && a[1].X == nil {
					same = o.N == a[1].N
				} else {
					same = o.X == a[1].X
				}
				if same {
					vm.set(ptr(vm, a[0]), a[2])
				}
				return vBool(same)
			}
		}
	}
}

type poolStack struct{ v []V }

// syncMap gives the content of a sync.Map.
func (vm *VM) syncMap(p V) *Map {
	q := ptr(vm, p)
	if vm.reads != nil {
		vm.reads.sync(vm, q)
	}
	c := leaf(q)
	m, ok := c.X.(*Map)
	if !ok {
		a := types.NewInterfaceType(nil, nil)
		m = newMap(types.NewMap(a, a))
		vm.set(c, V{X: m})
	}
	return m
}

func init() {
	get := func(vm *VM, m *Map, k V) (V, V) {
		v, ok := vm.mapGet(m, k)
		if !ok {
			v = V{}
		}
		return v, vBool(ok)
	}
	intrinsics["(*sync.Map).Load"] = func(vm *VM, a []V) V {
		v, ok := get(vm, vm.syncMap(a[0]), a[1])
		return V{X: Tuple{v, ok}}
	}
	intrinsics["(*sync.Map).Store"] = func(vm *VM, a []V) V {
		vm.mapPut(vm.syncMap(a[0]), a[1], a[2])
		return V{}
	}
	intrinsics["(*sync.Map).LoadOrStore"] = func(vm *VM, a []V) V {
		m := vm.syncMap(a[0])
		v, ok := get(vm, m, a[1])
		if ok.N == 0 {
			v = a[2]
			vm.mapPut(m, a[1], v)
		}
		return V{X: Tuple{v, ok}}
	}
	intrinsics["(*sync.Map).LoadAndDelete"] = func(vm *VM, a []V) V {
		m := vm.syncMap(a[0])
		v, ok := get(vm, m, a[1])
		vm.mapDelete(m, a[1])
		return V{X: Tuple{v, ok}}
	}
	intrinsics["(*sync.Map).Delete"] = func(vm *VM, a []V) V {
		vm.mapDelete(vm.syncMap(a[0]), a[1])
		return V{}
	}
	intrinsics["(*sync/atomic.Value).Load"] = func(vm *VM, a []V) V { return *leaf(vm.atomicPtr(a[0])) }
	intrinsics["(*sync/atomic.Value).Store"] = func(vm *VM, a []V) V {
		vm.set(leaf(vm.atomicPtr(a[0])), a[1])
		return V{}
	}
}

func (vm *VM) atomicPtr(p V) *V {
	q := ptr(vm, p)
	if vm.reads != nil {
		vm.reads.sync(vm, q)
	}
	return q
}

func (vm *VM) atomic(p V, write bool) V {
	q := ptr(vm, p)
	if vm.reads != nil {
		vm.reads.sync(vm, q)
	}
	return *q
}

func (vm *VM) lock(m V, excl bool) V {
	p := ptr(vm, m)
	if vm.reads != nil {
		vm.reads.lock(vm, p, excl)
	} else if excl && vm.mutexes[p] != 0 {
		panic(abort{why: "self-deadlock on a mutex" + vm.where(), kind: abSteps})
	}
	vm.mutexes[p]++
	if vm.log {
		vm.trail = append(vm.trail, undo{fn: func() { vm.mutexes[p]-- }})
	}
	return V{}
}

func (vm *VM) unlock(m V, excl bool) V {
	p := ptr(vm, m)
	if vm.reads != nil {
		vm.reads.unlock(vm, p, excl)
	}
	if vm.mutexes[p] == 0 {
		panic(vm.tpanic("sync: unlock of unlocked mutex"))
	}
	vm.mutexes[p]--
	if vm.log {
		vm.trail = append(vm.trail, undo{fn: func() { vm.mutexes[p]++ }})
	}
	return V{}
}

func (vm *VM) cmp3(a, b V) V {
	lt := vm.toTerm(vm.strLess(a, b), KBool)
	eq := vm.toTerm(vm.strEq(a, b), KBool)
	tb := vm.tb
	return fromTerm(tb.Ite(lt, tb.Const(^uint64(0), 64), tb.Ite(eq, tb.Const(0, 64), tb.Const(1, 64))), KI64)
}

func (vm *VM) fminmax(a []V, isMin bool) V {
	if x, ok := a[0].X.(*FI); ok {
		if y, ok := a[1].X.(*FI); ok {
			c := vm.tb.Cmp(OSlt, x.T, y.T)
			if isMin {
				return V{X: &FI{T: vm.tb.Ite(c, x.T, y.T)}}
			}
			return V{X: &FI{T: vm.tb.Ite(c, y.T, x.T)}}
		}
	}
	f := math.Max
	if isMin {
		f = math.Min
	}
	return binary(f)(vm, a)
}

func (vm *VM) sortSlice(s V, less V) V {
	ifc, ok := s.X.(*Iface)
	if !ok {
		panic(vm.unsupp("sort.Slice"))
	}
	e := elems(ifc.V)
	for i := 1; i < len(e); i++ {
		for j := i; j > 0 && vm.branch(vm.callValue(less, []V{vInt(j), vInt(j - 1)})); j-- {
			x, y := copyVal(e[j]), copyVal(e[j-1])
			vm.assign(&e[j], y)
			vm.assign(&e[j-1], x)
		}
	}
	return V{}
}

// sprintf supports the verbs needed for messages; symbolic operands are rendered exactly
// for %s/%v of strings and concretised for integers.
func (vm *VM) sprintf(f V, args []V) V {
	fs, ok := f.X.(string)
	if !ok && f.X != nil {
		panic(vm.unsupp("symbolic format"))
	}
	out := V{}
	ai := 0
	for i := 0; i < len(fs); i++ {
		if fs[i] != '%' {
			j := i
			for j < len(fs) && fs[j] != '%' {
				j++
			}
			out = vm.strConcat(out, vStr(fs[i:j]))
			i = j - 1
			continue
		}
		j := i + 1
		for j < len(fs) && strings.ContainsRune("+-# 0123456789.", rune(fs[j])) {
			j++
		}
		if j >= len(fs) {
			break
		}
		verb := fs[i : j+1]
		i = j
		if verb == "%%" {
			out = vm.strConcat(out, vStr("%"))
			continue
		}
		if ai >= len(args) {
			out = vm.strConcat(out, vStr("%!"+verb[1:]+"(MISSING)"))
			continue
		}
		arg, _ := args[ai].X.(*Iface)
		ai++
		if arg == nil {
			out = vm.strConcat(out, vStr("<nil>"))
			continue
		}
		k := kindOf(arg.T)
		v := arg.V
		if f := vm.eng.lookupMethod(arg.T, nil, "Error"); f != nil && (verb == "%v" || verb == "%s" || verb == "%w") {
			out = vm.strConcat(out, vm.call(vm.fnOf(f), []V{v}, nil))
			continue
		}
		if f := vm.eng.lookupMethod(arg.T, nil, "String"); f != nil && (verb == "%v" || verb == "%s") {
			out = vm.strConcat(out, vm.call(vm.fnOf(f), []V{v}, nil))
			continue
		}
		switch {
		case k == KString && (verb == "%s" || verb == "%v"):
			out = vm.strConcat(out, v)
		case k == KString:
			s, ok := v.X.(string)
			if v.X != nil && !ok {
				panic(vm.unsupp("format %s of a symbolic string", verb))
			}
			out = vm.strConcat(out, vStr(fmt.Sprintf(verb, s)))
		case k.isInt():
			n := vm.concInt(v)
			switch {
			case k == KI32 && verb == "%c", k == KI32 && verb == "%q":
				out = vm.strConcat(out, vStr(fmt.Sprintf(verb, rune(n))))
			case k.signed():
				out = vm.strConcat(out, vStr(fmt.Sprintf(verb, n)))
			default:
				out = vm.strConcat(out, vStr(fmt.Sprintf(verb, uint64(n))))
			}
		case k == KBool:
			out = vm.strConcat(out, vStr(fmt.Sprintf(verb, vm.branch(v))))
		case k.isFloat():
			out = vm.strConcat(out, vStr(fmt.Sprintf(verb, vm.concFloat(v).f64())))
		default:
			panic(vm.unsupp("format %s of %s", verb, arg.T))
		}
	}
	return out
}

func (vm *VM) mkErr(msg V) V {
	t := vm.eng.errorStringType
	if t == nil {
		panic(vm.unsupp("fmt.Errorf"))
	}
	p := new(V)
	*p = V{X: &Agg{E: []V{msg}}}
	return V{X: &Iface{T: t, V: V{X: p}}}
}

// ---- harness API

var symIntrinsics map[string]intrinsic

func (vm *VM) cstr(v V) string {
	s, ok := v.X.(string)
	if !ok && v.X != nil {
		panic(vm.unsupp("symbolic name"))
	}
	return s
}

func init() {
	symIntrinsics = map[string]intrinsic{
		"Int": func(vm *VM, a []V) V {
			lo, hi := vm.concInt(a[1]), vm.concInt(a[2])
			if lo == hi {
				return vInt(lo)
			}
			return fromTerm(vm.newSym(vm.cstr(a[0]), KI64, int64(lo), int64(hi)), KI64)
		},
		"RuneIn": func(vm *VM, a []V) V {
			lo, hi := vm.concInt(a[1]), vm.concInt(a[2])
			return fromTerm(vm.newSym(vm.cstr(a[0]), KI32, int64(lo), int64(hi)), KI32)
		},
		"Byte": func(vm *VM, a []V) V {
			return fromTerm(vm.newSym(vm.cstr(a[0]), KU8, -128, 127), KU8)
		},
		"ByteIn": func(vm *VM, a []V) V {
			return fromTerm(vm.newSym(vm.cstr(a[0]), KU8, int64(vm.concInt(a[1])), int64(vm.concInt(a[2]))), KU8)
		},
		"Bool": func(vm *VM, a []V) V {
			return fromTerm(vm.newSym(vm.cstr(a[0]), KBool, 0, 1), KBool)
		},
		"Choose": func(vm *VM, a []V) V { return vInt(vm.choose(vm.cstr(a[0]), vm.concInt(a[1]))) },
		"Assume": func(vm *VM, a []V) V {
			vm.assume(a[0])
			return V{}
		},
		"Assert": func(vm *VM, a []V) V {
			vm.assert(a[0], vm.cstr(a[1]))
			return V{}
		},
		"Cover": func(vm *VM, a []V) V {
			vm.cover(vm.cstr(a[0]))
			return V{}
		},
		"Param": func(vm *VM, a []V) V {
			if p, ok := vm.curJob.params[vm.cstr(a[0])]; ok {
				return vInt(p)
			}
			return a[1]
		},
		"Concrete": func(vm *VM, a []V) V { return vInt(vm.concInt(a[0])) },
		"MapOrder": func(vm *VM, a []V) V {
			old := vm.mapOrd
			vm.mapOrd = vm.branch(a[0])
			vm.trail = append(vm.trail, undo{fn: func() { vm.mapOrd = old }})
			return V{}
		},
		"EqRunes": func(vm *VM, a []V) V { return vm.seqEq(elems(a[0]), elems(a[1]), KI32) },
		"EqInts":  func(vm *VM, a []V) V { return vm.seqEq(elems(a[0]), elems(a[1]), KI64) },
		"EqBytes": func(vm *VM, a []V) V { return vm.seqEq(elems(a[0]), elems(a[1]), KU8) },
		"And": func(vm *VM, a []V) V {
			return fromTerm(vm.tb.And(vm.toTerm(a[0], KBool), vm.toTerm(a[1], KBool)), KBool)
		},
		"Or": func(vm *VM, a []V) V {
			return fromTerm(vm.tb.Or(vm.toTerm(a[0], KBool), vm.toTerm(a[1], KBool)), KBool)
		},
		"Ite": func(vm *VM, a []V) V {
			return fromTerm(vm.tb.Ite(vm.toTerm(a[0], KBool), vm.toTerm(a[1], KI64), vm.toTerm(a[2], KI64)), KI64)
		},
		"Note": func(vm *VM, a []V) V { return V{} },
		"SetFile": func(vm *VM, a []V) V {
			vm.eng.setFile(vm, vm.cstr(a[0]), vm.cstr(a[1]), a[2])
			return V{}
		},
		"RepoFile": func(vm *VM, a []V) V {
			b, err := os.ReadFile(filepath.Join(vm.eng.repo, vm.cstr(a[0])))
			if err != nil {
				panic(vm.unsupp("%v", err))
			}
			return vStr(string(b))
		},
		"Concurrently": func(vm *VM, a []V) V { vm.concurrently(elems(a[0])); return V{} },
		"Observe": func(vm *VM, a []V) V {
			if vm.sub == nil {
				vm.obs = append(vm.obs, a[0])
			}
			return V{}
		},
		"Symbolic": func(vm *VM, a []V) V { return vBool(true) },
	}
}

func (vm *VM) assume(c V) {
	t, ok := c.X.(*Term)
	if !ok {
		if c.N == 0 {
			panic(abort{why: "assumption", kind: abInfeasible})
		}
		return
	}
	if vm.sub != nil {
		panic(mergeFail{})
	}
	if !vm.assumeT(t) {
		panic(abort{why: "assumption", kind: abInfeasible})
	}
}

// assumeT adds t to the path when feasible. The outcome is recorded as a decision.
func (vm *VM) assumeT(t *Term) bool {
	q, yes, _ := vm.quick(t)
	if q >= 0 {
		return q == 1
	}
	if vm.dpos < len(vm.decs) {
		d := &vm.decs[vm.dpos]
		vm.dpos++
		if d.val == 1 {
			vm.addCond(t)
			return true
		}
		return false
	}
	d := decision{kind: dBranch, val: 1}
	switch {
	case vm.model != nil && vm.tb.Eval(t, vm.env) == 1:
	case q == -2 && vm.model != nil:
		vm.setModel(vm.modelWith(t.v1, uint64(yes.iv[0].lo)))
	default:
		r, m := vm.sol.Model(vm.pc, t)
		switch r {
		case Unsat:
			d.val = 0
		case Sat:
			vm.setModel(m)
		default:
			vm.setModel(nil)
		}
	}
	vm.decs = append(vm.decs, d)
	vm.dpos++
	if d.val == 1 {
		vm.addCond(t)
	}
	return d.val == 1
}

var _ = token.ADD

func init() {
	intrinsics["errors.Is"] = func(vm *VM, a []V) V {
		e, _ := a[0].X.(*Iface)
		t, _ := a[1].X.(*Iface)
		if e == nil || t == nil {
			return vBool(e == nil && t == nil)
		}
		fn := vm.eng.prog.ImportedPackage("errors").Func("is")
		return vm.invoke(vm.fnOf(fn), []V{a[0], a[1], vBool(types.Comparable(t.T))}, nil)
	}
}
