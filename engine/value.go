package main

import (
	"fmt"
	"go/types"
	"math"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// V is a run-time value. Scalars live in N (normalised to 64 bits) with X nil when
// concrete; a symbolic scalar has X = *Term (or *FI for an integer-valued float64).
type V struct {
	N uint64
	X any
}

type (
	Agg   struct{ E []V } // struct or array
	Slice struct {
		A             *Agg
		Off, Len, Cap int
	}
	// SStr is a string with at least one symbolic byte, or a rune view.
	SStr struct {
		B    []V // bytes
		HasB bool
		R    []V // runes (all valid after normalisation)
		HasR bool
	}
	Iface struct {
		T types.Type // canonical
		V V
	}
	Closure struct {
		Fn   *ssa.Function
		Free []V
		// builtin method value of the engine
		Native func(vm *VM, args []V) V
	}
	// FI is a float64 known to hold the mathematical integer of a 64-bit term.
	FI struct{ T *Term }

	Map struct {
		KT   Kind
		kt   types.Type
		vt   types.Type
		idx  map[any]int
		ents []ent
		n    int
		nsym int
	}
	ent struct {
		k, v V
		dead bool
		sym  bool
	}
	Tuple []V

	// Iter is the state of a Range/Next pair.
	Iter struct {
		m     *Map
		order []int
		str   []V // runes
		offs  []V
		pos   int
		lazy  bool
		off   *Term
	}
	Chan struct {
		buf    []V
		cap    int
		closed bool
	}
)

type Kind uint8

const (
	KBool Kind = iota
	KI8
	KI16
	KI32
	KI64
	KU8
	KU16
	KU32
	KU64
	KF32
	KF64
	KC64
	KC128
	KString
	KPtr
	KSlice
	KMap
	KIface
	KFunc
	KChan
	KStruct
	KArray
	KTuple
	KUnsafe
	KOther
)

func (k Kind) isInt() bool    { return k >= KI8 && k <= KU64 }
func (k Kind) signed() bool   { return k >= KI8 && k <= KI64 }
func (k Kind) isFloat() bool  { return k == KF32 || k == KF64 }
func (k Kind) isScalar() bool { return k <= KF64 }
func (k Kind) width() uint8 {
	switch k {
	case KBool:
		return 0
	case KI8, KU8:
		return 8
	case KI16, KU16:
		return 16
	case KI32, KU32:
		return 32
	}
	return 64
}

func kindOf(t types.Type) Kind {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool, types.UntypedBool:
			return KBool
		case types.Int8:
			return KI8
		case types.Int16:
			return KI16
		case types.Int32, types.UntypedRune:
			return KI32
		case types.Int, types.Int64, types.UntypedInt:
			return KI64
		case types.Uint8:
			return KU8
		case types.Uint16:
			return KU16
		case types.Uint32:
			return KU32
		case types.Uint, types.Uint64, types.Uintptr:
			return KU64
		case types.Float32:
			return KF32
		case types.Float64, types.UntypedFloat:
			return KF64
		case types.Complex64:
			return KC64
		case types.Complex128, types.UntypedComplex:
			return KC128
		case types.String, types.UntypedString:
			return KString
		case types.UnsafePointer:
			return KUnsafe
		}
	case *types.Pointer:
		return KPtr
	case *types.Slice:
		return KSlice
	case *types.Map:
		return KMap
	case *types.Interface:
		return KIface
	case *types.Signature:
		return KFunc
	case *types.Chan:
		return KChan
	case *types.Struct:
		return KStruct
	case *types.Array:
		return KArray
	case *types.Tuple:
		return KTuple
	}
	return KOther
}

func norm(n uint64, k Kind) uint64 {
	switch k {
	case KI8:
		return uint64(int64(int8(n)))
	case KI16:
		return uint64(int64(int16(n)))
	case KI32:
		return uint64(int64(int32(n)))
	case KU8:
		return n & 0xff
	case KU16:
		return n & 0xffff
	case KU32:
		return n & 0xffffffff
	}
	return n
}

func vInt(i int) V { return V{N: uint64(int64(i))} }
func vBool(b bool) V {
	if b {
		return V{N: 1}
	}
	return V{}
}
func vStr(s string) V {
	if s == "" {
		return V{}
	}
	return V{X: s}
}
func vF(f float64) V { return V{N: math.Float64bits(f)} }

func (v V) f64() float64 { return math.Float64frombits(v.N) }
func (v V) int() int     { return int(int64(v.N)) }

func (vm *VM) toTerm(v V, k Kind) *Term {
	if t, ok := v.X.(*Term); ok {
		return t
	}
	if k == KBool {
		return vm.tb.Bool(v.N != 0)
	}
	return vm.tb.Const(v.N, k.width())
}

func fromTerm(t *Term, k Kind) V {
	if t.isC() {
		if k == KBool {
			return V{N: t.C}
		}
		if k.signed() {
			return V{N: uint64(sx(t.C, t.W))}
		}
		return V{N: t.C}
	}
	return V{X: t}
}

func isSym(v V) bool {
	switch v.X.(type) {
	case *Term, *FI, *FQ, *FT, *FX:
		return true
	}
	return false
}

func zero(t types.Type) V {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		a := &Agg{E: make([]V, u.NumFields())}
		for i := range a.E {
			a.E[i] = zero(u.Field(i).Type())
		}
		return V{X: a}
	case *types.Array:
		a := &Agg{E: make([]V, u.Len())}
		if k := kindOf(u.Elem()); k == KStruct || k == KArray {
			for i := range a.E {
				a.E[i] = zero(u.Elem())
			}
		}
		return V{X: a}
	case *types.Tuple:
		tp := make(Tuple, u.Len())
		for i := range tp {
			tp[i] = zero(u.At(i).Type())
		}
		return V{X: tp}
	}
	return V{}
}

// copyVal copies aggregates deeply (value semantics).
func copyVal(v V) V {
	if a, ok := v.X.(*Agg); ok {
		b := &Agg{E: make([]V, len(a.E))}
		for i, e := range a.E {
			b.E[i] = copyVal(e)
		}
		return V{X: b}
	}
	return v
}

// ---- strings

func (vm *VM) strLen(v V) int {
	switch s := v.X.(type) {
	case nil:
		return 0
	case string:
		return len(s)
	case *SStr:
		return len(vm.strBytes(v))
	}
	panic(vm.unsupp("strLen of %T", v.X))
}

// strBytes materialises the bytes of a string (forking on UTF-8 lengths when needed).
func (vm *VM) strBytes(v V) []V {
	switch s := v.X.(type) {
	case nil:
		return nil
	case string:
		b := make([]V, len(s))
		for i := 0; i < len(s); i++ {
			b[i].N = uint64(s[i])
		}
		return b
	case *SStr:
		if s.HasB {
			return s.B
		}
		var out []V
		for _, r := range s.R {
			out = append(out, vm.encodeRune(r)...)
		}
		// caching is only sound on this path; return without storing
		return out
	}
	panic(vm.unsupp("strBytes of %T", v.X))
}

func mkStr(b []V) V {
	conc := true
	for _, x := range b {
		if x.X != nil {
			conc = false
			break
		}
	}
	if conc {
		bs := make([]byte, len(b))
		for i, x := range b {
			bs[i] = byte(x.N)
		}
		return vStr(string(bs))
	}
	return V{X: &SStr{B: b, HasB: true}}
}

func mkRuneStr(r []V) V {
	conc := true
	for _, x := range r {
		if x.X != nil {
			conc = false
			break
		}
	}
	if conc {
		var sb strings.Builder
		for _, x := range r {
			sb.WriteRune(rune(int32(x.N)))
		}
		return vStr(sb.String())
	}
	return V{X: &SStr{R: r, HasR: true}}
}

// strRunes yields the runes of the string; ok=false when a byte view only exists
// and decoding needs forks (done here by branching).
func (vm *VM) strRunes(v V) []V {
	switch s := v.X.(type) {
	case nil:
		return nil
	case string:
		var out []V
		for _, r := range s {
			out = append(out, V{N: uint64(int64(r))})
		}
		return out
	case *SStr:
		if s.HasR {
			return s.R
		}
		var out []V
		b := s.B
		for i := 0; i < len(b); {
			r, n := vm.decodeRune(b[i:])
			out = append(out, r)
			i += n
		}
		return out
	}
	panic(vm.unsupp("strRunes of %T", v.X))
}

// validRune returns the rune with invalid values mapped to U+FFFD.
func (vm *VM) validRune(r V) V {
	t, ok := r.X.(*Term)
	if !ok {
		x := rune(int32(r.N))
		if !utf8.ValidRune(x) {
			x = utf8.RuneError
		}
		return V{N: uint64(int64(x))}
	}
	tb := vm.tb
	if t.lo >= 0 && t.hi < 0xD800 {
		return r
	}
	c := func(x int64) *Term { return tb.Const(uint64(x), 32) }
	ok1 := tb.And(tb.Cmp(OSle, c(0), t), tb.Cmp(OSlt, t, c(0xD800)))
	ok2 := tb.And(tb.Cmp(OSlt, c(0xDFFF), t), tb.Cmp(OSle, t, c(0x10FFFF)))
	return fromTerm(tb.Ite(tb.Or(ok1, ok2), t, c(0xFFFD)), KI32)
}

// encodeRune encodes a rune (forks on the encoded length when symbolic).
func (vm *VM) encodeRune(r V) []V {
	t, ok := r.X.(*Term)
	if !ok {
		s := string(rune(int32(r.N)))
		return vm.strBytes(vStr(s))
	}
	r = vm.validRune(r)
	t, ok = r.X.(*Term)
	if !ok {
		return vm.strBytes(vStr(string(rune(int32(r.N)))))
	}
	tb := vm.tb
	c := func(x int64) *Term { return tb.Const(uint64(x), 32) }
	le := func(x int64) bool { return vm.branchT(tb.Cmp(OSle, t, c(x))) }
	bits := func(sh uint, m, or int64) V {
		x := tb.Bin(OLshr, t, c(int64(sh)))
		x = tb.Bin(OAnd, x, c(m))
		x = tb.Bin(OOr, x, c(or))
		return fromTerm(tb.Trunc(x, 8), KU8)
	}
	switch {
	case le(0x7F):
		return []V{fromTerm(tb.Trunc(t, 8), KU8)}
	case le(0x7FF):
		return []V{bits(6, 0x1F, 0xC0), bits(0, 0x3F, 0x80)}
	case le(0xFFFF):
		return []V{bits(12, 0x0F, 0xE0), bits(6, 0x3F, 0x80), bits(0, 0x3F, 0x80)}
	default:
		return []V{bits(18, 0x07, 0xF0), bits(12, 0x3F, 0x80), bits(6, 0x3F, 0x80), bits(0, 0x3F, 0x80)}
	}
}

// decodeRune decodes the first rune of a byte sequence, as utf8.DecodeRune does.
func (vm *VM) decodeRune(b []V) (V, int) {
	tb := vm.tb
	if b[0].X == nil {
		// concrete lead byte; maybe all concrete
		n := 0
		var buf [4]byte
		for n < 4 && n < len(b) && b[n].X == nil {
			buf[n] = byte(b[n].N)
			n++
		}
		if n == len(b) || n == 4 || buf[0] < 0x80 || utf8.FullRune(buf[:n]) {
			r, w := utf8.DecodeRune(buf[:n])
			return V{N: uint64(int64(r))}, w
		}
	}
	t := func(i int) *Term { return tb.Zext(vm.toTerm(b[i], KU8), 32) }
	c := func(x int64) *Term { return tb.Const(uint64(x), 32) }
	le := func(a, x *Term) bool { return vm.branchT(tb.Cmp(OSle, a, x)) }
	between := func(a *Term, lo, hi int64) bool { return le(c(lo), a) && le(a, c(hi)) }
	bad := V{N: uint64(int64(utf8.RuneError))}
	b0 := t(0)
	if le(b0, c(0x7F)) {
		return fromTerm(b0, KI32), 1
	}
	if !between(b0, 0xC2, 0xF4) {
		return bad, 1
	}
	need := 2
	if !le(b0, c(0xDF)) {
		need = 3
		if !le(b0, c(0xEF)) {
			need = 4
		}
	}
	if len(b) < 2 {
		return bad, 1
	}
	lo, hi := int64(0x80), int64(0xBF)
	if need == 3 {
		if vm.branchT(tb.Eq(b0, c(0xE0))) {
			lo = 0xA0
		} else if vm.branchT(tb.Eq(b0, c(0xED))) {
			hi = 0x9F
		}
	}
	if need == 4 {
		if vm.branchT(tb.Eq(b0, c(0xF0))) {
			lo = 0x90
		} else if vm.branchT(tb.Eq(b0, c(0xF4))) {
			hi = 0x8F
		}
	}
	if !between(t(1), lo, hi) || len(b) < need {
		return bad, 1
	}
	for i := 2; i < need; i++ {
		if !between(t(i), 0x80, 0xBF) {
			return bad, 1
		}
	}
	m := map[int]int64{2: 0x1F, 3: 0x0F, 4: 0x07}[need]
	r := tb.Bin(OAnd, b0, c(m))
	for i := 1; i < need; i++ {
		r = tb.Bin(OOr, tb.Bin(OShl, r, c(6)), tb.Bin(OAnd, t(i), c(0x3F)))
	}
	return fromTerm(r, KI32), need
}

func (vm *VM) strConcat(a, b V) V {
	if a.X == nil {
		return b
	}
	if b.X == nil {
		return a
	}
	if x, ok := a.X.(string); ok {
		if y, ok := b.X.(string); ok {
			return vStr(x + y)
		}
	}
	// keep the rune view when both sides have one
	ra, oka := runeView(a)
	rb, okb := runeView(b)
	if oka && okb {
		return mkRuneStr(append(append(make([]V, 0, len(ra)+len(rb)), ra...), rb...))
	}
	ba, bb := vm.strBytes(a), vm.strBytes(b)
	return mkStr(append(append(make([]V, 0, len(ba)+len(bb)), ba...), bb...))
}

// runeView returns the runes of a valid UTF-8 string without forking, if possible.
func runeView(v V) ([]V, bool) {
	switch s := v.X.(type) {
	case nil:
		return nil, true
	case string:
		if !utf8.ValidString(s) {
			return nil, false
		}
		var out []V
		for _, r := range s {
			out = append(out, V{N: uint64(int64(r))})
		}
		return out, true
	case *SStr:
		if s.HasR {
			return s.R, true
		}
		// bytes that are all ASCII by bounds
		out := make([]V, len(s.B))
		for i, b := range s.B {
			if t, ok := b.X.(*Term); ok {
				_ = t
				return nil, false
			}
			if b.N >= 0x80 {
				return nil, false
			}
			out[i] = b
		}
		return out, true
	}
	return nil, false
}

func (vm *VM) strEq(a, b V) V {
	x, okx := a.X.(string)
	y, oky := b.X.(string)
	if a.X == nil {
		okx = true
	}
	if b.X == nil {
		oky = true
	}
	if okx && oky {
		return vBool(x == y)
	}
	if ra, ok := runeView(a); ok {
		if rb, ok := runeView(b); ok {
			return vm.seqEq(ra, rb, KI32)
		}
	}
	return vm.seqEq(vm.strBytes(a), vm.strBytes(b), KU8)
}

func (vm *VM) seqEq(a, b []V, k Kind) V {
	if len(a) != len(b) {
		return vBool(false)
	}
	r := vm.tb.True
	for i := range a {
		r = vm.tb.And(r, vm.tb.Eq(vm.toTerm(a[i], k), vm.toTerm(b[i], k)))
		if r == vm.tb.False {
			break
		}
	}
	return fromTerm(r, KBool)
}

func (vm *VM) strLess(a, b V) V {
	x, okx := a.X.(string)
	y, oky := b.X.(string)
	if (okx || a.X == nil) && (oky || b.X == nil) {
		return vBool(x < y)
	}
	ba, bb := vm.strBytes(a), vm.strBytes(b)
	// lexicographic: build from the end
	r := vm.tb.Bool(len(ba) < len(bb))
	for i := min(len(ba), len(bb)) - 1; i >= 0; i-- {
		p, q := vm.toTerm(ba[i], KU8), vm.toTerm(bb[i], KU8)
		r = vm.tb.Or(vm.tb.Cmp(OUlt, p, q), vm.tb.And(vm.tb.Eq(p, q), r))
	}
	return fromTerm(r, KBool)
}

// ---- debugging

func show(v V, depth int) string {
	if depth > 4 {
		return "..."
	}
	switch x := v.X.(type) {
	case nil:
		return fmt.Sprint(int64(v.N))
	case string:
		return fmt.Sprintf("%q", x)
	case *Term:
		return fmt.Sprintf("<term %d>", x.ID)
	case *Agg:
		s := "{"
		for i, e := range x.E {
			if i > 20 {
				s += "..."
				break
			}
			s += show(e, depth+1) + " "
		}
		return s + "}"
	case *Slice:
		s := "["
		for i := 0; i < x.Len && i < 40; i++ {
			s += show(x.A.E[x.Off+i], depth+1) + " "
		}
		return s + "]"
	case *V:
		return "&" + show(*x, depth+1)
	case *Iface:
		return fmt.Sprintf("%s(%s)", x.T, show(x.V, depth+1))
	}
	return fmt.Sprintf("%T", v.X)
}
