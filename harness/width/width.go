// Package width holds the harnesses for the width of runes (C04, C05, C06).
package width

import (
	"github.com/fredbi/go-typeset/terminal/runes"
	sym "github.com/fredbi/go-typeset/verifsym"
)

// find returns the row of the oracle for r; each row is a separate path.
func find(r rune) row {
	lo, hi := 0, len(oracle)-1
	for lo < hi {
		mid := (lo + hi) / 2
		if r > oracle[mid].hi {
			lo = mid + 1
		} else {
			hi = mid
		}
	}
	return oracle[lo]
}

// SetupTable builds the lookup table of the package before the paths fork.
func SetupTable() {
	sym.Assert(runes.Width('a') == 1, "the width of a is 1")
}

// anyRune yields any value of a rune, in the part of the code space of the job.
func anyRune() rune {
	parts := sym.Param("parts", 1)
	part := sym.Param("part", 0)
	size := 0x110000 / parts
	return sym.RuneIn("r", part*size, part*size+size-1)
}

func ok(w, mask int) bool {
	res := false
	for k := 0; k <= 4; k++ {
		if mask>>k&1 == 1 {
			res = sym.Or(res, w == k)
		}
	}
	return res
}

// CheckWidth: C04, valid runes.
func CheckWidth() {
	r := anyRune()
	o := find(r)
	w := runes.Width(r)
	sym.Assert(ok(w, o.mask), "the width is not the one given by Unicode 15.0")
	sym.Observe(w)
}

// CheckInvalid: C04, invalid code points have no width.
func CheckInvalid() {
	r := sym.RuneIn("bad", -1<<31, 1<<31-1)
	sym.Assume(sym.Or(r < 0, r > 0x10ffff))
	sym.Assert(runes.Width(r) == 0, "an invalid code point has a width")
	sym.Assert(runes.Width(r, runes.WithEastAsian(true)) == 0, "an invalid code point has a width in east-asian mode")
	sym.Assert(runes.Widths([]rune{'a', r, 'b'}) == 2, "an invalid code point counts")
}

// options builds any combination of options, in one of several orders.
func options(ea, skip, hasSkip, hasK bool, k int) []runes.Option {
	var opts []runes.Option
	if hasK {
		opts = append(opts, runes.WithEastAsianAmbiguousWidth(k))
	}
	opts = append(opts, runes.WithEastAsian(ea))
	if hasSkip {
		opts = append(opts, runes.WithSkipStrictEmojiNeutral(skip))
	}
	return opts
}

// CheckEastAsian: C06 — the options change the width of the characters they are about, and
// of no other.
func CheckEastAsian() {
	r := anyRune()
	o := find(r)
	base := runes.Width(r)
	amb := runes.IsAmbiguous(r)
	sym.Assert(amb == o.amb, "ambiguous is not what Unicode 15.0 says")
	k := sym.Int("k", 0, 8)
	skip := sym.Bool("skip")
	hasK := sym.Choose("haskey", 2) == 1
	wide := runes.Width(r, options(true, skip, true, hasK, k)...)
	if !hasK {
		k = 2
	}
	want := base
	if o.amb {
		want = sym.Ite(sym.And(base == 1, r != 0xfffd), k, base)
	} else if o.pict {
		want = sym.Ite(sym.And(base == 1, skip), 2, base)
	}
	sym.Assert(wide == want, "wrong width in east-asian mode")
	sym.Observe(wide)
}

// CheckOff: C06 — without the east-asian mode, the other options have no effect.
func CheckOff() {
	r := anyRune()
	k := sym.Int("k", 0, 8)
	skip := sym.Bool("skip")
	sym.Assert(runes.Width(r, options(false, skip, true, true, k)...) == runes.Width(r), "an option changes the default mode")
	sym.Assert(runes.Width(r, runes.WithEastAsian(true), runes.WithEastAsian(false)) == runes.Width(r), "the mode can be enabled, not disabled")
	// the options given to a call do not change later calls
	_ = runes.Width(r, options(true, true, true, true, k)...)
	sym.Assert(runes.Width(r, runes.WithEastAsian(true), runes.WithEastAsianAmbiguousWidth(1)) == runes.Width(r), "a former call changes the result")
	sym.Assert(runes.Widths([]rune{r, r}, options(true, skip, true, true, k)...) == 2*runes.Width(r, options(true, skip, true, true, k)...), "the options are not applied to slices")
}

func text(n int) []rune {
	t := make([]rune, n)
	for i := range t {
		t[i] = sym.RuneIn("t", -1<<31, 1<<31-1)
	}
	return t
}

// CheckSum: C05 — the width of a slice is the sum of the widths of its runes.
func CheckSum() {
	n := sym.Param("n", 2)
	ea := sym.Choose("ea", 2) == 1
	var opts []runes.Option
	if ea {
		opts = options(true, sym.Bool("skip"), true, true, sym.Int("k", 0, 8))
	}
	t := text(n)
	sum := 0
	for _, r := range t {
		w := runes.Width(r, opts...)
		sym.Assert(sym.And(w >= 0, w <= 8), "the width of a rune is out of bounds")
		sum += w
	}
	got := runes.Widths(t, opts...)
	sym.Assert(got == sum, "the width of a slice is not the sum of the widths of its runes")
	k := sym.Choose("cut", n+1)
	sym.Assert(runes.Widths(t[:k], opts...)+runes.Widths(t[k:], opts...) == got, "the widths of two parts do not add up")
	sym.Observe(got)
}

// CheckString: C05 — the width of a string is that of its runes.
func CheckString() {
	n := sym.Param("n", 2)
	ea := sym.Choose("ea", 2) == 1
	var opts []runes.Option
	if ea {
		opts = options(true, sym.Bool("skip"), true, true, sym.Int("k", 0, 8))
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = sym.Byte("b")
	}
	s := string(b)
	sum := 0
	for _, r := range s {
		sum += runes.Width(r, opts...)
	}
	sym.Assert(runes.StringWidth(s, opts...) == sum, "the width of a string is not the sum of the widths of its runes")
	sym.Observe(sum)
}

// CheckLong: C05 — the same, on longer texts with a symbolic window.
func CheckLong() {
	n := sym.Param("n", 40)
	t := make([]rune, n)
	base := []rune{'a', 0x4e2d, 0x301, 0x2e3b, 'z', 0x1f600, 0x7f, 0xfffd}
	for i := range t {
		t[i] = base[i%len(base)]
	}
	at := sym.Place(n, 1)
	t[at] = sym.RuneIn("t", -1<<31, 1<<31-1)
	ea := sym.Choose("ea", 2) == 1
	opts := []runes.Option{runes.WithEastAsian(ea)}
	sum := 0
	for _, r := range t {
		sum += runes.Width(r, opts...)
	}
	sym.Assert(runes.Widths(t, opts...) == sum, "the width of a slice is not the sum of the widths of its runes")
	if sym.Param("string", 0) == 1 {
		sym.Assert(runes.StringWidth(string(t), opts...) == sum, "the width of a string is not the sum of the widths of its runes")
	}
}
