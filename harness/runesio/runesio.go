// Package runesio holds the harnesses for the reader and the writer of runes (C15, C16, C17).
package runesio

import (
	"errors"
	"io"

	"github.com/fredbi/go-typeset/terminal/runes/runesio"
	sym "github.com/fredbi/go-typeset/verifsym"
)

// size is the number of bytes of the UTF-8 form of a valid rune.
func size(r rune) int {
	return sym.Ite(r < 0x80, 1, sym.Ite(r < 0x800, 2, sym.Ite(r < 0x10000, 3, 4)))
}

// valid yields any rune that has an UTF-8 form.
func valid() rune {
	r := sym.RuneIn("r", 0, 0x10ffff)
	sym.Assume(sym.Or(r < 0xd800, r > 0xdfff))
	return r
}

func text(n int) []rune {
	t := make([]rune, n)
	for i := range t {
		t[i] = valid()
	}
	return t
}

// CheckCursor: C15 — any history of reads and seeks.
func CheckCursor() {
	n := sym.Param("n", 2)
	ops := sym.Param("ops", 3)
	t := text(n)
	keep := append([]rune{}, t...)
	r := runesio.NewSliceReader(t)
	pos := 0
	for i := 0; i < ops; i++ {
		if sym.Choose("op", 2) == 0 {
			rn, sz, err := r.ReadRune()
			if pos >= n {
				sym.Assert(err == io.EOF, "no end of file at the end")
				sym.Assert(sz == 0, "a size is reported at the end of file")
				sym.Cover("end of file")
			} else {
				sym.Assert(err == nil, "an error where there is a rune")
				sym.Assert(rn == keep[pos], "not the rune under the cursor")
				sym.Assert(sz == size(rn), "not the size in bytes of the rune")
				pos++
			}
		} else {
			off := int64(sym.Int("off", -1<<40, 1<<40))
			whence := sym.Choose("whence", 3)
			base := int64(0)
			if whence == io.SeekCurrent {
				base = int64(pos)
			} else if whence == io.SeekEnd {
				base = int64(n)
			}
			to, err := r.Seek(off, whence)
			if want := base + off; want < 0 || want > int64(n) {
				sym.Assert(err != nil, "a seek out of the text does not fail")
				sym.Assert(errors.Is(err, runesio.ErrSeekOutOfRange), "not the documented error")
			} else {
				sym.Assert(err == nil, "a seek in the text fails")
				sym.Assert(to == want, "not the new offset")
				pos = int(want)
				sym.Cover("seek")
			}
		}
		pos = sym.Concrete(pos)
		rest := r.Runes()
		sym.Assert(len(rest) == n-pos, "not as many unread runes as expected")
		sym.Assert(sym.EqRunes(rest, keep[pos:]), "not the unread runes")
		sym.Observe(pos)
	}
	sym.Assert(sym.EqRunes(t, keep), "the runes were modified")
}

// move puts the reader in any state.
func move(r *runesio.SliceReader, n int) {
	if n > 0 {
		if _, err := r.Seek(int64(sym.Choose("state", n+1)), io.SeekStart); err != nil {
			sym.Assert(false, "a seek in the text fails")
		}
	}
}

// CheckBytes: C16 — pairs of byte offsets on the boundaries of runes.
func CheckBytes() {
	n := sym.Param("n", 3)
	pairs := sym.Param("pairs", 1)
	t := text(n)
	keep := append([]rune{}, t...)
	at := make([]int, n+1)
	for i, r := range t {
		at[i+1] = at[i] + size(r)
	}
	r := runesio.NewSliceReader(t)
	move(r, n)
	var offsets, lo, hi []int
	for p := 0; p < pairs; p++ {
		a := sym.Choose("a", n+1)
		b := a + sym.Choose("b", n+1-a)
		lo, hi = append(lo, a), append(hi, b)
		offsets = append(offsets, at[a], at[b])
	}
	parts := r.SliceFromByteOffsets(offsets)
	compare(keep, parts, lo, hi)
}

// CheckRunes: C16 — pairs of offsets in runes.
func CheckRunes() {
	n := sym.Param("n", 3)
	pairs := sym.Param("pairs", 1)
	t := text(n)
	keep := append([]rune{}, t...)
	r := runesio.NewSliceReader(t)
	move(r, n)
	var offsets, lo, hi []int
	for p := 0; p < pairs; p++ {
		a := sym.Choose("a", n+1)
		b := a + sym.Choose("b", n+1-a)
		lo, hi = append(lo, a), append(hi, b)
		offsets = append(offsets, a, b)
		s := r.Slice(a, b)
		sym.Assert(len(s) == b-a, "a slice has the wrong length")
		sym.Assert(sym.EqRunes(s, keep[a:b]), "a slice has the wrong runes")
	}
	compare(keep, r.Slices(offsets), lo, hi)
}

func compare(t []rune, parts [][]rune, lo, hi []int) {
	sym.Assert(len(parts) == len(lo), "not as many slices as pairs")
	for i, p := range parts {
		sym.Assert(len(p) == hi[i]-lo[i], "a slice has the wrong length")
		sym.Assert(sym.EqRunes(p, t[lo[i]:hi[i]]), "a slice has the wrong runes")
		sym.Observe(len(p))
	}
}

// CheckPairs: C16 — an odd number of offsets is refused.
func CheckPairs() {
	n := sym.Param("n", 3)
	r := runesio.NewSliceReader(text(n))
	offsets := make([]int, 2*sym.Choose("pairs", 3)+1)
	for i := range offsets {
		offsets[i] = sym.Int("off", 0, n)
	}
	sym.Assert(panics(func() { r.Slices(offsets) }), "offsets that do not come in pairs are taken")
	sym.Assert(panics(func() { r.SliceFromByteOffsets(offsets) }), "byte offsets that do not come in pairs are taken")
}

func panics(f func()) (res bool) {
	defer func() {
		if recover() != nil {
			res = true
		}
	}()
	f()
	return false
}

// sink records what is written, and may fail.
type sink struct {
	got   []byte
	calls int
	n     int
	err   error
	fail  bool
}

func (s *sink) Write(p []byte) (int, error) {
	s.calls++
	s.got = append(s.got, p...)
	if s.fail {
		return s.n, s.err
	}
	return len(p), nil
}

// encode is the UTF-8 form of a text.
func encode(t []rune) []byte {
	var out []byte
	for _, r := range t {
		if r < 0 || r > 0x10ffff || (r >= 0xd800 && r <= 0xdfff) {
			r = 0xfffd
		}
		switch {
		case r < 0x80:
			out = append(out, byte(r))
		case r < 0x800:
			out = append(out, 0xc0|byte(r>>6), 0x80|byte(r)&0x3f)
		case r < 0x10000:
			out = append(out, 0xe0|byte(r>>12), 0x80|byte(r>>6)&0x3f, 0x80|byte(r)&0x3f)
		default:
			out = append(out, 0xf0|byte(r>>18), 0x80|byte(r>>12)&0x3f, 0x80|byte(r>>6)&0x3f, 0x80|byte(r)&0x3f)
		}
	}
	return out
}

var errSink = errors.New("sink")

// CheckWrite: C17 — any runes, any failure of the underlying writer.
func CheckWrite() {
	n := sym.Param("n", 2)
	t := make([]rune, n)
	for i := range t {
		t[i] = sym.RuneIn("r", -1<<31, 1<<31-1)
	}
	keep := append([]rune{}, t...)
	s := &sink{n: sym.Int("count", 0, 100), err: errSink, fail: sym.Bool("fail")}
	w := runesio.NewWriter(s)
	how := sym.Choose("how", 3)
	var (
		c   int
		err error
	)
	want := encode(keep)
	switch how {
	case 0:
		c, err = w.WriteRunes(t)
	case 1:
		c, err = runesio.AsRunesWriter(s).WriteRunes(t)
	case 2:
		if n == 0 {
			return
		}
		want = encode(keep[:1])
		c, err = w.WriteRune(t[0])
	}
	sym.Assert(len(s.got) == len(want), "not as many bytes as in the UTF-8 form")
	sym.Assert(sym.EqBytes(s.got, want), "the bytes written are not the UTF-8 form")
	if s.fail {
		sym.Assert(err == errSink, "the error of the writer is lost")
		sym.Assert(c == s.n, "the count of the writer is lost")
		sym.Cover("failure")
	} else {
		sym.Assert(err == nil, "an error that the writer did not give")
		sym.Assert(c == len(want), "not the number of bytes written")
	}
	sym.Assert(sym.EqRunes(t, keep), "the runes were modified")
	sym.Observe(c)
}

// taker is a writer that takes runes itself.
type taker struct {
	sink
	runes []rune
}

func (t *taker) WriteRunes(r []rune) (int, error) {
	t.runes = append(t.runes, r...)
	return len(r), nil
}
func (t *taker) WriteRune(r rune) (int, error) { t.runes = append(t.runes, r); return 1, nil }

// CheckSeveral: C17 — several writes in a row, of each kind.
func CheckSeveral() {
	n := sym.Param("n", 3)
	s := &sink{}
	w := runesio.NewWriter(s)
	k := &taker{}
	kw := runesio.AsRunesWriter(k)
	var want []byte
	var sent []rune
	for i := 0; i < n; i++ {
		r := sym.RuneIn("r", -1<<31, 1<<31-1)
		switch sym.Choose("how", 3) {
		case 0:
			w.WriteRune(r)
			kw.WriteRune(r)
			want = append(want, encode([]rune{r})...)
			sent = append(sent, r)
		case 1:
			w.WriteRunes([]rune{r, 'x'})
			kw.WriteRunes([]rune{r, 'x'})
			want = append(want, encode([]rune{r, 'x'})...)
			sent = append(sent, r, 'x')
		case 2:
			b := []byte{sym.Byte("b"), 0xff}
			w.Write(b)
			kw.Write(b)
			want = append(want, b...)
		}
	}
	sym.Assert(len(s.got) == len(want), "not as many bytes as expected")
	sym.Assert(sym.EqBytes(s.got, want), "the bytes written are not those expected")
	sym.Assert(len(k.runes) == len(sent), "a writer that takes runes is not used as it is")
	sym.Assert(sym.EqRunes(k.runes, sent), "a writer that takes runes does not get the runes")
}

// long yields n runes of all lengths, with a window of any ones.
func long(n, free int, any func() rune) []rune {
	t := make([]rune, n)
	fill := []rune{'a', 0xe9, 'b', 0x4e2d, 0x1f600, 'c', 'd'}
	switch sym.Param("fill", 0) {
	case 1:
		fill = []rune{'a'}
	case 2:
		fill = []rune{0x1f600}
	case 3:
		fill = []rune{0x4e2d}
	case 4:
		fill = []rune{0xe9}
	}
	for i := range t {
		t[i] = fill[i%len(fill)]
	}
	at := sym.Place(n, free)
	for i := 0; i < free; i++ {
		t[at+i] = any()
	}
	return t
}

// CheckLongWrite: C17 — long texts, where some runes are arbitrary.
func CheckLongWrite() {
	t := long(sym.Param("n", 40), sym.Param("free", 1), func() rune { return sym.RuneIn("r", -1<<31, 1<<31-1) })
	keep := append([]rune{}, t...)
	s := &sink{n: sym.Int("count", 0, 100), err: errSink, fail: sym.Bool("fail")}
	w := runesio.NewWriter(s)
	c, err := w.WriteRunes(t)
	want := encode(keep)
	if s.fail {
		sym.Assert(err == errSink, "the error of the writer is lost")
		sym.Assert(c == s.n, "the count of the writer is lost")
		sym.Assert(len(s.got) <= len(want), "more bytes than in the UTF-8 form")
		sym.Assert(sym.EqBytes(s.got, want[:len(s.got)]), "the bytes written are not the UTF-8 form")
		sym.Cover("failure")
		return
	}
	sym.Assert(len(s.got) == len(want), "not as many bytes as in the UTF-8 form")
	sym.Assert(sym.EqBytes(s.got, want), "the bytes written are not the UTF-8 form")
	sym.Assert(err == nil, "an error that the writer did not give")
	sym.Assert(c == len(want), "not the number of bytes written")
	sym.Assert(sym.EqRunes(t, keep), "the runes were modified")
	sym.Observe(c)
}

// CheckLongRead: C15, C16 — long texts: a seek, some reads, then slices by bytes and by runes
// with an end at any of the places and another one near it or at an end of the text.
func CheckLongRead() {
	n := sym.Param("n", 40)
	t := long(n, sym.Param("free", 1), valid)
	keep := append([]rune{}, t...)
	r := runesio.NewSliceReader(t)
	pos := sym.Place(n, 0)
	to, err := r.Seek(int64(pos), io.SeekStart)
	sym.Assert(err == nil && to == int64(pos), "a seek in the text fails")
	sym.Assert(sym.EqRunes(r.Runes(), keep[pos:]), "not the unread runes")
	for i := 0; i < 3; i++ {
		rn, sz, err := r.ReadRune()
		if pos+i >= n {
			sym.Assert(err == io.EOF, "no end of file at the end")
			continue
		}
		sym.Assert(err == nil, "an error where there is a rune")
		sym.Assert(rn == keep[pos+i], "not the rune under the cursor")
		sym.Assert(sz == size(rn), "not the size in bytes of the rune")
	}
	back := int64(pos)
	if back > 2 {
		back = 2
	}
	if pos+3 <= n {
		to, err = r.Seek(-3-back, io.SeekCurrent)
		sym.Assert(err == nil && to == int64(pos)-back, "a seek in the text fails")
		sym.Assert(sym.EqRunes(r.Runes(), keep[int64(pos)-back:]), "not the unread runes")
	}
	for i := range keep {
		if i < n-pos {
			continue
		}
		_, err = r.Seek(int64(-i), io.SeekEnd)
		sym.Assert(err == nil, "a seek in the text fails")
		break
	}
	sym.Assert(sym.EqRunes(t, keep), "the runes were modified")
	sym.Observe(pos)
}

// CheckLongBytes: C16 — slices of long texts.
func CheckLongBytes() {
	n := sym.Param("n", 40)
	t := long(n, sym.Param("free", 1), valid)
	keep := append([]rune{}, t...)
	at := make([]int, n+1)
	for i, r := range t {
		at[i+1] = at[i] + size(r)
	}
	r := runesio.NewSliceReader(t)
	a := sym.Place(n, 0)
	var lo, hi, bytes, offs []int
	for _, b := range []int{a, a + 1, a + 5, n} {
		if b > n {
			continue
		}
		lo, hi = append(lo, a, 0), append(hi, b, a)
		bytes = append(bytes, at[a], at[b], 0, at[a])
		offs = append(offs, a, b, 0, a)
	}
	compare(keep, r.SliceFromByteOffsets(bytes), lo, hi)
	compare(keep, r.Slices(offs), lo, hi)
}
