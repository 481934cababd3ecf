// Package inputs holds the harness for C03: the runes given are never written to.
package inputs

import (
	"io"

	"github.com/fredbi/go-typeset/attributes"
	"github.com/fredbi/go-typeset/terminal/runes"
	"github.com/fredbi/go-typeset/terminal/runes/runesio"
	sym "github.com/fredbi/go-typeset/verifsym"
	"github.com/fredbi/go-typeset/wordbreak/hyphenator"
	"github.com/fredbi/go-typeset/wordbreak/punctuator"
	"github.com/fredbi/go-typeset/wordbreak/tokenizer"
)

type null struct{}

func (null) Write(p []byte) (int, error) { return len(p), nil }

var _ io.Writer = null{}

// total is the number of runes of parts, and the sum of their values.
func total(parts [][]rune) int {
	n := 0
	for _, p := range parts {
		n += len(p)
	}
	return n
}

// memory is an array of n runes followed by some more, all arbitrary.
func memory(n int) []rune {
	m := make([]rune, n+sym.Param("spare", 2))
	for i := range m {
		m[i] = sym.RuneIn("r", sym.Param("lo", 0), sym.Param("hi", 0x10ffff))
	}
	return m
}

// CheckUtility calls one of the utilities on the head of an array.
func CheckUtility() {
	n := sym.Param("n", 3)
	m := memory(n)
	keep := append([]rune{}, m...)
	in := m[:n]
	full := -1 // runes that the parts must add up to
	switch sym.Param("kind", 0) {
	case 0:
		full = total(punctuator.New().BreakWord(in))
	case 1:
		_ = tokenizer.New().BreakWord(in)
	case 2:
		full = total(hyphenator.SplitWord(in))
	case 3:
		var sep [3]rune
		for i := range sep {
			sep[i] = sym.RuneIn("sep", 0, 0x10ffff)
		}
		_ = runes.FieldsFunc(in, func(r rune) bool { return r == sep[0] || r == sep[1] || r == sep[2] })
	case 4:
		w := runesio.NewWriter(null{})
		k, _ := w.WriteRunes(in)
		sym.Assert(k >= 0, "count")
		_, _ = w.WriteRune(m[0])
	case 5:
		r := runesio.NewSliceReader(in)
		for {
			if _, _, err := r.ReadRune(); err != nil {
				break
			}
		}
		_, _ = r.Seek(int64(sym.Choose("seek", n+1)), io.SeekStart)
		_ = r.Runes()
		_ = r.Slice(0, n)
		_ = r.Slices([]int{0, n, n, n, 0, 1})
	case 6:
		_ = runes.Widths(in) + runes.Widths(in, runes.WithEastAsian(true))
	case 7:
		w := runesio.NewWriter(null{})
		s := attributes.NewState()
		s.Push(attributes.New(in[:1], in[1:], nil))
		s.Push(attributes.New(in[1:], nil, in[:1]))
		for it := s.Iterator(); it.Next(); {
			it.StartOfLine(w)
			it.Item().Start(w)
			it.Item().Render(w)
			it.Item().Stop(w)
			it.EndOfLine(w)
		}
	case 8: // with the dictionary of the harness
		for _, f := range []string{"ushyphmax.tex", "hyph-en-gb.tex", "hyph-fr.tex", "hyph-de-1996.tex", "hyph-es.tex"} {
			sym.SetFile("wordbreak/hyphenator", "languages/"+f, "\\message{"+f+"}\n\\patterns{\na1b\n.ba3c\nb1a.\n2c1\n}\n\\hyphenation{\nab-ca\n}\n")
		}
		h := hyphenator.New(hyphenator.WithMinLeft(1), hyphenator.WithMinRight(1), hyphenator.WithMinLength(sym.Param("min", 2)))
		full = total(h.BreakWord(in))
		sym.Assert(total(h.BreakWord(in)) == full, "the same parts again")
	}
	if full >= 0 {
		sym.Assert(full == n, "runes past the end of the text are returned")
	}
	sym.Assert(sym.EqRunes(m, keep), "the text given is written to")
	sym.Cover("run")
}

// SetupWidths loads the table of widths.
func SetupWidths() { sym.Assert(runes.Width('a') == 1, "the width of a is 1") }
