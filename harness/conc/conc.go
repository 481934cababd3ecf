// Package conc holds the harnesses for concurrent callers (C26).
package conc

import (
	"io"
	"strings"

	"github.com/fredbi/go-typeset/attributes"
	"github.com/fredbi/go-typeset/linebreak"
	"github.com/fredbi/go-typeset/terminal/ansi"
	"github.com/fredbi/go-typeset/terminal/runes"
	"github.com/fredbi/go-typeset/terminal/runes/runesio"
	sym "github.com/fredbi/go-typeset/verifsym"
	"github.com/fredbi/go-typeset/wordbreak/hyphenator"
	"github.com/fredbi/go-typeset/wordbreak/punctuator"
	"github.com/fredbi/go-typeset/wordbreak/tokenizer"
	"golang.org/x/text/language"
)

func joined(parts [][]rune) string {
	s := ""
	for i, p := range parts {
		if i > 0 {
			s += "|"
		}
		s += string(p)
	}
	return s
}

func same(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// dictionaries are small ones.
func dictionaries() {
	for _, f := range []string{"ushyphmax.tex", "hyph-en-gb.tex", "hyph-fr.tex", "hyph-de-1996.tex", "hyph-es.tex"} {
		p, e := "a1b\nbc3d\n.ab2c\n", "ta-ble\n"
		if f == "hyph-fr.tex" {
			p, e = "b1a\nd1c\n", "tab-le\n"
		}
		sym.SetFile("wordbreak/hyphenator", "languages/"+f, "\\message{"+f+"}\n\\patterns{\n"+p+"}\n\\hyphenation{\n"+e+"}\n")
	}
}

var tags = []language.Tag{language.AmericanEnglish, language.French, language.BritishEnglish}

// word of symbolic letters.
func word(n int) []rune {
	w := make([]rune, n)
	for i := range w {
		w[i] = sym.RuneIn("l", 'a', 'd')
	}
	return w
}

// CheckNew makes and uses hyphenators at the same time.
func CheckNew() {
	dictionaries()
	n := sym.Param("callers", 2)
	l := sym.Param("letters", 2)
	words := make([][]rune, n)
	langs := make([]int, n)
	got := make([]string, n)
	again := make([]string, n)
	fs := make([]func(), n)
	for i := range fs {
		i := i
		words[i] = append([]rune("ab"), word(l)...)
		langs[i] = sym.Choose("lang", sym.Param("langs", 2))
		fs[i] = func() {
			h := hyphenator.New(hyphenator.WithLanguageTag(tags[langs[i]]), hyphenator.WithMinLeft(1), hyphenator.WithMinRight(1))
			got[i] = joined(h.BreakWord(words[i]))
			again[i] = joined(h.BreakWordString("Table"))
		}
	}
	if sym.Bool("loaded") {
		_ = hyphenator.New(hyphenator.WithLanguageTag(tags[sym.Choose("lang", 2)]))
	}
	sym.Concurrently(fs...)
	for i := range fs {
		h := hyphenator.New(hyphenator.WithLanguageTag(tags[langs[i]]), hyphenator.WithMinLeft(1), hyphenator.WithMinRight(1))
		sym.Assert(got[i] == joined(h.BreakWord(words[i])), "a caller gets what it would get alone")
		want := "Ta|ble"
		if langs[i] == 1 {
			want = "Tab|le"
		}
		sym.Assert(again[i] == want, "a caller gets the exceptions of its language")
	}
	sym.Cover("run")
}

// CheckShared uses the same hyphenator at the same time.
func CheckShared() {
	dictionaries()
	h := hyphenator.New(hyphenator.WithMinLeft(1), hyphenator.WithMinRight(1))
	var words [2][]rune
	var got, sole [2]string
	for i := range words {
		words[i] = word(sym.Param("letters", 4) + i)
	}
	if sym.Bool("same") {
		words[1] = words[0]
	}
	use := func(i int) string {
		return joined(h.BreakWord(words[i])) + joined(h.BreakWord([]rune("table"))) + joined(hyphenator.SplitWord(words[i]))
	}
	sym.Concurrently(func() { got[0] = use(0) }, func() { got[1] = use(1) })
	for i := range words {
		sole[i] = use(i)
		sym.Assert(got[i] == sole[i], "a caller gets what it would get alone")
	}
	sym.Cover("run")
}

// CheckWords calls the stateless functions on the same text at the same time.
func CheckWords() {
	n := sym.Param("n", 3)
	text := make([]rune, n)
	for i := range text {
		text[i] = sym.RuneIn("r", 0, sym.Param("hi", 0x10ffff))
		sym.Assume(text[i] < 0xd800 || text[i] > 0xdfff)
	}
	str := string(text)
	p := punctuator.New()
	t := tokenizer.New()
	var got [3]string
	kind := sym.Param("kind", 0)
	use := func() string {
		switch kind {
		case 0:
			return joined(p.BreakWord(text)) + joined(punctuator.New().BreakWordString(str))
		case 1:
			return joined(t.BreakWord(text)) + joined(tokenizer.New().BreakWordString(str))
		case 2:
			out := ""
			for _, tok := range ansi.StripToken(text) {
				out += string(tok.StartSequence) + "|" + string(tok.Text) + "|" + string(tok.StopSequence) + ";"
			}
			return out
		case 3:
			return joined(hyphenator.SplitWord(text)) + joined(runes.FieldsFunc(text, func(r rune) bool { return r == 'a' }))
		}
		return ""
	}
	sym.Concurrently(func() { got[0] = use() }, func() { got[1] = use() })
	got[2] = use()
	sym.Assert(got[0] == got[2] && got[1] == got[2], "a caller gets what it would get alone")
	sym.Cover("run")
}

// CheckWidths measures texts at the same time.
func CheckWidths() {
	n := sym.Param("n", 1)
	text := make([]rune, n)
	for i := range text {
		text[i] = 0x4e2d
		if sym.Param("first", 0) == 0 {
			text[i] = sym.RuneIn("r", 0, 0x10ffff)
			sym.Assume(text[i] < 0xd800 || text[i] > 0xdfff)
		}
	}
	str := string(text)
	var a, b [3]int
	use := func(x *[3]int) {
		x[0] = runes.Widths(text)
		x[1] = runes.StringWidth(str)
		x[2] = runes.Widths(text, runes.WithEastAsian(true), runes.WithEastAsianAmbiguousWidth(1))
	}
	sym.Concurrently(func() { use(&a) }, func() { use(&b) })
	sym.Assert(a == b && a[0] == a[1], "a caller gets what it would get alone")
	use(&b)
	sym.Assert(a == b, "a caller gets what it would get alone")
	sym.Cover("run")
}

// SetupWidths measures once, so that only later calls are checked.
func SetupWidths() { sym.Assert(runes.Width('a') == 1, "the width of a is 1") }

func split(w []rune) [][]rune { return [][]rune{w[:1], w[1:]} }

// CheckLines breaks lines with distinct line breakers at the same time.
func CheckLines() {
	w := [2]int{sym.Int("w", 1, sym.Param("wmax", 3)), sym.Int("w", 1, sym.Param("wmax", 3))}
	max := [2]int{sym.Int("max", 1, sym.Param("maxw", 6)), sym.Int("max", 1, sym.Param("maxw", 6))}
	tokens := []string{"\x1b[1mab,", "cdefg-h\x1b[0m", "i"}
	var got, sole [2][]string
	use := func(i int) []string {
		l := linebreak.New(linebreak.WithHyphenator(split), linebreak.WithMeasurer(func(t []rune) float64 {
			m := 0
			for _, r := range t {
				if r == 'c' || r == 'i' {
					m += w[i]
				} else if r == ' ' || r == '-' {
					m++
				}
			}
			return float64(m)
		}))
		lines, err := l.LeftAlignUniform(tokens, float64(max[i]))
		if err != nil {
			lines = append(lines, err.Error())
		}
		return lines
	}
	sym.Concurrently(func() { got[0] = use(0) }, func() { got[1] = use(1) })
	for i := range got {
		sole[i] = use(i)
		sym.Assert(same(got[i], sole[i]), "a caller gets what it would get alone")
	}
	sym.Cover("run")
}

type sink struct{ b strings.Builder }

func (s *sink) Write(p []byte) (int, error) { return s.b.Write(p) }

var _ io.Writer = &sink{}

// CheckStates renders distinct states and writes to distinct writers at the same time.
func CheckStates() {
	r := sym.RuneIn("r", 0, 0x10ffff)
	sym.Assume(r < 0xd800 || r > 0xdfff)
	text := []rune{'a', r}
	var got [3]string
	use := func(i int) string {
		s := &sink{}
		w := runesio.NewWriter(s)
		st := attributes.NewState()
		for _, t := range ansi.StripToken([]rune("\x1b[1mx")) {
			st.Push(attributes.New(t.Text, t.StartSequence, t.StopSequence))
		}
		st.Push(attributes.New(text, text[:1], text[1:]))
		for it := st.Iterator(); it.Next(); {
			it.StartOfLine(w)
			it.Item().Start(w)
			it.Item().Render(w)
			it.Item().Stop(w)
			it.EndOfLine(w)
		}
		rd := runesio.NewSliceReader(text)
		x, _, err := rd.ReadRune()
		out := s.b.String() + string(x)
		if err != nil {
			out += "!"
		}
		return out
	}
	sym.Concurrently(func() { got[0] = use(0) }, func() { got[1] = use(1) })
	got[2] = use(2)
	sym.Assert(got[0] == got[2] && got[1] == got[2], "a caller gets what it would get alone")
	sym.Cover("run")
}
