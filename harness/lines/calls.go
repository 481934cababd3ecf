package lines

import (
	"errors"
	"unicode/utf8"

	"github.com/fredbi/go-typeset/linebreak"
	sym "github.com/fredbi/go-typeset/verifsym"
)

func same(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func sameErr(a, b error) bool {
	return (a == nil) == (b == nil) && (a == nil || errors.Is(a, b) || a.Error() == b.Error())
}

// CheckRepeat: C22. The same call gives the same result, after any other call and for any order of the maps.
func CheckRepeat() {
	p := paragraph()
	l := p.breaker()
	sym.MapOrder(sym.Param("order", 0) == 1)
	a, errA := l.LeftAlignUniform(p.tokens, p.maximum())
	switch sym.Choose("between", 5) {
	case 0: // nothing
	case 1: // a paragraph that leaves attributes open, with an hyphenated word and marks
		_, err := l.LeftAlignUniform([]string{"\x1b[31mred", "QwertyUiop.", "x"}, 1000)
		sym.Assert(err == nil, "a wide paragraph can be set")
	case 2: // a paragraph that is refused
		_, _ = l.LeftAlignUniform([]string{"\x1b[1mred", "QwertyUiop--"}, 0)
		sym.Cover("between")
	case 3: // an empty paragraph
		lines, err := l.LeftAlignUniform(nil, 3)
		sym.Assert(len(lines) == 0 && err == nil, "an empty paragraph has no line and is not an error")
	case 4: // a line breaker with other options
		whole := func(w []rune) [][]rune { return [][]rune{w} }
		_, _ = linebreak.New(linebreak.WithTolerance(0.5), linebreak.WithHyphenPenalty(7), linebreak.WithScaleFactor(5),
			linebreak.WithMeasurer(func(w []rune) float64 { return 2 }), linebreak.WithHyphenator(whole), linebreak.WithPunctuator(whole),
			linebreak.WithWordBreak(false), linebreak.WithRenderHyphens(false),
		).LeftAlignUniform([]string{"QwertyUiop.", "\x1b[1mred"}, 9)
	}
	b, errB := l.LeftAlignUniform(p.tokens, p.maximum())
	sym.Assert(same(a, b) && sameErr(errA, errB), "the same call on the same line breaker gives the same lines")
	c, errC := p.lines()
	sym.Assert(same(a, c) && sameErr(errA, errC), "the same call on another line breaker gives the same lines")
	if len(a) > 1 {
		sym.Cover("broken")
	}
}

// CheckRepeatSequences: C22, with escape sequences in the paragraph.
func CheckRepeatSequences() {
	p := attrParagraph()
	l := p.breaker()
	raw := append([]string{}, p.raw...)
	sym.MapOrder(sym.Param("order", 0) == 1)
	a, errA := l.LeftAlignUniform(p.raw, p.maximum())
	sym.Assert(same(raw, p.raw), "the tokens given are not changed")
	if sym.Bool("between") {
		_, _ = l.LeftAlignUniform([]string{"\x1b[1mred", "\x1b[0;31m", "QwertyUiop--"}, float64(3*sym.Choose("narrow", 2)))
	}
	b, errB := l.LeftAlignUniform(p.raw, p.maximum())
	sym.Assert(same(a, b) && sameErr(errA, errB), "the same call on the same line breaker gives the same lines")
	c, errC := p.breaker().LeftAlignUniform(raw, p.maximum())
	sym.Assert(same(a, c) && sameErr(errA, errC), "the same call on another line breaker gives the same lines")
	if len(a) > 1 {
		sym.Cover("broken")
	}
}

// CheckEmpty: C23. Empty paragraphs.
func CheckEmpty() {
	p := paragraph()
	l := p.breaker()
	if sym.Bool("before") {
		_, _ = l.LeftAlignUniform(p.tokens, p.maximum())
	}
	var none []string
	if sym.Bool("nil") {
		none = []string{}
	}
	lines, err := l.LeftAlignUniform(none, float64(p.max))
	sym.Assert(len(lines) == 0 && err == nil, "an empty paragraph has no line and is not an error")
}

// ---- escape sequences

type piece struct {
	r     rune
	stack []string // the start sequences in force
}

var starts = []string{"\x1b[31m", "\x1b[1m", "\x1b[48;5;102m"}

const stop = "\x1b[0m"

// attrPara is a paragraph with escape sequences.
type attrPara struct {
	*para
	raw  []string // tokens, with escape sequences
	open int
	seq  int
}

func (p *attrPara) start() string {
	p.open++
	p.seq++
	return starts[(p.seq-1)%len(starts)]
}

func (p *attrPara) stop() string {
	sym.Assume(p.open > 0)
	p.open--
	return stop
}

// attrToken adds a token with escape sequences; the boxes are those of the text alone.
func (p *attrPara) attrToken(kind int) {
	base := 0
	switch kind {
	case 4, 7:
		base = 1 // a word that can be broken
	case 5:
		base = 2 // a word with a mark
	case 10:
		base = 3 // a word with a hyphen
	}
	p.token(base)
	t := p.tokens[len(p.tokens)-1]
	var raw string
	switch kind {
	case 0: // plain
		raw = t
	case 1: // around
		raw = p.start() + t
		raw += p.stop()
	case 2: // opens
		raw = p.start() + t
	case 3: // closes
		raw = t + p.stop()
	case 4: // around a word that can be broken
		raw = p.start() + t
		raw += p.stop()
	case 5: // closes before the mark
		raw = p.start() + t[:len(t)-1]
		raw += p.stop() + t[len(t)-1:]
	case 6: // nested
		raw = p.start() + p.start() + t
		raw += p.stop() + p.stop()
	case 7: // opens before a word that can be broken
		raw = p.start() + t
	case 8: // opens after
		raw = t + p.start()
	case 9: // closes then opens again
		raw = p.stop() + t
		raw += p.start()
	case 10: // around a word with a hyphen
		raw = p.start() + t
		raw += p.stop()
	}
	p.raw = append(p.raw, raw)
}

// pieces lists the runes of a text, with the sequences in force for each. It tells if all are closed at the end.
func pieces(text string, stack []string) (out []piece, rest []string, ok bool) {
	for len(text) > 0 {
		if text[0] == 0x1b {
			found := false
			for _, s := range starts {
				if len(text) >= len(s) && text[:len(s)] == s {
					stack = append(stack[:len(stack):len(stack)], s)
					text = text[len(s):]
					found = true
					break
				}
			}
			if found {
				continue
			}
			if len(text) < len(stop) || text[:len(stop)] != stop || len(stack) == 0 {
				return nil, nil, false
			}
			stack = stack[:len(stack)-1]
			text = text[len(stop):]
			continue
		}
		r, n := utf8.DecodeRuneInString(text)
		out = append(out, piece{r, stack})
		text = text[n:]
	}
	return out, stack, true
}

func joinTokens(tokens []string) string {
	s := ""
	for i, t := range tokens {
		if i > 0 {
			s += " "
		}
		s += t
	}
	return s
}

// attrParagraph builds a paragraph of n tokens with balanced escape sequences.
func attrParagraph() *attrPara {
	p := &attrPara{para: &para{widths: map[rune]int{}, hp: -1}}
	p.spaces()
	p.hyphen = sym.Int("h", sym.Param("hmin", 1), sym.Param("hmax", 1))
	p.widths['-'] = p.hyphen
	p.widths['.'] = 1
	p.tol = tolerances[sym.Param("tol", 0)]
	p.dash = sym.Param("dash", 1) == 1
	p.scale = 1
	for i, n := 0, sym.Param("n", 2); i < n; i++ {
		kind := sym.Param("kind"+string(rune('0'+i)), -1)
		if sym.Param("mix", 0) > 0 { // a long paragraph
			kind = []int{0, 1, 2, 0, 3, 6, 0, 5, 7, 0, 3, 10, 2, 2, 4, 9, 3, 0, 3}[i%19]
		}
		if kind < 0 {
			kind = sym.Choose("kind", sym.Param("kinds", 11))
		}
		p.attrToken(kind)
	}
	sym.Assume(p.open == 0)
	p.boxes[len(p.boxes)-1].after = end
	p.maxWidth()
	return p
}

// CheckSequences: C25.
func CheckSequences() {
	p := attrParagraph()
	l := p.breaker()
	lines, err := l.LeftAlignUniform(p.raw, p.maximum())
	plain, errPlain := p.lines()
	sym.Assert(sameErr(err, errPlain), "escape sequences do not make a paragraph refused")
	if err != nil {
		sym.Assert(errors.Is(err, linebreak.ErrCannotBeSet) && lines == nil, "refused with the documented error")
		return
	}
	sym.Assert(len(lines) == len(plain), "escape sequences do not change the number of lines")
	want, rest, ok := pieces(joinTokens(p.raw), nil)
	sym.Assert(ok && len(rest) == 0, "harness: the input is balanced")
	at := 0
	breaks := p.parse(plain)
	for k, line := range lines {
		got, rest, ok := pieces(line, nil)
		sym.Assert(ok && len(rest) == 0, "a line closes what it opens")
		text := make([]rune, len(got))
		for i, g := range got {
			text[i] = g.r
		}
		sym.Assert(string(text) == plain[k], "escape sequences do not change where the lines are broken")
		n := len(got)
		if breaks != nil && k < len(breaks) && p.boxes[breaks[k]].after == soft && p.dash {
			n-- // the hyphen added
		}
		for _, g := range got[:n] {
			if at < len(want) && want[at].r == ' ' && g.r != ' ' {
				at++ // the space at which the line was broken
			}
			sym.Assert(at < len(want) && want[at].r == g.r, "the text is kept")
			sym.Assert(same(want[at].stack, g.stack), "the escape sequences are around the same text")
			at++
		}
	}
	sym.Assert(at == len(want), "nothing is lost")
	if len(lines) > 1 {
		sym.Cover("broken")
	}
}
