package lines

import (
	"errors"

	"github.com/fredbi/go-typeset/linebreak"
	"github.com/fredbi/go-typeset/terminal/runes"
	sym "github.com/fredbi/go-typeset/verifsym"
	"github.com/fredbi/go-typeset/wordbreak/hyphenator"
	"github.com/fredbi/go-typeset/wordbreak/punctuator"
)

// Texts broken with the default settings.
var texts = [][]string{
	{"The", "quick", "hyphenation"},
	{"Well-known", "(e.g.)", "words..."},
	{"inter-national", "typesetting,", "finally"},
	{"one", "/", "two|three", "--", "x"},
	{"", "a", "", "b"},
	{"中文", "文字列,", "ok"},
	{"-leading", "trailing-", "e\u0301tude"},
	{"a", "b", "c", "d", "e", "f"},
	{"typographical", "considerations"},
}

// fromText builds the boxes of tokens from the splitters themselves.
func fromText(tokens []string) *para {
	p := &para{tokens: tokens, hyphen: 1, tol: 8.6, dash: true, scale: 1, hp: -1, space: 1, unit: 1}
	punctuate := punctuator.New().BreakWord
	hyphenate := hyphenator.New(hyphenator.WithMinLength(4)).BreakWord
	add := func(t []rune, after gap) { p.add(box{text: t, width: runes.Widths(t)}, after) }
	for _, tok := range tokens {
		n := len(p.boxes)
		for _, t := range punctuate([]rune(tok)) {
			switch {
			case punctuator.IsPunctuation(t):
				add(t, punct)
			case len(t) <= 4:
				add(t, joined)
			default:
				for _, w := range hyphenator.SplitWord(t) {
					if hyphenator.IsHyphen(w) {
						add(w, hard)
						continue
					}
					parts := hyphenate(w)
					for i, x := range parts {
						if i < len(parts)-1 {
							add(x, soft)
						} else {
							add(x, joined)
						}
					}
				}
			}
		}
		if len(p.boxes) == n {
			add(nil, joined)
		}
		p.boxes[len(p.boxes)-1].after = blank
	}
	p.boxes[len(p.boxes)-1].after = end
	return p
}

// defaults breaks one of the texts with the default settings.
func defaults() (*para, []string, error) {
	p := fromText(texts[sym.Choose("text", len(texts))])
	p.max = sym.Int("max", 0, sym.Param("maxw", 40))
	lines, err := linebreak.New().LeftAlignUniform(p.tokens, float64(p.max))
	return p, lines, err
}

// CheckTextDefault: C20.
func CheckTextDefault() {
	p, lines, err := defaults()
	if err == nil {
		sym.Assert(p.parse(lines) != nil, "the lines are the paragraph broken where it may be")
		if len(lines) > 1 {
			sym.Cover("broken")
		}
	}
}

// CheckWidthDefault: C21.
func CheckWidthDefault() {
	p, lines, err := defaults()
	if err == nil {
		for _, l := range lines {
			sym.Assert(runes.Widths([]rune(l)) <= p.max, "a line is not wider than asked")
		}
		if len(lines) > 1 {
			sym.Cover("broken")
		}
	}
}

// CheckRefusalDefault: C23.
func CheckRefusalDefault() {
	p, lines, err := defaults()
	sym.Assert(p.settable() == (err == nil), "refused only if it cannot be set")
	if err != nil {
		sym.Assert(errors.Is(err, linebreak.ErrCannotBeSet) && lines == nil, "refused with the documented error")
		sym.Cover("refused")
	}
}

// CheckAny: C20 and C21 for short tokens of any runes.
func CheckAny() {
	var all []rune
	var tokens []string
	sizes := sym.Param("sizes", 21)
	for n := sizes; n > 0; n /= 10 {
		if len(tokens) > 0 {
			all = append(all, ' ')
		}
		var t []rune
		for i := 0; i < n%10; i++ {
			r := sym.RuneIn("r", sym.Param("lo", 1), sym.Param("hi", 126))
			sym.Assume(r != ' ' && r != 0x1b && (r < 0xd800 || r > 0xdfff))
			t = append(t, r)
		}
		all = append(all, t...)
		tokens = append(tokens, string(t))
	}
	max := sym.Int("max", 0, sym.Param("maxw", 8))
	one := func(t []rune) float64 { return float64(len(t)) }
	l := linebreak.New(linebreak.WithMeasurer(one), linebreak.WithHyphenator(func(w []rune) [][]rune { return [][]rune{w} }))
	lines, err := l.LeftAlignUniform(tokens, float64(max))
	if err != nil {
		sym.Cover("refused")
		return
	}
	at := 0
	for k, line := range lines {
		rs := []rune(line)
		sym.Assert(len(rs) <= max, "a line is not wider than asked")
		if k > 0 && at < len(all) && (len(rs) == 0 || rs[0] != ' ') && all[at] == ' ' {
			at++
		}
		sym.Assert(at+len(rs) <= len(all), "no rune is added")
		sym.Assert(sym.EqRunes(rs, all[at:at+len(rs)]), "the text is kept")
		at += len(rs)
	}
	sym.Assert(at == len(all), "no rune is lost")
	if len(lines) > 1 {
		sym.Cover("broken")
	}
}

// SetupDefaults loads what the default settings need.
func SetupDefaults() {
	sym.Assert(runes.Widths([]rune("a")) == 1, "the width of a is 1")
	sym.Assert(len(hyphenator.New().BreakWord([]rune("a"))) == 1, "a is not broken")
}
