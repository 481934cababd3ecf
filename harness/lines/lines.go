// Package lines holds the harnesses for breaking paragraphs into lines (C20-C25).
package lines

import (
	"errors"
	"math"

	"github.com/fredbi/go-typeset/linebreak"
	sym "github.com/fredbi/go-typeset/verifsym"
)

// A paragraph is made of boxes, which are never broken. The gap after a box tells what may happen there.
type gap int

const (
	joined gap = iota // no break
	soft              // hyphenation point
	hard              // after an explicit hyphen
	punct             // after a punctuation mark
	blank             // a space
	end               // the end of the paragraph
)

type box struct {
	text  []rune
	width int
	after gap
}

type para struct {
	boxes  []box
	tokens []string
	widths map[rune]int // width of the first rune of each word box, of marks and hyphens; other runes have no width
	max    int
	hyphen int
	tol    float64
	dash   bool // hyphens are rendered
	scale  int
	whole  bool // words are not broken
	mute   bool // marks do not break words
	hp     int  // penalty of hyphens, negative for the default one
	space  int  // width of a space
	unit   int  // widths are given in parts of 1/unit
	frac   int  // hundredths added to the maximum, less than one unit
	lo, hi int  // boxes with arbitrary widths
	long   bool // a long paragraph
}

// word yields a new text with a single visible rune, an upper case letter followed by lower case ones.
// The custom hyphenator breaks words before each upper case letter.
func (p *para) word(long bool) box {
	c := rune('A' + len(p.boxes))
	if len(p.boxes) > 25 {
		c = rune(0x400 + len(p.boxes))
	}
	t := []rune{c}
	if long {
		t = append(t, 'a', 'b', 'c', 'd')
	}
	w := len(p.boxes)*7%5 + 1
	if len(p.boxes) < p.lo || len(p.boxes) >= p.hi {
		p.widths[c] = w // out of the window of arbitrary widths
		return box{text: t, width: w}
	}
	w = sym.Int("w", sym.Param("wmin", 0), sym.Param("wmax", 9))
	if sym.Param("enum", 0) == 1 {
		w = sym.Concrete(w)
	}
	p.widths[c] = w
	return box{text: t, width: w}
}

func (p *para) add(b box, after gap) {
	if p.whole && (after == soft || after == hard) || p.mute && after == punct {
		after = joined
	}
	b.after = after
	p.boxes = append(p.boxes, b)
}

const kinds = 6

// token appends a token to the paragraph.
func (p *para) token(kind int) {
	n := len(p.boxes)
	mark := func(r rune) box { return box{text: []rune{r}, width: p.widths[r]} }
	switch kind {
	case 0: // a word
		p.add(p.word(false), joined)
	case 1: // a word with a hyphenation point
		p.add(p.word(true), soft)
		p.add(p.word(true), joined)
	case 2: // a word with a mark
		p.add(p.word(false), joined)
		p.add(mark('.'), punct)
	case 3: // a word with a hyphen
		p.add(p.word(true), joined)
		p.add(mark('-'), hard)
		p.add(p.word(false), joined)
	case 4: // a word with two hyphenation points
		p.add(p.word(true), soft)
		p.add(p.word(false), soft)
		p.add(p.word(false), joined)
	case 5: // a mark then a word
		p.add(mark('.'), punct)
		p.add(p.word(false), joined)
	case 6: // everything
		p.add(p.word(true), soft)
		p.add(p.word(true), joined)
		p.add(mark('-'), hard)
		p.add(p.word(false), joined)
		p.add(mark('.'), punct)
	case 7: // nothing
		p.add(box{}, joined)
	}
	var t []rune
	for _, b := range p.boxes[n:] {
		t = append(t, b.text...)
	}
	p.tokens = append(p.tokens, string(t))
	p.boxes[len(p.boxes)-1].after = blank
}

func split(word []rune) [][]rune {
	var parts [][]rune
	start := 0
	for i, r := range word {
		if i > start && (r >= 'A' && r <= 'Z' || r >= 0x400) {
			parts = append(parts, word[start:i])
			start = i
		}
	}
	return append(parts, word[start:])
}

var tolerances = []float64{8.6, 1, 2.5, 0.5, 20}

// paragraph builds a paragraph of n tokens.
func paragraph() *para {
	p := &para{widths: map[rune]int{}}
	p.spaces()
	p.hyphen = sym.Int("h", sym.Param("hmin", 1), sym.Param("hmax", 1))
	p.widths['-'] = p.hyphen
	p.widths['.'] = sym.Int("m", sym.Param("mmin", 1), sym.Param("mmax", 1))
	p.tol = tolerances[sym.Param("tol", 0)]
	p.dash = sym.Param("dash", 1) == 1
	p.scale = sym.Param("scale", 1)
	p.whole = sym.Param("whole", 0) == 1
	p.mute = sym.Param("mute", 0) == 1
	p.hp = sym.Param("hp", -1)
	for i, n := 0, sym.Param("n", 2); i < n; i++ {
		kind := sym.Param("kind"+string(rune('0'+i)), -1)
		if mix := sym.Param("mix", 0); mix > 0 { // a long paragraph of several kinds
			kind = []int{0, 1, 0, 2, 0, 0, 3, 0, 4, 0, 5}[i*mix%11]
		}
		if kind < 0 {
			kind = sym.Choose("kind", sym.Param("kinds", kinds))
		}
		p.token(kind)
	}
	p.boxes[len(p.boxes)-1].after = end
	p.maxWidth()
	return p
}

func (p *para) maxWidth() {
	p.max = sym.Int("max", sym.Param("minw", 0), sym.Param("maxw", 30))
	if sym.Param("enum", 0) == 1 {
		p.max = sym.Concrete(p.max)
	}
}

func (p *para) spaces() {
	p.space = sym.Int("s", sym.Param("smin", 1), sym.Param("smax", 1))
	p.widths[' '] = p.space
	p.hi = sym.Param("hi", 1000)
	p.lo = sym.Param("lo", 0)
	p.long = p.hi < 1000
	p.unit = sym.Param("unit", 1)
	p.frac = sym.Param("frac", 0)
}

// cells is the width of a text, in parts of 1/unit.
func (p *para) cells(t []rune) int {
	n := 0
	for _, r := range t {
		n += p.widths[r]
	}
	return n
}

func (p *para) measure(t []rune) float64 {
	n := p.cells(t)
	if p.unit == 1 {
		return float64(n)
	}
	return float64(n) / float64(p.unit)
}

// maximum is the width asked.
func (p *para) maximum() float64 {
	m := float64(p.max)
	if p.unit != 1 {
		m /= float64(p.unit)
	}
	if p.frac != 0 {
		m += float64(p.frac) / 100
	}
	return m
}

func (p *para) breaker() *linebreak.LineBreaker {
	opts := []linebreak.Option{
		linebreak.WithMeasurer(p.measure), linebreak.WithHyphenator(split),
		linebreak.WithTolerance(p.tol), linebreak.WithRenderHyphens(p.dash), linebreak.WithScaleFactor(float64(p.scale)),
	}
	if p.hp >= 0 {
		opts = append(opts, linebreak.WithHyphenPenalty(float64(p.hp)))
	}
	if p.whole {
		opts = append(opts, linebreak.WithWordBreak(false))
	}
	if p.mute {
		opts = append(opts, linebreak.WithPunctuator(func(w []rune) [][]rune { return [][]rune{w} }))
	}
	return linebreak.New(opts...)
}

func (p *para) lines() ([]string, error) {
	return p.breaker().LeftAlignUniform(p.tokens, p.maximum())
}

// parse tells after which boxes the lines are broken; nil when the lines are not those of the paragraph.
func (p *para) parse(lines []string) (breaks []int) {
	at := 0
	for k, line := range lines {
		rs := []rune(line)
		i := 0
		for {
			if at >= len(p.boxes) {
				return nil
			}
			b := p.boxes[at]
			if len(rs)-i < len(b.text) || !sym.EqRunes(rs[i:i+len(b.text)], b.text) {
				return nil
			}
			i += len(b.text)
			if i == len(rs) && !(b.after == soft && p.dash) {
				break
			}
			if i == len(rs)-1 && b.after == soft && p.dash && rs[i] == '-' {
				i++
				break
			}
			if b.after == end {
				return nil
			}
			if b.after == blank {
				if i >= len(rs) || rs[i] != ' ' {
					return nil
				}
				i++
			}
			at++
		}
		if i != len(rs) {
			return nil
		}
		g := p.boxes[at].after
		if g == joined || (g == end) != (k == len(lines)-1) {
			return nil
		}
		breaks = append(breaks, at)
		at++
	}
	return breaks
}

// width of the line made of boxes from to to, included.
func (p *para) width(from, to int) int {
	w := 0
	for i := from; i <= to; i++ {
		w += p.boxes[i].width
		if p.boxes[i].after == blank && i < to {
			w += p.space
		}
		if p.boxes[i].after == soft && i == to && p.dash {
			w += p.hyphen
		}
	}
	return w
}

// CheckText: C20.
func CheckText() {
	p := paragraph()
	lines, err := p.lines()
	if err != nil {
		return
	}
	breaks := p.parse(lines)
	sym.Assert(breaks != nil, "the lines are the paragraph broken where it may be")
	if len(breaks) > 1 {
		sym.Cover("broken")
		for _, b := range breaks {
			if p.boxes[b].after == soft {
				sym.Cover("hyphen")
			}
		}
	}
}

// CheckWidth: C21.
func CheckWidth() {
	p := paragraph()
	lines, err := p.lines()
	if err != nil {
		return
	}
	for _, l := range lines {
		sym.Assert(p.cells([]rune(l)) <= p.max+p.frac*p.unit/100, "a line is not wider than asked")
	}
	if len(lines) > 1 {
		sym.Cover("broken")
	}
}

const stretch = 6

func (p *para) ratio(from, to int) float64 {
	s := float64((p.max-p.width(from, to))*(p.scale/p.unit) + p.frac*p.scale/100)
	if p.boxes[to].after == end {
		return s / 10000
	}
	return s / stretch
}

func (p *para) fits(from, to int) bool {
	r := p.ratio(from, to)
	return r >= 0 && r <= p.tol
}

func orAnd(a, b, c bool) bool { return a || b && c }

// settable tells if the paragraph can be broken into fitting lines.
func (p *para) settable() bool {
	reach := make([]bool, len(p.boxes)+1)
	reach[0] = true
	for to := range p.boxes {
		if p.boxes[to].after == joined {
			continue
		}
		for from := 0; from <= to; from++ {
			if from == 0 || p.boxes[from-1].after != joined {
				reach[to+1] = orAnd(reach[to+1], reach[from], p.fits(from, to))
			}
		}
	}
	return reach[len(p.boxes)]
}

// CheckRefusal: C23.
func CheckRefusal() {
	p := paragraph()
	lines, err := p.lines()
	if err != nil {
		sym.Cover("refused")
		sym.Assert(errors.Is(err, linebreak.ErrCannotBeSet), "refused with the documented error")
		sym.Assert(lines == nil, "refused without lines")
		sym.Assert(!p.settable(), "refused only if it cannot be set")
		return
	}
	sym.Cover("set")
	sym.Assert(len(lines) > 0, "lines")
	sym.Assert(p.settable(), "set only if it can be")
}

var penalties = [...]float64{soft: 300, hard: 200, punct: 400, blank: 0, end: 0}

func class(r float64) int {
	switch {
	case r <= 0.5:
		return 1
	case r <= 1:
		return 2
	}
	return 3
}

// demerits of a line.
func (p *para) demerits(from, to, prevClass int) (float64, int) {
	r := p.ratio(from, to)
	penalty, extra := penalties[p.boxes[to].after], 100.0
	if p.hp >= 0 {
		extra = float64(p.hp) // by definition of the option
		if p.boxes[to].after == soft {
			penalty = float64(p.hp)
		}
	}
	d := math.Pow(10+100*math.Pow(r, 3)+penalty, 2)
	flagged := func(g gap) bool { return g != blank && g != joined }
	if from > 0 && flagged(p.boxes[from-1].after) && flagged(p.boxes[to].after) {
		d += extra
	}
	c := class(r)
	if c-prevClass > 1 || prevClass-c > 1 {
		d += 200
	}
	return d, c
}

// CheckDemerits: C24.
func CheckDemerits() {
	p := paragraph()
	lines, err := p.lines()
	if err != nil {
		return
	}
	breaks := p.parse(lines)
	if breaks == nil {
		return // C20
	}
	if len(breaks) > 1 {
		sym.Cover("broken")
	}
	chosen := 0.0
	c, from := 1, 0
	for _, to := range breaks {
		var d float64
		d, c = p.demerits(from, to, c)
		chosen += d
		from = to + 1
	}
	if p.long {
		sym.Assert(chosen <= p.best()+0.5, "no other breaks have less demerits")
		return
	}
	p.others(chosen, 0, 0, 1)
}

// best is the least total of demerits, by dynamic programming.
func (p *para) best() float64 {
	const none = 1e300
	least := make([][4]float64, len(p.boxes)+1)
	for i := range least {
		least[i] = [4]float64{none, none, none, none}
	}
	least[0][1] = 0
	for from := range p.boxes {
		for cls := 1; cls < 4; cls++ {
			if least[from][cls] == none {
				continue
			}
			for to := from; to < len(p.boxes); to++ {
				if p.boxes[to].after != joined && p.fits(from, to) {
					d, c := p.demerits(from, to, cls)
					if d += least[from][cls]; d < least[to+1][c] {
						least[to+1][c] = d
					}
				}
			}
		}
	}
	return math.Min(least[len(p.boxes)][1], math.Min(least[len(p.boxes)][2], least[len(p.boxes)][3]))
}

// others checks that no choice of breaks is better than the one chosen.
func (p *para) others(chosen, sum float64, from, cls int) {
	if from == len(p.boxes) {
		sym.Assert(chosen <= sum+0.5, "no other breaks have less demerits")
		return
	}
	for to := from; to < len(p.boxes); to++ {
		if p.boxes[to].after != joined && p.fits(from, to) {
			d, c := p.demerits(from, to, cls)
			p.others(chosen, sum+d, to+1, c)
		}
	}
}
