// Package hyphen holds the harnesses for the hyphenation of words (C10 to C13).
package hyphen

import (
	"unicode"

	sym "github.com/fredbi/go-typeset/verifsym"
	"github.com/fredbi/go-typeset/wordbreak/hyphenator"
	"golang.org/x/text/language"
)

const pkg = "wordbreak/hyphenator"

var files = []string{"ushyphmax.tex", "hyph-en-gb.tex", "hyph-fr.tex", "hyph-de-1996.tex", "hyph-es.tex"}

func isHyphen(r rune) bool {
	switch r {
	case '-', 0xad, 0x58a, 0x1806, 0x2010, 0x2011, 0x2e17, 0x30fb, 0xfe63, 0xff0d, 0xff65:
		return true
	}
	return false
}

// dict is a pattern file under construction.
type dict struct {
	text     []byte
	patterns []pattern
	except   []exception
}

type pattern struct {
	letters []rune
	digits  []int // one more than the letters
}

type exception struct {
	letters []rune
	breaks  []bool
}

// parse builds a dictionary from a skeleton where '#' is any digit, '?' any letter of a
// small alphabet and the other characters are themselves.
func (d *dict) parse(patterns, exceptions []string) {
	d.text = append(d.text, "% a1b b1a comment\n\\patterns{ % c1a\n\n"...)
	for i, p := range patterns {
		cur := pattern{digits: []int{0}}
		for _, c := range p {
			switch {
			case c == '#':
				n := sym.ByteIn("digit", '0', '9')
				d.text = append(d.text, n)
				cur.digits[len(cur.digits)-1] = int(n) - '0'
			case c >= '0' && c <= '9':
				d.text = append(d.text, byte(c))
				cur.digits[len(cur.digits)-1] = int(c) - '0'
			default:
				cur.letters = append(cur.letters, d.letter(c))
				cur.digits = append(cur.digits, 0)
			}
		}
		if i%3 == 2 {
			d.text = append(d.text, '\n')
		} else {
			d.text = append(d.text, ' ')
		}
		for _, o := range d.patterns {
			sym.Assume(!sym.EqRunes(o.letters, cur.letters)) // no pattern is listed twice
		}
		d.patterns = append(d.patterns, cur)
	}
	d.text = append(d.text, "\n}\n"...)
	if len(exceptions) > 0 {
		d.text = append(d.text, "\\hyphenation{\n"...)
		for i, e := range exceptions {
			cur := exception{breaks: []bool{false}}
			for _, c := range e {
				if c == '-' {
					d.text = append(d.text, '-')
					cur.breaks[len(cur.breaks)-1] = true
					continue
				}
				cur.letters = append(cur.letters, d.letter(c))
				cur.breaks = append(cur.breaks, false)
			}
			if i < len(exceptions)-1 || sym.Param("brace", 0) == 0 {
				d.text = append(d.text, '\n')
			}
			for _, o := range d.except {
				sym.Assume(!sym.EqRunes(o.letters, cur.letters))
			}
			d.except = append(d.except, cur)
		}
		d.text = append(d.text, "}\n"...)
	}
}

func (d *dict) letter(c rune) rune {
	if c == '?' {
		b := sym.ByteIn("letter", 'a', 'a'+sym.Param("letters", 3)-1)
		d.text = append(d.text, b)
		return rune(b)
	}
	d.text = append(d.text, string(c)...)
	return unicode.ToLower(c)
}

// at tells whether the letters are found in the dotted word at position i.
func at(dotted, letters []rune, i int) bool {
	if i+len(letters) > len(dotted) {
		return false
	}
	return sym.EqRunes(dotted[i:i+len(letters)], letters)
}

// exceptional gives the values of an exception, or nil.
func (d *dict) exceptional(word []rune) []int {
	for _, e := range d.except {
		if len(e.letters) == len(word) && sym.EqRunes(e.letters, word) {
			res := make([]int, len(word))
			for i := 1; i < len(word); i++ {
				if e.breaks[i] {
					res[i] = 1
				}
			}
			sym.Cover("exception")
			return res
		}
	}
	return nil
}

// points gives the values between the letters of a word: that of index i is before letter i.
func (d *dict) points(word []rune) []int {
	if res := d.exceptional(word); res != nil {
		return res
	}
	dotted := append([]rune{'.'}, word...)
	dotted = append(dotted, '.')
	val := make([]int, len(dotted)+1)
	for _, p := range d.patterns {
		for i := 0; i <= len(dotted); i++ {
			if len(p.letters) == 0 || i+len(p.letters) > len(dotted) {
				continue
			}
			m := at(dotted, p.letters, i)
			for k, v := range p.digits {
				val[i+k] = sym.Ite(sym.And(m, v > val[i+k]), v, val[i+k])
			}
		}
	}
	res := make([]int, len(word))
	for i := 1; i < len(word); i++ {
		res[i] = val[i+1]
	}
	return res
}

// cut applies the rules on the lengths of the parts.
func cut(points []int, n, left, right int) []int {
	var cuts []int
	prev := 0
	for i := 1; i < n; i++ {
		if points[i]%2 == 1 && i-prev >= left && n-i >= right {
			cuts = append(cuts, i)
			prev = i
		}
	}
	return cuts
}

// same checks that the parts are those of word cut at the given places.
func same(word []rune, parts [][]rune, cuts []int) {
	sym.Assert(len(parts) == len(cuts)+1, "the word is not broken at the expected places")
	prev := 0
	for i, p := range parts {
		end := len(word)
		if i < len(cuts) {
			end = cuts[i]
		}
		sym.Assert(len(p) == end-prev, "the word is not broken at the expected places")
		sym.Assert(sym.EqRunes(p, word[prev:end]), "the parts are not those of the word")
		prev = end
	}
	sym.Observe(len(parts))
	if len(cuts) > 0 {
		sym.Cover("a break")
	}
}

var shapes = [][2][]string{
	0:  {{"?#?", "#?#?"}, nil},
	1:  {{".a#b", "b#a#."}, nil},
	2:  {{"a#b#a", "#b"}, nil},
	3:  {{"a#b", "b1a"}, {"ab-ba", "a-b-a"}},
	4:  {{".a#b#", "#a#b#."}, nil},
	5:  {{"ab#ba#b", "#a#"}, nil},
	6:  {{"#a#b#a#"}, nil},
	7:  {{"1a", "b2b", "a#b#a", ".b3"}, nil},
	8:  {{"1a", "#b."}, {"b-ab", "ab-a-b"}},
	9:  {{"a#b#c#b", "#b#c#a#"}, nil},
	10: {{".a#b#a."}, {"aba-c"}},
	11: {{"a1b", "b1c", "#b#", "1c2a"}, {"ab-ca-b"}},
	15: {{"A#b", "B#é#A"}, {"É-aB"}},
	16: {{"a9b8", "9b#a", "#a"}, nil},
	12: {{"1a", "2b", "é1a", "#c#é#"}, {"b-é"}},
	13: {{"?#?#?", "?#?"}, {"?-??"}},
	14: {{".?#?", "?#?."}, nil},
	17: {{".a#b#a.", "a#b", "#b#a."}, nil},
	18: {{".ab#ab.", ".#a", "#ab#", "b#."}, nil},
	19: {{"#a", "#b", "a#a", "a#b", "ba#b#"}, nil},
	20: {{".abc#.", ".abc#", "c#a.", "#c."}, {"ab-c"}},
	21: {{"a#b#c#a#b#c#a", "b5c", "#ca"}, {"abc-abc-a-bc"}},
}

// CheckLiang: C11 — for any dictionary of the shape, any word is broken as Liang's algorithm tells.
func CheckLiang() {
	var d dict
	s := shapes[sym.Param("shape", 0)]
	d.parse(s[0], s[1])
	for _, f := range files {
		sym.SetFile(pkg, "languages/"+f, string(d.text))
	}
	n := sym.Param("n", 4)
	word := make([]rune, n)
	for i := range word {
		word[i] = rune("abc"[i%sym.Param("letters", 3)])
	}
	free := sym.Param("free", n)
	start := 0
	if free < n {
		start = sym.Choose("at", n-free+1)
	}
	for i := start; i < start+free && i < n; i++ {
		word[i] = sym.RuneIn("w", 'a', 'a'+sym.Param("letters", 3)-1)
	}
	if m := sym.Param("accent", -1); m >= 0 && m < n {
		word[m] = 'é'
	}
	left, right := sym.Param("left", 1), sym.Param("right", 1)
	h := hyphenator.New(hyphenator.WithMinLength(1), hyphenator.WithMinLeft(left), hyphenator.WithMinRight(right))
	parts := h.BreakWord(append([]rune{}, word...))
	same(word, parts, cut(d.points(word), n, left, right))
}

// words of the real dictionaries, with letters made symbolic.
var words = []string{
	0:  "hyphenation",
	1:  "Honorificabilitudinitatibus",
	2:  "universitätsstadt",
	3:  "connectivité",
	4:  "translatores",
	5:  "something",
	6:  "reciprocity",
	7:  "Donaudampfschifffahrtselektrizitätenhauptbetriebswerkbauunterbeamtengesellschaft",
	8:  "ab",
	9:  "",
	10: "a",
	11: "abcd",
	12: "l'été",
	13: "représentation",
	14: "independencia",
	15: "Rechtsschutzversicherung",
	16: "associate",
	17: "antidisestablishmentarianism",
	18: "anticonstitutionnellement",
	19: "philanthropic",
}

var tags = []string{"en-US", "en-GB", "fr", "de", "es"}

// wordOf takes a word of the list, where "free" runes starting at "at" are any rune.
func wordOf(lo, hi int) []rune {
	w := []rune(words[sym.Param("word", 0)])
	free := sym.Param("free", 1)
	if free > len(w) {
		free = len(w)
	}
	at := sym.Param("at", -1)
	if at < 0 {
		at = sym.Choose("at", len(w)-free+1)
	}
	for i := 0; i < free; i++ {
		w[at+i] = sym.RuneIn("r", lo, hi)
	}
	return w
}

// SetupDict loads a dictionary before the paths fork.
func SetupDict() {
	h := hyphenator.New(hyphenator.WithLanguage(tags[sym.Param("lang", 0)]))
	sym.Assert(len(h.BreakWordString("a")) == 1, "a single letter is broken")
}

// CheckParts: C10 — with the real dictionaries, any word.
func CheckParts() {
	w := wordOf(-1<<31, 1<<31-1)
	keep := append([]rune{}, w...)
	n := len(w)
	minLen := sym.Int("minlen", -1, 8)
	left := sym.Int("left", -1, 4)
	right := sym.Int("right", -1, 4)
	h := hyphenator.New(hyphenator.WithLanguage(tags[sym.Param("lang", 0)]),
		hyphenator.WithMinLength(minLen), hyphenator.WithMinLeft(left), hyphenator.WithMinRight(right))
	// the options of another hyphenator are its own
	_ = hyphenator.New(hyphenator.WithLanguage(tags[sym.Param("lang", 0)]), hyphenator.WithMinLength(1), hyphenator.WithMinLeft(0), hyphenator.WithMinRight(0))
	parts := h.BreakWord(w)
	sym.Assert(len(parts) > 0, "no part")
	pos := 0
	for i, p := range parts {
		sym.Assert(pos+len(p) <= n, "more runes than in the word")
		sym.Assert(sym.EqRunes(p, keep[pos:pos+len(p)]), "the parts do not make the word")
		pos += len(p)
		if len(parts) > 1 {
			sym.Assert(len(p) > 0, "an empty part")
			if i < len(parts)-1 {
				sym.Assert(len(p) >= left, "a part is shorter than the minimum on the left of a break")
			} else {
				sym.Assert(len(p) >= right, "a part is shorter than the minimum on the right of a break")
			}
		}
	}
	sym.Assert(pos == n, "runes of the word are missing")
	if len(parts) > 1 {
		sym.Cover("a break")
		sym.Assert(n >= minLen, "a word shorter than the minimum is broken")
		for _, r := range keep {
			sym.Assert(!isHyphen(r), "a word with a hyphen is broken")
		}
	}
	sym.Observe(len(parts))
}

// placed is a pattern that may be found in the word at a place of the dotted word.
type placed struct {
	pattern
	at int
}

var (
	realPatterns []placed
	realExcept   []exception
)

// SetupReal reads the pattern file of a language and keeps what may apply to a word of the list.
func SetupReal() {
	SetupDict()
	w := []rune(words[sym.Param("word", 0)])
	dotted := []rune{'.'}
	for _, r := range w {
		dotted = append(dotted, unicode.ToLower(r))
	}
	dotted = append(dotted, '.')
	free := sym.Param("free", 1)
	lo := sym.Param("at", -1) + 1
	hi := lo + free
	if lo == 0 {
		lo, hi = 1, len(w)+1 // the place is chosen later
	}
	fits := func(letters []rune, i int) bool {
		if i+len(letters) > len(dotted) {
			return false
		}
		differ := 0
		for k, c := range letters {
			if dotted[i+k] != c {
				if i+k < lo || i+k >= hi || differ == free {
					return false
				}
				differ++
			}
		}
		return true
	}
	realPatterns, realExcept = nil, nil
	section := 0
	text := sym.RepoFile(pkg + "/languages/" + files[sym.Param("lang", 0)])
	pos := 0
	for pos < len(text) {
		start := pos
		for pos < len(text) && text[pos] != '\n' {
			pos++
		}
		line := text[start:pos]
		pos++
		switch {
		case len(line) > 1 && line[0] == '\\' && line[1] == 'p':
			section = 1
			continue
		case len(line) > 1 && line[0] == '\\' && line[1] == 'h':
			section = 2
			continue
		case len(line) == 0 || line[0] == '\\' || line[0] == '%' || line[0] == '}':
			continue
		}
		p := pattern{digits: []int{0}}
		e := exception{breaks: []bool{false}}
		flush := func() {
			if len(p.letters) > 0 {
				for i := 0; i < len(dotted); i++ {
					if fits(p.letters, i) {
						realPatterns = append(realPatterns, placed{p, i})
					}
				}
			}
			p = pattern{digits: []int{0}}
		}
	runes:
		for _, c := range line {
			switch {
			case c == '}':
				break runes
			case c == ' ':
				if section == 1 {
					flush()
				}
			case section == 1 && c >= '0' && c <= '9':
				p.digits[len(p.digits)-1] = int(c - '0')
			case section == 1:
				p.letters = append(p.letters, unicode.ToLower(c))
				p.digits = append(p.digits, 0)
			case section == 2 && c == '-':
				e.breaks[len(e.breaks)-1] = true
			case section == 2:
				e.letters = append(e.letters, unicode.ToLower(c))
				e.breaks = append(e.breaks, false)
			}
		}
		if section == 1 {
			flush()
		} else if section == 2 && len(e.letters) == len(w) && fits(e.letters, 1) {
			realExcept = append(realExcept, e)
		}
	}
}

// CheckReal: C11 — with the real dictionaries, words where some letters are any letter.
func CheckReal() {
	w := []rune(words[sym.Param("word", 0)])
	for i := range w {
		w[i] = unicode.ToLower(w[i])
	}
	n := len(w)
	free := sym.Param("free", 1)
	lo := sym.Param("at", -1)
	if lo < 0 {
		lo = sym.Choose("at", n-free+1)
	}
	for i := lo; i < lo+free && i < n; i++ {
		if sym.Param("accents", 0) == 1 {
			w[i] = sym.RuneIn("w", 0xdf, 0xff)
		} else {
			w[i] = sym.RuneIn("w", 'a', 'z')
		}
	}
	left, right := sym.Param("left", 2), sym.Param("right", 3)
	h := hyphenator.New(hyphenator.WithLanguage(tags[sym.Param("lang", 0)]), hyphenator.WithMinLength(1), hyphenator.WithMinLeft(left), hyphenator.WithMinRight(right))
	parts := h.BreakWord(append([]rune{}, w...))
	d := dict{except: realExcept}
	points := d.exceptional(w)
	if points == nil {
		val := make([]int, n+3)
		dotted := append([]rune{'.'}, w...)
		dotted = append(dotted, '.')
		for _, p := range realPatterns {
			m := at(dotted, p.letters, p.at)
			for k, v := range p.digits {
				if v > 0 {
					val[p.at+k] = sym.Ite(sym.And(m, v > val[p.at+k]), v, val[p.at+k])
				}
			}
		}
		points = val[1:]
	}
	same(w, parts, cut(points, n, left, right))
}

// CheckCase: C12 — runes with the same lower case are alike.
func CheckCase() {
	w := []rune(words[sym.Param("word", 0)])
	v := make([]rune, len(w))
	at := sym.Param("at", -1)
	if at < 0 {
		at = sym.Choose("at", len(w))
	}
	for i, r := range w {
		if i != at {
			if u := unicode.ToUpper(r); u != r {
				v[i] = rune(sym.Ite(sym.Bool("up"), int(u), int(r)))
			} else {
				v[i] = r
			}
			continue
		}
		w[i] = sym.RuneIn("r", -1<<31, 1<<31-1)
		v[i] = lower(w[i])
	}
	h := hyphenator.New(hyphenator.WithLanguage(tags[sym.Param("lang", 0)]))
	alike(h, w, v)
}

func alike(h *hyphenator.Hyphenator, w, v []rune) {
	a, b := h.BreakWord(w), h.BreakWord(v)
	sym.Assert(len(a) == len(b), "the case changes the number of parts")
	for i := range a {
		sym.Assert(len(a[i]) == len(b[i]), "the case changes where the word is broken")
	}
	sym.Observe(len(a))
	if len(a) > 1 {
		sym.Cover("a break")
	}
}

// CheckFold: C12 — any two runes with the same lower case, with dictionaries of our own.
func CheckFold() {
	var d dict
	s := shapes[sym.Param("shape", 0)]
	d.parse(s[0], s[1])
	for _, f := range files {
		sym.SetFile(pkg, "languages/"+f, string(d.text))
	}
	n := sym.Param("n", 4)
	w, v := make([]rune, n), make([]rune, n)
	for i := range w {
		x := sym.Int("x", 0, 2*sym.Param("letters", 3)-1)
		w[i] = rune('a' + x/2)
		v[i] = rune('a' + x/2 - 32*(x%2))
	}
	alike(hyphenator.New(hyphenator.WithMinLength(1), hyphenator.WithMinLeft(1), hyphenator.WithMinRight(1)), w, v)
}

// SetupLang makes small dictionaries, each telling its name.
func SetupLang() {
	setLangs()
	sym.Assert(hyphenator.New() != nil, "no hyphenator")
}

func setLangs() {
	for _, f := range files {
		sym.SetFile(pkg, "languages/"+f, "\\message{"+f+"}\n\\patterns{\na1b\n}\n")
	}
}

func named(h *hyphenator.Hyphenator, f string) bool {
	s := h.String()
	return len(s) >= len(f) && s[:len(f)] == f
}

// CheckLang: C13 — a tag made of a supported language, with any region.
func CheckLang() {
	setLangs()
	base := []string{"fr", "de", "es", "en"}[sym.Param("base", 0)]
	b := []byte(base)
	n := sym.Param("n", 2)
	if n > 0 {
		b = append(b, '-')
	}
	for i := 0; i < n; i++ {
		if sym.Param("digits", 0) == 1 {
			b = append(b, sym.ByteIn("c", '0', '9'))
		} else {
			b = append(b, sym.ByteIn("c", 'A', 'Z'))
		}
	}
	var h *hyphenator.Hyphenator
	if sym.Param("string", 0) == 1 {
		tag, err := language.Parse(string(b))
		if err != nil {
			return
		}
		if x, _ := tag.Base(); x.String() != base {
			return // aliases such as sgn regions
		}
		h = hyphenator.New(hyphenator.WithLanguage(string(b)))
	} else {
		tag, err := language.Parse(string(b))
		if err != nil {
			return
		}
		if x, _ := tag.Base(); x.String() != base {
			return
		}
		h = hyphenator.New(hyphenator.WithLanguageTag(tag))
	}
	sym.Cover("a known region")
	switch base {
	case "fr":
		sym.Assert(named(h, "hyph-fr.tex"), "not the French patterns")
	case "de":
		sym.Assert(named(h, "hyph-de-1996.tex"), "not the German patterns")
	case "es":
		sym.Assert(named(h, "hyph-es.tex"), "not the Spanish patterns")
	case "en":
		if n == 2 && b[3] == 'U' && b[4] == 'S' {
			sym.Assert(named(h, "ushyphmax.tex"), "not the patterns of American English")
		} else if n == 2 && b[3] == 'G' && b[4] == 'B' {
			sym.Assert(named(h, "hyph-en-gb.tex"), "not the patterns of British English")
		} else {
			sym.Assert(named(h, "ushyphmax.tex") || named(h, "hyph-en-gb.tex"), "not patterns of English")
		}
	}
	usable(h)
}

func usable(h *hyphenator.Hyphenator) {
	parts := h.BreakWordString("aabb")
	sym.Assert(len(parts) == 2 && len(parts[0]) == 2, "the patterns are not used")
}

// CheckDefault: C13 — the default, and whatever string is given as a language.
func CheckDefault() {
	setLangs()
	sym.Assert(named(hyphenator.New(), "ushyphmax.tex"), "the default is not American English")
	n := sym.Param("n", 2)
	b := make([]byte, n)
	for i := range b {
		b[i] = sym.ByteIn("b", 0, 127)
	}
	h := hyphenator.New(hyphenator.WithLanguage(string(b)))
	usable(h)
	h2 := hyphenator.New(hyphenator.WithLanguage("fr"), hyphenator.WithLanguage(string(b)))
	sym.Assert(h2.String() == h.String(), "the last language given is not the one used")
	sym.Assert(named(hyphenator.New(), "ushyphmax.tex"), "the default is not American English any more")
}

// lower is unicode.ToLower, with a path for each range of letters.
func lower(r rune) rune {
	lo, hi := 0, len(unicode.CaseRanges)
	for lo < hi {
		m := lo + (hi-lo)/2
		c := unicode.CaseRanges[m]
		if r >= rune(c.Lo) && r <= rune(c.Hi) {
			d := c.Delta[unicode.LowerCase]
			if d > unicode.MaxRune {
				// capitals and small letters alternate
				if (r-rune(c.Lo))%2 == 0 {
					return r + 1
				}
				return r
			}
			return r + d
		}
		if r < rune(c.Lo) {
			hi = m
		} else {
			lo = m + 1
		}
	}
	return r
}
