// Package words holds the harnesses for the splitting of texts in fields, and of words
// around punctuation marks and hyphens (C07, C08, C09).
package words

import (
	"unicode"

	"github.com/fredbi/go-typeset/terminal/runes"
	sym "github.com/fredbi/go-typeset/verifsym"
	"github.com/fredbi/go-typeset/wordbreak/hyphenator"
	"github.com/fredbi/go-typeset/wordbreak/punctuator"
	"github.com/fredbi/go-typeset/wordbreak/tokenizer"
)

// isSpace is the White_Space property of Unicode.
func isSpace(r rune) bool {
	switch {
	case r >= 0x9 && r <= 0xd, r == 0x20, r == 0x85, r == 0xa0, r == 0x1680,
		r >= 0x2000 && r <= 0x200a, r == 0x2028, r == 0x2029, r == 0x202f, r == 0x205f, r == 0x3000:
		return true
	}
	return false
}

// isHyphen is the Hyphen property of Unicode.
func isHyphen(r rune) bool {
	switch r {
	case '-', 0xad, 0x58a, 0x1806, 0x2010, 0x2011, 0x2e17, 0x30fb, 0xfe63, 0xff0d, 0xff65:
		return true
	}
	return false
}

// isPunct is the general category P, but the hyphens, plus the pipe.
func isPunct(r rune) bool {
	return r == '|' || (unicode.Is(unicode.P, r) && !isHyphen(r))
}

// word yields n runes: any value, but at most "free" of them unless it is 0.
func word(n, free int) []rune {
	w := make([]rune, n)
	if free == 0 || free >= n {
		for i := range w {
			w[i] = sym.RuneIn("r", -1<<31, 1<<31-1)
		}
		return w
	}
	fillers := [...]string{"ab-c ,d|\u00ade\u2028f.", "a b,c-", "  ", "ab", "--\u2010", ",.|", "abc def, ghi- "}
	filler := []rune(fillers[sym.Param("fill", 0)])
	for i := range w {
		k := i
		if sym.Param("fill", 0) == 0 {
			k = i*7 + n
		}
		w[i] = filler[k%len(filler)]
	}
	at := sym.Place(n, free)
	for i := 0; i < free; i++ {
		w[at+i] = sym.RuneIn("r", -1<<31, 1<<31-1)
	}
	return w
}

func size() (n, free int) { return sym.Param("n", 3), sym.Param("free", 0) }

// fields checks that parts are the maximal runs of runes that are not separators.
func fields(w []rune, seps []bool, parts [][]rune) {
	k := 0
	for i := 0; i < len(w); {
		if seps[i] {
			i++
			continue
		}
		j := i
		for j < len(w) && !seps[j] {
			j++
		}
		sym.Assert(k < len(parts), "a field is missing")
		sym.Assert(len(parts[k]) == j-i, "a field has the wrong length")
		sym.Assert(sym.EqRunes(parts[k], w[i:j]), "a field has the wrong runes")
		k++
		i = j
	}
	sym.Assert(k == len(parts), "too many fields")
	sym.Observe(k)
	if k > 1 {
		sym.Cover("several fields")
	}
}

// CheckFields: C07 — for any function telling the separators.
func CheckFields() {
	n, _ := size()
	w := make([]rune, n)
	seps := make([]bool, n)
	for i := range w {
		w[i] = rune(i + 10)
		seps[i] = sym.Bool("sep")
	}
	calls := 0
	parts := runes.FieldsFunc(w, func(r rune) bool {
		calls++
		return seps[r-10]
	})
	sym.Assert(calls >= n, "a rune was not looked at")
	fields(w, seps, parts)
}

// CheckTokens: C07 — the tokenizer separates at the white spaces of Unicode.
func CheckTokens() {
	w := word(size())
	keep := append([]rune{}, w...)
	parts := tokenizer.New().BreakWord(w)
	seps := make([]bool, len(w))
	for i, r := range keep {
		seps[i] = isSpace(r)
	}
	fields(keep, seps, parts)
}

func str() string {
	n := sym.Param("n", 3)
	b := make([]byte, n)
	for i := range b {
		b[i] = sym.Byte("b")
	}
	return string(b)
}

// CheckTokensString: C07 — same for strings.
func CheckTokensString() {
	s := str()
	w := []rune(s)
	parts := tokenizer.New().BreakWordString(s)
	seps := make([]bool, len(w))
	for i, r := range w {
		seps[i] = isSpace(r)
	}
	fields(w, seps, parts)
}

// isolated checks that the marks are kept as parts of their own, and that the other parts are
// the runs of runes in between.
func isolated(w []rune, marks []bool, parts [][]rune) {
	k := 0
	some := false
	for i := 0; i < len(w); {
		j := i + 1
		if !marks[i] {
			for j < len(w) && !marks[j] {
				j++
			}
		} else {
			some = true
		}
		sym.Assert(k < len(parts), "a part is missing")
		sym.Assert(len(parts[k]) == j-i, "a part has the wrong length")
		sym.Assert(sym.EqRunes(parts[k], w[i:j]), "a part has the wrong runes")
		k++
		i = j
	}
	sym.Assert(k == len(parts), "too many parts")
	sym.Observe(k)
	if some {
		sym.Cover("a mark")
	}
}

func markers(w []rune, f func(rune) bool) []bool {
	marks := make([]bool, len(w))
	for i, r := range w {
		marks[i] = f(r)
	}
	return marks
}

// CheckPunct: C08.
func CheckPunct() {
	w := word(size())
	keep := append([]rune{}, w...)
	parts := punctuator.New().BreakWord(w)
	isolated(keep, markers(keep, isPunct), parts)
}

// CheckPunctString: C08, strings.
func CheckPunctString() {
	s := str()
	w := []rune(s)
	isolated(w, markers(w, isPunct), punctuator.New().BreakWordString(s))
}

// CheckIsPunct: C08 — the test for a part that is a punctuation mark.
func CheckIsPunct() {
	n, _ := size()
	for i := 0; i <= n; i++ {
		w := word(i, 0)
		sym.Assert(punctuator.IsPunctuation(w) == (i == 1 && isPunct(w[0])), "wrongly told to be a punctuation mark, or not to be")
	}
}

// CheckSplit: C09.
func CheckSplit() {
	w := word(size())
	keep := append([]rune{}, w...)
	parts := hyphenator.SplitWord(w)
	isolated(keep, markers(keep, isHyphen), parts)
}

// CheckIsHyphen: C09 — the test for a part that is a hyphen.
func CheckIsHyphen() {
	n, _ := size()
	for i := 0; i <= n; i++ {
		w := word(i, 0)
		sym.Assert(hyphenator.IsHyphen(w) == (i == 1 && isHyphen(w[0])), "wrongly told to be a hyphen, or not to be")
	}
}
