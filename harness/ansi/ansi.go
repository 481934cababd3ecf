// Package ansi holds the harnesses for the stripping of ANSI sequences (C01, C02, C03).
package ansi

import (
	"strings"

	"github.com/fredbi/go-typeset/terminal/ansi"
	sym "github.com/fredbi/go-typeset/verifsym"
)

// input builds a token. Each shape is a fixed skeleton with symbolic runes.
//
// Skeleton letters: '?' any rune, 'E' escape, 'd' an ASCII digit, 't' a terminator
// (one of m s u h l or any other rune), '~' an escape or any rune, others are literal.
func input(shape string) []rune {
	var in []rune
	for _, c := range shape {
		switch c {
		case '?':
			in = append(in, anyRune())
		case 'E':
			in = append(in, 0x1b)
		case 'd':
			in = append(in, sym.RuneIn("d", '0', '9'))
		case 'p':
			in = append(in, sym.RuneIn("p", '0', ';'))
		default:
			in = append(in, c)
		}
	}
	return in
}

// anyRune yields any valid rune but the non-ASCII decimal digits, which the terminals
// do not take for digits.
func anyRune() rune {
	return sym.RuneIn("r", 0, 0x10ffff)
}

var shapes = []string{
	0:  "???????",
	1:  "E[ddd?????",
	2:  "E[?????",
	3:  "E[pppppppp??",
	4:  "??E[d?E[?",
	5:  "E[1mab?E[0m?",
	6:  "E[38;5;ddd?x??",
	7:  "E[0mE[1m?E[???",
	8:  "E[?E[?E[?a",
	9:  "E[sE[d?E[u?E[??b",
	10: "??",
	11: "E[ddd",
	12: "E[38;2;ddd;ddd;ddd?z",
	13: "E[1;?mabcE[?;?m",
	14: "abcE[K?E[0m??E[l",
	15: "E[1mE[4mwordE[?E[0mE[??",
	16: "aE??E[?mE?",
	17: "E[1mxE[0mE[?E[0m?E[1my",
	18: "?????????",
	19: "E[ppppppppp??",
	20: "E[?m?E[?m?E[?m?E[?m?",
	21: "E[0mE[1ma?E[2mE[3mE[4mb?E[0mE[0mcE[7md?E[0mE[0m",
	22: "The quick brown E[1mfox jumps over E[4mthe lazy dogE[0m and E[?mruns away E[0m? E[?",
	23: "E[1mredE[0m, E[38;5;196mgreenE[0m and E[4mE[38;2;1;2;3mblueE[0mE[0m",
	25: "some words ",
	26: "E[1m",
	27: "E[0m",
	28: "E[31mrE[0m",
	29: "E[0;1;38;5;",
	24: "E[;?;ddd?E[:ddd:?E[ddd;?",
}

func isKey(r rune) bool {
	return r == 'm' || r == 's' || r == 'u' || r == 'h' || r == 'l'
}

// sequence tells where a start or stop sequence beginning at in[i] ends, or 0.
func sequence(in []rune, i int) (end int, stop bool) {
	if i+1 >= len(in) || in[i] != 0x1b || in[i+1] != '[' {
		return 0, false
	}
	j := i + 2
	zero := true
	first := true
	for {
		n := 0
		for n < 3 && j < len(in) && in[j] >= '0' && in[j] <= '9' {
			if first && in[j] != '0' {
				zero = false
			}
			n++
			j++
		}
		first = false
		if j < len(in) && (in[j] == ';' || in[j] == ':') {
			j++
			continue
		}
		break
	}
	if j >= len(in) {
		return 0, false
	}
	switch in[j] {
	case 'm':
		return j + 1, zero
	case 's', 'h':
		return j + 1, false
	case 'u', 'l':
		return j + 1, true
	}
	return 0, false
}

func shaped() []rune {
	in := input(strings.Repeat(shapes[sym.Param("shape", 0)], sym.Param("rep", 1)))
	// a window of any runes, anywhere
	if free := sym.Param("free", 0); free > 0 {
		at := sym.Place(len(in), free)
		for i := 0; i < free; i++ {
			in[at+i] = anyRune()
		}
	}
	return in
}

// CheckLossless: C01 — joining the parts of all tokens gives the input back.
func CheckLossless() {
	in := shaped()
	keep := append([]rune{}, in...)
	tokens := ansi.StripToken(in)
	sym.Assert(len(tokens) > 0, "no token")
	var out []rune
	for _, t := range tokens {
		out = append(out, t.StartSequence...)
		out = append(out, t.Text...)
		out = append(out, t.StopSequence...)
		// at each step, what is left is what was not consumed
		sym.Assert(len(out)+len(t.Remainder) == len(keep), "consumed and remaining runes do not add up")
		sym.Assert(sym.EqRunes(t.Remainder, keep[len(keep)-len(t.Remainder):]), "the remainder is not the unread part of the input")
	}
	sym.Assert(len(tokens[len(tokens)-1].Remainder) == 0, "runes left after the last token")
	sym.Assert(sym.EqRunes(out, keep), "joining the tokens does not give the input back")
	sym.Observe(len(tokens))
	if len(tokens) > 1 {
		sym.Cover("several tokens")
	}
}

// CheckDetect: C02 — start and stop sequences are all reported, once, in order, with
// their kind, and nothing else is.
func CheckDetect() {
	in := shaped()
	for _, r := range in {
		if r > 0x7f {
			// decimal digits of other scripts are left out of the statement
			sym.Assume(r < 0x660 || r > 0x1fbf9)
		}
	}
	keep := append([]rune{}, in...)
	tokens := ansi.StripToken(in)
	pos := 0 // position in the input
	for _, t := range tokens {
		pos = part(keep, pos, t.StartSequence, 1)
		pos = part(keep, pos, t.Text, 0)
		pos = part(keep, pos, t.StopSequence, 2)
	}
	sym.Assert(pos == len(keep), "runes are missing")
	sym.Observe(len(tokens))
}

// part checks one field of a token: want is 0 for text, 1 for start, 2 for stop.
func part(in []rune, pos int, field []rune, want int) int {
	if len(field) == 0 {
		return pos
	}
	sym.Assert(pos+len(field) <= len(in), "more runes than in the input")
	sym.Assert(sym.EqRunes(field, in[pos:pos+len(field)]), "not the runes of the input")
	end := pos + len(field)
	if want == 0 {
		for i := pos; i < end; i++ {
			e, _ := sequence(in, i)
			// a sequence may start in the text only if it is not one
			sym.Assert(e == 0, "a start or stop sequence was left in the text")
		}
		return end
	}
	e, stop := sequence(in, pos)
	sym.Assert(e != 0, "reported as a sequence, but it is not")
	sym.Assert(e == end, "the reported sequence has not the right extent")
	if want == 1 {
		sym.Assert(!stop, "a stop sequence reported as a start")
		sym.Cover("start")
	} else {
		sym.Assert(stop, "a start sequence reported as a stop")
		sym.Cover("stop")
	}
	return end
}

// CheckInput: part of C03 — the input is not written to, not even past its end.
func CheckInput() {
	in := shaped()
	buf := make([]rune, len(in)+3)
	copy(buf, in)
	for i := len(in); i < len(buf); i++ {
		buf[i] = 'Z'
	}
	keep := append([]rune{}, buf...)
	tokens := ansi.StripToken(buf[:len(in)])
	sym.Assert(sym.EqRunes(buf, keep), "the input slice was modified")
	n := 0
	for _, t := range tokens {
		n += len(t.StartSequence) + len(t.Text) + len(t.StopSequence)
	}
	sym.Assert(n == len(in), "runes past the end of the token are returned")
}
