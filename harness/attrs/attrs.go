// Package attrs holds the harnesses for the state of text attributes (C18, C19).
package attrs

import (
	"github.com/fredbi/go-typeset/attributes"
	sym "github.com/fredbi/go-typeset/verifsym"
)

// recorder is a writer of runes that keeps them.
type recorder struct{ got []rune }

func (r *recorder) WriteRunes(t []rune) (int, error) { r.got = append(r.got, t...); return len(t), nil }
func (r *recorder) WriteRune(c rune) (int, error)    { r.got = append(r.got, c); return 1, nil }
func (r *recorder) Write(p []byte) (int, error)      { return len(p), nil }

type item struct {
	start, text, stop []rune
	attr              attributes.Renderer
	opener            int // for a stop: the item it closes, or -1
	closer            int // for a start: the item that closes it, or -1
	level             int
}

// flow builds n renderers, each with or without a start, a text and a stop sequence of any runes.
// It is well nested: no stop without a start.
func flow(n int) []*item {
	var items []*item
	var open []int
	free := sym.Param("free", n)
	at := 0
	if free < n {
		at = sym.Place(n, free)
	}
	short := sym.Param("short", 0) == 1 // sequences and texts of a single rune; the others empty, but not nil
	for i := 0; i < n; i++ {
		it := &item{opener: -1, closer: -1}
		var what int
		if short {
			it.start, it.text = []rune{}, []rune{}
		}
		if i >= at && i < at+free {
			what = sym.Choose("what", 8)
		} else {
			what = usual(i, n, len(open))
		}
		any := func() rune { return sym.RuneIn("r", -1<<31, 1<<31-1) }
		if what&1 != 0 {
			it.start = []rune{any(), 'S', rune('0' + i)}
			if short {
				it.start = it.start[:1:1]
			}
			open = append(open, i)
		}
		if what&2 != 0 {
			it.text = []rune{any(), rune('0' + i)}
			if short {
				it.text = it.text[:1:1]
			}
		}
		it.level = len(open)
		if what&4 != 0 {
			sym.Assume(len(open) > 0)
			it.stop = []rune{any(), 'E', rune('0' + i)}
			if short {
				it.stop = it.stop[:1:1]
			}
			it.opener = open[len(open)-1]
			open = open[:len(open)-1]
		}
		it.attr = attributes.New(it.text, it.start, it.stop)
		items = append(items, it)
		if it.opener >= 0 {
			items[it.opener].closer = i
		}
	}
	return items
}

// usual is what the items of a long flow are made of.
func usual(i, n, open int) int {
	what := 2
	switch sym.Param("mix", 0) {
	case 1: // one after the other
		what = []int{3, 6, 7, 2}[i%4]
	case 2: // nested ones, then closed
		what = 3
		if i >= n/2 {
			what = 6
		}
	case 3: // left open for long
		what = 2
		if i == 0 || i == 1 {
			what = 3
		}
		if i >= n-2 {
			what = 6
		}
	}
	if open == 0 && what&1 == 0 {
		what &^= 4
	}
	return what
}

func state(items []*item) *attributes.State {
	s := attributes.NewState()
	late := sym.Param("late", 0) == 1
	for i, it := range items {
		if late && it.stop != nil {
			// the stop sequence may be set after the renderer is pushed
			a := attributes.New(it.text, it.start, nil)
			it.attr = a
			s.Push(a)
			a.SetStop(it.stop)
		} else {
			s.Push(it.attr)
		}
		if i%2 == 0 {
			s.Push(nil) // no effect
		}
	}
	return s
}

// CheckIterate: C18.
func CheckIterate() {
	items := flow(sym.Param("n", 3))
	s := state(items)
	i := 0
	w := &recorder{}
	var want []rune
	for iter := s.Iterator(); iter.Next(); i++ {
		sym.Assert(i < len(items), "more items than pushed")
		it := iter.Item()
		sym.Assert(it == items[i].attr, "not the items pushed, in order")
		sym.Assert(it.Level() == items[i].level, "the level is not the number of open attributes")
		sym.Assert(it.HasStart() == (len(items[i].start) > 0), "wrongly tells that there is a start")
		sym.Assert(it.HasStop() == (len(items[i].stop) > 0), "wrongly tells that there is a stop")
		sym.Assert(len(it.Runes()) == len(items[i].text), "not the text of the item")
		sym.Assert(sym.EqRunes(it.Runes(), items[i].text), "not the text of the item")
		it.Render(w)
		want = append(want, items[i].start...)
		want = append(want, items[i].text...)
		want = append(want, items[i].stop...)
		sym.Observe(it.Level())
		if it.Level() > 1 {
			sym.Cover("nested")
		}
	}
	sym.Assert(i == len(items), "items are missing")
	sym.Assert(len(w.got) == len(want), "not what is to be rendered")
	sym.Assert(sym.EqRunes(w.got, want), "not what is to be rendered")

	// a walk from the first item
	i = 0
	iter := s.First()
	if len(items) > 0 {
		sym.Assert(iter.Item() == items[0].attr, "not the first item")
		for i = 1; iter.Next(); i++ {
			sym.Assert(i < len(items), "more items than pushed")
			sym.Assert(iter.Item() == items[i].attr, "not the items pushed, in order")
		}
		sym.Assert(i == len(items), "items are missing")
	}
	sym.Assert(iter.Item() == nil || len(items) > 0, "an item in an empty state")
	sym.Assert(!iter.Next(), "an item after the last one")
	sym.Assert(iter.Item() == nil, "an item after the last one")

	// collections of renderers
	var c attributes.Renderers
	want = want[:0]
	for _, it := range items {
		c = append(c, it.attr, nil)
	}
	a, b, r := &recorder{}, &recorder{}, &recorder{}
	c.Start(a)
	c.Stop(b)
	c.Render(r)
	var starts, stops []rune
	for _, it := range items {
		starts = append(starts, it.start...)
		stops = append(stops, it.stop...)
	}
	sym.Assert(sym.EqRunes(a.got, starts), "not the start sequences")
	sym.Assert(sym.EqRunes(b.got, stops), "not the stop sequences")
	sym.Assert(sym.EqRunes(r.got, w.got), "a collection is not rendered as its items")
}

// CheckBreaks: C19 — breaks at any places.
func CheckBreaks() {
	items := flow(sym.Param("n", 3))
	s := state(items)
	iter := s.Iterator()
	w := &recorder{}
	iter.StartOfLine(w)
	sym.Assert(len(w.got) == 0, "something is started before the first item")
	for i := range items {
		sym.Assert(iter.Next(), "items are missing")
		iter.Item().Render(w)
		if free := sym.Param("free", len(items)); free < len(items) {
			if at := sym.Param("brk", 1); i%at != 0 {
				continue
			}
		} else if !sym.Bool("break") {
			continue
		}
		// what is open now, and what closes it
		var starts, stops []rune
		open := 0
		for j := 0; j <= i; j++ {
			if items[j].start != nil && (items[j].closer < 0 || items[j].closer > i) {
				starts = append(starts, items[j].start...)
				open++
			}
		}
		for j := i + 1; j < len(items); j++ {
			if o := items[j].opener; o >= 0 && o <= i {
				stops = append(stops, items[j].stop...)
			}
		}
		w.got = nil
		iter.EndOfLine(w)
		sym.Assert(len(w.got) == len(stops), "not the stops of the open attributes")
		sym.Assert(sym.EqRunes(w.got, stops), "not the stops of the open attributes")
		w.got = nil
		iter.StartOfLine(w)
		sym.Assert(len(w.got) == len(starts), "not the starts of the open attributes")
		sym.Assert(sym.EqRunes(w.got, starts), "not the starts of the open attributes")
		sym.Observe(open)
		if open > 1 {
			sym.Cover("nested")
		}
	}
	sym.Assert(!iter.Next(), "more items than pushed")
	w.got = nil
	iter.EndOfLine(w)
	iter.StartOfLine(w)
	sym.Assert(len(w.got) == 0, "something is written after the last item")
}
