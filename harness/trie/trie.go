//place: wordbreak/hyphenator/internal/trie/zzverif

// Package triecheck holds the harnesses for the store of patterns (C14).
package triecheck

import (
	sym "github.com/fredbi/go-typeset/verifsym"
	"github.com/fredbi/go-typeset/wordbreak/hyphenator/internal/trie"
)

type entry struct {
	key []rune
	val int // 0 when removed
}

func key(max, letters int) []rune {
	n := sym.Choose("len", max+1)
	k := make([]rune, n)
	for i := range k {
		k[i] = rune(sym.Int("k", 0, letters-1)) * 0x10ffff
	}
	return k
}

// get looks a key up in the model: the last operation on it wins.
func get(log []entry, k []rune) int {
	for i := len(log) - 1; i >= 0; i-- {
		if len(log[i].key) == len(k) && sym.EqRunes(log[i].key, k) {
			return log[i].val
		}
	}
	return 0
}

// CheckHistory: C14 — any history of operations.
func CheckHistory() {
	ops := sym.Param("ops", 3)
	max := sym.Param("len", 2)
	letters := sym.Param("letters", 2)
	t := trie.NewRuneTrie()
	var log []entry
	for i := 0; i < ops; i++ {
		k := key(max, letters)
		old := get(log, k)
		keep := append([]rune{}, k...)
		if sym.Choose("op", 2) == 0 {
			isNew := t.Put(k, i+1)
			sym.Assert(isNew == (old == 0), "wrongly tells that the key is new, or not")
			log = append(log, entry{k, i + 1})
		} else {
			found := t.Delete(k)
			if old != 0 {
				sym.Assert(found, "a stored key is not found for removal")
				sym.Cover("removal of a stored key")
			} else if found {
				// an inner node: some longer key starts with this one
				longer := len(k) == 0
				for _, e := range log {
					if len(e.key) > len(k) && sym.EqRunes(e.key[:len(k)], k) && get(log, e.key) != 0 {
						longer = true
					}
				}
				sym.Assert(longer, "removed a key that was never there")
			}
			log = append(log, entry{k, 0})
		}
		sym.Assert(sym.EqRunes(k, keep), "the key was modified")
		// keys are not retained
		log[len(log)-1].key = keep
		for j := range k {
			k[j] = 'z'
		}
	}
	for _, e := range log {
		check(t, log, e.key)
	}
	check(t, log, key(max+1, letters))
}

func check(t *trie.RuneTrie, log []entry, k []rune) {
	want := get(log, k)
	got := t.Get(k)
	if want == 0 {
		sym.Assert(got == nil, "a value is found for a key that is not stored")
		sym.Observe(0)
		return
	}
	sym.Cover("a stored key")
	sym.Assert(got != nil, "a stored key is not found")
	v, ok := got.(int)
	sym.Assert(ok && v == want, "the value found is not the last one stored")
	sym.Observe(v)
}

// CheckKeys: C14 — keys made of any runes.
func CheckKeys() {
	n := sym.Param("n", 3)
	t := trie.NewRuneTrie()
	var log []entry
	for i := 0; i < n; i++ {
		k := make([]rune, sym.Param("len", 2))
		for j := range k {
			k[j] = sym.RuneIn("r", -1<<31, 1<<31-1)
		}
		old := get(log, k)
		sym.Assert(t.Put(k, i+1) == (old == 0), "wrongly tells that the key is new, or not")
		log = append(log, entry{k, i + 1})
	}
	if sym.Bool("delete") {
		t.Delete(log[0].key)
		log = append(log, entry{log[0].key, 0})
	}
	for _, e := range log {
		check(t, log, e.key)
	}
}

// CheckLarge: C14 — a store with many keys, long ones, and keys that start others, some runes of
// them being arbitrary.
func CheckLarge() {
	wide := sym.Param("wide", 20)
	deep := sym.Param("deep", 20)
	t := trie.NewRuneTrie()
	var log []entry
	put := func(k []rune) {
		v := len(log) + 1
		sym.Assert(t.Put(k, v) == (get(log, k) == 0), "wrongly tells that the key is new, or not")
		log = append(log, entry{k, v})
	}
	for i := 0; i < wide; i++ {
		put([]rune{'k', rune('a' + i)})
	}
	long := make([]rune, deep)
	for i := range long {
		long[i] = rune('a' + i%3)
	}
	for i := 1; i <= deep; i *= 2 {
		put(append([]rune{}, long[:i]...))
	}
	put(append([]rune{}, long...))
	k := append([]rune{}, long...)
	k[sym.Place(deep, 1)] = sym.RuneIn("r", -1<<31, 1<<31-1)
	put(k)
	put([]rune{'k', sym.RuneIn("r", -1<<31, 1<<31-1)})
	for _, e := range log {
		check(t, log, e.key)
	}
	gone := log[sym.Choose("gone", len(log))].key
	sym.Assert(t.Delete(gone), "a stored key is not found for removal")
	log = append(log, entry{gone, 0})
	for _, e := range log {
		check(t, log, e.key)
	}
	put(gone)
	check(t, log, gone)
}
