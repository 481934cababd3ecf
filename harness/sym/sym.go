// Package verifsym is the harness API. The symbolic executor replaces every function
// below by its own model; this native implementation replays a concrete assignment
// of the symbolic values against the really compiled code.
package verifsym

import (
	"fmt"
	"os"
	"path/filepath"
	"sync"
	"time"
)

// Violated is the panic value of a failed assertion.
type Violated struct{ Msg string }

// Assumed is the panic value of a failed assumption.
type Assumed struct{}

// NeedFile is the panic value asking for a rebuild with an embedded file replaced.
type NeedFile struct {
	Pkg, Name, Content string
}

// Values is the assignment being replayed.
var Values map[string]int64

// Params are the parameters of the job being replayed.
var Params map[string]int64

// Observed collects the values passed to Observe.
var Observed []int64

// Files holds the content of embedded files this binary was built with.
var Files = map[string]string{}

// Spread, when not nil, is called by Concurrently between goroutine starts.
var Spread func()

// Missing is set when a symbolic value had no entry in the assignment.
var Missing []string

var count map[string]int

// Reset prepares for a new replay.
func Reset(values, params map[string]int64) {
	Values, Params = values, params
	Observed = nil
	Missing = nil
	count = map[string]int{}
}

func val(name string, def int64) int64 {
	k := count[name]
	count[name] = k + 1
	key := fmt.Sprintf("%s#%d", name, k)
	v, ok := Values[key]
	if !ok {
		Missing = append(Missing, key)
		return def
	}
	return v
}

// Int yields any integer in [lo, hi].
func Int(name string, lo, hi int) int {
	if lo == hi {
		return lo
	}
	return int(val(name, int64(lo)))
}

// RuneIn yields any rune in [lo, hi].
func RuneIn(name string, lo, hi int) rune { return rune(val(name, int64(lo))) }

// Byte yields any byte.
func Byte(name string) byte { return byte(val(name, 0)) }

// ByteIn yields any byte in [lo, hi], hi being at most 127.
func ByteIn(name string, lo, hi int) byte { return byte(val(name, int64(lo))) }

// Bool yields any boolean.
func Bool(name string) bool { return val(name, 0)&1 == 1 }

// Choose yields any integer in [0, n); every value is explored separately.
func Choose(name string, n int) int {
	if n <= 1 {
		return 0
	}
	return int(val(name, 0))
}

// Place yields the start of a window of free items among n: any place when there are few of
// them; otherwise the places around the powers of two, and the ends.
func Place(n, free int) int {
	last := n - free
	if last < 100 {
		return Choose("at", last+1)
	}
	at := []int{0, last, last - 1, last / 2}
	for p := 8; p-2 <= last; p *= 2 {
		for d := -2; d <= 1; d++ {
			if p+d <= last {
				at = append(at, p+d)
			}
		}
	}
	return at[Choose("at", len(at))]
}

// Assume restricts the inputs considered.
func Assume(c bool) {
	if !c {
		panic(Assumed{})
	}
}

// Assert states the property.
func Assert(c bool, msg string) {
	if !c {
		panic(Violated{msg})
	}
}

// Cover is a reachability witness.
func Cover(name string) {}

// Param is a bound set by the job.
func Param(name string, def int) int {
	if v, ok := Params[name]; ok {
		return int(v)
	}
	return def
}

// Concrete makes the executor enumerate the values of v.
func Concrete(v int) int { return v }

// Observe records a value for the comparison of the executor with the real code.
func Observe(v int) { Observed = append(Observed, int64(v)) }

// MapOrder makes the executor explore every order of the next map iterations.
func MapOrder(on bool) {}

// EqRunes compares without forking.
func EqRunes(a, b []rune) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// EqInts compares without forking.
func EqInts(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// EqBytes compares without forking.
func EqBytes(a, b []byte) bool { return string(a) == string(b) }

// And is a conjunction without forking.
func And(a, b bool) bool { return a && b }

// Or is a disjunction without forking.
func Or(a, b bool) bool { return a || b }

// Ite is a conditional without forking.
func Ite(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}

// SetFile replaces the content of an embedded file.
func SetFile(pkg, name, content string) {
	if c, ok := Files[pkg+"/"+name]; ok && c == content {
		return
	}
	panic(NeedFile{pkg, name, content})
}

// Repo is the directory of the repository.
var Repo string

// RepoFile reads a file of the repository.
func RepoFile(name string) string {
	b, err := os.ReadFile(filepath.Join(Repo, name))
	if err != nil {
		panic(err)
	}
	return string(b)
}

// Symbolic tells whether the harness is executed symbolically.
func Symbolic() bool { return false }

// Try is the number of times the same values have been replayed already.
var Try int

// Concurrently runs the functions at the same time, or one a little later than the other.
func Concurrently(fs ...func()) {
	var wg sync.WaitGroup
	start := make(chan struct{})
	for i, f := range fs {
		f := f
		late := 0
		if Try%3 > 0 {
			late = (i + Try/3) % len(fs)
			if Try%3 == 2 {
				late = len(fs) - 1 - late
			}
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			if late > 0 {
				time.Sleep(time.Duration(late) * 60 * time.Millisecond)
			}
			f()
		}()
	}
	close(start)
	wg.Wait()
}
