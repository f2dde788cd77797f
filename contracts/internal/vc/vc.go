// Package vc is the contract language: the calls below are interpreted symbolically by govc and
// executed for real when a contract is replayed against the code.
package vc

import (
	"unsafe"

	"strings"

	"github.com/rivo/uniseg"
)

// Failure is the panic value of a violated obligation during replay.
type Failure struct{ Name string }

// Skip is the panic value of an unsatisfied precondition during replay.
type Skip struct{}

// Requires states a precondition.
func Requires(cond bool) {
	if !cond {
		panic(Skip{})
	}
}

// Ensures states a named postcondition.
func Ensures(name string, cond bool) {
	if ensured != nil {
		ensured[name]++
	}
	if !cond {
		panic(Failure{name})
	}
}

// Snap is a ghost copy of a slice as it is now.
func Snap[T any](s []T) []T {
	if s == nil {
		return nil
	}
	return append(make([]T, 0, len(s)), s...)
}

// Forall is a bounded universal quantifier over lo <= i < hi.
func Forall(lo, hi int, f func(i int) bool) bool {
	for i := lo; i < hi; i++ {
		if !f(i) {
			return false
		}
	}
	return true
}

// Exists is a bounded existential quantifier over lo <= i < hi.
func Exists(lo, hi int, f func(i int) bool) bool {
	for i := lo; i < hi; i++ {
		if f(i) {
			return true
		}
	}
	return false
}

// SameFn: the two functions are the same function value.
func SameFn[T any](f, g T) bool {
	return *(*unsafe.Pointer)(unsafe.Pointer(&f)) == *(*unsafe.Pointer)(unsafe.Pointer(&g))
}

// Sum of f over 0 <= i < n.
func Sum(n int, f func(i int) int) int {
	s := 0
	for i := 0; i < n; i++ {
		s += f(i)
	}
	return s
}

// Total is Sum over numbers with a fraction.
func Total(n int, f func(i int) float64) float64 {
	s := 0.0
	for i := 0; i < n; i++ {
		s += f(i)
	}
	return s
}

// Invariant offers a loop-invariant template; its parameters range over loop variables.
func Invariant(f any) {}

// InvariantIn is Invariant restricted to loops of the function with that name.
func InvariantIn(fn string, f any) {}

// Rely states what a contract assumes about the values that channels deliver.
func Rely(f any) {}

// Decreases offers a ranking function template.
func Decreases(f any) {}

// Modifies declares one thing the target may change: a pointer (its pointee) or a slice (its elements).
func Modifies(x any) {}

// Fresh: the elements were allocated since the contract started.
func Fresh[T any](s []T) bool { return true }

// SameArray: the elements are kept in the same array.
func SameArray[T any](s, o []T) bool { return true }

// EveryRune: f holds for every rune of the string.
func EveryRune(s string, f func(r rune) bool) bool {
	for _, r := range s {
		if !f(r) {
			return false
		}
	}
	return true
}

// FirstRunes: f holds for the first n runes of the string.
func FirstRunes(s string, n int, f func(r rune) bool) bool {
	for i, r := range []rune(s) {
		if i < n && !f(r) {
			return false
		}
	}
	return true
}

// Claims: under the option concurrent, the number was handed out by an indivisible step of the verified
// function on the shared counter, which moved the counter past it.
func Claims(id uint64) bool { return true }

// Catch runs f and reports whether it panicked.
func Catch(f func()) (panicked bool) {
	defer func() {
		if r := recover(); r != nil {
			switch r.(type) {
			case Skip, Failure:
				panic(r)
			}
			panicked = true
		}
	}()
	f()
	return false
}

// Graphemes is the sequence of extended grapheme clusters of s.
func Graphemes(s string) []string {
	var r []string
	g := uniseg.NewGraphemes(s)
	for g.Next() {
		r = append(r, g.Str())
	}
	return r
}

// Lines are the lines of s, without their line breaks.
func Lines(s string) []string {
	if s == "" {
		return nil
	}
	r := strings.Split(strings.TrimSuffix(s, "\n"), "\n")
	for i := range r {
		r[i] = strings.TrimSuffix(r[i], "\r")
	}
	return r
}

// Width is the display width of a string.
func Width(s string) int { return uniseg.StringWidth(s) }

// Implies is a => b (both evaluated).
func Implies(a, b bool) bool { return !a || b }

// Assert is a lemma: proved here, then available below.
func Assert(name string, cond bool) {
	if !cond {
		panic(Failure{name})
	}
}

// Induct is a lemma proved by induction: f(0), and f(i+1) follows from f(i) for 0 <= i < n; then f(n) is
// available below.
func Induct(name string, n int, f func(i int) bool) {}

// Iter is the type of loop-template parameters that stand for the number of clusters a grapheme
// iterator has delivered so far.
type Iter int

// Visited reports, in an invariant of a loop that ranges over a map, that the key has been produced.
func Visited[K comparable](k K) bool { panic("vc.Visited is for invariants") }
