// Package zzspec is the contract vocabulary. The deductive verifier (govc) interprets these
// functions symbolically; the bodies below are their run-time meaning, used when a counterexample
// is replayed against the real code.
package zzspec

import (
	"bytes"
	"fmt"
	"math/rand"
	"reflect"
)

type skipT struct{}

// Violation is raised by a failed postcondition when a contract is executed.
type Violation struct {
	Label string
}

func (v Violation) String() string { return "contract violated: " + v.Label }

var (
	Rng      = rand.New(rand.NewSource(1))
	covered  = map[string]int{}
	mayPanic bool
)

// Requires restricts the inputs the contract is about.
func Requires(c bool) {
	if !c {
		panic(skipT{})
	}
}

// Assume states an assumption.
func Assume(c bool) {
	if !c {
		panic(skipT{})
	}
}

// Ensures is a proof obligation.
func Ensures(label string, c bool) {
	if !c {
		panic(Violation{label})
	}
}

// Cover must be reachable (guards against vacuous contracts).
func Cover(label string) { covered[label]++ }

// MayPanic: run-time panics from here on are outside this contract.
func MayPanic() { mayPanic = true }

func Implies(a, b bool) bool { return !a || b }

// Holds evaluates a condition as a whole (the verifier does not split it into cases).
func Holds(f func() bool) bool { return f() }

func Forall(lo, hi int, f func(i int) bool) bool {
	for i := lo; i < hi; i++ {
		if !f(i) {
			return false
		}
	}
	return true
}

func Exists(lo, hi int, f func(i int) bool) bool {
	for i := lo; i < hi; i++ {
		if f(i) {
			return true
		}
	}
	return false
}

// ChooseBool, ChooseInt, ChooseErr: arbitrary values (an external party's behaviour).
func ChooseBool() bool         { return Rng.Intn(2) == 0 }
func ChooseInt(lo, hi int) int { return lo + Rng.Intn(hi-lo) }
func ChooseErr() error {
	if Rng.Intn(3) == 0 {
		return fmt.Errorf("chosen error")
	}
	return nil
}

// Modifies lists what a function may change (for callers verified against its contract).
func Modifies(objs ...interface{}) {}

func SameObj(a, b interface{}) bool {
	va, vb := reflect.ValueOf(a), reflect.ValueOf(b)
	if va.Kind() != vb.Kind() {
		return false
	}
	switch va.Kind() {
	case reflect.Ptr, reflect.Map, reflect.Slice, reflect.Chan, reflect.Func:
		return va.Pointer() == vb.Pointer()
	}
	return false
}

// Fresh: the object was allocated during this contract.
func Fresh(a interface{}) bool { return true }

// MarkState / Unchanged: nothing that existed at the mark has been modified since (checked by the
// verifier only).
func MarkState(k string)      {}
func Unchanged(k string) bool { return true }

// Eq compares byte strings.
func Eq(a, b []byte) bool { return bytes.Equal(a, b) }

// Clone copies a byte string (nil for nil).
func Clone(a []byte) []byte { return append([]byte(nil), a...) }

// Cat concatenates byte strings.
func Cat(parts ...[]byte) []byte {
	r := []byte{}
	for _, p := range parts {
		r = append(r, p...)
	}
	return r
}

// Repeat is n copies of a byte.
func Repeat(b byte, n int) []byte { return bytes.Repeat([]byte{b}, n) }

// Disjoint: the two slices share no memory, spare capacity included.
func Disjoint(a, b []byte) bool {
	if cap(a) == 0 || cap(b) == 0 {
		return true
	}
	pa, pb := reflect.ValueOf(a).Pointer(), reflect.ValueOf(b).Pointer()
	return pa+uintptr(cap(a)) <= pb || pb+uintptr(cap(b)) <= pa
}
