// Package zzmodels holds the assumed contracts of functions outside the repository, written as Go
// the verifier executes in their place. Nothing here runs in production or in replays.
package zzmodels

// ---- primitives interpreted by the verifier ----

// UFBytes: a byte string that is a (mathematical) function of its arguments; n < 0: any length.
func UFBytes(name string, n int, args ...interface{}) string { return "" }

// UFInt, UFBool: likewise.
func UFInt(name string, lo, hi int, args ...interface{}) int { return 0 }
func UFBool(name string, args ...interface{}) bool           { return false }

// NondetX: arbitrary values.
func NondetBool() bool            { return false }
func NondetInt(lo, hi int) int    { return lo }
func NondetBytes(n int) string    { return "" }
func Assume(c bool)               {}
func Repeat(v byte, n int) string { return "" }
func Note(s string)               {}

// PanicIf is a run-time panic of the modelled function.
func PanicIf(label string, c bool) {}

// ParseDec: the number a decimal string denotes, and whether it is one; NoSlash: no '/' in it.
func ParseDec(s string) (int, bool) { return 0, false }
func LastSlash(s string) int        { return -1 }
func NoSlash(s string) bool         { return false }

func Sprintf(format string, args []interface{}) string { return "" }

// PBMayFail: the message's type has strings or required fields, so marshalling it can fail.
func PBMayFail(m interface{}) bool { panic(0) }

func PBMarshal(m interface{}) []byte           { return nil }
func PBUnmarshal(b []byte, m interface{}) bool { return false }
func PBClone(m interface{}) interface{}        { return nil }
func IsSym(m interface{}) bool                 { return false }
func HavocArg(m interface{})                   {}

// Err is the dynamic type of errors made by modelled functions.
type Err struct {
	Msg   string
	Inner error
}

func (e *Err) Error() string { return e.Msg }
func (e *Err) Unwrap() error { return e.Inner }

// ExtVal stands for an object owned by an external package.
type ExtVal struct{ X int }

func (e *ExtVal) Read(p []byte) (int, error) {
	if NondetBool() {
		return 0, &Err{}
	}
	n := NondetInt(0, len(p))
	copy(p[:n], NondetBytes(n))
	return n, nil
}

func mayErr() error {
	if NondetBool() {
		return &Err{}
	}
	return nil
}
