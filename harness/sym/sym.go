// Package sym is the interface between harnesses and the symbolic executor.
// The executor intercepts these functions; the bodies below run natively when
// a counterexample or a sampled path is replayed on the compiled code.
package sym

import (
	"fmt"
	"strings"
)

type AssumeFailed struct{}
type Failure struct{ Msg string }

type Obs struct {
	L string `json:"l"`
	T string `json:"t"`
}

var (
	In_     []int
	pos     int
	Obs_    []Obs
	Reached []string
)

// Reset prepares a native run with the given variable values.
func Reset(in []int) { In_, pos, Obs_, Reached = in, 0, nil, nil }

func next(def byte) byte {
	if pos < len(In_) {
		b := byte(In_[pos])
		pos++
		return b
	}
	pos++
	return def
}

// Byte is an arbitrary byte.
func Byte(label string) byte { return next('a') }

// Choose is an arbitrary integer in [0, n).
func Choose(label string, n int) int {
	if n == 1 {
		return 0
	}
	x := int(next(0))
	Assume(x < n)
	return x
}

// Pick is one of the options.
func Pick(label string, opts ...string) string { return opts[Choose(label, len(opts))] }

// PickSym is one of the options, all of the same length, without forking.
func PickSym(label string, opts ...string) string { return opts[Choose(label, len(opts))] }

// Bytes is an arbitrary string of n bytes.
func Bytes(label string, n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = next('a')
	}
	return string(b)
}

// BytesIn is an arbitrary string of n bytes of the set.
func BytesIn(label string, n int, set string) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = next('a')
		Assume(strings.IndexByte(set, b[i]) >= 0)
	}
	return string(b)
}

// In tells whether b is in set, as one term.
func In(b byte, set string) bool { return strings.IndexByte(set, b) >= 0 }

func And(a, b bool) bool { return a && b }
func Or(a, b bool) bool  { return a || b }
func Not(a bool) bool    { return !a }

// Assume restricts the inputs.
func Assume(b bool) {
	if !b {
		panic(AssumeFailed{})
	}
}

// Fail reports a violation on the current path.
func Fail(msg string) { panic(Failure{msg}) }

// Truncate ends the path: what follows is outside the stated bound.
func Truncate() { panic(AssumeFailed{}) }

// Reach marks a point the exploration must get to.
func Reach(label string) { Reached = append(Reached, label) }

// Observe records a value that must agree between executor and native run.
func Observe(label string, v interface{}) {
	Obs_ = append(Obs_, Obs{label, fmt.Sprint(v)})
}

// GlobalWrites lists writes of repository code to memory that existed before
// the harness started (executor only).
func GlobalWrites() string { return "" }

// Share(true) makes memory allocated from now on shared, until Share(false).
func Share(on bool) {}

// SharedWrites lists writes of repository code to shared memory after
// Share(false) (executor only).
func SharedWrites() string { return "" }

// Concrete forks over all values of s.
func Concrete(s string) string { return s }

// Symbolic tells whether the executor runs.
func Symbolic() bool { return false }

// CLI is the outcome of a run of the command line tool.
type CLI struct {
	Stdout, Stderr string
	Status         int
}

// RunCLI runs the compiled tool; files maps names to contents, "/" for a
// directory. Set in native runs only.
var RunCLI func(args []string, files map[string]string, stdin string, full bool) CLI
