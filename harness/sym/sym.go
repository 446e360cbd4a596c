// Package sym gives harnesses their inputs.  The symbolic engine replaces every function here; the
// bodies below are what a native replay runs: inputs come from the counterexample.
package sym

import (
	"fmt"
	"math"
)

type State struct {
	Inputs   map[string]uint64
	Tier     string
	cnt      map[string]int
	Failures []string
	Obs      []string
}

// Infeasible is panicked with when an assumption does not hold for the inputs.
type Infeasible struct{}

// Failed is panicked with by Assert and Fail.
type Failed struct{ Msg string }

var S *State

func Begin(in map[string]uint64, tier string) {
	S = &State{Inputs: in, Tier: tier, cnt: map[string]int{}}
}

func get(name string) uint64 {
	n := S.cnt[name]
	S.cnt[name] = n + 1
	return S.Inputs[fmt.Sprintf("%s#%d", name, n)]
}

func Byte(name string) byte       { return byte(get(name)) }
func Bool(name string) bool       { return get(name)&1 == 1 }
func Int8(name string) int8       { return int8(get(name)) }
func Int16(name string) int16     { return int16(get(name)) }
func Int32(name string) int32     { return int32(get(name)) }
func Int64(name string) int64     { return int64(get(name)) }
func Int(name string) int         { return int(get(name)) }
func Uint8(name string) uint8     { return uint8(get(name)) }
func Uint16(name string) uint16   { return uint16(get(name)) }
func Uint32(name string) uint32   { return uint32(get(name)) }
func Uint64(name string) uint64   { return get(name) }
func Uint(name string) uint       { return uint(get(name)) }
func Float32(name string) float32 { return math.Float32frombits(uint32(get(name))) }
func Float64(name string) float64 { return math.Float64frombits(get(name)) }

// Str is a string of n arbitrary bytes.
func Str(name string, n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = Byte(name)
	}
	return string(b)
}

// ByteIn is an arbitrary byte of set.
func ByteIn(name string, set string) byte {
	c := Byte(name)
	for i := 0; i < len(set); i++ {
		if set[i] == c {
			return c
		}
	}
	panic(Infeasible{})
}

// StrIn is a string of n arbitrary bytes of set.
func StrIn(name string, n int, set string) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = ByteIn(name, set)
	}
	return string(b)
}

// Choose forks over 0..n-1.
func Choose(name string, n int) int {
	k := int(get(name))
	if k >= n && !(n <= 1 && k == 0) {
		panic(Infeasible{})
	}
	return k
}

func Assume(b bool) {
	if !b {
		panic(Infeasible{})
	}
}

func Assert(b bool, msg string) {
	if !b {
		panic(Failed{msg})
	}
}

func Fail(msg string)   { panic(Failed{msg}) }
func Reach(name string) {}

// Bound is a size that depends on the tier; it is listed in the evidence.
func Bound(name string, quick, thorough int) int {
	if S.Tier == "thorough" {
		return thorough
	}
	return quick
}

// Note records a bound in the evidence.
func Note(name, text string) {}

// Observe compares a value between the symbolic and the native execution of a path.
func Observe(name string, v interface{}) {
	s := "?"
	switch x := v.(type) {
	case string:
		s = fmt.Sprintf("%q", x)
	case bool:
		s = "0"
		if x {
			s = "1"
		}
	case float32:
		s = fmt.Sprint(math.Float32bits(x))
	case float64:
		s = fmt.Sprint(math.Float64bits(x))
	case int, int8, int16, int32, int64, uint, uint8, uint16, uint32, uint64:
		s = fmt.Sprint(x)
	}
	S.Obs = append(S.Obs, name+"="+s)
}

// Freeze marks everything reachable from the values; the engine reports later writes to it.
func Freeze(name string, vs ...interface{}) {}
func FreezeGlobals()                        {}
func Thaw()                                 {}
func Writes() int                           { return 0 }
func FirstWrite() string                    { return "" }

// Symbolic tells the engine's execution from a native one.
func Symbolic() bool { return false }

// Fork makes a condition concrete.
func Fork(b bool) bool { return b }
