package h

import (
	"math"
	"strconv"

	json "github.com/matehaxor03/holistic_json/json"

	"verifharness/sym"
)

// trip stores a scalar somewhere, serialises and parses, and gives what came back.
func trip(x *scalar) *node {
	m := json.NewMap()
	ptr := sym.Choose("ptr", 2) == 1
	where := sym.Choose("where", 4)
	switch where {
	case 0:
		x.setIn(m, "a", ptr)
	case 1:
		a := json.NewArray()
		x.appendTo(a, ptr)
		m.SetArray("a", a)
	case 2:
		m.SetValue("a", json.NewValue(x.object(ptr)))
		m.SetBoolValue("z", true)
	case 3:
		a := json.NewArray()
		a.AppendNil()
		a.AppendValue(json.NewValue(x.object(ptr)))
		a.AppendBoolValue(true)
		m.SetArrayValue("a", *a)
	}
	back := snapMap(parse(text(m))).kids[0]
	switch where {
	case 1:
		sym.Assert(back.kind == "array" && len(back.kids) == 1, "the array comes back")
		return back.kids[0]
	case 3:
		sym.Assert(back.kind == "array" && len(back.kids) == 3, "the array comes back")
		sym.Assert(back.kids[0].kind == "nil" && back.kids[2].kind == "bool" && back.kids[2].u == 1, "its other elements come back")
		return back.kids[1]
	}
	return back
}

// integers of every width
func C10_Integers() {
	x := anyScalar(kInt+sym.Choose("kind", 10), "v", 0)
	again(x.tree(), trip(x), "round trip")
}

// booleans and null
func C10_Words() {
	x := anyScalar([]int{kNil, kBool}[sym.Choose("kind", 2)], "v", 0)
	again(x.tree(), trip(x), "round trip")
}

// a number read back as the kind that its literal is: same float for a float
func float32Back(f float32, got *node) {
	var v float64
	switch {
	case got.kind == "float32":
		v = float64(math.Float32frombits(uint32(got.u)))
	case got.kind == "float64":
		v = math.Float64frombits(got.u)
	case signed(got.kind):
		v = float64(int64(got.u))
	case unsigned(got.kind):
		v = float64(got.u)
	default:
		sym.Fail("a float comes back as a number")
	}
	sym.Assert(v == float64(f), "a single-precision float comes back with its value")
}

// single-precision floats, every value
func C10_Float32() {
	f := sym.Float32("f")
	sym.Assume(f == f && !math.IsInf(float64(f), 0))
	float32Back(f, trip(&scalar{kind: kFloat32, vFloat32: f}))
}

// single-precision floats of interest
func C10_Float32Values() {
	fs := []float32{0, 1, -1, 0.1, -0.1, 1e10, 123456789, 1.5, 0.000001, 1e-7, 1.17549435e-38, 1e-45, 3.4028235e38, -3.4028235e38, 16777216, 16777218, 1e21, 1e20, 9.999999e20, 2147483648, 9223372036854775808, 18446744073709551616, 0.3333333, 5e-324}
	f := fs[sym.Choose("f", len(fs))]
	got := trip(&scalar{kind: kFloat32, vFloat32: f})
	float32Back(f, got)
	sym.Assert(got.kind == "float32" || f == 0, "a single-precision float comes back as one")
}

// double-precision floats: the text denotes the stored value
func C10_Float64() {
	fs := []float64{0, 1, -1, 0.1, -0.1, 1e10, 123456789, 1.5, 0.000001, 1e-7, 1e21, 1e20, 1e308, 1.7976931348623157e308, 5e-324, 2.2250738585072014e-308, 0.30000000000000004, 3.141592653589793, 9007199254740993, 16777217.5, 340282356779733661637539395458142568448, 1e39, 1e-46, -2.5e-300}
	f := fs[sym.Choose("f", len(fs))]
	got := trip(&scalar{kind: kFloat64, vFloat64: f})
	switch got.kind {
	case "float64":
		sym.Assert(got.u == math.Float64bits(f), "a double-precision float comes back exactly")
	case "float32":
		near, err := strconv.ParseFloat(strconv.FormatFloat(f, 'f', -1, 64), 32)
		sym.Assert(err == nil && uint32(got.u) == math.Float32bits(float32(near)), "a double-precision float in range comes back as the nearest single")
	default:
		float32Back(float32(f), got)
		sym.Assert(f == math.Trunc(f), "only a whole number comes back as an integer")
	}
}

// any double: if it comes back as a double, it is the one stored
func C10_AnyFloat64() {
	f := sym.Float64("f")
	sym.Assume(f == f && !math.IsInf(f, 0))
	got := trip(&scalar{kind: kFloat64, vFloat64: f})
	sym.Assert(got.kind == "float32" || got.kind == "float64" || f == math.Trunc(f), "a float comes back as a float")
	if got.kind == "float64" {
		sym.Assert(got.u == math.Float64bits(f), "a double-precision float comes back exactly")
	}
}

// several scalars in one document do not disturb one another
func C10_Together() {
	kx := []int{kNil, kBool, kString, kInt8, kUInt8, kInt16, kInt64}
	ky := []int{kUInt8, kBool, kString, kUInt64}
	x := anyScalar(kx[sym.Choose("x", sym.Bound("kinds of a first scalar", 5, 7))], "x", 1)
	y := anyScalar(ky[sym.Choose("y", sym.Bound("kinds of a second scalar", 3, 4))], "y", 1)
	m := json.NewMap()
	a := json.NewArray()
	x.setIn(m, "x", true)
	x.appendTo(a, false)
	y.appendTo(a, true)
	y.setIn(m, "y", false)
	m.SetArray("a", a)
	again(snapMap(m), snapMap(parse(text(m))), "round trip")
}
