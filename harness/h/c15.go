package h

import (
	"math"
	"strconv"

	json "github.com/matehaxor03/holistic_json/json"

	"verifharness/sym"
)

// double is the stored number as the nearest double.
func (x *scalar) double() float64 {
	switch x.kind {
	case kFloat32:
		return float64(x.vFloat32)
	case kFloat64:
		return x.vFloat64
	case kInt:
		return float64(x.vInt)
	case kInt8:
		return float64(x.vInt8)
	case kInt16:
		return float64(x.vInt16)
	case kInt32:
		return float64(x.vInt32)
	case kInt64:
		return float64(x.vInt64)
	case kUInt:
		return float64(x.vUInt)
	case kUInt8:
		return float64(x.vUInt8)
	case kUInt16:
		return float64(x.vUInt16)
	case kUInt32:
		return float64(x.vUInt32)
	case kUInt64:
		return float64(x.vUInt64)
	}
	panic("not a number")
}

// floatIs checks what a float accessor gave.
func floatIs(d float64, acc int, r *result) {
	if acc == kFloat64 {
		sym.Assert(!r.failed && r.n.kind == "float64", "a number is read as a double")
		got := math.Float64frombits(r.n.u)
		sym.Assert(got == d || got != got && d != d, "the double read is the number stored")
		return
	}
	if d != d || math.IsInf(d, 0) {
		return
	}
	// taken to six decimal places
	want, err := strconv.ParseFloat(strconv.FormatFloat(d, 'f', 6, 64), 32)
	if err != nil {
		sym.Reach("beyond single precision")
		sym.Assert(r.failed, "a number beyond the single-precision range is an error")
		return
	}
	sym.Assert(!r.failed && r.n.kind == "float32", "a number in range is read as a single")
	sym.Assert(math.Float32frombits(uint32(r.n.u)) == float32(want), "the single read is the nearest one, to six decimal places")
}

func floatRead(x *scalar) {
	acc := kFloat32 + sym.Choose("accessor", 2)
	form := sym.Choose("form", 2) == 1
	ptr := sym.Choose("ptr", 2) == 1
	switch sym.Choose("where", 4) {
	case 0:
		floatIs(x.double(), acc, read(json.NewValue(x.object(ptr)), acc, form))
	case 1:
		m := json.NewMap()
		x.setIn(m, "a", ptr)
		floatIs(x.double(), acc, readKey(m, "a", acc, form))
	case 2:
		a := json.NewArray()
		x.appendTo(a, ptr)
		floatIs(x.double(), acc, read((*a.GetValues())[0], acc, form))
	case 3:
		v := json.NewValue(true)
		x.setOf(v, ptr)
		floatIs(x.double(), acc, read(v, acc, form))
	}
}

// any double
func C15_Float64() { floatRead(anyScalar(kFloat64, "x", 0)) }

// any single
func C15_Float32() { floatRead(anyScalar(kFloat32, "x", 0)) }

// any integer
func C15_Integers() { floatRead(anyScalar(kInt+sym.Choose("stored", 10), "x", 0)) }

// numbers of interest
func C15_Values() {
	fs := []float64{0, math.Copysign(0, -1), 1, -1, 0.1, -0.1, 1.5, 0.123456, -0.123456, 0.7654321, -0.7654321, 0.0000005, 0.00000049, 1e-7, 5e-324, 16777217, 16777219, 33554433.5, 123456.789012, -99999.9999999,
		9007199254740993, 1e15 + 0.5, 1e20, 1e38, 3.4028234663852886e38, 3.4028235677973362e38, 3.4028235677973366e38, 3.5e38, -3.5e38, 1e39, 1e300, math.MaxFloat64, -math.MaxFloat64,
		1.00000005960464477539, 2.9999999, 8388607.5, 4194303.75, 0.1 + 0.2, 2147483647.9999995}
	x := &scalar{kind: kFloat64, vFloat64: fs[sym.Choose("value", len(fs))]}
	if sym.Choose("single", 2) == 1 {
		x = &scalar{kind: kFloat32, vFloat32: float32(x.vFloat64)}
	}
	floatRead(x)
}

// decimal literals, parsed
func C15_Parsed() {
	lit := []string{"1.5", "-0.1", "0.7654321", "1e300", "1e39", "3.4028235e38", "123456789.125", "0.0000001", "7", "-300", "18446744073709551615", "1e-400"}[sym.Choose("literal", 12)]
	_, u, _ := numberOf(lit)
	kind, _, _ := numberOf(lit)
	var d float64
	switch {
	case kind == "float32":
		d = float64(math.Float32frombits(uint32(u)))
	case kind == "float64":
		d = math.Float64frombits(u)
	case signed(kind):
		d = float64(int64(u))
	default:
		d = float64(u)
	}
	acc := kFloat32 + sym.Choose("accessor", 2)
	m := parse(`{"a":` + lit + `}`)
	floatIs(d, acc, readKey(m, "a", acc, sym.Choose("form", 2) == 1))
}

// a pointer shows the number it points to when it is read
func C15_Pointer() {
	f := 1.5
	m := json.NewMap()
	m.SetFloat64("a", &f)
	floatIs(f, kFloat64, readKey(m, "a", kFloat64, false))
	f = sym.Float64("f")
	acc := kFloat32 + sym.Choose("accessor", 2)
	floatIs(f, acc, readKey(m, "a", acc, sym.Choose("form", 2) == 1))
}

// values that hold one number after the other
func C15_Changing() {
	fs := []float64{1.5, -0.25, 3e38, 1e39, 0.1, 7}
	kind := kFloat32 + sym.Choose("kind", 2)
	i, j := sym.Choose("first", len(fs)), sym.Choose("second", len(fs))
	acc := kFloat32 + sym.Choose("accessor", 2)
	x := &scalar{kind: kind, vFloat32: float32(fs[i]), vFloat64: fs[i]}
	y := &scalar{kind: kind, vFloat32: float32(fs[j]), vFloat64: fs[j]}
	forms := 0
	changing(x, y, func(v *json.Value, x *scalar) {
		forms++
		floatIs(x.double(), acc, read(v, acc, forms%2 == 1))
	})
}

// integers at the edges of what doubles and singles hold exactly
func C15_Edges() {
	bits := []int{0, 1, 7, 8, 15, 16, 24, 25, 31, 32, 52, 53, 54, 55, 60, 62, 63}
	u := uint64(1)<<bits[sym.Choose("bit", len(bits))] + uint64(sym.Choose("beside", 7)) - 3
	if sym.Choose("minus", 2) == 1 {
		u = -u
	}
	floatRead(integerOf(kInt+sym.Choose("stored", 10), u))
}

// integerOf is an integer of a kind with the low bits given.
func integerOf(kind int, u uint64) *scalar {
	return &scalar{kind: kind, vInt: int(u), vInt8: int8(u), vInt16: int16(u), vInt32: int32(u), vInt64: int64(u),
		vUInt: uint(u), vUInt8: uint8(u), vUInt16: uint16(u), vUInt32: uint32(u), vUInt64: u}
}
