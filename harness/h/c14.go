package h

import (
	json "github.com/matehaxor03/holistic_json/json"

	"verifharness/sym"
)

// fits tells whether an integer, given as stored, is a number of the accessor's type.
func fits(n *node, acc int) bool {
	neg := signed(n.kind) && int64(n.u) < 0
	i := int64(n.u)
	switch acc {
	case kInt, kInt64:
		return neg || n.u <= 1<<63-1
	case kInt8:
		return neg && i >= -128 || !neg && n.u <= 127
	case kInt16:
		return neg && i >= -32768 || !neg && n.u <= 32767
	case kInt32:
		return neg && i >= -2147483648 || !neg && n.u <= 2147483647
	case kUInt, kUInt64:
		return !neg
	case kUInt8:
		return !neg && n.u <= 255
	case kUInt16:
		return !neg && n.u <= 65535
	case kUInt32:
		return !neg && n.u <= 4294967295
	}
	return false
}

var kindName = []string{"nil", "bool", "string", "int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64", "float32", "float64"}

// exactly checks what an integer accessor gave for a stored integer.
func exactly(n *node, acc int, r *result) {
	if fits(n, acc) {
		sym.Assert(!r.failed, "a number in range is read")
		sym.Assert(r.n.kind == kindName[acc], "a number in range is read in the type asked for")
		sym.Assert(r.n.u == n.u, "the number read is the number stored")
		return
	}
	sym.Reach("out of range")
	sym.Assert(r.failed, "a number out of range is an error")
}

// every stored integer type, every integer accessor, through the value
func C14_Value() {
	x := anyScalar(kInt+sym.Choose("stored", 10), "x", 0)
	acc := kInt + sym.Choose("accessor", 10)
	v := json.NewValue(x.object(sym.Choose("ptr", 2) == 1))
	exactly(x.tree(), acc, read(v, acc, sym.Choose("form", 2) == 1))
}

// stored with the typed setter, read through the map
func C14_Map() {
	x := anyScalar(kInt+sym.Choose("stored", 10), "x", 0)
	acc := kInt + sym.Choose("accessor", 10)
	m := json.NewMap()
	x.setIn(m, "a", sym.Choose("ptr", 2) == 1)
	exactly(x.tree(), acc, readKey(m, "a", acc, sym.Choose("form", 2) == 1))
}

// stored in an array
func C14_Array() {
	x := anyScalar(kInt+sym.Choose("stored", 10), "x", 0)
	acc := kInt + sym.Choose("accessor", 10)
	a := json.NewArray()
	x.appendTo(a, sym.Choose("ptr", 2) == 1)
	exactly(x.tree(), acc, read((*a.GetValues())[0], acc, sym.Choose("form", 2) == 1))
}

// stored with the setter of a value that held something else
func C14_Set() {
	x := anyScalar(kInt+sym.Choose("stored", 10), "x", 0)
	acc := kInt + sym.Choose("accessor", 10)
	v := json.NewValue("was a text")
	x.setOf(v, sym.Choose("ptr", 2) == 1)
	exactly(x.tree(), acc, read(v, acc, sym.Choose("form", 2) == 1))
}

// a pointer shows the number it points to when it is read
func C14_Pointer() {
	i, j := sym.Int64("i"), sym.Int64("j")
	u := uint32(1)
	m := json.NewMap()
	m.SetInt64("a", &i)
	m.SetUInt32("b", &u)
	exactly(&node{kind: "int64", u: uint64(i)}, kInt64, readKey(m, "a", kInt64, true))
	i = j
	acc := kInt + sym.Choose("accessor", 10)
	exactly(&node{kind: "int64", u: uint64(j)}, acc, readKey(m, "a", acc, sym.Choose("form", 2) == 1))
}

// reading twice, in any two types, gives the same numbers
func C14_Twice() {
	x := anyScalar(kInt+sym.Choose("stored", 10), "x", 0)
	v := json.NewValue(x.object(false))
	first := []int{kInt8, kUInt8, kInt64, kUInt64}[sym.Choose("first", 4)]
	acc := []int{kInt64, kUInt64, kInt32, kUInt16}[sym.Choose("second", 4)]
	exactly(x.tree(), first, read(v, first, true))
	exactly(x.tree(), acc, read(v, acc, false))
	exactly(x.tree(), first, read(v, first, false))
}

// literals parsed from text
func C14_Parsed() {
	acc := kInt + sym.Choose("accessor", 10)
	lit := []string{"0", "127", "128", "255", "256", "32767", "32768", "65535", "65536", "2147483647", "2147483648", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808", "18446744073709551615",
		"-1", "-128", "-129", "-32768", "-32769", "-2147483648", "-2147483649", "-9223372036854775808"}[sym.Choose("literal", 24)]
	kind, u, _ := numberOf(lit)
	m := parse(`{"a":` + lit + `}`)
	exactly(&node{kind: kind, u: u}, acc, readKey(m, "a", acc, sym.Choose("form", 2) == 1))
}

// values that hold one number after the other
func C14_Changing() {
	kind := kInt + sym.Choose("stored", 10)
	other := kind
	if sym.Choose("other", 2) == 1 {
		other = []int{kInt8, kUInt64}[sym.Choose("kind", 2)]
	}
	acc := []int{kInt8, kUInt8, kInt64, kUInt64, kInt32}[sym.Choose("accessor", sym.Bound("accessors of changing numbers", 3, 5))]
	forms := 0
	changing(anyScalar(kind, "x", 0), anyScalar(other, "y", 0), func(v *json.Value, x *scalar) {
		forms++
		exactly(x.tree(), acc, read(v, acc, forms%2 == 1))
	})
}
