package h

import (
	"strings"

	json "github.com/matehaxor03/holistic_json/json"

	"verifharness/sym"
)

// converted converts something to text, given as it is, as a value or as a pointer to one.
func converted(o interface{}) string {
	in := o
	switch sym.Choose("as", 3) {
	case 1:
		in = json.NewValue(o)
	case 2:
		in = json.NewValueValue(o)
	}
	s, errs := json.ConvertInterfaceValueToStringValue(in)
	sym.Assert(len(errs) == 0, "a scalar can be converted to text")
	return s
}

// shortest asserts that a text is the shortest decimal form of a number.
func shortest(s string, x *node) {
	neg := signed(x.kind) && int64(x.u) < 0
	n, u, big, ok := plain(s)
	sym.Assert(ok && !big, "a number is converted to digits")
	if neg {
		sym.Assert(n && u == -x.u, "the digits denote the number")
	} else {
		sym.Assert(!n && u == x.u, "the digits denote the number")
	}
	d := strings.TrimPrefix(s, "-")
	sym.Assert(d[0] != '+' && (d[0] != '0' || len(d) == 1), "the form is the shortest")
}

// any integer of any kind
func C27_Integers() {
	x := anyScalar(kInt+sym.Choose("kind", 10), "x", 0)
	shortest(converted(x.object(sym.Choose("ptr", 2) == 1)), x.tree())
}

// integers near the limits of every width
func C27_Limits() {
	x := &scalar{kind: kInt + sym.Choose("kind", 10)}
	d := sym.Uint8("d")
	_, greatest := limits(x.kind)
	u := greatest - uint64(d%4)
	switch sym.Choose("end", 3) {
	case 1:
		u = greatest + 1 + uint64(d%4) // the least of the signed types, zero of the others
	case 2:
		u = uint64(d) - 128
	}
	x.vInt, x.vInt8, x.vInt16, x.vInt32, x.vInt64 = int(u), int8(u), int16(u), int32(u), int64(u)
	x.vUInt, x.vUInt8, x.vUInt16, x.vUInt32, x.vUInt64 = uint(u), uint8(u), uint16(u), uint32(u), u
	shortest(converted(x.object(sym.Choose("ptr", 2) == 1)), x.tree())
}

func C27_Bool() {
	x := anyScalar(kBool, "x", 0)
	s := converted(x.object(sym.Choose("ptr", 2) == 1))
	sym.Assert((s == "true") == x.b && (s == "false") == !x.b, "a boolean is true or false")
}

// any text is itself
func C27_String() {
	x := anyScalar(kString, "x", sym.Choose("n", sym.Bound("bytes of a text", 5, 8)))
	sym.Assert(converted(x.object(sym.Choose("ptr", 2) == 1)) == x.s, "a text is itself")
}

// texts that look like something else
func C27_Strings() {
	s := []string{"", "nil", "<nil>", "null", "map[]", "%s", "%d", "%!", "true", "0012", "&map[value:<nil>]", "%!s(*json.Value=<nil>)", "\"quoted\"", "\\n", " x "}[sym.Choose("text", 15)]
	x := &scalar{kind: kString, s: s}
	sym.Assert(converted(x.object(sym.Choose("ptr", 2) == 1)) == s, "a text is itself")
}

// the same digits as in the serialised document
func C27_Agrees() {
	x := anyScalar([]int{kBool, kInt, kInt8, kInt16, kInt32, kInt64, kUInt, kUInt8, kUInt16, kUInt32, kUInt64}[sym.Choose("kind", 11)], "x", 0)
	ptr := sym.Choose("ptr", 2) == 1
	s, errs := json.ConvertInterfaceValueToStringValue(x.object(ptr))
	sym.Assert(len(errs) == 0, "a scalar can be converted to text")
	m := json.NewMap()
	x.setIn(m, "a", ptr)
	sym.Assert(text(m) == `{"a":`+s+`}`, "the text of a scalar is that in the document")
	w, errs := json.ConvertInterfaceValueToStringValue(m.GetValue("a"))
	sym.Assert(len(errs) == 0 && w == s, "a member is converted like the scalar")
}

// numbers read from a document have the digits of their literal
func C27_Parsed() {
	lit := sign() + whole(1+sym.Choose("n", sym.Bound("digits of a literal", 12, 21)))
	_, _, ok := intLiteral(lit)
	sym.Assume(ok)
	m := parse(`{"a":` + lit + `}`)
	s, errs := json.ConvertInterfaceValueToStringValue(m.GetValue("a"))
	sym.Assert(len(errs) == 0, "a number can be converted to text")
	sym.Assert(s == lit || lit == "-0" && s == "0", "a number is converted to the digits of its literal")
}

// and back
func C27_Back() {
	x := anyScalar(kInt+sym.Choose("kind", 10), "x", 0)
	s, errs := json.ConvertInterfaceValueToStringValue(x.object(false))
	sym.Assert(len(errs) == 0, "a number can be converted to text")
	r := read(json.NewValue(s), x.kind, false)
	sym.Assert(!r.failed, "the text of a number can be read as the number")
	same(x.tree(), r.n, "the text of a number is read as the number")
}

// a value that holds a value
func C27_Nested() {
	x := anyScalar(kBool+sym.Choose("kind", 12), "x", 1)
	var o interface{} = x.object(sym.Choose("ptr", 2) == 1)
	want := converted(o)
	for i := 1 + sym.Choose("depth", 3); i > 0; i-- {
		if sym.Choose("value", 2) == 1 {
			o = json.NewValueValue(o)
		} else {
			o = json.NewValue(o)
		}
	}
	s, errs := json.ConvertInterfaceValueToStringValue(o)
	sym.Assert(len(errs) == 0 && s == want, "a value that holds a value has its text")
}

// values that hold one thing after the other
func C27_Changing() {
	kind := kBool + sym.Choose("kind", 12)
	other := []int{kind, kString, kInt8}[sym.Choose("other", 3)]
	changing(plainScalar(kind, 0), plainScalar(other, 1), func(v *json.Value, x *scalar) {
		s, errs := json.ConvertInterfaceValueToStringValue(v)
		sym.Assert(len(errs) == 0, "a scalar can be converted to text")
		t, errs := json.ConvertInterfaceValueToStringValue(x.object(false))
		sym.Assert(len(errs) == 0 && s == t, "a value is converted like what it holds")
		switch x.kind {
		case kBool:
			sym.Assert((s == "true") == x.b && (s == "false") == !x.b, "a boolean is true or false")
		case kString:
			sym.Assert(s == x.s, "a text is itself")
		default:
			shortest(s, x.tree())
		}
	})
}
