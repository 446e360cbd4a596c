package h

import (
	"strconv"
	"strings"

	json "github.com/matehaxor03/holistic_json/json"

	"verifharness/sym"
)

// plain is what a text denotes as a decimal integer: its magnitude and its sign; ok is false if it is
// none, big if it is not between -2^63 and 2^64-1.
func plain(s string) (neg bool, u uint64, big, ok bool) {
	d := s
	if len(s) > 0 && (s[0] == '-' || s[0] == '+') {
		d = s[1:]
	}
	if len(d) == 0 {
		return
	}
	for i := 0; i < len(d); i++ {
		if d[i] < '0' || d[i] > '9' {
			return
		}
	}
	if s[0] == '-' {
		i, err := strconv.ParseInt(s, 10, 64)
		return true, -uint64(i), err != nil, true
	}
	u, err := strconv.ParseUint(d, 10, 64)
	return false, u, err != nil, true
}

// limits of the integer types: magnitudes of the least and the greatest
func limits(acc int) (least, greatest uint64) {
	switch acc {
	case kInt8:
		return 1 << 7, 1<<7 - 1
	case kInt16:
		return 1 << 15, 1<<15 - 1
	case kInt32:
		return 1 << 31, 1<<31 - 1
	case kInt, kInt64:
		return 1 << 63, 1<<63 - 1
	case kUInt8:
		return 0, 1<<8 - 1
	case kUInt16:
		return 0, 1<<16 - 1
	case kUInt32:
		return 0, 1<<32 - 1
	}
	return 0, 1<<64 - 1
}

// spelled checks what an integer accessor made of a text.
func spelled(s string, acc int, r *result, value bool) {
	if s == "NULL" && acc >= kUInt {
		// read as null
		sym.Assert(r.failed == value && (value || r.n.kind == "nil"), "NULL is no number")
		return
	}
	neg, u, big, ok := plain(s)
	least, greatest := limits(acc)
	if !ok || big || neg && u > least || !neg && u > greatest {
		sym.Assert(r.failed && (value || r.n.kind == "nil"), "a text that is no integer of the type is an error")
		return
	}
	if s[0] == '+' || s[0] == '-' && acc >= kUInt {
		// a sign where none is needed may be refused
		if r.failed {
			return
		}
	}
	if neg {
		u = -u
	}
	sym.Assert(!r.failed, "a text that is an integer of the type can be read")
	sym.Assert(r.n.kind == kindName[acc], "the number has the type asked for")
	sym.Assert(r.n.u == u, "the number is what the digits denote")
}

// held puts a text somewhere, and reads it.
func held(s string, acc int, value bool) *result {
	switch sym.Choose("held", 4) {
	case 0:
		return read(json.NewValue(s), acc, value)
	case 1:
		return read(json.NewValue(&s), acc, value)
	case 2:
		m := json.NewMap()
		m.SetStringValue("a", s)
		return readKey(m, "a", acc, value)
	}
	m := json.NewMap()
	m.SetString("a", &s)
	return readKey(m, "a", acc, value)
}

// any short text
func C26_Any() {
	s := sym.Str("s", sym.Choose("n", sym.Bound("bytes of any text", 4, 5)))
	acc := kInt + sym.Choose("accessor", 10)
	value := sym.Choose("value", 2) == 1
	v := json.NewValue(s)
	spelled(s, acc, read(v, acc, value), value)
}

// everywhere a text can be
func C26_Held() {
	s := sym.StrIn("s", sym.Choose("n", 4), "-+019aN ._e")
	acc := []int{kInt8, kUInt8, kInt64, kUInt64}[sym.Choose("accessor", 4)]
	value := sym.Choose("value", 2) == 1
	spelled(s, acc, held(s, acc, value), value)
}

// digits around the limits of every type
func C26_Digits() {
	acc := kInt + sym.Choose("accessor", 10)
	width := []int{3, 5, 10, 19, 20}[sym.Choose("width", 5)]
	n := width + sym.Choose("more", 2)
	s := sym.StrIn("d", n, digits)
	switch sym.Choose("sign", sym.Bound("signs", 2, 3)) {
	case 1:
		s = "-" + s
	case 2:
		s = "+" + s
	}
	value := sym.Choose("value", 2) == 1
	spelled(s, acc, read(json.NewValue(s), acc, value), value)
}

// leading zeros
func C26_Zeros() {
	acc := kInt + sym.Choose("accessor", 10)
	s := sym.StrIn("sign", sym.Choose("signs", 2), "-+") + "0000000000000000000000"[:sym.Choose("zeros", 3)*11] + sym.StrIn("d", 1+sym.Choose("n", 3), digits)
	value := sym.Choose("value", 2) == 1
	spelled(s, acc, read(json.NewValue(s), acc, value), value)
}

// one strange byte anywhere among digits
func C26_Strange() {
	acc := []int{kInt8, kInt64, kUInt8, kUInt64}[sym.Choose("accessor", 4)]
	n := 2 + sym.Choose("n", 3)
	at := sym.Choose("at", n)
	s := ""
	for i := 0; i < n; i++ {
		if i == at {
			s += sym.Str("b", 1)
		} else {
			s += "1"
		}
	}
	value := sym.Choose("value", 2) == 1
	spelled(s, acc, read(json.NewValue(s), acc, value), value)
}

// booleans
func spelledBool(s string, r *result) {
	switch {
	case s == "true" || s == "1":
		sym.Assert(!r.failed && r.n.kind == "bool" && r.n.u == 1, "true and 1 are true")
	case s == "false" || s == "0":
		sym.Assert(!r.failed && r.n.kind == "bool" && r.n.u == 0, "false and 0 are false")
	default:
		sym.Assert(r.failed, "any other text is no boolean")
	}
}

func C26_Bool() {
	s := sym.Str("s", sym.Choose("n", sym.Bound("bytes of a text read as a boolean", 7, 9)))
	spelledBool(s, held(s, kBool, sym.Choose("value", 2) == 1))
}

// the predicates of truth
func C26_BoolTexts() {
	s := []string{"true", "false", "True", "TRUE", "t", "f", "yes", "no", "on", "off", "01", "1.0", "-1", " true", "true ", "10", "00", "nil", "null", "NULL"}[sym.Choose("text", 20)]
	spelledBool(s, held(s, kBool, sym.Choose("value", 2) == 1))
}

// lists of texts
func C26_List() {
	acc := []int{kInt8, kInt64, kUInt16, kUInt64}[sym.Choose("accessor", 4)]
	a := json.NewArray()
	s := sym.StrIn("s", 1+sym.Choose("n", 3), "-0129 ")
	a.AppendStringValue(s)
	t := "7"
	a.AppendString(&t)
	got, failed := readList(a, acc, sym.Choose("value", 2) == 1)
	r := &result{failed: failed, n: &node{kind: "nil"}}
	if !failed {
		sym.Assert(len(got) == 2 && got[1].u == 7, "every text is read")
		r.n = got[0]
	}
	spelled(s, acc, r, false)
}

// texts of parsed documents, escapes and all
func C26_Parsed() {
	s := []string{"12", "-128", "128", "255", "256", "65536", "-9223372036854775808", "9223372036854775808", "18446744073709551615", "18446744073709551616", "1e3", "1.0", "0x10", "1_000", "١"}[sym.Choose("text", 15)]
	m := parse(`{"a":"` + s + `"}`)
	acc := kInt + sym.Choose("accessor", 10)
	value := sym.Choose("value", 2) == 1
	spelled(s, acc, readKey(m, "a", acc, value), value)
}

// long texts of digits with one strange byte, by value and by pointer
func C26_Long() {
	acc := []int{kInt64, kUInt64, kInt8, kUInt16, kInt, kUInt}[sym.Choose("accessor", sym.Bound("types of numbers read from long texts", 4, 6))]
	n := []int{9, 15, 18, 19, 20, 21, 24, 33}[sym.Choose("n", sym.Bound("lengths of long texts, of 9 to 33", 6, 8))]
	at := []int{0, 1, 2, n / 2, n - 2, n - 1}[sym.Choose("at", 6)]
	fill := strings.Repeat([]string{"0", "1", "9"}[sym.Choose("fill", 3)], n)
	if fill[0] == '0' {
		fill = fill[:n-1] + "7"
	}
	b := sym.Str("b", 1)
	s := fill[:at] + b + fill[at+1:]
	v := json.NewValue(s)
	if sym.Choose("ptr", 2) == 1 {
		v = json.NewValue(&s)
	}
	value := sym.Choose("value", 2) == 1
	spelled(s, acc, read(v, acc, value), value)
}

// two strange bytes at the front of a long text
func C26_Fronts() {
	acc := []int{kInt64, kUInt64, kInt32, kUInt8}[sym.Choose("accessor", 4)]
	n := []int{3, 17, 18, 19, 20, 30}[sym.Choose("n", 6)]
	s := sym.StrIn("front", 2, "-+ 0x1_.e") + strings.Repeat("0", n) + sym.StrIn("d", 1, digits)
	v := json.NewValue(s)
	if sym.Choose("ptr", 2) == 1 {
		v = json.NewValue(&s)
	}
	value := sym.Choose("value", 2) == 1
	spelled(s, acc, read(v, acc, value), value)
}

// values that hold one text after the other
func C26_Changing() {
	n := 1 + sym.Choose("n", 2)
	x, y := &scalar{kind: kString, s: sym.StrIn("x", n, "-19a")}, &scalar{kind: kString, s: sym.StrIn("y", 1+sym.Choose("m", 2), "-19a")}
	acc := []int{kInt8, kUInt8, kInt64, kUInt64}[sym.Choose("accessor", 4)]
	forms := 0
	changing(x, y, func(v *json.Value, x *scalar) {
		forms++
		spelled(x.s, acc, read(v, acc, forms%2 == 1), forms%2 == 1)
	})
}
