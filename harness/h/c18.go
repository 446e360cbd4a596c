package h

import (
	"errors"
	"fmt"
	"strconv"
	"strings"

	json "github.com/matehaxor03/holistic_json/json"

	"verifharness/sym"
)

// predicates of a value, by name
func predicates(v *json.Value) map[string]bool {
	return map[string]bool{
		"nil": v.IsNil(), "bool": v.IsBool(), "true": v.IsBoolTrue(), "false": v.IsBoolFalse(), "string": v.IsString(), "empty": v.IsEmptyString(),
		"integer": v.IsInteger(), "int": v.IsInt(), "int8": v.IsInt8(), "int16": v.IsInt16(), "int32": v.IsInt32(), "int64": v.IsInt64(),
		"uint": v.IsUInt(), "uint8": v.IsUInt8(), "uint16": v.IsUInt16(), "uint32": v.IsUInt32(), "uint64": v.IsUInt64(),
		"number": v.IsNumber(), "float": v.IsFloat(), "float32": v.IsFloat32(), "float64": v.IsFloat64(), "map": v.IsMap(), "array": v.IsArray(),
	}
}

// the same of a member of a map, as far as the map has them
func keyPredicates(m *json.Map, k string) map[string]bool {
	return map[string]bool{
		"nil": m.IsNull(k), "bool": m.IsBool(k), "true": m.IsBoolTrue(k), "false": m.IsBoolFalse(k), "string": m.IsString(k), "empty": m.IsEmptyString(k),
		"integer": m.IsInteger(k), "int": m.IsInt(k), "int8": m.IsInt8(k), "int16": m.IsInt16(k), "int32": m.IsInt32(k), "int64": m.IsInt64(k),
		"uint": m.IsUInt(k), "uint8": m.IsUInt8(k), "uint16": m.IsUInt16(k), "uint32": m.IsUInt32(k), "uint64": m.IsUInt64(k),
		"float": m.IsFloat(k), "float32": m.IsFloat32(k), "float64": m.IsFloat64(k), "map": m.IsMap(k), "array": m.IsArray(k),
	}
}

var predicateNames = []string{"nil", "bool", "true", "false", "string", "empty", "integer", "int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64", "number", "float", "float32", "float64", "map", "array"}

// holds tells what a predicate has to say of what is stored.
func holds(p string, n *node) bool {
	isInt, isUint := signed(n.kind), unsigned(n.kind)
	isFloat := n.kind == "float32" || n.kind == "float64"
	switch p {
	case "true":
		return n.kind == "bool" && n.u == 1
	case "false":
		return n.kind == "bool" && n.u == 0
	case "empty":
		return n.kind == "string" && n.s == ""
	case "int":
		return isInt
	case "uint":
		return isUint
	case "integer":
		return isInt || isUint
	case "float":
		return isFloat
	case "number":
		return isInt || isUint || isFloat
	}
	return n.kind == p
}

// described checks every predicate of a value.
func described(v *json.Value, n *node) {
	got := predicates(v)
	for _, p := range predicateNames {
		sym.Assert(got[p] == holds(p, n), "predicate "+p+" of a value")
	}
}

func describedKey(m *json.Map, k string, n *node) {
	got := keyPredicates(m, k)
	for _, p := range predicateNames {
		if p == "number" {
			continue
		}
		sym.Assert(got[p] == holds(p, n), "predicate "+p+" of a member")
	}
}

// everywhere describes a stored object as a value, a member and an element.
func everywhere(o interface{}, n *node) {
	v := json.NewValue(o)
	described(v, n)
	m := json.NewMap()
	m.SetObjectForMap("a", o)
	describedKey(m, "a", n)
	described(m.GetValue("a"), n)
	a := json.NewArray()
	a.AppendNil()
	a.AppendValue(json.NewValue(o))
	described((*a.GetValues())[1], n)
	want := "nil"
	if n.kind != "nil" {
		want = fmt.Sprintf("%T", o)
	}
	sym.Assert(v.GetType() == want && m.GetType("a") == want, "GetType names the type of what is stored")
}

// scalars as objects
func C18_Objects() {
	x := anyStored(sym.Choose("len", sym.Bound("bytes of a string", 3, 4)))
	everywhere(x.object(sym.Choose("ptr", 2) == 1), x.tree())
}

// scalars stored with the typed setters
func C18_Setters() {
	x := anyStored(sym.Choose("len", 2))
	ptr := sym.Choose("ptr", 2) == 1
	m := json.NewMap()
	x.setIn(m, "a", ptr)
	describedKey(m, "a", x.tree())
	described(m.GetValue("a"), x.tree())
	a := json.NewArray()
	x.appendTo(a, ptr)
	described((*a.GetValues())[0], x.tree())
	v := json.NewValue("x")
	x.setOf(v, ptr)
	described(v, x.tree())
}

// objects, arrays, times, errors and the rest
func C18_Others() {
	k := sym.Choose("kind", others)
	o := otherObject(k)
	kind, _, _ := rawObj(o)
	if nothing(k) {
		kind = "nil"
	}
	everywhere(o, &node{kind: kind})
}

// containers stored with the typed setters
func C18_Containers() {
	in := json.NewMap()
	arr := json.NewArray()
	if sym.Choose("filled", 2) == 1 {
		in.SetIntValue("a", 1)
		arr.AppendNil()
	}
	m := json.NewMap()
	a := json.NewArray()
	v := json.NewValue(1)
	n := &node{kind: "map"}
	switch sym.Choose("as", 6) {
	case 0:
		m.SetMap("a", in)
		a.AppendMap(in)
		v.SetMap(in)
	case 1:
		m.SetMapValue("a", *in)
		a.AppendMapValue(*in)
		v.SetMapValue(*in)
	case 2:
		n.kind = "array"
		m.SetArray("a", arr)
		a.AppendArray(arr)
		v.SetArray(arr)
	case 3:
		n.kind = "array"
		m.SetArrayValue("a", *arr)
		a.AppendArrayValue(*arr)
		v.SetArrayValue(*arr)
	case 4:
		n.kind = "nil"
		m.SetMap("a", nil)
		a.AppendMap(nil)
		v.SetMap(nil)
	case 5:
		n.kind = "nil"
		m.SetArray("a", nil)
		a.AppendArray(nil)
		v.SetArray(nil)
	}
	describedKey(m, "a", n)
	described(m.GetValue("a"), n)
	described((*a.GetValues())[0], n)
	described(v, n)
}

// words that look like something else
func C18_Words() {
	words := []string{"nil", "null", "<nil>", "map[]", "true", "false", "0", "1", "NaN", "{}", "[]", "", " ", "%!s(*string=<nil>)", "%!v(PANIC=", "&{}", "[]error", "invalid", "0x0", "string", "map"}
	s := words[sym.Choose("word", len(words))]
	o := interface{}(s)
	if sym.Choose("ptr", 2) == 1 {
		o = &s
	}
	everywhere(o, &node{kind: "string", s: s})
}

// the same with a byte put in or replaced
func C18_Near() {
	words := []string{"nil", "<nil>", "map[]", "null"}
	w := words[sym.Choose("word", len(words))]
	at := sym.Choose("at", len(w)+1)
	cut := sym.Choose("cut", 2)
	if at+cut > len(w) {
		cut = 0
	}
	s := w[:at] + sym.Str("c", 1) + w[at+cut:]
	o := interface{}(s)
	if sym.Choose("ptr", 2) == 1 {
		o = &s
	}
	described(json.NewValue(o), &node{kind: "string", s: s})
}

// an absent key
func C18_Absent() {
	m := json.NewMap()
	x := anyScalar(sym.Choose("stored", kinds), "x", 1)
	x.setIn(m, "a", false)
	k := sym.Str("k", sym.Choose("n", 3))
	sym.Assume(k != "a")
	got := keyPredicates(m, k)
	for _, p := range predicateNames {
		if p != "nil" && p != "number" {
			sym.Assert(!got[p], "predicate "+p+" of an absent key")
		}
	}
	sym.Assert(m.IsNull(k), "an absent key is null")
	sym.Assert(m.GetType(k) == "nil", "GetType of an absent key")
}

// values replaced, again and again
func C18_Replaced() {
	v := json.NewValue("x")
	m := json.NewMap()
	n := 1 + sym.Choose("n", sym.Bound("replacements", 2, 3))
	var x *scalar
	for i := 0; i < n; i++ {
		x = anyScalar([]int{kNil, kBool, kString, kInt8, kUInt64, kFloat32}[sym.Choose("kind", 6)], "x", i%2)
		x.setOf(v, i%2 == 1)
		x.setIn(m, "a", i%2 == 0)
	}
	described(v, x.tree())
	describedKey(m, "a", x.tree())
}

// equality with a text
func C18_Equal() {
	s, t := sym.Str("s", sym.Choose("n", sym.Bound("bytes of a string", 3, 4))), sym.Str("t", sym.Choose("m", sym.Bound("bytes of another", 3, 4)))
	v := json.NewValue(s)
	if sym.Choose("ptr", 2) == 1 {
		v = json.NewValue(&s)
	}
	sym.Assert(v.IsValueEqualToStringValue(t) == (s == t), "a text is equal to itself only")
	sym.Assert(v.IsValueEqualToString(&t) == (s == t), "a text is equal to itself only, through a pointer")
	sym.Assert(!v.IsValueEqualToString(nil), "a text is not null")
	z := json.NewValue(nil)
	sym.Assert(!z.IsValueEqualToStringValue(t) && !z.IsValueEqualToString(&t), "null is no text")
	sym.Assert(z.IsValueEqualToString(nil), "null is null")
}

// parsed values
func C18_Parsed() {
	lit := []string{"1", "-1", "255", "256", "65535", "65536", "4294967296", "-129", "-32769", "-2147483649", "1.5", "1e300", "true", "false", `"x"`, `""`, "{}", "[]", "null", `"nil"`, `{"a":1}`, `[1]`}[sym.Choose("literal", 22)]
	t := `{"a":` + lit + `,"b":[` + lit + `]}`
	m := parse(t)
	n, _ := refParse(t)
	x := n.kids[0]
	if x.kind == "number" {
		k, u, _ := numberOf(x.s)
		x = &node{kind: k, u: u}
	}
	describedKey(m, "a", x)
	arr, _ := m.GetArray("b")
	described((*arr.GetValues())[0], x)
}

// predicates of large containers and long texts
func C18_Large() {
	n := []int{40, 130, 300, 600, 1100}[sym.Choose("n", 5)]
	var o interface{}
	kind, str := "", ""
	switch sym.Choose("what", 8) {
	case 0, 1:
		m := json.NewMap()
		for i := 0; i < n; i++ {
			m.SetIntValue("k"+strconv.Itoa(i), i)
		}
		o, kind = m, "map"
		if sym.Choose("emptied", 2) == 1 {
			for i := 0; i < n; i++ {
				m.RemoveKey("k" + strconv.Itoa(n-1-i))
			}
		}
	case 2, 3:
		a := json.NewArray()
		for i := 0; i < n; i++ {
			a.AppendIntValue(i)
		}
		o, kind = a, "array"
		if sym.Choose("emptied", 2) == 1 {
			for i := 0; i < n; i++ {
				a.RemoveValueAtIndex(n - 1 - i)
			}
		}
	case 4:
		str = strings.Repeat("1", n)
		o, kind = str, "string"
	case 5:
		str = strings.Repeat("<nil>", n)
		o, kind = &str, "string"
	case 6:
		m := json.NewMap()
		for i := 0; i < n; i++ {
			in := json.NewMap()
			in.SetMap("m", m)
			m = in
		}
		o, kind = m, "map"
	case 7:
		es := make([]error, n)
		for i := range es {
			es[i] = errors.New("e")
		}
		o = es
		kind, _, _ = rawObj(o)
	}
	everywhere(o, &node{kind: kind, s: str})
}

// values that hold one thing after the other
func C18_Changing() {
	kind := sym.Choose("kind", kinds)
	other := sym.Choose("other", kinds)
	changing(plainScalar(kind, 0), plainScalar(other, 1), func(v *json.Value, x *scalar) { described(v, x.tree()) })
}
