// Package h holds the harnesses: one function per part of a property, named <property>_<part>.
// Each is executed symbolically by the engine and natively when a counterexample is replayed.
package h

import (
	"math"
	"strings"

	json "github.com/matehaxor03/holistic_json/json"

	"verifharness/sym"
)

// node is a plain tree: what a document holds, read once, or what a text denotes.
type node struct {
	kind string // map array nil bool string int int8 .. uint64 float32 float64 number(literal in s) other
	u    uint64 // integers (sign extended), booleans, float bits
	s    string
	keys []string
	kids []*node
}

// rawObj reads a stored object without any accessor; pointers are followed.
func rawObj(o interface{}) (string, uint64, string) {
	switch x := o.(type) {
	case nil:
		return "nil", 0, ""
	case bool:
		if x {
			return "bool", 1, ""
		}
		return "bool", 0, ""
	case string:
		return "string", 0, x
	case int:
		return "int", uint64(x), ""
	case int8:
		return "int8", uint64(x), ""
	case int16:
		return "int16", uint64(x), ""
	case int32:
		return "int32", uint64(x), ""
	case int64:
		return "int64", uint64(x), ""
	case uint:
		return "uint", uint64(x), ""
	case uint8:
		return "uint8", uint64(x), ""
	case uint16:
		return "uint16", uint64(x), ""
	case uint32:
		return "uint32", uint64(x), ""
	case uint64:
		return "uint64", x, ""
	case float32:
		return "float32", uint64(math.Float32bits(x)), ""
	case float64:
		return "float64", math.Float64bits(x), ""
	case *bool:
		if x == nil {
			return "nil", 0, ""
		}
		return rawObj(*x)
	case *string:
		if x == nil {
			return "nil", 0, ""
		}
		return rawObj(*x)
	case *int:
		if x == nil {
			return "nil", 0, ""
		}
		return rawObj(*x)
	case *int8:
		if x == nil {
			return "nil", 0, ""
		}
		return rawObj(*x)
	case *int16:
		if x == nil {
			return "nil", 0, ""
		}
		return rawObj(*x)
	case *int32:
		if x == nil {
			return "nil", 0, ""
		}
		return rawObj(*x)
	case *int64:
		if x == nil {
			return "nil", 0, ""
		}
		return rawObj(*x)
	case *uint:
		if x == nil {
			return "nil", 0, ""
		}
		return rawObj(*x)
	case *uint8:
		if x == nil {
			return "nil", 0, ""
		}
		return rawObj(*x)
	case *uint16:
		if x == nil {
			return "nil", 0, ""
		}
		return rawObj(*x)
	case *uint32:
		if x == nil {
			return "nil", 0, ""
		}
		return rawObj(*x)
	case *uint64:
		if x == nil {
			return "nil", 0, ""
		}
		return rawObj(*x)
	case *float32:
		if x == nil {
			return "nil", 0, ""
		}
		return rawObj(*x)
	case *float64:
		if x == nil {
			return "nil", 0, ""
		}
		return rawObj(*x)
	case json.Map:
		return "map", 0, ""
	case *json.Map:
		if x == nil {
			return "nil", 0, ""
		}
		return "map", 0, ""
	case json.Array:
		return "array", 0, ""
	case *json.Array:
		if x == nil {
			return "nil", 0, ""
		}
		return "array", 0, ""
	}
	return "other", 0, ""
}

func raw(v *json.Value) (string, uint64, string) {
	if v == nil {
		return "nil", 0, ""
	}
	return rawObj(v.GetObject())
}

// snapValue copies what a value holds into a tree.
func snapValue(v *json.Value) *node {
	k, u, s := raw(v)
	switch k {
	case "map":
		m, errs := v.GetMap()
		sym.Assert(m != nil && len(errs) == 0, "an object can be read as an object")
		return snapMap(m)
	case "array":
		a, errs := v.GetArray()
		sym.Assert(a != nil && len(errs) == 0, "an array can be read as an array")
		return snapArray(a)
	}
	return &node{kind: k, u: u, s: s}
}

func snapMap(m *json.Map) *node {
	n := &node{kind: "map"}
	for _, k := range m.GetKeys() {
		n.keys = append(n.keys, k)
		n.kids = append(n.kids, snapValue(m.GetValue(k)))
	}
	return n
}

func snapArray(a *json.Array) *node {
	n := &node{kind: "array"}
	vs := *a.GetValues()
	sym.Assert(a.Len() == len(vs), "Len is the number of elements")
	for _, v := range vs {
		n.kids = append(n.kids, snapValue(v))
	}
	return n
}

// same asserts that two trees are equal.
func same(a, b *node, what string) {
	sym.Assert(a.kind == b.kind, what+": kind differs")
	sym.Assert(a.u == b.u, what+": number differs")
	sym.Assert(a.s == b.s, what+": text differs")
	sym.Assert(len(a.keys) == len(b.keys), what+": number of keys differs")
	for i := range a.keys {
		sym.Assert(a.keys[i] == b.keys[i], what+": keys differ")
	}
	sym.Assert(len(a.kids) == len(b.kids), what+": number of elements differs")
	for i := range a.kids {
		same(a.kids[i], b.kids[i], what)
	}
}

func signed(kind string) bool   { return strings.HasPrefix(kind, "int") }
func unsigned(kind string) bool { return strings.HasPrefix(kind, "uint") }

// widthOf is the narrowest type of an integer.
func widthOf(neg bool, u uint64) string {
	if neg {
		i := int64(u)
		if i >= -128 {
			return "int8"
		}
		if i >= -32768 {
			return "int16"
		}
		if i >= -2147483648 {
			return "int32"
		}
		return "int64"
	}
	if u <= 255 {
		return "uint8"
	}
	if u <= 65535 {
		return "uint16"
	}
	if u <= 4294967295 {
		return "uint32"
	}
	return "uint64"
}

// text serialises a map and asserts that it works.
func text(m *json.Map) string {
	var b strings.Builder
	errs := m.ToJSONString(&b)
	sym.Assert(len(errs) == 0, "the document can be serialised")
	return b.String()
}

// parse parses a text and asserts that it works.
func parse(t string) *json.Map {
	m, errs := json.Parse(t)
	sym.Assert(m != nil && len(errs) == 0, "the text can be parsed")
	return m
}

// deep gives what opens and what closes n containers: arrays, objects, or both in turn.
func deep(n, pattern int) (string, string) {
	var t, e strings.Builder
	for i := 0; i < n; i++ {
		if pattern == 1 || pattern == 2 && i%2 == 0 {
			t.WriteString(`{"k":`)
		} else {
			t.WriteString("[")
		}
		if j := n - 1 - i; pattern == 1 || pattern == 2 && j%2 == 0 {
			e.WriteString("}")
		} else {
			e.WriteString("]")
		}
	}
	return t.String(), e.String()
}
