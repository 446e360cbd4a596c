package h

import (
	"errors"
	"fmt"
	"net/url"
	"time"

	json "github.com/matehaxor03/holistic_json/json"

	"verifharness/sym"
)

// things a value can hold besides scalars
const (
	oMap = iota
	oMapValue
	oArray
	oArrayValue
	oTime
	oTimeValue
	oErrors
	oErrorsValue
	oFunc
	oForeign
	oNilMap
	oNilArray
	oNilString
	oNilTime
	oNilErrors
	oEmptyMap
	oEmptyArray
	oStringList
	oStringLists
	oNoErrors
	oNilAmongErrors
	oOneError
	oErrorPointer
	oWrapped
	oNilErrorPointer
	oNilFunc
	oNoError
	oNilWrapped
	// and things no document has
	oForeigns
	others = oForeigns + foreigns
	// values that hold a value
	oNested      = others
	oNestedValue = others + 1
	oNestedNil   = others + 2
	everything   = others + 3
)

// nothing tells which of them are nil
func nothing(kind int) bool {
	return kind == oNilTime || kind == oNilErrors || kind == oNilFunc || kind == oNoError || kind == oNilErrorPointer || kind == oNilWrapped
}

const foreigns = 20

type (
	ownText   string
	ownNumber int
	ownMap    json.Map
	ownArray  json.Array
)

// foreign is something no document has: pointers to pointers, lists, named types.
func foreign(kind int) interface{} {
	m, a, n, s, v := json.NewMap(), json.NewArray(), 7, "7", json.NewValue(7)
	pn, ps := &n, &s
	switch kind {
	case 0:
		return &m
	case 1:
		return &a
	case 2:
		return &pn
	case 3:
		return &ps
	case 4:
		return &v
	case 5:
		return []json.Map{*m}
	case 6:
		return []*json.Map{m}
	case 7:
		return []*json.Value{v}
	case 8:
		return map[string]interface{}{"a": 1}
	case 9:
		return []interface{}{1, "x"}
	case 10:
		return &[]interface{}{1}
	case 11:
		return ownText("7")
	case 12:
		return ownNumber(7)
	case 13:
		return [2]int{1, 2}
	case 14:
		return []byte("7")
	case 15:
		return uintptr(7)
	case 16:
		return complex(7, 0)
	case 17:
		return (*ownMap)(m)
	case 18:
		return ownArray(*a)
	case 19:
		return []bool{true}
	}
	return nil
}

func someFunc(string) []error { return nil }

func otherObject(kind int) interface{} {
	switch kind {
	case oMap, oMapValue:
		m := json.NewMap()
		m.SetIntValue("a", 1)
		m.SetNil("n")
		if kind == oMapValue {
			return *m
		}
		return m
	case oArray, oArrayValue:
		a := json.NewArray()
		a.AppendIntValue(1)
		a.AppendStringValue("x")
		a.AppendNil()
		if kind == oArrayValue {
			return *a
		}
		return a
	case oTime:
		t := time.Unix(1000, 5).UTC()
		return &t
	case oTimeValue:
		return time.Unix(1000, 5).UTC()
	case oErrors:
		e := []error{errors.New("one"), errors.New("two")}
		return &e
	case oErrorsValue:
		return []error{errors.New("one")}
	case oFunc:
		f := someFunc
		return &f
	case oForeign:
		return struct{ a, b int }{1, 2}
	case oNilMap:
		var m *json.Map
		return m
	case oNilArray:
		var a *json.Array
		return a
	case oNilString:
		var s *string
		return s
	case oNilTime:
		var t *time.Time
		return t
	case oNilErrors:
		var e *[]error
		return e
	case oEmptyMap:
		return json.NewMap()
	case oEmptyArray:
		return json.NewArray()
	case oStringList:
		return []string{"x"}
	case oStringLists:
		return &[]string{"x", ""}
	case oNoErrors:
		return []error{}
	case oNilAmongErrors:
		return []error{nil, errors.New("one"), nil}
	case oOneError:
		return errors.New("one")
	case oErrorPointer:
		e := errors.New("one")
		return &e
	case oWrapped:
		return fmt.Errorf("one %w", errors.New("two"))
	case oNilErrorPointer:
		var e *error
		return e
	case oNilFunc:
		var f *func(string) []error
		return f
	case oNoError:
		var e error
		return &e
	case oNilWrapped:
		var e *url.Error
		return e
	case oNested:
		return json.NewValue(1)
	case oNestedValue:
		return json.NewValueValue("x")
	case oNestedNil:
		return json.NewValue(nil)
	}
	return foreign(kind - oForeigns)
}

// wrong asserts that no typed scalar accessor of another kind gives a value.
func wrong(v *json.Value, m *json.Map, k string, n *node) {
	isInt := signed(n.kind) || unsigned(n.kind)
	isFloat := n.kind == "float32" || n.kind == "float64"
	for acc := kBool; acc < kinds; acc++ {
		name := kindName[acc]
		if n.kind == "nil" || n.kind == "string" {
			continue
		}
		if name == n.kind || isInt && acc >= kInt || isFloat && acc >= kFloat32 {
			continue
		}
		for form := 0; form < 2; form++ {
			r := read(v, acc, form == 1)
			sym.Assert(r.failed, "reading a value as the wrong kind is an error")
			sym.Assert(form == 1 || r.n.kind == "nil", "and gives no value")
			r = readKey(m, k, acc, form == 1)
			sym.Assert(r.failed, "reading a member as the wrong kind is an error")
			sym.Assert(form == 1 || r.n.kind == "nil", "and gives no value")
		}
	}
	if n.kind == "nil" {
		return
	}
	if n.kind != "map" {
		p, errs := v.GetMap()
		_, verrs := v.GetMapValue()
		sym.Assert(p == nil && len(errs) > 0 && len(verrs) > 0, "reading something else as an object is an error")
		p, errs = m.GetMap(k)
		_, verrs = m.GetMapValue(k)
		sym.Assert(p == nil && len(errs) > 0 && len(verrs) > 0, "reading another member as an object is an error")
	}
	if n.kind != "array" {
		p, errs := v.GetArray()
		_, verrs := v.GetArrayValue()
		sym.Assert(p == nil && len(errs) > 0 && len(verrs) > 0, "reading something else as an array is an error")
		p, errs = m.GetArray(k)
		_, verrs = m.GetArrayValue(k)
		sym.Assert(p == nil && len(errs) > 0 && len(verrs) > 0, "reading another member as an array is an error")
		for acc := kBool; acc < kinds; acc++ {
			r, failed, _, _ := readListKey(m, k, acc, false)
			sym.Assert(failed && len(r) == 0, "reading another member as a list is an error")
		}
	}
	if n.kind != "string" {
		_, errs := v.GetRunes()
		sym.Assert(len(errs) > 0, "reading something else as characters is an error")
		_, errs = m.GetRunes(k)
		sym.Assert(len(errs) > 0, "reading another member as characters is an error")
	}
	if n.kind != "other" && n.kind != "string" {
		t, errs := v.GetTime()
		sym.Assert(t == nil && len(errs) > 0, "reading something else as a time is an error")
		_, errs = v.GetTimeValue()
		sym.Assert(len(errs) > 0, "reading something else as a time value is an error")
		t, errs = m.GetTime(k)
		sym.Assert(t == nil && len(errs) > 0, "reading another member as a time is an error")
	}
	if n.kind != "other" {
		f, errs := v.GetFunc()
		sym.Assert(f == nil && len(errs) > 0, "reading something else as a function is an error")
		f, errs = m.GetFunc(k)
		sym.Assert(f == nil && len(errs) > 0, "reading another member as a function is an error")
	}
	if n.kind != "other" && n.kind != "array" {
		_, errs := v.GetErrors()
		sym.Assert(len(errs) > 0, "reading something else as errors is an error")
		_, errs = m.GetErrors(k)
		sym.Assert(len(errs) > 0, "reading another member as errors is an error")
	}
}

// scalars read as anything else
func C17_Scalars() {
	x := anyStored(1)
	m := json.NewMap()
	ptr := sym.Choose("ptr", 2) == 1
	x.setIn(m, "a", ptr)
	wrong(json.NewValue(x.object(ptr)), m, "a", x.tree())
}

// strings: only as text, or as a number or boolean they spell
func C17_Strings() {
	s := sym.Str("s", sym.Choose("n", sym.Bound("bytes of a string", 2, 3)+1))
	m := json.NewMap()
	if sym.Choose("ptr", 2) == 1 {
		m.SetObjectForMap("a", &s)
	} else {
		m.SetObjectForMap("a", s)
	}
	wrong(m.GetValue("a"), m, "a", &node{kind: "string"})
	for i := 0; i < len(s); i++ {
		sym.Assume(!digit(s[i]) && s[i] < 0x80)
	}
	v := m.GetValue("a")
	for acc := kInt; acc <= kUInt64; acc++ {
		sym.Assert(read(v, acc, false).failed && read(v, acc, true).failed, "a text without digits is no integer")
		sym.Assert(readKey(m, "a", acc, false).failed && readKey(m, "a", acc, true).failed, "a member without digits is no integer")
	}
	sym.Assert(read(v, kBool, false).failed && read(v, kBool, true).failed, "a text that is not true or false is no boolean")
}

// objects, arrays, times, errors, functions and foreign objects read as anything else
func C17_Others() {
	k := sym.Choose("kind", others)
	o := otherObject(k)
	m := json.NewMap()
	m.SetObjectForMap("a", o)
	kind, _, _ := rawObj(o)
	if nothing(k) {
		kind = "nil"
	}
	wrong(json.NewValue(o), m, "a", &node{kind: kind})
	if k == oForeign || k >= oForeigns {
		v := json.NewValue(o)
		_, e1 := v.GetTime()
		_, e2 := v.GetErrors()
		_, e3 := v.GetFunc()
		sym.Assert(len(e1) > 0 && len(e2) > 0 && len(e3) > 0, "a foreign object is none of the kinds")
	}
}

// every reader a value declares can be called, whatever is stored
func C17_CallValue() {
	var v *json.Value
	s := sym.Choose("stored", kinds+everything)
	if s < kinds {
		v = json.NewValue(anyScalar(s, "x", sym.Choose("len", 2)).object(sym.Choose("ptr", 2) == 1))
	} else {
		v = json.NewValue(otherObject(s - kinds))
	}
	readValue(v, sym.Choose("reader", readersOfValue), "x", []int{0, 9, -1}[sym.Choose("n", sym.Bound("decimal places", 1, 3))])
}

// every reader a map declares can be called, whatever is stored, with any key
func C17_CallMap() {
	m := json.NewMap()
	s := sym.Choose("stored", kinds+everything)
	if s < kinds {
		anyScalar(s, "x", 1).setIn(m, "a", sym.Choose("ptr", 2) == 1)
	} else {
		m.SetObjectForMap("a", otherObject(s-kinds))
	}
	k := []string{"a", "b", ""}[sym.Choose("key", sym.Bound("keys", 2, 3))]
	readMap(m, sym.Choose("reader", readersOfMap), k, 0)
}

// every reader an array declares can be called, whatever is stored, with any index
func C17_CallArray() {
	a := json.NewArray()
	s := sym.Choose("stored", kinds+everything+2)
	switch {
	case s < kinds:
		anyScalar(s, "x", 1).appendTo(a, sym.Choose("ptr", 2) == 1)
	case s < kinds+everything:
		a.AppendValue(json.NewValue(otherObject(s - kinds)))
	case s == kinds+everything:
		a.AppendValue(nil)
	}
	readArray(a, sym.Choose("reader", readersOfArray), "x", []int{0, 1, -1, 5}[sym.Choose("n", 4)])
}

// any index
func C17_Index() {
	a := json.NewArray()
	n := sym.Choose("n", 6)
	for i := 0; i < n; i++ {
		a.AppendIntValue(i)
	}
	i := sym.Int("i")
	out := i < 0 || i >= n
	switch sym.Choose("reader", 4) {
	case 2:
		done, err := a.SetValueAtIndex(i, json.NewValue("x"))
		sym.Assert(!sym.Fork(out) || !done && err != nil, "an index out of range is an error")
	case 3:
		done, err := a.RemoveValueAtIndex(i)
		sym.Assert(!sym.Fork(out) || !done && err != nil, "an index out of range is an error")
	case 0:
		_, errs := a.GetStringValue(i)
		sym.Assert(len(errs) > 0, "an index out of range, or another kind, is an error")
	case 1:
		_, errs := a.GetMap(i)
		sym.Assert(len(errs) > 0, "an index out of range, or another kind, is an error")
	}
}

// any index of texts
func C17_IndexText() {
	a := json.NewArray()
	n := sym.Choose("n", 6)
	for i := 0; i < n; i++ {
		a.AppendStringValue("abcdef"[i : i+1])
	}
	i := sym.Int("i")
	s, errs := a.GetStringValue(i)
	if i < 0 || i >= n {
		sym.Assert(len(errs) > 0, "an index out of range is an error")
		return
	}
	sym.Assert(len(errs) == 0 && s == "abcdef"[i:i+1], "an element is read by its index")
}

// setting anything to a nil pointer of any kind leaves null, whatever reads it
func C17_NilPointers() {
	v := json.NewValue("x")
	i := sym.Choose("setter", nilsOfValue+1)
	if i == nilsOfValue {
		v.SetObject(nil)
	} else {
		setNil(v, i)
	}
	sym.Assert(v.IsNil(), "a nil pointer is null")
	readValue(v, sym.Choose("reader", readersOfValue), "x", 0)
}

func C17_NilMembers() {
	m := json.NewMap()
	m.SetStringValue("b", "x")
	if sym.Choose("before", 2) == 1 {
		m.SetStringValue("a", "x")
	}
	setNilIn(m, "a", sym.Choose("setter", nilsOfMap))
	sym.Assert(m.IsNull("a") && m.HasKey("a"), "a nil pointer is null")
	readMap(m, sym.Choose("reader", readersOfMap), "a", 0)
}

func C17_NilElements() {
	a := json.NewArray()
	if sym.Choose("before", 2) == 1 {
		a.AppendStringValue("x")
	}
	appendNil(a, sym.Choose("setter", nilsOfArray))
	readArray(a, sym.Choose("reader", readersOfArray), "x", a.Len()-1)
}

// maps and arrays that lost everything
func C17_Emptied() {
	k := []string{"", "a", "ab", "abcdefghijklmnopqrst", "é", "0"}[sym.Choose("key", 6)]
	m := json.NewMap()
	m.SetStringValue(k, "x")
	n := sym.Choose("more", 3)
	for i := 0; i < n; i++ {
		m.SetIntValue("k"+string(rune('a'+i)), i)
	}
	switch sym.Choose("order", 2) {
	case 0:
		for _, key := range append([]string{}, m.GetKeys()...) {
			m.RemoveKey(key)
		}
	case 1:
		keys := append([]string{}, m.GetKeys()...)
		for i := len(keys) - 1; i >= 0; i-- {
			m.RemoveKey(keys[i])
		}
	}
	wrongly := func() {
		for acc := kBool; acc < kinds; acc++ {
			r := readKey(m, k, acc, false)
			sym.Assert(!r.failed && r.n.kind == "nil", "nothing is read where nothing is")
			sym.Assert(readKey(m, k, acc, true).failed, "nothing is read where nothing is")
		}
	}
	sym.Assert(len(m.GetKeys()) == 0 && !m.HasKey(k) && m.GetValue(k) == nil && text(m) == "{}", "nothing is left")
	wrongly()
	done, err := m.RemoveKey(k)
	sym.Assert(!done && err != nil, "removing nothing is an error")
	a := m.Values()
	sym.Assert(a.Len() == 0, "nothing is left")
	c, errs := m.Clone()
	sym.Assert(c != nil && len(errs) == 0 && len(c.GetKeys()) == 0, "an empty map can be cloned")
	if sym.Choose("key again", 2) == 1 {
		k = []string{"", "b", "cd", "abcdefghijklmnopqrst"}[sym.Choose("other", 4)]
	}
	m.SetNil(k)
	wrongly()
	m.SetStringValue(k, "y")
	s, errs := m.GetStringValue(k)
	sym.Assert(len(errs) == 0 && s == "y" && len(m.GetKeys()) == 1, "an emptied map can be filled again")
	_, errs = m.GetMap(k)
	sym.Assert(len(errs) > 0, "a text is no object")
}
