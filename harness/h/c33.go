package h

import (
	"errors"
	"fmt"
	"time"

	json "github.com/matehaxor03/holistic_json/json"

	"verifharness/sym"
)

// store sets a value to something of any sort, and returns what it has to hold: the tree, and the
// name of its type if it is not null.
const stores = 2*kinds + 15 + nilsOfValue

// What is stored differs from one nth to the next.
func store(v *json.Value, how, nth int) (*node, string) {
	in, arr := json.NewMap(), json.NewArray()
	in.SetIntValue("x", nth)
	arr.AppendIntValue(nth)
	inN := &node{kind: "map", keys: []string{"x"}, kids: []*node{{kind: "int", u: uint64(nth)}}}
	arrN := &node{kind: "array", kids: []*node{{kind: "int", u: uint64(nth)}}}
	now := time.Unix(int64(nth), 0).UTC()
	err := errors.New("x" + []string{"a", "b", "c", "d", "e"}[nth%5])
	f := func(s string) []error { return []error{err} }
	list := []error{err}
	if nth%2 == 1 {
		list = append(list, nil, err)
	}
	errorsN := &node{kind: "other", s: "errors", kids: []*node{{s: err.Error(), u: uint64(len(list))}}}
	timeN := &node{kind: "other", s: "time", u: uint64(nth)}
	funcN := &node{kind: "other", s: "func", kids: []*node{{s: err.Error()}}}
	if how < 2*kinds {
		x := plainScalar(how/2, (how+nth)%2)
		x.setOf(v, how%2 == 1)
		if x.kind == kNil {
			return x.tree(), "nil"
		}
		return x.tree(), ""
	}
	if nils := how - (stores - nilsOfValue); nils >= 0 {
		setNil(v, nils)
		return &node{kind: "nil"}, "nil"
	}
	switch how - 2*kinds {
	case 0:
		v.SetMap(in)
		return inN, "*json.Map"
	case 1:
		v.SetMapValue(*in)
		return inN, ""
	case 2:
		v.SetArray(arr)
		return arrN, "*json.Array"
	case 3:
		v.SetArrayValue(*arr)
		return arrN, ""
	case 4:
		v.SetErrors(&list)
		return errorsN, ""
	case 5:
		v.SetErrorsValue(list)
		return errorsN, ""
	case 6:
		v.SetTime(&now)
		return timeN, "*time.Time"
	case 7:
		v.SetTimeValue(now)
		return timeN, ""
	case 8:
		v.SetObject(&f)
		return funcN, "*func(string) []error"
	case 9:
		v.SetNil()
		return &node{kind: "nil"}, "nil"
	case 10:
		v.SetObject("x")
		return &node{kind: "string", s: "x"}, "string"
	case 11:
		v.SetString(nil)
		return &node{kind: "nil"}, "nil"
	case 12:
		v.SetMap(nil)
		return &node{kind: "nil"}, "nil"
	case 13:
		v.SetObject(nil)
		return &node{kind: "nil"}, "nil"
	case 14:
		v.SetArray(nil)
		return &node{kind: "nil"}, "nil"
	}
	panic("no such store")
}

// holdsNow checks that a value holds what was stored last, and nothing else.
func holdsNow(v *json.Value, n *node, typ string) {
	if n.kind == "nil" {
		sym.Assert(v.IsNil() && text1(v) == "null", "a value holds what was stored last, nothing")
	} else if n.kind == "other" {
		sym.Assert(snapValue(v).kind == "other", "a value holds what was stored last")
		holdsOther(v, n)
	} else {
		same(n, snapValue(v), "a value holds what was stored last")
	}
	described(v, n)
	if typ != "" {
		sym.Assert(v.GetType() == typ, "a value has the type of what was stored last")
	}
	if n.kind != "nil" {
		sym.Assert(v.GetType() == fmt.Sprintf("%T", v.GetObject()), "a value has the type of what it holds")
	}
	m, errs := v.GetMap()
	sym.Assert((m != nil) == (n.kind == "map") && (len(errs) > 0) == (n.kind != "map" && n.kind != "nil"), "an object is read if an object was stored last")
	a, errs := v.GetArray()
	sym.Assert((a != nil) == (n.kind == "array") && (len(errs) > 0) == (n.kind != "array" && n.kind != "nil"), "an array is read if an array was stored last")
	s, errs := v.GetString()
	if n.kind == "string" {
		sym.Assert(s != nil && *s == n.s && len(errs) == 0, "a text is read if it was stored last")
	} else if n.kind == "nil" {
		sym.Assert(s == nil && len(errs) == 0, "nothing is read if nothing was stored last")
	}
}

// any setter after any other
func C33_Pairs() {
	v := json.NewValue(nil)
	for i := 0; i < 2; i++ {
		n, typ := store(v, sym.Choose("setter", stores), i)
		holdsNow(v, n, typ)
	}
}

// a value in a document that is set again and again
func C33_Held() {
	m, a := json.NewMap(), json.NewArray()
	a.AppendIntValue(1)
	a.AppendNil()
	m.SetArray("a", a)
	m.SetNil("b")
	var v *json.Value
	switch sym.Choose("where", 3) {
	case 0:
		v = (*a.GetValues())[1]
	case 1:
		v = m.GetValue("b")
	case 2:
		c, errs := m.Clone()
		sym.Assert(c != nil && len(errs) == 0, "a document can be cloned")
		m = c
		a, errs = m.GetArray("a")
		sym.Assert(a != nil && len(errs) == 0, "an array can be read")
		v = m.GetValue("b")
	}
	for i := 0; i < 2; i++ {
		n, typ := store(v, sym.Choose("setter", stores), i)
		holdsNow(v, n, typ)
		sym.Assert(len(m.GetKeys()) == 2 && a.Len() == 2, "setting a value changes nothing else")
		x, errs := (*a.GetValues())[0].GetIntValue()
		sym.Assert(len(errs) == 0 && x == 1, "setting a value changes nothing else")
	}
}

// any number after any other, exactly
func C33_Scalars() {
	v := json.NewValue("x")
	first := sym.Choose("first", kinds)
	x, y := plainScalar(first, 0), anyStored(1)
	x.setOf(v, sym.Choose("ptr", 2) == 1)
	holdsNow(v, x.tree(), "")
	y.setOf(v, sym.Choose("ptr", 2) == 1)
	holdsNow(v, y.tree(), "")
}

// two values set in turns do not mind one another
func C33_Two() {
	v, w := json.NewValue(1), json.NewValue("w")
	n, typ := store(v, sym.Choose("setter", stores), 0)
	k, kyp := store(w, sym.Choose("setter", stores), 1)
	holdsNow(v, n, typ)
	holdsNow(w, k, kyp)
}

// many rounds
func C33_Rounds() {
	v := json.NewValue(nil)
	how, next := sym.Choose("setter", stores), sym.Choose("next", stores)
	for i := 0; i < sym.Bound("rounds of two setters", 6, 20); i++ {
		n, typ := store(v, how, 2*i)
		holdsNow(v, n, typ)
		n, typ = store(v, next, 2*i+1)
		if i%3 == 2 {
			holdsNow(v, n, typ)
		}
	}
}

// two values that were set to one pointer, and its variable, do not mind what one is set to later
func C33_Pointer() {
	v, w := json.NewValue(1), json.NewValue(nil)
	var o interface{}
	var before *node
	switch kind := sym.Choose("kind", kinds+4); kind {
	case kinds:
		m := json.NewMap()
		m.SetIntValue("y", 1)
		o, before = m, &node{kind: "map", keys: []string{"y"}, kids: []*node{{kind: "int", u: 1}}}
	case kinds + 1:
		a := json.NewArray()
		a.AppendIntValue(1)
		o, before = a, &node{kind: "array", kids: []*node{{kind: "int", u: 1}}}
	case kinds + 2, kinds + 3:
		e := errors.New("y")
		list := append(make([]error, 0, 5), e, nil, e)
		o, before = list, &node{kind: "other", s: "errors", kids: []*node{{s: "y", u: 3}}}
		if kind == kinds+3 {
			o = &list
		}
	default:
		x := plainScalar(kind, sym.Choose("variant", 2))
		o, before = x.object(true), x.tree()
	}
	v.SetObject(o)
	w.SetObject(o)
	holdsNow(v, before, "")
	for i := 0; i < sym.Bound("stores after a pointer", 1, 2); i++ {
		n, typ := store(v, sym.Choose("setter", stores), 1+i)
		holdsNow(v, n, typ)
		holdsNow(w, before, "")
		holdsNow(json.NewValue(o), before, "")
	}
}

// text1 is the text of a value.
func text1(v *json.Value) string {
	m := json.NewMap()
	m.SetValue("", v)
	t := text(m)
	return t[4 : len(t)-1]
}

// holdsOther checks that a value holds the errors, the time or the function that it has to.
func holdsOther(v *json.Value, n *node) {
	switch n.s {
	case "errors":
		list, errs := v.GetErrors()
		sym.Assert(len(errs) == 0 && len(list) == int(n.kids[0].u), "the errors stored last are read")
		for i, e := range list {
			sym.Assert((e == nil) == (i == 1) && (e == nil || e.Error() == n.kids[0].s), "the errors stored last are read")
		}
	case "time":
		t, errs := v.GetTime()
		sym.Assert(t != nil && len(errs) == 0 && t.Unix() == int64(n.u), "the time stored last is read")
	case "func":
		f, errs := v.GetFunc()
		sym.Assert(f != nil && len(errs) == 0, "the function stored last is read")
		r := (*f)("")
		sym.Assert(len(r) == 1 && r[0].Error() == n.kids[0].s, "the function stored last is read")
	}
}
