package h

import (
	"strconv"
	"strings"

	json "github.com/matehaxor03/holistic_json/json"

	"verifharness/sym"
)

// given is a Go value to build from, with what it is in a document.
func given(name string) (interface{}, *node) {
	what := sym.Choose(name, kinds+6)
	if what < kinds {
		x := anyScalar(what, name+".x", 1)
		return x.object(sym.Choose(name+".ptr", 2) == 1), x.tree()
	}
	switch what - kinds {
	case 0, 1:
		m := json.NewMap()
		m.SetStringValue("in", sym.Str(name+".s", 1))
		if what-kinds == 1 {
			return *m, snapMap(m)
		}
		return m, snapMap(m)
	case 2, 3:
		a := json.NewArray()
		a.AppendStringValue(sym.Str(name+".s", 1))
		if what-kinds == 3 {
			return *a, snapArray(a)
		}
		return a, snapArray(a)
	case 4:
		v := json.NewValue(sym.Str(name+".s", 1))
		return v, snapValue(v)
	}
	s := sym.Str(name+".s", 1)
	return json.NewValueValue(s), &node{kind: "string", s: s}
}

// a slice of anything
func C25_Array() {
	n := sym.Choose("n", 4)
	full := sym.Bound("elements of a slice that are anything", 1, 2)
	var in []interface{}
	want := &node{kind: "array"}
	for i := 0; i < n; i++ {
		o, t := interface{}(nil), (*node)(nil)
		switch {
		case i < full:
			o, t = given("e")
		case i >= full && sym.Choose("again", 3) == 2:
			o, t = nil, &node{kind: "nil"}
			if sym.Choose("same", 2) == 1 {
				o, t = in[i-1], want.kids[i-1]
			}
		case i == full:
			s := sym.Str("s", 1)
			o, t = json.NewValue(s), &node{kind: "string", s: s}
			if sym.Choose("direct", 2) == 1 {
				o = s
			}
		default:
			s := sym.Str("s", 1)
			o, t = s, &node{kind: "string", s: s}
		}
		in = append(in, o)
		want.kids = append(want.kids, t)
	}
	a := json.NewArrayOfValues(&in)
	same(want, snapArray(a), "an array has exactly the elements of the slice")
	o := json.NewArray()
	for _, e := range in {
		switch x := e.(type) {
		case *json.Value:
			o.AppendValue(x)
		case json.Value:
			o.AppendValue(&x)
		default:
			o.AppendValue(json.NewValue(x))
		}
	}
	var t, u strings.Builder
	te, ue := a.ToJSONString(&t), o.ToJSONString(&u)
	sym.Assert((len(te) == 0) == (len(ue) == 0), "an array made of a slice can be written like one filled")
	sym.Assert(len(te) > 0 || t.String() == u.String(), "an array made of a slice has the same text as one filled")
	sym.Assert(len(in) == n, "the slice stays as it was")
}

// a Go map of anything
func C25_Map() {
	n := sym.Choose("n", 3)
	in := map[string]interface{}{}
	want := map[string]*node{}
	for i := 0; i < n; i++ {
		k := sym.Str("k", sym.Choose("len", 2))
		o, t := given("e")
		in[k], want[k] = o, t
	}
	m := json.NewMapOfValues(&in)
	filled(m, want)
	sym.Assert(len(in) == len(want), "the map stays as it was")
}

// filled asserts that a map has exactly some keys and values, in any order.
func filled(m *json.Map, want map[string]*node) {
	keys := m.GetKeys()
	sym.Assert(len(keys) == len(want) && m.Values().Len() == len(want), "a map has exactly the keys of the Go map")
	vals := *m.Values().GetValues()
	for i, k := range keys {
		for j := 0; j < i; j++ {
			sym.Assert(keys[j] != k, "a key is there once")
		}
		n, found := want[k]
		sym.Assert(found, "a map has exactly the keys of the Go map")
		v := m.GetValue(k)
		sym.Assert(m.HasKey(k) && v == vals[i], "keys and values agree")
		same(n, snapValue(v), "a key has the value it has in the Go map")
	}
}

// written and read again
func C25_MapText() {
	n := sym.Choose("n", sym.Bound("members of a Go map", 3, 4))
	in := map[string]interface{}{}
	want := map[string]*node{}
	for i := 0; i < n; i++ {
		k := sym.StrIn("k", 1, "abc")
		x := &scalar{kind: []int{kString, kUInt8, kNil, kBool}[sym.Choose("kind", 4)], s: "x", vUInt8: 5}
		in[k], want[k] = x.object(sym.Choose("ptr", 2) == 1), x.tree()
	}
	m := json.NewMapOfValues(&in)
	filled(m, want)
	filled(parse(text(m)), want)
}

// library values are used as they are
func C25_Identity() {
	v, w := json.NewValue("v"), json.NewValue(json.NewMap())
	x := json.NewValueValue("x")
	mp, ap := json.NewMap(), json.NewArray()
	in := []interface{}{v, w, x, mp, ap, nil}
	a := json.NewArrayOfValues(&in)
	vals := *a.GetValues()
	sym.Assert(a.Len() == 6, "every element is there")
	sym.Assert(vals[0] == v && vals[1] == w, "a library value is used as it is")
	s, errs := vals[2].GetStringValue()
	sym.Assert(len(errs) == 0 && s == "x", "a library value is used as it is")
	m1, e1 := vals[3].GetMap()
	a1, e2 := vals[4].GetArray()
	sym.Assert(len(e1)+len(e2) == 0 && m1 == mp && a1 == ap, "a library object is used as it is")
	sym.Assert(vals[5] == nil || vals[5].IsNil(), "nil is null")
	gm := map[string]interface{}{"v": v, "w": w, "x": x, "m": mp}
	m := json.NewMapOfValues(&gm)
	sym.Assert(m.GetValue("v") == v && m.GetValue("w") == w, "a library value is used as it is")
	s, errs = m.GetStringValue("x")
	sym.Assert(len(errs) == 0 && s == "x", "a library value is used as it is")
	m1, e1 = m.GetMap("m")
	sym.Assert(len(e1) == 0 && m1 == mp, "a library object is used as it is")
}

// what is built does not change with the Go value it was built of, and the other way round
func C25_Independent() {
	s, t := sym.Str("s", 1), sym.Str("t", 1)
	in := []interface{}{s, 1, nil}
	a := json.NewArrayOfValues(&in)
	n := snapArray(a)
	gm := map[string]interface{}{"a": s, "b": 2}
	m := json.NewMapOfValues(&gm)
	want := map[string]*node{"a": {kind: "string", s: s}, "b": {kind: "int", u: 2}}
	filled(m, want)
	switch sym.Choose("change", 5) {
	case 0:
		in[0] = t
		in = append(in, 5)
		gm["a"] = t
	case 1:
		delete(gm, "a")
		gm["c"] = 5
		in = in[:1]
	case 2:
		a.AppendStringValue(t)
		m.SetStringValue("c", t)
		sym.Assert(len(in) == 3 && len(gm) == 2, "a change of what was built does not show in what it was built of")
		return
	case 3:
		a.SetValueAtIndex(0, json.NewValue(t))
		a.RemoveValueAtIndex(1)
		m.RemoveKey("a")
		x, ok := in[0].(string)
		y, ok2 := in[1].(int)
		_, found := gm["a"]
		sym.Assert(ok && ok2 && x == s && y == 1 && found, "a change of what was built does not show in what it was built of")
		return
	case 4:
		in[1], in[2] = in[2], in[1]
		gm["b"] = nil
	}
	same(n, snapArray(a), "an array does not change with the slice it was made of")
	filled(m, want)
}

// long ones, and nothing at all
func C25_Sizes() {
	n := []int{0, 1, 4, 8, 9, 33}[sym.Choose("n", 6)]
	var in []interface{}
	gm := map[string]interface{}{}
	want := &node{kind: "array"}
	wantMap := map[string]*node{}
	for i := 0; i < n; i++ {
		in = append(in, i)
		want.kids = append(want.kids, &node{kind: "int", u: uint64(i)})
		k := strings.Repeat("k", i)
		gm[k] = i
		wantMap[k] = &node{kind: "int", u: uint64(i)}
	}
	same(want, snapArray(json.NewArrayOfValues(&in)), "an array has exactly the elements of the slice")
	filled(json.NewMapOfValues(&gm), wantMap)
	sym.Assert(json.NewArrayOfValues(nil).Len() == 0 && len(json.NewMapOfValues(nil).GetKeys()) == 0, "nothing makes an empty container")
	var none []interface{}
	var noMap map[string]interface{}
	sym.Assert(json.NewArrayOfValues(&none).Len() == 0 && len(json.NewMapOfValues(&noMap).GetKeys()) == 0, "nil makes an empty container")
}

// then a dictionary and a sequence like any other
func C25_Then() {
	gm := map[string]interface{}{"a": 0, "b": 1}
	m := json.NewMapOfValues(&gm)
	o := &ordered{}
	for _, k := range m.GetKeys() {
		n, errs := m.GetIntValue(k)
		sym.Assert(len(errs) == 0, "a number can be read")
		o.set(k, nil, n)
	}
	for i := 0; i < 2; i++ {
		o.step(m, sym.StrIn("k", 1, "abc"), 10+i, 2)
	}
	o.agrees(m, "a", true)
	in := []interface{}{0, 1}
	a, l := json.NewArrayOfValues(&in), &list{}
	l.add(nil, 0)
	l.add(nil, 1)
	l.step(a, 7, sym.Choose("at", 4)-1)
	l.agrees(a)
}

// very long slices and maps, with something else somewhere
func C25_Long() {
	n := []int{17, 65, 130, 257, 300, 600}[sym.Choose("n", sym.Bound("elements of a long slice, of 17 to 600", 5, 6))]
	at := []int{0, n / 2, n - 2, n - 1}[sym.Choose("at", 4)]
	var odd interface{}
	was := &node{kind: "nil"}
	p := new(int16)
	switch sym.Choose("odd", 6) {
	case 1:
		odd, was = json.NewValue("v"), &node{kind: "string", s: "v"}
	case 2:
		odd, was = json.NewMap(), &node{kind: "map"}
	case 3:
		odd, was = p, &node{kind: "int16"}
	case 4:
		odd, was = json.NewArray(), &node{kind: "array"}
	case 5:
		odd, was = "", &node{kind: "string"}
	}
	in := make([]interface{}, n)
	gm := map[string]interface{}{}
	want := &node{kind: "array"}
	wantMap := map[string]*node{}
	for i := range in {
		k := "k" + strconv.Itoa(i)
		if i == at {
			in[i], gm[k], wantMap[k] = odd, odd, was
			want.kids = append(want.kids, was)
			continue
		}
		in[i], gm[k], wantMap[k] = i, i, &node{kind: "int", u: uint64(i)}
		want.kids = append(want.kids, wantMap[k])
	}
	same(want, snapArray(json.NewArrayOfValues(&in)), "an array has exactly the elements of the slice")
	m := json.NewMapOfValues(&gm)
	sym.Assert(len(m.GetKeys()) == n && m.Values().Len() == n, "a map has exactly the keys of the Go map")
	vals := *m.Values().GetValues()
	for i, k := range m.GetKeys() {
		sym.Assert(wantMap[k] != nil && m.GetValue(k) == vals[i], "a map has exactly the keys of the Go map")
		same(wantMap[k], snapValue(vals[i]), "a key has the value it has in the Go map")
		wantMap[k] = nil
	}
}

// library values are part of what is built of them, so what is stored in them later is in it too
func C25_Live() {
	v, x := json.NewValue("v"), json.NewValueValue("x")
	mp, ap := json.NewMap(), json.NewArray()
	mv, av := json.NewMapValue(), json.NewArrayValue()
	in := []interface{}{v, x, mp, ap, mv, av}
	gm := map[string]interface{}{"v": v, "x": x, "m": mp, "a": ap, "mv": mv, "av": av}
	var vals []*json.Value
	if sym.Choose("map", 2) == 1 {
		m := json.NewMapOfValues(&gm)
		for _, k := range []string{"v", "x", "m", "a", "mv", "av"} {
			vals = append(vals, m.GetValue(k))
		}
	} else {
		vals = *json.NewArrayOfValues(&in).GetValues()
	}
	n := sym.Int("n")
	v.SetIntValue(n)
	x.SetIntValue(n)
	mp.SetIntValue("k", n)
	ap.AppendIntValue(n)
	mv.SetIntValue("k", n)
	av.AppendIntValue(n)
	for i, e := range vals {
		if i >= 2 && i%2 == 0 {
			m, errs := e.GetMap()
			sym.Assert(m != nil && len(errs) == 0, "a library object is used as it is")
			e = m.GetValue("k")
		} else if i >= 2 {
			a, errs := e.GetArray()
			sym.Assert(a != nil && len(errs) == 0 && a.Len() == 1, "a library array is used as it is")
			e = (*a.GetValues())[0]
		}
		sym.Assert(e != nil, "a library value is used as it is")
		got, errs := e.GetIntValue()
		sym.Assert(len(errs) == 0 && got == n, "a library value is used as it is")
	}
}
