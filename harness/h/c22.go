package h

import (
	json "github.com/matehaxor03/holistic_json/json"

	"verifharness/sym"
)

// listed checks a typed read of a whole array against reading each element alone.
func listed(a *json.Array, acc int, value bool) ([]*node, bool) {
	var want []*node
	fails := false
	for _, v := range *a.GetValues() {
		if v == nil {
			fails = fails || value
			want = append(want, &node{kind: "nil"})
			continue
		}
		r := read(v, acc, value)
		fails = fails || r.failed
		want = append(want, r.n)
	}
	got, failed := readList(a, acc, value)
	sym.Assert(failed == fails, "a list can be read exactly if every element can")
	if failed {
		sym.Assert(len(got) == 0, "a list that can not be read has no elements")
		return got, true
	}
	sym.Assert(len(got) == len(want), "a list has one entry per element")
	for i := range want {
		same(want[i], got[i], "an entry is what reading the element gives")
	}
	return got, false
}

// elements of the kind that is read, one of any other kind among them
func C22_Lists() {
	acc := kBool + sym.Choose("accessor", kinds-1)
	value := sym.Choose("value", 2) == 1
	n := 1 + sym.Choose("n", sym.Bound("elements of a list", 3, 4))
	odd := sym.Choose("odd", n)
	a := json.NewArray()
	for i := 0; i < n; i++ {
		if i == odd {
			anyStored(1).appendTo(a, sym.Choose("ptr", 2) == 1)
			continue
		}
		x := anyScalar(acc, "x", 1)
		if acc == kFloat32 || acc == kFloat64 {
			// six decimal places make few floats come back as they are; C15 is about them
			x = []*scalar{{kind: acc, vFloat32: 1.5, vFloat64: 1.5}, {kind: acc, vFloat32: -2, vFloat64: -2}, {kind: acc, vFloat32: 3e38, vFloat64: 3e38}}[i%3]
		}
		x.appendTo(a, i%2 == 1)
	}
	listed(a, acc, value)
}

// integers of any kind read as any other
func C22_Integers() {
	from, acc := kInt+sym.Choose("from", 10), kInt+sym.Choose("accessor", 10)
	n := sym.Bound("integers of a list", 2, 3)
	a := json.NewArray()
	for i := 0; i < n; i++ {
		anyScalar(from, "x", 0).appendTo(a, false)
	}
	value := sym.Choose("value", 2) == 1
	got, failed := listed(a, acc, value)
	if !failed {
		for i, v := range *a.GetValues() {
			_, u, _ := raw(v)
			sym.Assert(got[i].u == u, "an entry is the number of the element")
			sym.Assert(got[i].kind == kindName[acc], "an entry has the type asked for")
		}
	}
}

// strings and booleans
func C22_Texts() {
	n := sym.Choose("n", sym.Bound("texts of a list", 3, 4))
	a := json.NewArray()
	var want []string
	for i := 0; i < n; i++ {
		s := sym.Str("s", sym.Choose("len", 3))
		want = append(want, s)
		if sym.Choose("ptr", 2) == 1 {
			a.AppendString(&s)
		} else {
			a.AppendStringValue(s)
		}
	}
	value := sym.Choose("value", 2) == 1
	got, failed := readList(a, kString, value)
	sym.Assert(!failed && len(got) == n, "texts can be read as a list")
	for i := range want {
		sym.Assert(got[i].kind == "string" && got[i].s == want[i], "an entry is the text of the element")
	}
	if n > 0 && len(want[0]) > 0 && value {
		acc := []int{kBool, kUInt8, kInt64}[sym.Choose("accessor", 3)]
		listed(a, acc, sym.Choose("valueform", 2) == 1)
	}
}

// nulls of every origin
func C22_Nulls() {
	acc := kBool + sym.Choose("accessor", kinds-1)
	n := 1 + sym.Choose("n", 3)
	at := sym.Choose("at", n)
	a := json.NewArray()
	for i := 0; i < n; i++ {
		if i != at {
			(&scalar{kind: acc, vFloat32: 2, vFloat64: 2, s: "x", vInt8: 5}).appendTo(a, false)
			continue
		}
		switch sym.Choose("null", 5) {
		case 0:
			a.AppendNil()
		case 1:
			a.AppendValue(nil)
		case 2:
			a.AppendValue(json.NewValue(nil))
		case 3:
			a.AppendInt16(nil)
		case 4:
			a.AppendString(nil)
		}
	}
	got, failed := readList(a, acc, false)
	sym.Assert(!failed && len(got) == n, "null can be read in a list of pointers")
	for i := range got {
		sym.Assert((got[i].kind == "nil") == (i == at), "null is nil, nothing else is")
	}
	got, failed = readList(a, acc, true)
	sym.Assert(failed && len(got) == 0, "null can not be read in a list of values")
}

// no elements
func C22_Empty() {
	acc := kBool + sym.Choose("accessor", kinds-1)
	a := json.NewArray()
	if sym.Choose("emptied", 2) == 1 {
		a.AppendStringValue("x")
		a.RemoveValueAtIndex(0)
	}
	got, failed := readList(a, acc, sym.Choose("value", 2) == 1)
	sym.Assert(!failed && len(got) == 0, "a list without elements is empty")
}

// a list of the text of a document
func C22_Parsed() {
	acc := kBool + sym.Choose("accessor", kinds-1)
	vals := []string{"1", "-1", "300", "1.5", `"x"`, `"12"`, "true", "null", "{}", "[]", "18446744073709551615"}
	n := 1 + sym.Choose("n", 2)
	t := ""
	for i := 0; i < n; i++ {
		if i > 0 {
			t += ","
		}
		t += vals[sym.Choose("v", len(vals))]
	}
	a, errs := parse(`{"a":[` + t + `]}`).GetArray("a")
	sym.Assert(a != nil && len(errs) == 0, "an array can be read")
	listed(a, acc, sym.Choose("value", 2) == 1)
}

// long lists keep every element in order
func C22_Long() {
	acc := kBool + sym.Choose("accessor", kinds-1)
	n := []int{5, 9, 17, 33, 65}[sym.Choose("n", sym.Bound("lengths", 3, 5))]
	at := sym.Choose("at", 3) * (n - 1) / 2
	a := json.NewArray()
	for i := 0; i < n; i++ {
		x := &scalar{kind: acc, b: i%2 == 1, s: string(rune('a' + i%26)), vInt: i, vInt8: int8(i), vInt16: int16(i), vInt32: int32(i), vInt64: int64(i),
			vUInt: uint(i), vUInt8: uint8(i), vUInt16: uint16(i), vUInt32: uint32(i), vUInt64: uint64(i), vFloat32: float32(i), vFloat64: float64(i)}
		if i == at {
			if acc == kFloat32 || acc == kFloat64 {
				x.vFloat32, x.vFloat64 = 77, 77
			} else {
				x = anyScalar(acc, "x", 1)
			}
		}
		x.appendTo(a, false)
	}
	got, failed := readList(a, acc, sym.Choose("value", 2) == 1)
	sym.Assert(!failed && len(got) == n, "a list has one entry per element")
	for i, v := range *a.GetValues() {
		k, u, s := raw(v)
		sym.Assert(got[i].kind == k && got[i].s == s && got[i].u == u, "an entry is the element")
	}
}

// one element by its index is what the element is
func C22_Index() {
	a := json.NewArray()
	n := 1 + sym.Choose("n", 3)
	for i := 0; i < n; i++ {
		if sym.Choose("kind", 2) == 1 {
			m := json.NewMap()
			m.SetIntValue("n", i)
			a.AppendMap(m)
		} else {
			a.AppendStringValue(sym.Str("s", 1))
		}
	}
	i := sym.Int("i")
	m, errs := a.GetMap(i)
	s, serrs := a.GetStringValue(i)
	for j, v := range *a.GetValues() {
		if i != j {
			continue
		}
		w, werrs := v.GetMap()
		sym.Assert(w == m && len(werrs) == len(errs), "an object is read by its index")
		t, terrs := v.GetStringValue()
		sym.Assert(t == s && (len(terrs) == 0) == (len(serrs) == 0), "a text is read by its index")
	}
	if i < 0 || i >= n {
		sym.Assert(m == nil && s == "" && len(errs) > 0 && len(serrs) > 0, "an index out of range is an error")
	}
}

// one value at several places is an entry at each of them
func C22_Same() {
	acc := kBool + sym.Choose("accessor", kinds-1)
	x := &scalar{kind: acc, vFloat32: 2, vFloat64: 2, s: "x", vInt8: 5, vUInt: 3}
	v := json.NewValue(x.object(sym.Choose("ptr", 2) == 1))
	if sym.Choose("nil", 3) == 2 {
		v = json.NewValue(nil)
	}
	a := json.NewArray()
	n := 1 + sym.Choose("n", sym.Bound("elements, some of them the same", 3, 5))
	for i := 0; i < n; i++ {
		if sym.Choose("same", 2) == 1 {
			a.AppendValue(v)
		} else {
			x.appendTo(a, false)
		}
	}
	listed(a, acc, sym.Choose("value", 2) == 1)
}

// texts that look like something else
func C22_Words() {
	words := []string{"nil", "<nil>", "null", "", "map[]", "true", "0", "[]", "%!s(*json.Value=<nil>)", "&map[value:<nil>]"}
	n := 1 + sym.Choose("n", sym.Bound("words of a list", 2, 3))
	a := json.NewArray()
	var want []string
	for i := 0; i < n; i++ {
		s := words[sym.Choose("word", len(words))]
		want = append(want, s)
		if sym.Choose("ptr", 2) == 1 {
			a.AppendString(&s)
		} else {
			a.AppendStringValue(s)
		}
	}
	got, failed := readList(a, kString, sym.Choose("value", 2) == 1)
	sym.Assert(!failed && len(got) == n, "texts can be read as a list")
	for i := range want {
		sym.Assert(got[i].kind == "string" && got[i].s == want[i], "an entry is the text of the element")
	}
}

// very long lists, with something else somewhere
func C22_VeryLong() {
	acc := kBool + sym.Choose("accessor", kinds-1)
	n := []int{65, 130, 300, 1100}[sym.Choose("n", sym.Bound("lengths of very long lists, of 65 to 1100", 3, 4))]
	at := []int{0, n / 2, n - 2, n - 1}[sym.Choose("at", 4)]
	a := json.NewArray()
	for i := 0; i < n; i++ {
		x := &scalar{kind: acc, b: i%2 == 1, s: string(rune('a' + i%26)), vInt: i, vInt8: int8(i), vInt16: int16(i), vInt32: int32(i), vInt64: int64(i),
			vUInt: uint(i), vUInt8: uint8(i), vUInt16: uint16(i), vUInt32: uint32(i), vUInt64: uint64(i), vFloat32: float32(i), vFloat64: float64(i)}
		if i != at {
			x.appendTo(a, i%3 == 1)
			continue
		}
		switch sym.Choose("odd", 5) {
		case 0:
			a.AppendNil()
		case 1:
			a.AppendValue(nil)
		case 2:
			a.AppendMap(json.NewMap())
		case 3:
			a.AppendStringValue("12")
		case 4:
			a.AppendInt64Value(1 << 40)
		}
	}
	listed(a, acc, sym.Choose("value", 2) == 1)
	m := json.NewMap()
	m.SetArray("a", a)
	value := sym.Choose("value", 2) == 1
	got, failed := readList(a, acc, value)
	other, failed2, _, ok := readListKey(m, "a", acc, value)
	if !ok {
		return
	}
	sym.Assert(failed == failed2, "a list of a map is read as the list")
	sym.Assert(len(got) == len(other), "a list of a map has as many entries")
	for i := range got {
		same(got[i], other[i], "a list of a map has the same entries")
	}
}

// lists that are read again and again, with a change between
func C22_Changing() {
	acc := kBool + sym.Choose("accessor", kinds-1)
	value := sym.Choose("value", 2) == 1
	a := json.NewArray()
	for i := 0; i < 3; i++ {
		plainScalar(acc, i%2).appendTo(a, i == 1)
	}
	change, again := sym.Choose("change", 7), sym.Choose("again", 7)
	rounds := sym.Bound("readings of a list", 6, 12)
	for r := 0; r < rounds; r++ {
		listed(a, acc, value)
		what := change
		if r%2 == 1 {
			what = again
		}
		x := plainScalar(acc, r/2%2)
		switch what {
		case 0:
			x.setOf((*a.GetValues())[0], false)
		case 1:
			a.SetValueAtIndex(1, json.NewValue(x.object(true)))
		case 2:
			x.appendTo(a, false)
		case 3:
			if a.Len() > 1 {
				a.RemoveValueAtIndex(0)
			}
		case 4:
			(*a.GetValues())[a.Len()-1].SetNil()
		case 5:
			a.SetValueAtIndex(0, json.NewValue(json.NewMap()))
		case 6:
		}
	}
	listed(a, acc, value)
}
