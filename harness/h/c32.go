package h

import (
	json "github.com/matehaxor03/holistic_json/json"

	"verifharness/sym"
)

// keysOf is a map of some keys, the list of its keys, and a copy of that list.
func keysOf(n int) (*json.Map, []string, []string) {
	m := json.NewMap()
	for i := 0; i < n; i++ {
		m.SetIntValue(string(rune('a'+i)), i)
	}
	keys := m.GetKeys()
	return m, keys, append([]string{}, keys...)
}

func keysAre(got, want []string, what string) {
	sym.Assert(len(got) == len(want), what)
	for i := range want {
		sym.Assert(got[i] == want[i], what)
	}
}

// a list of keys stays as it was read, whatever happens to the map
func C32_KeysStay() {
	n := sym.Choose("n", sym.Bound("keys of a map", 5, 8))
	m, keys, was := keysOf(n)
	steps := sym.Bound("operations after reading the keys", 2, 3)
	for i := 0; i < steps; i++ {
		k := sym.StrIn("k", 1, "abcdexy")
		switch sym.Choose("op", 4) {
		case 0:
			m.SetIntValue(k, 9)
		case 1:
			m.RemoveKey(k)
		case 2:
			m.SetNil(k)
		case 3:
			m.Clone()
		}
		keysAre(keys, was, "a list of keys stays as it was read")
	}
}

// changing a list of keys does not change the map
func C32_KeysChanged() {
	n := sym.Choose("n", sym.Bound("keys of a map", 5, 8))
	m, keys, was := keysOf(n)
	if sym.Choose("clone", 2) == 1 {
		c, errs := m.Clone()
		sym.Assert(c != nil && len(errs) == 0, "a document can be cloned")
		m, keys = c, c.GetKeys()
	}
	snap := snapMap(m)
	switch sym.Choose("change", 4) {
	case 0:
		sym.Assume(n > 0)
		keys[sym.Choose("at", n)] = "changed"
	case 1:
		keys = append(keys, "more")
		keys[len(keys)-1] = "again"
	case 2:
		sym.Assume(n > 0)
		keys = append(keys[:0], keys[1:]...)
	case 3:
		for i, j := 0, len(keys)-1; i < j; i, j = i+1, j-1 {
			keys[i], keys[j] = keys[j], keys[i]
		}
	}
	keysAre(m.GetKeys(), was, "a change of a list of keys does not show in the map")
	same(snap, snapMap(m), "a change of a list of keys does not show in the map")
	m.SetIntValue("z", 1)
	keysAre(m.GetKeys(), append(was, "z"), "a change of a list of keys does not show in the map")
}

// every key can be removed while the list of keys is gone through
func C32_Loop() {
	n := sym.Choose("n", sym.Bound("keys removed in a loop", 9, 40))
	m, keys, was := keysOf(n)
	from := sym.Choose("from", 3)
	at := 0
	for i, k := range keys {
		sym.Assert(i < len(was) && k == was[i], "a list of keys stays as it was read")
		at++
		if from == 1 && i%2 == 0 || from == 2 && i%3 != 0 {
			m.SetIntValue(k+"'", i)
		}
		done, err := m.RemoveKey(k)
		sym.Assert(done && err == nil, "a key can be removed")
	}
	sym.Assert(at == n, "every key is gone through")
	for _, k := range was {
		sym.Assert(!m.HasKey(k), "every key is removed")
	}
}

// two lists of keys are two
func C32_Twice() {
	n := 1 + sym.Choose("n", 4)
	m, keys, was := keysOf(n)
	if sym.Choose("parsed", 2) == 1 {
		m = parse(text(m))
		keys = m.GetKeys()
	}
	again := m.GetKeys()
	keysAre(again, was, "the list of keys is the same")
	keys[sym.Choose("at", n)] = "changed"
	keysAre(again, was, "a change of one list of keys does not show in another")
}

// a typed list stays as it was read, and a change of it does not show in the array
func C32_Lists() {
	acc := kBool + sym.Choose("accessor", kinds-1)
	value := sym.Choose("value", 2) == 1
	stored := sym.Choose("pointers", 3)
	alike := sym.Choose("alike", 2) == 1
	a := json.NewArray()
	n := 1 + sym.Choose("n", sym.Bound("elements of a list", 3, 5))
	for i := 0; i < n; i++ {
		x := plainScalar(acc, i%2)
		if alike {
			x = plainScalar(acc, 0)
		}
		x.appendTo(a, stored == 1 || stored == 2 && i%2 == 1)
	}
	was := snapArray(a)
	m := json.NewMap()
	m.SetArray("a", a)
	ownList(a, acc, value).clear(stored == 0)
	same(was, snapArray(a), "a change of a list does not show in the array")
	list, failed := readList(a, acc, value)
	sym.Assert(!failed && len(list) == n, "a list can be read")
	first := ownList(a, acc, value)
	sym.Assert(first.ok && first.n == n, "a list can be read")
	second := ownList(a, acc, value)
	sym.Assert(second.ok && second.n == n, "a list can be read")
	if stored == 0 {
		sym.Assert(first.apart(sym.Choose("at", n)), "a change of an entry does not show in another")
	}
	// what was stored by pointer may be read as that pointer
	second.clear(stored == 0)
	sym.Assert(first.intact(), "a change of a list does not show in another")
	same(was, snapArray(a), "a change of a list does not show in the array")
	again, failed := readList(a, acc, value)
	sym.Assert(!failed && len(again) == n, "a change of a list does not show in the next one")
	for i := range list {
		same(list[i], again[i], "a change of a list does not show in the next one")
	}
	switch sym.Choose("then", 4) {
	case 0:
		a.RemoveValueAtIndex(0)
	case 1:
		a.SetValueAtIndex(n-1, json.NewValue("changed"))
	case 2:
		plainScalar(acc, 1).setOf((*a.GetValues())[0], false)
	case 3:
		plainScalar(acc, 1).appendTo(a, false)
	}
	ownList(a, acc, value)
	sym.Assert(first.intact(), "a list stays as it was read")
}

// owned is a typed list that was read.
type owned struct {
	n      int
	ok     bool
	intact func() bool
	clear  func(through bool)
	apart  func(at int) bool
}

func own[T comparable](r []T, errs []error) owned {
	was := append([]T{}, r...)
	return owned{len(r), len(errs) == 0, func() bool {
		for i := range was {
			if len(r) != len(was) || r[i] != was[i] {
				return false
			}
		}
		return true
	}, func(through bool) {
		var none T
		for i := range r {
			r[i] = none
		}
		_ = append(r[:0], none)
	}, func(int) bool { return true }}
}

func ownAt[T comparable](r *[]*T, errs []error) owned {
	if r == nil {
		return owned{}
	}
	var was []T
	for _, p := range *r {
		if p == nil {
			return owned{}
		}
		was = append(was, *p)
	}
	return owned{len(was), len(errs) == 0, func() bool {
		for i := range was {
			if len(*r) != len(was) || (*r)[i] == nil || *(*r)[i] != was[i] {
				return false
			}
		}
		return true
	}, func(through bool) {
		var none T
		for i := range *r {
			if through {
				*(*r)[i] = none
			}
			(*r)[i] = nil
		}
		*r = (*r)[:0]
	}, func(at int) bool {
		// writes through an entry, looks at the others, and puts it back
		var none T
		*(*r)[at] = none
		ok := true
		for i := range was {
			ok = ok && (i == at || *(*r)[i] == was[i])
		}
		*(*r)[at] = was[at]
		return ok
	}}
}

// ownList reads a typed list.
func ownList(a *json.Array, acc int, value bool) owned {
	switch {
	case acc == kBool && value:
		return own(a.GetArrayOfBoolValue())
	case acc == kString && value:
		return own(a.GetArrayOfStringValue())
	case acc == kInt && value:
		return own(a.GetArrayOfIntValue())
	case acc == kInt8 && value:
		return own(a.GetArrayOfInt8Value())
	case acc == kInt16 && value:
		return own(a.GetArrayOfInt16Value())
	case acc == kInt32 && value:
		return own(a.GetArrayOfInt32Value())
	case acc == kInt64 && value:
		return own(a.GetArrayOfInt64Value())
	case acc == kUInt && value:
		return own(a.GetArrayOfUIntValue())
	case acc == kUInt8 && value:
		return own(a.GetArrayOfUInt8Value())
	case acc == kUInt16 && value:
		return own(a.GetArrayOfUInt16Value())
	case acc == kUInt32 && value:
		return own(a.GetArrayOfUInt32Value())
	case acc == kUInt64 && value:
		return own(a.GetArrayOfUInt64Value())
	case acc == kFloat32 && value:
		return own(a.GetArrayOfFloat32Value())
	case acc == kFloat64 && value:
		return own(a.GetArrayOfFloat64Value())
	case acc == kBool:
		return ownAt(a.GetArrayOfBool())
	case acc == kString:
		return ownAt(a.GetArrayOfString())
	case acc == kInt:
		return ownAt(a.GetArrayOfInt())
	case acc == kInt8:
		return ownAt(a.GetArrayOfInt8())
	case acc == kInt16:
		return ownAt(a.GetArrayOfInt16())
	case acc == kInt32:
		return ownAt(a.GetArrayOfInt32())
	case acc == kInt64:
		return ownAt(a.GetArrayOfInt64())
	case acc == kUInt:
		return ownAt(a.GetArrayOfUInt())
	case acc == kUInt8:
		return ownAt(a.GetArrayOfUInt8())
	case acc == kUInt16:
		return ownAt(a.GetArrayOfUInt16())
	case acc == kUInt32:
		return ownAt(a.GetArrayOfUInt32())
	case acc == kUInt64:
		return ownAt(a.GetArrayOfUInt64())
	case acc == kFloat32:
		return ownAt(a.GetArrayOfFloat32())
	case acc == kFloat64:
		return ownAt(a.GetArrayOfFloat64())
	}
	return owned{}
}

// typed lists stay as they were read when the array changes
func C32_ListsStay() {
	a := json.NewArray()
	n := 1 + sym.Choose("n", 4)
	for i := 0; i < n; i++ {
		a.AppendIntValue(10 + i)
	}
	values, e1 := a.GetArrayOfIntValue()
	pointers, e2 := a.GetArrayOfInt()
	texts, e3 := a.GetArrayOfInt64Value()
	sym.Assert(len(e1)+len(e2)+len(e3) == 0 && len(values) == n && len(*pointers) == n && len(texts) == n, "a list can be read")
	for i := 0; i < 2; i++ {
		switch sym.Choose("op", 4) {
		case 0:
			a.RemoveValueAtIndex(sym.Choose("at", n))
		case 1:
			a.AppendIntValue(5)
		case 2:
			a.SetValueAtIndex(sym.Choose("at", n), json.NewValue("changed"))
		case 3:
			if a.Len() > 0 {
				(*a.GetValues())[0].SetNil()
			}
		}
	}
	for i := 0; i < n; i++ {
		sym.Assert(values[i] == 10+i && texts[i] == int64(10+i), "a list stays as it was read")
		sym.Assert((*pointers)[i] != nil && *(*pointers)[i] == 10+i, "a list stays as it was read")
	}
}
