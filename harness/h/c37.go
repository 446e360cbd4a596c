package h

import (
	"fmt"

	json "github.com/matehaxor03/holistic_json/json"

	"verifharness/sym"
)

// comparable tells whether objects of a kind can be compared.
func comparableObject(kind int) bool {
	switch kind {
	case oMapValue, oArrayValue, oErrorsValue, oStringList, oNoErrors, oNilAmongErrors,
		oForeigns + 5, oForeigns + 6, oForeigns + 7, oForeigns + 8, oForeigns + 9, oForeigns + 14, oForeigns + 16, oForeigns + 18, oForeigns + 19:
		return false
	}
	return true
}

// identical asserts that an object is given back as it was stored.
func identical(got, want interface{}, comparable bool) {
	sym.Assert(fmt.Sprintf("%T", got) == fmt.Sprintf("%T", want), "an object keeps its type")
	if comparable {
		sym.Assert(got == want, "an object is given back as it was stored")
	}
}

// givenBack puts an object wherever one can be, and reads it there.
func givenBack(o interface{}, comparable bool) {
	nothing := json.NewValue(o).IsNil()
	m, a := json.NewMap(), json.NewArray()
	m.SetIntValue("z", 1)
	a.AppendIntValue(1)
	var v *json.Value
	switch sym.Choose("stored", 9) {
	case 0:
		v = json.NewValue(o)
	case 1:
		w := json.NewValueValue(o)
		identical(w.GetObject(), o, comparable)
		v = &w
	case 2:
		v = json.NewValue("before")
		v.SetObject(o)
	case 3:
		m.SetObjectForMap("o", o)
		v = m.GetValue("o")
	case 4:
		m.SetStringValue("o", "before")
		m.SetObjectForMap("o", o)
		v = m.GetValue("o")
	case 5:
		l := json.NewArrayOfValues(&[]interface{}{"x", o})
		sym.Assert(l.Len() == 2, "every object is there")
		v = (*l.GetValues())[1]
	case 6:
		n := json.NewMapOfValues(&map[string]interface{}{"o": o})
		v = n.GetValue("o")
		if !nothing {
			identical(n.GetObjectForMap("o"), o, comparable)
		}
	case 7:
		v = json.NewValue(o)
		a.AppendValue(v)
		sym.Assert(a.Len() == 2 && (*a.GetValues())[1] == v, "a list gives the value that was appended")
	case 8:
		v = json.NewValue(o)
		ok, err := a.SetValueAtIndex(0, v)
		sym.Assert(ok && err == nil && (*a.GetValues())[0] == v, "a list gives the value that was set")
	}
	sym.Assert(v != nil, "an object is in a value")
	for i := 0; i < 2; i++ {
		identical(v.GetObject(), o, comparable)
		m.SetValue("v", v)
		sym.Assert(m.GetValue("v") == v, "a map gives the value that was set")
		values := *m.Values().GetValues()
		sym.Assert(len(values) == len(m.GetKeys()) && values[len(values)-1] == v, "the values of a map are the ones that were set")
		if nothing {
			sym.Assert(m.GetObjectForMap("v") == nil && v.IsNil(), "nothing is given back as nothing")
		} else {
			identical(m.GetObjectForMap("v"), o, comparable)
			sym.Assert(v.GetType() == fmt.Sprintf("%T", o), "a value has the type of its object")
		}
		sym.Assert(m.GetObjectForMap("none") == nil && m.GetValue("none") == nil, "there is nothing where nothing was stored")
		if i == 0 {
			// reading does not replace it
			readValue(v, sym.Choose("reader", readersOfValue), "x", 0)
		}
	}
}

// scalars
func C37_Scalars() {
	x := plainScalar(sym.Choose("kind", kinds), sym.Choose("nth", 2))
	givenBack(x.object(sym.Choose("ptr", 2) == 1), true)
}

// objects of all kinds
func C37_Objects() {
	k := sym.Choose("object", everything)
	o := otherObject(k)
	v := json.NewValue(o)
	if k >= others {
		// a value in a value
		identical(v.GetObject(), o, k != oNestedValue)
		return
	}
	givenBack(o, comparableObject(k))
}

// any scalar, and the readers that give it back
func C37_Any() {
	x := anyScalar(sym.Choose("kind", kFloat32), "x", sym.Choose("n", 3))
	o := x.object(sym.Choose("ptr", 2) == 1)
	m := json.NewMap()
	m.SetObjectForMap("o", o)
	v := m.GetValue("o")
	identical(v.GetObject(), o, true)
	if x.kind != 0 {
		read(v, x.kind, sym.Choose("form", 2) == 1)
	}
	identical(v.GetObject(), o, true)
	identical(m.GetObjectForMap("o"), o, true)
}

// values among the Go values a list or map is made of, and values that are put in more than once
func C37_Values() {
	v := [3]*json.Value{json.NewValue(1), json.NewValue("x"), json.NewValue(nil)}
	n := 1 + sym.Choose("elements", sym.Bound("elements", 3, 4))
	var list []interface{}
	var at []int
	for i := 0; i < n; i++ {
		k := sym.Choose("value", 3)
		at = append(at, k)
		list = append(list, v[k])
	}
	a, b, m := json.NewArrayOfValues(&list), json.NewArray(), json.NewMap()
	g := map[string]interface{}{}
	for i, k := range at {
		b.AppendValue(v[k])
		m.SetValue(string(rune('a'+i)), v[k])
		g[string(rune('a'+i))] = v[k]
	}
	o := json.NewMapOfValues(&g)
	sym.Assert(a.Len() == n && b.Len() == n && m.Values().Len() == n && o.Values().Len() == n, "every value is there")
	for i, k := range at {
		key := string(rune('a' + i))
		sym.Assert((*a.GetValues())[i] == v[k], "a list made of values has these values")
		sym.Assert((*b.GetValues())[i] == v[k], "a list has the values that were appended")
		sym.Assert(m.GetValue(key) == v[k] && (*m.Values().GetValues())[i] == v[k], "a map has the values that were set")
		sym.Assert(o.GetValue(key) == v[k], "a map made of values has these values")
	}
	// and what is stored in one of them shows wherever it stands
	k := sym.Choose("changed", 3)
	v[k].SetStringValue("new")
	for i := range at {
		s, errs := (*a.GetValues())[i].GetStringValue()
		sym.Assert((len(errs) == 0 && s == "new") == (at[i] == k), "a value that is changed is changed in a list")
		s, errs = m.GetStringValue(string(rune('a' + i)))
		sym.Assert((len(errs) == 0 && s == "new") == (at[i] == k), "a value that is changed is changed in a map")
	}
}
