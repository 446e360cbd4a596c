package h

import (
	"errors"
	"time"

	json "github.com/matehaxor03/holistic_json/json"

	"verifharness/sym"
)

func sameResult(a, b *result, what string) {
	sym.Assert(a.failed == b.failed, what+": one fails")
	same(a.n, b.n, what)
}

// any scalar, read by key and through the value
func C23_Scalars() {
	x := anyStored(1 + sym.Choose("len", 2))
	acc := kBool + sym.Choose("accessor", kinds-1)
	value := sym.Choose("value", 2) == 1
	k := sym.Str("k", 1)
	m := json.NewMap()
	m.SetIntValue("other", 5)
	x.setIn(m, k, sym.Choose("ptr", 2) == 1)
	v := m.GetValue(k)
	sym.Assert(v != nil, "a key that was set has a value")
	sameResult(read(v, acc, value), readKey(m, k, acc, value), "by key and through the value")
}

// what a typed setter stored is what is read
func C23_ReadBack() {
	x := anyScalar(kBool+sym.Choose("kind", kinds-1), "x", sym.Choose("len", sym.Bound("bytes of a stored string", 3, 4)))
	if x.kind == kFloat32 {
		// the others are not read back exactly: six decimal places
		x.vFloat32 = []float32{0, 1.5, -0.25, 123456, 3e38, -7.015625}[sym.Choose("f", 6)]
	}
	k := sym.Str("k", sym.Choose("klen", 3))
	ptr := sym.Choose("ptr", 2) == 1
	m := json.NewMap()
	if sym.Choose("before", 2) == 1 {
		m.SetMap(k, json.NewMap())
	}
	x.setIn(m, k, ptr)
	want := x.tree()
	for form := 0; form < 2; form++ {
		r := readKey(m, k, x.kind, form == 1)
		sym.Assert(!r.failed, "what was stored can be read")
		if x.kind == kFloat64 || x.kind == kFloat32 {
			sym.Assert(r.n.kind == want.kind, "what was stored is what is read")
			if x.kind == kFloat64 && x.vFloat64 != x.vFloat64 {
				continue
			}
		}
		same(want, r.n, "what was stored is what is read")
	}
}

// stored through a pointer: what the pointer holds is what is read
func C23_Pointers() {
	kind := kBool + sym.Choose("kind", kinds-1)
	x, y := anyScalar(kind, "x", 1), anyScalar(kind, "y", 1)
	if kind == kFloat32 || kind == kFloat64 {
		y = &scalar{kind: kind, vFloat32: 0.5, vFloat64: 0.5}
	}
	p := x.object(true)
	m := json.NewMap()
	m.SetObjectForMap("a", p)
	y.through(p)
	same(y.tree(), readKey(m, "a", kind, false).n, "what the pointer holds is read")
	same(y.tree(), readKey(m, "a", kind, true).n, "what the pointer holds is read")
}

// absent and null keys
func C23_Nothing() {
	m := json.NewMap()
	m.SetIntValue("other", 5)
	k := sym.Str("k", 1)
	switch sym.Choose("nothing", 8) {
	case 0: // absent
	case 1:
		m.SetNil(k)
	case 2:
		m.SetValue(k, nil)
	case 3:
		m.SetInt(k, nil)
	case 4:
		m.SetMap(k, nil)
	case 5:
		m.SetArray(k, nil)
	case 6:
		m.SetIntValue(k, 1)
		m.RemoveKey(k)
	case 7:
		m.SetTime(k, nil)
	}
	switch what := sym.Choose("reader", kinds+3); {
	case what == 0:
		for p, holds := range keyPredicates(m, k) {
			sym.Assert(holds == (p == "nil"), "a predicate of nothing is false")
		}
	case what < kinds:
		r := readKey(m, k, what, false)
		sym.Assert(!r.failed && r.n.kind == "nil", "a pointer to nothing is nil without an error")
		r = readKey(m, k, what, true)
		sym.Assert(r.failed, "the value of nothing is an error")
		_, failed, none, ok := readListKey(m, k, what, false)
		sym.Assert(ok && !failed && none, "a list of nothing is nil without an error")
		_, failed, none, ok = readListKey(m, k, what, true)
		sym.Assert(!ok || failed && none, "the list of values of nothing is an error")
	case what == kinds:
		a, e1 := m.GetArray(k)
		o, e2 := m.GetMap(k)
		t, e3 := m.GetTime(k)
		f, e4 := m.GetFunc(k)
		r, e5 := m.GetRunes(k)
		sym.Assert(a == nil && o == nil && t == nil && f == nil && r == nil, "a pointer to nothing is nil")
		sym.Assert(len(e1)+len(e2)+len(e3)+len(e4)+len(e5) == 0, "a pointer to nothing is no error")
		t, e3 = m.GetTimeWithDecimalPlaces(k, 3)
		sym.Assert(t == nil && len(e3) == 0, "a time that is not there is no error")
	case what == kinds+1:
		_, e1 := m.GetArrayValue(k)
		_, e2 := m.GetMapValue(k)
		sym.Assert(len(e1) > 0 && len(e2) > 0, "the value of nothing is an error")
	case what == kinds+2:
		errs, e := m.GetErrors(k)
		sym.Assert(len(errs) == 0 && len(e) == 0, "there are no errors where there is nothing")
	}
	n, errs := m.GetIntValue("other")
	sym.Assert(len(errs) == 0 && n == 5 || k == "other", "another key has its value")
}

// everything else that can be stored
func C23_Others() {
	m := json.NewMap()
	m.SetObjectForMap("a", otherObject(sym.Choose("kind", others)))
	unlike(m)
}

// scalars read as what they are not
func C23_Unlike() {
	x := anyStored(sym.Choose("len", 3))
	m := json.NewMap()
	x.setIn(m, "a", sym.Choose("ptr", 2) == 1)
	unlike(m)
}

// unlike reads what is stored under "a" with every accessor that is not of scalars, by key and through the value.
func unlike(m *json.Map) {
	v := m.GetValue("a")
	sym.Assert(v != nil, "a key that was set has a value")
	sym.Assert(m.GetType("a") == v.GetType(), "the type by key is that of the value")
	sym.Assert(m.IsNull("a") == v.IsNil(), "null by key is null of the value")
	sym.Assert(m.IsMap("a") == v.IsMap() && m.IsArray("a") == v.IsArray(), "the kind by key is that of the value")
	a1, e1 := m.GetMap("a")
	a2, e2 := v.GetMap()
	sym.Assert((a1 == nil) == (a2 == nil) && len(e1) == len(e2), "an object by key is that of the value")
	if a1 != nil {
		same(snapMap(a2), snapMap(a1), "an object by key is that of the value")
	}
	b1, e1 := m.GetArray("a")
	b2, e2 := v.GetArray()
	sym.Assert((b1 == nil) == (b2 == nil) && len(e1) == len(e2), "an array by key is that of the value")
	if b1 != nil {
		same(snapArray(b2), snapArray(b1), "an array by key is that of the value")
	}
	c1, e1 := m.GetMapValue("a")
	sym.Assert((len(e1) > 0) == (a2 == nil), "an object is there as a value or it is an error")
	if a2 != nil {
		same(snapMap(a2), snapMap(&c1), "an object by key is that of the value")
	}
	d1, e1 := m.GetArrayValue("a")
	sym.Assert((len(e1) > 0) == (b2 == nil), "an array is there as a value or it is an error")
	if b2 != nil {
		same(snapArray(b2), snapArray(&d1), "an array by key is that of the value")
	}
	t1, e1 := m.GetTime("a")
	t2, e2 := v.GetTime()
	sym.Assert((t1 == nil) == (t2 == nil) && len(e1) == len(e2), "a time by key is that of the value")
	sym.Assert(t1 == nil || t1.Equal(*t2), "a time by key is that of the value")
	f1, e1 := m.GetFunc("a")
	f2, e2 := v.GetFunc()
	sym.Assert((f1 == nil) == (f2 == nil) && len(e1) == len(e2), "a function by key is that of the value")
	sym.Assert(f1 == nil || len((*f1)("x")) == len((*f2)("x")), "a function by key is that of the value")
	h1, e1 := m.GetTimeWithDecimalPlaces("a", 3)
	h2, e2 := v.GetTimeWithDecimalPlaces(3)
	sym.Assert((h1 == nil) == (h2 == nil) && len(e1) == len(e2), "a time by key is that of the value")
	sym.Assert(h1 == nil || h1.Equal(*h2), "a time by key is that of the value")
	u1, e1 := m.GetRunes("a")
	u2, e2 := v.GetRunes()
	sym.Assert((u1 == nil) == (u2 == nil) && len(e1) == len(e2), "the characters by key are those of the value")
	g1, e1 := m.GetErrors("a")
	g2, e2 := v.GetErrors()
	sym.Assert(len(g1) == len(g2) && len(e1) == len(e2), "errors by key are those of the value")
	for i := range g1 {
		sym.Assert((g1[i] == nil) == (g2[i] == nil), "errors by key are those of the value")
		sym.Assert(g1[i] == nil || g1[i].Error() == g2[i].Error(), "errors by key are those of the value")
	}
	sym.Assert(len(m.GetKeys()) == 1, "reading adds no key")
}

// containers, errors, times and functions come back as they were stored
func C23_Containers() {
	m, in, a := json.NewMap(), json.NewMap(), json.NewArray()
	k := sym.Str("k", 1)
	in.SetStringValue("x", k)
	a.AppendStringValue(k)
	f := func(s string) []error { return []error{errors.New(s + k)} }
	now := time.Unix(5, 6).UTC()
	switch sym.Choose("kind", 7) {
	case 0:
		m.SetMap(k, in)
		r, errs := m.GetMap(k)
		sym.Assert(r == in && len(errs) == 0, "an object comes back as it was stored")
	case 1:
		m.SetMapValue(k, *in)
		r, errs := m.GetMapValue(k)
		sym.Assert(len(errs) == 0, "an object comes back")
		same(snapMap(in), snapMap(&r), "an object comes back as it was stored")
	case 2:
		m.SetArray(k, a)
		r, errs := m.GetArray(k)
		sym.Assert(r == a && len(errs) == 0, "an array comes back as it was stored")
	case 3:
		m.SetArrayValue(k, *a)
		r, errs := m.GetArrayValue(k)
		sym.Assert(len(errs) == 0, "an array comes back")
		same(snapArray(a), snapArray(&r), "an array comes back as it was stored")
	case 4:
		m.SetErrors(k, []error{errors.New(k), errors.New("two")})
		r, errs := m.GetErrors(k)
		sym.Assert(len(errs) == 0 && len(r) == 2 && r[0].Error() == k && r[1].Error() == "two", "errors come back as they were stored")
	case 5:
		m.SetTime(k, &now)
		r, errs := m.GetTime(k)
		sym.Assert(len(errs) == 0 && r != nil && r.Equal(now), "a time comes back as it was stored")
	case 6:
		m.SetFunc(k, &f)
		r, errs := m.GetFunc(k)
		sym.Assert(len(errs) == 0 && r != nil, "a function comes back")
		got := (*r)("x")
		sym.Assert(len(got) == 1 && got[0].Error() == "x"+k, "a function comes back as it was stored")
	}
}

// lists by key and through the array
func C23_Lists() {
	acc := kBool + sym.Choose("accessor", kinds-1)
	value := sym.Choose("value", 2) == 1
	a := json.NewArray()
	n := sym.Choose("n", 3)
	for i := 0; i < n; i++ {
		if i == 0 {
			anyStored(1).appendTo(a, false)
		} else {
			(&scalar{kind: acc, s: "x"}).appendTo(a, false)
		}
	}
	m := json.NewMap()
	if sym.Choose("byvalue", 2) == 1 {
		m.SetArrayValue("a", *a)
	} else {
		m.SetArray("a", a)
	}
	got, failed, none, ok := readListKey(m, "a", acc, value)
	sym.Assume(ok)
	want, fails := readList(a, acc, value)
	sym.Assert(failed == fails && len(got) == len(want), "a list by key is that of the array")
	sym.Assert(!failed || none, "a list that can not be read is nil")
	for i := range want {
		same(want[i], got[i], "a list by key is that of the array")
	}
}

// several keys of any bytes: each has its own value
func C23_Keys() {
	n := sym.Bound("keys of a map", 3, 4)
	m := json.NewMap()
	keys := make([]string, n)
	for i := range keys {
		keys[i] = sym.Str("k", sym.Choose("len", 3))
		m.SetIntValue(keys[i], i)
	}
	probe := sym.Str("probe", sym.Choose("len", 3))
	want := -1
	for i := range keys {
		if keys[i] == probe {
			want = i
		}
	}
	p, errs := m.GetInt(probe)
	sym.Assert(len(errs) == 0 && (p == nil) == (want < 0), "exactly the keys that were set have a value")
	sym.Assert(p == nil || *p == want, "a key has the value stored last")
	if v := m.GetValue(probe); want >= 0 {
		i, errs := v.GetIntValue()
		sym.Assert(len(errs) == 0 && i == want, "the value under a key is that stored last")
	} else {
		sym.Assert(v == nil, "an absent key has no value")
	}
}

// members of parsed documents
func C23_Parsed() {
	acc := kBool + sym.Choose("accessor", kinds-1)
	value := sym.Choose("value", 2) == 1
	vals := []string{"1", "-1", "300", "1.5", `"x"`, `"12"`, "true", "null", "{}", "[1]", "18446744073709551615", `"true"`, `""`}
	m := parse(`{"a":` + vals[sym.Choose("v", len(vals))] + `,"b":` + vals[sym.Choose("w", len(vals))] + `}`)
	k := sym.StrIn("k", 1, "ab")
	sameResult(read(m.GetValue(k), acc, value), readKey(m, k, acc, value), "by key and through the value")
	got, failed, none, ok := readListKey(m, k, acc, value)
	if ok && m.IsArray(k) {
		a, _ := m.GetArray(k)
		want, fails := readList(a, acc, value)
		sym.Assert(failed == fails && !none == !failed && len(got) == len(want), "a list by key is that of the array")
	}
}

// the characters of any string, by key and through the value
func C23_Runes() {
	s := sym.Str("s", sym.Choose("n", sym.Bound("bytes of a string read as characters", 3, 4)))
	m := json.NewMap()
	if sym.Choose("ptr", 2) == 1 {
		m.SetString("a", &s)
	} else {
		m.SetStringValue("a", s)
	}
	r1, e1 := m.GetRunes("a")
	r2, e2 := m.GetValue("a").GetRunes()
	sym.Assert((r1 == nil) == (r2 == nil) && len(e1) == len(e2), "the characters by key are those of the value")
	if r1 != nil {
		sym.Assert(len(*r1) == len(*r2), "the characters by key are those of the value")
		for i := range *r1 {
			sym.Assert(*(*r1)[i] == *(*r2)[i], "the characters by key are those of the value")
		}
	}
}

// texts that are times or nearly, by key and through the value
func C23_Times() {
	base := []string{"2022-12-31 23:59:59", "0000-00-00 00:00:00", "1999-02-29 00:00:00", "2024-02-29 12:00:00", "now?", ""}[sym.Choose("base", 6)]
	s := base
	if d := sym.Choose("decimals", 11); d > 0 {
		s += "." + "987654321"[:d-1]
	}
	m := json.NewMap()
	k := sym.Str("k", 1)
	switch sym.Choose("as", 3) {
	case 0:
		m.SetStringValue(k, s)
	case 1:
		m.SetString(k, &s)
	case 2:
		t := time.Unix(5, 987654321).UTC()
		if len(base) > 0 {
			return
		}
		m.SetTime(k, &t)
	}
	v := m.GetValue(k)
	n := sym.Choose("places", 13) - 1
	t1, e1 := m.GetTimeWithDecimalPlaces(k, n)
	t2, e2 := v.GetTimeWithDecimalPlaces(n)
	sym.Assert((t1 == nil) == (t2 == nil) && len(e1) == len(e2), "a time by key is that of the value")
	sym.Assert(t1 == nil || t1.Equal(*t2), "a time by key is that of the value")
	t1, e1 = m.GetTime(k)
	t2, e2 = v.GetTime()
	sym.Assert((t1 == nil) == (t2 == nil) && len(e1) == len(e2), "a time by key is that of the value")
	sym.Assert(t1 == nil || t1.Equal(*t2), "a time by key is that of the value")
}

// a key that is set, removed and read over and over
func C23_Again() {
	acc := kBool + sym.Choose("accessor", kinds-1)
	n := 1 + sym.Choose("n", sym.Bound("operations of a period", 3, 3))
	op := make([]int, n)
	for i := range op {
		op[i] = sym.Choose("op", 6)
	}
	m := json.NewMap()
	m.SetIntValue("other", 5)
	var o interface{}
	there := false
	rounds := sym.Bound("periods of a history", 8, 20)
	for r := 0; r < rounds; r++ {
		for _, what := range op {
			switch what {
			case 0:
				m.SetInt8Value("a", int8(r+1))
				o, there = int8(r+1), true
			case 1:
				m.SetStringValue("a", []string{"7", "x", "true"}[r%3])
				o, there = []string{"7", "x", "true"}[r%3], true
			case 2:
				m.SetNil("a")
				o, there = nil, true
			case 3:
				m.RemoveKey("a")
				o, there = nil, false
			case 4:
				if v := m.GetValue("a"); v != nil {
					v.SetObject(uint16(r))
					o = uint16(r)
				}
			case 5:
				m.SetBoolValue("a", r%2 == 0)
				o, there = r%2 == 0, true
			}
			sym.Assert(m.HasKey("a") == there, "a key is there if it was set and not removed")
			fresh := json.NewValue(o)
			for form := 0; form < 4; form++ {
				want := read(fresh, acc, form%2 == 1)
				sameResult(want, readKey(m, "a", acc, form%2 == 1), "a key holds what was stored last")
				if v := m.GetValue("a"); v != nil && form < 2 {
					sameResult(want, read(v, acc, form%2 == 1), "a key holds what was stored last")
				}
			}
		}
	}
}
