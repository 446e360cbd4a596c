package h

import (
	"time"

	json "github.com/matehaxor03/holistic_json/json"

	"verifharness/sym"
)

// agree checks the two forms of an accessor against one another.
func agree(p, v *result) {
	sym.Assert(!p.failed || p.n.kind == "nil", "an error comes without a value")
	if p.failed {
		sym.Assert(v.failed, "the value form fails when the pointer form does")
		return
	}
	if p.n.kind == "nil" {
		sym.Assert(v.failed, "the value form fails when there is no value")
		return
	}
	sym.Assert(!v.failed, "the value form reads what the pointer form reads")
	sym.Assert(p.n.kind == v.n.kind && p.n.s == v.n.s, "both forms give the same value")
	sym.Assert(p.n.u == v.n.u, "both forms give the same number")
}

func anyStored(strlen int) *scalar { return anyScalar(sym.Choose("stored", kinds), "x", strlen) }

// values
func C16_Value() {
	x := anyStored(sym.Choose("len", sym.Bound("bytes of a stored string", 2, 3)))
	acc := kBool + sym.Choose("accessor", kinds-1)
	v := json.NewValue(x.object(sym.Choose("ptr", 2) == 1))
	agree(read(v, acc, false), read(v, acc, true))
}

// members
func C16_Map() {
	x := anyStored(1)
	acc := kBool + sym.Choose("accessor", kinds-1)
	m := json.NewMap()
	x.setIn(m, "a", sym.Choose("ptr", 2) == 1)
	agree(readKey(m, "a", acc, false), readKey(m, "a", acc, true))
}

// stored with setters
func C16_Set() {
	x := anyStored(1)
	acc := kBool + sym.Choose("accessor", kinds-1)
	v := json.NewValue(json.NewMap())
	x.setOf(v, sym.Choose("ptr", 2) == 1)
	agree(read(v, acc, false), read(v, acc, true))
}

// strings that may be read as numbers or booleans
func C16_Texts() {
	texts := []string{"true", "false", "1", "0", "-1", "256", "18446744073709551615", "-9223372036854775808", "1.5", "1e3", "", " 1", "+1", "nil", "null", "NULL", "NaN", "Inf", "0x10", "1e999", "340282356779733661637539395458142568448"}
	s := texts[sym.Choose("text", len(texts))]
	acc := kBool + sym.Choose("accessor", kinds-1)
	v := json.NewValue(s)
	if sym.Choose("ptr", 2) == 1 {
		v = json.NewValue(&s)
	}
	agree(read(v, acc, false), read(v, acc, true))
}

// digits as text
func C16_Digits() {
	s := sym.StrIn("s", 1+sym.Choose("n", sym.Bound("bytes of a text of digits", 2, 3)), "-+019. e")
	acc := kBool + sym.Choose("accessor", kinds-1)
	v := json.NewValue(s)
	agree(read(v, acc, false), read(v, acc, true))
}

// nothing: null, absent, nil pointers
func C16_Null() {
	acc := kBool + sym.Choose("accessor", kinds-1)
	var v *json.Value
	m := json.NewMap()
	how := sym.Choose("null", 7)
	key := "a"
	switch how {
	case 0:
		v = json.NewValue(nil)
		m.SetNil("a")
	case 1:
		m = parse(`{"a":null}`)
		v = m.GetValue("a")
	case 2:
		var p *int8
		v = json.NewValue(p)
		m.SetInt8("a", nil)
	case 3:
		var p *string
		v = json.NewValue(p)
		m.SetString("a", nil)
	case 4:
		a := json.NewArray()
		a.AppendNil()
		v = (*a.GetValues())[0]
		m.SetMap("a", nil)
	case 5:
		v = json.NewValue(1)
		v.SetNil()
		m.SetObjectForMap("a", nil)
	case 6:
		v = json.NewValue("x")
		v.SetFloat64(nil)
		key = "absent"
	}
	p := read(v, acc, false)
	sym.Assert(!p.failed && p.n.kind == "nil", "null read through a pointer form is nil without error")
	sym.Assert(read(v, acc, true).failed, "null read through a value form is an error")
	p = readKey(m, key, acc, false)
	sym.Assert(!p.failed && p.n.kind == "nil", "a null member read through a pointer form is nil without error")
	sym.Assert(readKey(m, key, acc, true).failed, "a null member read through a value form is an error")
	// containers and times
	nm, errs := v.GetMap()
	sym.Assert(nm == nil && len(errs) == 0, "null read as an object is nil without error")
	_, errs = v.GetMapValue()
	sym.Assert(len(errs) > 0, "null read as an object value is an error")
	na, errs := v.GetArray()
	sym.Assert(na == nil && len(errs) == 0, "null read as an array is nil without error")
	_, errs = v.GetArrayValue()
	sym.Assert(len(errs) > 0, "null read as an array value is an error")
	nt, errs := v.GetTime()
	sym.Assert(nt == nil && len(errs) == 0, "null read as a time is nil without error")
	_, errs = v.GetTimeValue()
	sym.Assert(len(errs) > 0, "null read as a time value is an error")
	nm, errs = m.GetMap(key)
	sym.Assert(nm == nil && len(errs) == 0, "a null member read as an object is nil without error")
	_, errs = m.GetMapValue(key)
	sym.Assert(len(errs) > 0, "a null member read as an object value is an error")
	na, errs = m.GetArray(key)
	sym.Assert(na == nil && len(errs) == 0, "a null member read as an array is nil without error")
	_, errs = m.GetArrayValue(key)
	sym.Assert(len(errs) > 0, "a null member read as an array value is an error")
}

// containers in both forms
func C16_Containers() {
	in := json.NewMap()
	x := anyScalar(kInt8, "x", 0)
	x.setIn(in, "k", false)
	arr := json.NewArray()
	x.appendTo(arr, false)
	m := json.NewMap()
	isMap := sym.Choose("map", 2) == 1
	byValue := sym.Choose("byvalue", 2) == 1
	switch {
	case isMap && byValue:
		m.SetMapValue("a", *in)
	case isMap:
		m.SetMap("a", in)
	case byValue:
		m.SetArrayValue("a", *arr)
	default:
		m.SetArray("a", arr)
	}
	v := m.GetValue("a")
	pm, errs := v.GetMap()
	vm, verrs := v.GetMapValue()
	sym.Assert((len(errs) > 0) == (len(verrs) > 0), "both forms of GetMap fail or none")
	sym.Assert((len(errs) == 0) == isMap, "an object is read as an object, nothing else is")
	km, kerrs := m.GetMap("a")
	kvm, kverrs := m.GetMapValue("a")
	sym.Assert((len(kerrs) == 0) == isMap && (len(kverrs) == 0) == isMap, "an object member is read as an object, nothing else is")
	if isMap {
		n := snapMap(in)
		same(n, snapMap(pm), "GetMap")
		same(n, snapMap(&vm), "GetMapValue")
		same(n, snapMap(km), "Map.GetMap")
		same(n, snapMap(&kvm), "Map.GetMapValue")
	} else {
		sym.Assert(pm == nil && km == nil, "no object")
	}
	pa, errs := v.GetArray()
	va, verrs := v.GetArrayValue()
	sym.Assert((len(errs) == 0) == !isMap && (len(verrs) == 0) == !isMap, "an array is read as an array, nothing else is")
	ka, kerrs := m.GetArray("a")
	kva, kverrs := m.GetArrayValue("a")
	sym.Assert((len(kerrs) == 0) == !isMap && (len(kverrs) == 0) == !isMap, "an array member is read as an array, nothing else is")
	if !isMap {
		n := snapArray(arr)
		same(n, snapArray(pa), "GetArray")
		same(n, snapArray(&va), "GetArrayValue")
		same(n, snapArray(ka), "Map.GetArray")
		same(n, snapArray(&kva), "Map.GetArrayValue")
	} else {
		sym.Assert(pa == nil && ka == nil, "no array")
	}
}

// parsed members
func C16_Parsed() {
	lit := []string{"1", "-1", "255", "70000", "1.5", "1e300", "true", "false", `"x"`, `"1"`, `""`, "{}", "[]", "[1]", "18446744073709551615"}[sym.Choose("literal", 15)]
	acc := kBool + sym.Choose("accessor", kinds-1)
	m := parse(`{"a":` + lit + `,"b":[` + lit + `]}`)
	agree(readKey(m, "a", acc, false), readKey(m, "a", acc, true))
	arr, _ := m.GetArray("b")
	v := (*arr.GetValues())[0]
	agree(read(v, acc, false), read(v, acc, true))
}

// times and texts of times, in both forms
func C16_Times() {
	times := []time.Time{{}, time.Unix(0, 0).UTC(), time.Unix(-1, 5).UTC(), time.Unix(1000, 5).UTC(), time.Date(9999, 12, 31, 23, 59, 59, 999999999, time.UTC),
		time.Date(1, 1, 1, 0, 0, 0, 1, time.UTC), time.Date(-5, 1, 1, 0, 0, 0, 0, time.UTC), time.Date(1969, 12, 31, 23, 59, 59, 0, time.UTC)}
	words := []string{"", "x", "2020-01-02", "2020-01-02 03:04:05", "2020-01-02T03:04:05Z", "0001-01-01 00:00:00", "1", "null", "2020-01-02 03:04:05.123456"}
	var o interface{}
	switch sym.Choose("what", 4) {
	case 0:
		o = times[sym.Choose("time", len(times))]
	case 1:
		t := times[sym.Choose("time", len(times))]
		o = &t
	case 2:
		o = words[sym.Choose("text", len(words))]
	case 3:
		s := words[sym.Choose("text", len(words))]
		o = &s
	}
	v := json.NewValue(o)
	m := json.NewMap()
	m.SetValue("a", v)
	p, e1 := v.GetTime()
	t, e2 := v.GetTimeValue()
	sym.Assert((len(e1) == 0) == (len(e2) == 0), "a time can be read in both forms or in none")
	sym.Assert((p != nil) == (len(e1) == 0), "a time that is not null gives a pointer or an error")
	if p != nil {
		sym.Assert(p.UnixNano() == t.UnixNano() && p.Unix() == t.Unix() && p.Year() == t.Year(), "both forms give the same time")
	}
	p2, e3 := m.GetTime("a")
	sym.Assert((len(e3) == 0) == (len(e1) == 0), "a time of a map can be read as one of a value")
	if p != nil {
		sym.Assert(p2 != nil && p2.UnixNano() == p.UnixNano() && p2.Unix() == t.Unix(), "a time of a map is read as one of a value")
	}
	if sym.Choose("clone", 2) == 0 {
		return
	}
	c, errs := v.Clone()
	sym.Assert(c != nil && len(errs) == 0, "a value can be cloned")
	t3, e5 := c.GetTimeValue()
	sym.Assert((len(e5) == 0) == (len(e1) == 0) && (len(e5) > 0 || t3.Unix() == t.Unix()), "a cloned time is the same")
}

// numbers and truths at their limits, in both forms, everywhere
func C16_Limits() {
	acc := kBool + sym.Choose("accessor", kinds-1)
	var o interface{}
	switch sym.Choose("what", 3) {
	case 0:
		o = []interface{}{0, int8(-128), int16(-32768), int32(-2147483648), int64(-1 << 63), int64(1<<63 - 1), uint64(1<<64 - 1), uint8(255), uint16(65535), uint32(1<<32 - 1), uint(0)}[sym.Choose("integer", 11)]
	case 1:
		o = []interface{}{0.0, -0.0, 0.5, -1.5, 1e300, 3e38, float32(0.1), float32(3e38), 1e-9, 255.0, 256.5, float32(-0.25)}[sym.Choose("decimal", 12)]
	case 2:
		o = []interface{}{"0", "1", "-1", "true", "false", "True", "255", "256", "-128", "1.5", "1e3", "", " 1", "1 ", "NaN", "inf", "0x1", "18446744073709551615", "-9223372036854775808", "nil", "null"}[sym.Choose("text", 21)]
	}
	v := json.NewValue(o)
	agree(read(v, acc, false), read(v, acc, true))
	m := json.NewMap()
	m.SetObjectForMap("a", o)
	agree(readKey(m, "a", acc, false), readKey(m, "a", acc, true))
}

// values that hold one thing after the other
func C16_Changing() {
	kind := sym.Choose("kind", kinds)
	other := []int{kind, kNil, kString, kInt8}[sym.Choose("other", 4)]
	acc := []int{kBool, kString, kInt8, kUInt64, kFloat64}[sym.Choose("accessor", 5)]
	changing(plainScalar(kind, 0), plainScalar(other, 1), func(v *json.Value, x *scalar) {
		agree(read(v, acc, false), read(v, acc, true))
		agree(read(v, acc, false), read(json.NewValue(x.object(false)), acc, true))
	})
}

// plainScalar is a small scalar of a kind.
func plainScalar(kind, i int) *scalar {
	return &scalar{kind: kind, b: i == 0, s: []string{"1", "true"}[i], vInt: 1 + i, vInt8: int8(1 - 2*i), vInt16: int16(1 - 2*i), vInt32: int32(300 * i), vInt64: int64(1 - 2*i), vUInt: uint(1 + i), vUInt8: uint8(1 + i),
		vUInt16: uint16(300 * i), vUInt32: uint32(1 + i), vUInt64: uint64(1 + i), vFloat32: 1.5 - float32(i), vFloat64: 1.5 - float64(i)}
}
