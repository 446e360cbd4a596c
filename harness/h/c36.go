package h

import (
	"strings"

	json "github.com/matehaxor03/holistic_json/json"

	"verifharness/sym"
)

// written1 writes something by itself, behind what a builder holds.
func written1(o interface{}) (string, bool) {
	const before = "held: "
	var b strings.Builder
	b.WriteString(before)
	errs := json.ConvertInterfaceValueToJSONStringValue(&b, o)
	t := b.String()
	sym.Assert(len(t) >= len(before) && t[:len(before)] == before, "what the builder held stays")
	return t[len(before):], len(errs) == 0
}

// alone checks that something is written alone as it is written in documents.
func alone(o interface{}) {
	t, ok := written1(o)
	for place := 0; place < 3; place++ {
		var b strings.Builder
		before, after := `{"k":`, `}`
		m := json.NewMap()
		v := json.NewValue(o)
		switch place {
		case 0:
			m.SetValue("k", v)
		case 1:
			a := json.NewArray()
			a.AppendValue(json.NewValue("first"))
			a.AppendValue(v)
			m.SetArray("k", a)
			before, after = `{"k":["first",`, `]}`
		case 2:
			in := json.NewMap()
			in.SetValue("in", v)
			m.SetMap("k", in)
			before, after = `{"k":{"in":`, `}}`
		}
		errs := m.ToJSONString(&b)
		sym.Assert((len(errs) == 0) == ok, "what can be written alone can be written in a document, and nothing else")
		if ok {
			sym.Assert(b.String() == before+t+after, "what is written alone is what is written in a document")
		}
	}
	// in a value, behind a pointer and not
	for form := 0; form < 2; form++ {
		var u string
		var fine bool
		if form == 0 {
			u, fine = written1(json.NewValue(o))
		} else {
			u, fine = written1(json.NewValueValue(o))
		}
		sym.Assert(fine == ok, "what can be written can be written in a value, and nothing else")
		if ok {
			sym.Assert(u == t, "a value is written as what it holds")
		}
	}
}

// any whole number, text, or truth value
func C36_Scalars() {
	x := anyScalar(sym.Choose("kind", kFloat32), "x", sym.Choose("n", sym.Bound("bytes of a text", 3, 4)))
	alone(x.object(sym.Choose("ptr", 2) == 1))
}

// decimals, and the edges of whole numbers
func C36_Decimals() {
	k := kFloat32 + sym.Choose("kind", kinds-kFloat32)
	f := []float64{0, 1, -1.5, 0.1, 1e20, 1e21, 1e-7, 3.4028234663852886e38, 123456789, 1e300, -1e-300, 16777217}[sym.Choose("decimal", 12)]
	x := &scalar{kind: k, vFloat32: float32(f), vFloat64: f}
	alone(x.object(sym.Choose("ptr", 2) == 1))
}

// everything else that can be held, and what can not
func C36_Others() {
	alone(otherObject(sym.Choose("object", others)))
}

// containers of every shape, by pointer and by value
func C36_Containers() {
	b := &builder{left: sym.Bound("values of a built document", 3, 4), keys: keyIn("ab"), scal: oneOf(&scalar{kind: kString, s: "x\""}), styles: 2}
	m, _ := b.obj(3)
	want := text(m)
	t, ok := written1(m)
	sym.Assert(ok && t == want, "a map is written by its own writer as by itself")
	t, ok = written1(*m)
	sym.Assert(ok && t == want, "a map by value is written by its own writer as by itself")
	alone(m)
	// from its parts
	parts := "{"
	for i, k := range m.GetKeys() {
		if i > 0 {
			parts += ","
		}
		v := m.GetValue(k)
		t, ok := written1(v)
		sym.Assert(ok, "a part can be written")
		parts += `"` + k + `":` + t
		t2, ok := written1(v.GetObject())
		sym.Assert(ok && t2 == t, "what a value holds is written as the value")
		if v.IsArray() {
			a, errs := v.GetArray()
			sym.Assert(a != nil && len(errs) == 0, "an array can be read")
			var out strings.Builder
			errs = a.ToJSONString(&out)
			sym.Assert(len(errs) == 0 && out.String() == t, "an array is written by itself as in a document")
			list := "["
			for j, e := range *a.GetValues() {
				if j > 0 {
					list += ","
				}
				u, ok := written1(e)
				sym.Assert(ok, "an element can be written")
				list += u
			}
			sym.Assert(list+"]" == t, "an array is written as its elements")
		}
		if v.IsMap() {
			in, errs := v.GetMap()
			sym.Assert(in != nil && len(errs) == 0, "a map can be read")
			sym.Assert(text(in) == t, "a map is written by itself as in a document")
		}
	}
	sym.Assert(parts+"}" == want, "a document is written as its parts")
}

// nothing, in all its forms
func C36_Nothing() {
	v := json.NewValue(1)
	if i := sym.Choose("nil", nilsOfValue+1); i < nilsOfValue {
		setNil(v, i)
	} else {
		v = json.NewValue(nil)
	}
	t, ok := written1(v.GetObject())
	sym.Assert(ok && t == "null", "nothing is written as null")
	alone(v.GetObject())
	var none *json.Value
	t, ok = written1(none)
	sym.Assert(ok && t == "null", "no value is written as null")
}

// several things into one builder, one after the other
func C36_Several() {
	m := parse(`{"a":{"b":[1,"x",null]},"c":[{},[]],"d":-1.5,"e":true,"f":"é\n"}`)
	keys, n := m.GetKeys(), snapMap(m)
	var b strings.Builder
	want := ""
	for i := 0; i < sym.Bound("things written", 3, 4); i++ {
		v := m.GetValue(keys[sym.Choose("which", len(keys))])
		t, ok := written1(v)
		sym.Assert(ok, "a part can be written")
		var errs []error
		if sym.Choose("form", 2) == 0 {
			errs = json.ConvertInterfaceValueToJSONStringValue(&b, v)
		} else {
			errs = json.ConvertInterfaceValueToJSONStringValue(&b, v.GetObject())
		}
		want += t
		sym.Assert(len(errs) == 0 && b.String() == want, "what is written is appended")
	}
	same(n, snapMap(m), "writing parts changes nothing")
	errs := json.ConvertInterfaceValueToJSONStringValue(nil, m)
	sym.Assert(len(errs) > 0, "writing to nothing is an error")
}

// parts of great documents
func C36_Great() {
	shape := sym.Choose("shape", bigs)
	n := []int{40, 130}[sym.Choose("size", sym.Bound("sizes", 1, 2))]
	x := plainScalar(kString, 0)
	x.s = sym.Str("s", 1)
	m, _ := big(shape, n, n/2, x)
	want := text(m)
	parts := "{"
	for i, k := range m.GetKeys() {
		if i > 0 {
			parts += ","
		}
		t, ok := written1(m.GetValue(k))
		sym.Assert(ok, "a part can be written")
		parts += `"` + k + `":` + t
	}
	sym.Assert(parts+"}" == want, "a document is written as its parts")
}
