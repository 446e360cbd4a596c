package h

import (
	"errors"
	"fmt"
	"math"
	"net/url"
	"strconv"
	"strings"

	json "github.com/matehaxor03/holistic_json/json"

	"verifharness/sym"
)

// legal asserts that serialising a document either fails or writes JSON.
func legal(m *json.Map) (string, bool) {
	var b strings.Builder
	errs := m.ToJSONString(&b)
	if len(errs) > 0 {
		sym.Reach("errors reported")
		return "", false
	}
	t := b.String()
	_, valid := strictly(t)
	sym.Assert(valid, "what is written is JSON")
	return t, true
}

func must(m *json.Map) {
	_, ok := legal(m)
	sym.Assert(ok, "a document of objects, arrays, strings, numbers, booleans and nulls is written")
}

// strings and keys of any bytes
func C12_Strings() {
	must(holding(sym.Choose("pos", sym.Bound("positions of strings", 4, positions)), sym.Str("s", 1+sym.Choose("n", sym.Bound("free bytes of a string", 2, 3)))))
}

func C12_Special() {
	must(holding([]int{0, 3, 6}[sym.Choose("pos", 3)], sym.StrIn("s", 1+sym.Choose("n", sym.Bound("special bytes of a string", 4, 6)), "\"\\\n\x01\x1f u\xc3")))
}

// integers, booleans, null
func C12_Scalars() {
	x := anyScalar([]int{kNil, kBool, kInt8, kUInt8, kInt16, kInt64, kUInt64, kInt, kUInt, kInt32, kUInt16, kUInt32}[sym.Choose("kind", sym.Bound("kinds", 6, 12))], "v", 0)
	ptr := sym.Choose("ptr", 2) == 1
	m := json.NewMap()
	a := json.NewArray()
	x.setIn(m, "a", ptr)
	x.appendTo(a, ptr)
	m.SetArray("b", a)
	must(m)
}

// floats: any single
func C12_Float32() {
	f := sym.Float32("f")
	x := &scalar{kind: kFloat32, vFloat32: f}
	floating(x, f != f || math.IsInf(float64(f), 0))
}

// floats: any double
func C12_Float64() {
	f := sym.Float64("f")
	x := &scalar{kind: kFloat64, vFloat64: f}
	floating(x, f != f || math.IsInf(f, 0))
}

func floating(x *scalar, bad bool) {
	ptr := sym.Choose("ptr", 2) == 1
	m := json.NewMap()
	within(m, sym.Choose("where", wheres), func(m *json.Map) { x.setIn(m, "a", ptr) }, func(a *json.Array) { x.appendTo(a, ptr) })
	if sym.Fork(bad) {
		_, ok := legal(m)
		sym.Assert(!ok, "not-a-number and infinite values are reported as errors")
		return
	}
	must(m)
}

// float values at the ends of their ranges
func C12_Extremes() {
	fs := []float64{0, math.Copysign(0, -1), 1, 1e20, 1e21, 1e22, 1e-6, 1e-7, 5e-324, math.MaxFloat64, -math.MaxFloat64, 0.1, 1e300, 123456789.125, math.NaN(), math.Inf(1), math.Inf(-1)}
	f := fs[sym.Choose("f", len(fs))]
	if sym.Choose("single", 2) == 1 {
		g := float32(f)
		floating(&scalar{kind: kFloat32, vFloat32: g}, g != g || math.IsInf(float64(g), 0))
		return
	}
	floating(&scalar{kind: kFloat64, vFloat64: f}, f != f || math.IsInf(f, 0))
}

// nested shapes
func C12_Shapes() {
	b := &builder{left: sym.Bound("values of a built document", 3, 5), keys: keyIn("a\n"), scal: oneOf(&scalar{kind: kNil}, &scalar{kind: kString, s: "\x00"}), styles: 1}
	m, _ := b.obj(3)
	must(m)
}

// error lists, in every form
func C12_Errors() {
	n := sym.Choose("n", 3)
	var es []error
	for i := 0; i < n; i++ {
		es = append(es, errors.New(sym.Str("message", sym.Choose("len", 3))))
	}
	m := json.NewMap()
	switch sym.Choose("as", 4) {
	case 0:
		m.SetErrors("a", es)
	case 1:
		m.SetObjectForMap("a", &es)
	case 2:
		v := json.NewValue(nil)
		v.SetErrorsValue(es)
		a := json.NewArray()
		a.AppendValue(v)
		a.AppendValue(v)
		m.SetArray("a", a)
	case 3:
		if n == 0 {
			return
		}
		v := json.NewValue(nil)
		v.SetErrorValue(es[0])
		m.SetValue("a", v)
	}
	m.SetIntValue("z", 1)
	legal(m)
}

// what can not be written is reported, not written wrongly
func C12_Foreign() {
	m := json.NewMap()
	var o interface{}
	what := sym.Choose("what", 8+everything)
	switch what {
	default:
		o = otherObject(what - 8)
	case 0:
		o = struct{ a int }{1}
	case 1:
		o = complex(1, 2)
	case 2:
		o = []int{1}
	case 3:
		o = map[string]int{"a": 1}
	case 4:
		var c chan int
		o = c
	case 5:
		o = func() {}
	case 6:
		f := func(string) []error { return nil }
		o = &f
	case 7:
		o = &struct{ s string }{"\""}
	}
	within(m, sym.Choose("where", wheres), func(m *json.Map) { m.SetObjectForMap("b", o) }, func(a *json.Array) { a.AppendValue(json.NewValue(o)) })
	m.SetNil("z")
	legal(m)
}

// within puts something somewhere in a document, in containers of every form.
func within(m *json.Map, where int, set func(*json.Map), add func(*json.Array)) {
	in, a := json.NewMap(), json.NewArray()
	switch where {
	case 0:
		set(m)
		return
	case 1, 2, 3:
		a.AppendBoolValue(true)
		add(a)
	case 4, 5, 6:
		a.AppendNil()
		in.SetNil("n")
		set(in)
	}
	switch where {
	case 1:
		m.SetArray("a", a)
		m.SetNil("b")
	case 2:
		m.SetObjectForMap("a", *a)
	case 3:
		in.SetArrayValue("c", *a)
		a = json.NewArray()
		a.AppendMapValue(*in)
		m.SetArray("a", a)
	case 4:
		a.AppendMap(in)
		m.SetArray("a", a)
	case 5:
		m.SetMapValue("a", *in)
		m.SetStringValue("b", "x")
	case 6:
		a.AppendMapValue(*in)
		b := json.NewArray()
		b.AppendArrayValue(*a)
		m.SetObjectForMap("a", b)
	}
}

const wheres = 7

// an array serialised by itself
func C12_Array() {
	b := &builder{left: sym.Bound("values of a built array", 3, 4), keys: keyIn("ab"), scal: oneOf(&scalar{kind: kNil}, &scalar{kind: kString, s: "\""}), styles: 2}
	a, n := b.arr(2)
	var out strings.Builder
	errs := a.ToJSONString(&out)
	sym.Assert(len(errs) == 0, "an array is written")
	ref, valid := strictly(`{"a":` + out.String() + `}`)
	sym.Assert(valid, "what is written is JSON")
	sym.Assert(len(ref.kids[0].kids) == len(n.kids), "with every element")
}

// very large documents of every shape
func C12_Great() {
	m, _ := anyBig(3, 4)
	must(m)
}

// nils of every origin among other members and elements
func C12_Nils() {
	n := 1 + sym.Choose("n", sym.Bound("members, some of them nil", 3, 4))
	where := sym.Choose("where", wheres)
	m := json.NewMap()
	s := sym.Str("s", 1)
	how := sym.Choose("how", 3)
	nils := []int{nilsOfMap, nilsOfValue, 2}[how]
	origin := sym.Choose("origin", nils)
	within(m, where, func(m *json.Map) {
		for i := 0; i < n; i++ {
			k := string(rune('p' + i))
			switch {
			case sym.Choose("nil", 2) == 0:
				m.SetStringValue(k, s)
			case how == 0:
				setNilIn(m, k, origin)
			case how == 1:
				v := json.NewValue(1)
				setNil(v, origin)
				m.SetValue(k, v)
			case origin == 0:
				m.SetValue(k, nil)
			default:
				m.SetNil(k)
			}
		}
	}, func(a *json.Array) {
		for i := 0; i < n; i++ {
			switch {
			case sym.Choose("nil", 2) == 0:
				a.AppendStringValue(s)
			case how == 0:
				appendNil(a, origin%nilsOfArray)
			case how == 1:
				v := json.NewValue(1)
				setNil(v, origin)
				a.AppendValue(v)
			case origin == 0:
				a.AppendValue(nil)
			default:
				a.AppendNil()
			}
		}
	})
	must(m)
}

// bad is a value that has no place in JSON.
func bad(kind int) interface{} {
	switch kind {
	case 0:
		return math.NaN()
	case 1:
		return float32(math.Inf(1))
	case 2:
		f := math.Inf(-1)
		return &f
	case 3:
		return complex(1, 2)
	}
	return struct{ a int }{1}
}

// several such values among others: one is enough to fail
func C12_Several() {
	n := 1 + sym.Choose("n", sym.Bound("elements, some of them unfit", 5, 7))
	fit := sym.Choose("fit", 2) == 1
	kind := sym.Choose("kind", 5)
	where := sym.Choose("where", wheres)
	m := json.NewMap()
	bads := 0
	obj := func(i int) interface{} {
		if fit && sym.Choose("bad", 2) == 0 {
			return i
		}
		bads++
		return bad(kind)
	}
	within(m, where, func(m *json.Map) {
		for i := 0; i < n; i++ {
			m.SetObjectForMap(string(rune('p'+i)), obj(i))
		}
	}, func(a *json.Array) {
		for i := 0; i < n; i++ {
			a.AppendValue(json.NewValue(obj(i)))
		}
	})
	_, ok := legal(m)
	sym.Assert(ok == (bads == 0), "values that have no place in JSON are reported as errors, others are written")
}

// many of them, all over
func C12_SeveralWide() {
	n := []int{8, 9, 16, 17, 33, 65, 129, 257}[sym.Choose("n", sym.Bound("unfit elements, of 8 to 257", 6, 8))]
	m, a := json.NewMap(), json.NewArray()
	kind := sym.Choose("kind", 5)
	how := sym.Choose("how", 4)
	for i := 0; i < n; i++ {
		k := "k" + strconv.Itoa(i)
		switch how {
		case 0:
			a.AppendValue(json.NewValue(bad(kind)))
		case 1:
			m.SetObjectForMap(k, bad(kind))
		case 2:
			in := json.NewMap()
			in.SetObjectForMap("x", bad(kind))
			a.AppendMap(in)
		case 3:
			in := json.NewArray()
			in.AppendValue(json.NewValue(bad(kind)))
			m.SetArray(k, in)
		}
	}
	m.SetArray("a", a)
	_, ok := legal(m)
	sym.Assert(!ok, "values that have no place in JSON are reported as errors")
}

// error lists of any length, in every form
func C12_ManyErrors() {
	n := 3 + sym.Choose("n", sym.Bound("errors of a list", 38, 140))
	if sym.Choose("far", 8) == 7 {
		n = []int{130, 300, 1100}[sym.Choose("size", 3)]
	}
	es := make([]error, n)
	for i := range es {
		es[i] = errors.New("e" + strconv.Itoa(i))
	}
	if sym.Choose("odd", 2) == 1 {
		es[n-1] = errors.New("\"\\\n")
	}
	m := json.NewMap()
	m.SetIntValue("y", 1)
	m.SetValue("a", storeErrors0(es))
	m.SetErrors("b", es)
	m.SetIntValue("z", 1)
	legal(m)
}

// errors of every type, with any message
func C12_ErrorTypes() {
	msg := sym.Str("message", sym.Choose("len", sym.Bound("bytes of an error", 3, 5)))
	if sym.Choose("special", 2) == 1 {
		msg = []string{"\\", "\"", "\\\"", "a\\", "\\u0041", "\n", "\x00", "\x7f", "\xff", "</", "\u2028"}[sym.Choose("which", 11)]
	}
	var e error
	switch sym.Choose("type", 6) {
	case 0:
		e = errors.New(msg)
	case 1:
		e = &url.Error{Op: "get", URL: "u", Err: errors.New(msg)}
	case 2:
		e = &url.Error{Op: msg, URL: "u", Err: errors.New("x")}
	case 3:
		e = fmt.Errorf("a: %w", errors.New(msg))
	case 4:
		e = someError{msg}
	case 5:
		e = &otherError{msg}
	}
	v := json.NewValue(e)
	switch sym.Choose("stored", 4) {
	case 1:
		v.SetErrorValue(e)
	case 2:
		v.SetError(&e)
	case 3:
		v.SetErrorsValue([]error{e, e})
	}
	m := json.NewMap()
	m.SetValue("a", v)
	m.SetIntValue("z", 1)
	legal(m)
	if c, errs := m.Clone(); len(errs) == 0 {
		legal(c)
	}
}
