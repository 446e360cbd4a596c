package h

import (
	"errors"
	"strings"
	"sync"

	json "github.com/matehaxor03/holistic_json/json"

	"verifharness/sym"
)

// together does something in two threads at once, where the race detector watches; symbolically, once,
// where every write to memory that existed before and is shared is counted.
func together(what string, f func(), shared ...interface{}) {
	apart(what, f, f, shared...)
}

// apart does two things at once.  What the second shares with the first is given.
func apart(what string, f, g func(), shared ...interface{}) {
	if sym.Symbolic() {
		sym.Freeze("shared memory", shared...)
		sym.FreezeGlobals()
		f()
		first := sym.FirstWrite()
		sym.Assert(sym.Writes() == 0, what+": writes nothing that others can see"+first)
		sym.Thaw()
		return
	}
	var start, end sync.WaitGroup
	start.Add(1)
	end.Add(2)
	for _, op := range []func(){f, g} {
		go func(op func()) {
			defer end.Done()
			start.Wait()
			op()
		}(op)
	}
	start.Done()
	end.Wait()
}

// walk reads all of a value.
func walk(v *json.Value) {
	if v == nil {
		return
	}
	v.IsNil()
	v.GetType()
	v.GetObject()
	switch {
	case v.IsMap():
		m, _ := v.GetMap()
		walkMap(m)
	case v.IsArray():
		a, _ := v.GetArray()
		walkArray(a)
	case v.IsString():
		v.GetString()
	case v.IsBool():
		v.GetBool()
	case v.IsNumber():
		v.GetInt64()
		v.GetUInt64()
		v.GetFloat64()
	}
}

func walkMap(m *json.Map) {
	for _, k := range m.GetKeys() {
		m.HasKey(k)
		m.IsNull(k)
		m.GetType(k)
		walk(m.GetValue(k))
	}
	vs := m.Values()
	vs.Len()
	for _, v := range *vs.GetValues() {
		v.IsNil()
		v.GetType()
	}
}

func walkArray(a *json.Array) {
	a.Len()
	for _, v := range *a.GetValues() {
		walk(v)
	}
}

// readAll reads a document in one of the ways that cover all of it.
func readAll(m *json.Map, how int) {
	switch how {
	case 0:
		walkMap(m)
	case 1:
		var out strings.Builder
		m.ToJSONString(&out)
	case 2:
		m.Clone()
	case 3:
		for _, k := range m.GetKeys() {
			v := m.GetValue(k)
			v.Clone()
			json.ConvertInterfaceValueToStringValue(v)
			var out strings.Builder
			json.ConvertInterfaceValueToJSONStringValue(&out, v)
		}
	case 4:
		for _, k := range m.GetKeys() {
			if a, _ := m.GetArray(k); a != nil {
				a.Clone()
				var out strings.Builder
				a.ToJSONString(&out)
				a.GetArrayOfInt64()
				a.GetArrayOfString()
				a.GetArrayOfFloat64Value()
			}
		}
	}
}

const waysToReadAll = 5

// stored is a value of any kind.
func stored() *json.Value {
	k := sym.Choose("kind", kinds+everything)
	if k < kinds {
		return json.NewValue(anyScalar(k, "x", sym.Choose("len", 2)).object(sym.Choose("ptr", 2) == 1))
	}
	return json.NewValue(otherObject(k - kinds))
}

// every reader of a value
func C30_Value() {
	v := stored()
	i, s, n := sym.Choose("reader", readersOfValue), sym.Str("s", 1), sym.Choose("n", 3)*3
	together("reading a value", func() { readValue(v, i, s, n) }, v)
}

// every reader of a map
func C30_Map() {
	m := json.NewMap()
	m.SetValue("a", stored())
	m.SetStringValue("b", "12")
	i, n := sym.Choose("reader", readersOfMap), 2
	k := []string{"a", "b", "absent"}[sym.Choose("key", 3)]
	together("reading a map", func() { readMap(m, i, k, n) }, m)
}

// every reader of an array
func C30_Array() {
	a := json.NewArray()
	if sym.Choose("empty", 2) == 0 {
		a.AppendValue(stored())
		a.AppendIntValue(12)
	}
	i, n := sym.Choose("reader", readersOfArray), sym.Choose("n", 3)
	together("reading an array", func() { readArray(a, i, "a", n) }, a)
}

// every reader of the parts of a parsed document
func C30_Parsed() {
	g := &gen{left: sym.Bound("values of a text", 3, 4), keys: "ab", scal: []string{"1", `"x"`, "null", "2.5", "true"}}
	m := parse(g.object(3))
	how := sym.Choose("how", waysToReadAll)
	together("reading a parsed document", func() { readAll(m, how) }, m)
}

// and of built ones
func C30_Built() {
	b := &builder{left: sym.Bound("values of a built document", 2, 3), keys: keyIn("ab"), scal: oneOf(&scalar{kind: kString, s: "x"}, &scalar{kind: kUInt8, vUInt8: 3}), styles: 2}
	m, _ := b.obj(3)
	how := sym.Choose("how", waysToReadAll)
	together("reading a built document", func() { readAll(m, how) }, m)
}

// two ways of reading at once: neither sees what the other does, for neither writes
func C30_Readers() {
	m := parse(`{"a":[1,"x",{"b":null,"c":[2.5]}],"d":{"e":true,"é":"\"\\"},"f":18446744073709551615,"g":"12"}`)
	m.SetValue("h", stored())
	one, other := sym.Choose("one", waysToReadAll), sym.Choose("other", waysToReadAll)
	apart("reading a document", func() { readAll(m, one) }, func() { readAll(m, other) }, m)
}

// after a history of changes
func C30_Changed() {
	m := parse(`{"a":[1,2,{"b":3}],"c":{"d":"x"},"e":null}`)
	p := &parts{}
	p.inMap(m)
	sym.Assume(p.alter())
	how := sym.Choose("how", waysToReadAll)
	together("reading a changed document", func() { readAll(m, how) }, m)
}

// a text is parsed without writing anything that exists
func C30_Parse() {
	t := elsewhere[sym.Choose("text", len(elsewhere))]
	if sym.Choose("any", 2) == 1 {
		t = `{"a":` + sym.Str("t", sym.Bound("bytes of a value", 2, 3)) + "}"
	}
	m := parse(`{"a":[1,"x",{"b":null}]}`)
	together("parsing", func() { json.Parse(t) }, m)
}

// a document is made, changed and written without writing anything of another
func C30_Separate() {
	t := `{"a":[1,"x",{"b":null}],"c":{"d":2.5}}`
	m, o := parse(t), parse(t)
	op := sym.Choose("op", 8)
	k, c := sym.Choose("kind", kinds), sym.Choose("other", others)
	if op > 1 {
		sym.Assume(k == 0)
	}
	if op != 2 {
		sym.Assume(c == 0)
	}
	x := anyScalar(k, "x", 1)
	obj := otherObject(c)
	f := func(m *json.Map) {
		switch op {
		case 0:
			x.setIn(m, "a", false)
		case 1:
			a, _ := m.GetArray("a")
			x.appendTo(a, true)
		case 2:
			m.SetObjectForMap("a", obj)
			m.SetObjectForMap("new", obj)
		case 3:
			m.RemoveKey("a")
			m.SetNil("c")
			m.SetIntValue("a", 2)
		case 4:
			a, _ := m.GetArray("a")
			a.RemoveValueAtIndex(1)
			a.SetValueAtIndex(0, json.NewValue(nil))
			a.AppendMap(json.NewMap())
		case 5:
			d, _ := m.GetMap("c")
			d.SetStringValue("d", "y")
			d.SetArray("e", json.NewArray())
		case 6:
			n := json.NewMapOfValues(&map[string]interface{}{"a": 1, "b": "x"})
			a := json.NewArrayOfValues(&[]interface{}{1, "x", nil})
			n.SetArray("c", a)
			m.SetMap("n", n)
		case 7:
			v := m.GetValue("a")
			v.SetStringValue("y")
			v.SetObject(1)
			v.SetNil()
		}
		readAll(m, 1)
		readAll(m, 2)
	}
	if sym.Symbolic() {
		apart("changing a document", func() { f(m) }, nil, o)
		return
	}
	apart("changing a document", func() { f(m) }, func() { f(o) })
}

// a document is changed without writing anything of its clone, and the other way round
func C30_Cloned() {
	m := parse(`{"a":[1,"x",{"b":null}],"c":{"d":2.5}}`)
	if sym.Choose("held", 2) == 1 {
		m.SetValue("a", stored())
	}
	c, errs := m.Clone()
	sym.Assume(c != nil && len(errs) == 0)
	if sym.Choose("which", 2) == 1 {
		m, c = c, m
	}
	f := func() {
		m.SetIntValue("new", 1)
		for _, k := range []string{"a", "c"} {
			if a, _ := m.GetArray(k); a != nil {
				a.AppendNil()
				a.RemoveValueAtIndex(0)
			}
			if d, _ := m.GetMap(k); d != nil {
				d.SetStringValue("d", "y")
				d.RemoveKey("d")
			}
			m.GetValue(k).SetStringValue("z")
			m.RemoveKey(k)
		}
		readAll(m, 1)
	}
	apart("changing a document", f, func() { readAll(c, 0); readAll(c, 1) }, c)
}

// many were there, most are removed
func C30_Shrunk() {
	n := []int{9, 17, 40}[sym.Choose("n", sym.Bound("members before most are removed", 2, 3))]
	left := sym.Choose("left", 4)
	m, a := json.NewMap(), json.NewArray()
	for i := 0; i < n; i++ {
		m.SetIntValue(strings.Repeat("k", i), i)
		a.AppendIntValue(i)
	}
	from := 0
	if sym.Choose("end", 2) == 1 {
		from = n - 1
	}
	for i := 0; i < n-left; i++ {
		k := i
		if from > 0 {
			k = n - 1 - i
		}
		m.RemoveKey(strings.Repeat("k", k))
		at := 0
		if from > 0 {
			at = a.Len() - 1
		}
		a.RemoveValueAtIndex(at)
	}
	how := sym.Choose("how", waysToReadAll+1)
	if how == waysToReadAll {
		i := sym.Choose("reader", readersOfArray)
		together("reading an array that shrank", func() { readArray(a, i, "", 0) }, a)
		return
	}
	m.SetArray("a", a)
	together("reading a document that shrank", func() { readAll(m, how) }, m)
}

// lists with room for more
func C30_Spare() {
	n, spare := sym.Choose("n", 3), sym.Choose("spare", 3)
	ss, es := make([]string, n, n+spare), make([]error, n, n+spare)
	for i := range ss {
		ss[i] = sym.Str("s", 1)
		es[i] = errors.New(ss[i])
	}
	v := json.NewValue(ss)
	switch sym.Choose("kind", 4) {
	case 1:
		v = json.NewValue(&ss)
	case 2:
		v = json.NewValue(es)
	case 3:
		v = json.NewValue(&es)
	}
	m := json.NewMap()
	m.SetValue("a", v)
	i := sym.Choose("reader", readersOfValue+readersOfMap)
	together("reading a list", func() {
		if i < readersOfValue {
			readValue(v, i, "x", 1)
		} else {
			readMap(m, i-readersOfValue, "a", 1)
		}
	}, v, m)
}

// large documents
func C30_Large() {
	n := []int{40, 300}[sym.Choose("n", 2)]
	m, _ := big(sym.Choose("shape", bigs), n, n-1, &scalar{kind: kString, s: "x"})
	how := sym.Choose("how", waysToReadAll)
	together("reading a large document", func() { readAll(m, how) }, m)
}

// documents of long texts and keys
func C30_Long() {
	n := []int{20, 50, 150, 700}[sym.Choose("n", 4)]
	long := strings.Repeat("long text\n", n/10)
	m, in, a := json.NewMap(), json.NewMap(), json.NewArray()
	a.AppendStringValue(long)
	a.AppendString(&long)
	in.SetStringValue(long, long)
	in.SetString("p", &long)
	m.SetArray(long+"a", a)
	m.SetMap(long+"m", in)
	es := make([]error, n/10)
	for i := range es {
		es[i] = errors.New(long)
	}
	if sym.Choose("errors", 2) == 1 {
		m.SetErrors("e", es)
	}
	if sym.Choose("parsed", 2) == 1 && !m.HasKey("e") {
		m = parse(text(m))
	}
	switch sym.Choose("what", 2) {
	case 0:
		how := sym.Choose("how", waysToReadAll)
		together("reading a document of long texts", func() { readAll(m, how) }, m)
	case 1:
		v := json.NewValue(&long)
		i := sym.Choose("reader", readersOfValue)
		together("reading a long text", func() { readValue(v, i, "x", 3) }, v)
	}
}
