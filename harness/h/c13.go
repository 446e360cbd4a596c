package h

import (
	"strconv"
	"strings"

	json "github.com/matehaxor03/holistic_json/json"

	"verifharness/sym"
)

// repeated serialises a document several times and checks that nothing else happens.
func repeated(m *json.Map, n *node) {
	before := sym.Str("before", sym.Choose("held", 3))
	same(n, snapMap(m), "the document built")
	keys := append([]string{}, m.GetKeys()...)
	var out strings.Builder
	out.WriteString(before)
	errs := m.ToJSONString(&out)
	sym.Assert(len(errs) == 0, "the document can be serialised")
	first := out.String()
	sym.Assert(len(first) >= len(before) && first[:len(before)] == before, "what the builder held stays")
	t := first[len(before):]
	same(n, snapMap(m), "serialising changes nothing")
	errs = m.ToJSONString(&out)
	sym.Assert(len(errs) == 0, "the document can be serialised again")
	sym.Assert(out.String() == first+t, "serialising again appends the same text")
	same(n, snapMap(m), "serialising again changes nothing")
	sym.Assert(text(m) == t, "the text does not depend on the builder")
	for i, k := range m.GetKeys() {
		sym.Assert(keys[i] == k, "the keys stay in order")
	}
	// in insertion order, as the tree says
	ref, valid := strictly(t)
	sym.Assert(valid, "what is written is JSON")
	inOrder(n, ref)
}

func inOrder(n, ref *node) {
	sym.Assert(len(ref.keys) == len(n.keys) && len(ref.kids) == len(n.kids), "every member is written once")
	for i := range n.keys {
		sym.Assert(ref.keys[i] == n.keys[i], "members are written in insertion order")
	}
	for i := range n.kids {
		inOrder(n.kids[i], ref.kids[i])
	}
}

// every small shape
func C13_Shapes() {
	b := &builder{left: sym.Bound("values of a built document", 3, 4), keys: keyIn("ab"), scal: oneOf(&scalar{kind: kString, s: "x"}), styles: 1}
	m, n := b.obj(3)
	repeated(m, n)
}

// any scalars
func C13_Scalars() {
	x := anyScalar(sym.Choose("kind", kFloat32), "x", 1)
	m := json.NewMap()
	a := json.NewArray()
	ptr := sym.Choose("ptr", 2) == 1
	x.setIn(m, "b", ptr)
	x.appendTo(a, ptr)
	m.SetArray("a", a)
	n := snapMap(m)
	var out strings.Builder
	errs := m.ToJSONString(&out)
	sym.Assert(len(errs) == 0, "the document can be serialised")
	t := out.String()
	errs = m.ToJSONString(&out)
	sym.Assert(len(errs) == 0 && out.String() == t+t, "serialising again appends the same text")
	same(n, snapMap(m), "serialising changes nothing")
}

// keys and strings of any bytes
func C13_Strings() {
	k, s := sym.Str("k", 1), sym.Str("s", 1+sym.Choose("n", sym.Bound("free bytes of a string", 1, 2)))
	m := json.NewMap()
	m.SetStringValue(k, s)
	m.SetMap("in", holding(sym.Choose("pos", 4), s))
	repeated(m, snapMap(m))
}

// many keys in any order stay in the order they came in
func C13_Order() {
	n := 1 + sym.Choose("n", sym.Bound("members in any order", 4, 5))
	m := json.NewMap()
	want := &node{kind: "map"}
	for i := 0; i < n; i++ {
		k := sym.StrIn("k", 1, "abc")
		m.SetIntValue(k, i)
		want.put(k, &node{kind: "int", u: uint64(i)})
	}
	repeated(m, want)
}

// a parsed document; after a change the text is that of the changed document
func C13_Changed() {
	g := &gen{left: 3, keys: "ab", scal: []string{"1", `"x"`}}
	m := parse(g.object(2))
	n := snapMap(m)
	t := text(m)
	k := sym.StrIn("key", 1, "abc")
	m.SetStringValue(k, "new")
	n.put(k, &node{kind: "string", s: "new"})
	repeated(m, n)
	sym.Assert(text(m) != t, "a change shows")
}

// an array by itself
func C13_Array() {
	b := &builder{left: sym.Bound("values of a built array", 3, 4), keys: keyIn("ab"), scal: oneOf(&scalar{kind: kBool, b: true}), styles: 1}
	a, n := b.arr(2)
	before := sym.Str("before", sym.Choose("held", 2))
	var out strings.Builder
	out.WriteString(before)
	errs := a.ToJSONString(&out)
	sym.Assert(len(errs) == 0, "an array can be serialised")
	t := out.String()
	sym.Assert(t[:len(before)] == before, "what the builder held stays")
	errs = a.ToJSONString(&out)
	sym.Assert(len(errs) == 0 && out.String() == t+t[len(before):], "serialising again appends the same text")
	same(n, snapArray(a), "serialising changes nothing")
}

// wide documents keep their order
func C13_Wide() {
	n := []int{5, 9, 17, 33, 65}[sym.Choose("n", sym.Bound("widths", 4, 5))]
	k := sym.StrIn("k", 2, "kx")
	m := json.NewMap()
	want := &node{kind: "map"}
	for i := 0; i < n; i++ {
		key := "k" + strings.Repeat("x", (i*7)%n)
		if i == n/2 {
			key = k
		}
		m.SetIntValue(key, i)
		want.put(key, &node{kind: "int", u: uint64(i)})
	}
	repeated(m, want)
}

// a document of some members, written before and after each change of it
func C13_Rewritten() {
	m, in, a, p := json.NewMap(), json.NewMap(), json.NewArray(), new(int)
	*p = 5
	in.SetIntValue("x", 1)
	a.AppendIntValue(1)
	a.AppendIntValue(2)
	m.SetStringValue("s", "old")
	m.SetMap("m", in)
	m.SetArray("a", a)
	m.SetInt("p", p)
	s := sym.Str("s", 1)
	steps := sym.Bound("changes between two writes", 2, 3)
	for i := 0; i < steps; i++ {
		again(snapMap(m), snapMap(parse(text(m))), "the text is that of the document")
		switch sym.Choose("change", 8) {
		case 0:
			m.SetStringValue("s", s)
		case 1:
			in.SetStringValue("x", s)
		case 2:
			in.SetStringValue("y", s)
		case 3:
			a.SetValueAtIndex(0, json.NewValue(s))
		case 4:
			a.AppendStringValue(s)
		case 5:
			*p = 6
		case 6:
			m.RemoveKey("s")
			m.SetNil("t")
		case 7:
			m.SetArray("m", json.NewArray())
		}
	}
	repeated(m, snapMap(m))
	again(snapMap(m), snapMap(parse(text(m))), "the text is that of the document")
}

// very large documents of every shape
func C13_Great() {
	m, n := anyBig(2, 4)
	repeated(m, n)
}

// a builder that holds something, full or with room
func C13_Held() {
	n := sym.Choose("n", sym.Bound("bytes a builder holds", 36, 72))
	c := sym.StrIn("c", 1, " {[,\n\"x")
	m, a := json.NewMap(), json.NewArray()
	m.SetStringValue("a", c)
	a.AppendStringValue(c)
	m.SetArray("b", a)
	t := text(m)
	var out strings.Builder
	switch sym.Choose("how", 3) {
	case 0:
		out.Grow(n)
	case 1:
		out.Grow(n + len(t) - 1)
	}
	before := ""
	for i := 0; i < n; i++ {
		if i+2 < n {
			before += " "
		} else {
			before += c
		}
	}
	out.WriteString(before)
	if sym.Choose("what", 2) == 0 {
		errs := m.ToJSONString(&out)
		sym.Assert(len(errs) == 0 && out.String() == before+t, "the text is added to what the builder holds")
		return
	}
	var fresh strings.Builder
	sym.Assert(len(a.ToJSONString(&fresh)) == 0, "an array can be serialised")
	errs := a.ToJSONString(&out)
	sym.Assert(len(errs) == 0 && out.String() == before+fresh.String(), "the text is added to what the builder holds")
}

// a document with long texts, keys or many members is written again after each change of it
func C13_RewrittenLong() {
	n := []int{20, 70, 300, 1100}[sym.Choose("n", sym.Bound("long parts of a document written again, of 20 to 1100", 3, 4))]
	m, in, a := json.NewMap(), json.NewMap(), json.NewArray()
	p, q := new(string), new(int)
	long := strings.Repeat("text ", n/5+1)
	*p, *q = long, 5
	switch sym.Choose("long", 4) {
	case 0:
		in.SetStringValue("x", long)
	case 1:
		in.SetIntValue(long, 1)
	case 2:
		for i := 0; i < n; i++ {
			in.SetIntValue("k"+strconv.Itoa(i), i)
		}
	case 3:
		for i := 0; i < n; i++ {
			a.AppendIntValue(i)
		}
	}
	a.AppendStringValue("first")
	in.SetStringValue("y", "first")
	m.SetString("p", p)
	m.SetInt("q", q)
	m.SetMap("in", in)
	m.SetArray("a", a)
	if sym.Choose("held", 2) == 1 {
		o := json.NewMap()
		o.SetMap("m", m)
		m = o
	}
	again(snapMap(m), snapMap(parse(text(m))), "the text is that of the document")
	switch sym.Choose("change", 7) {
	case 0:
		*p = strings.Repeat("txet ", n/5+1)
	case 1:
		*q = 6
	case 2:
		in.SetStringValue("y", "again")
	case 3:
		in.GetValue("y").SetStringValue("other")
	case 4:
		a.SetValueAtIndex(a.Len()-1, json.NewValue("again"))
	case 5:
		(*a.GetValues())[a.Len()-1].SetStringValue("other")
	case 6:
		in.GetValue("y").SetNil()
	}
	repeated(m, snapMap(m))
	again(snapMap(m), snapMap(parse(text(m))), "the text is that of the document")
}

// an object or array of values of one kind is written again after one of them is changed
func C13_Alike() {
	n := []int{1, 12, 60, 3, 300}[sym.Choose("n", sym.Bound("values of one kind: 1, 12 or 60, then 3 or 300", 3, 5))]
	long := strings.Repeat("text ", []int{0, 60, 13, 1}[sym.Choose("long", sym.Bound("lengths of texts", 2, 4))])
	kind := sym.Choose("kind", 5)
	if kind > 0 {
		sym.Assume(long == "")
	}
	value := func(i int) interface{} {
		switch kind {
		case 1:
			return 10 + i
		case 2:
			return i%2 == 0
		case 3:
			return json.NewMap()
		case 4:
			return nil
		}
		return long + string(rune('a'+i%26))
	}
	m, a := json.NewMap(), json.NewArray()
	for i := 0; i < n; i++ {
		m.SetObjectForMap("k"+strconv.Itoa(i), value(i))
		a.AppendValue(json.NewValue(value(i)))
	}
	list := sym.Choose("list", 2) == 1
	if list {
		m = json.NewMap()
		m.SetArray("list", a)
	}
	times := 1 + sym.Choose("times", 2)
	for i := 0; i < times; i++ {
		again(snapMap(m), snapMap(parse(text(m))), "the text is that of the document")
	}
	at := sym.Choose("at", 2) * (n - 1)
	v := m.GetValue("k" + strconv.Itoa(at))
	if list {
		v = (*a.GetValues())[at]
	}
	switch sym.Choose("change", 4) {
	case 0:
		v.SetObject(value(at + 1))
	case 1:
		v.SetStringValue(long + "changed")
	case 2:
		if list {
			a.SetValueAtIndex(at, json.NewValue(value(at+3)))
		} else {
			m.SetObjectForMap("k"+strconv.Itoa(at), value(at+3))
		}
	case 3:
		if in, _ := v.GetMap(); in != nil {
			in.SetNil("new")
		} else {
			v.SetMap(json.NewMap())
		}
	}
	repeated(m, snapMap(m))
	again(snapMap(m), snapMap(parse(text(m))), "the text is that of the document")
}
