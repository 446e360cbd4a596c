package h

import (
	"strconv"

	json "github.com/matehaxor03/holistic_json/json"

	"verifharness/sym"
)

// roundTrip checks a document made through the API, given the tree it has to be.
func roundTrip(m *json.Map, n *node) {
	same(n, snapMap(m), "the document built")
	t := text(m)
	back, errs := json.Parse(t)
	sym.Assert(back != nil && len(errs) == 0, "the serialised document can be parsed")
	again(n, snapMap(back), "round trip")
	sym.Assert(text(back) == t, "serialising the parsed document gives the same text")
	ref, valid := strictly(t)
	sym.Assert(valid, "the serialised document is standard JSON")
	sym.Assert(len(ref.keys) == len(n.keys), "no member is lost or repeated in the text")
}

var few = []*scalar{{kind: kInt64, vInt64: -7}, {kind: kString, s: "x"}}

// documents of every small shape
func C11_Shapes() {
	b := &builder{left: sym.Bound("values of a built document", 3, 4), keys: keyIn("ab"), scal: oneOf(few[1]), styles: 2}
	m, n := b.obj(sym.Bound("nesting of a built document", 3, 4))
	roundTrip(m, n)
}

// more values, containers stored by pointer
func C11_More() {
	b := &builder{left: sym.Bound("values of a bigger built document", 4, 6), keys: keyIn("ab"), scal: oneOf(few[0]), styles: 1}
	m, n := b.obj(sym.Bound("nesting of a bigger built document", 2, 3))
	roundTrip(m, n)
}

// every scalar kind in nested places
func C11_Scalars() {
	all := []*scalar{{kind: kNil}, {kind: kBool, b: true}, {kind: kString, s: ""}, {kind: kString, s: "null"}, {kind: kInt8, vInt8: -128}, {kind: kUInt, vUInt: 1 << 63}, {kind: kInt, vInt: 0}, {kind: kBool}, {kind: kString, s: "a\"\\\n{"}, {kind: kUInt16, vUInt16: 65535}}
	b := &builder{left: sym.Bound("values of a built document with every scalar", 2, 3), keys: keyIn("a"), styles: 1,
		scal: func() (*scalar, bool) { return all[sym.Choose("scalar", len(all))], sym.Choose("ptr", 2) == 1 }}
	m, n := b.obj(2)
	roundTrip(m, n)
}

// symbolic scalars in fixed nested places
func C11_Symbolic() {
	x := anyScalar([]int{kInt8, kBool, kString, kNil, kUInt8, kInt64}[sym.Choose("kind", sym.Bound("kinds of a symbolic scalar", 4, 6))], "x", sym.Bound("bytes of a symbolic string", 1, 2))
	k := "key"
	if sym.Choose("free key", 2) == 1 {
		x = few[0]
		k = sym.Str("key", 1)
	}
	m := json.NewMap()
	in := json.NewMap()
	x.setIn(in, k, false)
	in.SetMap("e", json.NewMap())
	a := json.NewArray()
	a.AppendMap(in)
	x.appendTo(a, true)
	a.AppendArray(json.NewArray())
	m.SetArray(k, a)
	x.setIn(m, "z", true)
	roundTrip(m, snapMap(m))
}

// deep documents
func C11_Deep() {
	n := []int{1, 2, 3, 4, 8, 16, 40}[sym.Choose("n", sym.Bound("depths", 6, 7))]
	pat := sym.Choose("pattern", 4)
	k := sym.StrIn("k", 1, "ab")
	byValue := sym.Choose("byvalue", 2) == 1
	m := json.NewMap()
	m.SetStringValue(k, "leaf")
	var a *json.Array
	for i := 0; i < n; i++ {
		toArray := pat == 1 || pat == 2 && i%2 == 0 || pat == 3 && i%3 == 0
		if toArray {
			b := json.NewArray()
			b.AppendBoolValue(true)
			switch {
			case a != nil && byValue:
				b.AppendArrayValue(*a)
			case a != nil:
				b.AppendArray(a)
			case byValue:
				b.AppendMapValue(*m)
			default:
				b.AppendMap(m)
			}
			b.AppendStringValue(k)
			a, m = b, nil
		} else {
			o := json.NewMap()
			o.SetNil("c")
			switch {
			case a != nil && byValue:
				o.SetArrayValue(k, *a)
			case a != nil:
				o.SetArray(k, a)
			case byValue:
				o.SetMapValue(k, *m)
			default:
				o.SetMap(k, m)
			}
			o.SetStringValue("d", k)
			a, m = nil, o
		}
	}
	if a != nil {
		m = json.NewMap()
		m.SetArray("top", a)
	}
	roundTrip(m, snapMap(m))
}

// wide documents
func C11_Wide() {
	n := []int{1, 8, 9, 17, 33, 65, 129}[sym.Choose("n", sym.Bound("widths", 5, 7))]
	x := anyScalar(kInt8, "x", 0)
	at := []int{0, n / 2, n - 1}[sym.Choose("at", 3)]
	m := json.NewMap()
	a := json.NewArray()
	for i := 0; i < n; i++ {
		k := "k" + strconv.Itoa(i)
		if i == at {
			x.setIn(m, k, false)
			x.appendTo(a, false)
			continue
		}
		m.SetIntValue(k, i)
		a.AppendIntValue(i)
	}
	m.SetArray("a", a)
	roundTrip(m, snapMap(m))
}

// a parsed document survives as well
func C11_Parsed() {
	g := &gen{left: sym.Bound("values of a parsed document", 3, 5), keys: "ab", scal: []string{"1", `"\n"`, "null"}}
	m := parse(g.object(3))
	roundTrip(m, snapMap(m))
}

// very large documents of every shape
func C11_Great() {
	m, n := anyBig(2, 4)
	roundTrip(m, n)
}

// one value, or one container, at several places
func C11_Same() {
	var v *json.Value
	switch sym.Choose("value", 4) {
	case 0:
		v = json.NewValue(nil)
	case 1:
		v = json.NewValue(sym.Str("s", 1))
	case 2:
		in := json.NewMap()
		in.SetIntValue("x", 1)
		v = json.NewValue(in)
	case 3:
		in := json.NewArray()
		in.AppendNil()
		v = json.NewValue(*in)
	}
	one := snapValue(v)
	m, a := json.NewMap(), json.NewArray()
	n, an := &node{kind: "map"}, &node{kind: "array"}
	count := 1 + sym.Choose("count", sym.Bound("elements, some of them the same", 4, 6))
	for i := 0; i < count; i++ {
		if sym.Choose("same", 2) == 1 {
			a.AppendValue(v)
			an.kids = append(an.kids, one)
		} else {
			a.AppendIntValue(i)
			an.kids = append(an.kids, &node{kind: "int", u: uint64(i)})
		}
	}
	m.SetValue("a", v)
	m.SetValue("b", v)
	m.SetArray("list", a)
	m.SetArray("again", a)
	n.put("a", one)
	n.put("b", one)
	n.put("list", an)
	n.put("again", an)
	roundTrip(m, n)
}

// keys that are empty, alike, or look like something else
func C11_Keys() {
	b := &builder{left: sym.Bound("values of a built document with odd keys", 3, 4), keys: keyOf("", "a", []string{"b", " ", "null", "\"", "A", "aa", "{"}[sym.Choose("odd key", sym.Bound("odd keys", 4, 7))]), scal: oneOf(few[1]), styles: 1}
	m, n := b.obj(2)
	roundTrip(m, n)
}
