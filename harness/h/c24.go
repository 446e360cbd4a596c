package h

import (
	json "github.com/matehaxor03/holistic_json/json"
	"strings"

	"verifharness/sym"
)

// something happens elsewhere: texts are parsed or refused, other documents made and changed
var elsewhere = []string{
	`{"a":1}`, `{"a":[1,{"b":"x\n"}],"c":null}`, `{`, `{"a":"x`, `{"a":nope}`, `{"a":[1,2}`, `{"a":{"b":[`, `{"a":1}}`, `{"a":99999999999999999999}`, ``, `"`, `{"\u00e9":"\ud83d\ude00"}`, `{"a":"\\"}`,
}

func happens() {
	switch sym.Choose("elsewhere", 4) {
	case 0:
		json.Parse(elsewhere[sym.Choose("text", len(elsewhere))])
	case 1:
		json.Parse(sym.Str("noise", 1+sym.Choose("n", 2)))
	case 2:
		m, errs := json.Parse(elsewhere[sym.Choose("text", 2)])
		sym.Assert(m != nil && len(errs) == 0, "a text can be parsed")
		p := &parts{}
		p.inMap(m)
		sym.Assume(p.alter())
		text(m)
	case 3:
		m, a := json.NewMap(), json.NewArray()
		m.SetStringValue("a", "x")
		m.SetArray("b", a)
		a.AppendNil()
		m.RemoveKey("a")
		m.Clone()
		text(m)
	}
}

// a text gives the same document, or the same refusal, whatever happened before
func C24_Parse() {
	t := []string{`{"a":1,"b":[true,"x"]}`, `{"a":{"b":{}},"a":2}`, `{"a":"\"","b":-1.5}`, `{"a":[1,2}`, `{"a":1`, `{"a":nul}`, `{"":""}`}[sym.Choose("doc", 7)]
	m, errs := json.Parse(t)
	var n *node
	if m != nil {
		n = snapMap(m)
	}
	happens()
	again, errsAgain := json.Parse(t)
	sym.Assert((m == nil) == (again == nil) && len(errs) == len(errsAgain), "a text is accepted or refused whatever happened before")
	for i := range errs {
		sym.Assert(errs[i].Error() == errsAgain[i].Error(), "a text is refused for the same reason")
	}
	if m == nil {
		return
	}
	same(n, snapMap(again), "a text gives the same document whatever happened before")
	same(n, snapMap(m), "a document stays as it was, whatever happens elsewhere")
	sym.Assert(again != m, "parsing makes another document")
}

// two documents of one text have nothing in common
func C24_Twins() {
	g := &gen{left: sym.Bound("values of a text", 2, 3), keys: "ab", scal: []string{"1", `"x"`}}
	t := g.object(2)
	m, o := parse(t), parse(t)
	n := snapMap(o)
	p := &parts{}
	p.inMap(m)
	sym.Assume(p.alter())
	same(n, snapMap(o), "a change of one document does not show in another of the same text")
	same(n, snapMap(parse(t)), "a change of a document does not show in later ones of the same text")
}

// a document built the same way is the same, whatever happened before
func C24_Build() {
	build := func() *json.Map {
		m, a := json.NewMap(), json.NewArray()
		a.AppendIntValue(1)
		a.AppendMap(json.NewMap())
		a.AppendArray(json.NewArray())
		m.SetArray("a", a)
		m.SetStringValue("s", "x")
		m.SetMap("m", json.NewMap())
		m.SetNil("n")
		return m
	}
	m := build()
	n, t := snapMap(m), text(m)
	switch sym.Choose("before", 2) {
	case 0:
		happens()
	case 1:
		p := &parts{}
		o := build()
		p.inMap(o)
		sym.Assume(p.alter())
	}
	o := build()
	same(n, snapMap(o), "the same operations give the same document")
	same(n, snapMap(m), "a document stays as it was, whatever happens elsewhere")
	sym.Assert(text(o) == t && text(m) == t, "the same document gives the same text")
}

// new documents are empty, and not shared
func C24_New() {
	happens()
	m, a := json.NewMap(), json.NewArray()
	sym.Assert(text(m) == "{}" && len(m.GetKeys()) == 0 && m.Values().Len() == 0, "a new map is empty")
	sym.Assert(a.Len() == 0, "a new array is empty")
	m2, a2 := json.NewMap(), json.NewArray()
	m2.SetIntValue("a", 1)
	a2.AppendIntValue(1)
	mv, av := json.NewMapValue(), json.NewArrayValue()
	mv.SetIntValue("b", 1)
	av.AppendIntValue(1)
	sym.Assert(text(m) == "{}" && len(m.GetKeys()) == 0 && m.Values().Len() == 0, "a new map stays empty when another is filled")
	sym.Assert(a.Len() == 0, "a new array stays empty when another is filled")
	sym.Assert(len(m2.GetKeys()) == 1 && a2.Len() == 1 && len(mv.GetKeys()) == 1 && av.Len() == 1, "each has its own members")
	v, w := json.NewValue(nil), json.NewValue(nil)
	v.SetIntValue(1)
	sym.Assert(w.IsNil() && json.NewValue(nil).IsNil(), "a new value stays null when another is set")
}

// any two documents built independently: changing one anywhere leaves the other alone
func C24_Others() {
	b := &builder{left: 2, keys: keyIn("a"), scal: oneOf(&scalar{kind: kString, s: "x"}), styles: 1}
	m, n := b.obj(1)
	c := &builder{left: 2, keys: keyIn("a"), scal: oneOf(&scalar{kind: kString, s: "x"}), styles: 1}
	o, _ := c.obj(1)
	p := &parts{}
	p.inMap(o)
	sym.Assume(p.alter())
	same(n, snapMap(m), "a change of one document does not show in another")
	text(m)
}

// documents made of the same Go values, and scalars stored by value in two documents
func C24_SameInput() {
	x := anyScalar(kBool+sym.Choose("kind", kinds-1), "x", 1)
	m, o, a := json.NewMap(), json.NewMap(), json.NewArray()
	x.setIn(m, "a", false)
	x.setIn(o, "a", false)
	x.appendTo(a, false)
	n := snapMap(o)
	if sym.Choose("how", 2) == 0 {
		m.GetValue("a").SetStringValue("changed")
	} else {
		p := m.GetValue("a").GetObject()
		anyScalar(x.kind, "y", 1).through(p)
	}
	same(n, snapMap(o), "a change of one document does not show in another")
	same(x.tree(), snapValue((*a.GetValues())[0]), "a change of a document does not show in an array")
}

// what was read from a document by value is not part of it
func C24_Read() {
	m := parse(`{"a":[1,2],"s":"text"}`)
	n := snapMap(m)
	a, errs := m.GetArray("a")
	sym.Assert(a != nil && len(errs) == 0, "an array can be read")
	o := json.NewMap()
	switch sym.Choose("what", 4) {
	case 0:
		xs, errs := a.GetArrayOfInt64Value()
		sym.Assert(len(errs) == 0 && len(xs) == 2, "an array can be read as numbers")
		xs[0] = 9
	case 1:
		xs, errs := m.GetArrayOfInt64("a")
		sym.Assert(len(errs) == 0 && len(*xs) == 2, "an array can be read as numbers")
		*(*xs)[0] = 9
		(*xs)[1] = nil
	case 2:
		s, errs := m.GetStringValue("s")
		sym.Assert(len(errs) == 0, "a text can be read")
		o.SetStringValue("s", s)
		o.GetValue("s").SetStringValue("changed")
	case 3:
		r, errs := m.GetRunes("s")
		sym.Assert(len(errs) == 0 && len(*r) == 4, "characters can be read")
		*(*r)[0] = 'x'
	}
	same(n, snapMap(m), "what was read is not part of the document")
}

// any one value of a parsed document is set to something else: later documents are as before
func C24_Literals() {
	lits := []string{"null", "true", "false", "0", "1", "-1", "1.5", `""`, `"x"`, "{}", "[]", "300", "70000", "5000000000"}
	lit := lits[sym.Choose("literal", len(lits))]
	t := `{"a":` + lit + `,"b":[` + lit + `,` + lit + `],"c":{"a":` + lit + `}}`
	m := parse(t)
	n := snapMap(m)
	p := &parts{}
	p.inMap(m)
	v := p.values[sym.Choose("which", len(p.values))]
	switch sym.Choose("how", 5) {
	case 0:
		v.SetStringValue("changed")
	case 1:
		v.SetMap(json.NewMap())
	case 2:
		v.SetObject(sym.Str("s", 1))
	case 3:
		if v.IsMap() {
			x, _ := v.GetMap()
			x.SetNil("new")
		} else if v.IsArray() {
			x, _ := v.GetArray()
			x.AppendNil()
		} else {
			return
		}
	case 4:
		v.SetNil()
	}
	again(n, snapMap(parse(t)), "a change of a document does not show in later ones of the same text")
	o := json.NewMap()
	o.SetNil("a")
	o.SetMap("b", json.NewMap())
	sym.Assert(text(o) == `{"a":null,"b":{}}`, "a change of a document does not show in later ones")
	q := parse(`{"a":` + lit + `}`)
	again(n.kids[0], snapMap(q).kids[0], "a change of a document does not show in later ones")
}

// the values of one document are changed one by one: each change shows in one place
func C24_Within() {
	lits := []string{"null", "true", "0", "1.5", `""`, `"x"`, "{}", "[]"}
	lit := lits[sym.Choose("literal", len(lits))]
	m := parse(`{"a":` + lit + `,"b":[` + lit + `,` + lit + `],"c":` + lit + `}`)
	n := snapMap(m)
	b, errs := m.GetArray("b")
	sym.Assert(b != nil && len(errs) == 0, "an array can be read")
	vs := []*json.Value{m.GetValue("a"), (*b.GetValues())[0], (*b.GetValues())[1], m.GetValue("c")}
	at := sym.Choose("at", 4)
	s := sym.Str("s", 1)
	was := []*node{n.kids[0], n.kids[1].kids[0], n.kids[1].kids[1], n.kids[2]}
	vs[at].SetStringValue(s)
	for i := range vs {
		if i == at {
			same(&node{kind: "string", s: s}, snapValue(vs[i]), "a value is what it was set to")
		} else {
			same(was[i], snapValue(vs[i]), "a change of one value does not show in another")
		}
	}
}

// arrays made, filled, emptied and filled again in turn: each has its own elements
func C24_Turns() {
	const of = 3
	as := make([]*json.Array, 0, of)
	want := make([][]int, 0, of)
	steps := sym.Bound("operations on several arrays in turn", 6, 7)
	for i := 0; i < steps; i++ {
		at := sym.Choose("array", len(as)+1)
		if at == of {
			sym.Assume(false)
		}
		if at == len(as) {
			as, want = append(as, json.NewArray()), append(want, nil)
			as[at].AppendIntValue(i)
			want[at] = append(want[at], i)
			continue
		}
		switch sym.Choose("op", 3) {
		case 0:
			as[at].AppendIntValue(i)
			want[at] = append(want[at], i)
		case 1:
			sym.Assume(len(want[at]) > 0)
			n := sym.Choose("at", len(want[at]))
			as[at].RemoveValueAtIndex(n)
			want[at] = append(append([]int{}, want[at][:n]...), want[at][n+1:]...)
		case 2:
			// all of them
			sym.Assume(len(want[at]) > 1)
			for as[at].Len() > 0 {
				as[at].RemoveValueAtIndex(0)
			}
			want[at] = nil
		}
	}
	for i := range as {
		numbers(as[i], want[i], "an array")
	}
}

// and maps
func C24_MapTurns() {
	const of = 2
	ms := []*json.Map{json.NewMap(), json.NewMap()}
	os := []*ordered{{}, {}}
	steps := sym.Bound("operations on two maps in turn", 5, 6)
	for i := 0; i < steps; i++ {
		at := sym.Choose("map", of)
		os[at].step(ms[at], []string{"a", "b"}[sym.Choose("k", 2)], i, 2)
	}
	for i := range ms {
		os[i].agrees(ms[i], "a", true)
	}
}

// texts parsed, documents emptied and filled, more texts parsed
func C24_Refilled() {
	texts := []string{`{"a":[1,2,3]}`, `{"a":[]}`, `{"a":[4]}`}
	first := parse(texts[sym.Choose("first", len(texts))])
	a, errs := first.GetArray("a")
	sym.Assert(a != nil && len(errs) == 0, "an array can be read")
	if sym.Choose("emptied", 2) == 1 {
		for a.Len() > 0 {
			a.RemoveValueAtIndex(a.Len() - 1)
		}
	}
	n := snapMap(first)
	second := parse(texts[sym.Choose("second", len(texts))])
	n2 := snapMap(second)
	b, errs := second.GetArray("a")
	sym.Assert(b != nil && len(errs) == 0, "an array can be read")
	for i := 0; i < 3; i++ {
		x, xn := a, n
		if sym.Choose("which", 2) == 1 {
			x, xn = b, n2
		}
		x.AppendStringValue("x")
		xn.kids[0].kids = append(xn.kids[0].kids, &node{kind: "string", s: "x"})
	}
	same(n, snapMap(first), "a document has its own elements")
	same(n2, snapMap(second), "a document has its own elements")
}

// names and texts of one document, then others of another: each has its own
func C24_Names() {
	n := sym.Bound("letters of a name", 4, 5)
	set := "abc"
	name := func(what string) string { return sym.StrIn(what, n, set) }
	a, b := name("a"), name("b")
	var m, o *json.Map
	if sym.Choose("parsed", 2) == 1 {
		m = parse(`{"` + a + `":"` + a + `"}`)
		o = parse(`{"` + b + `":"` + b + `"}`)
	} else {
		m, o = json.NewMap(), json.NewMap()
		m.SetStringValue(a, a)
		o.SetStringValue(b, b)
	}
	for i, d := range []*json.Map{m, o} {
		want := []string{a, b}[i]
		sym.Assert(len(d.GetKeys()) == 1 && d.GetKeys()[0] == want, "a document has its own names")
		s, errs := d.GetStringValue(want)
		sym.Assert(len(errs) == 0 && s == want, "a document has its own texts")
		sym.Assert(text(d) == `{"`+want+`":"`+want+`"}`, "a document has its own text")
	}
}

// and numbers
func C24_Numbers() {
	n := 1 + sym.Choose("n", sym.Bound("digits of a number", 4, 5))
	a, b := sym.StrIn("a", n, "123"), sym.StrIn("b", n, "123")
	m := parse(`{"a":` + a + `,"b":[` + a + `]}`)
	o := parse(`{"a":` + b + `,"b":[` + b + `]}`)
	again := parse(`{"a":` + a + `}`)
	sym.Assert(text(m) == `{"a":`+a+`,"b":[`+a+`]}`, "a document has its own numbers")
	sym.Assert(text(o) == `{"a":`+b+`,"b":[`+b+`]}`, "a document has its own numbers")
	sym.Assert(text(again) == `{"a":`+a+`}`, "a document has its own numbers")
}

// two documents of one large text have nothing in common
func C24_LargeTwins() {
	n := []int{3, 40, 300}[sym.Choose("n", 3)]
	shape := sym.Choose("shape", bigs+2)
	t := ""
	if shape < bigs {
		t = bigText(shape, n, n-1, `{"v":1}`)
	} else if shape == bigs {
		t = `{"t":"` + strings.Repeat("long text, ", n) + `","a":[1,{"v":2}],"b":{"c":null}}`
	} else {
		t = `{"a":[1,{"v":2}],` + strings.Repeat(" ", 10*n) + `"b":{"c":null}}`
	}
	m, o := parse(t), parse(t)
	sym.Assert(m != o, "parsing makes another document")
	was := snapMap(o)
	p := &parts{}
	p.inMap(m)
	switch sym.Choose("change", 4) {
	case 0:
		p.maps[len(p.maps)-1].SetStringValue("new", "changed")
	case 1:
		if len(p.arrays) == 0 {
			return
		}
		p.arrays[len(p.arrays)-1].AppendStringValue("changed")
	case 2:
		p.values[len(p.values)-1].SetStringValue("changed")
	case 3:
		p.values[sym.Choose("which", 3)*(len(p.values)-1)/2].SetNil()
	}
	again(was, snapMap(o), "a change of one document does not show in another of the same text")
	again(was, snapMap(parse(t)), "a change of a document does not show in later ones of the same text")
}

// a large text is refused or accepted whatever was parsed before
func C24_LargeAgain() {
	n := []int{40, 300}[sym.Choose("n", 2)]
	shape := sym.Choose("shape", bigs)
	good := bigText(shape, n, n-1, `1`)
	bad := []string{good[:len(good)-1], good + "x", bigText(shape, n, n-1, `nope`), bigText(shape, n, n-1, `"`)}[sym.Choose("bad", 4)]
	was := snapMap(parse(good))
	m, errs := json.Parse(bad)
	sym.Assert(m == nil && len(errs) > 0, "a text that is not JSON is refused")
	again(was, snapMap(parse(good)), "a text is accepted whatever was parsed before")
	m, e2 := json.Parse(bad)
	sym.Assert(m == nil && len(errs) == len(e2), "a text that is not JSON is refused again")
	for i := range errs {
		sym.Assert(errs[i].Error() == e2[i].Error(), "a text is refused for the same reason")
	}
}

// the values of one document are independent of one another, equal or not
func C24_Elements() {
	tokens := []string{"null", "1", "true", `"a"`, "{}", "[]", "1.5", "false", "-1", `""`}
	n := 4 + sym.Choose("n", sym.Bound("elements of a list, beyond three", 2, 4))
	p, q := tokens[sym.Choose("token", len(tokens))], tokens[sym.Choose("other", 4)]
	pattern := sym.Choose("pattern", 5)
	t := ""
	inside := sym.Choose("object", 2) == 1
	for i := 0; i < n; i++ {
		e := p
		if pattern == 1 && i%2 == 1 || pattern == 2 && i == n/2 || pattern == 3 && i >= n/2 || pattern == 4 && i%3 == 0 {
			e = q
		}
		if i > 0 {
			t += ","
		}
		if inside {
			t += `"` + string(rune('a'+i)) + `":`
		}
		t += e
	}
	if inside {
		t = `{"m":{` + t + `},"l":` + q + `}`
	} else {
		t = `{"m":[` + t + `],"l":` + q + `}`
	}
	m := parse(t)
	var values []*json.Value
	if inside {
		in, errs := m.GetMap("m")
		sym.Assert(in != nil && len(errs) == 0, "an object can be read")
		values = append(values, *in.Values().GetValues()...)
	} else {
		in, errs := m.GetArray("m")
		sym.Assert(in != nil && len(errs) == 0, "an array can be read")
		values = append(values, *in.GetValues()...)
	}
	values = append(values, m.GetValue("l"))
	sym.Assert(len(values) == n+1, "every element is there")
	was := make([]*node, len(values))
	for i, v := range values {
		was[i] = snapValue(v)
	}
	at := sym.Choose("at", n+1)
	v := values[at]
	switch {
	case v.IsMap():
		in, _ := v.GetMap()
		in.SetIntValue("changed", 1)
	case v.IsArray():
		in, _ := v.GetArray()
		in.AppendIntValue(1)
	default:
		v.SetStringValue("changed")
	}
	for i, v := range values {
		if i != at {
			same(was[i], snapValue(v), "a change of one value does not show in another")
		}
	}
}

// many parses of one text, accepted or refused, and what comes after
func C24_Rounds() {
	t := elsewhere[sym.Choose("text", len(elsewhere))]
	u := []string{`{"a":1,"b":[true,null]}`, `{"a":{"b":null}}`, `{"x":"\n","y":-1.5}`, `{"a":[1,2}`}[sym.Choose("doc", 4)]
	was, errs := json.Parse(u)
	var n *node
	if was != nil {
		n = snapMap(was)
	}
	for i := 0; i < sym.Bound("parses of one text", 24, 60); i++ {
		json.Parse(t)
		if i%4 != 3 {
			continue
		}
		m, again := json.Parse(u)
		sym.Assert((m == nil) == (was == nil) && len(again) == len(errs), "a text is accepted or refused whatever happened before")
		if m != nil {
			same(n, snapMap(m), "a text gives the same document whatever happened before")
			m.SetIntValue("a", i)
			in, _ := m.GetArray("b")
			if in != nil {
				in.AppendIntValue(i)
			}
		}
	}
	if was != nil {
		same(n, snapMap(was), "a document stays as it was, whatever happens elsewhere")
	}
}
