package h

import (
	json "github.com/matehaxor03/holistic_json/json"

	"verifharness/sym"
)

// handle is a container of a document, with what it has to be.
type handle struct {
	m *json.Map
	a *json.Array
	n *node
}

// reach goes from a container to one inside of it, on any way, as deep as it likes.
func reach(h handle) handle { return reachOn(h, 4) }

// reachOn is reach on some of the ways only.
func reachOn(h handle, ways int) handle {
	for {
		var inner []int
		for i, k := range h.n.kids {
			if k.kind == "map" || k.kind == "array" {
				inner = append(inner, i)
			}
		}
		if len(inner) == 0 || sym.Choose("deeper", 2) == 0 {
			return h
		}
		at := inner[sym.Choose("which", len(inner))]
		h = insideOn(h, at, ways)
	}
}

// inside is the container at a place of another, reached on any way.
func inside(h handle, at int) handle { return insideOn(h, at, 4) }

func insideOn(h handle, at, ways int) handle {
	k := h.n.kids[at]
	var v *json.Value
	way := sym.Choose("way", ways)
	if h.m != nil {
		key := h.n.keys[at]
		switch {
		case way == 0 && k.kind == "map":
			m, errs := h.m.GetMap(key)
			sym.Assert(m != nil && len(errs) == 0, "an object can be read")
			return handle{m: m, n: k}
		case way == 0:
			a, errs := h.m.GetArray(key)
			sym.Assert(a != nil && len(errs) == 0, "an array can be read")
			return handle{a: a, n: k}
		case way == 1 && k.kind == "map":
			m, errs := h.m.GetMapValue(key)
			sym.Assert(len(errs) == 0, "an object can be read")
			return handle{m: &m, n: k}
		case way == 1:
			a, errs := h.m.GetArrayValue(key)
			sym.Assert(len(errs) == 0, "an array can be read")
			return handle{a: &a, n: k}
		case way == 2:
			v = (*h.m.Values().GetValues())[at]
		default:
			v = h.m.GetValue(key)
		}
	} else if way == 3 && k.kind == "map" {
		m, errs := h.a.GetMap(at)
		sym.Assert(m != nil && len(errs) == 0, "an object can be read")
		return handle{m: m, n: k}
	} else {
		v = (*h.a.GetValues())[at]
	}
	if k.kind == "map" {
		if way == 1 {
			m, errs := v.GetMapValue()
			sym.Assert(len(errs) == 0, "an object can be read")
			return handle{m: &m, n: k}
		}
		m, errs := v.GetMap()
		sym.Assert(m != nil && len(errs) == 0, "an object can be read")
		return handle{m: m, n: k}
	}
	if way == 1 {
		a, errs := v.GetArrayValue()
		sym.Assert(len(errs) == 0, "an array can be read")
		return handle{a: &a, n: k}
	}
	a, errs := v.GetArray()
	sym.Assert(a != nil && len(errs) == 0, "an array can be read")
	return handle{a: a, n: k}
}

// drop removes a kid of a tree.
func (n *node) drop(at int) {
	n.kids = append(append([]*node{}, n.kids[:at]...), n.kids[at+1:]...)
	if n.keys != nil {
		n.keys = append(append([]string{}, n.keys[:at]...), n.keys[at+1:]...)
	}
}

// change changes a container and its tree alike; false if there is nothing of that sort to change.
func (h handle) change(x int) bool { return h.changeBy(sym.Choose("op", 5), x) }

// changeBy is change by one of its operations.
func (h handle) changeBy(op, x int) bool {
	num := &node{kind: "int", u: uint64(int64(x))}
	at := 0
	if op > 1 {
		if len(h.n.kids) == 0 {
			return false
		}
		at = sym.Choose("at", len(h.n.kids))
	}
	switch {
	case op == 0 && h.m != nil:
		h.m.SetIntValue("new", x)
		h.n.put("new", num)
	case op == 0:
		h.a.AppendIntValue(x)
		h.n.kids = append(h.n.kids, num)
	case op == 1 && h.m != nil:
		in := json.NewMap()
		in.SetIntValue("x", x)
		h.m.SetMap("new", in)
		h.n.put("new", &node{kind: "map", keys: []string{"x"}, kids: []*node{num}})
	case op == 1:
		in := json.NewMap()
		in.SetIntValue("x", x)
		h.a.AppendMap(in)
		h.n.kids = append(h.n.kids, &node{kind: "map", keys: []string{"x"}, kids: []*node{num}})
	case op == 2 && h.m != nil:
		h.m.SetIntValue(h.n.keys[at], x)
		h.n.kids[at] = num
	case op == 2:
		h.a.SetValueAtIndex(at, json.NewValue(x))
		h.n.kids[at] = num
	case op == 3 && h.m != nil:
		h.m.RemoveKey(h.n.keys[at])
		h.n.drop(at)
	case op == 3:
		h.a.RemoveValueAtIndex(at)
		h.n.drop(at)
	case op == 4 && h.m != nil:
		h.m.GetValue(h.n.keys[at]).SetIntValue(x)
		h.n.kids[at] = num
	case op == 4:
		(*h.a.GetValues())[at].SetIntValue(x)
		h.n.kids[at] = num
	}
	return true
}

// written is the text of a tree of integers, texts without escapes, nulls and containers.
func written(n *node) string {
	m, a := json.NewMap(), json.NewArray()
	fill(m, a, n)
	if n.kind == "map" {
		return text(m)
	}
	m.SetArray("a", a)
	return text(m)
}

// fill builds a tree anew.
func fill(m *json.Map, a *json.Array, n *node) {
	for i, k := range n.kids {
		var o interface{}
		switch k.kind {
		case "map":
			in := json.NewMap()
			fill(in, nil, k)
			o = in
		case "array":
			in := json.NewArray()
			fill(nil, in, k)
			o = in
		case "string":
			o = k.s
		case "nil":
		case "bool":
			o = k.u == 1
		default:
			if signed(k.kind) {
				o = int64(k.u)
			} else {
				o = k.u
			}
		}
		if n.kind == "map" {
			m.SetObjectForMap(n.keys[i], o)
		} else {
			a.AppendValue(json.NewValue(o))
		}
	}
}

// everywhereSeen checks that a document is a tree, in every way of looking at it.
func everywhereSeen(m *json.Map, n *node) {
	same(n, snapMap(m), "a change through a handle shows in the document")
	sym.Assert(text(m) == written(n), "a change through a handle shows in the text")
	c, errs := m.Clone()
	sym.Assert(c != nil && len(errs) == 0, "a document can be cloned")
	same(n, snapMap(c), "a change through a handle shows in a clone")
}

// parsed documents
func C34_Parsed() {
	t := []string{
		`{"a":{"b":{"c":1},"d":[2]},"e":3}`,
		`{"a":[[1,[2]],{"b":[]}],"c":{}}`,
		`{"a":[{"b":1},{"b":1}],"c":[]}`,
		`{"a":{"a":{"a":{"a":{}}}}}`,
		`{"a":[[[[]]]]}`,
		`{"a":{"x":null},"b":[null,"s"]}`,
	}[sym.Choose("doc", 6)]
	m := parse(t)
	n := snapMap(m)
	steps := sym.Bound("changes of a parsed document", 1, 2)
	for i := 0; i < steps; i++ {
		sym.Assume(reach(handle{m: m, n: n}).change(100 + i))
		everywhereSeen(m, n)
	}
}

// two changes, through handles that were taken before either
func C34_Handles() {
	m := parse(`{"a":{"b":[1,{}],"c":2},"d":[[3]]}`)
	n := snapMap(m)
	ways1, ways2 := sym.Bound("ways to the first handle", 2, 4), 1
	if sym.Choose("swap", 2) == 1 {
		ways1, ways2 = ways2, ways1
	}
	h1 := reachOn(handle{m: m, n: n}, ways1)
	h2 := reachOn(handle{m: m, n: n}, ways2)
	sym.Assume(h1.change(100))
	// the second is only of interest if it is still part of the document
	sym.Assume(partOf(n, h2.n))
	sym.Assume(h2.change(101))
	everywhereSeen(m, n)
}

func partOf(n, part *node) bool {
	if n == part {
		return true
	}
	for _, k := range n.kids {
		if partOf(k, part) {
			return true
		}
	}
	return false
}

// documents built of containers that are stored first and filled later
func C34_Built() {
	m, in, arr := json.NewMap(), json.NewMap(), json.NewArray()
	n := &node{kind: "map"}
	inN, arrN := &node{kind: "map"}, &node{kind: "array"}
	if sym.Choose("byvalue", 2) == 1 {
		m.SetMapValue("in", *in)
		m.SetArrayValue("arr", *arr)
	} else {
		m.SetMap("in", in)
		m.SetArray("arr", arr)
	}
	n.put("in", inN)
	n.put("arr", arrN)
	deepest := json.NewMap()
	deepestN := &node{kind: "map"}
	switch sym.Choose("deepest", 4) {
	case 0:
		in.SetMap("k", deepest)
		inN.put("k", deepestN)
	case 1:
		in.SetMapValue("k", *deepest)
		inN.put("k", deepestN)
	case 2:
		arr.AppendMap(deepest)
		arrN.kids = append(arrN.kids, deepestN)
	case 3:
		arr.AppendMapValue(*deepest)
		arrN.kids = append(arrN.kids, deepestN)
	}
	handles := []handle{{m: m, n: n}, {m: in, n: inN}, {a: arr, n: arrN}, {m: deepest, n: deepestN}}
	steps := sym.Bound("changes of a built document", 2, 3)
	for i := 0; i < steps; i++ {
		h := handles[sym.Choose("handle", len(handles))]
		sym.Assume(partOf(n, h.n))
		sym.Assume(h.change(100 + i))
	}
	everywhereSeen(m, n)
}

// one container at several places is one
func C34_Shared() {
	in, inN := json.NewMap(), &node{kind: "map"}
	in.SetIntValue("x", 1)
	inN.put("x", &node{kind: "int", u: 1})
	m, arr := json.NewMap(), json.NewArray()
	n, arrN := &node{kind: "map"}, &node{kind: "array"}
	m.SetMap("p", in)
	n.put("p", inN)
	m.SetMapValue("q", *in)
	n.put("q", inN)
	arr.AppendMap(in)
	arr.AppendMapValue(*in)
	arr.AppendValue(json.NewValue(in))
	arrN.kids = []*node{inN, inN, inN}
	m.SetArray("arr", arr)
	n.put("arr", arrN)
	h := handle{m: in, n: inN}
	if sym.Choose("through", 2) == 1 {
		h = inside(handle{m: m, n: n}, sym.Choose("member", 2))
	} else if sym.Choose("element", 2) == 1 {
		h = inside(handle{a: arr, n: arrN}, sym.Choose("at", 3))
	}
	sym.Assume(h.change(100))
	everywhereSeen(m, n)
	sym.Assume(handle{m: in, n: inN}.change(101))
	everywhereSeen(m, n)
}

// clones are documents like others
func C34_Cloned() {
	was := parse(`{"a":{"b":[1,{"c":2}]},"d":[[3],{}]}`)
	m, errs := was.Clone()
	sym.Assert(m != nil && len(errs) == 0, "a document can be cloned")
	n, before := snapMap(m), snapMap(was)
	h := reach(handle{m: m, n: n})
	sym.Assume(h.change(100))
	everywhereSeen(m, n)
	same(before, snapMap(was), "the original stays as it was")
}

// a container far inside of a document
func C34_Deep() {
	depth := 1 + sym.Choose("depth", sym.Bound("depths of a handle", 12, 40))
	t, e := deep(depth, sym.Choose("pattern", 3))
	m := parse(`{"a":` + t + e + `,"b":1}`)
	n := snapMap(m)
	h := handle{m: m, n: n}
	for i := 0; i < depth; i++ {
		k := h.n.kids[0]
		var v *json.Value
		if h.m != nil {
			v = h.m.GetValue(h.n.keys[0])
		} else {
			v = (*h.a.GetValues())[0]
		}
		h = handle{n: k}
		if k.kind == "map" {
			h.m, _ = v.GetMap()
		} else {
			h.a, _ = v.GetArray()
		}
	}
	sym.Assume(h.change(100))
	everywhereSeen(m, n)
}

// a container taken out of a document, or replaced, is no longer part of it
func C34_Taken() {
	m := parse(`{"a":{"x":1},"b":[{"x":1},2]}`)
	in, errs := m.GetMap("a")
	sym.Assert(in != nil && len(errs) == 0, "an object can be read")
	arr, errs := m.GetArray("b")
	sym.Assert(arr != nil && len(errs) == 0, "an array can be read")
	e, errs := (*arr.GetValues())[0].GetMap()
	sym.Assert(e != nil && len(errs) == 0, "an object can be read")
	switch sym.Choose("taken", 4) {
	case 0:
		m.RemoveKey("a")
		arr.RemoveValueAtIndex(0)
	case 1:
		m.SetIntValue("a", 1)
		arr.SetValueAtIndex(0, json.NewValue(1))
	case 2:
		m.GetValue("a").SetNil()
		(*arr.GetValues())[0].SetNil()
	case 3:
		m.SetMap("a", json.NewMap())
		arr.SetValueAtIndex(0, json.NewValue(json.NewMap()))
	}
	n, t := snapMap(m), text(m)
	sym.Assume(handle{m: in, n: snapMap(in)}.change(100))
	sym.Assume(handle{m: e, n: snapMap(e)}.change(101))
	same(n, snapMap(m), "a container that was taken out is no part of the document")
	sym.Assert(text(m) == t, "a container that was taken out is no part of the text")
	// and it may come back
	m.SetMap("back", in)
	n.put("back", snapMap(in))
	in.SetIntValue("y", 5)
	n.kids[len(n.kids)-1].put("y", &node{kind: "int", u: 5})
	same(n, snapMap(m), "a container that was put back is part of the document")
}

// what stands at one place may be replaced there, and stays what it is everywhere else
func C34_Replaced() {
	var v *json.Value
	var was *node
	switch sym.Choose("held", 5) {
	case 0:
		in := json.NewMap()
		in.SetIntValue("x", 1)
		v = json.NewValue(in)
	case 1:
		in := json.NewArray()
		in.AppendIntValue(1)
		v = json.NewValue(in)
	case 2:
		v = json.NewValue(json.NewMapValue())
	case 3:
		v = json.NewValue("text")
	case 4:
		v = json.NewValue(7)
	}
	was = snapValue(v)
	m, n, a, b := json.NewMap(), json.NewMap(), json.NewArray(), json.NewArray()
	before := sym.Choose("before", 3)
	for i := 0; i < before; i++ {
		m.SetIntValue(string(rune('r'+i)), i)
		a.AppendIntValue(i)
	}
	m.SetValue("a", v)
	m.SetValue("b", v)
	n.SetValue("a", v)
	a.AppendValue(v)
	a.AppendValue(v)
	b.AppendValue(v)
	got := m.GetValue("a")
	mN, nN, aN, bN := snapMap(m), snapMap(n), snapArray(a), snapArray(b)
	text, float := "other", 1.5
	switch sym.Choose("replaced", 12) {
	case 0:
		other := json.NewMap()
		other.SetIntValue("y", 2)
		m.SetMap("a", other)
		mN.put("a", snapMap(other))
	case 1:
		m.SetMapValue("a", json.NewMapValue())
		mN.put("a", &node{kind: "map"})
	case 2:
		other := json.NewArray()
		other.AppendStringValue("y")
		m.SetArray("a", other)
		mN.put("a", snapArray(other))
	case 3:
		m.SetArrayValue("a", json.NewArrayValue())
		mN.put("a", &node{kind: "array"})
	case 4:
		m.SetString("a", &text)
		mN.put("a", snapValue(json.NewValue(text)))
	case 5:
		m.SetStringValue("a", text)
		mN.put("a", snapValue(json.NewValue(text)))
	case 6:
		m.SetFloat64("a", &float)
		mN.put("a", snapValue(json.NewValue(float)))
	case 7:
		m.SetNil("a")
		mN.put("a", snapValue(json.NewValue(nil)))
	case 8:
		m.SetValue("a", json.NewValue(9))
		mN.put("a", snapValue(json.NewValue(9)))
	case 9:
		m.SetObjectForMap("a", 9)
		mN.put("a", snapValue(json.NewValue(9)))
	case 10:
		other := json.NewMap()
		other.SetIntValue("y", 2)
		w := json.NewValue(other)
		ok, err := a.SetValueAtIndex(before, w)
		sym.Assert(ok && err == nil, "an element can be replaced")
		aN.kids[before] = snapValue(w)
	case 11:
		m.RemoveKey("a")
		ok, err := a.RemoveValueAtIndex(before)
		sym.Assert(ok && err == nil, "an element can be removed")
		mN = snapMap(m)
		aN = snapArray(a)
		sym.Assert(!m.HasKey("a") && a.Len() == before+1, "what was removed is gone")
		same(was, snapValue(m.GetValue("b")), "what stands at another key stays")
		same(was, snapValue((*a.GetValues())[before]), "what stands behind a removed element stays")
	}
	same(mN, snapMap(m), "what stands at one key is replaced there")
	same(nN, snapMap(n), "what stands at the same key of another document stays")
	same(aN, snapArray(a), "what stands at another index stays")
	same(bN, snapArray(b), "what stands in another list stays")
	same(was, snapValue(v), "a value that was replaced stays what it is")
	same(was, snapValue(got), "a value that was read before stays what it is")
}

// a container that is stored on any way, at any place, and changed afterwards
func C34_Stored() {
	outer, list := json.NewMap(), json.NewArray()
	n, listN := &node{kind: "map"}, &node{kind: "array"}
	outer.SetMap("other", json.NewMap())
	n.put("other", &node{kind: "map"})
	others := sym.Choose("others", sym.Bound("elements beside a container", 3, 5))
	for i := 0; i < others; i++ {
		list.AppendIntValue(i)
		listN.kids = append(listN.kids, &node{kind: "int", u: uint64(i)})
	}
	outer.SetArray("list", list)
	n.put("list", listN)
	in := handle{n: &node{kind: "map"}}
	if sym.Choose("array", 2) == 1 {
		in = handle{a: json.NewArray(), n: &node{kind: "array"}}
	} else {
		in.m = json.NewMap()
	}
	if sym.Choose("filled", 2) == 1 {
		in.changeBy(0, 99)
	}
	at := 0
	append1 := func() { listN.kids = append(listN.kids, in.n) }
	put := func() { n.put("in", in.n) }
	spot := func() *json.Value {
		sym.Assume(others > 0)
		at = sym.Choose("spot", others)
		listN.kids[at] = in.n
		return (*list.GetValues())[at]
	}
	var o, byValue interface{}
	if in.m != nil {
		o, byValue = in.m, *in.m
	} else {
		o, byValue = in.a, *in.a
	}
	if sym.Choose("byvalue", 2) == 1 {
		o = byValue
	}
	way := sym.Choose("stored", 14)
	switch way {
	case 0:
		if in.m != nil {
			outer.SetMap("in", in.m)
		} else {
			outer.SetArray("in", in.a)
		}
		put()
	case 1:
		if in.m != nil {
			outer.SetMapValue("in", *in.m)
		} else {
			outer.SetArrayValue("in", *in.a)
		}
		put()
	case 2:
		outer.SetValue("in", json.NewValue(o))
		put()
	case 3:
		outer.SetObjectForMap("in", o)
		put()
	case 4:
		if in.m != nil {
			list.AppendMap(in.m)
		} else {
			list.AppendArray(in.a)
		}
		append1()
	case 5:
		if in.m != nil {
			list.AppendMapValue(*in.m)
		} else {
			list.AppendArrayValue(*in.a)
		}
		append1()
	case 6:
		list.AppendValue(json.NewValue(o))
		append1()
	case 7:
		list.AppendValueValue(json.NewValueValue(o))
		append1()
	case 8:
		spot()
		list.SetValueAtIndex(at, json.NewValue(o))
	case 9:
		spot().SetObject(o)
	case 10:
		v := spot()
		if in.m != nil {
			v.SetMap(in.m)
		} else {
			v.SetArray(in.a)
		}
	case 11:
		v := spot()
		if in.m != nil {
			v.SetMapValue(*in.m)
		} else {
			v.SetArrayValue(*in.a)
		}
	case 12:
		list = json.NewArrayOfValues(&[]interface{}{1, o, 2})
		listN = &node{kind: "array", kids: []*node{{kind: "int", u: 1}, in.n, {kind: "int", u: 2}}}
		outer.SetArray("list", list)
		n.put("list", listN)
	case 13:
		outer = json.NewMapOfValues(&map[string]interface{}{"in": o})
		n = &node{kind: "map"}
		put()
	}
	sym.Assume(in.change(100))
	everywhereSeen(outer, n)
	h := handle{m: outer, n: n}
	if !outer.HasKey("in") {
		h = handle{a: list, n: listN}
	}
	for i, k := range h.n.kids {
		if k == in.n {
			inside(h, i).changeBy(sym.Choose("later", 2), 101)
			break
		}
	}
	everywhereSeen(outer, n)
}
