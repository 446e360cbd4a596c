package h

import (
	"errors"
	"strconv"
	"strings"

	json "github.com/matehaxor03/holistic_json/json"

	"verifharness/sym"
)

// parts are the containers and values of a document, at every depth.
type parts struct {
	maps   []*json.Map
	arrays []*json.Array
	values []*json.Value
}

func (p *parts) value(v *json.Value) {
	if v == nil {
		return
	}
	p.values = append(p.values, v)
	if v.IsMap() {
		m, _ := v.GetMap()
		p.inMap(m)
	} else if v.IsArray() {
		a, _ := v.GetArray()
		p.inArray(a)
	}
}

func (p *parts) inMap(m *json.Map) {
	p.maps = append(p.maps, m)
	for _, k := range m.GetKeys() {
		p.value(m.GetValue(k))
	}
}

func (p *parts) inArray(a *json.Array) {
	p.arrays = append(p.arrays, a)
	for _, v := range *a.GetValues() {
		p.value(v)
	}
}

// alter changes something somewhere, and returns false if there is nothing of that kind.
func (p *parts) alter() bool {
	switch sym.Choose("change", 3) {
	case 0:
		if len(p.maps) == 0 {
			return false
		}
		m := p.maps[sym.Choose("map", len(p.maps))]
		keys := m.GetKeys()
		op := sym.Choose("mapop", 4)
		if op > 0 && len(keys) == 0 {
			return false
		}
		switch op {
		case 0:
			m.SetStringValue("new", "changed")
		case 1:
			m.SetStringValue(keys[sym.Choose("key", len(keys))], "changed")
		case 2:
			m.RemoveKey(keys[sym.Choose("key", len(keys))])
		case 3:
			m.SetNil(keys[len(keys)-1])
			m.SetStringValue("new", "changed")
		}
	case 1:
		if len(p.arrays) == 0 {
			return false
		}
		a := p.arrays[sym.Choose("array", len(p.arrays))]
		op := sym.Choose("arrayop", 3)
		if op > 0 && a.Len() == 0 {
			return false
		}
		switch op {
		case 0:
			a.AppendStringValue("changed")
		case 1:
			a.SetValueAtIndex(sym.Choose("at", a.Len()), json.NewValue("changed"))
		case 2:
			a.RemoveValueAtIndex(sym.Choose("at", a.Len()))
		}
	case 2:
		if len(p.values) == 0 {
			return false
		}
		v := p.values[sym.Choose("value", len(p.values))]
		switch sym.Choose("valueop", 3) {
		case 0:
			v.SetStringValue("changed")
		case 1:
			v.SetMap(json.NewMap())
			v.SetStringValue("changed")
		case 2:
			v.SetErrorsValue(nil)
			v.SetObject("changed")
		}
	}
	return true
}

// cloned checks a clone against its original, then changes either.
func cloned(m *json.Map, n *node) {
	t := text(m)
	c, errs := m.Clone()
	sym.Assert(c != nil && len(errs) == 0, "a document can be cloned")
	sym.Assert(c != m, "a clone is another document")
	same(n, snapMap(c), "a clone is equal")
	same(n, snapMap(m), "cloning leaves the original as it was")
	sym.Assert(text(c) == t && text(m) == t, "a clone has the same text")
	changed, other := c, m
	if sym.Choose("which", 2) == 1 {
		changed, other = m, c
	}
	p := &parts{}
	p.inMap(changed)
	sym.Assume(p.alter())
	same(n, snapMap(other), "a change of one does not show in the other")
	sym.Assert(text(other) == t, "a change of one does not show in the text of the other")
}

// every small shape, changed anywhere
func C21_Shapes() {
	b := &builder{left: sym.Bound("values of a built document", 2, 3), keys: keyIn("ab"), scal: oneOf(&scalar{kind: kUInt16, vUInt16: 7}), styles: 2}
	m, n := b.obj(2)
	cloned(m, n)
}

// deep documents, changed anywhere
func C21_Deep() {
	depth := sym.Bound("depth of a deep document", 4, 5)
	m, n := json.NewMap(), &node{kind: "map"}
	m.SetIntValue("x", 1)
	n.put("x", &node{kind: "int", u: 1})
	for i := 1; i < depth; i++ {
		out, outN := json.NewMap(), &node{kind: "map"}
		switch sym.Choose("level", 3) {
		case 0:
			out.SetMap("m", m)
			outN.put("m", n)
		case 1:
			a := json.NewArray()
			a.AppendMap(m)
			out.SetArray("a", a)
			outN.put("a", &node{kind: "array", kids: []*node{n}})
		case 2:
			a, e := json.NewArray(), json.NewArray()
			e.AppendMap(m)
			a.AppendArray(e)
			out.SetArray("a", a)
			outN.put("a", &node{kind: "array", kids: []*node{{kind: "array", kids: []*node{n}}}})
		}
		m, n = out, outN
	}
	cloned(m, n)
}

// any scalar stored in any way: the same kind, in the same form
func C21_Scalars() {
	x := anyStored(1 + sym.Choose("len", 2))
	ptr := sym.Choose("ptr", 2) == 1
	m, a := json.NewMap(), json.NewArray()
	x.setIn(m, "s", ptr)
	x.appendTo(a, ptr)
	m.SetArray("a", a)
	n := snapMap(m)
	c, errs := m.Clone()
	sym.Assert(c != nil && len(errs) == 0, "a document can be cloned")
	same(n, snapMap(c), "a clone is equal")
	same(n, snapMap(m), "cloning leaves the original as it was")
	sym.Assert(c.GetType("s") == m.GetType("s"), "a clone has values of the same type")
	var t, u strings.Builder
	te, ue := m.ToJSONString(&t), c.ToJSONString(&u)
	sym.Assert((len(te) == 0) == (len(ue) == 0), "a clone can be written if the original can")
	sym.Assert(len(te) > 0 || t.String() == u.String(), "a clone has the same text")
}

// what was stored through a pointer is copied: the pointer changes the original, not the clone
func C21_Pointers() {
	i, s, b, f := sym.Int64("i"), sym.Str("s", 2), sym.Bool("b"), sym.Uint8("f")
	m, in := json.NewMap(), json.NewArray()
	m.SetInt64("i", &i)
	m.SetString("s", &s)
	in.AppendBool(&b)
	in.AppendUInt8(&f)
	m.SetArray("in", in)
	c, errs := m.Clone()
	sym.Assert(c != nil && len(errs) == 0, "a document can be cloned")
	n := snapMap(c)
	same(n, snapMap(m), "a clone is equal")
	switch sym.Choose("change", 5) {
	case 0:
		i++
	case 1:
		s += "x"
	case 2:
		b = !b
	case 3:
		f ^= 1
	case 4:
		// through a pointer the document gave
		p, e := m.GetString("s")
		sym.Assert(p != nil && len(e) == 0, "a string can be read")
		*p = "changed"
		q, e := m.GetInt64("i")
		sym.Assert(q != nil && len(e) == 0, "a number can be read")
		*q = 99
	}
	same(n, snapMap(c), "a change of the original through a pointer does not show in the clone")
	n = snapMap(m)
	p, e := c.GetString("s")
	sym.Assert(p != nil && len(e) == 0, "a string can be read")
	*p = "other"
	q, e := c.GetInt64("i")
	sym.Assert(q != nil && len(e) == 0, "a number can be read")
	*q = 77
	same(n, snapMap(m), "a change of the clone through a pointer does not show in the original")
}

// every scalar stored through a pointer is copied
func C21_EveryPointer() {
	x := anyScalar(kBool+sym.Choose("kind", kinds-1), "x", 1)
	y := anyScalar(x.kind, "y", 1)
	p := x.object(true)
	v := json.NewValue(p)
	var c *json.Value
	switch sym.Choose("in", 3) {
	case 0:
		w, errs := v.Clone()
		sym.Assert(w != nil && len(errs) == 0, "a value can be cloned")
		c = w
	case 1:
		m := json.NewMap()
		m.SetValue("a", v)
		w, errs := m.Clone()
		sym.Assert(w != nil && len(errs) == 0, "a map can be cloned")
		c = w.GetValue("a")
	case 2:
		a := json.NewArray()
		a.AppendValue(v)
		w, errs := a.Clone()
		sym.Assert(w != nil && len(errs) == 0, "an array can be cloned")
		c = (*w.GetValues())[0]
	}
	same(x.tree(), snapValue(c), "a clone is equal")
	y.through(p)
	same(x.tree(), snapValue(c), "a change through a pointer does not show in the clone")
	same(y.tree(), snapValue(v), "a change through a pointer shows in the original")
	x.through(c.GetObject())
	same(y.tree(), snapValue(v), "a change through the pointer of the clone does not show in the original")
}

// values and arrays by themselves
func C21_Value() {
	b := &builder{left: 2, keys: keyIn("ab"), scal: oneOf(&scalar{kind: kString, s: "x"}), styles: 2}
	a, n := b.arr(2)
	v := json.NewValue(a)
	if sym.Choose("byvalue", 2) == 1 {
		v = json.NewValue(*a)
	}
	c, errs := v.Clone()
	sym.Assert(c != nil && len(errs) == 0, "a value can be cloned")
	same(n, snapValue(c), "a clone is equal")
	p := &parts{}
	changed, other := c, v
	if sym.Choose("which", 2) == 1 {
		changed, other = v, c
	}
	p.value(changed)
	sym.Assume(p.alter())
	same(n, snapValue(other), "a change of one does not show in the other")
}

func C21_Array() {
	b := &builder{left: 2, keys: keyIn("ab"), scal: oneOf(&scalar{kind: kBool, b: true}), styles: 2}
	a, n := b.arr(2)
	c, errs := a.Clone()
	sym.Assert(c != nil && len(errs) == 0, "an array can be cloned")
	same(n, snapArray(c), "a clone is equal")
	p := &parts{}
	changed, other := c, a
	if sym.Choose("which", 2) == 1 {
		changed, other = a, c
	}
	p.inArray(changed)
	sym.Assume(p.alter())
	same(n, snapArray(other), "a change of one does not show in the other")
}

// parsed documents, clones of clones
func C21_Parsed() {
	g := &gen{left: sym.Bound("values of a parsed document", 2, 3), keys: "ab", scal: []string{"1", `"x"`, "null"}}
	m := parse(g.object(2))
	n := snapMap(m)
	c, errs := m.Clone()
	sym.Assert(c != nil && len(errs) == 0, "a document can be cloned")
	cloned(c, n)
	same(n, snapMap(m), "the original stays as it was")
}

// one container stored in two places, or in two documents
func C21_Shared() {
	in := json.NewMap()
	in.SetIntValue("x", 1)
	m := json.NewMap()
	m.SetMap("a", in)
	switch sym.Choose("again", 3) {
	case 0:
		m.SetMap("b", in)
	case 1:
		m.SetMapValue("b", *in)
	case 2:
		a := json.NewArray()
		a.AppendMap(in)
		m.SetArray("b", a)
	}
	cloned(m, snapMap(m))
}

// removed and replaced keys: the clone has the order of the original, and goes on by itself
func C21_AfterHistory() {
	m, o := json.NewMap(), &ordered{}
	steps := sym.Bound("operations before cloning", 3, 4)
	for i := 0; i < steps; i++ {
		o.step(m, sym.StrIn("k", 1, "abc"), i, 2)
	}
	c, errs := m.Clone()
	sym.Assert(c != nil && len(errs) == 0, "a map can be cloned")
	oc := &ordered{}
	for i := range o.keys {
		oc.set(o.keys[i], nil, o.nums[i])
	}
	oc.agrees(c, "a", true)
	if sym.Choose("which", 2) == 0 {
		oc.step(c, sym.StrIn("k", 1, "abc"), 50, 2)
	} else {
		o.step(m, sym.StrIn("k", 1, "abc"), 50, 2)
	}
	oc.agrees(c, "b", true)
	o.agrees(m, "b", true)
}

// wide and long
func C21_Wide() {
	n := []int{5, 16, 17, 40}[sym.Choose("n", sym.Bound("widths", 3, 4))]
	m, a := json.NewMap(), json.NewArray()
	for i := 0; i < n; i++ {
		k := strings.Repeat("k", i)
		in := json.NewMap()
		in.SetIntValue("v", i)
		m.SetMap(k, in)
		a.AppendIntValue(i)
	}
	m.SetArray("list", a)
	at := sym.Choose("at", n)
	t := text(m)
	c, errs := m.Clone()
	sym.Assert(c != nil && len(errs) == 0, "a document can be cloned")
	sym.Assert(text(c) == t, "a clone has the same text")
	in, e := c.GetMap(strings.Repeat("k", at))
	sym.Assert(in != nil && len(e) == 0, "a member of the clone can be read")
	in.SetIntValue("v", -1)
	l, e := c.GetArray("list")
	sym.Assert(l != nil && len(e) == 0, "an array of the clone can be read")
	l.RemoveValueAtIndex(at)
	sym.Assert(text(m) == t, "a change of the clone does not show in the original")
}

// very large documents of every shape
func C21_Great() {
	m, n := anyBig(1, 4)
	c, errs := m.Clone()
	sym.Assert(c != nil && len(errs) == 0, "a document can be cloned")
	same(n, snapMap(c), "a clone is equal")
	t := text(m)
	p := &parts{}
	changed, other := c, m
	if sym.Choose("which", 2) == 1 {
		changed, other = m, c
	}
	p.inMap(changed)
	// the innermost, or last, of each
	switch {
	case len(p.arrays) > 0 && sym.Choose("change", 2) == 1:
		p.arrays[len(p.arrays)-1].AppendStringValue("changed")
	default:
		p.maps[len(p.maps)-1].SetStringValue("new", "changed")
	}
	same(n, snapMap(other), "a change of one does not show in the other")
	sym.Assert(text(other) == t && text(changed) != t, "a change shows in the text of the one changed")
}

// errors, by value and by pointer: an entry of one list is replaced
func C21_Errors() {
	n := 1 + sym.Choose("n", 3)
	es := make([]error, n, n+sym.Choose("spare", 2))
	for i := range es {
		es[i] = errors.New(sym.Str("s", 1))
	}
	was := make([]string, n)
	for i := range es {
		was[i] = es[i].Error()
	}
	v := json.NewValue(es)
	if sym.Choose("ptr", 2) == 1 {
		v = json.NewValue(&es)
	}
	var c *json.Value
	switch sym.Choose("in", 3) {
	case 0:
		w, errs := v.Clone()
		sym.Assert(w != nil && len(errs) == 0, "a value can be cloned")
		c = w
	case 1:
		m := json.NewMap()
		m.SetValue("a", v)
		w, errs := m.Clone()
		sym.Assert(w != nil && len(errs) == 0, "a map can be cloned")
		c = w.GetValue("a")
	case 2:
		a := json.NewArray()
		a.AppendValue(v)
		w, errs := a.Clone()
		sym.Assert(w != nil && len(errs) == 0, "an array can be cloned")
		c = (*w.GetValues())[0]
	}
	changed, other := c, v
	if sym.Choose("which", 2) == 1 {
		changed, other = v, c
	}
	l, errs := changed.GetErrors()
	messages(l, errs, was, "a clone has the same errors")
	at := sym.Choose("at", n)
	l[at] = errors.New("changed")
	if sym.Choose("more", 2) == 1 {
		l = append(l, errors.New("more"))
		switch p := changed.GetObject().(type) {
		case *[]error:
			*p = l
		default:
			changed.SetErrorsValue(l)
		}
	}
	l, errs = other.GetErrors()
	messages(l, errs, was, "a change of one does not show in the other")
}

// both go on after cloning: what is added to one is not seen in the other, nor overwritten by it
func C21_Both() {
	n := sym.Choose("n", sym.Bound("elements before cloning", 4, 9))
	m, a := json.NewMap(), json.NewArray()
	for i := 0; i < n; i++ {
		a.AppendIntValue(i)
	}
	emptied := sym.Choose("emptied", 2) == 1
	if emptied {
		for i := n - 1; i >= 0; i-- {
			a.RemoveValueAtIndex(i)
		}
	}
	m.SetArray("a", a)
	w, errs := m.Clone()
	sym.Assert(w != nil && len(errs) == 0, "a map can be cloned")
	c, errs := w.GetArray("a")
	sym.Assert(c != nil && len(errs) == 0, "an array of a clone can be read")
	want, wantC := []int{}, []int{}
	if !emptied {
		for i := 0; i < n; i++ {
			want, wantC = append(want, i), append(wantC, i)
		}
	}
	steps := sym.Bound("elements added to either after cloning", 3, 4)
	for i := 0; i < steps; i++ {
		if sym.Choose("which", 2) == 0 {
			a.AppendIntValue(100 + i)
			want = append(want, 100+i)
		} else {
			c.AppendIntValue(200 + i)
			wantC = append(wantC, 200+i)
		}
	}
	numbers(a, want, "the original")
	numbers(c, wantC, "the clone")
}

// numbers asserts that an array holds some numbers.
func numbers(a *json.Array, want []int, what string) {
	got, errs := a.GetArrayOfIntValue()
	sym.Assert(len(errs) == 0 && len(got) == len(want) && a.Len() == len(want), what+": has its elements")
	for i := range want {
		sym.Assert(got[i] == want[i], what+": has the elements it was given")
	}
}

// lists of texts, by value and by pointer
func C21_TextLists() {
	n := sym.Choose("n", 4)
	ss := make([]string, n, n+1)
	for i := range ss {
		ss[i] = sym.Str("s", 1)
	}
	was := append([]string{}, ss...)
	v := json.NewValue(ss)
	if sym.Choose("ptr", 2) == 1 {
		v = json.NewValue(&ss)
	}
	m := json.NewMap()
	m.SetValue("a", v)
	t := text(m)
	c, errs := m.Clone()
	sym.Assert(c != nil && len(errs) == 0, "a map can be cloned")
	sym.Assert(text(c) == t && c.GetType("a") == m.GetType("a"), "a clone is equal")
	changed, other := v, c.GetValue("a")
	if sym.Choose("which", 2) == 1 {
		changed, other = other, v
	}
	l := texts(changed)
	sym.Assert(len(l) == n, "a clone has every text")
	if n > 0 {
		l[sym.Choose("at", n)] = "changed"
	}
	_ = append(l, "more")
	l = texts(other)
	sym.Assert(len(l) == n, "a list keeps its length")
	for i := range was {
		sym.Assert(l[i] == was[i], "a change of one does not show in the other")
	}
}

func texts(v *json.Value) []string {
	switch x := v.GetObject().(type) {
	case []string:
		return x
	case *[]string:
		return *x
	}
	sym.Fail("a list of texts is a list of texts")
	return nil
}

// one value somewhere in a wide document or its clone is changed through itself
func C21_Far() {
	n := []int{40, 130, 300}[sym.Choose("n", sym.Bound("widths of a document that is cloned, of 40 to 300", 2, 3))]
	m, a := json.NewMap(), json.NewArray()
	for i := 0; i < n; i++ {
		x := member(i)
		if sym.Symbolic() && i%7 == 1 {
			x = &scalar{kind: kString, s: "text"}
		}
		x.setIn(m, "k"+strconv.Itoa(i), i%3 == 1)
		x.appendTo(a, i%3 == 1)
		if i%5 == 4 {
			in := json.NewMap()
			in.SetIntValue("v", i)
			a.AppendMap(in)
		}
	}
	if sym.Choose("held", 2) == 0 {
		m.SetArray("list", a)
	} else {
		m.SetArrayValue("list", *a)
	}
	was := snapMap(m)
	c, errs := m.Clone()
	sym.Assert(c != nil && len(errs) == 0, "a document can be cloned")
	same(was, snapMap(c), "a clone is equal")
	changed, other := c, m
	if sym.Choose("which", 2) == 1 {
		changed, other = m, c
	}
	at := []int{0, 31, 32, 33, n - 1}[sym.Choose("at", 5)]
	l, e := changed.GetArray("list")
	sym.Assert(l != nil && len(e) == 0, "an array can be read")
	v := changed.GetValue("k" + strconv.Itoa(at))
	if sym.Choose("in", 2) == 1 {
		v = (*l.GetValues())[at]
	}
	switch sym.Choose("how", 3) {
	case 0:
		v.SetStringValue("changed")
	case 1:
		v.SetNil()
	case 2:
		v.SetMap(json.NewMap())
	}
	same(was, snapMap(other), "a change of one does not show in the other")
}

// pointers of a wide document: what they point to is changed
func C21_FarPointers() {
	n := []int{33, 70, 130, 300}[sym.Choose("n", sym.Bound("pointers of a document that is cloned, of 33 to 300", 3, 4))]
	ps, ss := make([]*int64, n), make([]*string, n)
	m, a := json.NewMap(), json.NewArray()
	for i := range ps {
		ps[i], ss[i] = new(int64), new(string)
		*ps[i] = int64(i)
		a.AppendInt64(ps[i])
		m.SetString("k"+strconv.Itoa(i), ss[i])
	}
	m.SetArray("list", a)
	was := snapMap(m)
	c, errs := m.Clone()
	sym.Assert(c != nil && len(errs) == 0, "a document can be cloned")
	for i := range ps {
		*ps[i] += 1000
		*ss[i] = "changed"
	}
	same(was, snapMap(c), "a change of one does not show in the other")
}

// cloned again and again, changed in between: every clone is what the original was, and another
func C21_Again() {
	m, in, a := json.NewMap(), json.NewMap(), json.NewArray()
	x := sym.Int("x")
	m.SetIntValue("x", x)
	in.SetIntValue("y", 1)
	m.SetMap("in", in)
	a.AppendIntValue(1)
	a.AppendMap(json.NewMap())
	m.SetArray("a", a)
	what := sym.Choose("what", 3)
	clone := func() *node {
		switch what {
		case 0:
			return snapMap(m)
		case 1:
			return snapArray(a)
		}
		return snapValue(m.GetValue("in"))
	}
	change, again := sym.Choose("change", 8), sym.Choose("again", 8)
	if what != 0 {
		sym.Assume(change == again)
	}
	rounds := sym.Bound("clones of one original", 6, 12)
	var was []*node
	var maps []*json.Map
	var arrays []*json.Array
	var values []*json.Value
	for r := 0; r < rounds; r++ {
		was = append(was, clone())
		switch what {
		case 0:
			c, errs := m.Clone()
			sym.Assert(c != nil && len(errs) == 0, "a document can be cloned")
			same(was[r], snapMap(c), "a clone is what the original is")
			maps = append(maps, c)
		case 1:
			c, errs := a.Clone()
			sym.Assert(c != nil && len(errs) == 0, "an array can be cloned")
			same(was[r], snapArray(c), "a clone is what the original is")
			arrays = append(arrays, c)
		case 2:
			c, errs := m.GetValue("in").Clone()
			sym.Assert(c != nil && len(errs) == 0, "a value can be cloned")
			same(was[r], snapValue(c), "a clone is what the original is")
			values = append(values, c)
		}
		how := change
		if r%2 == 1 {
			how = again
		}
		switch how {
		case 0: // nothing
		case 1:
			m.SetIntValue("x", r)
			in.SetIntValue("y", r)
		case 2:
			a.SetValueAtIndex(0, json.NewValue(10+r))
			in.SetBoolValue("y", r%2 == 0)
		case 3:
			a.AppendIntValue(r)
			in.SetIntValue("z"+strconv.Itoa(r), 1)
		case 4:
			e, _ := (*a.GetValues())[1].GetMap()
			e.SetIntValue("k", r)
			in.GetValue("y").SetIntValue(20 + r)
		case 5:
			m.RemoveKey("x")
			m.SetIntValue("x", r)
		case 6:
			in.RemoveKey("y")
			in.SetIntValue("y", 1)
		case 7:
			(*a.GetValues())[0].SetStringValue(strconv.Itoa(r))
			m.SetNil("x")
		}
	}
	// one clone is changed, and nothing else
	at := []int{0, 1, rounds / 2, rounds - 1}[sym.Choose("at", 4)]
	now := clone()
	switch what {
	case 0:
		c := maps[at]
		c.SetIntValue("x", -5)
		e, _ := c.GetArray("a")
		e.SetValueAtIndex(0, json.NewValue(-6))
		i, _ := c.GetMap("in")
		i.SetIntValue("y", -7)
	case 1:
		arrays[at].SetValueAtIndex(0, json.NewValue(-6))
		e, _ := (*arrays[at].GetValues())[1].GetMap()
		e.SetIntValue("k", -7)
	case 2:
		e, _ := values[at].GetMap()
		e.SetIntValue("y", -7)
	}
	same(now, clone(), "a change of a clone does not show in the original")
	for r := 0; r < rounds; r++ {
		if r == at {
			continue
		}
		switch what {
		case 0:
			same(was[r], snapMap(maps[r]), "a clone stays what the original was")
		case 1:
			same(was[r], snapArray(arrays[r]), "a clone stays what the original was")
		case 2:
			same(was[r], snapValue(values[r]), "a clone stays what the original was")
		}
	}
}
