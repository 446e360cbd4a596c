package h

import (
	json "github.com/matehaxor03/holistic_json/json"

	"verifharness/sym"
)

// builder makes documents through the API, with the tree they are.
type builder struct {
	left   int // values still to be stored
	keys   func() string
	scal   func() (*scalar, bool)
	styles int // ways of storing a container: 1 pointer, 2 also by value
}

func (b *builder) obj(depth int) (*json.Map, *node) {
	m, n := json.NewMap(), &node{kind: "map"}
	for b.left > 0 && sym.Choose("more", 2) == 1 {
		b.left--
		k := b.keys()
		// containers are complete before they are stored
		switch kind := sym.Choose("member", 3); {
		case kind == 0:
			x, ptr := b.scal()
			x.setIn(m, k, ptr)
			n.put(k, x.tree())
		case depth == 0:
			sym.Assume(false)
		case kind == 1:
			c, cn := b.obj(depth - 1)
			if b.styles > 1 && sym.Choose("byvalue", 2) == 1 {
				m.SetMapValue(k, *c)
			} else {
				m.SetMap(k, c)
			}
			n.put(k, cn)
		case kind == 2:
			c, cn := b.arr(depth - 1)
			if b.styles > 1 && sym.Choose("byvalue", 2) == 1 {
				m.SetArrayValue(k, *c)
			} else {
				m.SetArray(k, c)
			}
			n.put(k, cn)
		}
	}
	return m, n
}

func (b *builder) arr(depth int) (*json.Array, *node) {
	a, n := json.NewArray(), &node{kind: "array"}
	for b.left > 0 && sym.Choose("more", 2) == 1 {
		b.left--
		switch kind := sym.Choose("element", 3); {
		case kind == 0:
			x, ptr := b.scal()
			x.appendTo(a, ptr)
			n.kids = append(n.kids, x.tree())
		case depth == 0:
			sym.Assume(false)
		case kind == 1:
			c, cn := b.obj(depth - 1)
			if b.styles > 1 && sym.Choose("byvalue", 2) == 1 {
				a.AppendMapValue(*c)
			} else {
				a.AppendMap(c)
			}
			n.kids = append(n.kids, cn)
		case kind == 2:
			c, cn := b.arr(depth - 1)
			if b.styles > 1 && sym.Choose("byvalue", 2) == 1 {
				a.AppendArrayValue(*c)
			} else {
				a.AppendArray(c)
			}
			n.kids = append(n.kids, cn)
		}
	}
	return a, n
}

// keyIn gives keys of one byte of a set.
func keyIn(set string) func() string {
	return func() string { return sym.StrIn("k", 1, set) }
}

// keyOf gives one of some keys.
func keyOf(keys ...string) func() string {
	return func() string { return keys[sym.Choose("key", len(keys))] }
}

// oneOf gives fixed scalars.
func oneOf(xs ...*scalar) func() (*scalar, bool) {
	return func() (*scalar, bool) { return xs[sym.Choose("scalar", len(xs))], false }
}

// again asserts that a scalar came back from its text: integers may have changed their type, not
// their value; floats are what their literal denotes.
func again(was, got *node, what string) {
	switch {
	case signed(was.kind) || unsigned(was.kind):
		sym.Assert(signed(got.kind) || unsigned(got.kind), what+": an integer comes back as an integer")
		sym.Assert(was.u == got.u, what+": an integer comes back with its value")
		if signed(was.kind) {
			sym.Assert(signed(got.kind) == (int64(was.u) < 0), what+": an integer comes back with its sign")
		} else {
			sym.Assert(unsigned(got.kind), what+": an integer comes back with its sign")
		}
		return
	case was.kind == "float32" || was.kind == "float64":
		number := signed(got.kind) || unsigned(got.kind) || got.kind == "float32" || got.kind == "float64"
		sym.Assert(number, what+": a float comes back as a number")
		return
	}
	sym.Assert(was.kind == got.kind, what+": the kind of a value survives")
	sym.Assert(was.u == got.u, what+": a boolean survives")
	sym.Assert(was.s == got.s, what+": a string survives")
	sym.Assert(len(was.keys) == len(got.keys), what+": the keys survive")
	for i := range was.keys {
		sym.Assert(was.keys[i] == got.keys[i], what+": the keys survive, in order")
	}
	sym.Assert(len(was.kids) == len(got.kids), what+": the elements survive")
	for i := range was.kids {
		again(was.kids[i], got.kids[i], what)
	}
}

// strictly is the reference parser, refusing raw control characters in strings as the standard does.
func strictly(t string) (*node, bool) {
	in := false
	for i := 0; i < len(t); i++ {
		if t[i] == '\\' {
			i++
		} else if t[i] == '"' {
			in = !in
		} else if in && t[i] < ' ' {
			return nil, false
		}
	}
	return refParse(t)
}
