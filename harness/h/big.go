package h

import (
	"strconv"
	"strings"

	json "github.com/matehaxor03/holistic_json/json"

	"verifharness/sym"
)

// member gives the i-th of many different members.
func member(i int) *scalar {
	switch i % 7 {
	case 0:
		return &scalar{kind: kInt, vInt: i}
	case 1:
		return &scalar{kind: kString, s: "s" + strconv.Itoa(i)}
	case 2:
		return &scalar{kind: kNil}
	case 3:
		return &scalar{kind: kBool, b: i%2 == 0}
	case 4:
		return &scalar{kind: kUInt64, vUInt64: uint64(i) << 40}
	case 5:
		return &scalar{kind: kInt16, vInt16: int16(-i)}
	}
	return &scalar{kind: kString}
}

const bigs = 6

// big makes a document of n members, elements or levels, with x at one of its places, and the tree it is.
func big(shape, n, at int, x *scalar) (*json.Map, *node) {
	m, a := json.NewMap(), json.NewArray()
	mn, an := &node{kind: "map"}, &node{kind: "array"}
	pick := func(i int) *scalar {
		if i == at {
			return x
		}
		return member(i)
	}
	switch shape {
	case 0: // many members
		for i := 0; i < n; i++ {
			k := "k" + strconv.Itoa(i)
			if in, j := json.NewMap(), i%23; i != at && (j == 3 || j == 11) {
				if j == 3 {
					in.SetNil("n")
					mn.put(k, &node{kind: "map", keys: []string{"n"}, kids: []*node{{kind: "nil"}}})
				} else {
					mn.put(k, &node{kind: "map"})
				}
				if i%2 == 0 {
					m.SetMapValue(k, *in)
				} else {
					m.SetMap(k, in)
				}
				continue
			} else if i != at && j == 17 {
				m.SetArray(k, json.NewArray())
				mn.put(k, &node{kind: "array"})
				continue
			}
			pick(i).setIn(m, k, i%2 == 1)
			mn.put(k, pick(i).tree())
		}
		return m, mn
	case 1: // many elements
		for i := 0; i < n; i++ {
			pick(i).appendTo(a, i%2 == 1)
			an.kids = append(an.kids, pick(i).tree())
		}
	case 2: // many containers
		for i := 0; i < n; i++ {
			in, inn := json.NewMap(), &node{kind: "map"}
			if i == at {
				x.setIn(in, "x", false)
				inn.put("x", x.tree())
			}
			if i%3 == 2 {
				a.AppendArray(json.NewArray())
				an.kids = append(an.kids, &node{kind: "array"})
			}
			a.AppendMap(in)
			an.kids = append(an.kids, inn)
		}
	default: // many levels: of arrays, of objects, of both in turn
		x.appendTo(a, false)
		an.kids = append(an.kids, x.tree())
		for i := 0; i < n; i++ {
			if shape == 4 || shape == 5 && i%2 == 0 {
				in, inn := json.NewMap(), &node{kind: "map"}
				if a != nil {
					in.SetArray("a", a)
					inn.put("a", an)
				} else {
					in.SetMap("m", m)
					inn.put("m", mn)
				}
				if i == at {
					in.SetNil("z")
					inn.put("z", &node{kind: "nil"})
				}
				m, mn, a, an = in, inn, nil, nil
			} else {
				in, inn := json.NewArray(), &node{kind: "array"}
				if a != nil {
					in.AppendArray(a)
					inn.kids = append(inn.kids, an)
				} else {
					in.AppendMap(m)
					inn.kids = append(inn.kids, mn)
				}
				if i == at {
					in.AppendNil()
					inn.kids = append(inn.kids, &node{kind: "nil"})
				}
				a, an, m, mn = in, inn, nil, nil
			}
		}
		if a == nil {
			return m, mn
		}
		m, mn = json.NewMap(), &node{kind: "map"}
	}
	m.SetArray("top", a)
	mn.put("top", an)
	return m, mn
}

// anyBig gives a document of any of some great sizes, with a scalar or a null somewhere.
func anyBig(quick, thorough int) (*json.Map, *node) {
	n := []int{130, 260, 520, 1030}[sym.Choose("n", sym.Bound("great sizes of documents", quick, thorough))]
	at := []int{n - 1, 0, n / 2}[sym.Choose("at", 3)]
	x := &scalar{}
	switch sym.Choose("odd", 3) {
	case 0:
		x = &scalar{kind: kUInt8, vUInt8: 200}
	case 1:
		x = &scalar{kind: kString, s: []string{"x", "\"\\\n", "\u00e9{"}[sym.Choose("text", 3)]}
	}
	return big(sym.Choose("shape", bigs), n, at, x)
}

// bigText is the text of such a document, written without the code under test.
func bigText(shape, n, at int, x string) string {
	t, e := "", ""
	switch shape {
	case 0, 1, 2:
		b := make([]byte, 0, n*12)
		for i := 0; i < n; i++ {
			if i > 0 {
				b = append(b, ',')
			}
			if shape == 0 {
				b = append(b, `"k`...)
				b = strconv.AppendInt(b, int64(i), 10)
				b = append(b, `":`...)
			}
			v := []string{"null", "1", `"s"`, "true", `{}`, `[]`, `-5`}[i%7]
			if shape == 2 {
				v = `{"a":[` + v + `]}`
			}
			if i == at {
				v = x
			}
			b = append(b, v...)
		}
		if shape == 0 {
			return "{" + string(b) + "}"
		}
		return `{"a":[` + string(b) + "]}"
	}
	t, e = deep(n, shape-3)
	return `{"a":` + t + x + e + "}"
}

// context puts the text of a value into a document that is large in some way: many members, elements or
// levels, or long texts, keys, numbers or blanks before it or after it.
func context(x string) string {
	sizes := []int{5, 40, 1100, 130, 300}
	n := sizes[sym.Choose("size of the context", sym.Bound("sizes of a context: 5, 40 and 1100, then 130 and 300", 3, 5))]
	shape := sym.Choose("context", bigs+7)
	if shape < bigs {
		at := n - 1
		if n < 100 {
			at = []int{n - 1, 0, n / 2}[sym.Choose("place in the context", 3)]
		}
		return bigText(shape, n, at, x)
	}
	return contextText(shape-bigs, n, x)
}

func contextText(shape, n int, x string) string {
	long := strings.Repeat("long text, ", n/3+1)
	switch shape {
	case 0:
		return `{"t":"` + long + `","a":` + x + `}`
	case 1:
		return `{"` + long + `":` + x + `}`
	case 2:
		return `{"a":[` + x + `,"` + long + `"]}`
	case 3:
		return `{"a":` + strings.Repeat(" ", n) + x + strings.Repeat("\n", n) + `}`
	case 4:
		return `{"a":[1.` + strings.Repeat("5", n) + `,` + x + `]}`
	case 5:
		return `{"a":[` + strings.Repeat(`{"b":[1,"x"]},`, n) + `[{"c":` + x + `}],{}]}`
	}
	return `{"a":"` + strings.Repeat(`\n\u00e9\"`, n) + `","b":{"` + strings.Repeat(`\\`, n) + `":[` + x + `]}}`
}
