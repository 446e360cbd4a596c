package h

import (
	"strconv"
	"strings"

	"verifharness/sym"
)

// gen writes a document of a shape chosen by the engine, with symbolic keys.
type gen struct {
	left  int // values still to be written
	keys  string
	scal  []string
	blank func() string
}

func (g *gen) ws() string {
	if g.blank == nil {
		return ""
	}
	return g.blank()
}

func (g *gen) value(depth int) string {
	g.left--
	k := sym.Choose("kind", len(g.scal)+2)
	if k == len(g.scal) && depth > 0 {
		return g.object(depth - 1)
	}
	if k == len(g.scal)+1 && depth > 0 {
		return g.array(depth - 1)
	}
	if k >= len(g.scal) {
		sym.Assume(false)
	}
	if g.scal[k] == "#" {
		return sym.StrIn("digit", 1, "012")
	}
	return g.scal[k]
}

func (g *gen) object(depth int) string {
	t := "{" + g.ws()
	first := true
	for g.left > 0 && sym.Choose("more", 2) == 1 {
		if !first {
			t += "," + g.ws()
		}
		first = false
		t += `"` + sym.StrIn("k", 1, g.keys) + `"` + g.ws() + ":" + g.ws() + g.value(depth) + g.ws()
	}
	return t + "}"
}

func (g *gen) array(depth int) string {
	t := "[" + g.ws()
	first := true
	for g.left > 0 && sym.Choose("more", 2) == 1 {
		if !first {
			t += "," + g.ws()
		}
		first = false
		t += g.value(depth) + g.ws()
	}
	return t + "]"
}

// small documents of every shape, with any (and repeated) keys
func C06_Shapes() {
	g := &gen{left: sym.Bound("values of a generated document", 4, 6), keys: "ab", scal: []string{"#", `"x"`}}
	t := g.object(sym.Bound("nesting of a generated document", 3, 5))
	sym.Assert(conform(t) != nil, "a well-formed document is accepted")
}

// the same inside of arrays, with all scalars
func C06_Arrays() {
	g := &gen{left: sym.Bound("values of a generated array", 3, 4), keys: "ab", scal: []string{"#", `"x"`, "true", "false", "null", "-1.5"}}
	t := `{"a":` + g.array(sym.Bound("nesting of a generated array", 3, 3)) + `}`
	sym.Assert(conform(t) != nil, "a well-formed document is accepted")
}

// repeated keys in flat objects
func C06_Repeated() {
	n := 1 + sym.Choose("n", sym.Bound("members with any keys", 4, 6))
	t := "{"
	vals := []string{"1", `"x"`, `{"p":2}`, `[3]`, "null", "true"}
	for i := 0; i < n; i++ {
		if i > 0 {
			t += ","
		}
		t += `"` + sym.StrIn("k", 1, "abc") + `":` + vals[i]
	}
	sym.Assert(conform(t+"}") != nil, "a well-formed document is accepted")
}

// any bytes of structure between fixed members
func C06_Structure() {
	n := 1 + sym.Choose("n", sym.Bound("structural bytes", 5, 7))
	t := `{"a":[` + sym.StrIn("s", n, "[]{},1") + `],"b":2}`
	conform(t)
}

// member lists spelled with structural bytes
func C06_Members() {
	n := 1 + sym.Choose("n", sym.Bound("bytes of members", 5, 7))
	t := `{"a":{` + sym.StrIn("s", n, `[]{},:1"`) + `},"b":2}`
	conform(t)
}

// wide documents: a probe at any position of a long object or array
func C06_Wide() {
	n := []int{1, 7, 8, 9, 16, 17, 33, 64, 65, 129, 257}[sym.Choose("n", sym.Bound("sizes of wide documents", 9, 11))]
	at := []int{0, n / 2, n - 1}[sym.Choose("at", 3)]
	arr := sym.Choose("array", 2) == 1
	k := sym.StrIn("k", 1, "klm")
	var b strings.Builder
	b.WriteString(`{"o":`)
	if arr {
		b.WriteString("[")
	} else {
		b.WriteString("{")
	}
	for i := 0; i < n; i++ {
		if i > 0 {
			b.WriteString(",")
		}
		v := string(rune('a'+i%26)) + string(rune('a'+i/26))
		if i == at {
			if !arr {
				b.WriteString(`"` + k + `":`)
			}
			b.WriteString(`{"` + k + `":[]}`)
			continue
		}
		if !arr {
			b.WriteString(`"` + v + `":`)
		}
		b.WriteString(`"` + v + `"`)
	}
	if arr {
		b.WriteString("]}")
	} else {
		b.WriteString("}}")
	}
	sym.Assert(conform(b.String()) != nil, "a well-formed document is accepted")
}

// deep documents
func C06_Deep() {
	n := []int{1, 2, 3, 5, 9, 17, 33, 65}[sym.Choose("n", sym.Bound("depths", 6, 8))]
	pat := sym.Choose("pattern", 4)
	k := sym.StrIn("k", 1, "ab")
	t, e := "", ""
	for i := 0; i < n; i++ {
		obj := pat == 0 || pat == 2 && i%2 == 0 || pat == 3 && i%3 == 0
		if obj {
			t += `{"` + k + `":`
			e = `,"` + k + `b":1}` + e
		} else {
			t += `["x",`
			e = `,"y"]` + e
		}
	}
	sym.Assert(conform(`{"a":`+t+`{}`+e+`}`) != nil, "a well-formed document is accepted")
}

// what follows a nested container belongs to the outer one
func C06_After() {
	inner := []string{"{}", "[]", `{"p":1}`, `[1]`, `[[]]`, `{"p":{}}`, `[{}]`, `{"p":[]}`, `[{"p":1}]`, `[[1,2]]`}
	a := inner[sym.Choose("first", len(inner))]
	b := inner[sym.Choose("second", len(inner))]
	k := sym.StrIn("k", 1, "abc")
	var t string
	switch sym.Choose("in", 3) {
	case 0:
		t = `{"a":` + a + `,"` + k + `":` + b + `,"c":null}`
	case 1:
		t = `{"a":[` + a + `,` + b + `,"` + k + `"],"c":false}`
	case 2:
		t = `{"a":{"` + k + `":` + a + `,"b":` + b + `},"c":[0]}`
	}
	sym.Assert(conform(t) != nil, "a well-formed document is accepted")
}

// any scalar, at any place among nested containers
func C06_Place() {
	var v string
	switch sym.Choose("scalar", 5) {
	case 0:
		v = sym.StrIn("digits", 1+sym.Choose("n", sym.Bound("digits of a placed number", 2, 3)), "0129")
	case 1:
		v = "-" + sym.StrIn("digits", 1, "0129")
	case 2:
		v = `"` + sym.Str("s", sym.Choose("n", sym.Bound("bytes of a placed string", 2, 3))) + `"`
	case 3:
		v = []string{"true", "false", "null"}[sym.Choose("word", 3)]
	case 4:
		v = sym.StrIn("digits", 1, "019") + "." + sym.StrIn("digits", 1, "05")
	}
	places := []string{
		`{"a":@}`, `{"a":[@]}`, `{"a":[[@]]}`, `{"a":[[[@]]]}`, `{"a":{"b":@}}`, `{"a":{"b":{"c":@}}}`,
		`{"a":[{"b":@}]}`, `{"a":{"b":[@]}}`, `{"a":[{"b":[@]}]}`, `{"a":{"b":[{"c":@}]}}`,
		`{"a":[@,1],"b":2}`, `{"a":[1,@],"b":2}`, `{"a":[[@,1],2]}`, `{"a":[[1,@],2]}`, `{"a":[{"b":@,"c":1},2]}`, `{"a":[{"c":1,"b":@},2]}`,
		`{"a":@,"b":[@],"c":{"d":@}}`, `{"a":[@,@,@]}`, `{"a":[1,[@],@],"b":@}`, `{"b":{"c":@,"d":@},"a":@}`,
	}
	t := places[sym.Choose("place", len(places))]
	conform(strings.ReplaceAll(t, "@", v))
}

// very deep documents, with any leaf
func C06_Deeper() {
	n := []int{100, 129, 260, 513, 1025, 2100}[sym.Choose("n", sym.Bound("great depths", 4, 5))]
	leaf := sym.StrIn("leaf", 1, "1249")
	t, e := deep(n, sym.Choose("pattern", 3))
	sym.Assert(conform(`{"a":`+t+leaf+e+`,"b":2}`) != nil, "a well-formed document is accepted")
}

// very large documents of every shape, with any scalar somewhere
func C06_Great() {
	n := []int{130, 260, 520, 1030}[sym.Choose("n", sym.Bound("great sizes of documents", 2, 4))]
	at := []int{0, n / 2, n - 1}[sym.Choose("at", 3)]
	x := []string{sym.StrIn("digit", 1, "0123456789"), `"` + sym.StrIn("s", 1, "x,:{}[]") + `"`, "null", "{}", `{"k":[]}`}[sym.Choose("value", 5)]
	sym.Assert(conform(bigText(sym.Choose("shape", bigs), n, at, x)) != nil, "a well-formed document is accepted")
}

// any value in large documents
func C06_Context() {
	x := []string{"1", `"x"`, "null", "{}", "[]", `{"a":{"a":[]}}`, `[[],{"b":1,"b":[2]}]`, `{"k0":1,"k1":2,"k0":3}`}[sym.Choose("value", 8)]
	sym.Assert(conform(context(x)) != nil, "a well-formed document is accepted")
}

// repeated keys with values of every kind, at any depth and among others
func C06_RepeatedAgain() {
	vals := []string{"1", "[1]", `{"p":2}`, "null", `"x"`, "[]", "{}", `{"k":[3]}`}
	x := vals[sym.Choose("first", sym.Bound("values of repeated keys", 5, 8))]
	y := vals[sym.Choose("second", sym.Bound("values of repeated keys", 5, 8))]
	before := []string{"", `"b":[0],"c":{},`}[sym.Choose("before", 2)]
	between := []string{"", `"d":{"k":1},"e":[],`}[sym.Choose("between", 2)]
	after := []string{`,"f":1`, ""}[sym.Choose("after", sym.Bound("what follows repeated keys", 1, 2))]
	k := []string{"k", "b", "d"}[sym.Choose("key", 3)]
	t, e := deep(sym.Choose("depth", sym.Bound("depth of repeated keys", 5, 8)), sym.Choose("pattern", 3))
	obj := "{" + before + `"k":` + x + "," + between + `"` + k + `":` + y + after + "}"
	sym.Assert(conform(`{"a":`+t+obj+e+`}`) != nil, "a well-formed document is accepted")
}

// the last of many occurrences of a key
func C06_RepeatedOften() {
	n := []int{3, 9, 20, 70, 300}[sym.Choose("n", 5)]
	distinct := []int{1, 2, 5, 18}[sym.Choose("distinct", 4)]
	t := `{"o":{`
	for i := 0; i < n; i++ {
		if i > 0 {
			t += ","
		}
		t += `"k` + strconv.Itoa(i%distinct) + `":` + []string{"1", `"x"`, "[" + strconv.Itoa(i) + "]", `{"a":1}`, "null", strconv.Itoa(i)}[i%6]
	}
	sym.Assert(conform(t+"}}") != nil, "a well-formed document is accepted")
}
