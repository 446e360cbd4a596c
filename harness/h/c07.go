package h

import (
	"strings"

	json "github.com/matehaxor03/holistic_json/json"

	"verifharness/sym"
)

// documents given as their tokens
var tokens = [][]string{
	{"{", `"a"`, ":", "1", "}"},
	{"{", `"a"`, ":", `"x"`, ",", `"b"`, ":", "true", "}"},
	{"{", `"a"`, ":", "[", "]", "}"},
	{"{", `"a"`, ":", "{", "}", "}"},
	{"{", "}"},
	{"{", `"a"`, ":", "[", "1", ",", "-2", "]", "}"},
	{"{", `"a"`, ":", "[", `"x"`, ",", `" y "`, ",", "null", "]", ",", `"b"`, ":", "false", "}"},
	{"{", `"a"`, ":", "{", `"b"`, ":", "1.5", "}", ",", `"c"`, ":", "{", "}", "}"},
	{"{", `"a"`, ":", "[", "{", "}", ",", "[", "]", ",", "{", `"b"`, ":", "1", "}", "]", "}"},
	{"{", `" a "`, ":", `"\t"`, ",", `" a"`, ":", "[", "[", "1", "]", ",", "[", "true", "]", "]", "}"},
}

const blanks = " \t\r\n"

// around joins the tokens, with gap(i) before token i.
func around(ts []string, gap func(i int) string) string {
	t := ts[0]
	for i := 1; i < len(ts); i++ {
		t += gap(i) + ts[i]
	}
	return t
}

func spaced(ts []string, gap func(i int) string) {
	compact := parse(around(ts, func(int) string { return "" }))
	m, errs := json.Parse(around(ts, gap))
	sym.Assert(m != nil && len(errs) == 0, "whitespace between tokens is accepted")
	same(snapMap(compact), snapMap(m), "whitespace between tokens does not matter")
}

// one gap, several blanks
func C07_One() {
	ts := tokens[sym.Choose("doc", len(tokens))]
	at := 1 + sym.Choose("gap", len(ts)-1)
	n := 1 + sym.Choose("n", sym.Bound("blanks in one gap", 2, 3))
	w := sym.StrIn("w", n, blanks)
	spaced(ts, func(i int) string {
		if i == at {
			return w
		}
		return ""
	})
}

// a blank in any set of gaps
func C07_Any() {
	ts := tokens[sym.Choose("doc", sym.Bound("documents with a blank in any set of gaps", 5, 6))]
	spaced(ts, func(i int) string {
		if sym.Choose("blank", 2) == 1 {
			return sym.StrIn("w", 1, blanks)
		}
		return ""
	})
}

// a blank in two gaps
func C07_Two() {
	ts := tokens[sym.Choose("doc", len(tokens))]
	a := 1 + sym.Choose("first", len(ts)-1)
	b := 1 + sym.Choose("second", len(ts)-1)
	sym.Assume(a < b)
	spaced(ts, func(i int) string {
		if i == a || i == b {
			return sym.StrIn("w", 1, blanks)
		}
		return ""
	})
}

// a blank in every gap, and long runs
func C07_Every() {
	ts := tokens[sym.Choose("doc", len(tokens))]
	n := []int{1, 2, 4, 7, 16, 40}[sym.Choose("n", sym.Bound("lengths of blank runs", 4, 6))]
	kinds := sym.Choose("same", 2)
	w := sym.StrIn("w", 1, blanks)
	spaced(ts, func(i int) string {
		t := ""
		for j := 0; j < n; j++ {
			if kinds == 1 {
				t += w
			} else {
				t += blanks[(i+j)%4 : (i+j)%4+1]
			}
		}
		return t
	})
}

// blanks inside of literals are kept while those around them are not
func C07_Literals() {
	s := sym.StrIn("s", sym.Bound("blanks inside of a literal", 2, 3), " \t\r\nx")
	w := sym.StrIn("w", 1, blanks)
	x := sym.StrIn("x", 1, blanks)
	switch sym.Choose("in", 3) {
	case 0:
		conform(`{"a":` + w + `"` + s + `"` + x + `}`)
	case 1:
		conform(`{` + w + `"` + s + `"` + x + `:1}`)
	case 2:
		conform(`{"a":["y",` + w + `"` + s + `"` + x + `]}`)
	}
}

// unquoted tokens ended by blanks, any digits
func C07_Scalars() {
	v := []string{"true", "false", "null", sym.StrIn("d", 2, "0123456789"), "-" + sym.StrIn("d", 1, "123456789"), sym.StrIn("d", 1, "0123456789") + ".5"}[sym.Choose("v", 6)]
	w := sym.StrIn("w", sym.Choose("before", 3), blanks)
	x := sym.StrIn("x", sym.Choose("after", 3), blanks)
	f := [][2]string{{`{"a":`, `}`}, {`{"a":[`, `]}`}, {`{"a":[1,`, `,{}]}`}, {`{"a":`, `,"b":1}`}}[sym.Choose("in", 4)]
	conform(f[0] + w + v + x + f[1])
}

// generated documents with a symbolic blank wherever one may stand
func C07_Shapes() {
	g := &gen{left: sym.Bound("values of a generated document with blanks", 2, 3), keys: "ab", scal: []string{"1", `"x"`},
		blank: func() string { return sym.StrIn("w", 1, blanks) }}
	t := g.object(2)
	sym.Assert(conform(t) != nil, "whitespace between tokens is accepted")
}

// long runs of blanks in one gap
func C07_LongRuns() {
	ts := tokens[sym.Choose("doc", len(tokens))]
	at := 1 + sym.Choose("gap", len(ts)-1)
	n := []int{9, 17, 33, 65, 130, 300, 1100, 4200}[sym.Choose("n", sym.Bound("lengths of long blank runs", 7, 8))]
	w := sym.StrIn("w", 1, blanks)
	x := blanks[sym.Choose("other", 4):][:1]
	run := strings.Repeat(w, n/2) + strings.Repeat(x, n-n/2)
	spaced(ts, func(i int) string {
		if i == at {
			return run
		}
		return ""
	})
}

// every length of a run
func C07_Lengths() {
	ts := tokens[[]int{1, 6, 8}[sym.Choose("doc", 3)]]
	at := 1 + sym.Choose("gap", len(ts)-1)
	run := strings.Repeat(sym.StrIn("w", 1, blanks), 3+sym.Choose("n", sym.Bound("lengths of blank runs, each", 40, 140)))
	spaced(ts, func(i int) string {
		if i == at {
			return run
		}
		return ""
	})
}

// blanks in large documents
func C07_Context() {
	w, v := sym.StrIn("w", 1, blanks), sym.StrIn("v", 1, blanks)
	x := []string{"1", "{}", `"x"`, "[" + w + "]", "[1" + w + ",null" + v + "]", `{"a"` + v + ":true" + w + "}"}[sym.Choose("value", 6)]
	sym.Assert(conform(context(w+x+v)) != nil, "whitespace between tokens is accepted")
}
