package h

import (
	json "github.com/matehaxor03/holistic_json/json"

	"verifharness/sym"
)

// outcome checks that Parse gave exactly a document or errors.
func outcome(text string) *json.Map {
	m, errs := json.Parse(text)
	sym.Assert((m == nil) != (len(errs) == 0), "parse gives a document and no errors, or errors and no document")
	if m != nil {
		snapMap(m)
	}
	return m
}

// any short text
func C01_Short() {
	n := sym.Choose("n", sym.Bound("any text of up to n bytes", 5, 5)+1)
	outcome(sym.Str("b", n))
}

// any bytes between the outer braces
func C01_Braces() {
	n := sym.Choose("n", sym.Bound("free bytes between the braces", 5, 6)+1)
	outcome("{" + sym.Str("b", n) + "}")
}

var frames = [][2]string{
	{`{"a":`, `}`}, {`{"a":[`, `]}`}, {`{"a":"`, `"}`}, {`{"a":{`, `}}`}, {`{"`, `":1}`},
	{`{"a":{"b":1}`, `}`}, {`{"a":[1]`, `}`}, {`{"a":[[`, `]]}`}, {`{"a":[{`, `}]}`}, {`{"a":"x"`, `}`}, {`{"a":1,`, `}`}, {`{"a"`, `1}`},
}

// any bytes in the middle of a document
func C01_Framed() {
	f := frames[sym.Choose("frame", len(frames))]
	n := sym.Choose("n", sym.Bound("free bytes in the middle of a document", 2, 4)+1)
	outcome(f[0] + sym.Str("b", n) + f[1])
}

// bytes of the syntax only, more of them
func C01_Syntax() {
	n := sym.Bound("bytes of the syntax alphabet", 5, 7)
	outcome("{" + sym.StrIn("b", n, "{}[]\",:\\ 1t") + "}")
}

// a number of every length, and what follows it
func C01_Numbers() {
	n := sym.Choose("n", sym.Bound("number bytes", 5, 6)+1)
	outcome(`{"a":` + sym.StrIn("b", n, "+-.0123456789eE") + `}`)
}

func rep(s string, n int) string {
	r := ""
	for i := 0; i < n; i++ {
		r += s
	}
	return r
}

// deep and long documents with one free byte
func C01_Large() {
	n := sym.Bound("depth and length", 40, 120)
	c := sym.Str("b", 1)
	switch sym.Choose("shape", 6) {
	case 0:
		outcome(rep(`{"a":`, n) + c + rep("}", n))
	case 1:
		outcome(`{"a":` + rep("[", n) + c + rep("]", n) + "}")
	case 2:
		outcome(`{"a":[` + rep("1,", n) + c + "]}")
	case 3:
		outcome("{" + rep(`"a":1,`, n) + `"b":` + c + "}")
	case 4:
		outcome(`{"a":"` + rep("x", n*4) + c + `"}`)
	case 5:
		outcome(`{"a":` + rep("9", n) + c + `}`)
	}
}

// very large documents, of every shape, with a free byte somewhere
func C01_Great() {
	n := []int{130, 260, 520, 1030}[sym.Choose("n", sym.Bound("great sizes", 2, 4))]
	at := []int{n - 1, n / 2}[sym.Choose("at", 2)]
	outcome(bigText(sym.Choose("shape", bigs), n, at, sym.Str("b", 1)))
}

// large documents with any byte for a value, and something after their end
func C01_Context() {
	switch sym.Choose("what", 3) {
	case 0:
		outcome(context(sym.Str("b", 1)))
	case 1:
		outcome(context([]string{"nul", `"`, "\\", "1 1", "}", "]"}[sym.Choose("value", 6)]))
	case 2:
		t := context([]string{"1", `"x"`}[sym.Choose("value", sym.Bound("values in a large document", 1, 2))])
		t = t[:len(t)-sym.Choose("cut", 2)]
		outcome(t + []string{"x", "}", "]", " ", ",", `"`, "{}", "\x00"}[sym.Choose("tail", sym.Bound("what follows a large document", 5, 8))])
	}
}
