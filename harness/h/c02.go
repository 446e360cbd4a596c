package h

import (
	json "github.com/matehaxor03/holistic_json/json"

	"verifharness/sym"
)

// nested tells whether a text is properly nested: the oracle reads it once, with a stack.
func nested(t string) bool {
	var stack []byte
	closed := false
	for i := 0; i < len(t); i++ {
		c := t[i]
		if closed {
			if !space(c) {
				return false
			}
			continue
		}
		switch c {
		case '"':
			i++
			for {
				if i >= len(t) {
					return false
				}
				if t[i] == '\\' {
					i += 2
					continue
				}
				if t[i] == '"' {
					break
				}
				i++
			}
		case '{', '[':
			stack = append(stack, c)
		case '}', ']':
			if len(stack) == 0 || stack[len(stack)-1] != c-2 {
				return false
			}
			stack = stack[:len(stack)-1]
			closed = len(stack) == 0
		default:
			if len(stack) == 0 && !space(c) {
				return false
			}
		}
	}
	return closed
}

func nesting(t string) {
	m, errs := json.Parse(t)
	if nested(t) {
		return
	}
	sym.Reach("not nested")
	sym.Assert(m == nil, "a text that is not properly nested gives no document")
	sym.Assert(len(errs) > 0, "a text that is not properly nested gives an error")
}

// any bytes between the outer braces
func C02_Braces() {
	n := sym.Choose("n", sym.Bound("free bytes between the braces", 4, 6)+1)
	nesting("{" + sym.Str("b", n) + "}")
}

// any short text
func C02_Short() {
	n := sym.Choose("n", sym.Bound("any text of up to n bytes", 5, 6)+1)
	nesting(sym.Str("b", n))
}

const syntax = "{}[]\",:\\ 1"

// bytes of the syntax, in all positions of a document
func C02_Framed() {
	f := frames[sym.Choose("frame", len(frames))]
	n := sym.Choose("n", sym.Bound("syntax bytes in the middle of a document", 3, 5)+1)
	nesting(f[0] + sym.StrIn("b", n, syntax) + f[1])
}

// longer texts of syntax bytes
func C02_Syntax() {
	n := sym.Bound("syntax bytes between the braces", 6, 8)
	nesting("{" + sym.StrIn("b", n, syntax) + "}")
}

// brackets only, at the end, after members of every kind
func C02_Brackets() {
	heads := []string{`{"a":`, `{"a":1,"b":`, `{"a":"x","b":`, `{"a":{},"b":`, `{"a":[],"b":`, `{"a":[{"b":[`, `{"a":"}","b":`, `{"a":"\"","b":`}
	h := heads[sym.Choose("head", len(heads))]
	n := sym.Choose("n", sym.Bound("brackets", 6, 8)+1)
	nesting(h + sym.StrIn("b", n, "{}[]"))
}

// backslashes and quotes
func C02_Quotes() {
	heads := []string{`{"a":"`, `{"`, `{"a":["`, `{"a":{"b":"`, `{"a":["x","`}
	tails := []string{`"}`, `":1}`, `"]}`, `"}}`, `"]}`}
	k := sym.Choose("frame", len(heads))
	n := sym.Choose("n", sym.Bound("quotes, backslashes and closing brackets", 5, 7)+1)
	nesting(heads[k] + sym.StrIn("b", n, "\"\\}]x") + tails[k])
}

// deep nesting with one bracket changed
func C02_Deep() {
	n := sym.Bound("depth", 12, 24)
	var t []byte
	var closing []byte
	t = append(t, `{"k":`...)
	kind := sym.Choose("kind", 3)
	for i := 0; i < n; i++ {
		if kind == 0 || kind == 2 && i%2 == 0 {
			t = append(t, '[')
			closing = append([]byte{']'}, closing...)
		} else {
			t = append(t, `{"k":`...)
			closing = append([]byte{'}'}, closing...)
		}
	}
	t = append(t, '1')
	closing = append(closing, '}')
	at := sym.Choose("at", len(closing))
	switch sym.Choose("change", 3) {
	case 0:
		closing[at] = sym.ByteIn("c", "{}[]\", ")
	case 1:
		closing = append(closing[:at], closing[at+1:]...)
	case 2:
		c := sym.ByteIn("c", "}]")
		closing = append(closing[:at], append([]byte{c}, closing[at:]...)...)
	}
	nesting(string(t) + string(closing))
}

// very deep nesting, with the brackets at one place changed
func C02_Deeper() {
	n := []int{70, 130, 260, 520, 1030}[sym.Choose("n", sym.Bound("great depths", 3, 5))]
	t, e := deep(n, sym.Choose("pattern", 3))
	at := []int{0, 1, n / 2, n - 1}[sym.Choose("at", 4)]
	b := []byte(e)
	switch sym.Choose("change", 3) {
	case 0:
		b[at] = sym.ByteIn("c", "}]\", ")
	case 1:
		b = append(b[:at], b[at+1:]...)
	case 2:
		b = append(b, sym.ByteIn("c", "}]"))
	}
	nesting(`{"a":` + t + "1" + string(b) + "}")
}

// brackets with a scalar, a comma or a key before each
func C02_Scalars() {
	heads := []string{`{"a":`, `{"a":[{"b":`, `{"a":[`, `{"a":{"b":[`}
	tails := []string{`}`, `]}`, `}]}`, `]}}`}
	t := heads[sym.Choose("head", len(heads))]
	n := 1 + sym.Choose("n", sym.Bound("brackets beside scalars", 3, 4))
	for i := 0; i < n; i++ {
		before := sym.Choose("before", 5)
		t += []string{"", "1", ",", `,"k":`, `"x"`}[before]
		if before == 2 || before == 3 {
			t += sym.StrIn("opening", 1, "{[")
		} else {
			t += sym.StrIn("bracket", 1, "}]")
		}
	}
	nesting(t + tails[sym.Choose("tail", len(tails))])
}

// large documents with a byte of the syntax for a value, and something after their end
func C02_Context() {
	switch sym.Choose("what", 2) {
	case 0:
		nesting(context(sym.StrIn("b", 1+sym.Choose("free", sym.Bound("free bytes in a large document", 1, 2)), "{}[]\",1")))
	case 1:
		t := context([]string{"1", "[]"}[sym.Choose("value", 2)])
		t = t[:len(t)-sym.Choose("cut", 3)]
		nesting(t + []string{"", "}", "]", ",", "{}", "x"}[sym.Choose("tail", sym.Bound("what follows a large document", 3, 6))])
	}
}

// a bracket or a quote between two pairs of any bytes, where a key, a value or the end may stand
func C02_Enclosed() {
	frame := [][2]string{{"{", "}"}, {`{"a":`, "}"}, {`{"a":[1,`, "]}"}, {`{"a":"b",`, "}"}, {`{"a":{}`, "}"}, {`{"a"`, ":1}"}}[sym.Choose("frame", sym.Bound("frames around what is enclosed", 2, 6))]
	nesting(frame[0] + sym.Str("b", 2) + []string{"}", "]", "{", "\""}[sym.Choose("bracket", sym.Bound("brackets enclosed", 1, 4))] + sym.Str("e", 2) + frame[1])
}

// brackets within what other notations take for comments, strings and groups
func C02_Notations() {
	frame := [][2]string{{"{", "}"}, {"{", `"b":1}`}, {`{"a":`, "}"}, {`{"a":`, "1}"}, {`{"a":[1,`, "]}"}, {`{"a":"b",`, "}"}, {`{"a":{}`, "}"}, {`{"a"`, ":1}"}, {`{"a":1}`, ""}}[sym.Choose("frame", 9)]
	marks := [][2]string{{"/*", "*/"}, {"//", "\n"}, {"#", "\n"}, {"--", "\n"}, {";", "\n"}, {"<!--", "-->"}, {"(*", "*)"}, {"'", "'"}, {"`", "`"}, {"'''", "'''"}, {"(", ")"}, {"<", ">"}, {"\x00", "\x00"}, {"%", "%"}, {"$", "$"}, {"/", "/"}, {"\xe2\x80\x9c", "\xe2\x80\x9d"}, {"\u00a0", "\u00a0"}, {"\\u0022", "\\u0022"}, {"\\\"", "\\\""}}
	mark := marks[sym.Choose("marks", len(marks))]
	in := sym.StrIn("in", sym.Choose("n", sym.Bound("brackets within other notations", 2, 3)+1), "{}[]")
	nesting(frame[0] + mark[0] + in + mark[1] + frame[1])
}
