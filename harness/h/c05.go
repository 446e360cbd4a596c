package h

import (
	"strings"

	"verifharness/sym"
)

// texts around a string literal: as a value, an element, a key
var quoted = [][2]string{
	{`{"a":"`, `"}`}, {`{"a":["`, `"]}`}, {`{"`, `":1}`}, {`{"a":{"`, `":{}}}`}, {`{"a":[{"`, `":["x"]}]}`},
	{`{"a":"`, `","b":2}`}, {`{"a":["`, `","x"]}`}, {`{"a":["x","`, `"]}`}, {`{"a":{"b":"`, `"},"c":1}`}, {`{"a":{},"`, `":"x"}`},
	{`{"`, `":"x"}`}, {`{"`, `":[]}`}, {`{"`, `":{}}`},
}

// any bytes inside a literal
func C05_Free() {
	f := quoted[sym.Choose("frame", sym.Bound("free literals: frames", 1, len(quoted)))]
	n := sym.Choose("n", sym.Bound("free bytes of a literal", 4, 5)+1)
	conform(f[0] + sym.Str("s", n) + f[1])
}

// every frame
func C05_Frames() {
	f := quoted[sym.Choose("frame", len(quoted))]
	n := sym.Choose("n", sym.Bound("free bytes of a literal in every frame", 2, 4)+1)
	conform(f[0] + sym.Str("s", n) + f[1])
}

// three bytes, as element and key too
func C05_Three() {
	f := quoted[1+sym.Choose("frame", sym.Bound("literals of three free bytes: frames", 3, len(quoted)-1))]
	conform(f[0] + sym.Str("s", 3) + f[1])
}

// escapes, several of them
func C05_Escapes() {
	f := quoted[sym.Choose("frame", sym.Bound("escapes: frames", 3, len(quoted)))]
	n := sym.Choose("n", sym.Bound("escapes in a literal", 2, 4)+1)
	t := ""
	for i := 0; i < n; i++ {
		t += "\\" + sym.StrIn("e", 1, `"\/bfnrt`)
		if sym.Choose("plain", 2) == 1 {
			t += sym.StrIn("p", 1, "xnt :,}]")
		}
	}
	conform(f[0] + t + f[1])
}

const hexdigits = "0123456789abcdefABCDEF"

// \u escapes
func C05_Unicode() {
	f := quoted[sym.Choose("frame", sym.Bound("unicode escapes: frames", 3, len(quoted)))]
	pre := []string{"", "x", "\\\\", "\\\""}[sym.Choose("before", 4)]
	t := pre + `\u` + sym.StrIn("h", 4, hexdigits)
	switch sym.Choose("after", 4) {
	case 1:
		t += "x"
	case 2:
		t += `\\`
	case 3:
		t += "7"
	}
	conform(f[0] + t + f[1])
}

// surrogate pairs
func C05_Surrogates() {
	f := quoted[sym.Choose("frame", sym.Bound("surrogates: frames", 2, len(quoted)))]
	t := `\u` + sym.StrIn("d", 1, "dD") + sym.StrIn("x", 1, "89abAB") + sym.StrIn("h", 2, hexdigits) +
		`\u` + sym.StrIn("d", 1, "dD") + sym.StrIn("y", 1, "cdefCDEF") + sym.StrIn("h", 2, hexdigits)
	if sym.Choose("after", 2) == 1 {
		t += sym.StrIn("p", 1, "x7 ")
	}
	conform(f[0] + t + f[1])
}

const letters = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"

// filler is n bytes of ordinary text
func filler(n int, unit string) string {
	r := ""
	for len(r)+len(unit) <= n {
		r += unit
	}
	return r
}

// long literals with special bytes somewhere
func C05_Long() {
	f := quoted[sym.Choose("frame", 3)]
	sizes := []int{7, 16, 33, 64, 128, 300, 520, 1100, 4200}
	n := sizes[sym.Choose("size", sym.Bound("sizes of long literals, of 7 to 4200", 6, 9))]
	unit := []string{"abcdefghij", "\u00e9\n", "é漢🎉", " "}[sym.Choose("unit", 4)]
	at := []int{0, n / 2, n}[sym.Choose("at", 3)]
	special := sym.Str("special", 1)
	conform(f[0] + filler(at, unit) + special + filler(n-at, unit) + f[1])
}

// long literals of arbitrary letters
func C05_Letters() {
	f := quoted[sym.Choose("frame", 3)]
	n := sym.Choose("n", sym.Bound("arbitrary letters", 20, 70))
	conform(f[0] + sym.StrIn("s", n, letters) + f[1])
}

// several literals: what one holds does not change how the next is read
func C05_Several() {
	a := sym.StrIn("a", sym.Choose("la", 3), "\\\"{}[],: x\n")
	b := sym.StrIn("b", sym.Choose("lb", sym.Bound("bytes of the second literal", 1, 2)+1), "\\\"{}[],: x")
	switch sym.Choose("shape", 3) {
	case 0:
		conform(`{"` + a + `":"` + b + `"}`)
	case 1:
		conform(`{"k":"` + a + `","l":"` + b + `"}`)
	case 2:
		conform(`{"k":["` + a + `",{"` + b + `":true}]}`)
	}
}

// literals that look like something else
func C05_Words() {
	words := []string{"nil", "null", "<nil>", "map[]", "true", "false", "1", "-1", "1.5", "&map[value:<nil>]", "NULL", "{}", "[]", "%s", "%!s(<nil>)", "\\n", "//", "'"}
	w := words[sym.Choose("word", len(words))]
	f := quoted[sym.Choose("frame", len(quoted))]
	pad := sym.StrIn("pad", sym.Choose("pad", 2), " \t\n\r")
	if sym.Choose("side", 2) == 0 {
		conform(f[0] + pad + w + f[1])
	} else {
		conform(f[0] + w + pad + f[1])
	}
}

// long literals and keys with escapes in them
func C05_LongEscapes() {
	f := quoted[sym.Choose("frame", 3)]
	sizes := []int{30, 64, 101, 130, 257, 520, 1100, 4200}
	n := sizes[sym.Choose("size", sym.Bound("sizes of long literals with escapes, of 30 to 4200", 6, 8))]
	unit := []string{"abcdefghij", "é漢🎉"}[sym.Choose("unit", 2)]
	at := []int{0, n / 2, n}[sym.Choose("at", 3)]
	esc := ""
	switch sym.Choose("escape", 4) {
	case 0:
		esc = "\\" + sym.StrIn("e", 1, `"\/bfnrt`)
	case 1:
		esc = `\u00` + sym.StrIn("h", 2, "0167e")
	case 2:
		esc = `\ud83d\ude0` + sym.StrIn("h", 1, hexdigits)
	case 3:
		esc = "\\" + sym.StrIn("e", 1, `"\n`) + "\\" + sym.StrIn("e", 1, `"\n`)
	}
	conform(f[0] + filler(at, unit) + esc + filler(n-at, unit) + f[1])
}

// escapes all over a long literal
func C05_ManyEscapes() {
	f := quoted[sym.Choose("frame", 3)]
	n := []int{20, 60, 150, 400}[sym.Choose("n", sym.Bound("escapes of a long literal, of 20 to 400", 3, 4))]
	unit := []string{`\n`, `\\`, `\"`, `\u00e9`, `\ud83d\ude00`, `a\t`}[sym.Choose("unit", 6)]
	conform(f[0] + strings.Repeat(unit, n) + sym.StrIn("s", 1, "ax\n \x01}") + strings.Repeat(unit, n/2) + f[1])
}

// literals in large documents
func C05_Context() {
	s := ""
	switch sym.Choose("in", 3) {
	case 0:
		s = sym.StrIn("s", 1, "ax{}[],:\x00\x1f\x7f")
	case 1:
		s = []string{`\n`, `\u00e9`, `\"`, `\\`, `é漢`, `\ud83d\ude00`, "", `\/`}[sym.Choose("text", 8)]
	case 2:
		s = `\` + sym.StrIn("e", 1, `nbu"x`)
	}
	conform(context(`"` + s + `"`))
}

// literals of one length that differ in one place, one after the other
func C05_Alike() {
	pre := []string{"", "abc", `\n\"`, "abcdefghijklmnopqrst"}[sym.Choose("before", 4)]
	post := []string{"", "z", "uvwxyz", `\\`}[sym.Choose("after", 4)]
	a, b, c := pre+sym.StrIn("c", 1, "AB1")+post, pre+sym.StrIn("c", 1, "AB1")+post, pre+sym.StrIn("c", 1, "AB1")+post
	switch sym.Choose("as", 4) {
	case 0:
		conform(`{"a":["` + a + `","` + b + `","` + c + `"]}`)
	case 1:
		conform(`{"x":"` + a + `","y":"` + b + `","z":"` + c + `"}`)
	case 2:
		conform(`{"` + a + `":"` + b + `","` + b + `":"` + c + `","` + c + `":"` + a + `"}`)
	case 3:
		conform(`{"a":[{"` + a + `":1},{"` + b + `":2},{"` + c + `":3}]}`)
	}
}

// literals of several escapes and texts of every sort
func C05_Mixed() {
	units := []string{`\n`, `\t`, `\\`, `\"`, `\u0041`, "abc", "é", `\/`, `\ud83d\ude00`}
	n := 3 + sym.Choose("n", sym.Bound("units of a literal, beyond two", 1, 2))
	f := quoted[sym.Choose("frame", sym.Bound("mixed literals: frames", 4, len(quoted)))]
	t := ""
	for i := 0; i < n; i++ {
		t += units[sym.Choose("unit", sym.Bound("sorts of units", 7, len(units)))]
	}
	pad := []string{"", "x", "abcdefgh"}[sym.Choose("pad", 3)]
	if sym.Choose("side", 2) == 1 {
		conform(f[0] + pad + t + f[1])
	} else {
		conform(f[0] + t + pad + f[1])
	}
}
