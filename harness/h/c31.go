package h

import (
	"strings"

	json "github.com/matehaxor03/holistic_json/json"

	"verifharness/sym"
)

// compared checks what comparing a value with a text says, in both forms.
func compared(v *json.Value, want bool, s string) {
	was := s
	for i := 0; i < 2; i++ {
		sym.Assert(v.IsValueEqualToStringValue(s) == want, "a value is equal to a text if it is exactly that text")
		sym.Assert(v.IsValueEqualToString(&s) == want, "a value is equal to a text behind a pointer if it is exactly that text")
		sym.Assert(s == was, "comparing leaves the text as it was")
	}
	sym.Assert(v.IsValueEqualToString(nil) == v.IsNil(), "only null is equal to no text")
}

// everyText puts a text everywhere it can be, and compares it there.
func everyText(s, other string) {
	var v *json.Value
	switch sym.Choose("held", 6) {
	case 0:
		v = json.NewValue(s)
	case 1:
		v = json.NewValue(&s)
	case 2:
		m := json.NewMap()
		m.SetStringValue("a", s)
		v = m.GetValue("a")
	case 3:
		a := json.NewArray()
		a.AppendString(&s)
		v = (*a.GetValues())[0]
	case 4:
		v = json.NewValue(7)
		v.SetStringValue(s)
	case 5:
		m := json.NewMap()
		m.SetStringValue("a", s)
		c, errs := m.Clone()
		sym.Assert(c != nil && len(errs) == 0, "a document can be cloned")
		v = c.GetValue("a")
	}
	compared(v, s == other, other)
	compared(v, true, strings.Clone(s))
}

// any two texts
func C31_Any() {
	everyText(sym.Str("s", sym.Choose("n", sym.Bound("bytes of a text", 4, 6))), sym.Str("t", sym.Choose("m", sym.Bound("bytes of the other text", 4, 6))))
}

// texts that resemble one another, and nothing
func C31_Alike() {
	texts := []string{"", "nil", "<nil>", "null", "map[]", "a", "A", "a ", " a", "a\x00", "aa", "é", "e\u0301", "É", "1", "01", "true", "%s", "\ufffd", "\xff", "&map[value:<nil>]", "%!s(*json.Value=<nil>)", "NULL"}
	everyText(texts[sym.Choose("text", len(texts))], texts[sym.Choose("other", len(texts))])
}

// long texts that differ in one place, or in length
func C31_Long() {
	n := []int{8, 16, 31, 32, 33, 64, 100, 257, 1030}[sym.Choose("n", sym.Bound("lengths of long texts, of 8 to 1030", 8, 9))]
	at := []int{0, 1, n / 2, n - 1}[sym.Choose("at", 4)]
	fill := strings.Repeat("abcdefgh", 130)
	s := fill[:at] + sym.Str("c", 1) + fill[at:n-1]
	other := fill[:at] + sym.Str("c", 1) + fill[at:n-1]
	switch sym.Choose("more", 4) {
	case 1:
		other += "x"
	case 2:
		other = other[:n-1]
	case 3:
		other = s + "\x00"
	}
	everyText(s, other)
}

// what is no text is equal to none
func C31_Scalars() {
	x := anyStored(1)
	v := json.NewValue(x.object(sym.Choose("ptr", 2) == 1))
	s := []string{"", "0", "1", "true", "false", "nil", "<nil>", "null", "%s"}[sym.Choose("text", 9)]
	if sym.Choose("any", 2) == 1 {
		s = sym.Str("t", 1)
	}
	compared(v, x.kind == kString && x.s == s, s)
}

// nothing, and everything else
func C31_Others() {
	o := otherObject(sym.Choose("kind", everything))
	if k, _, _ := rawObj(o); k == "string" {
		return
	}
	v := json.NewValue(o)
	s := []string{"", "nil", "null", "map[]", "x", "{}", "[]", "[x]"}[sym.Choose("text", 8)]
	if _, errs := v.GetStringValue(); len(errs) > 0 || v.IsNil() {
		compared(v, false, s)
	}
}

// a text that was changed, everywhere it can be
func C31_Changing() {
	x := &scalar{kind: kString, s: sym.StrIn("x", 1, "ab")}
	y := []*scalar{{kind: kString, s: "a"}, {kind: kString, s: ""}, {kind: kNil}, {kind: kInt8, vInt8: 1}, {kind: kString, s: "ab"}}[sym.Choose("other", 5)]
	t := []string{"a", "", "1", "ab"}[sym.Choose("text", 4)]
	changing(x, y, func(v *json.Value, x *scalar) { compared(v, x.kind == kString && x.s == t, t) })
}

// parsed texts
func C31_Parsed() {
	c := sym.StrIn("c", 1, "abn\"\\/")
	m := parse(`{"a":"x\` + []string{"n", "\"", "\\", "/", "u0061", "u00e9"}[sym.Choose("escape", 6)] + `y","b":null,"c":1,"d":"\u0041"}`)
	s, errs := m.GetStringValue("a")
	sym.Assert(len(errs) == 0, "a text can be read")
	compared(m.GetValue("a"), true, s)
	compared(m.GetValue("a"), s == "x"+c+"y", "x"+c+"y")
	compared(m.GetValue("b"), false, []string{"null", "", "nil"}[sym.Choose("null", 3)])
	compared(m.GetValue("c"), false, "1")
	compared(m.GetValue("d"), true, "A")
}
