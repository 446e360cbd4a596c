package h

import (
	json "github.com/matehaxor03/holistic_json/json"

	"verifharness/sym"
)

const positions = 10

// holding builds a document with s in a position.
func holding(pos int, s string) *json.Map {
	m := json.NewMap()
	switch pos {
	case 0:
		m.SetStringValue("a", s)
	case 1:
		m.SetString("a", &s)
	case 2:
		a := json.NewArray()
		a.AppendStringValue(s)
		m.SetArray("a", a)
	case 3:
		m.SetInt64Value(s, 1)
	case 4:
		m.SetMap(s, json.NewMap())
	case 5:
		m.SetArrayValue(s, json.NewArrayValue())
	case 6:
		a := json.NewArray()
		a.AppendBoolValue(true)
		a.AppendString(&s)
		a.AppendNil()
		m.SetArray("a", a)
		m.SetNil("b")
	case 7:
		c := json.NewMap()
		c.SetNil(s)
		c.SetStringValue("x", s)
		m.SetMap("a", c)
		m.SetIntValue("b", 1)
	case 8:
		m.SetValue(s, json.NewValue(s))
	case 9:
		c := json.NewMap()
		c.SetBoolValue(s, true)
		a := json.NewArray()
		a.AppendMap(c)
		m.SetArrayValue("a", *a)
	}
	return m
}

// through serialises and parses a document.
func through(m *json.Map) {
	was := snapMap(m)
	t := text(m)
	back, errs := json.Parse(t)
	sym.Assert(back != nil && len(errs) == 0, "the serialised document can be parsed")
	again(was, snapMap(back), "round trip")
}

// any bytes
func C09_Free() {
	n := sym.Choose("n", sym.Bound("free bytes of a string", 3, 4)+1)
	through(holding(0, sym.Str("s", n)))
}

// any bytes as a key
func C09_Key() {
	n := sym.Choose("n", sym.Bound("free bytes of a key", 2, 3)+1)
	through(holding(3, sym.Str("s", n)))
}

// any bytes in every position
func C09_Positions() {
	n := sym.Choose("n", sym.Bound("free bytes in every position", 2, 3)+1)
	through(holding(1+sym.Choose("pos", positions-1), sym.Str("s", n)))
}

const special = "\"\\/\b\f\n\r\t\x00\x1f\x7f{}[]:, u0n'\xc3\xa9"

// bytes that mean something to a parser, more of them
func C09_Special() {
	n := sym.Choose("n", sym.Bound("special bytes of a string", 3, 5)+1)
	through(holding([]int{0, 2, 3}[sym.Choose("pos", sym.Bound("positions of special bytes", 2, 3))], sym.StrIn("s", n, special)))
}

// backslashes and quotes
func C09_Backslashes() {
	n := sym.Choose("n", sym.Bound("backslashes, quotes and letters of a string", 5, 8)+1)
	through(holding(sym.Choose("pos", sym.Bound("positions of backslashes", 4, positions)), sym.StrIn("s", n, "\\\"nu")))
}

// words a parser may take for something else
func C09_Words() {
	words := []string{"nil", "null", "<nil>", "map[]", "true", "false", "0", "1", "-1", "1.5", "NaN", "{}", "[]", "\"\"", "NULL", " ", "\\n", "\\u0000", "&{}", "0xc0000", "😀", "é", "\ufffd", "\u2028", "", "null ", "{\"a\":1}"}
	through(holding(sym.Choose("pos", positions), words[sym.Choose("word", len(words))]))
}

// a word with a byte put in, or replaced
func C09_Near() {
	words := []string{"nil", "<nil>", "map[]", "null", "😀", "é", "\\u0041", "%s%d"}
	w := words[sym.Choose("word", len(words))]
	at := sym.Choose("at", len(w)+1)
	cut := sym.Choose("cut", 2)
	if at+cut > len(w) {
		cut = 0
	}
	through(holding([]int{0, 3, 2}[sym.Choose("pos", sym.Bound("positions of near words", 2, 3))], w[:at]+sym.Str("c", 1)+w[at+cut:]))
}

// long strings with free bytes at the ends and in the middle
func C09_Long() {
	n := []int{7, 15, 31, 63, 127, 255, 511}[sym.Choose("n", sym.Bound("lengths of long strings", 5, 7))]
	fill := filler(n, "abcdefg")
	c := sym.Str("c", 1)
	s := ""
	switch sym.Choose("at", 3) {
	case 0:
		s = c + fill
	case 1:
		s = fill[:n/2] + c + fill[n/2:]
	case 2:
		s = fill + c
	}
	through(holding([]int{0, 2, 3}[sym.Choose("pos", 3)], s))
}

// two keys stay two keys, and two strings two strings
func C09_Pair() {
	m := json.NewMap()
	a, b := sym.Str("a", 1+sym.Choose("n", 2)), sym.Str("b", 1)
	switch sym.Choose("as", 3) {
	case 0:
		m.SetStringValue(a, b)
		m.SetStringValue(b, a)
	case 1:
		arr := json.NewArray()
		arr.AppendStringValue(a)
		arr.AppendStringValue(b)
		m.SetArray("x", arr)
	case 2:
		m.SetMap(a, json.NewMap())
		m.SetStringValue(b, a)
	}
	through(m)
}

// strings of one length that differ in one place, one after the other
func C09_Alike() {
	around := [][2]string{{"", ""}, {"abc", "z"}, {"abcdefghijklmnopqrst", ""}, {"é\n\"", "\\"}, {"", "uvwxyz"}, {"abcdefghij", "uvwxyz"}}[sym.Choose("around", sym.Bound("surroundings of the place", 4, 6))]
	pre, post := around[0], around[1]
	one := func() string { return pre + sym.StrIn("c", 1, "AB\n") + post }
	m, a := json.NewMap(), json.NewArray()
	n := sym.Bound("strings that differ in one place", 3, 4)
	switch sym.Choose("as", 4) {
	case 0:
		for i := 0; i < n; i++ {
			a.AppendStringValue(one())
		}
		m.SetArray("a", a)
	case 1:
		for i := 0; i < n; i++ {
			m.SetStringValue(string(rune('a'+i)), one())
		}
	case 2:
		for i := 0; i < n; i++ {
			m.SetStringValue(one(), one())
		}
	case 3:
		for i := 0; i < n; i++ {
			in := json.NewMap()
			in.SetIntValue(one(), i)
			a.AppendMap(in)
		}
		m.SetArray("a", a)
	}
	through(m)
}

// any three bytes at the beginning or the end of a key or string that is not alone
func C09_Ends() {
	s := sym.Str("s", 3) + "ab"
	if sym.Choose("end", 2) == 1 {
		s = s[3:] + s[:3]
	}
	m := json.NewMap()
	switch sym.Choose("as", sym.Bound("places of a text with free ends", 2, 3)) {
	case 0:
		m.SetNil("first")
		m.SetString(s, &s)
		m.SetStringValue("last", s)
	case 1:
		m.SetBoolValue(s, true)
		m.SetNil("last")
	case 2:
		in := json.NewMap()
		in.SetNil("first")
		in.SetIntValue(s, 1)
		a := json.NewArray()
		a.AppendNil()
		a.AppendString(&s)
		a.AppendMap(in)
		m.SetArray("a", a)
	}
	through(m)
}
