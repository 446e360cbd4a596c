package h

import (
	json "github.com/matehaxor03/holistic_json/json"
	"strings"

	"verifharness/sym"
)

// chars are the Unicode characters of a text; a byte that starts none is U+FFFD.
func chars(s string) []rune {
	var r []rune
	cont := func(i int, lo, hi byte) bool { return i < len(s) && s[i] >= lo && s[i] <= hi }
	for i := 0; i < len(s); {
		b := s[i]
		switch {
		case b < 0x80:
			r = append(r, rune(b))
			i++
			continue
		case b >= 0xc2 && b <= 0xdf:
			if cont(i+1, 0x80, 0xbf) {
				r = append(r, rune(b&0x1f)<<6|rune(s[i+1]&0x3f))
				i += 2
				continue
			}
		case b >= 0xe0 && b <= 0xef:
			lo, hi := byte(0x80), byte(0xbf)
			if b == 0xe0 {
				lo = 0xa0
			}
			if b == 0xed {
				hi = 0x9f
			}
			if cont(i+1, lo, hi) && cont(i+2, 0x80, 0xbf) {
				r = append(r, rune(b&0x0f)<<12|rune(s[i+1]&0x3f)<<6|rune(s[i+2]&0x3f))
				i += 3
				continue
			}
		case b >= 0xf0 && b <= 0xf4:
			lo, hi := byte(0x80), byte(0xbf)
			if b == 0xf0 {
				lo = 0x90
			}
			if b == 0xf4 {
				hi = 0x8f
			}
			if cont(i+1, lo, hi) && cont(i+2, 0x80, 0xbf) && cont(i+3, 0x80, 0xbf) {
				r = append(r, rune(b&0x07)<<18|rune(s[i+1]&0x3f)<<12|rune(s[i+2]&0x3f)<<6|rune(s[i+3]&0x3f))
				i += 4
				continue
			}
		}
		r = append(r, 0xfffd)
		i++
	}
	return r
}

// lists asserts that characters are those of a text.
func lists(got *[]*rune, errs []error, s string) {
	sym.Assert(got != nil && len(errs) == 0, "the characters of a text can be read")
	want := chars(s)
	sym.Assert(len(*got) == len(want), "there is one entry per character")
	for i := range want {
		sym.Assert((*got)[i] != nil && *(*got)[i] == want[i], "an entry is the character")
		for j := 0; j < i; j++ {
			sym.Assert((*got)[i] != (*got)[j], "every character has its own entry")
		}
	}
}

// runesOf puts a text somewhere, and reads its characters.
func runesOf(s string) (*[]*rune, []error) {
	m := json.NewMap()
	switch sym.Choose("held", 4) {
	case 0:
		return json.NewValue(s).GetRunes()
	case 1:
		return json.NewValue(&s).GetRunes()
	case 2:
		m.SetStringValue("a", s)
	case 3:
		m.SetString("a", &s)
	}
	return m.GetRunes("a")
}

// any bytes
func C28_Any() {
	s := sym.Str("s", sym.Choose("n", sym.Bound("bytes of any text", 5, 6)))
	v := json.NewValue(s)
	got, errs := v.GetRunes()
	lists(got, errs, s)
}

// everywhere
func C28_Held() {
	s := sym.Str("s", sym.Choose("n", 4))
	got, errs := runesOf(s)
	lists(got, errs, s)
}

// characters of any length among others
func C28_Characters() {
	parts := []string{"a", "é", "ह", "😀", "\x00", "\xff", "\xe0\xa0", "\ufffd"}
	s := ""
	n := sym.Bound("characters", 3, 4)
	for i := 0; i < n; i++ {
		s += parts[sym.Choose("c", len(parts))]
	}
	got, errs := runesOf(s)
	lists(got, errs, s)
}

// any character of four bytes
func C28_Wide() {
	s := "x" + sym.Str("s", 4) + "y"
	sym.Assume(s[1] >= 0xf0 || s[1] >= 0xe0 && s[4] < 0x80)
	got, errs := json.NewValue(s).GetRunes()
	lists(got, errs, s)
}

// entries and text do not change one another
func C28_Independent() {
	s := sym.Str("s", 2)
	was := s
	ptr := sym.Choose("ptr", 2) == 1
	m := json.NewMap()
	if ptr {
		m.SetString("a", &s)
	} else {
		m.SetStringValue("a", s)
	}
	got, errs := m.GetRunes("a")
	lists(got, errs, was)
	again, errs := m.GetRunes("a")
	lists(again, errs, was)
	switch sym.Choose("change", 4) {
	case 0:
		for i := range *got {
			*(*got)[i]++
		}
		lists(again, nil, was)
		r, errs := m.GetStringValue("a")
		sym.Assert(len(errs) == 0 && r == was && s == was, "a change of the entries does not show in the text")
	case 1:
		(*got)[0] = nil
		*got = (*got)[:1]
		lists(again, nil, was)
	case 2:
		if ptr {
			s = "changed"
		}
		m.GetValue("a").SetStringValue("changed")
		lists(got, nil, was)
	case 3:
		m.RemoveKey("a")
		m.SetStringValue("a", "changed")
		lists(got, nil, was)
	}
}

// texts of parsed documents, with escapes
func C28_Parsed() {
	b := sym.ByteIn("h", "0123456789abcdefABCDEF")
	c := sym.ByteIn("h", "0123456789abcdef")
	m := parse(`{"a":"x\u` + []string{"00", "0a", "4e"}[sym.Choose("hi", 3)] + string([]byte{b, c}) + `\"\ud83d\ude00y"}`)
	s, errs := m.GetStringValue("a")
	sym.Assert(len(errs) == 0, "a text can be read")
	got, errs := m.GetRunes("a")
	lists(got, errs, s)
	sym.Assert(len(*got) == 5, "an escape is one character")
}

// long ones
func C28_Long() {
	n := []int{9, 17, 33}[sym.Choose("n", 3)]
	s := ""
	at := sym.Choose("at", 3) * (n - 1) / 2
	for i := 0; i < n; i++ {
		if i == at {
			s += sym.Str("s", 2)
		} else {
			s += []string{"a", "é"}[i%2]
		}
	}
	got, errs := json.NewValue(s).GetRunes()
	lists(got, errs, s)
}

// a character of any length anywhere in a long text
func C28_Far() {
	n := []int{31, 62, 126, 254, 510, 1022}[sym.Choose("n", sym.Bound("bytes before a character, about 31 to 1022", 5, 6))] + sym.Choose("more", 5)
	c := []string{sym.Str("c", 1), "é", "漢", "😀", "\xf0\x9f\x98", "\xe6\xbc", "\u00a0", "\U0010ffff"}[sym.Choose("char", 8)]
	unit := []string{"a", "é"}[sym.Choose("unit", 2)]
	s := strings.Repeat(unit, n/len(unit)) + strings.Repeat("a", n%len(unit)) + c + []string{"", "b", "é漢😀"}[sym.Choose("after", 3)]
	if sym.Choose("ptr", 2) == 1 {
		was := s
		got, errs := json.NewValue(&s).GetRunes()
		charsAre(got, errs, was)
		return
	}
	m := json.NewMap()
	m.SetStringValue("a", s)
	got, errs := m.GetRunes("a")
	charsAre(got, errs, s)
}

// charsAre is lists for long texts.
func charsAre(got *[]*rune, errs []error, s string) {
	sym.Assert(got != nil && len(errs) == 0, "the characters of a text can be read")
	want := chars(s)
	sym.Assert(len(*got) == len(want), "there is one entry per character")
	for i := range want {
		sym.Assert((*got)[i] != nil && *(*got)[i] == want[i], "an entry is the character")
		sym.Assert(i == 0 || (*got)[i] != (*got)[i-1] && (*got)[i] != (*got)[0], "every character has its own entry")
	}
}

// long texts of one character, of every length
func C28_Lengths() {
	n := sym.Choose("n", sym.Bound("characters of a text, every number", 70, 300))
	unit := []string{"a", "é", "漢", "😀", "\xff"}[sym.Choose("unit", 5)]
	s := strings.Repeat(unit, n) + sym.Str("c", 1)
	got, errs := json.NewValue(s).GetRunes()
	charsAre(got, errs, s)
}

// values that hold one text after the other
func C28_Changing() {
	x := &scalar{kind: kString, s: sym.Str("x", 1+sym.Choose("n", sym.Bound("bytes of a changing text", 1, 2)))}
	y := &scalar{kind: kString, s: []string{"", "b", "é", "bc", "😀", sym.Str("y", 1)}[sym.Choose("text", 6)]}
	changing(x, y, func(v *json.Value, x *scalar) {
		got, errs := v.GetRunes()
		lists(got, errs, x.s)
	})
}

// the characters of a key that is set again and again
func C28_Again() {
	m := json.NewMap()
	n := 1 + sym.Choose("n", 3)
	for r := 0; r < sym.Bound("texts of one key", 6, 12); r++ {
		s := []string{"abcdef", "ghijkl", "éàü", "xyzuvw"}[r%4][:2*n]
		switch (r + n) % 3 {
		case 0:
			m.SetStringValue("a", s)
		case 1:
			m.SetString("a", &s)
		case 2:
			if r == 0 {
				m.SetNil("a")
			}
			m.GetValue("a").SetStringValue(s)
		}
		if sym.Choose("read", 2) == 1 {
			got, errs := m.GetRunes("a")
			lists(got, errs, s)
		}
		got, errs := m.GetValue("a").GetRunes()
		lists(got, errs, s)
	}
}
