package h

import (
	"fmt"
	"strconv"
	"strings"
	"time"

	json "github.com/matehaxor03/holistic_json/json"

	"verifharness/sym"
)

// ordered is the dictionary a map has to be: keys in order of insertion, each with a value.
type ordered struct {
	keys []string
	vals []*json.Value // the value stored, if it is known
	nums []int         // the number stored
}

func (o *ordered) find(k string) int {
	for i := range o.keys {
		if o.keys[i] == k {
			return i
		}
	}
	return -1
}

func (o *ordered) set(k string, v *json.Value, n int) {
	if i := o.find(k); i >= 0 {
		o.vals[i], o.nums[i] = v, n
		return
	}
	o.keys, o.vals, o.nums = append(o.keys, k), append(o.vals, v), append(o.nums, n)
}

func (o *ordered) remove(k string) bool {
	i := o.find(k)
	if i < 0 {
		return false
	}
	n := &ordered{}
	for j := range o.keys {
		if j != i {
			n.keys, n.vals, n.nums = append(n.keys, o.keys[j]), append(n.vals, o.vals[j]), append(n.nums, o.nums[j])
		}
	}
	*o = *n
	return true
}

// agrees asserts that a map is the dictionary, however it is looked at.
func (o *ordered) agrees(m *json.Map, probe string, written bool) {
	keys := m.GetKeys()
	sym.Assert(len(keys) == len(o.keys), "the key list has every key once")
	values := *m.Values().GetValues()
	sym.Assert(len(values) == len(o.keys) && m.Values().Len() == len(o.keys), "the values list has one value per key")
	for i, k := range o.keys {
		sym.Assert(keys[i] == k, "the key list is in insertion order")
		sym.Assert(m.HasKey(k), "a key of the list is found")
		v := m.GetValue(k)
		sym.Assert(v == values[i], "the values list holds the values of the keys, in order")
		if o.vals[i] != nil {
			sym.Assert(v == o.vals[i], "a key has the value stored last")
		}
		if o.nums[i] == null {
			sym.Assert(m.IsNull(k), "a key has the null stored last")
		} else {
			n, errs := m.GetIntValue(k)
			sym.Assert(len(errs) == 0 && n == o.nums[i], "a key has the number stored last")
		}
	}
	sym.Assert(m.HasKey(probe) == (o.find(probe) >= 0), "HasKey is true exactly for the keys of the list")
	if o.find(probe) < 0 {
		sym.Assert(m.GetValue(probe) == nil && m.IsNull(probe), "an absent key has no value")
	}
	if !written {
		return
	}
	sym.Assert(text(m) == o.text(), "the text has the members in order")
}

const null = -1

// text is the document of the dictionary; the keys need no escapes.
func (o *ordered) text() string {
	t := "{"
	for i, k := range o.keys {
		if i > 0 {
			t += ","
		}
		if o.nums[i] == null {
			t += `"` + k + `":null`
		} else {
			t += `"` + k + `":` + fmt.Sprint(o.nums[i])
		}
	}
	return t + "}"
}

// step is one operation on both.
func (o *ordered) step(m *json.Map, k string, n int, kinds int) {
	switch sym.Choose("op", kinds) {
	case 0:
		m.SetIntValue(k, n)
		o.set(k, nil, n)
	case 1:
		done, err := m.RemoveKey(k)
		had := o.remove(k)
		sym.Assert(done == had, "removing tells if there was such a key")
		sym.Assert((err == nil) == had, "removing an absent key is an error, removing a present one is not")
	case 2:
		v := json.NewValue(n)
		m.SetValue(k, v)
		o.set(k, v, n)
	case 3:
		m.SetNil(k)
		o.set(k, nil, null)
	}
}

// any history of setting and removing few keys, looked at after every step
func C19_History() {
	m, o := json.NewMap(), &ordered{}
	steps := sym.Bound("operations of a history", 4, 6)
	for i := 0; i < steps; i++ {
		o.step(m, sym.StrIn("k", 1, "abc"), i, 2)
		o.agrees(m, "b", true)
	}
}

// longer histories, looked at in the end
func C19_LongHistory() {
	m, o := json.NewMap(), &ordered{}
	steps := sym.Bound("operations of a long history", 5, 7)
	for i := 0; i < steps; i++ {
		o.step(m, sym.StrIn("k", 1, "ab"), i, 2)
	}
	o.agrees(m, "a", true)
	o.agrees(m, "b", false)
}

// with nulls and with values made elsewhere
func C19_Kinds() {
	m, o := json.NewMap(), &ordered{}
	steps := sym.Bound("operations of all kinds", 3, 4)
	for i := 0; i < steps; i++ {
		o.step(m, sym.StrIn("k", 1, "ab"), i, 4)
	}
	o.agrees(m, "a", true)
	o.agrees(m, "b", false)
}

// keys of any bytes and of different lengths, the empty key among them
func C19_AnyKeys() {
	m, o := json.NewMap(), &ordered{}
	steps := sym.Bound("operations on arbitrary keys", 3, 4)
	for i := 0; i < steps; i++ {
		o.step(m, sym.Str("k", sym.Choose("length", 3)), i, 2)
	}
	o.agrees(m, sym.Str("probe", sym.Choose("length", 3)), false)
}

// some operations on maps that hold many keys already
func C19_Wide() {
	n := []int{3, 8, 17, 33, 65}[sym.Choose("n", sym.Bound("widths", 4, 5))]
	m, o := json.NewMap(), &ordered{}
	for i := 0; i < n; i++ {
		k := string(rune('0'+i%10)) + string(rune('a'+i/10))
		m.SetIntValue(k, i)
		o.set(k, nil, i)
	}
	for i := 0; i < 2; i++ {
		at := sym.Choose("at", 4)
		k := o.keys[(len(o.keys)-1)*at/3]
		if sym.Choose("new", 3) == 0 {
			k = "n" + k
		}
		o.step(m, k, 1000+i, 2)
	}
	o.agrees(m, "0a", true)
}

// documents that were parsed or cloned go on the same way
func C19_Origins() {
	t := `{"a":1,"b":2,"c":3}`
	m, o := parse(t), &ordered{}
	for i, k := range []string{"a", "b", "c"} {
		o.set(k, nil, i+1)
	}
	var was *json.Map
	if sym.Choose("clone", 2) == 1 {
		c, errs := m.Clone()
		sym.Assert(c != nil && len(errs) == 0, "a document can be cloned")
		was, m = m, c
	}
	steps := sym.Bound("operations after parsing", 3, 4)
	for i := 0; i < steps; i++ {
		o.step(m, sym.StrIn("k", 1, "abcd"), 10+i, 2)
	}
	o.agrees(m, "d", true)
	if was != nil {
		sym.Assert(text(was) == t, "the original stays as it was")
	}
}

// every setter adds at the end, or replaces in place
func C19_Setters() {
	m := json.NewMap()
	m.SetIntValue("a", 1)
	m.SetIntValue("b", 2)
	m.SetIntValue("c", 3)
	k := sym.StrIn("k", 1, "abcd")
	was := map[string]*json.Value{"a": m.GetValue("a"), "b": m.GetValue("b"), "c": m.GetValue("c")}
	how := sym.Choose("setter", kinds+8)
	var now time.Time
	f := func(string) []error { return nil }
	switch how - kinds {
	case 0:
		m.SetMap(k, json.NewMap())
	case 1:
		m.SetMapValue(k, json.NewMapValue())
	case 2:
		m.SetArray(k, json.NewArray())
	case 3:
		m.SetArrayValue(k, json.NewArrayValue())
	case 4:
		m.SetErrors(k, []error{fmt.Errorf("x")})
	case 5:
		m.SetTime(k, &now)
	case 6:
		m.SetFunc(k, &f)
	case 7:
		m.SetObjectForMap(k, 5)
	default:
		anyScalar(how, "x", 1).setIn(m, k, sym.Choose("ptr", 2) == 1)
	}
	want := []string{"a", "b", "c"}
	if k == "d" {
		want = append(want, "d")
	}
	keys, values := m.GetKeys(), *m.Values().GetValues()
	sym.Assert(len(keys) == len(want) && len(values) == len(want), "every key is there once")
	for i := range want {
		sym.Assert(keys[i] == want[i], "a key keeps its place, or is the last")
		sym.Assert(m.HasKey(want[i]), "a key of the list is found")
		v := m.GetValue(want[i])
		sym.Assert(v != nil && v == values[i], "the values list holds the values of the keys, in order")
		if want[i] == k {
			sym.Assert(v != was[want[i]], "a key has the value stored last")
		} else {
			sym.Assert(v == was[want[i]], "the other keys keep their values")
		}
	}
	done, err := m.RemoveKey(k)
	sym.Assert(done && err == nil && !m.HasKey(k), "what was set can be removed")
	sym.Assert(len(m.GetKeys()) == len(want)-1 && m.Values().Len() == len(want)-1, "only that key is removed")
}

// removing everything leaves an empty map that can be filled again
func C19_Emptied() {
	n := 1 + sym.Choose("n", sym.Bound("keys removed", 4, 5))
	m, o := json.NewMap(), &ordered{}
	for i := 0; i < n; i++ {
		k := string(rune('a' + i))
		m.SetIntValue(k, i)
		o.set(k, nil, i)
	}
	for i := 0; i < n; i++ {
		k := o.keys[sym.Choose("first", len(o.keys))]
		done, err := m.RemoveKey(k)
		sym.Assert(done && err == nil, "a key can be removed")
		o.remove(k)
		o.agrees(m, k, i >= n-2)
	}
	sym.Assert(text(m) == "{}", "nothing is left")
	for i := 0; i < 2; i++ {
		k := sym.StrIn("k", 1, "ab")
		m.SetIntValue(k, i)
		o.set(k, nil, i)
	}
	o.agrees(m, "a", true)
}

// maps inside of maps and arrays
func C19_Nested() {
	in, out, o := json.NewMap(), json.NewMap(), &ordered{}
	switch sym.Choose("where", 3) {
	case 0:
		out.SetMap("in", in)
	case 1:
		out.SetMapValue("in", *in)
	case 2:
		a := json.NewArray()
		a.AppendMap(in)
		out.SetArray("in", a)
	}
	prefix, suffix := `{"in":`, "}"
	if out.IsArray("in") {
		prefix, suffix = `{"in":[`, "]}"
	}
	for i := 0; i < 3; i++ {
		o.step(in, sym.StrIn("k", 1, "ab"), i, 2)
		sym.Assert(text(out) == prefix+o.text()+suffix, "a change of a member shows in the document")
	}
	sym.Assert(strings.HasPrefix(text(out), prefix), "the document stays")
}

// keys that resemble one another
func C19_Alike() {
	m, o := json.NewMap(), &ordered{}
	alike := []string{"a", "A", "aa", " a", "a ", "", "0", "00", "a\x00", "\xc3\xa4", "\xe4", "A\u030a", "\u00c5", "\u212a", "k", "1", "01", "1.0", "null", "nil"}
	steps := sym.Bound("operations on keys that resemble one another", 2, 3)
	for i := 0; i < steps; i++ {
		o.step(m, alike[sym.Choose("k", len(alike))], i, 2)
	}
	o.agrees(m, alike[sym.Choose("probe", len(alike))], false)
}

// keys in both cases
func C19_Case() {
	m, o := json.NewMap(), &ordered{}
	steps := sym.Bound("operations on keys in both cases", 3, 4)
	for i := 0; i < steps; i++ {
		o.step(m, sym.StrIn("k", 1, "aA"), i, 2)
	}
	o.agrees(m, "A", true)
}

// setting a member to a nil pointer of any kind keeps the key, with null
func C19_Nils() {
	m, o := json.NewMap(), &ordered{}
	for i := 0; i < 2; i++ {
		k := sym.StrIn("k", 1, "ab")
		m.SetIntValue(k, i)
		o.set(k, nil, i)
	}
	k := sym.StrIn("k", 1, "abc")
	setNilIn(m, k, sym.Choose("setter", nilsOfMap))
	o.set(k, nil, null)
	o.agrees(m, "c", true)
	o.step(m, sym.StrIn("k", 1, "abc"), 10, 2)
	o.agrees(m, "c", true)
}

// long keys of one length that differ in one place
func C19_LongKeys() {
	n := []int{8, 16, 24, 25, 32, 33, 64, 65, 130, 300}[sym.Choose("n", sym.Bound("lengths of keys, of 8 to 300", 8, 10))]
	at := []int{0, 1, n / 2, n - 2, n - 1}[sym.Choose("at", 5)]
	fill := strings.Repeat("abcd", 100)
	key := func() string { return fill[:at] + sym.StrIn("k", 1, "xyz") + fill[at:n-1] }
	m, o := json.NewMap(), &ordered{}
	steps := sym.Bound("operations with long keys", 3, 4)
	for i := 0; i < steps; i++ {
		o.step(m, key(), i, 2)
	}
	o.agrees(m, key(), true)
}

// long keys of which one is the beginning or the end of the other
func C19_Prefixes() {
	fill := strings.Repeat("abcd", 80)
	n := []int{4, 16, 24, 32, 64, 128, 256}[sym.Choose("n", 7)]
	keys := []string{fill[:n], fill[:n+1], fill[:n-1], fill[:n] + " ", " " + fill[:n], fill[1 : n+1], strings.ToUpper(fill[:n]), fill[:n] + "\x00", fill[:n-1] + "e"}
	m, o := json.NewMap(), &ordered{}
	for i := 0; i < 3; i++ {
		o.step(m, keys[sym.Choose("key", len(keys))], i, 2)
	}
	for _, k := range keys {
		o.agrees(m, k, false)
	}
}

// maps of many keys that lose one after the other
func C19_Drained() {
	n := []int{9, 17, 33, 41, 65, 130, 300}[sym.Choose("n", sym.Bound("keys of a map that is drained, of 9 to 300", 6, 7))]
	m, o := json.NewMap(), &ordered{}
	for i := 0; i < n; i++ {
		k := "k" + strconv.Itoa(i)
		m.SetIntValue(k, i)
		o.set(k, nil, i)
	}
	from := sym.Choose("from", 4)
	for i := 0; i < n; i++ {
		at := []int{0, len(o.keys) - 1, len(o.keys) / 2, i * 7 % len(o.keys)}[from]
		k := o.keys[at]
		done, err := m.RemoveKey(k)
		sym.Assert(done && err == nil, "a key can be removed")
		o.remove(k)
		if i%5 == 4 {
			m.SetIntValue(k, -i-5)
			o.set(k, nil, -i-5)
		}
		keys := m.GetKeys()
		sym.Assert(len(keys) == len(o.keys) && !m.HasKey(k) == (i%5 != 4), "only that key is removed")
		for j := range keys {
			sym.Assert(keys[j] == o.keys[j], "the other keys stay in order")
		}
		if i < 3 || i > n-4 || i%16 == 0 {
			o.agrees(m, k, true)
		}
	}
	o.agrees(m, "k0", true)
}

// one operation on maps of very many keys
func C19_VeryWide() {
	n := []int{65, 130, 300, 1100}[sym.Choose("n", sym.Bound("keys of a map, of 65 to 1100", 3, 4))]
	m, o := json.NewMap(), &ordered{}
	for i := 0; i < n; i++ {
		k := "k" + strconv.Itoa(i)
		m.SetIntValue(k, i)
		o.set(k, nil, i)
	}
	for i := 0; i < 2; i++ {
		k := "k" + strconv.Itoa([]int{0, 1, 16, n / 2, n - 2, n - 1, n}[sym.Choose("at", 7)])
		o.step(m, k, 1000+i, 4)
	}
	o.agrees(m, "k1", true)
}

// one or two operations over and over
func C19_Periodic() {
	m, o := json.NewMap(), &ordered{}
	for i := sym.Choose("keys before", 2) * 3; i > 0; i-- {
		k := string(rune('d' - i))
		m.SetIntValue(k, i)
		o.set(k, nil, i)
	}
	n := 1 + sym.Choose("n", sym.Bound("operations of a period", 3, 4))
	op, key := make([]int, n), make([]string, n)
	for i := range op {
		op[i], key[i] = sym.Choose("op", 3), string(rune('a'+sym.Choose("key", sym.Bound("keys of a period", 2, 3))))
	}
	rounds := sym.Bound("periods of a history", 24, 40)
	for r := 0; r < rounds; r++ {
		for i := range op {
			k, x := key[i], 100*r+i
			switch op[i] {
			case 0:
				m.SetIntValue(k, x)
				o.set(k, nil, x)
			case 1:
				done, err := m.RemoveKey(k)
				had := o.remove(k)
				sym.Assert(done == had && (err == nil) == had, "removing tells if there was such a key")
			case 2:
				m.SetNil(k)
				o.set(k, nil, null)
			}
			keys := m.GetKeys()
			sym.Assert(len(keys) == len(o.keys), "the key list has every key once")
			for j := range keys {
				sym.Assert(keys[j] == o.keys[j], "the key list is in insertion order")
			}
		}
		if r%8 == 7 || r < 2 {
			o.agrees(m, "b", true)
		}
	}
	o.agrees(m, "a", true)
}

// histories of keys with names of every sort
func C19_Named() {
	names := []string{"", "ab", "nil", "é", "\"", "\\", strings.Repeat("long", 13), "a,b", "key with spaces", "\n"}
	m, o := json.NewMap(), &ordered{}
	steps := sym.Bound("operations on keys with names of every sort", 2, 3)
	two := []string{names[sym.Choose("name", len(names))], names[sym.Choose("name", len(names))]}
	for i := 0; i < steps; i++ {
		o.step(m, two[sym.Choose("which", 2)], i, 4)
		o.agrees(m, two[0], false)
	}
}
