package h

import (
	"strings"
	"time"

	json "github.com/matehaxor03/holistic_json/json"

	"verifharness/sym"
)

// decimals writes a number with n digits.
func decimals(v, n int) string {
	b := make([]byte, n)
	for i := n - 1; i >= 0; i-- {
		b[i] = byte('0' + v%10)
		v /= 10
	}
	return string(b)
}

// asText is the text of a time.
func asText(t time.Time) string {
	y, mo, d := t.Date()
	h, mi, s := t.Clock()
	return decimals(y, 4) + "-" + decimals(int(mo), 2) + "-" + decimals(d, 2) + " " + decimals(h, 2) + ":" + decimals(mi, 2) + ":" + decimals(s, 2) + "." + decimals(t.Nanosecond()/1000, 6)
}

// clockOf is the date and the time of day of a time, to the microsecond.
func clockOf(t time.Time) time.Time {
	y, mo, d := t.Date()
	h, mi, s := t.Clock()
	return time.Date(y, mo, d, h, mi, s, t.Nanosecond()/1000*1000, time.UTC)
}

// day is a date.
func day() (int, time.Month, int) {
	days := [][3]int{{2024, 2, 29}, {1, 1, 1}, {9999, 12, 31}, {1969, 12, 31}, {2000, 2, 28}, {1900, 3, 1}, {999, 10, 10}, {2022, 11, 9}, {1752, 9, 30}, {2038, 1, 19}}
	d := days[sym.Choose("day", sym.Bound("dates", 6, len(days)))]
	return d[0], time.Month(d[1]), d[2]
}

// timeIn puts a time into a document, and returns the document and the text in front of and behind the text of the time.
func timeIn(t *time.Time) (*json.Map, string, string) {
	m, v := json.NewMap(), json.NewValue(t)
	switch sym.Choose("stored", 6) {
	case 0:
		m.SetTime("t", t)
	case 1:
		m.SetValue("t", v)
	case 2:
		w := json.NewValue(1)
		w.SetTime(t)
		m.SetValue("t", w)
	case 3:
		a := json.NewArray()
		a.AppendValue(v)
		m.SetArray("t", a)
		return m, `{"t":["`, `"]}`
	case 4:
		n := json.NewMap()
		n.SetTime("u", t)
		m.SetMap("t", n)
		return m, `{"t":{"u":"`, `"}}`
	case 5:
		n := json.NewMap()
		n.SetTime("t", t)
		c, errs := n.Clone()
		sym.Assert(c != nil && len(errs) == 0, "a document with a time can be cloned")
		m = c
	}
	return m, `{"t":"`, `"}`
}

// timeOf finds the value of a time in a document of timeIn.
func timeOf(m *json.Map) *json.Value {
	v := m.GetValue("t")
	if v.IsArray() {
		a, errs := v.GetArray()
		sym.Assert(len(errs) == 0 && a != nil && len(*a.GetValues()) == 1, "an array is read back")
		return (*a.GetValues())[0]
	}
	if v.IsMap() {
		n, errs := v.GetMap()
		sym.Assert(len(errs) == 0 && n != nil, "a map is read back")
		return n.GetValue("u")
	}
	return v
}

// survives writes a time and reads it back.
func survives(t time.Time) {
	want, moment := asText(t), clockOf(t)
	m, before, after := timeIn(&t)
	s := text(m)
	sym.Assert(s == before+want+after, "a time is written as its date and time of day, to the microsecond")
	p := parse(s)
	v := timeOf(p)
	sym.Assert(v.IsString(), "the text of a time is a string")
	got, errs := v.GetTime()
	sym.Assert(len(errs) == 0 && got != nil && got.Equal(moment), "the text of a time is read back as that time")
	got, errs = v.GetTimeWithDecimalPlaces(6)
	sym.Assert(len(errs) == 0 && got != nil && got.Equal(moment), "the text of a time is read back as that time with six decimal places")
	u, errs := v.GetTimeValue()
	sym.Assert(len(errs) == 0 && u.Equal(moment), "the text of a time is read back as that time value")
	converted, errs := json.ConvertInterfaceValueToStringValue(timeOf(m).GetObject())
	sym.Assert(len(errs) == 0 && converted == want, "a time is converted to the text that is written")
	got, errs = timeOf(m).GetTime()
	sym.Assert(len(errs) == 0 && got != nil && got.Equal(t), "a time that was written is as it was")
}

// part is a number under a limit.
func part(name string, limit int) int {
	edges := []int{0, limit - 1, 9, 10, limit / 2, 1, limit - 10, 11, limit / 10}
	return edges[sym.Choose(name, sym.Bound("parts of a time", 5, len(edges)))]
}

// parts of a second
func C35_Fraction() {
	survives(time.Date(2024, 2, 29, 23, 59, 58, part("milli", 1000)*1000000+part("micro", 1000)*1000+part("nano", 1000), time.UTC))
}

// times of day
func C35_Clock() {
	y, mo, d := day()
	survives(time.Date(y, mo, d, part("hour", 24), part("minute", 60), part("second", 60), 7000, time.UTC))
}

// dates of all months
func C35_Date() {
	years := []int{2022, 2024, 1, 9999, 1900, 2000, 1969, 10, 100}
	y, mo := years[sym.Choose("year", sym.Bound("years", 4, len(years)))], time.Month(sym.Choose("month", 12)+1)
	last := time.Date(y, mo+1, 0, 0, 0, 0, 0, time.UTC).Day()
	ds := []int{last, 1, 9, 10, 20, last - 1}
	survives(time.Date(y, mo, ds[sym.Choose("day", sym.Bound("days of a month", 3, len(ds)))], 23, 59, 59, 999999999, time.UTC))
}

// times of other zones
func C35_Zone() {
	y, mo, d := day()
	z := []int{0, 3600, -3600, 14 * 3600, -12*3600 - 1800, 5*3600 + 2700, 86399, 1}[sym.Choose("zone", 8)]
	survives(time.Date(y, mo, d, 6, 30, 15, 123456789, time.FixedZone("z", z)))
}

// texts of dates, with any digits
func C35_Read() {
	days := [][3]int{{2024, 2, 29}, {1, 1, 1}, {9999, 12, 31}}
	date := days[sym.Choose("day", sym.Bound("dates of a text", 1, 3))]
	y, mo, d := date[0], time.Month(date[1]), date[2]
	places := sym.Choose("places", 10)
	b := []byte(decimals(y, 4) + "-" + decimals(int(mo), 2) + "-" + decimals(d, 2) + " 21:07:15.123456789")
	b = b[:20+places]
	if places == 0 {
		b = b[:19]
	}
	at := sym.Choose("at", len(b)-17) + 17
	if at == 19 {
		at = 18
	}
	b[at] = sym.ByteIn("digit", "0123456789")
	s := string(b)
	sec, frac := int(b[17]-'0')*10+int(b[18]-'0'), 0
	for i := 20; i < 29; i++ {
		frac *= 10
		if i < len(b) {
			frac += int(b[i] - '0')
		}
	}
	var v *json.Value
	switch sym.Choose("held", 3) {
	case 0:
		v = json.NewValue(s)
	case 1:
		v = json.NewValue(&s)
	case 2:
		v = parse(`{"t":"` + s + `"}`).GetValue("t")
	}
	m := json.NewMap()
	m.SetValue("t", v)
	for i := 0; i < 4; i++ {
		var t *time.Time
		var errs []error
		switch i {
		case 0:
			t, errs = v.GetTime()
		case 1:
			t, errs = m.GetTime("t")
		case 2:
			t, errs = v.GetTimeWithDecimalPlaces(places)
		case 3:
			t, errs = m.GetTimeWithDecimalPlaces("t", places)
		}
		if sec > 59 {
			sym.Assert(t == nil && len(errs) > 0, "a time that is none is an error")
			continue
		}
		sym.Assert(len(errs) == 0 && t != nil, "a text of a time can be read as one")
		sym.Assert(t.Equal(time.Date(y, mo, d, 21, 7, sec, frac, time.UTC)), "a text of a time is read as exactly that time")
	}
	if o, is := v.GetObject().(string); is {
		sym.Assert(o == s, "reading a text as a time leaves it as it was")
	}
}

// noTime asserts that a text is not read as a time.
func noTime(s string) {
	was := strings.Clone(s)
	var v *json.Value
	if sym.Choose("pointer", 2) == 1 {
		v = json.NewValue(&s)
	} else {
		v = json.NewValue(s)
	}
	m := json.NewMap()
	m.SetValue("t", v)
	places := 6
	switch sym.Choose("read", 3) {
	case 1:
		t, errs := v.GetTime()
		sym.Assert(t == nil && len(errs) > 0, "a text that is no time is an error")
		t, errs = m.GetTime("t")
		sym.Assert(t == nil && len(errs) > 0, "a text that is no time is an error in a map")
		_, errs = v.GetTimeValue()
		sym.Assert(len(errs) > 0, "a text that is no time is an error as a time value")
	case 2:
		places = sym.Choose("places", 12) - 1
	}
	t, errs := v.GetTimeWithDecimalPlaces(places)
	sym.Assert(t == nil && len(errs) > 0, "a text that is no time is an error with decimal places")
	t, errs = m.GetTimeWithDecimalPlaces("t", places)
	sym.Assert(t == nil && len(errs) > 0, "a text that is no time is an error in a map with decimal places")
	sym.Assert(v.IsString() && s == was, "a text that is no time stays as it was")
}

// texts that are no times
func C35_NoTime() {
	texts := []string{"", "a", "2022", "2022-01-01", "2022-13-01 00:00:00", "2022-02-29 00:00:00", "2022-01-01 24:00:00", "2022-01-01 00:60:00", "2022-01-01T00:00:00", "01-01-2022 00:00:00", "22-01-01 00:00:00", "2022-1-01 00:00:00",
		"2022-01-01 00:00:00 ", " 2022-01-01 00:00:00", "2022-01-01 00:00:00.", "2022-01-01 00:00:00Z", "2022-01-01 00:00:00x", "2022-00-10 00:00:00", "2022-04-31 00:00:00", "null", "-2022-01-01 00:00:00", "NOW", "Zero"}
	noTime(texts[sym.Choose("text", len(texts))])
}

// a text of a time with one byte that does not belong there
func C35_Spoiled() {
	b := []byte("2022-10-30 11:22:33.654321")
	b[sym.Choose("at", len(b))] = sym.ByteIn("byte", "abcTZ:_/e\x00\xff\"")
	s := string(b)
	if s[4] == '-' && s[7] == '-' && s[13] == ':' && s[16] == ':' {
		for i, c := range []byte("2022-10-30 11:22:33.654321") {
			if c >= '0' && c <= '9' && s[i] != c || (c == ' ' || c == '.') && s[i] != c {
				noTime(s)
				return
			}
		}
		return
	}
	noTime(s)
}

// any short text
func C35_Short() {
	noTime(sym.Str("s", sym.Choose("n", sym.Bound("bytes of a text", 2, 3))))
}

// a time that is held by value is written like one behind a pointer, or not at all
func C35_Value() {
	t := time.Date(2022, 3, 4, 5, 6, 7, 89012345, time.UTC)
	m, v := json.NewMap(), json.NewValue(nil)
	switch sym.Choose("stored", 3) {
	case 0:
		v = json.NewValue(t)
	case 1:
		v.SetTimeValue(t)
	case 2:
		v.SetObject(t)
	}
	m.SetValue("t", v)
	var b strings.Builder
	errs := m.ToJSONString(&b)
	sym.Assert(len(errs) > 0 || b.String() == `{"t":"`+asText(t)+`"}`, "a time is written as it is, or an error is reported")
	s, errs := json.ConvertInterfaceValueToStringValue(t)
	sym.Assert(len(errs) > 0 || s == asText(t), "a time is converted as it is, or an error is reported")
}
