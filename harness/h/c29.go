package h

import (
	"errors"
	"fmt"
	"net/url"
	"strconv"
	"time"

	json "github.com/matehaxor03/holistic_json/json"

	"verifharness/sym"
)

// messages asserts that errors have some messages, in order.
func messages(got, errs []error, want []string, what string) {
	sym.Assert(len(errs) == 0, what+": can be read")
	sym.Assert(len(got) == len(want), what+": every error is there")
	for i := range want {
		sym.Assert(got[i] != nil && got[i].Error() == want[i], what+": the messages are the same")
	}
}

// storeErrors stores errors in any way, and returns the value.
func storeErrors(es []error) *json.Value {
	v := json.NewValue(nil)
	switch sym.Choose("stored", 6) {
	case 0:
		v.SetErrorsValue(es)
	case 1:
		v.SetErrors(&es)
	case 2:
		v = json.NewValue(es)
	case 3:
		v = json.NewValue(&es)
	case 4:
		m := json.NewMap()
		m.SetErrors("e", es)
		sym.Assert(m.HasKey("e") && !m.IsNull("e"), "errors are not null")
		got, errs := m.GetErrors("e")
		sym.Assert(len(errs) == 0 && len(got) == len(es), "errors can be read from a map")
		for i := range es {
			sym.Assert(got[i].Error() == es[i].Error(), "errors of a map have the same messages")
		}
		return m.GetValue("e")
	case 5:
		m := json.NewMap()
		m.SetObjectForMap("e", es)
		return m.GetValue("e")
	}
	return v
}

// error lists with any messages
func C29_Errors() {
	n := sym.Choose("n", 1+sym.Bound("errors of a list", 2, 3))
	es := []error{}
	var want []string
	for i := 0; i < n; i++ {
		s := sym.Str("s", sym.Choose("len", sym.Bound("bytes of a message", 3, 3)))
		want = append(want, s)
		es = append(es, errors.New(s))
	}
	v := storeErrors(es)
	sym.Assert(!v.IsNil(), "errors are not null")
	got, errs := v.GetErrors()
	messages(got, errs, want, "errors")
	c, errs := v.Clone()
	sym.Assert(c != nil && len(errs) == 0, "errors can be cloned")
	sym.Assert(!c.IsNil(), "cloned errors are not null")
	got, errs = c.GetErrors()
	messages(got, errs, want, "cloned errors")
	got, errs = v.GetErrors()
	messages(got, errs, want, "errors that were cloned")
}

// messages that look like something else
func C29_Messages() {
	texts := []string{"%", "%s", "%d items", "100%", "%!", "%%", "nil", "<nil>", "null", "", "map[]", "%!s(*json.Value=<nil>)", "a\nb", "\"q\"", "é\xff"}
	s := texts[sym.Choose("text", len(texts))]
	e := errors.New(s)
	if sym.Choose("made", 2) == 1 {
		e = fmt.Errorf("%s", s)
	}
	v := storeErrors([]error{e, errors.New("after")})
	sym.Assert(!v.IsNil(), "errors are not null")
	got, errs := v.GetErrors()
	messages(got, errs, []string{s, "after"}, "errors")
	m := json.NewMap()
	m.SetValue("e", v)
	c, errs := m.Clone()
	sym.Assert(c != nil && len(errs) == 0, "a map with errors can be cloned")
	sym.Assert(!c.IsNull("e"), "cloned errors are not null")
	got, errs = c.GetErrors("e")
	messages(got, errs, []string{s, "after"}, "cloned errors")
	a := json.NewArray()
	a.AppendValue(v)
	d, errs := a.Clone()
	sym.Assert(d != nil && len(errs) == 0 && d.Len() == 1, "an array with errors can be cloned")
	got, errs = (*d.GetValues())[0].GetErrors()
	messages(got, errs, []string{s, "after"}, "errors of a cloned array")
}

// wrapped errors
func C29_Wrapped() {
	s := sym.Str("s", 2)
	in := errors.New(s)
	e := fmt.Errorf("out: %w", in)
	v := storeErrors([]error{e, in})
	got, errs := v.GetErrors()
	messages(got, errs, []string{"out: " + s, s}, "errors")
	c, errs := v.Clone()
	sym.Assert(c != nil && len(errs) == 0, "errors can be cloned")
	got, errs = c.GetErrors()
	messages(got, errs, []string{"out: " + s, s}, "cloned errors")
}

// lists with nothing among the errors
func C29_NilAmong() {
	n := 1 + sym.Choose("n", 3)
	es := make([]error, n)
	at := sym.Choose("at", n)
	for i := range es {
		if i != at {
			es[i] = errors.New(sym.Str("s", 1))
		}
	}
	v := storeErrors0(es)
	sym.Assert(!v.IsNil(), "errors are not null")
	c, errs := v.Clone()
	sym.Assert(c != nil && len(errs) == 0, "errors can be cloned")
	for _, w := range []*json.Value{v, c} {
		got, errs := w.GetErrors()
		sym.Assert(len(errs) == 0 && len(got) == n, "every error is there")
		for i := range es {
			sym.Assert((got[i] == nil) == (i == at), "nothing is nothing")
			sym.Assert(i == at || got[i].Error() == es[i].Error(), "the messages are the same")
		}
	}
}

// storeErrors0 stores errors in a value.
func storeErrors0(es []error) *json.Value {
	v := json.NewValue(nil)
	switch sym.Choose("stored", 4) {
	case 0:
		v.SetErrorsValue(es)
	case 1:
		v.SetErrors(&es)
	case 2:
		v.SetObject(es)
	case 3:
		v = json.NewValue(&es)
	}
	return v
}

type someError struct{ s string }

func (e someError) Error() string { return e.s }

type otherError struct{ s string }

func (e *otherError) Error() string { return "<" + e.s + ">" }

// errors of any type survive cloning, by themselves and in lists
func C29_Types() {
	s := sym.Str("s", sym.Choose("len", 3))
	var e error
	want := s
	switch sym.Choose("type", 4) {
	case 0:
		e = someError{s}
	case 1:
		e, want = &otherError{s}, "<"+s+">"
	case 2:
		e, want = fmt.Errorf("a: %w", errors.New(s)), "a: "+s
	case 3:
		e, want = &url.Error{Op: "get", URL: "u", Err: errors.New(s)}, "get \"u\": "+s
	}
	v := json.NewValue(nil)
	list := sym.Choose("list", 2) == 1
	if list {
		v = storeErrors0([]error{e})
	} else {
		switch sym.Choose("stored", 3) {
		case 0:
			v.SetErrorValue(e)
		case 1:
			v.SetError(&e)
		case 2:
			v.SetObject(e)
		}
	}
	c, errs := v.Clone()
	sym.Assert(c != nil && len(errs) == 0, "an error can be cloned")
	for _, w := range []*json.Value{v, c} {
		sym.Assert(!w.IsNil(), "an error is not null")
		if list {
			got, errs := w.GetErrors()
			messages(got, errs, []string{want}, "errors of any type")
			continue
		}
		switch x := w.GetObject().(type) {
		case error:
			sym.Assert(x.Error() == want, "an error has its message")
		case *error:
			sym.Assert((*x).Error() == want, "an error has its message")
		default:
			sym.Fail("an error is an error")
		}
	}
}

// one error by itself survives cloning
func C29_Error() {
	s := sym.Str("s", sym.Choose("len", 4))
	e := errors.New(s)
	v := json.NewValue(nil)
	switch sym.Choose("stored", 4) {
	case 0:
		v.SetErrorValue(e)
	case 1:
		v.SetError(&e)
	case 2:
		v = json.NewValue(e)
	case 3:
		v = json.NewValue(&e)
	}
	message := func(o interface{}) string {
		switch x := o.(type) {
		case error:
			return x.Error()
		case *error:
			return (*x).Error()
		}
		return "none: " + s
	}
	sym.Assert(!v.IsNil(), "an error is not null")
	sym.Assert(message(v.GetObject()) == s, "an error is read back with its message")
	c, errs := v.Clone()
	sym.Assert(c != nil && len(errs) == 0, "an error can be cloned")
	sym.Assert(!c.IsNil(), "a cloned error is not null")
	sym.Assert(message(c.GetObject()) == s, "a cloned error has the same message")
}

// texts read as errors
func C29_Texts() {
	s, t := sym.Str("s", sym.Choose("len", 3)), sym.Str("t", 1)
	list := []string{s, t}
	v := json.NewValue(list)
	switch sym.Choose("stored", 3) {
	case 1:
		v = json.NewValue(&list)
	case 2:
		a := json.NewArray()
		a.AppendStringValue(s)
		a.AppendString(&t)
		v = json.NewValue(a)
	}
	got, errs := v.GetErrors()
	messages(got, errs, []string{s, t}, "texts read as errors")
}

// storeTime stores a time in any way.
func storeTime(t time.Time, m *json.Map) {
	v := json.NewValue(nil)
	switch sym.Choose("stored", 6) {
	case 0:
		m.SetTime("t", &t)
		return
	case 1:
		v.SetTime(&t)
	case 2:
		v.SetTimeValue(t)
	case 3:
		v = json.NewValue(t)
	case 4:
		v = json.NewValue(&t)
	case 5:
		m.SetObjectForMap("t", t)
		return
	}
	m.SetValue("t", v)
}

// instant asserts that a time is read back everywhere.
func instant(m *json.Map, want time.Time, what string) {
	sym.Assert(!m.IsNull("t") && m.HasKey("t"), what+": is not null")
	t, errs := m.GetTime("t")
	sym.Assert(len(errs) == 0 && t != nil && t.Equal(want), what+": the same instant from the map")
	v := m.GetValue("t")
	sym.Assert(!v.IsNil(), what+": is not null as a value")
	t, errs = v.GetTime()
	sym.Assert(len(errs) == 0 && t != nil && t.Equal(want), what+": the same instant from the value")
	u, errs := v.GetTimeValue()
	sym.Assert(len(errs) == 0 && u.Equal(want), what+": the same instant as a time value")
	n := sym.Choose("places", 3) * 4
	t, errs = v.GetTimeWithDecimalPlaces(n)
	sym.Assert(len(errs) == 0 && t != nil && t.Equal(want), what+": the same instant with decimal places")
	t, errs = m.GetTimeWithDecimalPlaces("t", n)
	sym.Assert(len(errs) == 0 && t != nil && t.Equal(want), what+": the same instant from the map with decimal places")
}

// any instant
func C29_Time() {
	sec, nsec := sym.Int64("sec"), sym.Int64("nsec")
	sym.Assume(sec > -62135596800 && sec < 253402300800 && nsec >= 0 && nsec < 1000000000)
	t := time.Unix(sec, nsec).UTC()
	v := json.NewValue(&t)
	got, errs := v.GetTime()
	sym.Assert(len(errs) == 0 && got != nil && got.Equal(t), "a time is read back")
	u, errs := v.GetTimeValue()
	sym.Assert(len(errs) == 0 && u.Equal(t), "a time is read back as a value")
}

// instants of all sorts, stored, read and cloned in any way
func C29_Times() {
	times := []time.Time{{}, time.Unix(0, 0).UTC(), time.Unix(1, 1).UTC(), time.Date(2022, 12, 31, 23, 59, 59, 999999999, time.UTC), time.Date(9999, 1, 1, 0, 0, 0, 123456789, time.UTC),
		time.Date(1, 1, 1, 0, 0, 0, 1, time.UTC), time.Date(2000, 2, 29, 12, 0, 0, 500, time.FixedZone("x", 3600)), time.Date(1969, 12, 31, 23, 59, 59, 1000, time.UTC)}
	t := times[sym.Choose("time", len(times))]
	m := json.NewMap()
	storeTime(t, m)
	instant(m, t, "a time")
	c, errs := m.Clone()
	sym.Assert(c != nil && len(errs) == 0, "a map with a time can be cloned")
	instant(c, t, "a cloned time")
	instant(m, t, "a time that was cloned")
}

// a clone has its own time
func C29_TimeCloned() {
	t := time.Unix(100, 7).UTC()
	m := json.NewMap()
	m.SetTime("t", &t)
	c, errs := m.Clone()
	sym.Assert(c != nil && len(errs) == 0, "a map with a time can be cloned")
	was := t
	t = time.Unix(200, 9).UTC()
	instant(c, was, "a cloned time")
	instant(m, t, "a time stored through a pointer")
	g, errs := m.GetTime("t")
	sym.Assert(g != nil && len(errs) == 0, "a time can be read")
	*g = was
	instant(m, t, "a time that was read")
}

// functions
func C29_Func() {
	s := sym.Str("s", 1)
	calls := 0
	f := func(x string) []error {
		calls++
		return []error{errors.New(x + s)}
	}
	m := json.NewMap()
	switch sym.Choose("stored", 4) {
	case 0:
		m.SetFunc("f", &f)
	case 1:
		v := json.NewValue(&f)
		m.SetValue("f", v)
	case 2:
		m.SetObjectForMap("f", f)
	case 3:
		m.SetValue("f", json.NewValue(f))
	}
	sym.Assert(m.HasKey("f") && !m.IsNull("f") && !m.GetValue("f").IsNil(), "a function is not null")
	for i := 0; i < 2; i++ {
		g, errs := m.GetFunc("f")
		if i == 1 {
			g, errs = m.GetValue("f").GetFunc()
		}
		sym.Assert(g != nil && len(errs) == 0, "a function can be read")
		r := (*g)("x")
		sym.Assert(calls == i+1 && len(r) == 1 && r[0].Error() == "x"+s, "the function is the one that was stored")
	}
}

// error lists of any length, in every form
func C29_Many() {
	n := 3 + sym.Choose("n", sym.Bound("errors of a long list", 38, 140))
	if sym.Choose("far", 8) == 7 {
		n = []int{130, 300, 1100}[sym.Choose("size", 3)]
	}
	es := make([]error, n)
	want := make([]string, n)
	for i := range es {
		want[i] = "e" + strconv.Itoa(i)
		es[i] = errors.New(want[i])
	}
	v := storeErrors(es)
	got, errs := v.GetErrors()
	messages(got, errs, want, "errors")
	c, errs := v.Clone()
	sym.Assert(c != nil && len(errs) == 0, "errors can be cloned")
	got, errs = c.GetErrors()
	messages(got, errs, want, "cloned errors")
	m := json.NewMap()
	m.SetValue("e", v)
	d, errs := m.Clone()
	sym.Assert(d != nil && len(errs) == 0, "a map with errors can be cloned")
	got, errs = d.GetErrors("e")
	messages(got, errs, want, "errors of a cloned map")
}
