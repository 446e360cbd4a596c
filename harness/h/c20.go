package h

import (
	"fmt"
	"strings"

	json "github.com/matehaxor03/holistic_json/json"

	"verifharness/sym"
)

// list is the sequence an array has to be.
type list struct {
	vals []*json.Value // the value stored, if it is known
	nums []int         // the number stored, or null
}

func (l *list) add(v *json.Value, n int) {
	l.vals, l.nums = append(l.vals, v), append(l.nums, n)
}

func (l *list) remove(at int) {
	n := &list{}
	for i := range l.vals {
		if i != at {
			n.add(l.vals[i], l.nums[i])
		}
	}
	*l = *n
}

func (l *list) text() string {
	t := "["
	for i, n := range l.nums {
		if i > 0 {
			t += ","
		}
		if n == null {
			t += "null"
		} else {
			t += fmt.Sprint(n)
		}
	}
	return t + "]"
}

// agrees asserts that an array is the list, however it is looked at.
func (l *list) agrees(a *json.Array) {
	sym.Assert(a.Len() == len(l.vals), "the length is the number of elements")
	values := *a.GetValues()
	sym.Assert(len(values) == len(l.vals), "the list has every element")
	for i, v := range values {
		if l.vals[i] != nil {
			sym.Assert(v == l.vals[i], "an element is the value stored there")
		}
		if l.nums[i] == null {
			sym.Assert(v == nil || v.IsNil(), "an element is the null stored there")
			continue
		}
		n, errs := v.GetIntValue()
		sym.Assert(len(errs) == 0 && n == l.nums[i], "an element is the number stored there")
	}
	var out strings.Builder
	errs := a.ToJSONString(&out)
	sym.Assert(len(errs) == 0 && out.String() == l.text(), "the text has the elements in order")
}

// step is one operation on both.
func (l *list) step(a *json.Array, n int, at int) {
	inside := at >= 0 && at < len(l.vals)
	switch sym.Choose("op", 3) {
	case 0:
		a.AppendIntValue(n)
		l.add(nil, n)
	case 1:
		v := json.NewValue(n)
		done, err := a.SetValueAtIndex(at, v)
		sym.Assert(done == inside && (err == nil) == inside, "an element is replaced if the index is in range, else it is an error")
		for i := range l.vals {
			if i == at {
				l.vals[i], l.nums[i] = v, n
			}
		}
	case 2:
		done, err := a.RemoveValueAtIndex(at)
		sym.Assert(done == inside && (err == nil) == inside, "an element is removed if the index is in range, else it is an error")
		l.remove(at)
	}
}

// any history, with any index, looked at after every step
func C20_History() {
	a, l := json.NewArray(), &list{}
	steps := sym.Bound("operations of a history", 4, 6)
	for i := 0; i < steps; i++ {
		l.step(a, i, sym.Int("at"))
		l.agrees(a)
	}
}

// histories that start with some elements
func C20_Filled() {
	n := 1 + sym.Choose("n", sym.Bound("elements before", 3, 5))
	a, l := json.NewArray(), &list{}
	for i := 0; i < n; i++ {
		a.AppendIntValue(i)
		l.add(nil, i)
	}
	steps := sym.Bound("operations on a filled array", 3, 4)
	for i := 0; i < steps; i++ {
		l.step(a, 10+i, sym.Int("at"))
	}
	l.agrees(a)
}

// two operations on long arrays
func C20_Wide() {
	n := []int{7, 16, 17, 33, 64}[sym.Choose("n", sym.Bound("widths", 4, 5))]
	a, l := json.NewArray(), &list{}
	for i := 0; i < n; i++ {
		a.AppendIntValue(i)
		l.add(nil, i)
	}
	for i := 0; i < 2; i++ {
		at := []int{-1, 0, 1, n / 2, len(l.vals) - 1, len(l.vals)}[sym.Choose("at", 6)]
		l.step(a, 100+i, at)
	}
	l.agrees(a)
}

// any index into an array that is not changed otherwise
func C20_Index() {
	n := sym.Choose("n", 5)
	a, l := json.NewArray(), &list{}
	for i := 0; i < n; i++ {
		v := json.NewValue(i)
		a.AppendValue(v)
		l.add(v, i)
	}
	at := sym.Int("at")
	l.step(a, 7, at)
	l.agrees(a)
}

// every way of appending adds one element at the end
func C20_Appends() {
	first, last := json.NewValue(1), json.NewValue(2)
	a := json.NewArray()
	a.AppendValue(first)
	how := sym.Choose("append", kinds+6)
	switch how - kinds {
	case 0:
		a.AppendMap(json.NewMap())
	case 1:
		a.AppendMapValue(json.NewMapValue())
	case 2:
		a.AppendArray(json.NewArray())
	case 3:
		a.AppendArrayValue(json.NewArrayValue())
	case 4:
		a.AppendValue(json.NewValue("x"))
	case 5:
		a.AppendNil()
	default:
		anyScalar(how, "x", 1).appendTo(a, sym.Choose("ptr", 2) == 1)
	}
	a.AppendValue(last)
	values := *a.GetValues()
	sym.Assert(a.Len() == 3 && len(values) == 3, "appending adds one element")
	sym.Assert(values[0] == first && values[2] == last, "appending adds at the end")
	sym.Assert(values[1] != nil && values[1] != first && values[1] != last, "appending adds a new element")
	done, err := a.RemoveValueAtIndex(1)
	values = *a.GetValues()
	sym.Assert(done && err == nil && len(values) == 2 && values[0] == first && values[1] == last, "what was appended can be removed")
}

// arrays that were parsed, cloned or made of a slice go on the same way
func C20_Origins() {
	l := &list{}
	for i := 0; i < 3; i++ {
		l.add(nil, i)
	}
	var a, was *json.Array
	switch sym.Choose("origin", 4) {
	case 0:
		x, errs := parse(`{"a":[0,1,2]}`).GetArray("a")
		sym.Assert(x != nil && len(errs) == 0, "a parsed array can be read")
		a = x
	case 1:
		a = json.NewArrayOfValues(&[]interface{}{0, 1, 2})
	case 2:
		was = json.NewArrayOfValues(&[]interface{}{0, 1, 2})
		x, errs := was.Clone()
		sym.Assert(x != nil && len(errs) == 0, "an array can be cloned")
		a = x
	case 3:
		m := json.NewMap()
		for i := 0; i < 3; i++ {
			m.SetIntValue(string(rune('a'+i)), i)
		}
		c, errs := m.Clone()
		sym.Assert(c != nil && len(errs) == 0, "a map can be cloned")
		a = json.NewArrayOfValues(nil)
		for _, v := range *c.Values().GetValues() {
			a.AppendValue(v)
		}
	}
	steps := sym.Bound("operations on an array from elsewhere", 2, 3)
	for i := 0; i < steps; i++ {
		l.step(a, 10+i, sym.Int("at"))
	}
	l.agrees(a)
	if was != nil {
		var out strings.Builder
		sym.Assert(len(was.ToJSONString(&out)) == 0 && out.String() == "[0,1,2]", "the original stays as it was")
	}
}

// arrays inside of documents
func C20_Nested() {
	in, out, l := json.NewArray(), json.NewMap(), &list{}
	prefix, suffix := `{"in":`, "}"
	switch sym.Choose("where", 3) {
	case 0:
		out.SetArray("in", in)
	case 1:
		out.SetArrayValue("in", *in)
	case 2:
		a := json.NewArray()
		a.AppendArray(in)
		out.SetArray("in", a)
		prefix, suffix = `{"in":[`, "]}"
	}
	for i := 0; i < 3; i++ {
		l.step(in, i, sym.Int("at"))
		sym.Assert(text(out) == prefix+l.text()+suffix, "a change of an array shows in the document")
	}
}

// appending a nil pointer of any kind appends a null
func C20_Nils() {
	a, l := json.NewArray(), &list{}
	n := sym.Choose("n", 3)
	for i := 0; i < n; i++ {
		a.AppendIntValue(i)
		l.add(nil, i)
	}
	appendNothing(a, sym.Choose("appender", nilsOfArray+3))
	l.add(nil, null)
	if sym.Choose("again", 2) == 1 {
		appendNothing(a, sym.Choose("appender", nilsOfArray+3))
		l.add(nil, null)
	} else {
		a.AppendIntValue(5)
		l.add(nil, 5)
	}
	l.agrees(a)
	l.step(a, 10, sym.Int("at"))
	l.agrees(a)
}

// appendNothing appends a null on any way.
func appendNothing(a *json.Array, how int) {
	switch how - nilsOfArray {
	case 0:
		a.AppendValue(json.NewValue(nil))
	case 1:
		a.AppendValueValue(json.NewValueValue(nil))
	case 2:
		a.AppendNil()
	default:
		appendNil(a, how)
	}
}

// an element can be replaced by nothing, and is then null
func C20_Nothing() {
	a, l := json.NewArray(), &list{}
	n := 1 + sym.Choose("n", 3)
	for i := 0; i < n; i++ {
		a.AppendIntValue(i)
		l.add(nil, i)
	}
	at := sym.Int("at")
	done, err := a.SetValueAtIndex(at, nil)
	inside := at >= 0 && at < n
	sym.Assert(done == inside && (err == nil) == inside, "an element is replaced if the index is in range, else it is an error")
	for i := range l.vals {
		if i == at {
			l.vals[i], l.nums[i] = nil, null
		}
	}
	l.agrees(a)
	l.step(a, 10, sym.Int("at"))
	l.agrees(a)
}

// one value at several places is an element at each of them
func C20_Same() {
	a, l := json.NewArray(), &list{}
	v := json.NewValue(7)
	steps := sym.Bound("operations with one value", 4, 5)
	for i := 0; i < steps; i++ {
		switch sym.Choose("what", 3) {
		case 0:
			a.AppendValue(v)
			l.add(v, 7)
		case 1:
			at := sym.Int("at")
			done, err := a.SetValueAtIndex(at, v)
			inside := at >= 0 && at < len(l.vals)
			sym.Assert(done == inside && (err == nil) == inside, "an element is replaced if the index is in range, else it is an error")
			for j := range l.vals {
				if j == at {
					l.vals[j], l.nums[j] = v, 7
				}
			}
		case 2:
			l.step(a, 10+i, sym.Int("at"))
		}
	}
	l.agrees(a)
}

// many appends of every kind, looked at after each
func C20_Great() {
	n := []int{9, 17, 33, 65, 130, 257, 513, 1025}[sym.Choose("n", sym.Bound("appended elements, of 9 to 1025", 6, 8))]
	how := sym.Choose("how", 9)
	a := json.NewArray()
	v := json.NewValue("v")
	for i := 0; i < n; i++ {
		k := how
		if how == 8 {
			k = i % 8
		}
		switch k {
		case 0:
			a.AppendIntValue(i)
		case 1:
			a.AppendNil()
		case 2:
			a.AppendStringValue("v")
		case 3:
			a.AppendValue(v)
		case 4:
			a.AppendMap(json.NewMap())
		case 5:
			a.AppendArrayValue(json.NewArrayValue())
		case 6:
			b := true
			a.AppendBool(&b)
		case 7:
			a.AppendValue(nil)
		}
		sym.Assert(a.Len() == i+1, "every append adds one element")
	}
	values := *a.GetValues()
	sym.Assert(len(values) == n, "the list has every element")
	for i, x := range values {
		k := how
		if how == 8 {
			k = i % 8
		}
		switch k {
		case 0:
			got, errs := x.GetIntValue()
			sym.Assert(len(errs) == 0 && got == i, "an element is what was appended")
		case 1, 7:
			sym.Assert(x == nil || x.IsNil(), "an element is what was appended")
		case 2, 3:
			got, errs := x.GetStringValue()
			sym.Assert(len(errs) == 0 && got == "v" && (k == 2 || x == v), "an element is what was appended")
		case 4:
			sym.Assert(x.IsMap(), "an element is what was appended")
		case 5:
			sym.Assert(x.IsArray(), "an element is what was appended")
		case 6:
			got, errs := x.GetBoolValue()
			sym.Assert(len(errs) == 0 && got, "an element is what was appended")
		}
	}
	at := []int{-1, 0, n / 2, n - 1, n}[sym.Choose("at", 5)]
	done, _ := a.RemoveValueAtIndex(at)
	left := n
	if at >= 0 && at < n {
		left--
	}
	sym.Assert(done == (left < n) && a.Len() == left, "an element is removed if the index is in range")
	a.AppendNil()
	sym.Assert(a.Len() == left+1 && len(*a.GetValues()) == left+1, "every append adds one element")
}

// arrays of many elements that lose one after the other
func C20_Drained() {
	n := []int{9, 17, 33, 65, 130, 300}[sym.Choose("n", sym.Bound("elements of an array that is drained, of 9 to 300", 5, 6))]
	a, l := json.NewArray(), &list{}
	for i := 0; i < n; i++ {
		a.AppendIntValue(i)
		l.add(nil, i)
	}
	from := sym.Choose("from", 4)
	for i := 0; i < n; i++ {
		at := []int{0, len(l.vals) - 1, len(l.vals) / 2, i * 7 % len(l.vals)}[from]
		done, err := a.RemoveValueAtIndex(at)
		sym.Assert(done && err == nil, "an element is removed if the index is in range")
		l.remove(at)
		if i%5 == 4 {
			a.AppendIntValue(1000 + i)
			l.add(nil, 1000+i)
		}
		if i%7 == 6 {
			v := json.NewValue(2000 + i)
			done, err := a.SetValueAtIndex(len(l.vals)/2, v)
			sym.Assert(done && err == nil, "an element is replaced if the index is in range")
			l.vals[len(l.vals)/2], l.nums[len(l.vals)/2] = v, 2000+i
		}
		l.agrees(a)
	}
}

// one operation on arrays of very many elements
func C20_VeryWide() {
	n := []int{65, 128, 130, 256, 300, 1100}[sym.Choose("n", sym.Bound("elements of an array, of 65 to 1100", 5, 6))]
	a, l := json.NewArray(), &list{}
	for i := 0; i < n; i++ {
		a.AppendIntValue(i)
		l.add(nil, i)
	}
	for i := 0; i < 2; i++ {
		l.step(a, 5000+i, []int{-1, 0, 16, n / 2, len(l.vals) - 2, len(l.vals) - 1, len(l.vals)}[sym.Choose("at", 7)])
	}
	l.agrees(a)
}

// one to three operations over and over
func C20_Periodic() {
	a, l := json.NewArray(), &list{}
	for i := sym.Choose("elements before", 2) * 3; i > 0; i-- {
		a.AppendIntValue(i)
		l.add(nil, i)
	}
	n := 1 + sym.Choose("n", sym.Bound("operations of a period", 3, 4))
	op := make([]int, n)
	for i := range op {
		op[i] = sym.Choose("op", 7)
	}
	rounds := sym.Bound("periods of a history", 20, 40)
	for r := 0; r < rounds; r++ {
		for i, what := range op {
			x, last := 100*r+i, len(l.vals)-1
			at := []int{0, last, 1}[(what+2)%3]
			inside := at >= 0 && at <= last
			switch what {
			case 0:
				a.AppendIntValue(x)
				l.add(nil, x)
			case 1, 2, 3:
				done, err := a.SetValueAtIndex(at, json.NewValue(x))
				sym.Assert(done == inside && (err == nil) == inside, "an element is replaced if the index is in range, else it is an error")
				if inside {
					l.vals[at], l.nums[at] = nil, x
				}
			case 4, 5, 6:
				done, err := a.RemoveValueAtIndex(at)
				sym.Assert(done == inside && (err == nil) == inside, "an element is removed if the index is in range, else it is an error")
				l.remove(at)
			}
			sym.Assert(a.Len() == len(l.vals) && len(*a.GetValues()) == len(l.vals), "the length is the number of elements")
		}
		if r%8 == 7 || r < 2 {
			l.agrees(a)
		}
	}
	l.agrees(a)
}
