package h

import (
	json "github.com/matehaxor03/holistic_json/json"

	"verifharness/sym"
)

func trim(t string) string {
	for len(t) > 0 && space(t[0]) {
		t = t[1:]
	}
	for len(t) > 0 && space(t[len(t)-1]) {
		t = t[:len(t)-1]
	}
	return t
}

// decimal tells whether a token is a decimal number; a plus sign, leading zeros, and a point without
// digits on one side are left to the parser.
func decimal(t string) (isNumber, strict bool) {
	i := 0
	strict = true
	if i < len(t) && (t[i] == '-' || t[i] == '+') {
		if t[i] == '+' {
			strict = false
		}
		i++
	}
	b := i
	for i < len(t) && digit(t[i]) {
		i++
	}
	n := i - b
	if n == 0 || n > 1 && t[b] == '0' {
		strict = false
	}
	if i < len(t) && t[i] == '.' {
		i++
		b = i
		for i < len(t) && digit(t[i]) {
			i++
		}
		if i == b {
			strict = false
		}
		n += i - b
	}
	if n == 0 {
		return false, false
	}
	if i < len(t) && (t[i] == 'e' || t[i] == 'E') {
		i++
		if i < len(t) && (t[i] == '-' || t[i] == '+') {
			i++
		}
		b = i
		for i < len(t) && digit(t[i]) {
			i++
		}
		if i == b {
			return false, false
		}
	}
	if i != len(t) {
		return false, false
	}
	return true, strict
}

// places a token can stand in: before, after, and where the value is then found
var places = [][2]string{{`{"a":`, `}`}, {`{"a":[`, `]}`}, {`{"a":`, `,"b":2}`}, {`{"z":{},"a":`, `}`}, {`{"a":[`, `,2]}`}, {`{"a":[{},`, `]}`}, {`{"o":{"a":`, `}}`}, {`{"a":[[`, `]]}`}}

func placed(place int, m *json.Map) *node {
	n := snapMap(m)
	// the member a, the other member being o or z
	var v *node
	for i, k := range n.keys {
		if k == "a" {
			v = n.kids[i]
		} else if k == "o" {
			o := n.kids[i]
			sym.Assert(len(o.kids) == 1 && o.keys[0] == "a", "the member is there")
			v = o.kids[0]
		}
	}
	sym.Assert(v != nil, "the member is there")
	switch place {
	case 1:
		sym.Assert(v.kind == "array" && len(v.kids) == 1, "the element is there")
		return v.kids[0]
	case 4:
		sym.Assert(v.kind == "array" && len(v.kids) == 2, "both elements are there")
		return v.kids[0]
	case 5:
		sym.Assert(v.kind == "array" && len(v.kids) == 2, "both elements are there")
		return v.kids[1]
	case 7:
		sym.Assert(v.kind == "array" && len(v.kids) == 1 && v.kids[0].kind == "array" && len(v.kids[0].kids) == 1, "the element is there")
		return v.kids[0].kids[0]
	}
	return v
}

// token puts an unquoted token into a document and checks what becomes of it.
func token(place int, raw string) {
	for i := 0; i < len(raw); i++ {
		switch raw[i] {
		case '"', '{', '}', '[', ']', ',', '\\':
			sym.Assume(false)
		}
	}
	t := trim(raw)
	sym.Assume(len(t) > 0)
	m, errs := json.Parse(places[place][0] + raw + places[place][1])
	kind := ""
	u := uint64(0)
	strict := true
	switch t {
	case "true":
		kind, u = "bool", 1
	case "false":
		kind = "bool"
	case "null":
		kind = "nil"
	default:
		var num bool
		num, strict = decimal(t)
		if !num {
			sym.Reach("not a value")
			sym.Assert(m == nil && len(errs) > 0, "an unquoted token that is no value is refused")
			return
		}
		if m == nil {
			// a number out of range, or in a form only this parser may know
			if strict {
				_, _, ok := numberOf(t)
				sym.Assert(!ok, "a number in range is accepted")
			}
			return
		}
		v := placed(place, m)
		sym.Assert(signed(v.kind) || unsigned(v.kind) || v.kind == "float32" || v.kind == "float64", "a number is read as a number")
		if strict {
			var ok bool
			kind, u, ok = numberOf(t)
			sym.Assert(ok, "a number out of range is refused")
			sym.Assert(v.kind == kind && v.u == u, "a number is read as what it says")
		}
		return
	}
	sym.Reach("word")
	sym.Assert(m != nil && len(errs) == 0, "true, false and null are accepted")
	v := placed(place, m)
	sym.Assert(v.kind == kind && v.u == u, "true, false and null are read as what they say")
}

// free bytes
func C03_Free() {
	n := 1 + sym.Choose("n", sym.Bound("free bytes of a token", 3, 5))
	token(sym.Choose("place", sym.Bound("free tokens: places", 2, 8)), sym.Str("t", n))
}

// bytes of numbers and blanks
func C03_Number() {
	n := 1 + sym.Choose("n", sym.Bound("number bytes of a token", 4, 6))
	token(sym.Choose("place", 2), sym.StrIn("t", n, "+-.019eE xX_"))
}

// every place, shorter tokens
func C03_Places() {
	n := 1 + sym.Choose("n", sym.Bound("token bytes in every place", 3, 4))
	token(sym.Choose("place", len(places)), sym.StrIn("t", n, "-.1e truefalsn\t:"))
}

// words with a part replaced by, or joined to, free bytes
func C03_Words() {
	words := []string{"true", "false", "null", "True", "TRUE", "nil", "NaN", "Infinity", "0x1F", "1_000", "1e5", "undefined"}
	w := words[sym.Choose("word", len(words))]
	at := sym.Choose("at", len(w)+1)
	k := sym.Choose("free", sym.Bound("bytes put into a word", 1, 2)+1)
	c := sym.Str("c", k)
	cut := sym.Choose("cut", 2)
	if at+cut > len(w) {
		cut = 0
	}
	token(sym.Choose("place", sym.Bound("words: places", 2, 8)), w[:at]+c+w[at+cut:])
}

// two tokens with something between them that is no comma
func C03_Fused() {
	words := []string{"true", "null", "1", "-1", "1.5", `"x"`, "{}", "[]", "1e2"}
	a := words[sym.Choose("first", len(words))]
	b := words[sym.Choose("second", len(words))]
	gap := sym.StrIn("gap", sym.Choose("gap", sym.Bound("gap bytes", 2, 3)+1), " \t\r\n:x0")
	inArray := sym.Choose("array", 2) == 1
	f := [2]string{`{"a":`, `}`}
	if inArray {
		f = [2]string{`{"a":[`, `]}`}
	}
	t := f[0] + a + gap + b + f[1]
	m, errs := json.Parse(t)
	if n, valid := refParse(t); valid {
		if !refused(n) {
			sym.Assert(m != nil && len(errs) == 0, "a value is accepted")
			expect(n, m)
		}
		return
	}
	quoted := a[0] == '"' || a[0] == '{' || a[0] == '[' || b[0] == '"' || b[0] == '{' || b[0] == '['
	if !quoted {
		if num, _ := decimal(a + gap + b); num {
			return
		}
		sym.Assert(m == nil && len(errs) > 0, "two tokens without a comma are refused")
		return
	}
	if m == nil {
		return
	}
	// whatever is accepted is each of the tokens, not a mixture
	for _, v := range append(values(snapMap(m)), &node{kind: "nil"}) {
		ok := v.kind == "nil" || v.kind == "bool" && v.u == 1 || v.kind == "string" && v.s == "x" ||
			v.kind == "uint8" && (v.u == 1 || v.u == 0) || v.kind == "int8" && v.u == ^uint64(0) || v.kind == "float32"
		sym.Assert(ok, "tokens are not fused into one value")
	}
}

// values lists the scalars of a tree.
func values(n *node) []*node {
	if n.kind != "map" && n.kind != "array" {
		return []*node{n}
	}
	var r []*node
	for _, k := range n.kids {
		r = append(r, values(k)...)
	}
	return r
}

// several tokens with commas, one of them no value
func C03_Among() {
	toks := []string{"nope", "1 2", "tru", "01x", "+", "--1", "1.2.3", "nul", "1", `"x"`, "{}", "null", "[]", "true", "-1.5"}
	bad := toks[sym.Choose("bad", 8)]
	if sym.Choose("free", 4) == 0 {
		bad = sym.StrIn("bad", 1, "xtn+-.e_")
	}
	n := 2 + sym.Choose("n", sym.Bound("values beside a bad one", 2, 3))
	at := sym.Choose("at", n)
	form := sym.Choose("form", 4)
	blank := []string{"", " ", "\n"}[sym.Choose("blank", sym.Bound("blanks among tokens", 1, 3))]
	t := []string{`{`, `{"a":[`, `{"a":{`, `{"a":[[`}[form]
	for i := 0; i < n; i++ {
		if i > 0 {
			t += "," + blank
		}
		if form == 0 || form == 2 {
			t += `"` + string(rune('p'+i)) + `":`
		}
		if i == at {
			t += bad + blank
			continue
		}
		t += toks[8+sym.Choose("good", sym.Bound("kinds of values beside a bad one", 3, 7))] + blank
	}
	t += []string{`}`, `]}`, `}}`, `]]}`}[form]
	m, errs := json.Parse(t)
	sym.Assert(m == nil && len(errs) > 0, "an unquoted token that is no value is refused, whatever is beside it")
}

// large documents with a token in them
func C03_Context() {
	toks := []string{"tru", "1 1", "nope", "1 1 1", "+", "1.2.3", "truee", "--1", "null null", "1e", "0x1", "1_000", "true\n1", "1 2 3 4"}
	bad := ""
	if sym.Choose("any", 2) == 0 {
		bad = sym.StrIn("bad", 1, "xtfn+-.e_NI")
	} else {
		bad = toks[sym.Choose("token", sym.Bound("tokens of a large document", 8, len(toks)))]
	}
	m, errs := json.Parse(context(bad))
	sym.Assert(m == nil && len(errs) > 0, "an unquoted token that is no value is refused, wherever it is")
}

// large documents with a good one
func C03_GoodContext() {
	sym.Assert(conform(context([]string{"true", "false", "null", "0", "-1", "1.5", "1e2"}[sym.Choose("token", 7)])) != nil, "a value is accepted")
}

// several tokens with blanks between them, or repeated
func C03_Sequence() {
	words := []string{"1", "true", "null", "-1", "1.5", "0", "12", "false", "x"}
	n := 2 + sym.Choose("n", sym.Bound("tokens in a row", 4, 7))
	a := words[sym.Choose("first", len(words))]
	b := words[sym.Choose("second", len(words))]
	at := sym.Choose("at", n)
	w := sym.StrIn("w", 1+sym.Choose("blanks", 2), blanks)
	t := ""
	for i := 0; i < n; i++ {
		if i > 0 {
			t += w
		}
		if i == at {
			t += b
		} else {
			t += a
		}
	}
	token(sym.Choose("place", sym.Bound("tokens in a row: places", 3, 8)), t)
}
