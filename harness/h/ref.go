package h

import (
	"strconv"
	"unicode/utf8"

	json "github.com/matehaxor03/holistic_json/json"

	"verifharness/sym"
)

// ref is a parser of standard JSON, written from the grammar; it is the oracle of the parse properties.
// A string literal may hold any raw byte but a quote and a backslash.
type ref struct {
	s   string
	i   int
	bad bool
}

func space(c byte) bool { return c == ' ' || c == '\t' || c == '\r' || c == '\n' }
func digit(c byte) bool { return c >= '0' && c <= '9' }

func (p *ref) ws() {
	for p.i < len(p.s) && space(p.s[p.i]) {
		p.i++
	}
}

func (p *ref) fail() *node {
	p.bad = true
	return &node{}
}

func (p *ref) lit(t string) bool {
	if len(p.s)-p.i < len(t) {
		return false
	}
	for j := 0; j < len(t); j++ {
		if p.s[p.i+j] != t[j] {
			return false
		}
	}
	p.i += len(t)
	return true
}

func (p *ref) value() *node {
	p.ws()
	if p.i >= len(p.s) {
		return p.fail()
	}
	switch c := p.s[p.i]; {
	case c == '{':
		return p.object()
	case c == '[':
		return p.array()
	case c == '"':
		s := p.str()
		return &node{kind: "string", s: s}
	case c == 't':
		if p.lit("true") {
			return &node{kind: "bool", u: 1}
		}
	case c == 'f':
		if p.lit("false") {
			return &node{kind: "bool"}
		}
	case c == 'n':
		if p.lit("null") {
			return &node{kind: "nil"}
		}
	case c == '-' || digit(c):
		return p.number()
	}
	return p.fail()
}

func (p *ref) object() *node {
	n := &node{kind: "map"}
	p.i++
	p.ws()
	if p.i < len(p.s) && p.s[p.i] == '}' {
		p.i++
		return n
	}
	for {
		p.ws()
		if p.i >= len(p.s) || p.s[p.i] != '"' {
			return p.fail()
		}
		k := p.str()
		if p.bad {
			return n
		}
		p.ws()
		if p.i >= len(p.s) || p.s[p.i] != ':' {
			return p.fail()
		}
		p.i++
		v := p.value()
		if p.bad {
			return n
		}
		n.put(k, v)
		p.ws()
		if p.i >= len(p.s) {
			return p.fail()
		}
		c := p.s[p.i]
		p.i++
		if c == '}' {
			return n
		}
		if c != ',' {
			return p.fail()
		}
	}
}

// put stores a member: the last value of a key wins, in its first position.
func (n *node) put(k string, v *node) {
	for j, have := range n.keys {
		if sym.Fork(have == k) {
			n.kids[j] = v
			return
		}
	}
	n.keys = append(n.keys, k)
	n.kids = append(n.kids, v)
}

func (p *ref) array() *node {
	n := &node{kind: "array"}
	p.i++
	p.ws()
	if p.i < len(p.s) && p.s[p.i] == ']' {
		p.i++
		return n
	}
	for {
		v := p.value()
		if p.bad {
			return n
		}
		n.kids = append(n.kids, v)
		p.ws()
		if p.i >= len(p.s) {
			return p.fail()
		}
		c := p.s[p.i]
		p.i++
		if c == ']' {
			return n
		}
		if c != ',' {
			return p.fail()
		}
	}
}

func hexval(c byte) (rune, bool) {
	l := c | 0x20
	v := rune(l) - 'a' + 10
	if digit(c) {
		v = rune(c - '0')
	}
	return v, digit(c) || l >= 'a' && l <= 'f'
}

// unicode4 reads \uXXXX
func (p *ref) unicode4() rune {
	if p.i+6 > len(p.s) || p.s[p.i] != '\\' || p.s[p.i+1] != 'u' {
		p.bad = true
		return 0
	}
	var r rune
	for j := 2; j < 6; j++ {
		h, ok := hexval(p.s[p.i+j])
		if !ok {
			p.bad = true
			return 0
		}
		r = r<<4 | h
	}
	p.i += 6
	return r
}

func (p *ref) str() string {
	p.i++
	var out []byte
	for p.i < len(p.s) {
		c := p.s[p.i]
		if c == '"' {
			p.i++
			return string(out)
		}
		if c != '\\' {
			out = append(out, c)
			p.i++
			continue
		}
		if p.i+1 >= len(p.s) {
			break
		}
		e := p.s[p.i+1]
		switch e {
		case '"', '\\', '/':
			out = append(out, e)
		case 'b':
			out = append(out, 8)
		case 'f':
			out = append(out, 12)
		case 'n':
			out = append(out, 10)
		case 'r':
			out = append(out, 13)
		case 't':
			out = append(out, 9)
		case 'u':
			r := p.unicode4()
			if p.bad {
				return ""
			}
			if r >= 0xdc00 && r < 0xe000 {
				p.bad = true
				return ""
			}
			if r >= 0xd800 && r < 0xdc00 {
				l := p.unicode4()
				if p.bad || l < 0xdc00 || l >= 0xe000 {
					p.bad = true
					return ""
				}
				r = (r-0xd800)<<10 | (l - 0xdc00) + 0x10000
			}
			out = utf8.AppendRune(out, r)
			continue
		default:
			p.bad = true
			return ""
		}
		p.i += 2
	}
	p.bad = true
	return ""
}

func (p *ref) number() *node {
	b := p.i
	if p.s[p.i] == '-' {
		p.i++
	}
	if p.i >= len(p.s) || !digit(p.s[p.i]) {
		return p.fail()
	}
	if p.s[p.i] == '0' {
		p.i++
	} else {
		p.digits()
	}
	if p.i < len(p.s) && p.s[p.i] == '.' {
		p.i++
		if p.digits() == 0 {
			return p.fail()
		}
	}
	if p.i < len(p.s) && (p.s[p.i] == 'e' || p.s[p.i] == 'E') {
		p.i++
		if p.i < len(p.s) && (p.s[p.i] == '+' || p.s[p.i] == '-') {
			p.i++
		}
		if p.digits() == 0 {
			return p.fail()
		}
	}
	return &node{kind: "number", s: p.s[b:p.i]}
}

func (p *ref) digits() int {
	n := 0
	for p.i < len(p.s) && digit(p.s[p.i]) {
		p.i++
		n++
	}
	return n
}

// refParse gives the tree of a text and whether it is a JSON object without blanks around it.
func refParse(s string) (*node, bool) {
	if len(s) < 2 || s[0] != '{' || s[len(s)-1] != '}' {
		return nil, false
	}
	p := &ref{s: s}
	n := p.value()
	return n, !p.bad && p.i == len(s)
}

// intLiteral is the value of [-]digits; ok is false outside of -2^63 .. 2^64-1.
func intLiteral(s string) (neg bool, u uint64, ok bool) {
	if s[0] == '-' {
		i, err := strconv.ParseInt(s, 10, 64)
		return true, uint64(i), err == nil
	}
	u, err := strconv.ParseUint(s, 10, 64)
	return false, u, err == nil
}

func plainInt(s string) bool {
	for i := 0; i < len(s); i++ {
		if c := s[i]; c == '.' || c == 'e' || c == 'E' {
			return false
		}
	}
	return true
}

// numberOf gives what a number literal has to be stored as; ok is false if it has to be refused.
func numberOf(lit string) (kind string, u uint64, ok bool) {
	if plainInt(lit) {
		neg, v, ok := intLiteral(lit)
		if !ok {
			return "", 0, false
		}
		return widthOf(neg, v), v, true
	}
	f64, err := strconv.ParseFloat(lit, 64)
	if err != nil {
		return "", 0, false
	}
	f32, err := strconv.ParseFloat(lit, 32)
	if err == nil {
		_, b, _ := rawObj(float32(f32))
		return "float32", b, true
	}
	_, b, _ := rawObj(f64)
	return "float64", b, true
}

// refused tells whether a tree holds a number the parser has to refuse.
func refused(n *node) bool {
	if n.kind == "number" {
		_, _, ok := numberOf(n.s)
		return !ok
	}
	for _, k := range n.kids {
		if refused(k) {
			return true
		}
	}
	return false
}

// expect asserts that a document is what a tree says.
func expect(n *node, m *json.Map) { denotes(n, snapMap(m)) }

func denotes(n, got *node) {
	if n.kind == "number" {
		kind, u, _ := numberOf(n.s)
		sym.Assert(got.kind == kind, "a number is stored in the right type")
		sym.Assert(got.u == u, "a number is read exactly")
		return
	}
	sym.Assert(n.kind == got.kind, "the kind of every value is that of the text")
	switch n.kind {
	case "bool":
		sym.Assert(n.u == got.u, "true is true, false is false")
	case "string":
		sym.Assert(n.s == got.s, "a string is the text its literal denotes")
	}
	sym.Assert(len(n.keys) == len(got.keys), "an object has the keys of the text")
	for i := range n.keys {
		sym.Assert(n.keys[i] == got.keys[i], "keys are those of the text, in order of first appearance")
	}
	sym.Assert(len(n.kids) == len(got.kids), "an array has the elements of the text")
	for i := range n.kids {
		denotes(n.kids[i], got.kids[i])
	}
}

// conform parses a text: if it is standard JSON the document has to be its tree.
func conform(text string) *json.Map {
	m, errs := json.Parse(text)
	n, valid := refParse(text)
	if !valid {
		return m
	}
	sym.Reach("standard JSON")
	if refused(n) {
		sym.Reach("number to refuse")
		sym.Assert(m == nil && len(errs) > 0, "a number out of range is refused")
		return nil
	}
	sym.Assert(m != nil && len(errs) == 0, "standard JSON is accepted")
	expect(n, m)
	return m
}
