package h

import (
	"strings"

	json "github.com/matehaxor03/holistic_json/json"

	"verifharness/sym"
)

const digits = "0123456789"

// integer checks one literal at one place.
func integer(place int, lit string) {
	m, errs := json.Parse(places[place][0] + lit + places[place][1])
	neg, u, ok := intLiteral(lit)
	if !ok {
		sym.Reach("out of range")
		sym.Assert(m == nil && len(errs) > 0, "an integer literal out of range is refused")
		return
	}
	sym.Assert(m != nil && len(errs) == 0, "an integer literal in range is accepted")
	v := placed(place, m)
	if neg && u == 0 {
		sym.Assert(v.u == 0 && (signed(v.kind) || unsigned(v.kind)), "minus zero is zero")
		return
	}
	sym.Assert(v.kind == widthOf(neg, u), "an integer is stored in the narrowest type")
	sym.Assert(v.u == u, "an integer is read exactly")
	sym.Reach(v.kind)
}

func literal(n int) string {
	lit := sym.StrIn("d", n, digits)
	if n > 1 {
		sym.Assume(lit[0] != '0')
	}
	if sym.Choose("sign", 2) == 1 {
		lit = "-" + lit
	}
	return lit
}

// every integer literal, as a member and as an element
func C04_All() {
	integer(sym.Choose("place", 2), literal(1+sym.Choose("n", sym.Bound("digits", 21, 24))))
}

// other places, with the lengths at which the type changes
func C04_Places() {
	ns := []int{1, 3, 5, 10, 19, 20}
	integer(2+sym.Choose("place", len(places)-2), literal(ns[sym.Choose("n", len(ns))]))
}

// many digits
func C04_Long() {
	integer(sym.Choose("place", 2), literal(25+sym.Choose("n", 3)*sym.Bound("digits, long literals, in steps of", 20, 100)))
}

// the literal among other members and elements
func C04_Neighbours() {
	a, b := literal(1+sym.Choose("n", 3)), literal(1+sym.Choose("n", 3))
	conform(`{"x":` + a + `,"y":[` + b + `,` + a + `],"z":` + b + `}`)
}

// leading zeros, which JSON does not allow: refused, or without meaning
func C04_Zeros() {
	n := 1 + sym.Choose("n", sym.Bound("digits after a zero", 14, 20))
	lit := "0" + sym.StrIn("d", n, digits)
	place := sym.Choose("place", 2)
	if sym.Choose("sign", 2) == 1 {
		lit = "-" + lit
	}
	m, errs := json.Parse(places[place][0] + lit + places[place][1])
	if m == nil {
		sym.Assert(len(errs) > 0, "a text that gives no document gives errors")
		return
	}
	neg, u, ok := intLiteral(lit)
	sym.Assert(ok, "an integer literal out of range is refused")
	if neg && u == 0 {
		return
	}
	sym.Assert(placed(place, m).u == u, "an integer is read exactly")
}

var edges = []string{"0", "9", "10", "127", "128", "129", "255", "256", "257", "999", "1000", "32767", "32768", "32769", "65535", "65536", "65537", "2147483647", "2147483648", "2147483649",
	"4294967295", "4294967296", "4294967297", "9223372036854775807", "9223372036854775808", "9223372036854775809", "18446744073709551615", "18446744073709551616", "18446744073709551617",
	"9999999999999999999", "10000000000000000000", "99999999999999999999", "100000000000000000000"}

// the limits at any depth
func C04_Depth() {
	lit := edges[sym.Choose("edge", len(edges))]
	if sym.Choose("sign", 2) == 1 {
		lit = "-" + lit
	}
	t, e := deep(1+sym.Choose("depth", sym.Bound("depths of an integer", 6, 12)), sym.Choose("pattern", 3))
	if sym.Choose("others", 2) == 1 {
		t, e = t[:len(t)-1]+strings.Replace(t[len(t)-1:], "[", "[1,-300,", 1), strings.Replace(e[:1], "]", ",70000]", 1)+e[1:]
	}
	conform(`{"x":-5,"a":` + t + lit + e + `,"y":300}`)
}

// the limits in large documents
func C04_Context() {
	edge := []string{"128", "256", "9223372036854775808", "18446744073709551615", "18446744073709551616", "65536", "2147483648", "4294967296", "127", "255"}
	lit := edge[sym.Choose("edge", sym.Bound("limits in a large document", 5, len(edge)))]
	if sym.Choose("sign", 2) == 1 {
		lit = "-" + lit
	}
	conform(context(lit))
}

// many leading zeros, and what follows them
func C04_ManyZeros() {
	n := 1 + sym.Choose("n", sym.Bound("leading zeros", 66, 130))
	lit := strings.Repeat("0", n) + sym.StrIn("d", 1, digits)
	place := sym.Choose("place", 2)
	if sym.Choose("sign", 2) == 1 {
		lit = "-" + lit
	}
	m, errs := json.Parse(places[place][0] + lit + places[place][1])
	if m == nil {
		sym.Assert(len(errs) > 0, "a text that gives no document gives errors")
		return
	}
	v := placed(place, m)
	sym.Assert(signed(v.kind) || unsigned(v.kind), "an integer literal is read as an integer")
	_, u, ok := intLiteral(lit)
	sym.Assert(ok && (v.u == u || v.u == -u), "an integer is read exactly")
}

// integers of which one is the beginning of another, and integers of one length
func C04_Alike() {
	n := []int{3, 8, 10, 15, 19}[sym.Choose("n", sym.Bound("digits of the longest", 4, 5))]
	d := sym.StrIn("d", 1, "123456789") + sym.StrIn("e", n-1, digits)
	part := func() string {
		s := d[:[]int{1, n / 2, 7, n - 1, n}[sym.Choose("part", 5)]%(n+1)]
		if s == "" {
			s = d[:2]
		}
		if sym.Choose("change", 2) == 1 {
			s = s[:len(s)-1] + "5"
		}
		return s
	}
	a, b := part(), part()
	sign := []string{"", "-"}[sym.Choose("sign", 2)]
	if sym.Choose("as", 2) == 0 {
		conform(`{"a":[` + sign + a + "," + b + "," + sign + d + "," + a + `]}`)
	} else {
		conform(`{"x":` + a + `,"y":` + sign + b + `,"z":` + d + `,"w":` + b + `}`)
	}
}
