package h

import "verifharness/sym"

// number puts a literal into a document and checks what it is read as.
func number(lit string) {
	f := [][2]string{{`{"a":`, `}`}, {`{"a":[`, `]}`}, {`{"a":[{},`, `],"b":1}`}}[sym.Choose("in", sym.Bound("places of a decimal", 2, 3))]
	conform(f[0] + lit + f[1])
}

func digs(n int) string { return sym.StrIn("d", n, digits) }

func sign() string {
	if sym.Choose("sign", 2) == 1 {
		return "-"
	}
	return ""
}

func whole(n int) string {
	if n == 1 {
		return digs(1)
	}
	return sym.StrIn("l", 1, "123456789") + digs(n-1)
}

// plain decimals
func C08_Plain() {
	i := 1 + sym.Choose("whole", sym.Bound("digits before the point", 3, 5))
	f := 1 + sym.Choose("fraction", sym.Bound("digits after the point", 3, 5))
	number(sign() + whole(i) + "." + digs(f))
}

// decimals with an exponent
func C08_Exponent() {
	t := sign() + whole(1+sym.Choose("whole", 2))
	if sym.Choose("point", 2) == 1 {
		t += "." + digs(1+sym.Choose("fraction", 2))
	}
	t += sym.StrIn("e", 1, "eE") + []string{"", "+", "-"}[sym.Choose("esign", 3)]
	number(t + digs(1+sym.Choose("edigits", sym.Bound("digits of an exponent", 2, 3))))
}

// around the limits of single and double precision
func C08_Limits() {
	lits := []string{
		"340282346638528859811704183484516925440.0", "340282356779733661637539395458142568447.9", "340282356779733661637539395458142568448.0",
		"340282366920938463463374607431768211456.5", "3.4028234663852886e38", "3.4028235677973366e38", "3.4028235677973367e38", "1e39", "1.5e308",
		"1.7976931348623157e308", "1.7976931348623158e308", "1.7976931348623159e308", "2e308", "1e309", "9.9e999", "1e400",
		"1.1754943508222875e-38", "1.401298464324817e-45", "7.006492321624085e-46", "7.1e-46", "1e-46", "4.9e-324", "2e-324", "1e-400",
		"0.1", "16777217.0", "16777216.5", "9007199254740993.0", "0.30000000000000004", "123456789.123456789", "0.0", "0.000001", "0.0000001",
		"1.00000017881393421514957253748434595763683319091796875", "1.00000017881393432617187499", "1.00000017881393432617187500", "1.00000017881393432617187501",
		"179769313486231570814527423731704356798070567525844996598917476803157260780028538760589558632766878171540458953514382464234321326889464182768467546703537516986049910576551282076245490090389328944075868508455133942304583236903222948165808559332123347747979.5",
	}
	number(sign() + lits[sym.Choose("lit", len(lits))])
}

// a limit with its last digits free
func C08_Near() {
	heads := []string{"3.40282", "1.797693134862315", "3.402823466", "1.17549435", "1.4", "7.006", "0.3000000000000000", "1677721", "4.9", "99999.99"}
	tails := []string{"e38", "e308", "e38", "e-38", "e-45", "e-46", "", ".5", "e-324", ""}
	i := sym.Choose("lit", len(heads))
	number(sign() + heads[i] + digs(1+sym.Choose("n", sym.Bound("free last digits of a limit", 1, 2))) + tails[i])
}

// zeros before and after
func C08_Zeros() {
	z := "000000000000000000000000000000000000000000000000"
	n := []int{0, 1, 2, 6, 7, 20, 44, 45, 46}[sym.Choose("zeros", 9)]
	d := sym.StrIn("d", 1+sym.Choose("n", 2), "0159")
	switch sym.Choose("where", 3) {
	case 0:
		number(sign() + "0." + z[:n] + d)
	case 1:
		number(sign() + sym.StrIn("d", 1, "159") + z[:n] + "." + d)
	case 2:
		number(sign() + "1." + d + z[:n])
	}
}

// one free digit in a long literal
func C08_Long() {
	t := []string{"123456789012345678901234567890.5", "0.123456789012345678901234567890", "1.5000000000000000000001", "3.14159265358979323846", "31415926535897932384.6e-10"}[sym.Choose("lit", 5)]
	at := sym.Choose("at", sym.Bound("position of the free digit", 12, 20))
	sym.Assume(digit(t[at]))
	c := sym.StrIn("d", 1, digits)
	number(sign() + t[:at] + c + t[at+1:])
}

// decimals in large documents
func C08_Context() {
	d := digs(1)
	lit := []string{d + ".5", "-0." + d, "1." + d + "e3", "1e-" + d, d + "e3" + d, "0.1", "16777217.0", "3.4028236e38", "1e39", "0.0"}[sym.Choose("literal", 10)]
	conform(context(lit))
}

// several decimals of every form in one document
func C08_Several() {
	forms := func() string {
		d := sym.StrIn("d", 1, digits)
		return []string{d + ".5", "1" + d + "e3", "1.5e-" + d, "-2." + d + "E+2", "7"}[sym.Choose("form", 5)]
	}
	n := 2 + sym.Choose("n", sym.Bound("decimals of a document, beyond one", 2, 3))
	inside := sym.Choose("object", 2) == 1
	t := ""
	for i := 0; i < n; i++ {
		if i > 0 {
			t += ","
		}
		if inside {
			t += `"` + string(rune('a'+i)) + `":`
		}
		t += forms()
	}
	if inside {
		conform("{" + t + "}")
	} else {
		conform(`{"a":[` + t + `]}`)
	}
}
