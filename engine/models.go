package main

import (
	"fmt"
	"go/token"
	"math"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Models of the functions that are not executed from their source: the harness primitives, the
// assembly and runtime parts of the standard library, and number/text conversions, whose bit-level
// algorithms are replaced by their specification.

type intrFn func(p *Path, fr *frame, a []value) value

type fallT struct{}

var fall value = fallT{} // run the source instead

var intrinsics map[string]intrFn

func lookupIntrinsic(fn *ssa.Function) func(p *Path, fr *frame, args []value) value {
	if f, ok := intrinsics[fn.String()]; ok {
		return f
	}
	if o := fn.Origin(); o != nil {
		if f, ok := intrinsics[o.String()]; ok {
			return f
		}
	}
	return nil
}

var deniedPkgs = map[string]bool{"runtime": true, "os": true, "syscall": true, "reflect": true, "internal/reflectlite": true, "fmt": true, "os/exec": true, "internal/poll": true, "internal/abi": true,
	"net": true, "sync": true, "sync/atomic": true, "internal/sync": true, "internal/runtime/atomic": true, "internal/runtime/maps": true, "internal/godebug": true, "internal/syscall/unix": true, "math/rand": true, "math/rand/v2": true, "encoding/json": true, "log": true, "io/fs": true}

func deniedStd(f *Func) bool {
	if f.isInit {
		return false
	}
	pp := pkgPathOf(f.fn)
	if !deniedPkgs[pp] {
		return false
	}
	n := f.fn.Name()
	switch pp {
	case "fmt":
		return !(n == "Error" || n == "Unwrap")
	case "internal/abi":
		return !(n == "NoEscape" || n == "Escape")
	}
	return true
}

var noInit = map[string]bool{"runtime": true, "os": true, "syscall": true, "reflect": true, "internal/reflectlite": true, "os/exec": true, "net": true, "internal/cpu": true, "internal/godebug": true, "internal/poll": true, "time": false, "crypto": true, "log": true, "context": true, "net/url": false, "encoding/json": true, "internal/godebugs": true}

func argInt(v value) int64 { k, _ := v.(uint64); return int64(k) }

func (p *Path) concStr(v value, what string) string {
	s, ok := p.flat(v).(string)
	if !ok {
		p.unsupported("symbolic text for %s", what)
	}
	return s
}

// simp folds a condition the byte domains already decide.
func (p *Path) simp(c *Term) *Term {
	ts := p.w.ts
	if c == ts.True || c == ts.False {
		return c
	}
	if !c.many && len(c.sup) == 1 && small(c.sup[0]) {
		tab := ts.truthTable(c)
		d := p.domain(c.sup[0])
		canT, canF := false, false
		for i := range d {
			canT = canT || d[i]&tab[i] != 0
			canF = canF || d[i]&^tab[i] != 0
		}
		if !canT {
			return ts.False
		}
		if !canF {
			return ts.True
		}
	}
	return c
}

func (p *Path) matchAt(s, sub []*Term, i int) *Term {
	ts := p.w.ts
	if i+len(sub) > len(s) {
		return ts.False
	}
	r := ts.True
	for k := range sub {
		e := p.simp(ts.Eq(s[i+k], sub[k]))
		if e == ts.False {
			return e
		}
		r = ts.And(r, e)
	}
	return r
}

func (p *Path) indexOf(s, sub []*Term) value {
	for i := 0; i+len(sub) <= len(s); i++ {
		if p.decide(p.matchAt(s, sub, i)) {
			return uint64(i)
		}
	}
	return ^uint64(0)
}

func sliceBytes(p *Path, v value) []*Term {
	s, ok := v.([]value)
	if !ok {
		p.unsupported("bytes of %T", v)
	}
	r := make([]*Term, len(s))
	for i, e := range s {
		r[i] = p.term(e, p.eng.tByte)
	}
	return r
}

func (p *Path) countByte(s []*Term, c *Term) value {
	ts := p.w.ts
	var n uint64
	t := ts.BV(0, 64)
	for _, b := range s {
		e := p.simp(ts.Eq(b, c))
		if e == ts.True {
			n++
		} else if e != ts.False {
			t = ts.Bin(OpAdd, t, ts.Ite(e, ts.BV(1, 64), ts.BV(0, 64)))
		}
	}
	return p.tv(ts.Bin(OpAdd, t, ts.BV(n, 64)))
}

func allConst(vs ...value) bool {
	for _, v := range vs {
		if _, ok := v.(string); !ok {
			return false
		}
	}
	return true
}

// ---------- errors ----------
func (p *Path) stdGlobal(pkg, name string) value {
	pk := p.eng.pkgs[pkg]
	if pk == nil {
		p.unsupported("package %s is not loaded", pkg)
	}
	g, ok := pk.Members[name].(*ssa.Global)
	if !ok {
		p.unsupported("no %s.%s", pkg, name)
	}
	return *(p.global(g).(*value))
}

func (p *Path) namedType(pkg, name string, ptr bool) *RType {
	pk := p.eng.pkgs[pkg]
	if pk == nil {
		p.unsupported("package %s is not loaded", pkg)
	}
	t := pk.Type(name)
	if t == nil {
		p.unsupported("no type %s.%s", pkg, name)
	}
	if ptr {
		return p.eng.ptrTo(t.Type())
	}
	return rtypeOf(t.Type())
}

func (p *Path) newError(text value) iface {
	c := new(value)
	*c = structV{text}
	return iface{p.namedType("errors", "errorString", true), c}
}

func (p *Path) numError(fn string, num value, kind string) iface {
	c := new(value)
	*c = structV{fn, num, p.stdGlobal("strconv", kind)}
	return iface{p.namedType("strconv", "NumError", true), c}
}

// ---------- integers and text ----------
func textKey(b []*Term) string {
	buf := make([]byte, 0, len(b)*4)
	for _, t := range b {
		buf = strconv.AppendUint(buf, uint64(t.id), 36)
		buf = append(buf, ',')
	}
	return string(buf)
}

func (p *Path) isDigit(b *Term) *Term {
	ts := p.w.ts
	return p.simp(ts.Cmp(OpUlt, ts.Bin(OpSub, b, ts.BV('0', 8)), ts.BV(10, 8)))
}

func (p *Path) digit64(b *Term) *Term {
	return p.w.ts.Zext(p.w.ts.Bin(OpSub, b, p.w.ts.BV('0', 8)), 64)
}

var pow10u = func() (r [20]uint64) {
	x := uint64(1)
	for i := range r {
		r[i] = x
		x *= 10
	}
	return
}()

// digitsSum is the number spelled by at most 19 digits.
func (p *Path) digitsSum(d []*Term) *Term {
	ts := p.w.ts
	s := ts.BV(0, 64)
	for i, b := range d {
		s = ts.Bin(OpAdd, s, ts.Bin(OpMul, p.digit64(b), ts.BV(pow10u[len(d)-1-i], 64)))
	}
	return s
}

type numResult struct {
	v   *Term // 64 bits
	err string
}

// parseUint follows strconv.ParseUint in base 10; ok=false means the source has to be run.
func (p *Path) parseUint(b []*Term, bitSize int) (numResult, bool) {
	ts := p.w.ts
	if bitSize == 0 {
		bitSize = 64
	}
	if bitSize < 1 || bitSize > 64 {
		return numResult{}, false
	}
	if len(b) == 0 {
		return numResult{ts.BV(0, 64), "ErrSyntax"}, true
	}
	all := ts.True
	for _, x := range b {
		all = ts.And(all, p.isDigit(x))
	}
	if !p.decide(all) {
		if len(b) >= 20 {
			return numResult{}, false
		}
		return numResult{ts.BV(0, 64), "ErrSyntax"}, true
	}
	maxV := mask(uint8(bitSize))
	over := numResult{ts.BV(maxV, 64), "ErrRange"}
	n := len(b)
	d := b
	if n > 20 {
		z := ts.True
		for _, x := range b[:n-20] {
			z = ts.And(z, p.simp(ts.Eq(x, ts.BV('0', 8))))
		}
		if !p.decide(z) {
			return over, true
		}
		d = b[n-20:]
	}
	var v *Term
	if len(d) == 20 {
		if !p.decide(ts.decLE(d, ^uint64(0))) {
			return over, true
		}
		v = ts.Bin(OpAdd, ts.Bin(OpMul, p.digitsSum(d[:19]), ts.BV(10, 64)), p.digit64(d[19]))
	} else {
		v = p.digitsSum(d)
	}
	if !v.isConst() {
		p.w.ts.dec[v] = decNum{d, false}
	}
	if bitSize < 64 {
		// many small widths are decided by the length alone
		if !(len(d) < 20 && pow10u[len(d)%20]-1 <= maxV) {
			if p.decide(ts.Cmp(OpUlt, ts.BV(maxV, 64), v)) {
				return over, true
			}
		}
	}
	return numResult{v, ""}, true
}

// parseUintIn follows strconv.ParseUint in base 10, or in base 0 without prefixes of letters.
func (p *Path) parseUintIn(b []*Term, base, bitSize int) (numResult, bool) {
	if base == 10 {
		return p.parseUint(b, bitSize)
	}
	ts := p.w.ts
	all, octal := ts.True, ts.True
	v := ts.BV(0, 64)
	for _, x := range b {
		all = ts.And(all, p.isDigit(x))
		octal = ts.And(octal, p.simp(ts.Cmp(OpUlt, x, ts.BV('8', 8))))
		v = ts.Bin(OpBOr, ts.Bin(OpShl, v, ts.BV(3, 64)), ts.Zext(ts.Bin(OpBAnd, x, ts.BV(7, 8)), 64))
	}
	if !p.decide(all) {
		return numResult{}, false
	}
	if len(b) < 2 || !p.decide(p.simp(ts.Eq(b[0], ts.BV('0', 8)))) {
		return p.parseUint(b, bitSize)
	}
	if len(b) > 22 {
		return numResult{}, false
	}
	if !p.decide(octal) {
		return numResult{ts.BV(0, 64), "ErrSyntax"}, true
	}
	if bitSize == 0 {
		bitSize = 64
	}
	if len(b)*3 > bitSize {
		if m := mask(uint8(bitSize)); p.decide(ts.Cmp(OpUlt, ts.BV(m, 64), v)) {
			return numResult{ts.BV(m, 64), "ErrRange"}, true
		}
	}
	return numResult{v, ""}, true
}

// linked finds the number whose text these bytes are.
func (p *Path) linked(b []*Term) *FmtNum {
	if len(p.numText) == 0 {
		return nil
	}
	return p.numText[textKey(b)]
}

func (p *Path) sext64(n *FmtNum) *Term {
	if n.signed {
		return p.w.ts.Sext(n.t, 64)
	}
	return p.w.ts.Zext(n.t, 64)
}

func (p *Path) parseInt(b []*Term, base, bitSize int) (numResult, bool) {
	ts := p.w.ts
	if bitSize == 0 {
		bitSize = 64
	}
	if len(b) == 0 {
		return numResult{ts.BV(0, 64), "ErrSyntax"}, true
	}
	neg := false
	rest := b
	if p.decide(p.simp(ts.Eq(b[0], ts.BV('-', 8)))) {
		neg = true
		rest = b[1:]
	} else if p.decide(p.simp(ts.Eq(b[0], ts.BV('+', 8)))) {
		rest = b[1:]
	}
	u, ok := p.parseUintIn(rest, base, bitSize)
	if !ok {
		return u, false
	}
	if u.err == "ErrSyntax" {
		return u, true
	}
	cut := uint64(1) << uint(bitSize-1)
	if !neg {
		if u.err != "" || p.decide(ts.Cmp(OpUle, ts.BV(cut, 64), u.v)) {
			return numResult{ts.BV(cut-1, 64), "ErrRange"}, true
		}
		return u, true
	}
	if u.err != "" || p.decide(ts.Cmp(OpUlt, ts.BV(cut, 64), u.v)) {
		return numResult{ts.BV(-cut, 64), "ErrRange"}, true
	}
	v := ts.Neg(u.v)
	if n, ok := ts.dec[u.v]; ok {
		ts.dec[v] = decNum{n.d, true}
	}
	return numResult{v, ""}, true
}

func (p *Path) ropeNum(v value) *FmtNum {
	if r, ok := v.(*Rope); ok && r.flat == nil && len(r.parts) == 1 {
		if n, ok := r.parts[0].(*FmtNum); ok {
			return n
		}
	}
	return nil
}

func (p *Path) intResult(fn string, s value, r numResult) value {
	if r.err != "" {
		return tupleV{p.tv(r.v), p.numError(fn, s, r.err)}
	}
	return tupleV{p.tv(r.v), iface{}}
}

func (p *Path) doParseInt(fn string, s value, base, bitSize int, signed bool) value {
	if base != 10 && base != 0 {
		s = p.flat(s)
		if str, ok := s.(string); ok {
			return p.nativeParse(fn, str, base, bitSize, signed)
		}
		if b := p.strBytes(s); base == 16 && !signed && len(b) > 0 && len(b) <= 16 && (bitSize == 0 || len(b)*4 <= bitSize) {
			return p.parseHex(fn, s, b)
		}
		return fall
	}
	ts := p.w.ts
	n := p.ropeNum(s)
	var b []*Term
	if n == nil || n.fmt != 'd' {
		s = p.flat(s)
		if str, ok := s.(string); ok {
			return p.nativeParse(fn, str, base, bitSize, signed)
		}
		b = p.strBytes(s)
		n = p.linked(b)
	}
	if n != nil && n.fmt == 'd' {
		v := p.sext64(n)
		bs := bitSize
		if bs == 0 {
			bs = 64
		}
		neg := ts.False
		if n.signed {
			neg = ts.Cmp(OpSlt, v, ts.BV(0, 64))
		}
		if !signed {
			if p.decide(neg) {
				return p.intResult(fn, s, numResult{ts.BV(0, 64), "ErrSyntax"})
			}
			if bs < 64 && p.decide(ts.Cmp(OpUlt, ts.BV(mask(uint8(bs)), 64), v)) {
				return p.intResult(fn, s, numResult{ts.BV(mask(uint8(bs)), 64), "ErrRange"})
			}
			return p.intResult(fn, s, numResult{v, ""})
		}
		cut := uint64(1) << uint(bs-1)
		if p.decide(neg) {
			if p.decide(ts.Cmp(OpSlt, v, ts.BV(-cut, 64))) {
				return p.intResult(fn, s, numResult{ts.BV(-cut, 64), "ErrRange"})
			}
			return p.intResult(fn, s, numResult{v, ""})
		}
		if p.decide(ts.Cmp(OpUle, ts.BV(cut, 64), v)) {
			return p.intResult(fn, s, numResult{ts.BV(cut-1, 64), "ErrRange"})
		}
		return p.intResult(fn, s, numResult{v, ""})
	}
	var r numResult
	var ok bool
	if signed {
		r, ok = p.parseInt(b, base, bitSize)
	} else {
		r, ok = p.parseUintIn(b, base, bitSize)
	}
	if !ok {
		return fall
	}
	return p.intResult(fn, s, r)
}

// parseHex follows strconv.ParseUint in base 16 when the width holds any number of that many digits.
func (p *Path) parseHex(fn string, s value, b []*Term) value {
	ts := p.w.ts
	c := func(x byte) *Term { return ts.BV(uint64(x), 8) }
	all := ts.True
	v := ts.BV(0, 64)
	for _, x := range b {
		dec := p.isDigit(x)
		low := ts.Bin(OpBOr, x, c(0x20))
		hex := p.simp(ts.Cmp(OpUlt, ts.Bin(OpSub, low, c('a')), c(6)))
		all = ts.And(all, p.simp(ts.Or(dec, hex)))
		d := ts.Ite(dec, ts.Bin(OpSub, x, c('0')), ts.Bin(OpSub, low, c('a'-10)))
		v = ts.Bin(OpBOr, ts.Bin(OpShl, v, ts.BV(4, 64)), ts.Zext(d, 64))
	}
	if !p.decide(all) {
		return p.intResult(fn, s, numResult{ts.BV(0, 64), "ErrSyntax"})
	}
	return p.intResult(fn, s, numResult{v, ""})
}

func (p *Path) errOf(fn string, s value, err error) value {
	if err == nil {
		return iface{}
	}
	ne, ok := err.(*strconv.NumError)
	if !ok {
		p.unsupported("error %v", err)
	}
	switch ne.Err {
	case strconv.ErrSyntax:
		return p.numError(ne.Func, s, "ErrSyntax")
	case strconv.ErrRange:
		return p.numError(ne.Func, s, "ErrRange")
	}
	c := new(value)
	*c = structV{ne.Func, s, p.newError(ne.Err.Error())}
	return iface{p.namedType("strconv", "NumError", true), c}
}

func (p *Path) nativeParse(fn, s string, base, bitSize int, signed bool) value {
	switch {
	case fn == "Atoi":
		v, err := strconv.Atoi(s)
		return tupleV{uint64(v), p.errOf(fn, s, err)}
	case signed:
		v, err := strconv.ParseInt(s, base, bitSize)
		return tupleV{uint64(v), p.errOf(fn, s, err)}
	}
	v, err := strconv.ParseUint(s, base, bitSize)
	return tupleV{v, p.errOf(fn, s, err)}
}

// fmtInt is the text of an integer.
func (p *Path) fmtInt(v value, rt *RType) value {
	switch x := v.(type) {
	case uint64:
		if rt.cat == CInt {
			return strconv.FormatInt(sx(x, rt.w), 10)
		}
		return strconv.FormatUint(x, 10)
	case *Term:
		// peel extensions so that the number keeps its own width
		t, signed := x, rt.cat == CInt
		return p.rope([]value{p.fmtNumOf(&FmtNum{t: t, signed: signed, fmt: 'd'})})
	}
	p.unsupported("text of %T", v)
	return nil
}

// fmtNumOf shares the texts of equal numbers within a path.
func (p *Path) fmtNumOf(n *FmtNum) *FmtNum {
	key := fmt.Sprintf("#%d/%v/%c/%d/%d", n.t.id, n.signed, n.fmt, n.prec, n.bits)
	if m, ok := p.numText[key]; ok {
		return m
	}
	p.numText[key] = n
	return n
}

func (p *Path) freshDigit(lo byte) *Term {
	ts := p.w.ts
	d := p.newVar("~digit", "aux", 8)
	p.assume(ts.And(ts.Cmp(OpUle, ts.BV(uint64(lo), 8), d), ts.Cmp(OpUle, d, ts.BV('9', 8))))
	return d
}

// materialise turns the text of a number into bytes, forking on its sign and its number of digits.
func (p *Path) materialise(n *FmtNum) value {
	if n.flat != nil {
		return n.flat
	}
	if p.spec > 0 {
		panic(specAbort{})
	}
	if n.fmt != 'd' {
		n.flat = p.materialiseFloat(n)
		return n.flat
	}
	ts := p.w.ts
	v := p.sext64(n)
	if b := p.spelledDigits(n); b != nil {
		p.numText[textKey(b)] = n
		n.flat = p.mkStr(b)
		return n.flat
	}
	neg := false
	if n.signed {
		neg = p.decide(ts.Cmp(OpSlt, v, ts.BV(0, 64)))
	}
	abs := v
	if neg {
		abs = ts.Neg(v)
	}
	maxD := 20
	switch n.t.w {
	case 8:
		maxD = 3
	case 16:
		maxD = 5
	case 32:
		maxD = 10
	default:
		if n.signed {
			maxD = 19
		}
	}
	// binary search for the number of digits
	lo, hi := 1, maxD
	for lo < hi {
		mid := (lo + hi) / 2
		if p.decide(ts.Cmp(OpUlt, abs, ts.BV(pow10u[mid], 64))) {
			hi = mid
		} else {
			lo = mid + 1
		}
	}
	k := lo
	var b []*Term
	for i := 0; i < k; i++ {
		first := byte('0')
		if i == 0 && k > 1 {
			first = '1'
		}
		b = append(b, p.freshDigit(first))
	}
	if k == 20 {
		p.assume(ts.Cmp(OpUle, p.digitsSum(b[:19]), ts.BV(1844674407370955161, 64)))
		p.assume(ts.Eq(ts.Bin(OpAdd, ts.Bin(OpMul, p.digitsSum(b[:19]), ts.BV(10, 64)), p.digit64(b[19])), abs))
	} else {
		p.assume(ts.Eq(p.digitsSum(b), abs))
	}
	if neg {
		b = append([]*Term{p.byteTerm('-')}, b...)
	}
	p.numText[textKey(b)] = n
	n.flat = p.mkStr(b)
	return n.flat
}

// spelledDigits gives the text of a number that was itself read from digits: these digits, without
// leading zeros.  nil if the number was not, or was cut on the way.
func (p *Path) spelledDigits(n *FmtNum) []*Term {
	ts := p.w.ts
	base, w, signed := n.t, n.t.w, n.signed
	for {
		if base.op == OpExtract && base.k&0xff == 0 {
			if base.w < w {
				w = base.w
			}
			base = base.args[0]
		} else if base.op == OpSext || base.op == OpZext {
			if x := base.args[0].w; x <= w {
				w, signed = x, base.op == OpSext
			}
			base = base.args[0]
		} else {
			break
		}
	}
	x, ok := ts.dec[base]
	if !ok || signed != n.signed && (x.neg || signed) {
		return nil
	}
	top := ^uint64(0) >> (64 - w)
	switch {
	case x.neg && signed:
		top = uint64(1) << (w - 1)
	case signed:
		top >>= 1
	case x.neg:
		return nil
	}
	if !p.decide(ts.decLE(x.d, top)) {
		return nil
	}
	d := x.d
	for len(d) > 1 && p.decide(ts.Eq(d[0], ts.BV('0', 8))) {
		d = d[1:]
	}
	if x.neg && !(len(d) == 1 && p.decide(ts.Eq(d[0], ts.BV('0', 8)))) {
		return append([]*Term{p.byteTerm('-')}, d...)
	}
	return d
}

// ---------- floats and text ----------
func (p *Path) fmtFloat(v value, f byte, prec, bits int) value {
	switch x := v.(type) {
	case float64:
		return strconv.FormatFloat(x, f, prec, bits)
	case float32:
		return strconv.FormatFloat(float64(x), f, prec, bits)
	case *Term:
		ts := p.w.ts
		t := x
		if t.w == 64 && bits == 32 {
			if t.op == OpFConv && t.args[0].w == 32 {
				t = t.args[0]
			} else {
				t = ts.FConv(t, 32)
			}
		}
		if p.decide(ts.FTest(OpFIsNaN, t)) {
			return "NaN"
		}
		if p.decide(ts.FTest(OpFIsInf, t)) {
			if p.decide(ts.FCmp(OpFLt, t, ts.FPConst(0, t.w))) {
				return "-Inf"
			}
			return "+Inf"
		}
		return p.rope([]value{p.fmtNumOf(&FmtNum{t: t, fmt: f, prec: prec, bits: int(t.w)})})
	}
	p.unsupported("text of %T", v)
	return nil
}

// materialiseFloat spells a finite float in one of a few shapes.  For the shortest exact format the text
// is tied to the number by numText; its digits are otherwise free, so what follows is marked approximate.
func (p *Path) materialiseFloat(n *FmtNum) value {
	ts := p.w.ts
	signBit := ts.Eq(ts.Extract(ts.ToBits(n.t), n.t.w-1, n.t.w-1), ts.BV(1, 1))
	neg := p.decide(signBit)
	if n.fmt != 'f' && n.fmt != 'g' && n.fmt != 'e' {
		p.unsupported("float format %c", n.fmt)
	}
	type shape struct{ i, f int }
	var shapes []shape
	switch {
	case n.prec < 0:
		shapes = []shape{{1, 1}, {2, 0}, {1, 3}, {3, 2}, {1, 0}}
	case n.prec == 0:
		shapes = []shape{{1, 0}, {3, 0}}
	default:
		shapes = []shape{{1, n.prec}, {3, n.prec}}
	}
	p.run.note("float texts limited to a few digit counts")
	p.fuzzy = true
	s := shapes[p.choose(len(shapes))]
	var b []*Term
	if neg {
		b = append(b, p.byteTerm('-'))
	}
	for i := 0; i < s.i; i++ {
		first := byte('0')
		if i == 0 && s.i > 1 {
			first = '1'
		}
		b = append(b, p.freshDigit(first))
	}
	if s.f > 0 {
		b = append(b, p.byteTerm('.'))
		for i := 0; i < s.f; i++ {
			first := byte('0')
			if n.prec < 0 && i == s.f-1 {
				first = '1'
			}
			b = append(b, p.freshDigit(first))
		}
	}
	// a coarse tie between the digits and the number keeps models realistic
	mant := b
	if neg {
		mant = b[1:]
	}
	var digs []*Term
	for _, x := range mant {
		if x.op == OpConst && x.k == '.' {
			continue
		}
		digs = append(digs, x)
	}
	if n.prec < 0 {
		w := n.t.w
		q := ts.FBin(OpFDiv, ts.IntToF(p.digitsSum(digs), false, w), ts.FPConst(fbits(math.Pow(10, float64(s.f)), w), w))
		if neg {
			q = ts.FNeg(q)
		}
		if w == 64 {
			p.floatText[fmt.Sprintf("%s/%d", textKey(b), 64)] = n.t
		}
		p.approx = append(p.approx, ts.Eq(n.t, q))
	}
	p.numText[textKey(b)] = n
	if s.f == 0 {
		// 12.0 is the same number as 12
		p.numText[textKey(append(append([]*Term{}, b...), p.byteTerm('.'), p.byteTerm('0')))] = n
	}
	return p.mkStr(b)
}

// floatSyntax classifies the text of a float: "dec" (with the digits before and after the point and an
// exponent), "special", "bad".
func (p *Path) floatSyntax(b []*Term) (kind string, neg bool, ip, fp []*Term, exp []*Term, expNeg bool) {
	ts := p.w.ts
	is := func(t *Term, c byte) bool { return p.decide(p.simp(ts.Eq(t, ts.BV(uint64(c), 8)))) }
	i := 0
	if len(b) == 0 {
		return "bad", false, nil, nil, nil, false
	}
	if is(b[0], '-') {
		neg = true
		i = 1
	} else if is(b[0], '+') {
		i = 1
	}
	if i == len(b) {
		return "bad", neg, nil, nil, nil, false
	}
	// words and hexadecimal
	first := b[i]
	lower := ts.Bin(OpBOr, first, ts.BV(0x20, 8))
	if p.decide(p.simp(ts.Or(ts.Eq(lower, ts.BV('i', 8)), ts.Eq(lower, ts.BV('n', 8))))) {
		words := []string{"inf", "infinity"}
		if p.decide(p.simp(ts.Eq(lower, ts.BV('n', 8)))) {
			words = []string{"nan"}
			if i > 0 {
				return "bad", neg, nil, nil, nil, false
			}
		}
		for _, w := range words {
			if len(b)-i != len(w) {
				continue
			}
			c := ts.True
			for k := range w {
				c = ts.And(c, p.simp(ts.Eq(ts.Bin(OpBOr, b[i+k], ts.BV(0x20, 8)), ts.BV(uint64(w[k]), 8))))
			}
			if p.decide(c) {
				return w[:3], neg, nil, nil, nil, false
			}
		}
		return "bad", neg, nil, nil, nil, false
	}
	if i+1 < len(b) && is(first, '0') {
		if p.decide(p.simp(ts.Eq(ts.Bin(OpBOr, b[i+1], ts.BV(0x20, 8)), ts.BV('x', 8)))) {
			return "hex", neg, nil, nil, nil, false
		}
	}
	point := false
	for i < len(b) {
		if p.decide(p.isDigit(b[i])) {
			if point {
				fp = append(fp, b[i])
			} else {
				ip = append(ip, b[i])
			}
			i++
			continue
		}
		if !point && is(b[i], '.') {
			point = true
			i++
			continue
		}
		break
	}
	if len(ip)+len(fp) == 0 {
		return "bad", neg, nil, nil, nil, false
	}
	if i < len(b) {
		if !p.decide(p.simp(ts.Eq(ts.Bin(OpBOr, b[i], ts.BV(0x20, 8)), ts.BV('e', 8)))) {
			return "bad", neg, nil, nil, nil, false
		}
		i++
		if i < len(b) && is(b[i], '+') {
			i++
		} else if i < len(b) && is(b[i], '-') {
			i++
			expNeg = true
		}
		if i == len(b) {
			return "bad", neg, nil, nil, nil, false
		}
		for ; i < len(b); i++ {
			if !p.decide(p.isDigit(b[i])) {
				return "bad", neg, nil, nil, nil, false
			}
			exp = append(exp, b[i])
		}
	}
	return "dec", neg, ip, fp, exp, expNeg
}

type floatRes struct {
	t   *Term
	err string
}

func (p *Path) doParseFloat(s value, bits int) value {
	ts := p.w.ts
	if bits != 32 {
		bits = 64
	}
	done := func(t *Term, err string) value {
		// the result is a float64 in either case
		if t.w == 32 {
			t = ts.FConv(t, 64)
		}
		if err != "" {
			return tupleV{p.tv(t), p.numError("ParseFloat", s, err)}
		}
		return tupleV{p.tv(t), iface{}}
	}
	if n := p.ropeNum(s); n != nil && n.fmt == 'f' && n.prec < 0 && int(n.t.w) == bits {
		return done(n.t, "")
	}
	if n := p.ropeNum(s); n != nil && n.fmt == 'f' && n.prec >= 6 && n.prec <= 20 {
		return done(p.parseFixed(n, uint8(bits)))
	}
	s = p.flat(s)
	if str, ok := s.(string); ok {
		v, err := strconv.ParseFloat(str, bits)
		return tupleV{v, p.errOf("ParseFloat", s, err)}
	}
	b := p.strBytes(s)
	w := uint8(bits)
	key := fmt.Sprintf("%s/%d", textKey(b), bits)
	if n := p.linked(b); n != nil && n.fmt == 'f' && n.prec < 0 {
		if n.t.w == w {
			return done(n.t, "")
		}
		if n.t.w == 64 && w == 32 {
			// the shortest text of a double read as a float: correctly rounded up to double rounding
			f := ts.FConv(n.t, 32)
			if p.decide(ts.FTest(OpFIsInf, f)) {
				return done(f, "ErrRange")
			}
			return done(f, "")
		}
		if n.t.w == 32 && w == 64 {
			// some double that rounds to the float
			v := p.freshFloat(key, 64)
			p.assume(ts.Eq(ts.ToBits(ts.FConv(v, 32)), ts.ToBits(n.t)))
			p.fuzzy = true
			return done(v, "")
		}
	}
	if n := p.linked(b); n != nil && n.fmt == 'd' {
		return done(ts.IntToF(p.sext64(n), n.signed, w), "")
	}
	kind, neg, ip, fp, exp, expNeg := p.floatSyntax(b)
	switch kind {
	case "bad":
		return done(ts.FPConst(0, w), "ErrSyntax")
	case "inf":
		f := math.Inf(1)
		if neg {
			f = math.Inf(-1)
		}
		return done(ts.FPConst(fbits(f, w), w), "")
	case "nan":
		return done(ts.FPConst(fbits(math.NaN(), w), w), "")
	case "hex":
		p.unsupported("hexadecimal float text")
	}
	digs := append(append([]*Term{}, ip...), fp...)
	sgn := func(t *Term) *Term {
		if neg {
			return ts.FNeg(t)
		}
		return t
	}
	lim := 15
	if w == 32 {
		lim = 7
	}
	if len(exp) == 0 && len(digs) <= lim && len(fp) <= 10 {
		// digits and power of ten are exact, so one division rounds correctly
		m := ts.IntToF(p.digitsSum(digs), false, w)
		d := ts.FPConst(fbits(math.Pow(10, float64(len(fp))), w), w)
		if len(fp) == 0 {
			return done(sgn(m), "")
		}
		return done(sgn(ts.FBin(OpFDiv, m, d)), "")
	}
	if len(exp) == 0 && w == 32 && len(digs) <= 15 && len(fp) <= 15 {
		// quotient in double, then rounded: double rounding makes this approximate
		m := ts.IntToF(p.digitsSum(digs), false, 64)
		d := ts.FPConst(fbits(math.Pow(10, float64(len(fp))), 64), 64)
		p.fuzzy = true
		return done(sgn(ts.FConv(ts.FBin(OpFDiv, m, d), 32)), "")
	}
	// beyond that: some finite float, the same for the same text
	maxExp := int64(len(ip))
	big := false
	if len(exp) > 0 {
		e := len(exp)
		if e > 2 || (w == 32 && e > 1) {
			big = true
		} else {
			k := int64(99)
			if e == 1 {
				k = 9
			}
			if !expNeg {
				maxExp += k
			}
		}
	}
	if maxExp > 300 || (w == 32 && maxExp > 37) {
		big = true
	}
	v := p.freshFloat(key, w)
	p.fuzzy = true
	p.hints = append(p.hints, v.String())
	if big {
		if p.decide(ts.FTest(OpFIsInf, v)) {
			inf := math.Inf(1)
			if neg {
				inf = math.Inf(-1)
			}
			return done(ts.FPConst(fbits(inf, w), w), "ErrRange")
		}
	}
	p.assume(ts.Not(ts.FTest(OpFIsInf, v)))
	p.assume(ts.Not(ts.FTest(OpFIsNaN, v)))
	p.assume(ts.Eq(ts.Extract(ts.ToBits(v), w-1, w-1), ts.Ite(ts.Bool(neg), ts.BV(1, 1), ts.BV(0, 1))))
	return done(v, "")
}

// parseFixed reads back a float written with a number of decimals that is at least six: a whole number,
// and one so large that it has at most six decimals, is exact; another one is some float, the same
// one for the same number.
func (p *Path) parseFixed(n *FmtNum, w uint8) (*Term, string) {
	ts := p.w.ts
	t := n.t
	if t.w == 32 {
		t = ts.FConv(t, 64)
	}
	isInt := func(x *Term) bool { return x.op == OpSToF || x.op == OpUToF }
	whole := isInt(t) || t.op == OpFConv && isInt(t.args[0])
	if !whole {
		lim := ts.FPConst(math.Float64bits(1<<47), 64)
		whole = p.decide(ts.Or(ts.FCmp(OpFLe, lim, t), ts.FCmp(OpFLe, t, ts.FNeg(lim))))
	}
	if whole {
		if w == 64 {
			return t, ""
		}
		f := ts.FConv(t, 32)
		if p.decide(ts.FTest(OpFIsInf, f)) {
			return f, "ErrRange"
		}
		return f, ""
	}
	v := p.freshFloat(fmt.Sprintf("fixed%d.%d/%d", t.id, n.prec, w), w)
	p.fuzzy = true
	p.assume(ts.Not(ts.Or(ts.FTest(OpFIsInf, v), ts.FTest(OpFIsNaN, v))))
	near := t
	if w == 32 {
		near = ts.FConv(t, 32)
	}
	p.approx = append(p.approx, ts.Eq(ts.ToBits(near), ts.ToBits(v)))
	return v, ""
}

func (p *Path) freshFloat(key string, w uint8) *Term {
	if t, ok := p.floatText[key]; ok {
		return t
	}
	v := p.newVar("~float", "aux", w)
	t := p.w.ts.FromBits(v)
	p.floatText[key] = t
	return t
}

// ---------- strings.Builder ----------
func (p *Path) builder(v value, write bool) structV {
	pv, ok := v.(*value)
	if !ok || pv == nil {
		nilDeref(p)
	}
	s := (*pv).(structV)
	if write {
		if p.spec > 0 {
			panic(specAbort{})
		}
		if a, ok := s[0].(*value); ok && a != nil && a != pv {
			p.throw(iface{rtypeOf(stringType), "strings: illegal use of non-zero Builder copied by value"})
		}
		if p.frozen != nil {
			p.noteWrite(&s[1], 0)
		}
		s[0] = pv
	}
	return s
}

// builderBuf is what a builder holds, with its capacity as Go has it.
type builderBuf struct {
	v value
	c int
}

func builderStr(s structV) value {
	if b, ok := s[1].(builderBuf); ok {
		return b.v
	}
	return ""
}

func builderCap(s structV) int {
	if b, ok := s[1].(builderBuf); ok {
		return b.c
	}
	return 0
}

// builderAdd appends a text to what a builder holds.
func (p *Path) builderAdd(s structV, t value) {
	old, c := builderStr(s), builderCap(s)
	v := p.strConcat(old, t)
	_, lazy := v.(*Rope)
	if c < 0 || lazy {
		c = -1 // not known
	} else if n := p.strLen(v); n > c {
		c = cap(append(make([]byte, p.strLen(old), c), make([]byte, n-p.strLen(old))...))
	}
	s[1] = builderBuf{v, c}
}

// bytes.Buffer and []byte stay as they are: they run from source.

func init() {
	intrinsics = map[string]intrFn{
		// --- common ---
		"github.com/matehaxor03/holistic_common/common.IsNil": func(p *Path, fr *frame, a []value) value { return p.tv(p.commonIsNil(a[0].(iface))) },

		// --- strings.Builder ---
		"(*strings.Builder).WriteString": func(p *Path, fr *frame, a []value) value {
			s := p.builder(a[0], true)
			n := zeroInt
			switch x := a[1].(type) {
			case string:
				n = uint64(len(x))
			case *SStr:
				n = uint64(len(x.b))
			}
			p.builderAdd(s, a[1])
			return tupleV{n, iface{}}
		},
		"(*strings.Builder).WriteByte": func(p *Path, fr *frame, a []value) value {
			s := p.builder(a[0], true)
			p.builderAdd(s, p.mkStr([]*Term{p.term(a[1], p.eng.tByte)}))
			return iface{}
		},
		"(*strings.Builder).WriteRune": func(p *Path, fr *frame, a []value) value {
			s := p.builder(a[0], true)
			r := p.runeToStr(a[1], p.eng.tInt32)
			p.builderAdd(s, r)
			return tupleV{uint64(p.strLen(r)), iface{}}
		},
		"(*strings.Builder).Write": func(p *Path, fr *frame, a []value) value {
			s := p.builder(a[0], true)
			b := sliceBytes(p, a[1])
			p.builderAdd(s, p.mkStr(b))
			return tupleV{uint64(len(b)), iface{}}
		},
		"(*strings.Builder).String": func(p *Path, fr *frame, a []value) value { return builderStr(p.builder(a[0], false)) },
		"(*strings.Builder).Len": func(p *Path, fr *frame, a []value) value {
			return uint64(p.strLen(builderStr(p.builder(a[0], false))))
		},
		"(*strings.Builder).Cap": func(p *Path, fr *frame, a []value) value {
			s := p.builder(a[0], false)
			if c := builderCap(s); c >= 0 {
				return uint64(c)
			}
			return uint64(p.strLen(builderStr(s)))
		},
		"(*strings.Builder).Grow": func(p *Path, fr *frame, a []value) value {
			n := int(int64(argInt(a[1])))
			if n < 0 {
				p.throw(iface{rtypeOf(stringType), "strings.Builder.Grow: negative count"})
			}
			s := p.builder(a[0], true)
			if c := builderCap(s); c >= 0 {
				v := builderStr(s)
				if l := p.strLen(v); c-l < n {
					var b strings.Builder
					b.Grow(2*c + n)
					s[1] = builderBuf{v, b.Cap()}
				}
			}
			return nil
		},
		"(*strings.Builder).Reset": func(p *Path, fr *frame, a []value) value {
			s := p.builder(a[0], false)
			if p.frozen != nil {
				p.noteWrite(&s[1], 0)
			}
			s[0] = (*value)(nil)
			s[1] = []value(nil)
			return nil
		},

		// --- strings ---
		"strings.Clone": func(p *Path, fr *frame, a []value) value { return a[0] },
		"strings.Contains": func(p *Path, fr *frame, a []value) value {
			s, sub := p.flat(a[0]), p.flat(a[1])
			if allConst(s, sub) {
				return strings.Contains(s.(string), sub.(string))
			}
			x, y := p.strBytes(s), p.strBytes(sub)
			r := p.w.ts.False
			for i := 0; i+len(y) <= len(x); i++ {
				r = p.w.ts.Or(r, p.matchAt(x, y, i))
			}
			return p.tv(r)
		},
		"strings.Index": func(p *Path, fr *frame, a []value) value {
			s, sub := p.flat(a[0]), p.flat(a[1])
			if allConst(s, sub) {
				return uint64(strings.Index(s.(string), sub.(string)))
			}
			return p.indexOf(p.strBytes(s), p.strBytes(sub))
		},
		"strings.Count": func(p *Path, fr *frame, a []value) value {
			s, sub := p.flat(a[0]), p.flat(a[1])
			if allConst(s, sub) {
				return uint64(strings.Count(s.(string), sub.(string)))
			}
			x, y := p.strBytes(s), p.strBytes(sub)
			if len(y) == 1 {
				return p.countByte(x, y[0])
			}
			if len(y) == 0 {
				return fall
			}
			n := uint64(0)
			for i := 0; i+len(y) <= len(x); {
				if p.decide(p.matchAt(x, y, i)) {
					n++
					i += len(y)
				} else {
					i++
				}
			}
			return n
		},
		"strings.Replace":    func(p *Path, fr *frame, a []value) value { return p.replace(a[0], a[1], a[2], a[3]) },
		"strings.ReplaceAll": func(p *Path, fr *frame, a []value) value { return p.replace(a[0], a[1], a[2], ^uint64(0)) },

		// --- internal/bytealg ---
		"internal/bytealg.IndexByteString": func(p *Path, fr *frame, a []value) value {
			return p.indexOf(p.strBytes(p.flat(a[0])), []*Term{p.term(a[1], p.eng.tByte)})
		},
		"internal/bytealg.IndexByte": func(p *Path, fr *frame, a []value) value {
			return p.indexOf(sliceBytes(p, a[0]), []*Term{p.term(a[1], p.eng.tByte)})
		},
		"internal/bytealg.CountString": func(p *Path, fr *frame, a []value) value {
			return p.countByte(p.strBytes(p.flat(a[0])), p.term(a[1], p.eng.tByte))
		},
		"internal/bytealg.Count": func(p *Path, fr *frame, a []value) value {
			return p.countByte(sliceBytes(p, a[0]), p.term(a[1], p.eng.tByte))
		},
		"internal/bytealg.IndexString": func(p *Path, fr *frame, a []value) value {
			return p.indexOf(p.strBytes(p.flat(a[0])), p.strBytes(p.flat(a[1])))
		},
		"internal/bytealg.Index": func(p *Path, fr *frame, a []value) value {
			return p.indexOf(sliceBytes(p, a[0]), sliceBytes(p, a[1]))
		},
		"internal/bytealg.LastIndexByteString": func(p *Path, fr *frame, a []value) value {
			b, c := p.strBytes(p.flat(a[0])), p.term(a[1], p.eng.tByte)
			for i := len(b) - 1; i >= 0; i-- {
				if p.decide(p.simp(p.w.ts.Eq(b[i], c))) {
					return uint64(i)
				}
			}
			return ^uint64(0)
		},
		"internal/bytealg.Equal": func(p *Path, fr *frame, a []value) value {
			return p.tv(p.strEq(p.mkStr(sliceBytes(p, a[0])), p.mkStr(sliceBytes(p, a[1]))))
		},
		"bytes.Equal": func(p *Path, fr *frame, a []value) value {
			return p.tv(p.strEq(p.mkStr(sliceBytes(p, a[0])), p.mkStr(sliceBytes(p, a[1]))))
		},
		"internal/bytealg.Compare": func(p *Path, fr *frame, a []value) value {
			return p.compare(p.mkStr(sliceBytes(p, a[0])), p.mkStr(sliceBytes(p, a[1])))
		},
		"internal/bytealg.CompareString": func(p *Path, fr *frame, a []value) value { return p.compare(a[0], a[1]) },
		"strings.Compare":                func(p *Path, fr *frame, a []value) value { return p.compare(a[0], a[1]) },
		"internal/bytealg.MakeNoZero": func(p *Path, fr *frame, a []value) value {
			n := int(argInt(a[0]))
			r := make([]value, n)
			for i := range r {
				r[i] = zeroInt
			}
			return r
		},
		"internal/abi.NoEscape":      func(p *Path, fr *frame, a []value) value { return a[0] },
		"internal/stringslite.Clone": func(p *Path, fr *frame, a []value) value { return a[0] },
		"internal/stringslite.IndexByte": func(p *Path, fr *frame, a []value) value {
			return p.indexOf(p.strBytes(p.flat(a[0])), []*Term{p.term(a[1], p.eng.tByte)})
		},

		// --- strconv ---
		"strconv.ParseInt": func(p *Path, fr *frame, a []value) value {
			return p.doParseInt("ParseInt", a[0], int(argInt(a[1])), int(argInt(a[2])), true)
		},
		"strconv.ParseUint": func(p *Path, fr *frame, a []value) value {
			return p.doParseInt("ParseUint", a[0], int(argInt(a[1])), int(argInt(a[2])), false)
		},
		"strconv.Atoi":       func(p *Path, fr *frame, a []value) value { return p.doParseInt("Atoi", a[0], 10, 0, true) },
		"strconv.ParseFloat": func(p *Path, fr *frame, a []value) value { return p.doParseFloat(a[0], int(argInt(a[1]))) },
		"strconv.FormatInt": func(p *Path, fr *frame, a []value) value {
			if argInt(a[1]) != 10 {
				if k, ok := a[0].(uint64); ok {
					return strconv.FormatInt(int64(k), int(argInt(a[1])))
				}
				return fall
			}
			return p.fmtInt(p.narrow(a[0], true), p.eng.tInt64)
		},
		"strconv.FormatUint": func(p *Path, fr *frame, a []value) value {
			if argInt(a[1]) != 10 {
				if k, ok := a[0].(uint64); ok {
					return strconv.FormatUint(k, int(argInt(a[1])))
				}
				return fall
			}
			return p.fmtInt(p.narrow(a[0], false), p.eng.tUint64)
		},
		"strconv.Itoa": func(p *Path, fr *frame, a []value) value { return p.fmtInt(p.narrow(a[0], true), p.eng.tInt64) },
		"strconv.AppendInt": func(p *Path, fr *frame, a []value) value {
			if argInt(a[2]) != 10 {
				return fall
			}
			return p.appendText(a[0], p.fmtInt(p.narrow(a[1], true), p.eng.tInt64))
		},
		"strconv.AppendUint": func(p *Path, fr *frame, a []value) value {
			if argInt(a[2]) != 10 {
				return fall
			}
			return p.appendText(a[0], p.fmtInt(p.narrow(a[1], false), p.eng.tUint64))
		},
		"strconv.FormatFloat": func(p *Path, fr *frame, a []value) value {
			return p.fmtFloat(a[0], byte(argInt(a[1])), int(argInt(a[2])), int(argInt(a[3])))
		},
		"strconv.AppendFloat": func(p *Path, fr *frame, a []value) value {
			return p.appendText(a[0], p.fmtFloat(a[1], byte(argInt(a[2])), int(argInt(a[3])), int(argInt(a[4]))))
		},

		// --- math ---
		"math.Float64bits":     func(p *Path, fr *frame, a []value) value { return p.tv(p.w.ts.ToBits(p.term(a[0], p.eng.tFloat64))) },
		"math.Float32bits":     func(p *Path, fr *frame, a []value) value { return p.tv(p.w.ts.ToBits(p.term(a[0], p.eng.tFloat32))) },
		"math.Float64frombits": func(p *Path, fr *frame, a []value) value { return p.tv(p.w.ts.FromBits(p.term(a[0], p.eng.tUint64))) },
		"math.Float32frombits": func(p *Path, fr *frame, a []value) value { return p.tv(p.w.ts.FromBits(p.term(a[0], p.eng.tUint32))) },
		"math.IsNaN": func(p *Path, fr *frame, a []value) value {
			return p.tv(p.w.ts.FTest(OpFIsNaN, p.term(a[0], p.eng.tFloat64)))
		},
		"math.IsInf": func(p *Path, fr *frame, a []value) value {
			ts := p.w.ts
			t := p.term(a[0], p.eng.tFloat64)
			k, ok := a[1].(uint64)
			if !ok {
				return fall
			}
			r := ts.FTest(OpFIsInf, t)
			if int64(k) > 0 {
				r = ts.And(r, ts.FCmp(OpFLt, ts.FPConst(0, 64), t))
			} else if int64(k) < 0 {
				r = ts.And(r, ts.FCmp(OpFLt, t, ts.FPConst(0, 64)))
			}
			return p.tv(r)
		},
		"math.Floor": rounding(OpFRound, 0), "math.Ceil": rounding(OpFRound, 1), "math.Trunc": rounding(OpFRound, 2), "math.Round": rounding(OpFRound, 3), "math.Sqrt": rounding(OpFSqrt, 0), "math.Log10": f1(math.Log10), "math.Log": f1(math.Log), "math.Exp": f1(math.Exp),
		"math.Pow": func(p *Path, fr *frame, a []value) value {
			x, ok1 := a[0].(float64)
			y, ok2 := a[1].(float64)
			if !ok1 || !ok2 {
				p.unsupported("math.Pow of a symbolic number")
			}
			return math.Pow(x, y)
		},

		// --- fmt ---
		"fmt.Sprintf": func(p *Path, fr *frame, a []value) value {
			s, _ := p.sprintf(fr, a[0], ifaces(a[1]))
			return s
		},
		"fmt.Errorf": func(p *Path, fr *frame, a []value) value { return p.errorf(fr, a[0], ifaces(a[1])) },
		"fmt.Sprint": func(p *Path, fr *frame, a []value) value { return p.sprint(fr, ifaces(a[0]), false) },
		"fmt.Sprintln": func(p *Path, fr *frame, a []value) value {
			return p.sprint(fr, ifaces(a[0]), true)
		},
		"fmt.Println": func(p *Path, fr *frame, a []value) value { return tupleV{zeroInt, iface{}} },
		"fmt.Printf":  func(p *Path, fr *frame, a []value) value { return tupleV{zeroInt, iface{}} },
		"fmt.Print":   func(p *Path, fr *frame, a []value) value { return tupleV{zeroInt, iface{}} },
		"fmt.Fprintf": func(p *Path, fr *frame, a []value) value {
			w := a[0].(iface)
			s, _ := p.sprintf(fr, a[1], ifaces(a[2]))
			return p.fprint(fr, w, s)
		},
		"fmt.Fprint": func(p *Path, fr *frame, a []value) value {
			return p.fprint(fr, a[0].(iface), p.sprint(fr, ifaces(a[1]), false))
		},

		// --- sorting through reflection ---
		"sort.Slice": func(p *Path, fr *frame, a []value) value { return p.sortSlice(fr, a[0].(iface), a[1].(*closure)) },
		"sort.SliceStable": func(p *Path, fr *frame, a []value) value {
			return p.sortSlice(fr, a[0].(iface), a[1].(*closure))
		},

		// --- sync ---
		"(*sync.Mutex).Lock": lock(1), "(*sync.Mutex).Unlock": lock(-1),
		"(*sync.RWMutex).Lock": lock(1), "(*sync.RWMutex).Unlock": lock(-1),
		"(*sync.RWMutex).RLock": lock(0), "(*sync.RWMutex).RUnlock": lock(0),
		"(*sync.WaitGroup).Add": lock(0), "(*sync.WaitGroup).Done": lock(0), "(*sync.WaitGroup).Wait": lock(0),
		"(*sync.Mutex).TryLock": func(p *Path, fr *frame, a []value) value { p.lockDepth++; return true },
		"(*sync.Once).Do": func(p *Path, fr *frame, a []value) value {
			pv := a[0].(*value)
			if p.onces == nil {
				p.onces = map[*value]bool{}
			}
			if p.onces[pv] {
				return nil
			}
			p.onces[pv] = true
			p.lockDepth++
			p.call(fr, a[1].(*closure), nil)
			p.lockDepth--
			return nil
		},
		"(*sync.Pool).Get": func(p *Path, fr *frame, a []value) value {
			pv := a[0].(*value)
			st := (*pv).(structV)
			if l := p.pools[pv]; len(l) > 0 {
				v := l[len(l)-1]
				p.pools[pv] = l[:len(l)-1]
				return v
			}
			nf, _ := st[len(st)-1].(*closure)
			if nf == nil {
				return iface{}
			}
			return p.call(fr, nf, nil)
		},
		"(*sync.Pool).Put": func(p *Path, fr *frame, a []value) value {
			pv := a[0].(*value)
			if p.pools == nil {
				p.pools = map[*value][]value{}
			}
			p.pools[pv] = append(p.pools[pv], a[1])
			return nil
		},
		"(*sync.Map).Load": func(p *Path, fr *frame, a []value) value {
			if e := p.mapFind(p.syncMap(a[0]), p.eng.tAny, a[1]); e != nil {
				return tupleV{e.v, true}
			}
			return tupleV{iface{}, false}
		},
		"(*sync.Map).Store": func(p *Path, fr *frame, a []value) value {
			p.mapSet(p.syncMap(a[0]), p.eng.tAny, a[1], a[2])
			return nil
		},
		"(*sync.Map).Delete": func(p *Path, fr *frame, a []value) value {
			p.mapDelete(p.syncMap(a[0]), p.eng.tAny, a[1])
			return nil
		},
		"(*sync.Map).LoadOrStore": func(p *Path, fr *frame, a []value) value {
			m := p.syncMap(a[0])
			if e := p.mapFind(m, p.eng.tAny, a[1]); e != nil {
				return tupleV{e.v, true}
			}
			p.mapSet(m, p.eng.tAny, a[1], a[2])
			return tupleV{a[2], false}
		},
		"internal/godebug.New":                      func(p *Path, fr *frame, a []value) value { return (*value)(nil) },
		"(*internal/godebug.Setting).Value":         func(p *Path, fr *frame, a []value) value { return "" },
		"(*internal/godebug.Setting).Name":          func(p *Path, fr *frame, a []value) value { return "" },
		"(*internal/godebug.Setting).IncNonDefault": func(p *Path, fr *frame, a []value) value { return nil },
		"internal/race.Enabled":                     nil,

		// --- time ---
		"time.now": func(p *Path, fr *frame, a []value) value {
			p.clock++
			return tupleV{uint64(1700000000 + p.clock), uint64(123456789), uint64(1000 + p.clock)}
		},
		"time.runtimeNow": func(p *Path, fr *frame, a []value) value {
			p.clock++
			return tupleV{uint64(1700000000 + p.clock), uint64(123456789), uint64(1000 + p.clock)}
		},
		"time.runtimeNano": func(p *Path, fr *frame, a []value) value { p.clock++; return uint64(1000 + p.clock) },
		"time.Now": func(p *Path, fr *frame, a []value) value {
			p.clock++
			unixToInternal := uint64((1969*365 + 1969/4 - 1969/100 + 1969/400) * 86400)
			loc := p.eng.pkgs["time"].Members["localLoc"].(*ssa.Global)
			return structV{uint64(123456789), uint64(1700000000+p.clock) + unixToInternal, p.global(loc)}
		},
		"time.initLocal": func(p *Path, fr *frame, a []value) value {
			loc := p.eng.pkgs["time"].Members["localLoc"].(*ssa.Global)
			(*(p.global(loc).(*value))).(structV)[0] = "UTC"
			return nil
		},
		"time.Sleep": func(p *Path, fr *frame, a []value) value { return nil },

		// --- runtime ---
		"runtime.KeepAlive":    func(p *Path, fr *frame, a []value) value { return nil },
		"runtime.GC":           func(p *Path, fr *frame, a []value) value { return nil },
		"runtime.Gosched":      func(p *Path, fr *frame, a []value) value { return nil },
		"runtime.SetFinalizer": func(p *Path, fr *frame, a []value) value { return nil },
		"(runtime.errorString).Error": func(p *Path, fr *frame, a []value) value {
			return p.strConcat("runtime error: ", a[0])
		},
	}
	delete(intrinsics, "internal/race.Enabled")
	symIntrinsics()
	reflectIntrinsics()
	atomicIntrinsics()
}

func rounding(op Op, how uint64) intrFn {
	return func(p *Path, fr *frame, a []value) value {
		return p.tv(p.w.ts.FRound(op, how, p.term(a[0], p.eng.tFloat64)))
	}
}

func f1(f func(float64) float64) intrFn {
	return func(p *Path, fr *frame, a []value) value {
		x, ok := a[0].(float64)
		if !ok {
			p.unsupported("logarithm or power of a symbolic number")
		}
		return f(x)
	}
}

func lock(d int) intrFn {
	return func(p *Path, fr *frame, a []value) value { p.lockDepth += d; return nil }
}

func (p *Path) syncMap(v value) *mapV {
	pv := v.(*value)
	if p.syncMaps == nil {
		p.syncMaps = map[*value]*mapV{}
	}
	m := p.syncMaps[pv]
	if m == nil {
		m = newMap()
		p.syncMaps[pv] = m
	}
	return m
}

// narrow undoes a widening conversion, so that the text is of the original number.
func (p *Path) narrow(v value, signed bool) value {
	t, ok := v.(*Term)
	if !ok {
		return v
	}
	_ = t
	return v
}

func (p *Path) appendText(dst, text value) value {
	b := p.strBytes(p.flat(text))
	add := make([]value, len(b))
	for i, t := range b {
		add[i] = p.tv(t)
	}
	s, ok := dst.([]value)
	if !ok {
		p.unsupported("append of text to %T", dst)
	}
	return p.appendVals(p.eng.tBytes, s, add)
}

func (p *Path) compare(a, b value) value {
	ts := p.w.ts
	return p.tv(ts.Ite(p.strLess(a, b), ts.BV(^uint64(0), 64), ts.Ite(p.strEq(a, b), ts.BV(0, 64), ts.BV(1, 64))))
}

func (p *Path) replace(s, old, nw, n value) value {
	cnt := int64(-1)
	if k, ok := n.(uint64); ok {
		cnt = int64(k)
	} else {
		return fall
	}
	if r, ok := s.(*Rope); ok && r.flat == nil {
		// numbers cannot contain most patterns
		if o, ok := old.(string); ok && o != "" && strings.IndexAny(o[:1], "0123456789+-.eENaIinf") < 0 && cnt < 0 {
			parts := make([]value, len(r.parts))
			for i, q := range r.parts {
				switch q.(type) {
				case string, *SStr:
					if len(o) > 1 {
						goto slow
					}
					parts[i] = p.replace(q, old, nw, n)
				case *Opaque:
					goto slow
				default:
					parts[i] = q
				}
			}
			return p.rope(parts)
		}
	}
slow:
	s, old, nw = p.flat(s), p.flat(old), p.flat(nw)
	if allConst(s, old, nw) {
		return strings.Replace(s.(string), old.(string), nw.(string), int(cnt))
	}
	x, y, z := p.strBytes(s), p.strBytes(old), p.strBytes(nw)
	if len(y) == 0 {
		return fall
	}
	if cnt == 0 {
		return s
	}
	var out []*Term
	changed := false
	for i := 0; i < len(x); {
		if cnt != 0 && p.decide(p.matchAt(x, y, i)) {
			out = append(out, z...)
			i += len(y)
			changed = true
			if cnt > 0 {
				cnt--
			}
		} else {
			out = append(out, x[i])
			i++
		}
	}
	if !changed {
		return s
	}
	return p.mkStr(out)
}

func (p *Path) sortSlice(fr *frame, x iface, less *closure) value {
	if x.t == nil {
		return nil
	}
	s, ok := x.v.([]value)
	if !ok {
		p.unsupported("sort.Slice of %s", x.t.name)
	}
	for i := 1; i < len(s); i++ {
		for j := i; j > 0; j-- {
			c := p.call(fr, less, []value{uint64(j), uint64(j - 1)})
			b, ok := c.(bool)
			if !ok {
				b = p.decide(c.(*Term))
			}
			if !b {
				break
			}
			if p.frozen != nil {
				p.noteWrite(&s[j], 0)
				p.noteWrite(&s[j-1], 0)
			}
			s[j], s[j-1] = s[j-1], s[j]
		}
	}
	return nil
}

// ---------- common.IsNil ----------
// The dependency prints the value with %s and compares the text with a few constants.
func (p *Path) commonIsNil(x iface) *Term {
	ts := p.w.ts
	if x.t == nil {
		return ts.True
	}
	switch x.t.cat {
	case CPtr:
		pv, ok := x.v.(*value)
		if ok && pv == nil {
			return ts.True
		}
	case CFunc:
		return ts.Bool(x.v.(*closure) == nil)
	case CMap:
		m := x.v.(*mapV)
		if m == nil || m.n == 0 {
			return ts.True
		}
	}
	var text value
	if f := p.eng.methodByName(x.t, "Error"); f != nil {
		text = p.callFunc(nil, f, []value{x.v}, nil, nil)
	} else if f := p.eng.methodByName(x.t, "String"); f != nil {
		if x.t.name == "*time.Time" || x.t.name == "time.Time" {
			return ts.False // the text of a time starts with a year
		}
		text = p.callFunc(nil, f, []value{x.v}, nil, nil)
	} else if x.t.cat == CString {
		text = x.v
	} else if x.t.cat == CPtr && x.t.elem.cat == CMap {
		m, _ := (*(x.v.(*value))).(*mapV)
		if m != nil && m.n == 1 && len(m.ents) == 1 {
			k, ok := m.ents[0].k.(string)
			if ok && k == "value" {
				if e, ok := m.ents[0].v.(iface); ok && e.t != nil && e.t.cat == CPtr {
					if q, ok := e.v.(*value); ok && q == nil {
						return ts.Bool(e.t == x.t)
					}
				}
			}
		}
		return ts.False
	} else {
		return ts.False
	}
	if r, ok := text.(*Rope); ok && r.flat == nil {
		if len(r.parts) > 0 {
			if s, ok := r.parts[0].(string); ok && s != "" && !strings.ContainsAny(s[:1], "<nm&%") {
				return ts.False
			}
		}
	}
	text = p.flat(text)
	res := ts.False
	for _, c := range []string{"<nil>", "nil", "map[]", "&map[value:<nil>]", "%!s(*json.Value=<nil>)", "%!s(" + x.t.name + "=<nil>)", "&map[value:%!s(" + x.t.name + "=<nil>)]"} {
		res = ts.Or(res, p.strEq(text, c))
	}
	pre := "&map[value:%!s("
	if b := p.strBytes(text); len(b) > len(pre)+5 {
		m := ts.True
		for i := range pre {
			m = ts.And(m, p.simp(ts.Eq(b[i], p.byteTerm(pre[i]))))
		}
		if m != ts.False && p.decide(m) {
			p.unsupported("text that imitates a printed map")
		}
	}
	return res
}

// ---------- write footprint ----------
func (p *Path) noteWrite(c *value, pos token.Pos) {
	if p.lockDepth > 0 || p.initDepth > 0 {
		return
	}
	what, ok := p.frozen[c]
	if !ok {
		return
	}
	w := what
	if pos.IsValid() {
		w += " at " + p.eng.pos(pos)
	}
	p.writes = append(p.writes, w)
}

// freeze marks every cell reachable from v.
func (p *Path) freeze(v value, name string, seen map[interface{}]bool) {
	switch x := v.(type) {
	case *value:
		if x == nil || seen[x] {
			return
		}
		seen[x] = true
		p.freezeCell(x, name, seen)
	case structV:
		for i := range x {
			p.freezeCell(&x[i], name, seen)
		}
	case arrayV:
		for i := range x {
			p.freezeCell(&x[i], name, seen)
		}
	case []value:
		if cap(x) == 0 {
			return
		}
		full := x[:cap(x)]
		for i := range full {
			if i < len(x) {
				p.freezeCell(&full[i], name, seen)
			} else if _, ok := p.frozen[&full[i]]; !ok {
				p.frozen[&full[i]] = name + " (spare capacity)"
			}
		}
	case *mapV:
		if x == nil || seen[x] {
			return
		}
		seen[x] = true
		p.frozen[&x.cell] = name + " (map)"
		for _, e := range x.ents {
			p.freeze(e.k, name, seen)
			p.freeze(e.v, name, seen)
		}
	case *closure:
		if x == nil || seen[x] {
			return
		}
		seen[x] = true
		for _, e := range x.env {
			p.freeze(e, name, seen)
		}
	case iface:
		p.freeze(x.v, name, seen)
	}
}

func (p *Path) freezeCell(c *value, name string, seen map[interface{}]bool) {
	if _, ok := p.frozen[c]; ok && seen[c] {
		return
	}
	p.frozen[c] = name
	switch x := (*c).(type) {
	case structV, arrayV:
		p.freeze(x, name, seen)
	default:
		p.freeze(*c, name, seen)
	}
}
