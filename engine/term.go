package main

import (
	"fmt"
	"math"
	"math/bits"
	"strconv"
	"strings"
)

// Terms are hash-consed SMT expressions.  Widths of bit-vectors are 1..64.
type Op uint8

const (
	OpConst Op = iota // BV/Bool/FP constant in k
	OpVar             // BV variable (name)
	OpNot
	OpAnd
	OpOr
	OpIte
	OpEq // any sort but FP
	OpAdd
	OpSub
	OpMul
	OpUDiv
	OpSDiv
	OpURem
	OpSRem
	OpBAnd
	OpBOr
	OpBXor
	OpBNot
	OpNeg
	OpShl
	OpLshr
	OpAshr
	OpUlt
	OpUle
	OpSlt
	OpSle
	OpExtract // k = hi<<8|lo
	OpConcat
	OpZext
	OpSext
	OpFromBits // BV -> FP
	OpToBits   // FP -> BV
	OpFAdd
	OpFSub
	OpFMul
	OpFDiv
	OpFNeg
	OpFRound // to an integral number, k: 0 down, 1 up, 2 to zero, 3 to the nearest, away from zero
	OpFSqrt
	OpFEq
	OpFLt
	OpFLe
	OpFIsNaN
	OpFIsInf
	OpFIsNeg
	OpFConv // FP -> FP
	OpSToF  // signed BV -> FP
	OpUToF  // unsigned BV -> FP
	OpFToS  // FP -> signed BV (round to zero)
	OpFToU
)

type Sort uint8

const (
	SBool Sort = iota
	SBV
	SFP // w = 32 or 64
)

type Term struct {
	id   int32
	op   Op
	sort Sort
	w    uint8
	k    uint64
	args []*Term
	name string
	sup  []*Term // variables the term depends on, at most maxSup; nil if many
	many bool
	tt   *[4]uint64 // truth table over the only variable (width<=8), for Bool terms
}

const maxSup = 2

type termKey struct {
	op         Op
	sort       Sort
	w          uint8
	k          uint64
	a0, a1, a2 int32
	name       string
}

type Terms struct {
	tab         map[termKey]*Term
	next        int32
	True, False *Term
	dec         map[*Term]decNum // numbers spelled by digits, on the current path
}

// decNum says that a 64-bit term is the number, or its negation, that decimal digits spell; the digits
// are known to be digits and the number to fit 64 bits.
type decNum struct {
	d   []*Term
	neg bool
}

// decLE compares the number spelled by digits with a constant, digit by digit.
func (ts *Terms) decLE(d []*Term, k uint64) *Term {
	t := strconv.FormatUint(k, 10)
	if len(t) > len(d) {
		return ts.True
	}
	for len(t) < len(d) {
		t = "0" + t
	}
	le := ts.True
	for i := len(d) - 1; i >= 0; i-- {
		c := ts.BV(uint64(t[i]), 8)
		lt := ts.Cmp(OpUlt, d[i], c)
		le = ts.Or(lt, ts.And(ts.Eq(d[i], c), le))
	}
	return le
}

// decCmp is v <= k, unsigned or signed, for a number spelled by digits.
func (ts *Terms) decCmp(op Op, n decNum, k uint64) *Term {
	const top = uint64(1) << 63
	le := func(x uint64) *Term { return ts.decLE(n.d, x) }
	if op == OpUle {
		if !n.neg {
			return le(k)
		}
		if k == 0 {
			return le(0)
		}
		return ts.Or(le(0), ts.Not(le(^k)))
	}
	if !n.neg {
		if k < top {
			return ts.Or(le(k), ts.Not(le(top-1)))
		}
		return ts.And(le(k), ts.Not(le(top-1)))
	}
	if k >= top {
		return ts.And(le(top), ts.Not(le(-k-1)))
	}
	if k == 0 {
		return le(top)
	}
	return ts.Or(le(top), ts.Not(le(^k)))
}

func NewTerms() *Terms {
	ts := &Terms{tab: map[termKey]*Term{}}
	ts.True = ts.mk(OpConst, SBool, 1, 1, "")
	ts.False = ts.mk(OpConst, SBool, 1, 0, "")
	return ts
}

func (ts *Terms) mk(op Op, sort Sort, w uint8, k uint64, name string, args ...*Term) *Term {
	key := termKey{op: op, sort: sort, w: w, k: k, a0: -1, a1: -1, a2: -1, name: name}
	if len(args) > 0 {
		key.a0 = args[0].id
	}
	if len(args) > 1 {
		key.a1 = args[1].id
	}
	if len(args) > 2 {
		key.a2 = args[2].id
	}
	if t, ok := ts.tab[key]; ok {
		return t
	}
	t := &Term{id: ts.next, op: op, sort: sort, w: w, k: k, name: name}
	ts.next++
	if len(args) > 0 {
		t.args = append([]*Term(nil), args...)
	}
	if op == OpVar {
		t.sup = []*Term{t}
	} else {
		for _, a := range args {
			if a.many {
				t.many = true
				t.sup = nil
				break
			}
			for _, v := range a.sup {
				found := false
				for _, x := range t.sup {
					if x == v {
						found = true
					}
				}
				if !found {
					t.sup = append(t.sup, v)
				}
			}
			if len(t.sup) > maxSup {
				t.many = true
				t.sup = nil
				break
			}
		}
	}
	ts.tab[key] = t
	return t
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return 1<<w - 1
}
func sx(k uint64, w uint8) int64 {
	if w >= 64 {
		return int64(k)
	}
	return int64(k<<(64-w)) >> (64 - w)
}

func (ts *Terms) Var(name string, w uint8) *Term  { return ts.mk(OpVar, SBV, w, 0, name) }
func (ts *Terms) BoolVar(name string) *Term       { return ts.mk(OpVar, SBool, 1, 0, name) }
func (ts *Terms) BV(k uint64, w uint8) *Term      { return ts.mk(OpConst, SBV, w, k&mask(w), "") }
func (ts *Terms) FPConst(k uint64, w uint8) *Term { return ts.mk(OpConst, SFP, w, k, "") }
func (ts *Terms) Bool(b bool) *Term {
	if b {
		return ts.True
	}
	return ts.False
}
func (t *Term) isConst() bool { return t.op == OpConst }

func (ts *Terms) Not(a *Term) *Term {
	if a.isConst() {
		return ts.Bool(a.k == 0)
	}
	if a.op == OpNot {
		return a.args[0]
	}
	return ts.mk(OpNot, SBool, 1, 0, "", a)
}
func (ts *Terms) And(a, b *Term) *Term {
	if a == ts.False || b == ts.False {
		return ts.False
	}
	if a == ts.True {
		return b
	}
	if b == ts.True || a == b {
		return a
	}
	if ts.Not(a) == b {
		return ts.False
	}
	return ts.mk(OpAnd, SBool, 1, 0, "", a, b)
}
func (ts *Terms) Or(a, b *Term) *Term {
	if a == ts.True || b == ts.True {
		return ts.True
	}
	if a == ts.False {
		return b
	}
	if b == ts.False || a == b {
		return a
	}
	if ts.Not(a) == b {
		return ts.True
	}
	return ts.mk(OpOr, SBool, 1, 0, "", a, b)
}
func (ts *Terms) Ite(c, a, b *Term) *Term {
	if c == ts.True {
		return a
	}
	if c == ts.False {
		return b
	}
	if a == b {
		return a
	}
	if a.sort == SBool {
		if a == ts.True {
			return ts.Or(c, b)
		}
		if a == ts.False {
			return ts.And(ts.Not(c), b)
		}
		if b == ts.True {
			return ts.Or(ts.Not(c), a)
		}
		if b == ts.False {
			return ts.And(c, a)
		}
	}
	return ts.mk(OpIte, a.sort, a.w, 0, "", c, a, b)
}
func (ts *Terms) Eq(a, b *Term) *Term {
	if a == b {
		return ts.True
	}
	if a.isConst() && b.isConst() {
		return ts.Bool(a.k == b.k)
	}
	if a.isConst() {
		a, b = b, a
	}
	if a.sort == SBV {
		// an integer equals its truncation exactly when it is in range
		for _, x := range [2][2]*Term{{a, b}, {b, a}} {
			e, full := x[0], x[1]
			if (e.op == OpZext || e.op == OpSext) && e.args[0].op == OpExtract && e.args[0].k&0xff == 0 && e.args[0].args[0] == full {
				n := e.args[0].w
				if e.op == OpZext {
					return ts.Cmp(OpUle, full, ts.BV(mask(n), full.w))
				}
				h := uint64(1) << (n - 1)
				return ts.And(ts.Cmp(OpSle, full, ts.BV(h-1, full.w)), ts.Cmp(OpSle, ts.BV(-h, full.w), full))
			}
		}
	}
	if b.isConst() {
		if a.sort == SBool {
			if b.k == 1 {
				return a
			}
			return ts.Not(a)
		}
		if n, ok := ts.dec[a]; ok {
			k := b.k
			if n.neg {
				k = -k
			}
			t := strconv.FormatUint(k, 10)
			if len(t) > len(n.d) {
				return ts.False
			}
			for len(t) < len(n.d) {
				t = "0" + t
			}
			eq := ts.True
			for i, d := range n.d {
				eq = ts.And(eq, ts.Eq(d, ts.BV(uint64(t[i]), 8)))
			}
			return eq
		}
		switch a.op {
		case OpZext:
			x := a.args[0]
			if b.k > mask(x.w) {
				return ts.False
			}
			return ts.Eq(x, ts.BV(b.k, x.w))
		case OpSext:
			x := a.args[0]
			if uint64(sx(b.k&mask(x.w), x.w))&mask(a.w) != b.k {
				return ts.False
			}
			return ts.Eq(x, ts.BV(b.k, x.w))
		case OpIte:
			if a.args[1].isConst() || a.args[2].isConst() {
				return ts.Ite(a.args[0], ts.Eq(a.args[1], b), ts.Eq(a.args[2], b))
			}
		case OpAdd:
			if a.args[1].isConst() {
				return ts.Eq(a.args[0], ts.BV(b.k-a.args[1].k, a.w))
			}
		case OpConcat:
			lo := a.args[1].w
			return ts.And(ts.Eq(a.args[0], ts.BV(b.k>>lo, a.args[0].w)), ts.Eq(a.args[1], ts.BV(b.k, lo)))
		}
	} else if (a.op == OpZext || a.op == OpSext) && b.op == a.op && a.args[0].w == b.args[0].w {
		return ts.Eq(a.args[0], b.args[0])
	}
	if a.id > b.id && !b.isConst() {
		a, b = b, a
	}
	return ts.mk(OpEq, SBool, 1, 0, "", a, b)
}

func foldBV(op Op, a, b uint64, w uint8) (uint64, bool) {
	m := mask(w)
	switch op {
	case OpAdd:
		return (a + b) & m, true
	case OpSub:
		return (a - b) & m, true
	case OpMul:
		return (a * b) & m, true
	case OpUDiv:
		if b == 0 {
			return m, true
		}
		return a / b, true
	case OpURem:
		if b == 0 {
			return a, true
		}
		return a % b, true
	case OpSDiv:
		x, y := sx(a, w), sx(b, w)
		if y == 0 {
			if x < 0 {
				return 1, true
			}
			return m, true
		}
		if y == -1 {
			return uint64(-x) & m, true
		}
		return uint64(x/y) & m, true
	case OpSRem:
		x, y := sx(a, w), sx(b, w)
		if y == 0 {
			return a, true
		}
		if y == -1 {
			return 0, true
		}
		return uint64(x%y) & m, true
	case OpBAnd:
		return a & b, true
	case OpBOr:
		return a | b, true
	case OpBXor:
		return a ^ b, true
	case OpShl:
		if b >= uint64(w) {
			return 0, true
		}
		return (a << b) & m, true
	case OpLshr:
		if b >= uint64(w) {
			return 0, true
		}
		return a >> b, true
	case OpAshr:
		x := sx(a, w)
		if b >= uint64(w) {
			b = uint64(w) - 1
		}
		return uint64(x>>b) & m, true
	}
	return 0, false
}

// Bin builds a BV arithmetic term.
func (ts *Terms) Bin(op Op, a, b *Term) *Term {
	w := a.w
	if a.isConst() && b.isConst() {
		k, _ := foldBV(op, a.k, b.k, w)
		return ts.BV(k, w)
	}
	switch op {
	case OpAdd:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if b.k == 0 {
				return a
			}
			if a.op == OpAdd && a.args[1].isConst() {
				return ts.Bin(OpAdd, a.args[0], ts.BV(a.args[1].k+b.k, w))
			}
		}
	case OpSub:
		if b.isConst() {
			return ts.Bin(OpAdd, a, ts.BV(-b.k, w))
		}
		if a == b {
			return ts.BV(0, w)
		}
	case OpMul:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if b.k == 0 {
				return b
			}
			if b.k == 1 {
				return a
			}
		}
	case OpBAnd:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if b.k == 0 {
				return b
			}
			if b.k == mask(w) {
				return a
			}
		}
		if a == b {
			return a
		}
	case OpBOr, OpBXor:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() && b.k == 0 {
			return a
		}
		if a == b {
			if op == OpBOr {
				return a
			}
			return ts.BV(0, w)
		}
	case OpShl, OpLshr, OpAshr:
		if b.isConst() && b.k == 0 {
			return a
		}
		if b.isConst() && b.k >= uint64(w) && op != OpAshr {
			return ts.BV(0, w)
		}
	case OpUDiv, OpSDiv:
		if b.isConst() && b.k == 1 {
			return a
		}
	}
	return ts.mk(op, SBV, w, 0, "", a, b)
}
func (ts *Terms) BNot(a *Term) *Term {
	if a.isConst() {
		return ts.BV(^a.k, a.w)
	}
	return ts.mk(OpBNot, SBV, a.w, 0, "", a)
}
func (ts *Terms) Neg(a *Term) *Term {
	if a.isConst() {
		return ts.BV(-a.k, a.w)
	}
	if a.op == OpNeg {
		return a.args[0]
	}
	return ts.mk(OpNeg, SBV, a.w, 0, "", a)
}

func cmpFold(op Op, a, b uint64, w uint8) bool {
	switch op {
	case OpUlt:
		return a < b
	case OpUle:
		return a <= b
	case OpSlt:
		return sx(a, w) < sx(b, w)
	case OpSle:
		return sx(a, w) <= sx(b, w)
	}
	panic("cmpFold")
}

func (ts *Terms) Cmp(op Op, a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return ts.Bool(cmpFold(op, a.k, b.k, a.w))
	}
	if a == b {
		return ts.Bool(op == OpUle || op == OpSle)
	}
	if len(ts.dec) > 0 && a.w == 64 {
		strict := op == OpUlt || op == OpSlt
		le := OpUle
		lo, hi := uint64(0), ^uint64(0)
		if op == OpSlt || op == OpSle {
			le, lo, hi = OpSle, 1<<63, 1<<63-1
		}
		if n, ok := ts.dec[a]; ok && b.isConst() {
			if !strict {
				return ts.decCmp(le, n, b.k)
			}
			if b.k == lo {
				return ts.False
			}
			return ts.decCmp(le, n, b.k-1)
		}
		if n, ok := ts.dec[b]; ok && a.isConst() {
			if strict {
				if a.k == hi {
					return ts.False
				}
				return ts.Not(ts.decCmp(le, n, a.k))
			}
			if a.k == lo {
				return ts.True
			}
			return ts.Not(ts.decCmp(le, n, a.k-1))
		}
	}
	// signed comparisons of zero-extended values
	isz := func(t *Term) bool {
		return t.op == OpZext || (t.isConst() && sx(t.k, t.w) >= 0)
	}
	if (op == OpSlt || op == OpSle) && isz(a) && isz(b) {
		if op == OpSlt {
			op = OpUlt
		} else {
			op = OpUle
		}
	}
	if op == OpSlt || op == OpSle {
		// range reasoning for sext / zext against constants
		if a.op == OpZext && b.isConst() { // b negative here
			return ts.False
		}
		if b.op == OpZext && a.isConst() {
			return ts.True
		}
		if a.op == OpSext && b.isConst() {
			lo, hi := -(int64(1) << (a.args[0].w - 1)), int64(1)<<(a.args[0].w-1)-1
			bk := sx(b.k, b.w)
			if bk > hi {
				return ts.True
			}
			if bk < lo {
				return ts.False
			}
			return ts.Cmp(op, a.args[0], ts.BV(uint64(bk), a.args[0].w))
		}
		if b.op == OpSext && a.isConst() {
			lo, hi := -(int64(1) << (b.args[0].w - 1)), int64(1)<<(b.args[0].w-1)-1
			ak := sx(a.k, a.w)
			if ak > hi {
				return ts.False
			}
			if ak < lo {
				return ts.True
			}
			return ts.Cmp(op, ts.BV(uint64(ak), b.args[0].w), b.args[0])
		}
		if a.op == OpSext && b.op == OpSext && a.args[0].w == b.args[0].w {
			return ts.Cmp(op, a.args[0], b.args[0])
		}
	}
	if op == OpUlt || op == OpUle {
		if a.op == OpZext && b.isConst() {
			m := mask(a.args[0].w)
			if b.k > m {
				return ts.True
			}
			return ts.Cmp(op, a.args[0], ts.BV(b.k, a.args[0].w))
		}
		if b.op == OpZext && a.isConst() {
			m := mask(b.args[0].w)
			if a.k > m {
				return ts.False
			}
			return ts.Cmp(op, ts.BV(a.k, b.args[0].w), b.args[0])
		}
		if a.op == OpZext && b.op == OpZext && a.args[0].w == b.args[0].w {
			return ts.Cmp(op, a.args[0], b.args[0])
		}
		if b.isConst() {
			if op == OpUlt && b.k == 0 {
				return ts.False
			}
			if op == OpUle && b.k == mask(b.w) {
				return ts.True
			}
			if op == OpUlt { // canonical: a <= k-1
				return ts.Cmp(OpUle, a, ts.BV(b.k-1, b.w))
			}
		}
		if a.isConst() {
			if op == OpUle && a.k == 0 {
				return ts.True
			}
			if op == OpUlt {
				if a.k == mask(a.w) {
					return ts.False
				}
				return ts.Not(ts.Cmp(OpUle, b, a))
			}
			// k <= b  ==  !(b <= k-1)
			return ts.Not(ts.Cmp(OpUle, b, ts.BV(a.k-1, a.w)))
		}
	}
	if op == OpSlt {
		return ts.Not(ts.Cmp(OpSle, b, a))
	}
	if op == OpUlt {
		return ts.Not(ts.Cmp(OpUle, b, a))
	}
	return ts.mk(op, SBool, 1, 0, "", a, b)
}

func (ts *Terms) Extract(a *Term, hi, lo uint8) *Term {
	w := hi - lo + 1
	if w == a.w {
		return a
	}
	if a.isConst() {
		return ts.BV(a.k>>lo, w)
	}
	if _, ok := ts.dec[a]; ok {
		return ts.mk(OpExtract, SBV, w, uint64(hi)<<8|uint64(lo), "", a)
	}
	switch a.op {
	case OpZext, OpSext:
		x := a.args[0]
		if hi < x.w {
			return ts.Extract(x, hi, lo)
		}
		if a.op == OpZext && lo >= x.w {
			return ts.BV(0, w)
		}
		if lo == 0 {
			if a.op == OpZext {
				return ts.Zext(x, w)
			}
			return ts.Sext(x, w)
		}
	case OpExtract:
		l := uint8(a.k & 255)
		return ts.Extract(a.args[0], hi+l, lo+l)
	case OpConcat:
		lw := a.args[1].w
		if hi < lw {
			return ts.Extract(a.args[1], hi, lo)
		}
		if lo >= lw {
			return ts.Extract(a.args[0], hi-lw, lo-lw)
		}
	case OpIte:
		if a.args[1].isConst() || a.args[2].isConst() {
			return ts.Ite(a.args[0], ts.Extract(a.args[1], hi, lo), ts.Extract(a.args[2], hi, lo))
		}
	case OpBAnd, OpBOr, OpBXor:
		return ts.Bin(a.op, ts.Extract(a.args[0], hi, lo), ts.Extract(a.args[1], hi, lo))
	case OpAdd, OpSub, OpMul:
		if lo == 0 {
			return ts.Bin(a.op, ts.Extract(a.args[0], hi, 0), ts.Extract(a.args[1], hi, 0))
		}
	}
	return ts.mk(OpExtract, SBV, w, uint64(hi)<<8|uint64(lo), "", a)
}
func (ts *Terms) Concat(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return ts.BV(a.k<<b.w|b.k, a.w+b.w)
	}
	if a.isConst() && a.k == 0 {
		return ts.Zext(b, a.w+b.w)
	}
	return ts.mk(OpConcat, SBV, a.w+b.w, 0, "", a, b)
}
func (ts *Terms) Zext(a *Term, w uint8) *Term {
	if w == a.w {
		return a
	}
	if a.isConst() {
		return ts.BV(a.k, w)
	}
	if a.op == OpZext {
		return ts.Zext(a.args[0], w)
	}
	if a.op == OpIte && a.args[1].isConst() && a.args[2].isConst() {
		return ts.Ite(a.args[0], ts.Zext(a.args[1], w), ts.Zext(a.args[2], w))
	}
	return ts.mk(OpZext, SBV, w, 0, "", a)
}
func (ts *Terms) Sext(a *Term, w uint8) *Term {
	if w == a.w {
		return a
	}
	if a.isConst() {
		return ts.BV(uint64(sx(a.k, a.w)), w)
	}
	if a.op == OpSext {
		return ts.Sext(a.args[0], w)
	}
	if a.op == OpZext {
		return ts.Zext(a.args[0], w)
	}
	return ts.mk(OpSext, SBV, w, 0, "", a)
}

// Resize converts an integer term of the given signedness to width w.
func (ts *Terms) Resize(a *Term, signed bool, w uint8) *Term {
	if w == a.w {
		return a
	}
	if w < a.w {
		return ts.Extract(a, w-1, 0)
	}
	if signed {
		return ts.Sext(a, w)
	}
	return ts.Zext(a, w)
}

// --- floating point ---
func fval(k uint64, w uint8) float64 {
	if w == 32 {
		return float64(math.Float32frombits(uint32(k)))
	}
	return math.Float64frombits(k)
}
func fbits(f float64, w uint8) uint64 {
	if w == 32 {
		return uint64(math.Float32bits(float32(f)))
	}
	return math.Float64bits(f)
}

func (ts *Terms) FromBits(a *Term) *Term {
	if a.isConst() {
		return ts.FPConst(a.k, a.w)
	}
	if a.op == OpToBits {
		return a.args[0]
	}
	return ts.mk(OpFromBits, SFP, a.w, 0, "", a)
}
func (ts *Terms) ToBits(a *Term) *Term {
	if a.isConst() {
		return ts.BV(a.k, a.w)
	}
	if a.op == OpFromBits {
		return a.args[0]
	}
	return ts.mk(OpToBits, SBV, a.w, 0, "", a)
}
func foldF(op Op, a, b uint64, w uint8) uint64 {
	if w == 32 {
		x, y := math.Float32frombits(uint32(a)), math.Float32frombits(uint32(b))
		var r float32
		switch op {
		case OpFAdd:
			r = x + y
		case OpFSub:
			r = x - y
		case OpFMul:
			r = x * y
		case OpFDiv:
			r = x / y
		}
		return uint64(math.Float32bits(r))
	}
	x, y := math.Float64frombits(a), math.Float64frombits(b)
	var r float64
	switch op {
	case OpFAdd:
		r = x + y
	case OpFSub:
		r = x - y
	case OpFMul:
		r = x * y
	case OpFDiv:
		r = x / y
	}
	return math.Float64bits(r)
}
func (ts *Terms) FBin(op Op, a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return ts.FPConst(foldF(op, a.k, b.k, a.w), a.w)
	}
	return ts.mk(op, SFP, a.w, 0, "", a, b)
}
func (ts *Terms) FNeg(a *Term) *Term {
	if a.isConst() {
		return ts.FPConst(a.k^(1<<(a.w-1)), a.w)
	}
	return ts.mk(OpFNeg, SFP, a.w, 0, "", a)
}

// FRound is a rounded to an integral number, or the root of a.
func (ts *Terms) FRound(op Op, how uint64, a *Term) *Term {
	if a.isConst() {
		return ts.FPConst(roundF(op, how, a.k, a.w), a.w)
	}
	return ts.mk(op, SFP, a.w, how, "", a)
}

func roundF(op Op, how, k uint64, w uint8) uint64 {
	if op == OpFSqrt {
		return fbits(math.Sqrt(fval(k, w)), w)
	}
	return fbits([]func(float64) float64{math.Floor, math.Ceil, math.Trunc, math.Round}[how](fval(k, w)), w)
}

func cmpF(op Op, a, b uint64, w uint8) bool {
	x, y := fval(a, w), fval(b, w)
	switch op {
	case OpFEq:
		return x == y
	case OpFLt:
		return x < y
	case OpFLe:
		return x <= y
	}
	panic("cmpF")
}
func (ts *Terms) FCmp(op Op, a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return ts.Bool(cmpF(op, a.k, b.k, a.w))
	}
	if a == b {
		if op == OpFLt {
			return ts.False
		}
		return ts.Not(ts.FTest(OpFIsNaN, a))
	}
	if b.isConst() {
		if r := ts.cmpIntF(a, func(x float64) bool { return cmpF(op, fbits(x, a.w), b.k, a.w) }, op == OpFEq); r != nil {
			return r
		}
	} else if a.isConst() {
		if r := ts.cmpIntF(b, func(x float64) bool { return cmpF(op, a.k, fbits(x, a.w), a.w) }, op == OpFEq); r != nil {
			return r
		}
	}
	return ts.mk(op, SBool, 1, 0, "", a, b)
}
// intOf looks through conversions to the integer a float was made of.
func intOf(a *Term) (i *Term, signed bool) {
	for a.op == OpFConv {
		a = a.args[0]
	}
	if a.op == OpSToF || a.op == OpUToF {
		return a.args[0], a.op == OpSToF
	}
	return nil, false
}

// convInt is the value a float term takes for a value of its integer.
func convInt(a *Term, k uint64) float64 {
	if a.op == OpFConv {
		return fval(fbits(convInt(a.args[0], k), a.w), a.w)
	}
	return fval(evalIntToF(a.op, k, a.args[0].w, a.w), a.w)
}

// cmpIntF turns a comparison of a converted integer with a constant into a range of the integer:
// conversion is monotone, so where the comparison holds is one interval that begins or ends at an end
// of the type; for an equation it is any interval.
func (ts *Terms) cmpIntF(a *Term, holds func(float64) bool, eq bool) *Term {
	i, signed := intOf(a)
	if i == nil || eq {
		return nil
	}
	n := uint64(1)<<(i.w-1)<<1 - 1 // number of values - 1
	at := func(j uint64) uint64 { // the j-th value in order
		if signed {
			return (j + 1<<(i.w-1)) & mask(i.w)
		}
		return j
	}
	first := holds(convInt(a, at(0)))
	if first == holds(convInt(a, at(n))) {
		return ts.Bool(first)
	}
	lo, hi := uint64(0), n // holds(lo) == first, holds(hi) != first
	for hi-lo > 1 {
		m := lo + (hi-lo)/2
		if holds(convInt(a, at(m))) == first {
			lo = m
		} else {
			hi = m
		}
	}
	op := OpUle
	if signed {
		op = OpSle
	}
	r := ts.Cmp(op, i, ts.BV(at(lo), i.w))
	if !first {
		r = ts.Not(r)
	}
	return r
}

func (ts *Terms) FTest(op Op, a *Term) *Term {
	if i, _ := intOf(a); i != nil && op != OpFIsNeg {
		return ts.False
	}
	if a.isConst() {
		f := fval(a.k, a.w)
		switch op {
		case OpFIsNaN:
			return ts.Bool(f != f)
		case OpFIsInf:
			return ts.Bool(math.IsInf(f, 0))
		case OpFIsNeg:
			return ts.Bool(math.Signbit(f))
		}
	}
	if a.op == OpFConv && a.w > a.args[0].w {
		return ts.FTest(op, a.args[0])
	}
	return ts.mk(op, SBool, 1, 0, "", a)
}
func (ts *Terms) FConv(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.isConst() {
		return ts.FPConst(fbits(fval(a.k, a.w), w), w)
	}
	if a.op == OpFConv && a.args[0].w == w && a.w > w { // widen then narrow
		return a.args[0]
	}
	return ts.mk(OpFConv, SFP, w, 0, "", a)
}
func (ts *Terms) IntToF(a *Term, signed bool, w uint8) *Term {
	op := OpUToF
	if signed {
		op = OpSToF
	}
	if a.isConst() {
		return ts.FPConst(evalIntToF(op, a.k, a.w, w), w)
	}
	// use the narrowest source
	if a.op == OpZext {
		a, op = a.args[0], OpUToF
	} else if a.op == OpSext && signed {
		a = a.args[0]
	}
	return ts.mk(op, SFP, w, 0, "", a)
}
func evalIntToF(op Op, k uint64, aw, w uint8) uint64 {
	if op == OpSToF {
		if w == 32 {
			return uint64(math.Float32bits(float32(sx(k, aw))))
		}
		return math.Float64bits(float64(sx(k, aw)))
	}
	if w == 32 {
		return uint64(math.Float32bits(float32(k)))
	}
	return math.Float64bits(float64(k))
}
func (ts *Terms) FToInt(a *Term, signed bool, w uint8) *Term {
	op := OpFToU
	if signed {
		op = OpFToS
	}
	return ts.mk(op, SBV, w, 0, "", a)
}

// --- evaluation under an assignment of variables ---
type Env map[*Term]uint64

func (ts *Terms) Eval(t *Term, env Env, memo map[*Term]uint64) uint64 {
	if t.op == OpConst {
		return t.k
	}
	if t.op == OpVar {
		return env[t]
	}
	if memo != nil {
		if v, ok := memo[t]; ok {
			return v
		}
	}
	r := ts.evalOp(t, func(a *Term) uint64 { return ts.Eval(a, env, memo) })
	if memo != nil {
		memo[t] = r
	}
	return r
}

// evalOp is the value of a term given those of its arguments.
func (ts *Terms) evalOp(t *Term, arg func(*Term) uint64) uint64 {
	var a, b uint64
	var r uint64
	ev := func(i int) uint64 { return arg(t.args[i]) }
	bl := func(x bool) uint64 {
		if x {
			return 1
		}
		return 0
	}
	switch t.op {
	case OpIte:
		if ev(0) == 1 {
			r = ev(1)
		} else {
			r = ev(2)
		}
	case OpAnd:
		r = bl(ev(0) == 1 && ev(1) == 1)
	case OpOr:
		r = bl(ev(0) == 1 || ev(1) == 1)
	case OpNot:
		r = 1 - ev(0)
	default:
		a = ev(0)
		if len(t.args) > 1 {
			b = ev(1)
		}
		aw := t.args[0].w
		switch t.op {
		case OpEq:
			r = bl(a == b)
		case OpBNot:
			r = ^a & mask(t.w)
		case OpNeg:
			r = -a & mask(t.w)
		case OpUlt, OpUle, OpSlt, OpSle:
			r = bl(cmpFold(t.op, a, b, aw))
		case OpExtract:
			r = (a >> (t.k & 255)) & mask(t.w)
		case OpConcat:
			r = a<<t.args[1].w | b
		case OpZext:
			r = a
		case OpSext:
			r = uint64(sx(a, aw)) & mask(t.w)
		case OpFromBits, OpToBits:
			r = a
		case OpFAdd, OpFSub, OpFMul, OpFDiv:
			r = foldF(t.op, a, b, aw)
		case OpFNeg:
			r = a ^ (1 << (t.w - 1))
		case OpFRound, OpFSqrt:
			r = roundF(t.op, t.k, a, t.w)
		case OpFEq, OpFLt, OpFLe:
			r = bl(cmpF(t.op, a, b, aw))
		case OpFIsNaN:
			f := fval(a, aw)
			r = bl(f != f)
		case OpFIsInf:
			r = bl(math.IsInf(fval(a, aw), 0))
		case OpFIsNeg:
			r = bl(math.Signbit(fval(a, aw)))
		case OpFConv:
			r = fbits(fval(a, aw), t.w)
		case OpSToF, OpUToF:
			r = evalIntToF(t.op, a, aw, t.w)
		case OpFToS:
			r = uint64(int64(fval(a, aw))) & mask(t.w)
		case OpFToU:
			r = uint64(fval(a, aw)) & mask(t.w)
		default:
			k, ok := foldBV(t.op, a, b, t.w)
			if !ok {
				panic(fmt.Sprintf("eval op %d", t.op))
			}
			r = k
		}
	}
	return r
}

// truthTable of a Bool term over its single variable of width <= 8.
func (ts *Terms) truthTable(t *Term) *[4]uint64 {
	if t.tt != nil {
		return t.tt
	}
	v := t.sup[0]
	n := 1 << v.w
	vals := ts.valTable(t, n, map[*Term][]uint64{})
	var tab [4]uint64
	for i := 0; i < n; i++ {
		if vals[i] == 1 {
			tab[i>>6] |= 1 << (i & 63)
		}
	}
	t.tt = &tab
	return t.tt
}

// valTable lists the values of a term over its single variable.
func (ts *Terms) valTable(t *Term, n int, memo map[*Term][]uint64) []uint64 {
	if v, ok := memo[t]; ok {
		return v
	}
	r := make([]uint64, n)
	switch {
	case t.op == OpConst:
		for i := range r {
			r[i] = t.k
		}
	case t.op == OpVar:
		for i := range r {
			r[i] = uint64(i)
		}
	case t.tt != nil:
		for i := range r {
			r[i] = t.tt[i>>6] >> (i & 63) & 1
		}
	default:
		as := make([][]uint64, len(t.args))
		for j, a := range t.args {
			as[j] = ts.valTable(a, n, memo)
		}
		env := map[*Term]uint64{}
		for i := range r {
			for j, a := range t.args {
				if a.op != OpConst {
					env[a] = as[j][i]
				}
			}
			r[i] = ts.evalOp(t, func(a *Term) uint64 {
				if a.op == OpConst {
					return a.k
				}
				return env[a]
			})
		}
	}
	memo[t] = r
	return r
}

func tabCount(t *[4]uint64) int {
	return bits.OnesCount64(t[0]) + bits.OnesCount64(t[1]) + bits.OnesCount64(t[2]) + bits.OnesCount64(t[3])
}

// setMember builds the Bool term "v is one of the members of tab".
func (ts *Terms) setMember(v *Term, tab *[4]uint64) *Term {
	n := 1 << v.w
	r := ts.False
	if v.sort == SBool {
		if tab[0]&1 != 0 {
			r = ts.Or(r, ts.Not(v))
		}
		if tab[0]&2 != 0 {
			r = ts.Or(r, v)
		}
		return r
	}
	has := func(i int) bool { return tab[i>>6]>>(i&63)&1 == 1 }
	for i := 0; i < n; {
		if !has(i) {
			i++
			continue
		}
		j := i
		for j+1 < n && has(j+1) {
			j++
		}
		var c *Term
		if i == j {
			c = ts.Eq(v, ts.BV(uint64(i), v.w))
		} else {
			c = ts.And(ts.Cmp(OpUle, ts.BV(uint64(i), v.w), v), ts.Cmp(OpUle, v, ts.BV(uint64(j), v.w)))
		}
		r = ts.Or(r, c)
		i = j + 1
	}
	return r
}

// --- SMT-LIB ---
func sortStr(t *Term) string {
	switch t.sort {
	case SBool:
		return "Bool"
	case SBV:
		return "(_ BitVec " + strconv.Itoa(int(t.w)) + ")"
	}
	if t.w == 32 {
		return "(_ FloatingPoint 8 24)"
	}
	return "(_ FloatingPoint 11 53)"
}

var opNames = map[Op]string{OpNot: "not", OpAnd: "and", OpOr: "or", OpIte: "ite", OpEq: "=", OpAdd: "bvadd", OpSub: "bvsub", OpMul: "bvmul",
	OpUDiv: "bvudiv", OpSDiv: "bvsdiv", OpURem: "bvurem", OpSRem: "bvsrem", OpBAnd: "bvand", OpBOr: "bvor", OpBXor: "bvxor", OpBNot: "bvnot", OpNeg: "bvneg",
	OpShl: "bvshl", OpLshr: "bvlshr", OpAshr: "bvashr", OpUlt: "bvult", OpUle: "bvule", OpSlt: "bvslt", OpSle: "bvsle", OpConcat: "concat",
	OpFNeg: "fp.neg", OpFEq: "fp.eq", OpFLt: "fp.lt", OpFLe: "fp.leq", OpFIsNaN: "fp.isNaN", OpFIsInf: "fp.isInfinite", OpFIsNeg: "fp.isNegative"}

func constStr(t *Term) string {
	switch t.sort {
	case SBool:
		if t.k == 1 {
			return "true"
		}
		return "false"
	case SBV:
		return fmt.Sprintf("(_ bv%d %d)", t.k, t.w)
	}
	if t.w == 32 {
		return fmt.Sprintf("((_ to_fp 8 24) (_ bv%d 32))", t.k)
	}
	return fmt.Sprintf("((_ to_fp 11 53) (_ bv%d 64))", t.k)
}

func fpParams(w uint8) string {
	if w == 32 {
		return "8 24"
	}
	return "11 53"
}

// expr renders t given names for its arguments.
func (t *Term) expr(arg func(*Term) string) string {
	var sb strings.Builder
	wr := func(head string) {
		sb.WriteString("(")
		sb.WriteString(head)
		for _, a := range t.args {
			sb.WriteString(" ")
			sb.WriteString(arg(a))
		}
		sb.WriteString(")")
	}
	switch t.op {
	case OpConst:
		return constStr(t)
	case OpVar:
		return "|" + t.name + "|"
	case OpExtract:
		wr(fmt.Sprintf("(_ extract %d %d)", t.k>>8, t.k&255))
	case OpZext:
		wr(fmt.Sprintf("(_ zero_extend %d)", t.w-t.args[0].w))
	case OpSext:
		wr(fmt.Sprintf("(_ sign_extend %d)", t.w-t.args[0].w))
	case OpFromBits:
		wr("(_ to_fp " + fpParams(t.w) + ")")
	case OpToBits:
		wr("fp.to_ieee_bv")
	case OpFAdd:
		wr("fp.add RNE")
	case OpFSub:
		wr("fp.sub RNE")
	case OpFMul:
		wr("fp.mul RNE")
	case OpFDiv:
		wr("fp.div RNE")
	case OpFRound:
		wr("fp.roundToIntegral " + []string{"RTN", "RTP", "RTZ", "RNA"}[t.k])
	case OpFSqrt:
		wr("fp.sqrt RNE")
	case OpFConv, OpSToF:
		wr("(_ to_fp " + fpParams(t.w) + ") RNE")
	case OpUToF:
		wr("(_ to_fp_unsigned " + fpParams(t.w) + ") RNE")
	case OpFToS:
		wr(fmt.Sprintf("(_ fp.to_sbv %d) RTZ", t.w))
	case OpFToU:
		wr(fmt.Sprintf("(_ fp.to_ubv %d) RTZ", t.w))
	default:
		wr(opNames[t.op])
	}
	return sb.String()
}

func (t *Term) vars(seen map[*Term]bool, out map[*Term]bool) {
	if seen[t] {
		return
	}
	seen[t] = true
	if t.op == OpVar {
		out[t] = true
	}
	for _, a := range t.args {
		a.vars(seen, out)
	}
}

func (t *Term) String() string { return t.expr(func(a *Term) string { return a.String() }) }
