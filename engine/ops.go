package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"unicode/utf8"
)

func (p *Path) binop(op token.Token, xt, yt *RType, x, y value) value {
	ts := p.w.ts
	switch op {
	case token.EQL, token.NEQ:
		// fast paths
		if a, ok := x.(uint64); ok {
			if b, ok := y.(uint64); ok {
				return (a == b) == (op == token.EQL)
			}
		}
		t := p.eq(xt, x, y)
		if op == token.NEQ {
			t = ts.Not(t)
		}
		return p.tv(t)
	}
	switch xt.cat {
	case CInt, CUint:
		return p.intop(op, xt, yt, x, y)
	case CFloat:
		return p.floatop(op, xt, x, y)
	case CString:
		switch op {
		case token.ADD:
			return p.strConcat(x, y)
		case token.LSS:
			return p.tv(p.strLess(x, y))
		case token.GTR:
			return p.tv(p.strLess(y, x))
		case token.LEQ:
			return p.tv(ts.Not(p.strLess(y, x)))
		case token.GEQ:
			return p.tv(ts.Not(p.strLess(x, y)))
		}
	case CBool:
		a, b := p.term(x, xt), p.term(y, yt)
		switch op {
		case token.AND, token.LAND:
			return p.tv(ts.And(a, b))
		case token.OR, token.LOR:
			return p.tv(ts.Or(a, b))
		}
	}
	p.unsupported("binary %s on %s", op, xt.name)
	return nil
}

func (p *Path) intop(op token.Token, xt, yt *RType, x, y value) value {
	w := xt.w
	signed := xt.cat == CInt
	a, ok1 := x.(uint64)
	b, ok2 := y.(uint64)
	if ok1 && ok2 {
		m := mask(w)
		switch op {
		case token.ADD:
			return (a + b) & m
		case token.SUB:
			return (a - b) & m
		case token.MUL:
			return (a * b) & m
		case token.QUO, token.REM:
			if b == 0 {
				p.targetPanic("runtime error: integer divide by zero")
			}
			if signed {
				if op == token.QUO {
					r, _ := foldBV(OpSDiv, a, b, w)
					return r
				}
				r, _ := foldBV(OpSRem, a, b, w)
				return r
			}
			if op == token.QUO {
				return a / b
			}
			return a % b
		case token.AND:
			return a & b
		case token.OR:
			return a | b
		case token.XOR:
			return a ^ b
		case token.AND_NOT:
			return a &^ b
		case token.SHL, token.SHR:
			if yt.cat == CInt && sx(b, yt.w) < 0 {
				p.targetPanic("runtime error: negative shift amount")
			}
			if op == token.SHL {
				if b >= uint64(w) {
					return uint64(0)
				}
				return (a << b) & m
			}
			if signed {
				if b > 63 {
					b = 63
				}
				return uint64(sx(a, w)>>b) & m
			}
			if b >= uint64(w) {
				return uint64(0)
			}
			return a >> b
		case token.LSS:
			if signed {
				return sx(a, w) < sx(b, w)
			}
			return a < b
		case token.LEQ:
			if signed {
				return sx(a, w) <= sx(b, w)
			}
			return a <= b
		case token.GTR:
			if signed {
				return sx(a, w) > sx(b, w)
			}
			return a > b
		case token.GEQ:
			if signed {
				return sx(a, w) >= sx(b, w)
			}
			return a >= b
		}
		p.unsupported("int op %s", op)
	}
	ts := p.w.ts
	s, t := p.term(x, xt), p.term(y, yt)
	if op == token.SHL || op == token.SHR {
		if yt.cat == CInt {
			neg := ts.Cmp(OpSlt, t, ts.BV(0, t.w))
			if p.decide(neg) {
				p.targetPanic("runtime error: negative shift amount")
			}
		}
		// bring the count to width w, saturating
		if t.w < w {
			t = ts.Zext(t, w)
		} else if t.w > w {
			big := ts.Cmp(OpUle, ts.BV(uint64(w), t.w), t)
			t = ts.Ite(big, ts.BV(uint64(w), w), ts.Extract(t, w-1, 0))
		}
		if op == token.SHL {
			return p.tv(ts.Bin(OpShl, s, t))
		}
		if signed {
			return p.tv(ts.Bin(OpAshr, s, t))
		}
		return p.tv(ts.Bin(OpLshr, s, t))
	}
	switch op {
	case token.ADD:
		return p.tv(ts.Bin(OpAdd, s, t))
	case token.SUB:
		return p.tv(ts.Bin(OpSub, s, t))
	case token.MUL:
		return p.tv(ts.Bin(OpMul, s, t))
	case token.QUO, token.REM:
		if p.decide(ts.Eq(t, ts.BV(0, w))) {
			p.targetPanic("runtime error: integer divide by zero")
		}
		switch {
		case signed && op == token.QUO:
			return p.tv(ts.Bin(OpSDiv, s, t))
		case signed:
			return p.tv(ts.Bin(OpSRem, s, t))
		case op == token.QUO:
			return p.tv(ts.Bin(OpUDiv, s, t))
		}
		return p.tv(ts.Bin(OpURem, s, t))
	case token.AND:
		return p.tv(ts.Bin(OpBAnd, s, t))
	case token.OR:
		return p.tv(ts.Bin(OpBOr, s, t))
	case token.XOR:
		return p.tv(ts.Bin(OpBXor, s, t))
	case token.AND_NOT:
		return p.tv(ts.Bin(OpBAnd, s, ts.BNot(t)))
	}
	lt, le := OpUlt, OpUle
	if signed {
		lt, le = OpSlt, OpSle
	}
	switch op {
	case token.LSS:
		return p.tv(ts.Cmp(lt, s, t))
	case token.LEQ:
		return p.tv(ts.Cmp(le, s, t))
	case token.GTR:
		return p.tv(ts.Cmp(lt, t, s))
	case token.GEQ:
		return p.tv(ts.Cmp(le, t, s))
	}
	p.unsupported("int op %s", op)
	return nil
}

func (p *Path) floatop(op token.Token, xt *RType, x, y value) value {
	ts := p.w.ts
	s, t := p.term(x, xt), p.term(y, xt)
	switch op {
	case token.ADD:
		return p.tv(ts.FBin(OpFAdd, s, t))
	case token.SUB:
		return p.tv(ts.FBin(OpFSub, s, t))
	case token.MUL:
		return p.tv(ts.FBin(OpFMul, s, t))
	case token.QUO:
		return p.tv(ts.FBin(OpFDiv, s, t))
	case token.LSS:
		return p.tv(ts.FCmp(OpFLt, s, t))
	case token.LEQ:
		return p.tv(ts.FCmp(OpFLe, s, t))
	case token.GTR:
		return p.tv(ts.FCmp(OpFLt, t, s))
	case token.GEQ:
		return p.tv(ts.FCmp(OpFLe, t, s))
	}
	p.unsupported("float op %s", op)
	return nil
}

func (p *Path) convert(from, to *RType, v value) value {
	ts := p.w.ts
	switch {
	case (from.cat == CInt || from.cat == CUint) && (to.cat == CInt || to.cat == CUint):
		if t, ok := v.(*Term); ok {
			return p.tv(ts.Resize(t, from.cat == CInt, to.w))
		}
		k := v.(uint64)
		if from.cat == CInt {
			return uint64(sx(k, from.w)) & mask(to.w)
		}
		return k & mask(to.w)
	case (from.cat == CInt || from.cat == CUint) && to.cat == CFloat:
		return p.tv(ts.IntToF(p.term(v, from), from.cat == CInt, to.w))
	case from.cat == CFloat && to.cat == CFloat:
		return p.tv(ts.FConv(p.term(v, from), to.w))
	case from.cat == CFloat && (to.cat == CInt || to.cat == CUint):
		return p.floatToInt(from, to, v)
	case (from.cat == CInt || from.cat == CUint) && to.cat == CString:
		return p.runeToStr(v, from)
	case from.cat == CString && to.cat == CString:
		return v
	case from.cat == CString && to.cat == CSlice:
		if to.elem.cat == CUint && to.elem.w == 8 {
			b := p.strBytes(p.flat(v))
			r := make([]value, len(b), roundCap(len(b), 1))
			for i, t := range b {
				r[i] = p.tv(t)
			}
			for i := len(b); i < cap(r); i++ {
				r[:cap(r)][i] = zeroInt
			}
			return r
		}
		var r []value
		s := p.flat(v)
		n := p.strLen(s)
		r = make([]value, 0)
		for i := 0; i < n; {
			rn, sz := p.decodeRune(s, i)
			r = append(r, rn)
			i += sz
		}
		return r
	case from.cat == CSlice && to.cat == CString:
		s, ok := v.([]value)
		if !ok {
			p.unsupported("string of %T", v)
		}
		if from.elem.w == 8 {
			b := make([]*Term, len(s))
			for i, e := range s {
				b[i] = p.term(e, from.elem)
			}
			return p.mkStr(b)
		}
		var out value = ""
		for _, e := range s {
			out = p.strConcat(out, p.runeToStr(e, from.elem))
		}
		return out
	case to.cat == CUnsafe:
		return unsafePtr{v}
	case from.cat == CUnsafe && to.cat == CPtr:
		u, ok := v.(unsafePtr)
		if ok && u.v == nil {
			return (*value)(nil)
		}
		if ok {
			if pv, ok := u.v.(*value); ok {
				return pv
			}
		}
		p.unsupported("conversion from unsafe.Pointer to %s", to.name)
	case from.cat == to.cat:
		return v
	}
	p.unsupported("conversion from %s to %s", from.name, to.name)
	return nil
}

func (p *Path) floatToInt(from, to *RType, v value) value {
	var f float64
	switch x := v.(type) {
	case float64:
		f = x
	case float32:
		f = float64(x)
	case *Term:
		ts := p.w.ts
		t := x
		// the conversion is only defined in range; outside it amd64 gives the indefinite value
		var lo, hi float64
		if to.cat == CInt {
			lo, hi = -math.Ldexp(1, int(to.w)-1), math.Ldexp(1, int(to.w)-1)
		} else {
			lo, hi = 0, math.Ldexp(1, int(to.w))
		}
		loT, hiT := ts.FPConst(fbits(lo, t.w), t.w), ts.FPConst(fbits(hi, t.w), t.w)
		in := ts.And(ts.FCmp(OpFLe, loT, t), ts.FCmp(OpFLt, t, hiT))
		if to.cat == CInt && to.w < 52 && t.w == 64 {
			l1 := ts.FPConst(math.Float64bits(lo-1), 64)
			in = ts.And(ts.FCmp(OpFLt, l1, t), ts.FCmp(OpFLt, t, hiT))
		}
		if to.cat == CUint {
			in = ts.And(ts.FCmp(OpFLt, ts.FPConst(fbits(-1, t.w), t.w), t), ts.FCmp(OpFLt, t, hiT))
		}
		if p.decide(in) {
			return p.tv(ts.FToInt(t, to.cat == CInt, to.w))
		}
		if to.cat == CInt && to.w == 64 {
			return uint64(1) << 63
		}
		p.unsupported("out-of-range float to %s conversion", to.name)
	}
	switch {
	case to.cat == CInt && to.w == 64:
		return uint64(int64(f))
	case to.cat == CInt && to.w == 32:
		return uint64(int64(int32(f))) & mask(32)
	case to.cat == CInt && to.w == 16:
		return uint64(int64(int16(f))) & mask(16)
	case to.cat == CInt:
		return uint64(int64(int8(f))) & mask(8)
	case to.w == 64:
		return uint64(f)
	case to.w == 32:
		return uint64(uint32(f))
	case to.w == 16:
		return uint64(uint16(f))
	}
	return uint64(uint8(f))
}

func (p *Path) runeToStr(v value, rt *RType) value {
	ts := p.w.ts
	if k, ok := v.(uint64); ok {
		r := int64(k)
		if rt.cat == CInt {
			r = sx(k, rt.w)
		}
		if r < 0 || r > utf8.MaxRune {
			return "\uFFFD"
		}
		return string(rune(r))
	}
	t := v.(*Term)
	t = ts.Resize(t, rt.cat == CInt, 64)
	ult := func(k uint64) *Term { return ts.Cmp(OpUlt, t, ts.BV(k, 64)) }
	ex := func(hi, lo uint8, or uint64, w uint8) *Term {
		return ts.Bin(OpBOr, ts.Zext(ts.Extract(t, hi, lo), 8), ts.BV(or, 8))
	}
	if p.decide(ult(0x80)) {
		return p.mkStr([]*Term{ts.Extract(t, 7, 0)})
	}
	if p.decide(ult(0x800)) {
		return p.mkStr([]*Term{ex(10, 6, 0xC0, 5), ex(5, 0, 0x80, 6)})
	}
	sur := ts.And(ts.Cmp(OpUle, ts.BV(0xD800, 64), t), ult(0xE000))
	if p.decide(ts.Or(sur, ts.Not(ult(0x110000)))) {
		return "\uFFFD"
	}
	if p.decide(ult(0x10000)) {
		return p.mkStr([]*Term{ex(15, 12, 0xE0, 4), ex(11, 6, 0x80, 6), ex(5, 0, 0x80, 6)})
	}
	return p.mkStr([]*Term{ex(20, 18, 0xF0, 3), ex(17, 12, 0x80, 6), ex(11, 6, 0x80, 6), ex(5, 0, 0x80, 6)})
}

// decodeRune decodes one rune of s at byte i, as Go does.
func (p *Path) decodeRune(s value, i int) (value, int) {
	if str, ok := s.(string); ok {
		r, n := utf8.DecodeRuneInString(str[i:])
		return uint64(uint32(r)), n
	}
	ts := p.w.ts
	b := p.strBytes(s)[i:]
	b0 := b[0]
	if p.decide(ts.Cmp(OpUlt, b0, ts.BV(0x80, 8))) {
		return p.tv(ts.Zext(b0, 32)), 1
	}
	bad := uint64(utf8.RuneError)
	rng := func(t *Term, lo, hi uint64) *Term {
		return ts.And(ts.Cmp(OpUle, ts.BV(lo, 8), t), ts.Cmp(OpUle, t, ts.BV(hi, 8)))
	}
	z := func(t *Term, m uint64, sh uint64) *Term {
		return ts.Bin(OpShl, ts.Zext(ts.Bin(OpBAnd, t, ts.BV(m, 8)), 32), ts.BV(sh, 32))
	}
	or := func(a, b *Term) *Term { return ts.Bin(OpBOr, a, b) }
	if p.decide(rng(b0, 0xC2, 0xDF)) {
		if len(b) < 2 || !p.decide(rng(b[1], 0x80, 0xBF)) {
			return bad, 1
		}
		return p.tv(or(z(b0, 0x1F, 6), z(b[1], 0x3F, 0))), 2
	}
	if p.decide(rng(b0, 0xE0, 0xEF)) {
		lo, hi := uint64(0x80), uint64(0xBF)
		if p.decide(ts.Eq(b0, ts.BV(0xE0, 8))) {
			lo = 0xA0
		} else if p.decide(ts.Eq(b0, ts.BV(0xED, 8))) {
			hi = 0x9F
		}
		if len(b) < 3 || !p.decide(ts.And(rng(b[1], lo, hi), rng(b[2], 0x80, 0xBF))) {
			return bad, 1
		}
		return p.tv(or(or(z(b0, 0x0F, 12), z(b[1], 0x3F, 6)), z(b[2], 0x3F, 0))), 3
	}
	if p.decide(rng(b0, 0xF0, 0xF4)) {
		lo, hi := uint64(0x80), uint64(0xBF)
		if p.decide(ts.Eq(b0, ts.BV(0xF0, 8))) {
			lo = 0x90
		} else if p.decide(ts.Eq(b0, ts.BV(0xF4, 8))) {
			hi = 0x8F
		}
		if len(b) < 4 || !p.decide(ts.And(rng(b[1], lo, hi), ts.And(rng(b[2], 0x80, 0xBF), rng(b[3], 0x80, 0xBF)))) {
			return bad, 1
		}
		return p.tv(or(or(z(b0, 0x07, 18), z(b[1], 0x3F, 12)), or(z(b[2], 0x3F, 6), z(b[3], 0x3F, 0)))), 4
	}
	return bad, 1
}

// ---------- maps ----------
func (p *Path) rangeMap(m *mapV) *mapIter {
	it := &mapIter{m: m}
	if m != nil {
		it.rest = append([]*mapEntry(nil), m.ents...)
	}
	return it
}

// nextMap visits the entries in an arbitrary order: which entry comes next is a symbolic choice
// for small maps; larger maps are visited in insertion or in reverse order.
func (p *Path) nextMap(it *mapIter) *mapEntry {
	for len(it.rest) > 0 {
		k := 0
		n := len(it.rest)
		if p.initDepth == 0 && n > 1 {
			if n <= 3 || it.free {
				it.free = n <= 4
				if n <= 4 {
					k = p.choose(n)
				}
			}
			if n > 4 {
				if p.mapOrder == 0 {
					p.mapOrder = 1 + p.choose(2)
				}
				if p.mapOrder == 2 {
					k = n - 1
				}
			}
		}
		e := it.rest[k]
		it.rest = append(append([]*mapEntry{}, it.rest[:k]...), it.rest[k+1:]...)
		if !e.dead {
			return e
		}
	}
	return nil
}

// ---------- panics ----------
func (p *Path) throw(v iface) {
	if p.spec > 0 {
		panic(specAbort{})
	}
	panic(&tpanic{v: v})
}

func (p *Path) targetPanic(msg string) {
	if p.spec > 0 {
		panic(specAbort{})
	}
	p.throw(p.eng.runtimeError(msg))
}

// ---------- builtins ----------
// capacity growth as in the runtime
var sizeClasses = []int{0, 8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

func roundSize(n int, noscan bool) int {
	header := 0
	if n <= 32760 && n > 512 && !noscan {
		header = 8
		n += header
	}
	for _, c := range sizeClasses {
		if c >= n {
			return c - header
		}
	}
	return (n + 8191) / 8192 * 8192
}
func roundCap(n, es int) int {
	if n == 0 {
		return 0
	}
	if es == 0 {
		return n
	}
	return roundSize(n*es, true) / es
}
// hasPointers tells if the garbage collector has to look into a type.
func hasPointers(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Info()&types.IsString != 0 || u.Kind() == types.UnsafePointer
	case *types.Array:
		return u.Len() > 0 && hasPointers(u.Elem())
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if hasPointers(u.Field(i).Type()) {
				return true
			}
		}
		return false
	}
	return true
}

func growCap(oldCap, newLen, es int, noscan bool) int {
	nc := oldCap
	db := nc + nc
	if newLen > db {
		nc = newLen
	} else if oldCap < 256 {
		nc = db
	} else {
		for nc < newLen {
			nc += (nc + 3*256) >> 2
		}
	}
	if es == 0 {
		return nc
	}
	return roundSize(nc*es, noscan) / es
}

func (p *Path) appendVals(rt *RType, s []value, add []value) []value {
	if len(add) == 0 {
		return s
	}
	n := len(s) + len(add)
	if n <= cap(s) {
		r := s[:n]
		for i, v := range add {
			if p.frozen != nil {
				p.noteWrite(&r[len(s)+i], 0)
			}
			r[len(s)+i] = copyVal(v)
		}
		return r
	}
	nc := growCap(cap(s), n, int(rt.elem.size), !hasPointers(rt.elem.t))
	if nc < n {
		nc = n
	}
	r := make([]value, n, nc)
	copy(r, s)
	for i := range s {
		switch s[i].(type) {
		case structV, arrayV:
			r[i] = copyVal(s[i])
		}
	}
	for i, v := range add {
		r[len(s)+i] = copyVal(v)
	}
	full := r[:nc]
	for i := n; i < nc; i++ {
		full[i] = rt.elem.zero()
	}
	return r
}

func (p *Path) builtin(fr *frame, name string, args []value, ts []*RType) value {
	switch name {
	case "len":
		switch x := args[0].(type) {
		case []value:
			return uint64(len(x))
		case *mapV:
			if x == nil {
				return zeroInt
			}
			return uint64(x.n)
		case arrayV:
			return uint64(len(x))
		case *value:
			return uint64(ts[0].elem.alen)
		case string, *SStr, *Rope:
			return uint64(p.strLen(x))
		}
	case "cap":
		switch x := args[0].(type) {
		case []value:
			return uint64(cap(x))
		case arrayV:
			return uint64(len(x))
		case *value:
			return uint64(ts[0].elem.alen)
		}
	case "append":
		s, ok := args[0].([]value)
		if !ok {
			break
		}
		if len(args) == 1 {
			return s
		}
		switch a := args[1].(type) {
		case []value:
			return p.appendVals(ts[0], s, a)
		case string, *SStr, *Rope:
			b := p.strBytes(p.flat(a))
			add := make([]value, len(b))
			for i, t := range b {
				add[i] = p.tv(t)
			}
			return p.appendVals(ts[0], s, add)
		}
	case "copy":
		d, ok := args[0].([]value)
		if !ok {
			break
		}
		switch a := args[1].(type) {
		case []value:
			n := len(a)
			if len(d) < n {
				n = len(d)
			}
			tmp := make([]value, n)
			for i := 0; i < n; i++ {
				tmp[i] = copyVal(a[i])
			}
			for i := 0; i < n; i++ {
				if p.frozen != nil {
					p.noteWrite(&d[i], fr.pos)
				}
				d[i] = tmp[i]
			}
			return uint64(n)
		case string, *SStr, *Rope:
			b := p.strBytes(p.flat(a))
			n := len(b)
			if len(d) < n {
				n = len(d)
			}
			for i := 0; i < n; i++ {
				d[i] = p.tv(b[i])
			}
			return uint64(n)
		}
	case "delete":
		m, _ := args[0].(*mapV)
		if m == nil {
			return nil
		}
		if p.frozen != nil {
			p.noteWrite(&m.cell, fr.pos)
		}
		p.mapDelete(m, rtypeOf(ts[0].u.(*types.Map).Key()), args[1])
		return nil
	case "clear":
		switch x := args[0].(type) {
		case *mapV:
			if x != nil {
				for _, e := range x.ents {
					e.dead = true
				}
				*x = *newMap()
			}
			return nil
		case []value:
			for i := range x {
				x[i] = ts[0].elem.zero()
			}
			return nil
		}
	case "panic":
		p.throw(args[0].(iface))
	case "recover":
		d := fr.deferOf
		if d != nil && d.panicking {
			d.panicking = false
			v := d.panicV.v
			d.panicV = nil
			return v
		}
		return iface{}
	case "print", "println":
		return nil
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			op := token.LSS
			if name == "max" {
				op = token.GTR
			}
			c := p.binop(op, ts[0], ts[0], a, r)
			switch x := c.(type) {
			case bool:
				if x {
					r = a
				}
			case *Term:
				if v, ok := p.iteVal(ts[0], x, a, r); ok {
					r = v
				} else if p.decide(x) {
					r = a
				}
			}
		}
		return r
	case "ssa:wrapnilchk":
		if pv, ok := args[0].(*value); ok && pv == nil {
			p.targetPanic(fmt.Sprintf("value method %v.%v called using nil pointer", args[1], args[2]))
		}
		return args[0]
	case "String": // unsafe.String(ptr *byte, len)
		return p.unsafeString(args[0], args[1])
	case "StringData", "SliceData":
		return unsafeData{args[0]}
	case "Slice":
		if d, ok := args[0].(unsafeData); ok {
			if s, ok := d.v.([]value); ok {
				return s
			}
			b := p.strBytes(p.flat(d.v))
			r := make([]value, len(b))
			for i, t := range b {
				r[i] = p.tv(t)
			}
			return r
		}
	}
	p.unsupported("builtin %s(%T)", name, firstArg(args))
	return nil
}

func firstArg(a []value) value {
	if len(a) > 0 {
		return a[0]
	}
	return nil
}

type unsafeData struct{ v value }

func (p *Path) unsafeString(a, n value) value {
	switch d := a.(type) {
	case unsafeData:
		if s, ok := d.v.([]value); ok {
			b := make([]*Term, len(s))
			for i, e := range s {
				b[i] = p.term(e, p.eng.tByte)
			}
			k := int(intIdx(n, p.eng.tInt))
			return p.mkStr(b[:k])
		}
	case *value:
		if d == nil {
			return ""
		}
		if k, ok := n.(uint64); ok {
			if k == 0 {
				return ""
			}
			if k == 1 {
				return p.mkStr([]*Term{p.term(*d, p.eng.tByte)})
			}
		}
	}
	p.unsupported("unsafe.String of %T", a)
	return nil
}
