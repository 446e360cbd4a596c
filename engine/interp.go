package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type opnd int32

const globalBase = -(1 << 24)

type instr func(fr *frame)

type phi struct {
	reg   int
	edges []opnd
	rt    *RType
}

const (
	tJump = iota
	tIf
	tRet
	tPanic
)

type Block struct {
	idx     int
	ins     []instr
	phis    []phi
	term    int
	cond    opnd
	succs   [2]*Block
	predIdx [2]int
	rets    []opnd
	npreds  int
	pure    bool
	retT    *RType
}

type Func struct {
	name      string
	fn        *ssa.Function
	once      sync.Once
	nregs     int
	nparams   int
	blocks    []*Block
	consts    []value
	globals   []*ssa.Global
	intrinsic func(p *Path, fr *frame, args []value) value
	noBody    bool
	hasDefer  bool
	recover   *Block
	results   *RType
	class     pkgClass
	clo       *closure
	isInit    bool
}

type pkgClass uint8

const (
	clsStd pkgClass = iota
	clsRepo
	clsDep
	clsHarness
	clsSym
)

var funcTab sync.Map // *ssa.Function -> *Func

func funcOf(fn *ssa.Function) *Func {
	if f, ok := funcTab.Load(fn); ok {
		return f.(*Func)
	}
	f := &Func{fn: fn, name: fn.String()}
	f.clo = &closure{fn: f}
	f.class = classOf(fn)
	f.isInit = fn.Synthetic == "package initializer"
	f.intrinsic = lookupIntrinsic(fn)
	x, _ := funcTab.LoadOrStore(fn, f)
	return x.(*Func)
}

func pkgPathOf(fn *ssa.Function) string {
	if fn.Pkg != nil {
		return fn.Pkg.Pkg.Path()
	}
	if o := fn.Origin(); o != nil && o.Pkg != nil {
		return o.Pkg.Pkg.Path()
	}
	if fn.Parent() != nil {
		return pkgPathOf(fn.Parent())
	}
	if fn.Object() != nil && fn.Object().Pkg() != nil {
		return fn.Object().Pkg().Path()
	}
	return ""
}

func classOfPath(path string) pkgClass {
	switch {
	case strings.HasPrefix(path, "github.com/matehaxor03/holistic_json"):
		return clsRepo
	case path == "verifharness/sym":
		return clsSym
	case strings.HasPrefix(path, "verifharness"):
		return clsHarness
	case strings.Contains(strings.SplitN(path, "/", 2)[0], "."):
		return clsDep
	}
	return clsStd
}
func classOf(fn *ssa.Function) pkgClass { return classOfPath(pkgPathOf(fn)) }

type frame struct {
	p         *Path
	f         *Func
	regs      []value
	caller    *frame
	deferOf   *frame
	defers    []deferred
	panicking bool
	panicV    *tpanic
	result    value
	depth     int
	pos       token.Pos
}

type deferred struct {
	call *ssa.CallCommon
	cl   *closure
	args []value
}

// tpanic is a panic of the program under test.
type tpanic struct {
	v     iface
	trace string
}

func (fr *frame) get(o opnd) value {
	if o >= 0 {
		return fr.regs[o]
	}
	if o > globalBase {
		return fr.f.consts[-1-o]
	}
	return fr.p.global(fr.f.globals[globalBase-o])
}

// ---------- compilation ----------
type compiler struct {
	f    *Func
	regs map[ssa.Value]int
	cmap map[string]opnd
	gmap map[*ssa.Global]opnd
}

func (f *Func) compile() {
	f.once.Do(func() {
		fn := f.fn
		if fn.Blocks == nil {
			f.noBody = true
			return
		}
		c := &compiler{f: f, regs: map[ssa.Value]int{}, cmap: map[string]opnd{}, gmap: map[*ssa.Global]opnd{}}
		n := 0
		for _, p := range fn.Params {
			c.regs[p] = n
			n++
		}
		f.nparams = n
		for _, v := range fn.FreeVars {
			c.regs[v] = n
			n++
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if v, ok := in.(ssa.Value); ok {
					c.regs[v] = n
					n++
				}
				if _, ok := in.(*ssa.Defer); ok {
					f.hasDefer = true
				}
			}
		}
		f.nregs = n
		f.blocks = make([]*Block, len(fn.Blocks))
		for i := range fn.Blocks {
			f.blocks[i] = &Block{idx: i, npreds: len(fn.Blocks[i].Preds)}
		}
		switch fn.Signature.Results().Len() {
		case 0:
		case 1:
			f.results = rtypeOf(fn.Signature.Results().At(0).Type())
		default:
			f.results = rtypeOf(fn.Signature.Results())
		}
		for i, b := range fn.Blocks {
			c.block(f.blocks[i], b)
		}
		if fn.Recover != nil {
			f.recover = f.blocks[fn.Recover.Index]
		}
	})
}

func (c *compiler) constant(v value, key string) opnd {
	if o, ok := c.cmap[key]; ok {
		return o
	}
	c.f.consts = append(c.f.consts, v)
	o := opnd(-len(c.f.consts))
	c.cmap[key] = o
	return o
}

func (c *compiler) op(v ssa.Value) opnd {
	switch x := v.(type) {
	case *ssa.Const:
		rt := rtypeOf(x.Type())
		// String shortens texts and floats, so it would confuse constants that are alike
		key := "nil"
		if x.Value != nil {
			key = x.Value.ExactString()
		}
		return c.constant(constVal(x, rt), fmt.Sprintf("%d:%s", rt.id, key))
	case *ssa.Global:
		if o, ok := c.gmap[x]; ok {
			return o
		}
		c.f.globals = append(c.f.globals, x)
		o := opnd(globalBase - (len(c.f.globals) - 1))
		c.gmap[x] = o
		return o
	case *ssa.Function:
		f := funcOf(x)
		return c.constant(f.clo, fmt.Sprintf("fn:%p", f))
	case *ssa.Builtin:
		return c.constant(&closure{blt: x.Name()}, "blt:"+x.Name())
	}
	r, ok := c.regs[v]
	if !ok {
		panic(fmt.Sprintf("no register for %v in %s", v, c.f.name))
	}
	return opnd(r)
}

func constVal(c *ssa.Const, rt *RType) value {
	if c.Value == nil {
		return rt.zero()
	}
	switch rt.cat {
	case CBool:
		return constant.BoolVal(c.Value)
	case CInt:
		return uint64(c.Int64()) & mask(rt.w)
	case CUint:
		return c.Uint64() & mask(rt.w)
	case CFloat:
		if rt.w == 32 {
			return float32(c.Float64())
		}
		return c.Float64()
	case CString:
		if c.Value.Kind() == constant.String {
			return constant.StringVal(c.Value)
		}
		return string(rune(c.Int64()))
	}
	return poison{"constant of " + rt.name}
}

func pureInstr(in ssa.Instruction) bool {
	switch x := in.(type) {
	case *ssa.BinOp, *ssa.Convert, *ssa.ChangeType, *ssa.FieldAddr, *ssa.Field, *ssa.IndexAddr, *ssa.Index, *ssa.Extract, *ssa.ChangeInterface, *ssa.DebugRef, *ssa.Slice:
		return true
	case *ssa.UnOp:
		return x.Op != token.ARROW
	case *ssa.TypeAssert:
		return x.CommaOk
	case *ssa.MakeInterface:
		return true
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok {
			return b.Name() == "len" || b.Name() == "cap"
		}
	case *ssa.If, *ssa.Jump:
		return true
	}
	return false
}

func (c *compiler) block(b *Block, sb *ssa.BasicBlock) {
	b.pure = len(sb.Preds) == 1
	for _, in := range sb.Instrs {
		if b.pure && !pureInstr(in) {
			b.pure = false
		}
		switch x := in.(type) {
		case *ssa.Phi:
			ph := phi{reg: c.regs[x], rt: rtypeOf(x.Type())}
			for _, e := range x.Edges {
				ph.edges = append(ph.edges, c.op(e))
			}
			b.phis = append(b.phis, ph)
		case *ssa.If:
			b.term = tIf
			b.cond = c.op(x.Cond)
			c.succ(b, sb)
		case *ssa.Jump:
			b.term = tJump
			c.succ(b, sb)
		case *ssa.Return:
			b.term = tRet
			for _, r := range x.Results {
				b.rets = append(b.rets, c.op(r))
			}
		case *ssa.Panic:
			b.term = tPanic
			b.cond = c.op(x.X)
		case *ssa.DebugRef:
		default:
			b.ins = append(b.ins, c.instr(in))
		}
	}
}

func (c *compiler) succ(b *Block, sb *ssa.BasicBlock) {
	for k, s := range sb.Succs {
		b.succs[k] = c.f.blocks[s.Index]
		// the k-th edge sb->s: count earlier edges from sb to s
		nth := 0
		for j := 0; j < k; j++ {
			if sb.Succs[j] == s {
				nth++
			}
		}
		for pi, p := range s.Preds {
			if p == sb {
				if nth == 0 {
					b.predIdx[k] = pi
					break
				}
				nth--
			}
		}
	}
}

func nilDeref(p *Path) {
	p.targetPanic("runtime error: invalid memory address or nil pointer dereference")
}

func (c *compiler) instr(in ssa.Instruction) instr {
	pos := in.Pos()
	switch x := in.(type) {
	case *ssa.Alloc:
		r := c.regs[x]
		rt := rtypeOf(x.Type()).elem
		return func(fr *frame) {
			cell := new(value)
			*cell = rt.zero()
			fr.regs[r] = cell
		}
	case *ssa.BinOp:
		r, a, b := c.regs[x], c.op(x.X), c.op(x.Y)
		xt, yt := rtypeOf(x.X.Type()), rtypeOf(x.Y.Type())
		op := x.Op
		if xt.cat == CIface != (yt.cat == CIface) {
			// comparison of an interface with a concrete value: go/ssa converts explicitly, so this is unexpected
			return func(fr *frame) { fr.p.unsupported("mixed comparison") }
		}
		return func(fr *frame) {
			fr.regs[r] = fr.p.binop(op, xt, yt, fr.get(a), fr.get(b))
		}
	case *ssa.UnOp:
		return c.unop(x)
	case *ssa.Store:
		a, v := c.op(x.Addr), c.op(x.Val)
		return func(fr *frame) {
			p, ok := fr.get(a).(*value)
			if !ok {
				fr.p.unsupported("store through %T at %v", fr.get(a), fr.p.eng.pos(pos))
			}
			if p == nil {
				nilDeref(fr.p)
			}
			if fr.p.frozen != nil {
				fr.p.noteWrite(p, pos)
			}
			storeCell(p, fr.get(v))
		}
	case *ssa.FieldAddr:
		r, a, fi := c.regs[x], c.op(x.X), x.Field
		return func(fr *frame) {
			p, ok := fr.get(a).(*value)
			if !ok {
				fr.p.unsupported("field of %T", fr.get(a))
			}
			if p == nil {
				nilDeref(fr.p)
			}
			s, ok := (*p).(structV)
			if !ok {
				fr.p.unsupported("field %d of %T", fi, *p)
			}
			fr.regs[r] = &s[fi]
		}
	case *ssa.Field:
		r, a, fi := c.regs[x], c.op(x.X), x.Field
		return func(fr *frame) {
			s, ok := fr.get(a).(structV)
			if !ok {
				fr.p.unsupported("field of %T", fr.get(a))
			}
			fr.regs[r] = s[fi]
		}
	case *ssa.IndexAddr:
		r, a, i := c.regs[x], c.op(x.X), c.op(x.Index)
		it := rtypeOf(x.Index.Type())
		loadOnly := true
		for _, ref := range *x.Referrers() {
			if u, ok := ref.(*ssa.UnOp); !ok || u.Op != token.MUL {
				if _, ok := ref.(*ssa.DebugRef); !ok {
					loadOnly = false
				}
			}
		}
		return func(fr *frame) {
			var cells []value
			switch s := fr.get(a).(type) {
			case []value:
				cells = s
			case *value:
				if s == nil {
					nilDeref(fr.p)
				}
				arr, ok := (*s).(arrayV)
				if !ok {
					fr.p.unsupported("index of pointer to %T", *s)
				}
				cells = arr
			default:
				fr.p.unsupported("index of %T", s)
			}
			iv := fr.get(i)
			if t, ok := iv.(*Term); ok {
				fr.p.boundCheck(t, it, len(cells))
				if loadOnly {
					if sp := fr.p.symTable(cells, t); sp != nil {
						fr.regs[r] = sp
						return
					}
				}
				k := fr.p.concIndex(t, it, len(cells))
				fr.regs[r] = &cells[k]
				return
			}
			k := intIdx(iv, it)
			if k < 0 || k >= int64(len(cells)) {
				fr.p.targetPanic(fmt.Sprintf("runtime error: index out of range [%d] with length %d", k, len(cells)))
			}
			fr.regs[r] = &cells[k]
		}
	case *ssa.Index:
		r, a, i := c.regs[x], c.op(x.X), c.op(x.Index)
		it := rtypeOf(x.Index.Type())
		return func(fr *frame) { fr.regs[r] = fr.p.index(fr.get(a), fr.get(i), it) }
	case *ssa.Lookup:
		r, a, i := c.regs[x], c.op(x.X), c.op(x.Index)
		xt := rtypeOf(x.X.Type())
		if xt.cat == CString {
			it := rtypeOf(x.Index.Type())
			return func(fr *frame) { fr.regs[r] = fr.p.index(fr.get(a), fr.get(i), it) }
		}
		kt := rtypeOf(xt.u.(*types.Map).Key())
		vt := xt.elem
		commaOk := x.CommaOk
		return func(fr *frame) {
			m, ok := fr.get(a).(*mapV)
			if !ok {
				fr.p.unsupported("lookup in %T", fr.get(a))
			}
			e := fr.p.mapFind(m, kt, fr.get(i))
			var v value
			if e != nil {
				v = copyVal(e.v)
			} else {
				v = vt.zero()
			}
			if commaOk {
				fr.regs[r] = tupleV{v, e != nil}
			} else {
				fr.regs[r] = v
			}
		}
	case *ssa.MapUpdate:
		a, k, v := c.op(x.Map), c.op(x.Key), c.op(x.Value)
		kt := rtypeOf(rtypeOf(x.Map.Type()).u.(*types.Map).Key())
		return func(fr *frame) {
			m, _ := fr.get(a).(*mapV)
			if m == nil {
				fr.p.targetPanic("assignment to entry in nil map")
			}
			if fr.p.frozen != nil {
				fr.p.noteWrite(&m.cell, pos)
			}
			fr.p.mapSet(m, kt, fr.get(k), copyVal(fr.get(v)))
		}
	case *ssa.MakeMap:
		r := c.regs[x]
		return func(fr *frame) { fr.regs[r] = newMap() }
	case *ssa.MakeSlice:
		r, l, cp := c.regs[x], c.op(x.Len), c.op(x.Cap)
		et := rtypeOf(x.Type()).elem
		lt, ct := rtypeOf(x.Len.Type()), rtypeOf(x.Cap.Type())
		return func(fr *frame) {
			n := fr.p.concInt(fr.get(l), lt, 0, 4096)
			m := fr.p.concInt(fr.get(cp), ct, 0, 4096)
			if n < 0 || n > 1<<30 {
				fr.p.targetPanic("runtime error: makeslice: len out of range")
			}
			if m < n || m > 1<<30 {
				fr.p.targetPanic("runtime error: makeslice: cap out of range")
			}
			if m > 1<<20 {
				fr.p.unsupported("slice of %d elements", m)
			}
			s := make([]value, n, m)
			s2 := s[:m]
			for i := range s2 {
				s2[i] = et.zero()
			}
			fr.regs[r] = s
		}
	case *ssa.Slice:
		return c.slice(x)
	case *ssa.MakeClosure:
		r := c.regs[x]
		f := funcOf(x.Fn.(*ssa.Function))
		var bs []opnd
		for _, b := range x.Bindings {
			bs = append(bs, c.op(b))
		}
		return func(fr *frame) {
			env := make([]value, len(bs))
			for i, b := range bs {
				env[i] = fr.get(b)
			}
			fr.regs[r] = &closure{fn: f, env: env}
		}
	case *ssa.MakeInterface:
		r, a := c.regs[x], c.op(x.X)
		rt := rtypeOf(x.X.Type())
		return func(fr *frame) { fr.regs[r] = iface{rt, copyVal(fr.get(a))} }
	case *ssa.ChangeInterface:
		r, a := c.regs[x], c.op(x.X)
		return func(fr *frame) { fr.regs[r] = fr.get(a) }
	case *ssa.ChangeType:
		r, a := c.regs[x], c.op(x.X)
		return func(fr *frame) { fr.regs[r] = fr.get(a) }
	case *ssa.Convert:
		r, a := c.regs[x], c.op(x.X)
		from, to := rtypeOf(x.X.Type()), rtypeOf(x.Type())
		return func(fr *frame) { fr.regs[r] = fr.p.convert(from, to, fr.get(a)) }
	case *ssa.MultiConvert:
		return func(fr *frame) { fr.p.unsupported("MultiConvert") }
	case *ssa.SliceToArrayPointer:
		return func(fr *frame) { fr.p.unsupported("SliceToArrayPointer") }
	case *ssa.TypeAssert:
		return c.typeAssert(x)
	case *ssa.Extract:
		r, a, i := c.regs[x], c.op(x.Tuple), x.Index
		return func(fr *frame) {
			t, ok := fr.get(a).(tupleV)
			if !ok {
				if po, ok := fr.get(a).(poison); ok {
					fr.regs[r] = po
					return
				}
				fr.p.unsupported("extract of %T", fr.get(a))
			}
			fr.regs[r] = t[i]
		}
	case *ssa.Range:
		r, a := c.regs[x], c.op(x.X)
		return func(fr *frame) {
			switch v := fr.get(a).(type) {
			case *mapV:
				fr.regs[r] = fr.p.rangeMap(v)
			default:
				fr.regs[r] = &strIter{s: fr.p.flat(v)}
			}
		}
	case *ssa.Next:
		r, a := c.regs[x], c.op(x.Iter)
		tup := rtypeOf(x.Type())
		return func(fr *frame) {
			switch it := fr.get(a).(type) {
			case *strIter:
				n := fr.p.strLen(it.s)
				if it.i >= n {
					fr.regs[r] = tupleV{false, zeroInt, zeroInt}
					return
				}
				rn, sz := fr.p.decodeRune(it.s, it.i)
				fr.regs[r] = tupleV{true, uint64(it.i), rn}
				it.i += sz
			case *mapIter:
				e := fr.p.nextMap(it)
				if e == nil {
					fr.regs[r] = tupleV{false, tup.flds[1].zeroAny(), tup.flds[2].zeroAny()}
					return
				}
				fr.regs[r] = tupleV{true, copyVal(e.k), copyVal(e.v)}
			default:
				fr.p.unsupported("next of %T", it)
			}
		}
	case *ssa.Call:
		r := c.regs[x]
		call := c.call(&x.Call, pos)
		return func(fr *frame) { fr.regs[r] = call(fr) }
	case *ssa.Defer:
		prep := c.prepCall(&x.Call)
		return func(fr *frame) {
			cl, args := prep(fr)
			fr.defers = append(fr.defers, deferred{&x.Call, cl, args})
		}
	case *ssa.RunDefers:
		return func(fr *frame) { fr.runDefers() }
	case *ssa.Go:
		prep := c.prepCall(&x.Call)
		return func(fr *frame) {
			cl, args := prep(fr)
			fr.p.goStmt(fr, cl, args)
		}
	case *ssa.MakeChan, *ssa.Send, *ssa.Select:
		return func(fr *frame) { fr.p.unsupported("channel operation at %s", fr.p.eng.pos(pos)) }
	}
	s := fmt.Sprintf("instruction %T", in)
	return func(fr *frame) { fr.p.unsupported("%s", s) }
}

func (r *RType) zeroAny() value {
	if r.cat == COther {
		return nil
	}
	return r.zero()
}

func intIdx(v value, rt *RType) int64 {
	k, _ := v.(uint64)
	if rt.cat == CInt {
		return sx(k, rt.w)
	}
	if k > math.MaxInt64 {
		return math.MaxInt64
	}
	return int64(k)
}

// symPtr is the address table[idx] that is only ever loaded from.
type symPtr struct {
	v value
}

// symTable reads cells[t] as one term when every cell is a small constant.
func (p *Path) symTable(cells []value, t *Term) *symPtr {
	if len(cells) == 0 || len(cells) > 256 {
		return nil
	}
	ts := p.w.ts
	var w uint8 = 64
	isBool := false
	groups := map[uint64][]int{}
	var order []uint64
	for i, c := range cells {
		var k uint64
		switch x := c.(type) {
		case uint64:
			k = x
		case bool:
			isBool = true
			if x {
				k = 1
			}
		default:
			return nil
		}
		if len(groups[k]) == 0 {
			order = append(order, k)
		}
		groups[k] = append(groups[k], i)
	}
	if len(order) > 16 {
		return nil
	}
	mk := func(k uint64) *Term {
		if isBool {
			return ts.Bool(k == 1)
		}
		return ts.BV(k, w)
	}
	// the most frequent value is the default
	best := 0
	for i, k := range order {
		if len(groups[k]) > len(groups[order[best]]) {
			best = i
		}
	}
	res := mk(order[best])
	for i, k := range order {
		if i == best {
			continue
		}
		c := ts.False
		g := groups[k]
		for j := 0; j < len(g); {
			e := j
			for e+1 < len(g) && g[e+1] == g[e]+1 {
				e++
			}
			var one *Term
			if e == j {
				one = ts.Eq(t, ts.BV(uint64(g[j]), t.w))
			} else {
				one = ts.And(ts.Cmp(OpUle, ts.BV(uint64(g[j]), t.w), t), ts.Cmp(OpUle, t, ts.BV(uint64(g[e]), t.w)))
			}
			c = ts.Or(c, one)
			j = e + 1
		}
		res = ts.Ite(c, mk(k), res)
	}
	return &symPtr{v: res}
}

func (p *Path) boundCheck(t *Term, rt *RType, n int) {
	ts := p.w.ts
	in := ts.False
	if rt.cat == CInt {
		in = ts.And(ts.Cmp(OpSle, ts.BV(0, t.w), t), ts.Cmp(OpSlt, t, ts.BV(uint64(n), t.w)))
		if t.w < 64 && uint64(n) > mask(t.w-1) {
			in = ts.Cmp(OpSle, ts.BV(0, t.w), t)
		}
	} else {
		in = ts.Cmp(OpUlt, t, ts.BV(uint64(n), t.w))
		if t.w < 64 && uint64(n) > mask(t.w) {
			in = ts.True
		}
	}
	if !p.decide(in) {
		p.targetPanic(fmt.Sprintf("runtime error: index out of range with length %d", n))
	}
}

func (p *Path) concIndex(t *Term, rt *RType, n int) int64 {
	for k := 0; k < n-1; k++ {
		if p.decide(p.w.ts.Eq(t, p.w.ts.BV(uint64(k), t.w))) {
			return int64(k)
		}
	}
	return int64(n - 1)
}

// concInt makes an integer concrete by forking over lo..hi.
func (p *Path) concInt(v value, rt *RType, lo, hi int64) int64 {
	t, ok := v.(*Term)
	if !ok {
		if k, ok := v.(uint64); ok {
			if rt.cat == CInt {
				return sx(k, rt.w)
			}
			return int64(k)
		}
		p.unsupported("integer %T", v)
	}
	for k := lo; k <= hi; k++ {
		if p.decide(p.w.ts.Eq(t, p.w.ts.BV(uint64(k), t.w))) {
			return k
		}
		if k-lo > 64 {
			break
		}
	}
	p.unsupported("symbolic size outside %d..%d", lo, hi)
	return 0
}

func (p *Path) index(a, iv value, it *RType) value {
	switch s := a.(type) {
	case arrayV:
		if t, ok := iv.(*Term); ok {
			p.boundCheck(t, it, len(s))
			if sp := p.symTable(s, t); sp != nil {
				return p.fixTable(sp, s)
			}
			return s[p.concIndex(t, it, len(s))]
		}
		k := intIdx(iv, it)
		if k < 0 || k >= int64(len(s)) {
			p.targetPanic(fmt.Sprintf("runtime error: index out of range [%d] with length %d", k, len(s)))
		}
		return s[k]
	}
	n := p.strLen(a)
	if t, ok := iv.(*Term); ok {
		p.boundCheck(t, it, n)
		if str, ok := p.flat(a).(string); ok && n <= 256 {
			cells := make([]value, n)
			for i := range cells {
				cells[i] = uint64(str[i])
			}
			if sp := p.symTable(cells, t); sp != nil {
				return p.resizeTable(sp, 8)
			}
		}
		// build an ite chain over the bytes
		b := p.strBytes(a)
		r := b[n-1]
		for k := n - 2; k >= 0; k-- {
			r = p.w.ts.Ite(p.w.ts.Eq(t, p.w.ts.BV(uint64(k), t.w)), b[k], r)
		}
		return p.tv(r)
	}
	k := intIdx(iv, it)
	if k < 0 || k >= int64(n) {
		p.targetPanic(fmt.Sprintf("runtime error: index out of range [%d] with length %d", k, n))
	}
	return p.strAt(a, int(k))
}

func (p *Path) resizeTable(sp *symPtr, w uint8) value {
	t := sp.v.(*Term)
	if t.sort == SBool {
		return p.tv(t)
	}
	return p.tv(p.w.ts.Extract(t, w-1, 0))
}
func (p *Path) fixTable(sp *symPtr, cells arrayV) value { return sp.v }

func (c *compiler) unop(x *ssa.UnOp) instr {
	r, a := c.regs[x], c.op(x.X)
	rt := rtypeOf(x.X.Type())
	pos := x.Pos()
	switch x.Op {
	case token.MUL:
		et := rtypeOf(x.Type())
		return func(fr *frame) {
			switch pt := fr.get(a).(type) {
			case *value:
				if pt == nil {
					nilDeref(fr.p)
				}
				switch v := (*pt).(type) {
				case structV, arrayV:
					fr.regs[r] = copyVal(v)
				case poison:
					fr.p.unsupported("unmodelled initial value: %s", v.why)
				default:
					fr.regs[r] = v
				}
			case *symPtr:
				t := pt.v.(*Term)
				if t.sort == SBV && t.w != et.w {
					t = fr.p.w.ts.Extract(t, et.w-1, 0)
				}
				fr.regs[r] = fr.p.tv(t)
			default:
				fr.p.unsupported("load through %T at %s", pt, fr.p.eng.pos(pos))
			}
		}
	case token.NOT:
		return func(fr *frame) {
			switch v := fr.get(a).(type) {
			case bool:
				fr.regs[r] = !v
			case *Term:
				fr.regs[r] = fr.p.tv(fr.p.w.ts.Not(v))
			default:
				fr.p.unsupported("! of %T", v)
			}
		}
	case token.SUB:
		return func(fr *frame) {
			switch v := fr.get(a).(type) {
			case uint64:
				fr.regs[r] = -v & mask(rt.w)
			case float64:
				fr.regs[r] = -v
			case float32:
				fr.regs[r] = -v
			case *Term:
				if v.sort == SFP {
					fr.regs[r] = fr.p.tv(fr.p.w.ts.FNeg(v))
				} else {
					fr.regs[r] = fr.p.tv(fr.p.w.ts.Neg(v))
				}
			default:
				fr.p.unsupported("- of %T", v)
			}
		}
	case token.XOR:
		return func(fr *frame) {
			switch v := fr.get(a).(type) {
			case uint64:
				fr.regs[r] = ^v & mask(rt.w)
			case *Term:
				fr.regs[r] = fr.p.tv(fr.p.w.ts.BNot(v))
			default:
				fr.p.unsupported("^ of %T", v)
			}
		}
	}
	return func(fr *frame) { fr.p.unsupported("unary %s", x.Op) }
}

func (c *compiler) slice(x *ssa.Slice) instr {
	r, a := c.regs[x], c.op(x.X)
	type bnd struct {
		o  opnd
		rt *RType
		ok bool
	}
	mk := func(v ssa.Value) bnd {
		if v == nil {
			return bnd{}
		}
		return bnd{c.op(v), rtypeOf(v.Type()), true}
	}
	lo, hi, mx := mk(x.Low), mk(x.High), mk(x.Max)
	return func(fr *frame) {
		p := fr.p
		var cells []value
		capn := 0
		ln := 0
		isStr := false
		src := fr.get(a)
		switch s := src.(type) {
		case []value:
			cells = s
			ln, capn = len(s), cap(s)
		case *value:
			if s == nil {
				nilDeref(p)
			}
			arr, ok := (*s).(arrayV)
			if !ok {
				p.unsupported("slice of pointer to %T", *s)
			}
			cells = []value(arr)
			ln, capn = len(arr), len(arr)
		case string, *SStr, *Rope:
			isStr = true
			ln = p.strLen(s)
			capn = ln
		default:
			p.unsupported("slice of %T", src)
		}
		l, h, m := int64(0), int64(ln), int64(capn)
		bound := func(b bnd) int64 {
			v := fr.get(b.o)
			if t, ok := v.(*Term); ok {
				ts := p.w.ts
				in := ts.Cmp(OpUle, t, ts.BV(uint64(capn), t.w))
				if !p.decide(in) {
					p.targetPanic("runtime error: slice bounds out of range")
				}
				return p.concIndex(t, b.rt, capn+1)
			}
			return intIdx(v, b.rt)
		}
		if hi.ok {
			h = bound(hi)
		}
		if lo.ok {
			l = bound(lo)
		}
		if mx.ok {
			m = bound(mx)
		}
		lim := int64(capn)
		if isStr {
			lim = int64(ln)
		}
		if m > lim || h < 0 || h > m || l < 0 || l > h {
			p.targetPanic(fmt.Sprintf("runtime error: slice bounds out of range [%d:%d] with capacity %d", l, h, lim))
		}
		if isStr {
			fr.regs[r] = p.strSub(src, int(l), int(h))
			return
		}
		if cells == nil {
			fr.regs[r] = []value(nil)
			return
		}
		fr.regs[r] = cells[l:h:m]
	}
}

func (c *compiler) typeAssert(x *ssa.TypeAssert) instr {
	r, a := c.regs[x], c.op(x.X)
	to := rtypeOf(x.AssertedType)
	commaOk := x.CommaOk
	isIface := to.cat == CIface
	var it *types.Interface
	if isIface {
		it = to.u.(*types.Interface)
	}
	return func(fr *frame) {
		v, ok := fr.get(a).(iface)
		if !ok {
			fr.p.unsupported("type assertion on %T", fr.get(a))
		}
		good := false
		var res value
		if isIface {
			if v.t != nil && implements(v.t, it) {
				good = true
				res = v
			}
		} else if v.t == to {
			good = true
			res = copyVal(v.v)
		}
		if commaOk {
			if !good {
				res = to.zero()
			}
			fr.regs[r] = tupleV{res, good}
			return
		}
		if !good {
			n := "nil"
			if v.t != nil {
				n = v.t.name
			}
			fr.p.targetPanic("interface conversion: interface {} is " + n + ", not " + to.name)
		}
		fr.regs[r] = res
	}
}

var implCache sync.Map

type implKey struct {
	t *RType
	i *types.Interface
}

func implements(t *RType, i *types.Interface) bool {
	k := implKey{t, i}
	if v, ok := implCache.Load(k); ok {
		return v.(bool)
	}
	r := types.Implements(t.t, i)
	implCache.Store(k, r)
	return r
}

// ---------- calls ----------
func (c *compiler) prepCall(cc *ssa.CallCommon) func(fr *frame) (*closure, []value) {
	var as []opnd
	for _, a := range cc.Args {
		as = append(as, c.op(a))
	}
	v := c.op(cc.Value)
	if cc.IsInvoke() {
		m := cc.Method
		return func(fr *frame) (*closure, []value) {
			recv, ok := fr.get(v).(iface)
			if !ok {
				fr.p.unsupported("invoke on %T", fr.get(v))
			}
			if recv.t == nil {
				nilDeref(fr.p)
			}
			f := fr.p.eng.method(recv.t, m)
			if f == nil {
				fr.p.unsupported("method %s of %s", m.Name(), recv.t.name)
			}
			args := make([]value, len(as)+1)
			args[0] = recv.v
			for i, a := range as {
				args[i+1] = fr.get(a)
			}
			return f.clo, args
		}
	}
	return func(fr *frame) (*closure, []value) {
		cl, ok := fr.get(v).(*closure)
		if !ok {
			fr.p.unsupported("call of %T (%v)", fr.get(v), fr.get(v))
		}
		args := make([]value, len(as))
		for i, a := range as {
			args[i] = fr.get(a)
		}
		return cl, args
	}
}

func (c *compiler) call(cc *ssa.CallCommon, pos token.Pos) func(fr *frame) value {
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		var as []opnd
		var ts []*RType
		for _, a := range cc.Args {
			as = append(as, c.op(a))
			ts = append(ts, rtypeOf(a.Type()))
		}
		name := b.Name()
		return func(fr *frame) value {
			args := make([]value, len(as))
			for i, a := range as {
				args[i] = fr.get(a)
			}
			fr.pos = pos
			return fr.p.builtin(fr, name, args, ts)
		}
	}
	prep := c.prepCall(cc)
	return func(fr *frame) value {
		fr.pos = pos
		cl, args := prep(fr)
		return fr.p.call(fr, cl, args)
	}
}

func (p *Path) call(fr *frame, cl *closure, args []value) value {
	if cl == nil {
		nilDeref(p)
	}
	if cl.blt != "" {
		p.unsupported("builtin %s as a value", cl.blt)
	}
	return p.callFunc(fr, cl.fn, args, cl.env, nil)
}

func (p *Path) callFunc(caller *frame, f *Func, args []value, env []value, deferOf *frame) value {
	if f.intrinsic != nil {
		r := f.intrinsic(p, caller, args)
		if _, ok := r.(fallT); !ok {
			return r
		}
	}
	if f.isInit && p.initDepth > 0 && caller != nil {
		return nil // other packages are initialised when first used
	}
	f.compile()
	if f.noBody {
		if p.initDepth > 0 {
			return poison{"call of " + f.name}
		}
		p.unsupported("no body: %s", f.name)
	}
	if f.class == clsStd && p.initDepth == 0 && deniedStd(f) {
		p.unsupported("standard library function %s", f.name)
	}
	depth := 0
	if caller != nil {
		depth = caller.depth + 1
	}
	if depth > p.eng.maxDepth {
		p.hang("call depth exceeds %d in %s", p.eng.maxDepth, f.name)
	}
	if p.track {
		p.funcs[f]++
	}
	fr := &frame{p: p, f: f, caller: caller, deferOf: deferOf, depth: depth}
	fr.regs = make([]value, f.nregs)
	copy(fr.regs, args)
	copy(fr.regs[f.nparams:], env)
	if p.spec > 0 {
		panic(specAbort{})
	}
	if f.hasDefer {
		return fr.runGuarded()
	}
	fr.run(f.blocks[0])
	return fr.result
}

func (fr *frame) runGuarded() (res value) {
	defer func() {
		r := recover()
		if r == nil {
			return
		}
		tp, ok := r.(*tpanic)
		if !ok {
			panic(r)
		}
		fr.panicking = true
		fr.panicV = tp
		fr.runDefers()
		// recovered
		if fr.f.recover != nil {
			fr.run(fr.f.recover)
			res = fr.result
		} else if fr.f.results != nil {
			res = fr.f.results.zero()
		}
	}()
	fr.run(fr.f.blocks[0])
	return fr.result
}

func (fr *frame) runDefers() {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		func() {
			defer func() {
				if r := recover(); r != nil {
					tp, ok := r.(*tpanic)
					if !ok {
						panic(r)
					}
					fr.panicking = true
					fr.panicV = tp
				}
			}()
			if d.cl == nil {
				nilDeref(fr.p)
			}
			if d.cl.blt != "" {
				var ts []*RType
				for _, a := range d.call.Args {
					ts = append(ts, rtypeOf(a.Type()))
				}
				fr.p.builtin(fr, d.cl.blt, d.args, ts)
				return
			}
			fr.p.callFunc(fr, d.cl.fn, d.args, d.cl.env, fr)
		}()
	}
	if fr.panicking {
		panic(fr.panicV)
	}
}

func (fr *frame) run(b *Block) {
	p := fr.p
	pred := -1
	for {
		if pred >= 0 && len(b.phis) > 0 {
			fr.doPhis(b, pred)
		}
		for _, in := range b.ins {
			in(fr)
		}
		p.steps += len(b.ins) + 1
		if p.steps > p.maxSteps {
			p.hang("more than %d steps", p.maxSteps)
		}
		switch b.term {
		case tJump:
			pred = b.predIdx[0]
			b = b.succs[0]
		case tIf:
			switch c := fr.get(b.cond).(type) {
			case bool:
				k := 1
				if c {
					k = 0
				}
				pred = b.predIdx[k]
				b = b.succs[k]
			case *Term:
				nb, npred := fr.branch(b, c)
				if npred == -2 { // phis were already set by the merge
					pred = -1
				} else {
					pred = npred
				}
				b = nb
			default:
				p.unsupported("branch on %T in %s", c, fr.f.name)
			}
		case tRet:
			switch len(b.rets) {
			case 0:
				fr.result = nil
			case 1:
				fr.result = fr.get(b.rets[0])
			default:
				t := make(tupleV, len(b.rets))
				for i, r := range b.rets {
					t[i] = fr.get(r)
				}
				fr.result = t
			}
			return
		case tPanic:
			v, ok := fr.get(b.cond).(iface)
			if !ok {
				p.unsupported("panic with %T", fr.get(b.cond))
			}
			p.throw(v)
		}
	}
}

func (fr *frame) doPhis(b *Block, pred int) {
	if len(b.phis) == 1 {
		ph := &b.phis[0]
		fr.regs[ph.reg] = fr.get(ph.edges[pred])
		return
	}
	var buf [8]value
	tmp := buf[:0]
	for i := range b.phis {
		tmp = append(tmp, fr.get(b.phis[i].edges[pred]))
	}
	for i := range b.phis {
		fr.regs[b.phis[i].reg] = tmp[i]
	}
}

// ---------- merging of pure branches ----------
type exit struct {
	cond *Term
	to   *Block
	phis []value
	pred int
}

type specAbort struct{}

// branch picks the successor of a symbolic If.  Side-effect free regions whose paths meet again are
// merged into one path with if-then-else terms; otherwise the path forks.
func (fr *frame) branch(b *Block, c *Term) (*Block, int) {
	p := fr.p
	if (b.succs[0].pure || b.succs[1].pure) && p.merge {
		exits, leaves, ok := fr.tryMerge(b, c)
		if ok && len(exits) < leaves {
			for i, e := range exits {
				if i == len(exits)-1 || p.decide(e.cond) {
					for j := range e.to.phis {
						fr.regs[e.to.phis[j].reg] = e.phis[j]
					}
					return e.to, -2
				}
			}
		}
	}
	if p.decide(c) {
		return b.succs[0], b.predIdx[0]
	}
	return b.succs[1], b.predIdx[1]
}

func (fr *frame) tryMerge(b *Block, c *Term) (out []exit, leaves int, ok bool) {
	p := fr.p
	p.spec++
	defer func() {
		p.spec--
		if r := recover(); r != nil {
			switch r.(type) {
			case specAbort:
				out, ok = nil, false
				return
			}
			panic(r)
		}
	}()
	ex := fr.exits(b, c, p.w.ts.True, 0, nil)
	leaves = len(ex)
	for _, e := range ex {
		if e.cond == p.w.ts.False {
			leaves--
			continue
		}
		merged := false
		for i := range out {
			if out[i].to == e.to {
				m, good := fr.mergePhis(e.to, e.cond, e.phis, out[i].phis)
				if good {
					out[i].phis = m
					out[i].cond = p.w.ts.Or(out[i].cond, e.cond)
					merged = true
				}
				break
			}
		}
		if !merged {
			out = append(out, e)
		}
	}
	return out, leaves, true
}

func (fr *frame) phiVals(to *Block, pred int) []value {
	r := make([]value, len(to.phis))
	for i := range to.phis {
		r[i] = fr.get(to.phis[i].edges[pred])
	}
	return r
}

func (fr *frame) exits(b *Block, c *Term, cond *Term, depth int, acc []exit) []exit {
	p := fr.p
	ts := p.w.ts
	for k := 0; k < 2; k++ {
		s := b.succs[k]
		cc := ts.And(cond, c)
		if k == 1 {
			cc = ts.And(cond, ts.Not(c))
		}
		if cc == ts.False {
			continue
		}
		if s.pure && depth < 12 && len(acc) < 16 {
			acc2, good := fr.specBlock(s, b.predIdx[k], cc, depth, acc)
			if good {
				acc = acc2
				continue
			}
		}
		acc = append(acc, exit{cc, s, fr.phiVals(s, b.predIdx[k]), b.predIdx[k]})
	}
	return acc
}

func (fr *frame) specBlock(s *Block, pred int, cc *Term, depth int, acc []exit) (res []exit, good bool) {
	p := fr.p
	n := len(acc)
	defer func() {
		if r := recover(); r != nil {
			if _, isSpec := r.(specAbort); isSpec {
				res, good = acc[:n], false
				return
			}
			panic(r)
		}
	}()
	if len(s.phis) > 0 {
		fr.doPhis(s, pred)
	}
	for _, in := range s.ins {
		in(fr)
	}
	p.steps += len(s.ins) + 1
	switch s.term {
	case tJump:
		return append(acc, exit{cc, s.succs[0], fr.phiVals(s.succs[0], s.predIdx[0]), s.predIdx[0]}), true
	case tIf:
		switch c := fr.get(s.cond).(type) {
		case bool:
			return fr.exits(s, p.w.ts.Bool(c), cc, depth+1, acc), true
		case *Term:
			return fr.exits(s, c, cc, depth+1, acc), true
		}
	}
	return acc, false
}

func (fr *frame) mergePhis(to *Block, c *Term, a, b []value) ([]value, bool) {
	p := fr.p
	r := make([]value, len(a))
	for i := range a {
		v, ok := p.iteVal(to.phis[i].rt, c, a[i], b[i])
		if !ok {
			return nil, false
		}
		r[i] = v
	}
	return r, true
}

// iteVal is the value that is a when c holds and b otherwise, when that can be expressed.
func (p *Path) iteVal(rt *RType, c *Term, a, b value) (value, bool) {
	switch rt.cat {
	case CBool, CInt, CUint, CFloat:
		if _, ok := a.(poison); ok {
			return nil, false
		}
		if _, ok := b.(poison); ok {
			return nil, false
		}
		if a == nil || b == nil {
			return nil, false
		}
		return p.tv(p.w.ts.Ite(c, p.term(a, rt), p.term(b, rt))), true
	case CPtr:
		x, ok1 := a.(*value)
		y, ok2 := b.(*value)
		return a, ok1 && ok2 && x == y
	case CString:
		x, ok1 := a.(string)
		y, ok2 := b.(string)
		if ok1 && ok2 && x == y {
			return a, true
		}
		if sa, ok := a.(*SStr); ok {
			if sb, ok := b.(*SStr); ok && sa == sb {
				return a, true
			}
		}
		return nil, false
	case CFunc:
		x, ok1 := a.(*closure)
		y, ok2 := b.(*closure)
		return a, ok1 && ok2 && x == y
	case CMap:
		x, ok1 := a.(*mapV)
		y, ok2 := b.(*mapV)
		return a, ok1 && ok2 && x == y
	case CSlice:
		x, ok1 := a.([]value)
		y, ok2 := b.([]value)
		if ok1 && ok2 && len(x) == len(y) && cap(x) == cap(y) {
			if cap(x) == 0 {
				return a, (x == nil) == (y == nil)
			}
			return a, &x[:1][0] == &y[:1][0]
		}
		return nil, false
	case CIface:
		x, ok1 := a.(iface)
		y, ok2 := b.(iface)
		if ok1 && ok2 && x.t == nil && y.t == nil {
			return a, true
		}
		return nil, false
	}
	return nil, false
}

func (p *Path) goStmt(fr *frame, cl *closure, args []value) {
	p.unsupported("go statement in %s", fr.f.name)
}
