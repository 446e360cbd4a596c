package main

import (
	"fmt"
	"go/types"
	"math"
	"strconv"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

// A value is one of
//
//	bool | uint64 (every integer kind, masked to its width) | float32 | float64
//	*Term (symbolic bool, integer or float of the static type)
//	string | *SStr (string with symbolic bytes) | *Rope (string whose parts are not all materialised)
//	*value (pointer) | structV | arrayV | []value (slice) | *mapV | *closure | iface | tupleV
//	*strIter | *mapIter
type value = interface{}

type structV []value
type arrayV []value
type tupleV []value

type iface struct {
	t *RType // nil for a nil interface
	v value
}

type closure struct {
	fn  *Func
	env []value
	blt string // builtin name
}

// SStr is a string with at least one symbolic byte (or all-constant bytes).
type SStr struct{ b []*Term }

// Rope is a string built from parts, some of them formatted numbers that have not been turned into bytes yet.
type Rope struct {
	parts []value // string, *SStr, *FmtNum, *Opaque
	flat  value
}

// FmtNum is the text of a symbolic number.
type FmtNum struct {
	t      *Term
	signed bool
	fmt    byte // 'd' integer; 'f','g','e' float
	prec   int
	bits   int
	flat   value
}

// Opaque is text whose content is not modelled (an address, a struct dump).
type Opaque struct{ why string }

type unsafePtr struct{ v value }

// poison marks the result of something a package initialiser needed that is not modelled.
type poison struct{ why string }

type mapEntry struct {
	k, v value
	dead bool
}
type mapV struct {
	ents  []*mapEntry
	index map[value]*mapEntry // concrete keys only
	symb  int                 // entries with symbolic keys
	n     int
	cell  value // identity for the write footprint
}

type strIter struct {
	s value
	i int
}
type mapIter struct {
	m    *mapV
	rest []*mapEntry
	free bool
}

// --- types ---
type Cat uint8

const (
	CBool Cat = iota
	CInt
	CUint
	CFloat
	CString
	CPtr
	CStruct
	CArray
	CSlice
	CMap
	CFunc
	CIface
	CTuple
	CUnsafe
	CChan
	COther
)

type RType struct {
	t     types.Type
	u     types.Type
	id    int
	cat   Cat
	w     uint8 // width of ints and floats
	name  string
	elem  *RType
	flds  []*RType
	alen  int64
	size  int64
	mu    sync.Mutex
	meths map[string]*Func
	zeroS value
}

type TypeTable struct {
	mu   sync.Mutex
	m    typeutil.Map
	n    int
	fast sync.Map
}

var tt TypeTable
var sizes = types.SizesFor("gc", "amd64")

func rtypeOf(t types.Type) *RType {
	if r, ok := tt.fast.Load(t); ok {
		return r.(*RType)
	}
	tt.mu.Lock()
	defer tt.mu.Unlock()
	return tt.get(t)
}

func (tb *TypeTable) get(t types.Type) *RType {
	if r := tb.m.At(t); r != nil {
		tb.fast.Store(t, r)
		return r.(*RType)
	}
	r := &RType{t: t, u: t.Underlying(), id: tb.n, meths: map[string]*Func{}}
	tb.n++
	tb.m.Set(t, r)
	r.name = reflectName(t)
	switch u := r.u.(type) {
	case *types.Basic:
		info := u.Info()
		switch {
		case info&types.IsBoolean != 0:
			r.cat = CBool
		case info&types.IsInteger != 0:
			r.cat = CInt
			if info&types.IsUnsigned != 0 {
				r.cat = CUint
			}
			r.w = uint8(sizes.Sizeof(u) * 8)
			if u.Kind() == types.UntypedInt || u.Kind() == types.UntypedRune {
				r.w = 64
			}
		case info&types.IsFloat != 0:
			r.cat = CFloat
			r.w = 64
			if u.Kind() == types.Float32 {
				r.w = 32
			}
		case info&types.IsString != 0:
			r.cat = CString
		case u.Kind() == types.UnsafePointer:
			r.cat = CUnsafe
		default:
			r.cat = COther
		}
	case *types.Pointer:
		r.cat = CPtr
		r.elem = tb.get(u.Elem())
	case *types.Struct:
		r.cat = CStruct
		for i := 0; i < u.NumFields(); i++ {
			r.flds = append(r.flds, tb.get(u.Field(i).Type()))
		}
	case *types.Array:
		r.cat = CArray
		r.elem = tb.get(u.Elem())
		r.alen = u.Len()
	case *types.Slice:
		r.cat = CSlice
		r.elem = tb.get(u.Elem())
	case *types.Map:
		r.cat = CMap
		r.elem = tb.get(u.Elem())
	case *types.Signature:
		r.cat = CFunc
	case *types.Interface:
		r.cat = CIface
	case *types.Tuple:
		r.cat = CTuple
		for i := 0; i < u.Len(); i++ {
			r.flds = append(r.flds, tb.get(u.At(i).Type()))
		}
	case *types.Chan:
		r.cat = CChan
	default:
		r.cat = COther
	}
	if r.cat != CTuple && r.cat != COther {
		func() {
			defer func() { recover() }()
			r.size = sizes.Sizeof(t)
		}()
	}
	if _, isTP := t.(*types.TypeParam); isTP {
		r.cat = COther
	}
	tb.fast.Store(t, r)
	return r
}

// reflectName is what fmt's %T prints.
func reflectName(t types.Type) string {
	q := func(p *types.Package) string { return p.Name() }
	var w func(t types.Type) string
	w = func(t types.Type) string {
		t = types.Unalias(t)
		switch x := t.(type) {
		case *types.Basic:
			if x.Kind() == types.UnsafePointer {
				return "unsafe.Pointer"
			}
			switch x.Name() {
			case "byte":
				return "uint8"
			case "rune":
				return "int32"
			}
			return x.Name()
		case *types.Named:
			return types.TypeString(x, q)
		case *types.Pointer:
			return "*" + w(x.Elem())
		case *types.Slice:
			return "[]" + w(x.Elem())
		case *types.Array:
			return "[" + strconv.FormatInt(x.Len(), 10) + "]" + w(x.Elem())
		case *types.Map:
			return "map[" + w(x.Key()) + "]" + w(x.Elem())
		case *types.Signature:
			var sb strings.Builder
			sb.WriteString("func(")
			for i := 0; i < x.Params().Len(); i++ {
				if i > 0 {
					sb.WriteString(", ")
				}
				pt := x.Params().At(i).Type()
				if x.Variadic() && i == x.Params().Len()-1 {
					sb.WriteString("..." + w(pt.(*types.Slice).Elem()))
				} else {
					sb.WriteString(w(pt))
				}
			}
			sb.WriteString(")")
			switch x.Results().Len() {
			case 0:
			case 1:
				sb.WriteString(" " + w(x.Results().At(0).Type()))
			default:
				sb.WriteString(" (")
				for i := 0; i < x.Results().Len(); i++ {
					if i > 0 {
						sb.WriteString(", ")
					}
					sb.WriteString(w(x.Results().At(i).Type()))
				}
				sb.WriteString(")")
			}
			return sb.String()
		case *types.Interface:
			if x.NumMethods() == 0 {
				return "interface {}"
			}
			return types.TypeString(t, q)
		}
		return types.TypeString(t, q)
	}
	return w(t)
}

var nilClosure = (*closure)(nil)

func (r *RType) zero() value {
	switch r.cat {
	case CBool:
		return false
	case CInt, CUint:
		return zeroInt
	case CFloat:
		if r.w == 32 {
			return float32(0)
		}
		return float64(0)
	case CString:
		return ""
	case CPtr:
		return (*value)(nil)
	case CUnsafe:
		return unsafePtr{}
	case CStruct:
		s := make(structV, len(r.flds))
		for i, f := range r.flds {
			s[i] = f.zero()
		}
		return s
	case CArray:
		a := make(arrayV, r.alen)
		for i := range a {
			a[i] = r.elem.zero()
		}
		return a
	case CSlice:
		return []value(nil)
	case CMap:
		return (*mapV)(nil)
	case CFunc:
		return nilClosure
	case CIface:
		return iface{}
	case CTuple:
		s := make(tupleV, len(r.flds))
		for i, f := range r.flds {
			s[i] = f.zero()
		}
		return s
	}
	return poison{"zero of " + r.name}
}

var zeroInt value = uint64(0)

// copyVal copies aggregates.
func copyVal(v value) value {
	switch x := v.(type) {
	case structV:
		c := make(structV, len(x))
		for i, e := range x {
			switch e.(type) {
			case structV, arrayV:
				c[i] = copyVal(e)
			default:
				c[i] = e
			}
		}
		return c
	case arrayV:
		c := make(arrayV, len(x))
		for i, e := range x {
			switch e.(type) {
			case structV, arrayV:
				c[i] = copyVal(e)
			default:
				c[i] = e
			}
		}
		return c
	}
	return v
}

// store writes v through p, keeping the cells of an aggregate in place so that pointers into it stay valid.
func storeCell(p *value, v value) {
	switch x := v.(type) {
	case structV:
		if d, ok := (*p).(structV); ok && len(d) == len(x) {
			tmp := copyVal(x).(structV) // x may alias d
			for i := range tmp {
				storeCell(&d[i], tmp[i])
			}
			return
		}
		*p = copyVal(v)
	case arrayV:
		if d, ok := (*p).(arrayV); ok && len(d) == len(x) {
			tmp := copyVal(x).(arrayV)
			for i := range tmp {
				storeCell(&d[i], tmp[i])
			}
			return
		}
		*p = copyVal(v)
	default:
		*p = v
	}
}

// --- strings ---
func (p *Path) byteTerm(b byte) *Term { return p.w.bytes[b] }

// mkStr normalises a byte list: a Go string when everything is constant.
func (p *Path) mkStr(b []*Term) value {
	for _, t := range b {
		if t.op != OpConst {
			return &SStr{b}
		}
	}
	buf := make([]byte, len(b))
	for i, t := range b {
		buf[i] = byte(t.k)
	}
	return string(buf)
}

func (p *Path) strBytes(v value) []*Term {
	switch x := v.(type) {
	case string:
		r := make([]*Term, len(x))
		for i := 0; i < len(x); i++ {
			r[i] = p.w.bytes[x[i]]
		}
		return r
	case *SStr:
		return x.b
	case *Rope:
		return p.strBytes(p.flat(x))
	}
	p.unsupported("string value %T", v)
	return nil
}

// flat turns a rope into a string or *SStr.
func (p *Path) flat(v value) value {
	switch x := v.(type) {
	case string, *SStr:
		return v
	case *Rope:
		if x.flat != nil {
			return x.flat
		}
		all := true
		for i, q := range x.parts {
			switch y := q.(type) {
			case *FmtNum:
				x.parts[i] = p.materialise(y)
			case *Opaque:
				p.unsupported("content of opaque text (%s)", y.why)
			case *Rope:
				x.parts[i] = p.flat(y)
			}
			if _, ok := x.parts[i].(string); !ok {
				all = false
			}
		}
		if all {
			var sb strings.Builder
			for _, q := range x.parts {
				sb.WriteString(q.(string))
			}
			x.flat = sb.String()
			return x.flat
		}
		var b []*Term
		for _, q := range x.parts {
			b = append(b, p.strBytes(q)...)
		}
		x.flat = p.mkStr(b)
		return x.flat
	}
	p.unsupported("string value %T", v)
	return nil
}

func (p *Path) strLen(v value) int {
	switch x := p.flat(v).(type) {
	case string:
		return len(x)
	case *SStr:
		return len(x.b)
	}
	return 0
}

func (p *Path) strAt(v value, i int) value {
	switch x := p.flat(v).(type) {
	case string:
		return uint64(x[i])
	case *SStr:
		return p.tv(x.b[i])
	}
	return nil
}

// tv turns a constant term into a native value.
func (p *Path) tv(t *Term) value {
	if t.op == OpConst {
		switch t.sort {
		case SBool:
			return t.k == 1
		case SBV:
			return t.k
		case SFP:
			if t.w == 32 {
				return math.Float32frombits(uint32(t.k))
			}
			return math.Float64frombits(t.k)
		}
	}
	return t
}

func (p *Path) strSub(v value, lo, hi int) value {
	switch x := p.flat(v).(type) {
	case string:
		return x[lo:hi]
	case *SStr:
		if lo == 0 && hi == len(x.b) {
			return x
		}
		return p.mkStr(x.b[lo:hi:hi])
	}
	return nil
}

func (p *Path) strConcat(a, b value) value {
	if x, ok := a.(string); ok {
		if y, ok := b.(string); ok {
			return x + y
		}
		if x == "" {
			return b
		}
	}
	if y, ok := b.(string); ok && y == "" {
		return a
	}
	_, ra := a.(*Rope)
	_, rb := b.(*Rope)
	if ra || rb {
		return p.rope([]value{a, b})
	}
	x, y := p.strBytes(a), p.strBytes(b)
	r := make([]*Term, 0, len(x)+len(y))
	r = append(append(r, x...), y...)
	return p.mkStr(r)
}

func (p *Path) rope(parts []value) value {
	var out []value
	lazy := false
	for _, q := range parts {
		switch x := q.(type) {
		case *Rope:
			if x.flat != nil {
				out = append(out, x.flat)
			} else {
				for _, y := range x.parts {
					out = append(out, y)
					switch y.(type) {
					case string, *SStr:
					default:
						lazy = true
					}
				}
			}
		case *FmtNum:
			if x.flat != nil {
				out = append(out, x.flat)
			} else {
				out = append(out, x)
				lazy = true
			}
		case *Opaque:
			out = append(out, x)
			lazy = true
		case string, *SStr:
			out = append(out, x)
		default:
			p.unsupported("rope part %T", q)
		}
	}
	r := &Rope{parts: out}
	if !lazy {
		return p.flat(r)
	}
	return r
}

// strEq is the condition under which two strings are equal.
func (p *Path) strEq(a, b value) *Term {
	ts := p.w.ts
	if x, ok := a.(string); ok {
		if y, ok := b.(string); ok {
			return ts.Bool(x == y)
		}
	}
	// formatted numbers against constants: cheap refutations
	if ra, ok := a.(*Rope); ok && ra.flat == nil {
		if t := p.ropeNeverEq(ra, b); t {
			return ts.False
		}
	}
	if rb, ok := b.(*Rope); ok && rb.flat == nil {
		if t := p.ropeNeverEq(rb, a); t {
			return ts.False
		}
	}
	if ra, ok := a.(*Rope); ok {
		if rb, ok := b.(*Rope); ok {
			if ra == rb {
				return ts.True
			}
			if len(ra.parts) == len(rb.parts) && ra.flat == nil && rb.flat == nil {
				same := true
				for i := range ra.parts {
					if !samePart(ra.parts[i], rb.parts[i]) {
						same = false
					}
				}
				if same {
					return ts.True
				}
			}
		}
	}
	a, b = p.flat(a), p.flat(b)
	x, y := p.strBytes(a), p.strBytes(b)
	if len(x) != len(y) {
		return ts.False
	}
	r := ts.True
	for i := range x {
		r = ts.And(r, ts.Eq(x[i], y[i]))
		if r == ts.False {
			return r
		}
	}
	return r
}

func samePart(a, b value) bool {
	switch x := a.(type) {
	case string:
		y, ok := b.(string)
		return ok && x == y
	case *SStr:
		y, ok := b.(*SStr)
		if !ok || len(x.b) != len(y.b) {
			return false
		}
		for i := range x.b {
			if x.b[i] != y.b[i] {
				return false
			}
		}
		return true
	case *FmtNum:
		y, ok := b.(*FmtNum)
		return ok && (x == y || x.t == y.t && x.signed == y.signed && x.fmt == y.fmt && x.prec == y.prec && x.bits == y.bits)
	}
	return false
}

// ropeNeverEq: cheap proof that an unmaterialised rope differs from s (a constant string).
func (p *Path) ropeNeverEq(r *Rope, s value) bool {
	str, ok := s.(string)
	if !ok || len(r.parts) == 0 {
		return false
	}
	switch x := r.parts[0].(type) {
	case string:
		if len(x) > len(str) || str[:len(x)] != x {
			return true
		}
	case *FmtNum:
		if str == "" {
			return true
		}
		c := str[0]
		if !(c >= '0' && c <= '9') && c != '-' && !(x.fmt != 'd' && (c == '+' || c == 'N' || c == 'I')) {
			return true
		}
	}
	if x, ok := r.parts[len(r.parts)-1].(string); ok {
		if !strings.HasSuffix(str, x) {
			return true
		}
	}
	return false
}

// strLess is lexicographic a < b.
func (p *Path) strLess(a, b value) *Term {
	ts := p.w.ts
	a, b = p.flat(a), p.flat(b)
	if x, ok := a.(string); ok {
		if y, ok := b.(string); ok {
			return ts.Bool(x < y)
		}
	}
	x, y := p.strBytes(a), p.strBytes(b)
	n := len(x)
	if len(y) < n {
		n = len(y)
	}
	r := ts.Bool(len(x) < len(y))
	for i := n - 1; i >= 0; i-- {
		r = ts.Or(ts.Cmp(OpUlt, x[i], y[i]), ts.And(ts.Eq(x[i], y[i]), r))
	}
	return r
}

// --- conversions between native values and terms ---
func (p *Path) term(v value, rt *RType) *Term {
	ts := p.w.ts
	switch x := v.(type) {
	case *Term:
		return x
	case bool:
		return ts.Bool(x)
	case uint64:
		return ts.BV(x, rt.w)
	case float32:
		return ts.FPConst(uint64(math.Float32bits(x)), 32)
	case float64:
		return ts.FPConst(math.Float64bits(x), 64)
	}
	p.unsupported("term of %T as %s", v, rt.name)
	return nil
}

// equality of two values of static type rt
func (p *Path) eq(rt *RType, a, b value) *Term {
	ts := p.w.ts
	switch rt.cat {
	case CBool, CInt, CUint:
		if x, ok := a.(uint64); ok {
			if y, ok := b.(uint64); ok {
				return ts.Bool(x == y)
			}
		}
		return ts.Eq(p.term(a, rt), p.term(b, rt))
	case CFloat:
		return ts.FCmp(OpFEq, p.term(a, rt), p.term(b, rt))
	case CString:
		return p.strEq(a, b)
	case CPtr:
		x, ok1 := a.(*value)
		y, ok2 := b.(*value)
		if !ok1 || !ok2 {
			p.unsupported("pointer compare %T %T", a, b)
		}
		return ts.Bool(x == y)
	case CStruct:
		x, y := a.(structV), b.(structV)
		r := ts.True
		for i, f := range rt.flds {
			r = ts.And(r, p.eq(f, x[i], y[i]))
		}
		return r
	case CArray:
		x, y := a.(arrayV), b.(arrayV)
		r := ts.True
		for i := range x {
			r = ts.And(r, p.eq(rt.elem, x[i], y[i]))
		}
		return r
	case CIface:
		return p.ifaceEq(a.(iface), b.(iface))
	case CFunc:
		x, y := a.(*closure), b.(*closure)
		if x == nil || y == nil {
			return ts.Bool(x == y)
		}
		p.targetPanic("runtime error: comparing uncomparable type func")
	case CMap:
		return ts.Bool(a.(*mapV) == b.(*mapV))
	case CSlice:
		x, y := a.([]value), b.([]value)
		return ts.Bool(x == nil && y == nil)
	case CUnsafe:
		return ts.Bool(a.(unsafePtr) == b.(unsafePtr))
	}
	p.unsupported("equality of %s", rt.name)
	return nil
}

func (p *Path) ifaceEq(a, b iface) *Term {
	ts := p.w.ts
	if a.t == nil || b.t == nil {
		return ts.Bool(a.t == b.t)
	}
	if a.t != b.t {
		return ts.False
	}
	switch a.t.cat {
	case CFunc, CMap, CSlice:
		p.targetPanic("runtime error: comparing uncomparable type " + a.t.name)
	}
	return p.eq(a.t, a.v, b.v)
}

func (f *Func) String() string { return f.name }

// keyOf gives a comparable Go key for a concrete map key, or ok=false when it is symbolic.
func (p *Path) keyOf(k value) (value, bool) {
	switch x := k.(type) {
	case string, uint64, bool, float32, float64, *value:
		return x, true
	case *Rope:
		return p.keyOf(p.flat(x))
	case iface:
		if x.t == nil {
			return "nil-interface", true
		}
		kk, ok := p.keyOf(x.v)
		if !ok {
			return nil, false
		}
		return [2]value{x.t, kk}, true
	case structV:
		var sb strings.Builder
		for _, e := range x {
			kk, ok := p.keyOf(e)
			if !ok {
				return nil, false
			}
			fmt.Fprintf(&sb, "%T:%v|", kk, kk)
		}
		return "struct:" + sb.String(), true
	case arrayV:
		return p.keyOf(structV(x))
	}
	return nil, false
}

func newMap() *mapV { return &mapV{index: map[value]*mapEntry{}} }

// mapFind forks on equality with symbolic keys.
func (p *Path) mapFind(m *mapV, kt *RType, k value) *mapEntry {
	if m == nil {
		return nil
	}
	if r, ok := k.(*Rope); ok {
		k = p.flat(r)
	}
	ck, conc := p.keyOf(k)
	if conc {
		if e := m.index[ck]; e != nil {
			return e
		}
		if m.symb == 0 {
			return nil
		}
	}
	for _, e := range m.ents {
		if e.dead {
			continue
		}
		if conc {
			if _, ec := p.keyOf(e.k); ec {
				continue
			}
		}
		if p.decide(p.eq(kt, e.k, k)) {
			return e
		}
	}
	return nil
}

func (p *Path) mapSet(m *mapV, kt *RType, k, v value) {
	if r, ok := k.(*Rope); ok {
		k = p.flat(r)
	}
	e := p.mapFind(m, kt, k)
	if e != nil {
		e.v = v
		return
	}
	e = &mapEntry{k: k, v: v}
	m.ents = append(m.ents, e)
	m.n++
	if ck, ok := p.keyOf(k); ok {
		m.index[ck] = e
	} else {
		m.symb++
	}
}

func (p *Path) mapDelete(m *mapV, kt *RType, k value) {
	e := p.mapFind(m, kt, k)
	if e == nil {
		return
	}
	e.dead = true
	m.n--
	if ck, ok := p.keyOf(e.k); ok {
		delete(m.index, ck)
	} else {
		m.symb--
	}
	for i, x := range m.ents {
		if x == e {
			m.ents = append(append([]*mapEntry{}, m.ents[:i]...), m.ents[i+1:]...)
			break
		}
	}
}

var _ = ssa.BuilderMode(0)
