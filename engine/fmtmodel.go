package main

import (
	"fmt"
	"go/types"
	"math"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var stringType = types.Typ[types.String]

func ifaces(v value) []iface {
	s, _ := v.([]value)
	r := make([]iface, len(s))
	for i, e := range s {
		r[i], _ = e.(iface)
	}
	return r
}

func (e *Engine) ptrTo(t types.Type) *RType {
	tt.mu.Lock()
	if e.ptrs == nil {
		e.ptrs = map[types.Type]types.Type{}
	}
	pt, ok := e.ptrs[t]
	if !ok {
		pt = types.NewPointer(t)
		e.ptrs[t] = pt
	}
	tt.mu.Unlock()
	return rtypeOf(pt)
}

// native gives the Go value of a concrete basic value, for the real fmt.
func native(x iface) (interface{}, bool) {
	if x.t == nil {
		return nil, true
	}
	if _, named := types.Unalias(x.t.t).(*types.Named); named {
		return nil, false
	}
	switch v := x.v.(type) {
	case bool:
		return v, true
	case float32:
		return v, true
	case float64:
		return v, true
	case string:
		return v, true
	case uint64:
		b, ok := x.t.u.(*types.Basic)
		if !ok {
			return nil, false
		}
		switch b.Kind() {
		case types.Int:
			return int(v), true
		case types.Int8:
			return int8(v), true
		case types.Int16:
			return int16(v), true
		case types.Int32:
			return int32(v), true
		case types.Int64:
			return int64(v), true
		case types.Uint:
			return uint(v), true
		case types.Uint8:
			return uint8(v), true
		case types.Uint16:
			return uint16(v), true
		case types.Uint32:
			return uint32(v), true
		case types.Uint64:
			return v, true
		case types.Uintptr:
			return uintptr(v), true
		}
	}
	return nil, false
}

func (p *Path) sprintf(fr *frame, format value, args []iface) (value, []int) {
	f := p.concStr(format, "a format")
	var parts []value
	var wrapped []int
	argi := 0
	for i := 0; i < len(f); {
		j := strings.IndexByte(f[i:], '%')
		if j < 0 {
			parts = append(parts, f[i:])
			break
		}
		if j > 0 {
			parts = append(parts, f[i:i+j])
		}
		i += j
		k := i + 1
		for k < len(f) && strings.IndexByte("#+-0 123456789.*[]", f[k]) >= 0 {
			k++
		}
		if k >= len(f) {
			parts = append(parts, "%!(NOVERB)")
			break
		}
		spec := f[i+1 : k]
		// a verb may be any rune
		verb := []rune(f[k:])[0]
		end := k + len(string(verb))
		i = end
		if verb == '%' {
			parts = append(parts, "%")
			continue
		}
		if strings.ContainsAny(spec, "*[]") {
			p.unsupported("format %%%s%c", spec, verb)
		}
		if argi >= len(args) {
			parts = append(parts, "%!"+string(verb)+"(MISSING)")
			continue
		}
		a := args[argi]
		if verb == 'w' {
			wrapped = append(wrapped, argi)
			verb = 'v'
		}
		argi++
		if n, ok := native(a); ok {
			if a.t == nil && verb != 'v' && verb != 'T' {
				parts = append(parts, "%!"+string(verb)+"(<nil>)")
				continue
			}
			parts = append(parts, fmt.Sprintf("%"+spec+string(verb), n))
			continue
		}
		if verb == 'T' {
			parts = append(parts, fmt.Sprintf("%"+spec+"s", a.t.name))
			continue
		}
		prec := -1
		plain := spec
		if d := strings.IndexByte(spec, '.'); d >= 0 {
			n, err := strconv.Atoi(spec[d+1:])
			if err != nil {
				n = 0
			}
			prec = n
			plain = spec[:d]
		}
		if plain != "" && plain != "+" && plain != "#" {
			p.unsupported("format %%%s%c of a symbolic value", spec, verb)
		}
		if plain == "#" {
			p.unsupported("format %%#%c", verb)
		}
		parts = append(parts, p.fmtArg(fr, verb, prec, a, 0)...)
	}
	if argi < len(args) {
		parts = append(parts, "%!(EXTRA ")
		for n := argi; n < len(args); n++ {
			if n > argi {
				parts = append(parts, ", ")
			}
			if args[n].t == nil {
				parts = append(parts, "<nil>")
				continue
			}
			parts = append(parts, args[n].t.name, "=")
			parts = append(parts, p.fmtArg(fr, 'v', -1, args[n], 0)...)
		}
		parts = append(parts, ")")
	}
	return p.rope(parts), wrapped
}

func (p *Path) addr(v *value) string {
	n, ok := p.fakeAddr[v]
	if !ok {
		n = len(p.fakeAddr) + 1
		p.fakeAddr[v] = n
	}
	return fmt.Sprintf("0xc%09x", 0x10000+n*16)
}

func (p *Path) badVerb(fr *frame, verb rune, a iface) []value {
	if a.t == nil {
		return []value{"%!" + string(verb) + "(<nil>)"}
	}
	r := []value{"%!" + string(verb) + "(" + a.t.name + "="}
	b := a
	r = append(r, p.fmtRaw(fr, 'v', -1, b, 0)...)
	return append(r, ")")
}

// fmtArg formats through Error and String methods.
func (p *Path) fmtArg(fr *frame, verb rune, prec int, a iface, depth int) []value {
	if a.t == nil {
		if verb == 'v' {
			return []value{"<nil>"}
		}
		return []value{"%!" + string(verb) + "(<nil>)"}
	}
	if verb == 'p' {
		return []value{&Opaque{"address"}}
	}
	if strings.ContainsRune("vsxXq", verb) {
		for _, m := range []string{"Error", "String"} {
			f := p.eng.methodByName(a.t, m)
			if f == nil {
				continue
			}
			sig := f.fn.Signature
			if sig.Params().Len() != 0 || sig.Results().Len() != 1 || sig.Results().At(0).Type() != stringType {
				continue
			}
			var s value
			var pan *tpanic
			func() {
				defer func() {
					if r := recover(); r != nil {
						tp, ok := r.(*tpanic)
						if !ok {
							panic(r)
						}
						pan = tp
					}
				}()
				s = p.callFunc(fr, f, []value{a.v}, nil, nil)
			}()
			if pan != nil {
				if q, ok := a.v.(*value); ok && q == nil {
					return []value{"<nil>"}
				}
				return []value{&Opaque{"panicking method"}}
			}
			return p.fmtText(verb, prec, s)
		}
	}
	return p.fmtRaw(fr, verb, prec, a, depth)
}

func (p *Path) fmtText(verb rune, prec int, s value) []value {
	switch verb {
	case 's', 'v':
		if prec >= 0 {
			if str, ok := p.flat(s).(string); ok {
				return []value{fmt.Sprintf("%."+strconv.Itoa(prec)+"s", str)}
			}
			p.unsupported("precision on symbolic text")
		}
		return []value{s}
	}
	if str, ok := p.flat(s).(string); ok {
		return []value{fmt.Sprintf("%"+string(verb), str)}
	}
	if verb == 'q' {
		if f := p.stdFunc("strconv", "Quote"); f != nil {
			return []value{p.callFunc(nil, f, []value{s}, nil, nil)}
		}
	}
	p.unsupported("%%%c of symbolic text", verb)
	return nil
}

func (p *Path) stdFunc(pkg, name string) *Func {
	pk := p.eng.pkgs[pkg]
	if pk == nil {
		return nil
	}
	f := pk.Func(name)
	if f == nil {
		return nil
	}
	return funcOf(f)
}

func (p *Path) fmtRaw(fr *frame, verb rune, prec int, a iface, depth int) []value {
	if a.t == nil {
		return []value{"<nil>"}
	}
	if depth > 12 {
		p.unsupported("deeply nested value in a format")
	}
	bad := func() []value { return p.badVerb(fr, verb, a) }
	switch a.t.cat {
	case CBool:
		if verb != 't' && verb != 'v' {
			return bad()
		}
		b, ok := a.v.(bool)
		if !ok {
			b = p.decide(a.v.(*Term))
		}
		return []value{strconv.FormatBool(b)}
	case CInt, CUint:
		if k, ok := a.v.(uint64); ok {
			if a.t.cat == CInt {
				s := fmt.Sprintf("%"+string(verb), sx(k, a.t.w))
				return []value{strings.Replace(s, "(int64=", "("+a.t.name+"=", 1)}
			}
			s := fmt.Sprintf("%"+string(verb), k)
			return []value{strings.Replace(s, "(uint64=", "("+a.t.name+"=", 1)}
		}
		switch verb {
		case 'd', 'v':
			return []value{p.fmtInt(a.v, a.t)}
		case 'c':
			return []value{p.runeToStr(a.v, a.t)}
		case 's', 't', 'f', 'e', 'g':
			return bad()
		case 'x', 'X', 'o', 'b', 'q', 'U', 'O':
			// go through the digits of the source
			if verb == 'x' || verb == 'o' || verb == 'b' {
				base := map[rune]uint64{'x': 16, 'o': 8, 'b': 2}[verb]
				v := p.convert(a.t, p.eng.tInt64, a.v)
				fn := "FormatInt"
				if a.t.cat == CUint {
					fn = "FormatUint"
					v = p.convert(a.t, p.eng.tUint64, a.v)
				}
				if f := p.stdFunc("internal/strconv", fn); f != nil {
					return []value{p.callFunc(fr, f, []value{v, base}, nil, nil)}
				}
			}
			p.unsupported("%%%c of a symbolic integer", verb)
		}
		return bad()
	case CFloat:
		switch verb {
		case 'v':
			return []value{p.fmtFloat(a.v, 'g', -1, int(a.t.w))}
		case 'f', 'F', 'e', 'g', 'E', 'G':
			if prec < 0 {
				prec = 6
				if verb == 'g' || verb == 'G' {
					prec = -1
				}
			}
			v := verb
			if v == 'F' {
				v = 'f'
			}
			return []value{p.fmtFloat(a.v, byte(v), prec, int(a.t.w))}
		}
		return bad()
	case CString:
		switch verb {
		case 's', 'v', 'q', 'x', 'X':
			return p.fmtText(verb, prec, a.v)
		}
		return bad()
	case CPtr:
		q, ok := a.v.(*value)
		if !ok {
			p.unsupported("pointer %T in a format", a.v)
		}
		if q == nil {
			if verb == 'v' {
				return []value{"<nil>"}
			}
			return []value{"%!" + string(verb) + "(" + a.t.name + "=<nil>)"}
		}
		if depth == 0 {
			switch a.t.elem.cat {
			case CStruct, CArray, CSlice, CMap:
				return append([]value{"&"}, p.fmtRaw(fr, verb, prec, iface{a.t.elem, *q}, depth+1)...)
			}
		}
		if verb == 'v' {
			return []value{p.addr(q)}
		}
		return []value{"%!" + string(verb) + "(" + a.t.name + "=" + p.addr(q) + ")"}
	case CFunc:
		c := a.v.(*closure)
		s := "<nil>"
		if c != nil {
			s = "0x4a0000"
		}
		if verb == 'v' {
			return []value{s}
		}
		return []value{"%!" + string(verb) + "(" + a.t.name + "=" + s + ")"}
	case CStruct:
		s := a.v.(structV)
		st := a.t.u.(*types.Struct)
		r := []value{"{"}
		for i, f := range a.t.flds {
			if i > 0 {
				r = append(r, " ")
			}
			r = append(r, p.fmtElem(fr, verb, prec, f, s[i], depth+1, st.Field(i).Exported())...)
		}
		return append(r, "}")
	case CSlice, CArray:
		var s []value
		switch x := a.v.(type) {
		case []value:
			s = x
		case arrayV:
			s = x
		}
		if a.t.elem.cat == CUint && a.t.elem.w == 8 && (verb == 's' || verb == 'q' || verb == 'x') {
			b := make([]*Term, len(s))
			for i, e := range s {
				b[i] = p.term(e, a.t.elem)
			}
			return p.fmtText(verb, prec, p.mkStr(b))
		}
		r := []value{"["}
		for i, e := range s {
			if i > 0 {
				r = append(r, " ")
			}
			r = append(r, p.fmtElem(fr, verb, prec, a.t.elem, e, depth+1, true)...)
		}
		return append(r, "]")
	case CMap:
		m := a.v.(*mapV)
		r := []value{"map["}
		if m != nil {
			kt := rtypeOf(a.t.u.(*types.Map).Key())
			ents := append([]*mapEntry(nil), m.ents...)
			conc := true
			for _, e := range ents {
				if _, ok := e.k.(string); !ok {
					conc = false
				}
			}
			if conc {
				sort.Slice(ents, func(i, j int) bool { return ents[i].k.(string) < ents[j].k.(string) })
			} else if len(ents) > 1 {
				return []value{&Opaque{"map with several keys"}}
			}
			for i, e := range ents {
				if i > 0 {
					r = append(r, " ")
				}
				r = append(r, p.fmtElem(fr, verb, prec, kt, e.k, depth+1, true)...)
				r = append(r, ":")
				r = append(r, p.fmtElem(fr, verb, prec, a.t.elem, e.v, depth+1, true)...)
			}
		}
		return append(r, "]")
	case CIface:
		if x, ok := a.v.(iface); ok {
			return p.fmtElem(fr, verb, prec, x.t, x.v, depth, true)
		}
	}
	p.unsupported("%%%c of %s", verb, a.t.name)
	return nil
}

func (p *Path) fmtElem(fr *frame, verb rune, prec int, t *RType, v value, depth int, exported bool) []value {
	if t != nil && t.cat == CIface {
		x, _ := v.(iface)
		if x.t == nil {
			if verb == 'v' {
				return []value{"<nil>"}
			}
			return []value{"%!" + string(verb) + "(<nil>)"}
		}
		if exported {
			return p.fmtArg(fr, verb, prec, x, depth)
		}
		return p.fmtRaw(fr, verb, prec, x, depth)
	}
	if exported {
		return p.fmtArg(fr, verb, prec, iface{t, v}, depth)
	}
	return p.fmtRaw(fr, verb, prec, iface{t, v}, depth)
}

func (p *Path) sprint(fr *frame, args []iface, ln bool) value {
	var parts []value
	prevStr := false
	for i, a := range args {
		isStr := a.t != nil && a.t.cat == CString
		if i > 0 && (ln || !isStr && !prevStr) {
			parts = append(parts, " ")
		}
		parts = append(parts, p.fmtArg(fr, 'v', -1, a, 0)...)
		prevStr = isStr
	}
	if ln {
		parts = append(parts, "\n")
	}
	return p.rope(parts)
}

func (p *Path) errorf(fr *frame, format value, args []iface) value {
	if len(args) == 0 {
		// no formatting happens without a percent sign
		f := p.flat(format)
		if s, ok := f.(string); ok {
			if strings.IndexByte(s, '%') < 0 {
				return p.newError(s)
			}
		} else {
			b := p.strBytes(f)
			has := p.w.ts.False
			for _, x := range b {
				has = p.w.ts.Or(has, p.simp(p.w.ts.Eq(x, p.byteTerm('%'))))
			}
			if !p.decide(has) {
				return p.newError(f)
			}
			// what is printed for a stray verb is not modelled
			return p.newError(p.rope([]value{&Opaque{"stray verb in a symbolic format"}}))
		}
	}
	s, wrapped := p.sprintf(fr, format, args)
	if len(wrapped) == 0 {
		return p.newError(s)
	}
	if len(wrapped) > 1 {
		p.unsupported("several %%w")
	}
	c := new(value)
	inner := args[wrapped[0]]
	if inner.t == nil || p.eng.methodByName(inner.t, "Error") == nil {
		inner = iface{}
	}
	*c = structV{s, inner}
	return iface{p.namedType("fmt", "wrapError", true), c}
}

func (p *Path) fprint(fr *frame, w iface, s value) value {
	if w.t == nil {
		nilDeref(p)
	}
	f := p.eng.methodByName(w.t, "Write")
	if f == nil {
		p.unsupported("writer %s", w.t.name)
	}
	if w.t.name == "*strings.Builder" {
		return intrinsics["(*strings.Builder).WriteString"](p, fr, []value{w.v, s})
	}
	if w.t.name == "*os.File" {
		return tupleV{zeroInt, iface{}}
	}
	b := p.strBytes(p.flat(s))
	sl := make([]value, len(b))
	for i, t := range b {
		sl[i] = p.tv(t)
	}
	return p.callFunc(fr, f, []value{w.v, sl}, nil, nil)
}

// ---------- harness primitives ----------
const symPkg = "verifharness/sym."

func (p *Path) symName(v value) string { return p.concStr(v, "an input name") }

func symIntrinsics() {
	add := func(n string, f intrFn) { intrinsics[symPkg+n] = f }
	ivar := func(kind string, w uint8) intrFn {
		return func(p *Path, fr *frame, a []value) value {
			return p.newVar(p.symName(a[0]), kind, w)
		}
	}
	add("Byte", ivar("byte", 8))
	add("Bool", ivar("bool", 1))
	add("Int8", ivar("int8", 8))
	add("Int16", ivar("int16", 16))
	add("Int32", ivar("int32", 32))
	add("Int64", ivar("int64", 64))
	add("Int", ivar("int", 64))
	add("Uint8", ivar("uint8", 8))
	add("Uint16", ivar("uint16", 16))
	add("Uint32", ivar("uint32", 32))
	add("Uint64", ivar("uint64", 64))
	add("Uint", ivar("uint", 64))
	add("Float32", func(p *Path, fr *frame, a []value) value {
		return p.w.ts.FromBits(p.newVar(p.symName(a[0]), "float32", 32))
	})
	add("Float64", func(p *Path, fr *frame, a []value) value {
		return p.w.ts.FromBits(p.newVar(p.symName(a[0]), "float64", 64))
	})
	add("Str", func(p *Path, fr *frame, a []value) value {
		n := int(argInt(a[1]))
		b := make([]*Term, n)
		for i := range b {
			b[i] = p.newVar(p.symName(a[0]), "byte", 8)
		}
		return p.mkStr(b)
	})
	in := func(p *Path, name, set string) *Term {
		v := p.newVar(name, "byte", 8)
		var tab [4]uint64
		for i := 0; i < len(set); i++ {
			tab[set[i]>>6] |= 1 << (set[i] & 63)
		}
		p.assume(p.w.ts.setMember(v, &tab))
		return v
	}
	add("ByteIn", func(p *Path, fr *frame, a []value) value {
		return in(p, p.symName(a[0]), p.concStr(a[1], "a byte set"))
	})
	add("StrIn", func(p *Path, fr *frame, a []value) value {
		n := int(argInt(a[1]))
		b := make([]*Term, n)
		for i := range b {
			b[i] = in(p, p.symName(a[0]), p.concStr(a[2], "a byte set"))
		}
		return p.mkStr(b)
	})
	add("Choose", func(p *Path, fr *frame, a []value) value {
		n := int(argInt(a[1]))
		if n <= 1 {
			p.newVar(p.symName(a[0]), "choice", 8)
			return zeroInt
		}
		v := p.newVar(p.symName(a[0]), "choice", 8)
		ts := p.w.ts
		p.assume(ts.Cmp(OpUlt, v, ts.BV(uint64(n), 8)))
		lo, hi := 0, n-1
		for lo < hi {
			mid := (lo + hi) / 2
			if p.decide(ts.Cmp(OpUle, v, ts.BV(uint64(mid), 8))) {
				hi = mid
			} else {
				lo = mid + 1
			}
		}
		return uint64(lo)
	})
	add("Assume", func(p *Path, fr *frame, a []value) value {
		switch c := a[0].(type) {
		case bool:
			if !c {
				panic(abort{"infeasible", ""})
			}
		case *Term:
			if !p.assumeFeasible(c) {
				panic(abort{"infeasible", ""})
			}
		}
		return nil
	})
	add("Assert", func(p *Path, fr *frame, a []value) value {
		c := p.w.ts.False
		switch x := a[0].(type) {
		case bool:
			c = p.w.ts.Bool(x)
		case *Term:
			c = x
		}
		msg := "assertion"
		if s, ok := a[1].(string); ok {
			msg = s
		}
		p.check(c, msg)
		return nil
	})
	add("Fail", func(p *Path, fr *frame, a []value) value {
		p.check(p.w.ts.False, p.concStr(a[0], "a message"))
		return nil
	})
	add("Reach", func(p *Path, fr *frame, a []value) value {
		p.run.mu.Lock()
		p.run.res.reach[p.symName(a[0])]++
		p.run.mu.Unlock()
		return nil
	})
	add("Bound", func(p *Path, fr *frame, a []value) value {
		k := a[1]
		if p.eng.tier == "thorough" {
			k = a[2]
		}
		p.bounds[p.symName(a[0])] = fmt.Sprint(argInt(k))
		return k
	})
	add("Note", func(p *Path, fr *frame, a []value) value {
		p.bounds[p.symName(a[0])] = p.symName(a[1])
		return nil
	})
	add("Observe", func(p *Path, fr *frame, a []value) value {
		x := a[1].(iface)
		if x.t != nil {
			p.obs = append(p.obs, obsv{p.symName(a[0]), x.v, x.t})
		}
		return nil
	})
	add("Freeze", func(p *Path, fr *frame, a []value) value {
		if p.frozen == nil {
			p.frozen = map[*value]string{}
		}
		seen := map[interface{}]bool{}
		name := p.symName(a[0])
		for _, x := range ifaces(a[1]) {
			p.freeze(x.v, name, seen)
		}
		return nil
	})
	add("FreezeGlobals", func(p *Path, fr *frame, a []value) value {
		if p.frozen == nil {
			p.frozen = map[*value]string{}
		}
		p.frozenGlobals = true
		for g, c := range p.globals {
			p.freezeGlobal(g, c)
		}
		return nil
	})
	add("Thaw", func(p *Path, fr *frame, a []value) value {
		p.frozen = nil
		p.frozenGlobals = false
		return nil
	})
	add("Writes", func(p *Path, fr *frame, a []value) value { return uint64(len(p.writes)) })
	add("FirstWrite", func(p *Path, fr *frame, a []value) value {
		if len(p.writes) == 0 {
			return ""
		}
		return p.writes[0]
	})
	add("Symbolic", func(p *Path, fr *frame, a []value) value { return true })
	add("Fork", func(p *Path, fr *frame, a []value) value {
		switch c := a[0].(type) {
		case *Term:
			return p.decide(c)
		}
		return a[0]
	})
}

func (p *Path) freezeGlobal(g *ssa.Global, c *value) {
	pp := g.Pkg.Pkg.Path()
	switch classOfPath(pp) {
	case clsRepo, clsDep:
		p.freezeCell(c, "package variable "+pp+"."+g.Name(), map[interface{}]bool{})
	}
}

// assumeFeasible adds c, reporting whether the path can still be taken.
func (p *Path) assumeFeasible(c *Term) bool {
	ts := p.w.ts
	if p.spec > 0 {
		panic(specAbort{})
	}
	if c == ts.True {
		return true
	}
	if c == ts.False {
		return false
	}
	c = p.simp(c)
	if c == ts.True || c == ts.False {
		return c == ts.True
	}
	replaying := p.pos < len(p.dec)
	p.assume(c)
	if replaying || !p.stale {
		return true
	}
	r, env := p.query()
	if r == Unsat {
		return false
	}
	if r == Sat {
		p.setModel(env)
	}
	return true
}

// ---------- a little reflection ----------
type reflVal struct{ x iface }
type reflType struct{ t *RType }

func reflectIntrinsics() {
	kindOf := func(t *RType) uint64 {
		if t == nil {
			return 0
		}
		switch u := t.u.(type) {
		case *types.Basic:
			switch u.Kind() {
			case types.Bool:
				return 1
			case types.Int, types.Int8, types.Int16, types.Int32, types.Int64:
				return 2 + uint64(u.Kind()-types.Int)
			case types.Uint, types.Uint8, types.Uint16, types.Uint32, types.Uint64, types.Uintptr:
				return 7 + uint64(u.Kind()-types.Uint)
			case types.Float32:
				return 13
			case types.Float64:
				return 14
			case types.String:
				return 24
			case types.UnsafePointer:
				return 26
			}
		case *types.Array:
			return 17
		case *types.Chan:
			return 18
		case *types.Signature:
			return 19
		case *types.Interface:
			return 20
		case *types.Map:
			return 21
		case *types.Pointer:
			return 22
		case *types.Slice:
			return 23
		case *types.Struct:
			return 25
		}
		return 0
	}
	rtypeIface := func(p *Path, t *RType) value {
		if t == nil {
			return iface{}
		}
		p.eng.methMu.Lock()
		if p.eng.rtypes == nil {
			p.eng.rtypes = map[*RType]*value{}
		}
		c := p.eng.rtypes[t]
		if c == nil {
			c = new(value)
			*c = reflType{t}
			p.eng.rtypes[t] = c
		}
		p.eng.methMu.Unlock()
		return iface{p.namedType("reflect", "rtype", true), c}
	}
	tOf := func(p *Path, v value) *RType {
		c, ok := v.(*value)
		if !ok || c == nil {
			nilDeref(p)
		}
		return (*c).(reflType).t
	}
	xOf := func(p *Path, v value) iface {
		r, ok := v.(reflVal)
		if !ok {
			return iface{} // the zero Value
		}
		return r.x
	}
	add := func(n string, f intrFn) { intrinsics[n] = f }
	add("reflect.TypeOf", func(p *Path, fr *frame, a []value) value { return rtypeIface(p, a[0].(iface).t) })
	add("reflect.ValueOf", func(p *Path, fr *frame, a []value) value { return reflVal{a[0].(iface)} })
	add("(*reflect.rtype).String", func(p *Path, fr *frame, a []value) value { return tOf(p, a[0]).name })
	add("(*reflect.rtype).Kind", func(p *Path, fr *frame, a []value) value { return kindOf(tOf(p, a[0])) })
	add("(*reflect.rtype).Name", func(p *Path, fr *frame, a []value) value {
		if n, ok := types.Unalias(tOf(p, a[0]).t).(*types.Named); ok {
			return n.Obj().Name()
		}
		if b, ok := tOf(p, a[0]).t.(*types.Basic); ok {
			return reflectName(b)
		}
		return ""
	})
	add("(*reflect.rtype).Elem", func(p *Path, fr *frame, a []value) value { return rtypeIface(p, tOf(p, a[0]).elem) })
	add("(reflect.Value).Kind", func(p *Path, fr *frame, a []value) value { return kindOf(xOf(p, a[0]).t) })
	add("(reflect.Value).IsValid", func(p *Path, fr *frame, a []value) value { return xOf(p, a[0]).t != nil })
	add("(reflect.Value).Type", func(p *Path, fr *frame, a []value) value { return rtypeIface(p, xOf(p, a[0]).t) })
	add("(reflect.Value).Interface", func(p *Path, fr *frame, a []value) value { return xOf(p, a[0]) })
	add("(reflect.Value).IsNil", func(p *Path, fr *frame, a []value) value {
		switch v := xOf(p, a[0]).v.(type) {
		case *value:
			return v == nil
		case *closure:
			return v == nil
		case *mapV:
			return v == nil
		case []value:
			return v == nil
		case iface:
			return v.t == nil
		}
		p.throw(iface{rtypeOf(stringType), "reflect: call of reflect.Value.IsNil"})
		return nil
	})
	add("(reflect.Value).Len", func(p *Path, fr *frame, a []value) value {
		x := xOf(p, a[0])
		return p.builtin(fr, "len", []value{x.v}, []*RType{x.t})
	})
	add("(reflect.Value).Elem", func(p *Path, fr *frame, a []value) value {
		x := xOf(p, a[0])
		if c, ok := x.v.(*value); ok {
			if c == nil {
				return reflVal{}
			}
			return reflVal{iface{x.t.elem, copyVal(*c)}}
		}
		p.unsupported("reflect Elem of %T", x.v)
		return nil
	})
	add("(reflect.Value).Index", func(p *Path, fr *frame, a []value) value {
		x := xOf(p, a[0])
		if s, ok := x.v.([]value); ok {
			k, ok := a[1].(uint64)
			if ok && int(k) < len(s) {
				e := s[k]
				if x.t.elem.cat == CIface {
					return reflVal{e.(iface)}
				}
				return reflVal{iface{x.t.elem, e}}
			}
		}
		p.unsupported("reflect Index")
		return nil
	})
	basic := func(p *Path, fr *frame, a []value) value {
		x := xOf(p, a[0])
		switch x.t.cat {
		case CInt:
			return p.convert(x.t, p.eng.tInt64, x.v)
		case CUint:
			return p.convert(x.t, p.eng.tUint64, x.v)
		case CFloat:
			return p.convert(x.t, p.eng.tFloat64, x.v)
		}
		return x.v
	}
	for _, n := range []string{"Int", "Uint", "Float", "Bool", "String"} {
		add("(reflect.Value)."+n, basic)
	}
}

func atomicIntrinsics() {
	cell := func(p *Path, v value) *value {
		c, ok := v.(*value)
		if !ok || c == nil {
			nilDeref(p)
		}
		return c
	}
	for _, t := range []struct {
		n string
		w uint8
	}{{"Int32", 32}, {"Int64", 64}, {"Uint32", 32}, {"Uint64", 64}} {
		w := t.w
		rt := func(p *Path) *RType {
			if w == 32 {
				return p.eng.tUint32
			}
			return p.eng.tUint64
		}
		addF := func(p *Path, c *value, d value) value {
			*c = p.tv(p.w.ts.Bin(OpAdd, p.term(*c, rt(p)), p.term(d, rt(p))))
			return *c
		}
		inner := func(p *Path, v value) *value {
			s := (*cell(p, v)).(structV)
			return &s[len(s)-1]
		}
		intrinsics["sync/atomic.Add"+t.n] = func(p *Path, fr *frame, a []value) value { return addF(p, cell(p, a[0]), a[1]) }
		intrinsics["sync/atomic.Load"+t.n] = func(p *Path, fr *frame, a []value) value { return *cell(p, a[0]) }
		intrinsics["sync/atomic.Store"+t.n] = func(p *Path, fr *frame, a []value) value { *cell(p, a[0]) = a[1]; return nil }
		intrinsics["(*sync/atomic."+t.n+").Add"] = func(p *Path, fr *frame, a []value) value { return addF(p, inner(p, a[0]), a[1]) }
		intrinsics["(*sync/atomic."+t.n+").Load"] = func(p *Path, fr *frame, a []value) value { return *inner(p, a[0]) }
		intrinsics["(*sync/atomic."+t.n+").Store"] = func(p *Path, fr *frame, a []value) value { *inner(p, a[0]) = a[1]; return nil }
	}
	intrinsics["(*sync/atomic.Bool).Load"] = func(p *Path, fr *frame, a []value) value {
		s := (*cell(p, a[0])).(structV)
		k, _ := s[len(s)-1].(uint64)
		return k != 0
	}
	intrinsics["(*sync/atomic.Bool).Store"] = func(p *Path, fr *frame, a []value) value {
		s := (*cell(p, a[0])).(structV)
		b, ok := a[1].(bool)
		if !ok {
			b = p.decide(a[1].(*Term))
		}
		k := uint64(0)
		if b {
			k = 1
		}
		s[len(s)-1] = k
		return nil
	}
	// typed pointers: the value lives in the last field
	intrinsics["(*sync/atomic.Pointer[T]).Load"] = func(p *Path, fr *frame, a []value) value {
		s := (*cell(p, a[0])).(structV)
		if u, ok := s[len(s)-1].(unsafePtr); ok {
			if u.v == nil {
				return (*value)(nil)
			}
			return u.v
		}
		return s[len(s)-1]
	}
	intrinsics["(*sync/atomic.Pointer[T]).Store"] = func(p *Path, fr *frame, a []value) value {
		s := (*cell(p, a[0])).(structV)
		s[len(s)-1] = unsafePtr{a[1]}
		return nil
	}
	intrinsics["(*sync/atomic.Value).Load"] = func(p *Path, fr *frame, a []value) value {
		s := (*cell(p, a[0])).(structV)
		return s[0]
	}
	intrinsics["(*sync/atomic.Value).Store"] = func(p *Path, fr *frame, a []value) value {
		s := (*cell(p, a[0])).(structV)
		s[0] = a[1]
		return nil
	}
}

var _ = math.Pi
