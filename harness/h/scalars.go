// The scalars a document can hold, with every way of storing them.
package h

import (
	json "github.com/matehaxor03/holistic_json/json"

	"verifharness/sym"
)

// the kinds of scalars a document can hold
const (
	kNil = iota
	kBool
	kString
	kInt
	kInt8
	kInt16
	kInt32
	kInt64
	kUInt
	kUInt8
	kUInt16
	kUInt32
	kUInt64
	kFloat32
	kFloat64
	kinds
)

// scalar is a value to be stored, in its own type.
type scalar struct {
	kind     int
	b        bool
	s        string
	vInt     int
	vInt8    int8
	vInt16   int16
	vInt32   int32
	vInt64   int64
	vUInt    uint
	vUInt8   uint8
	vUInt16  uint16
	vUInt32  uint32
	vUInt64  uint64
	vFloat32 float32
	vFloat64 float64
}

// anyScalar is an arbitrary value of a kind; n is the length of a string.
func anyScalar(kind int, name string, n int) *scalar {
	x := &scalar{kind: kind}
	switch kind {
	case kBool:
		x.b = sym.Bool(name)
	case kString:
		x.s = sym.Str(name, n)
	case kInt:
		x.vInt = sym.Int(name)
	case kInt8:
		x.vInt8 = sym.Int8(name)
	case kInt16:
		x.vInt16 = sym.Int16(name)
	case kInt32:
		x.vInt32 = sym.Int32(name)
	case kInt64:
		x.vInt64 = sym.Int64(name)
	case kUInt:
		x.vUInt = sym.Uint(name)
	case kUInt8:
		x.vUInt8 = sym.Uint8(name)
	case kUInt16:
		x.vUInt16 = sym.Uint16(name)
	case kUInt32:
		x.vUInt32 = sym.Uint32(name)
	case kUInt64:
		x.vUInt64 = sym.Uint64(name)
	case kFloat32:
		x.vFloat32 = sym.Float32(name)
	case kFloat64:
		x.vFloat64 = sym.Float64(name)
	}
	return x
}

// object is the Go value, or a pointer to it.
func (x *scalar) object(ptr bool) interface{} {
	switch x.kind {
	case kBool:
		if ptr {
			v := x.b
			return &v
		}
		return x.b
	case kString:
		if ptr {
			v := x.s
			return &v
		}
		return x.s
	case kInt:
		if ptr {
			v := x.vInt
			return &v
		}
		return x.vInt
	case kInt8:
		if ptr {
			v := x.vInt8
			return &v
		}
		return x.vInt8
	case kInt16:
		if ptr {
			v := x.vInt16
			return &v
		}
		return x.vInt16
	case kInt32:
		if ptr {
			v := x.vInt32
			return &v
		}
		return x.vInt32
	case kInt64:
		if ptr {
			v := x.vInt64
			return &v
		}
		return x.vInt64
	case kUInt:
		if ptr {
			v := x.vUInt
			return &v
		}
		return x.vUInt
	case kUInt8:
		if ptr {
			v := x.vUInt8
			return &v
		}
		return x.vUInt8
	case kUInt16:
		if ptr {
			v := x.vUInt16
			return &v
		}
		return x.vUInt16
	case kUInt32:
		if ptr {
			v := x.vUInt32
			return &v
		}
		return x.vUInt32
	case kUInt64:
		if ptr {
			v := x.vUInt64
			return &v
		}
		return x.vUInt64
	case kFloat32:
		if ptr {
			v := x.vFloat32
			return &v
		}
		return x.vFloat32
	case kFloat64:
		if ptr {
			v := x.vFloat64
			return &v
		}
		return x.vFloat64
	}
	return nil
}

// tree is what the scalar is, as a tree.
func (x *scalar) tree() *node {
	k, u, s := rawObj(x.object(false))
	return &node{kind: k, u: u, s: s}
}

// setIn stores the scalar with the typed setter.
func (x *scalar) setIn(m *json.Map, k string, ptr bool) {
	switch x.kind {
	case kNil:
		m.SetNil(k)
	case kBool:
		if ptr {
			p := x.b
			m.SetBool(k, &p)
		} else {
			m.SetBoolValue(k, x.b)
		}
	case kString:
		if ptr {
			p := x.s
			m.SetString(k, &p)
		} else {
			m.SetStringValue(k, x.s)
		}
	case kInt:
		if ptr {
			p := x.vInt
			m.SetInt(k, &p)
		} else {
			m.SetIntValue(k, x.vInt)
		}
	case kInt8:
		if ptr {
			p := x.vInt8
			m.SetInt8(k, &p)
		} else {
			m.SetInt8Value(k, x.vInt8)
		}
	case kInt16:
		if ptr {
			p := x.vInt16
			m.SetInt16(k, &p)
		} else {
			m.SetInt16Value(k, x.vInt16)
		}
	case kInt32:
		if ptr {
			p := x.vInt32
			m.SetInt32(k, &p)
		} else {
			m.SetInt32Value(k, x.vInt32)
		}
	case kInt64:
		if ptr {
			p := x.vInt64
			m.SetInt64(k, &p)
		} else {
			m.SetInt64Value(k, x.vInt64)
		}
	case kUInt:
		if ptr {
			p := x.vUInt
			m.SetUInt(k, &p)
		} else {
			m.SetUIntValue(k, x.vUInt)
		}
	case kUInt8:
		if ptr {
			p := x.vUInt8
			m.SetUInt8(k, &p)
		} else {
			m.SetUInt8Value(k, x.vUInt8)
		}
	case kUInt16:
		if ptr {
			p := x.vUInt16
			m.SetUInt16(k, &p)
		} else {
			m.SetUInt16Value(k, x.vUInt16)
		}
	case kUInt32:
		if ptr {
			p := x.vUInt32
			m.SetUInt32(k, &p)
		} else {
			m.SetUInt32Value(k, x.vUInt32)
		}
	case kUInt64:
		if ptr {
			p := x.vUInt64
			m.SetUInt64(k, &p)
		} else {
			m.SetUInt64Value(k, x.vUInt64)
		}
	case kFloat32:
		if ptr {
			p := x.vFloat32
			m.SetFloat32(k, &p)
		} else {
			m.SetFloat32Value(k, x.vFloat32)
		}
	case kFloat64:
		if ptr {
			p := x.vFloat64
			m.SetFloat64(k, &p)
		} else {
			m.SetFloat64Value(k, x.vFloat64)
		}
	}
}

// appendTo stores the scalar with the typed setter.
func (x *scalar) appendTo(a *json.Array, ptr bool) {
	switch x.kind {
	case kNil:
		a.AppendNil()
	case kBool:
		if ptr {
			p := x.b
			a.AppendBool(&p)
		} else {
			a.AppendBoolValue(x.b)
		}
	case kString:
		if ptr {
			p := x.s
			a.AppendString(&p)
		} else {
			a.AppendStringValue(x.s)
		}
	case kInt:
		if ptr {
			p := x.vInt
			a.AppendInt(&p)
		} else {
			a.AppendIntValue(x.vInt)
		}
	case kInt8:
		if ptr {
			p := x.vInt8
			a.AppendInt8(&p)
		} else {
			a.AppendInt8Value(x.vInt8)
		}
	case kInt16:
		if ptr {
			p := x.vInt16
			a.AppendInt16(&p)
		} else {
			a.AppendInt16Value(x.vInt16)
		}
	case kInt32:
		if ptr {
			p := x.vInt32
			a.AppendInt32(&p)
		} else {
			a.AppendInt32Value(x.vInt32)
		}
	case kInt64:
		if ptr {
			p := x.vInt64
			a.AppendInt64(&p)
		} else {
			a.AppendInt64Value(x.vInt64)
		}
	case kUInt:
		if ptr {
			p := x.vUInt
			a.AppendUInt(&p)
		} else {
			a.AppendUIntValue(x.vUInt)
		}
	case kUInt8:
		if ptr {
			p := x.vUInt8
			a.AppendUInt8(&p)
		} else {
			a.AppendUInt8Value(x.vUInt8)
		}
	case kUInt16:
		if ptr {
			p := x.vUInt16
			a.AppendUInt16(&p)
		} else {
			a.AppendUInt16Value(x.vUInt16)
		}
	case kUInt32:
		if ptr {
			p := x.vUInt32
			a.AppendUInt32(&p)
		} else {
			a.AppendUInt32Value(x.vUInt32)
		}
	case kUInt64:
		if ptr {
			p := x.vUInt64
			a.AppendUInt64(&p)
		} else {
			a.AppendUInt64Value(x.vUInt64)
		}
	case kFloat32:
		if ptr {
			p := x.vFloat32
			a.AppendFloat32(&p)
		} else {
			a.AppendFloat32Value(x.vFloat32)
		}
	case kFloat64:
		if ptr {
			p := x.vFloat64
			a.AppendFloat64(&p)
		} else {
			a.AppendFloat64Value(x.vFloat64)
		}
	}
}

// setOf stores the scalar with the typed setter.
func (x *scalar) setOf(v *json.Value, ptr bool) {
	switch x.kind {
	case kNil:
		v.SetNil()
	case kBool:
		if ptr {
			p := x.b
			v.SetBool(&p)
		} else {
			v.SetBoolValue(x.b)
		}
	case kString:
		if ptr {
			p := x.s
			v.SetString(&p)
		} else {
			v.SetStringValue(x.s)
		}
	case kInt:
		if ptr {
			p := x.vInt
			v.SetInt(&p)
		} else {
			v.SetIntValue(x.vInt)
		}
	case kInt8:
		if ptr {
			p := x.vInt8
			v.SetInt8(&p)
		} else {
			v.SetInt8Value(x.vInt8)
		}
	case kInt16:
		if ptr {
			p := x.vInt16
			v.SetInt16(&p)
		} else {
			v.SetInt16Value(x.vInt16)
		}
	case kInt32:
		if ptr {
			p := x.vInt32
			v.SetInt32(&p)
		} else {
			v.SetInt32Value(x.vInt32)
		}
	case kInt64:
		if ptr {
			p := x.vInt64
			v.SetInt64(&p)
		} else {
			v.SetInt64Value(x.vInt64)
		}
	case kUInt:
		if ptr {
			p := x.vUInt
			v.SetUInt(&p)
		} else {
			v.SetUIntValue(x.vUInt)
		}
	case kUInt8:
		if ptr {
			p := x.vUInt8
			v.SetUInt8(&p)
		} else {
			v.SetUInt8Value(x.vUInt8)
		}
	case kUInt16:
		if ptr {
			p := x.vUInt16
			v.SetUInt16(&p)
		} else {
			v.SetUInt16Value(x.vUInt16)
		}
	case kUInt32:
		if ptr {
			p := x.vUInt32
			v.SetUInt32(&p)
		} else {
			v.SetUInt32Value(x.vUInt32)
		}
	case kUInt64:
		if ptr {
			p := x.vUInt64
			v.SetUInt64(&p)
		} else {
			v.SetUInt64Value(x.vUInt64)
		}
	case kFloat32:
		if ptr {
			p := x.vFloat32
			v.SetFloat32(&p)
		} else {
			v.SetFloat32Value(x.vFloat32)
		}
	case kFloat64:
		if ptr {
			p := x.vFloat64
			v.SetFloat64(&p)
		} else {
			v.SetFloat64Value(x.vFloat64)
		}
	}
}

// through writes the value through a pointer made by object.
func (x *scalar) through(p interface{}) {
	switch q := p.(type) {
	case *bool:
		*q = x.b
	case *string:
		*q = x.s
	case *int:
		*q = x.vInt
	case *int8:
		*q = x.vInt8
	case *int16:
		*q = x.vInt16
	case *int32:
		*q = x.vInt32
	case *int64:
		*q = x.vInt64
	case *uint:
		*q = x.vUInt
	case *uint8:
		*q = x.vUInt8
	case *uint16:
		*q = x.vUInt16
	case *uint32:
		*q = x.vUInt32
	case *uint64:
		*q = x.vUInt64
	case *float32:
		*q = x.vFloat32
	case *float64:
		*q = x.vFloat64
	}
}
