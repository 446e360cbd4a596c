// The typed accessors, as tables: an accessor is named by the kind it gives.
package h

import json "github.com/matehaxor03/holistic_json/json"

// result is what an accessor gave: a value (nil if none) or errors.
type result struct {
	n      *node
	failed bool
}

func gave(o interface{}, errs []error) *result {
	k, u, s := rawObj(o)
	return &result{n: &node{kind: k, u: u, s: s}, failed: len(errs) > 0}
}

// read reads a value with a typed accessor, in its pointer or value form.
func read(v *json.Value, acc int, value bool) *result {
	switch acc {
	case kBool:
		if value {
			x, errs := v.GetBoolValue()
			return gave(x, errs)
		}
		x, errs := v.GetBool()
		return gave(x, errs)
	case kString:
		if value {
			x, errs := v.GetStringValue()
			return gave(x, errs)
		}
		x, errs := v.GetString()
		return gave(x, errs)
	case kInt:
		if value {
			x, errs := v.GetIntValue()
			return gave(x, errs)
		}
		x, errs := v.GetInt()
		return gave(x, errs)
	case kInt8:
		if value {
			x, errs := v.GetInt8Value()
			return gave(x, errs)
		}
		x, errs := v.GetInt8()
		return gave(x, errs)
	case kInt16:
		if value {
			x, errs := v.GetInt16Value()
			return gave(x, errs)
		}
		x, errs := v.GetInt16()
		return gave(x, errs)
	case kInt32:
		if value {
			x, errs := v.GetInt32Value()
			return gave(x, errs)
		}
		x, errs := v.GetInt32()
		return gave(x, errs)
	case kInt64:
		if value {
			x, errs := v.GetInt64Value()
			return gave(x, errs)
		}
		x, errs := v.GetInt64()
		return gave(x, errs)
	case kUInt:
		if value {
			x, errs := v.GetUIntValue()
			return gave(x, errs)
		}
		x, errs := v.GetUInt()
		return gave(x, errs)
	case kUInt8:
		if value {
			x, errs := v.GetUInt8Value()
			return gave(x, errs)
		}
		x, errs := v.GetUInt8()
		return gave(x, errs)
	case kUInt16:
		if value {
			x, errs := v.GetUInt16Value()
			return gave(x, errs)
		}
		x, errs := v.GetUInt16()
		return gave(x, errs)
	case kUInt32:
		if value {
			x, errs := v.GetUInt32Value()
			return gave(x, errs)
		}
		x, errs := v.GetUInt32()
		return gave(x, errs)
	case kUInt64:
		if value {
			x, errs := v.GetUInt64Value()
			return gave(x, errs)
		}
		x, errs := v.GetUInt64()
		return gave(x, errs)
	case kFloat32:
		if value {
			x, errs := v.GetFloat32Value()
			return gave(x, errs)
		}
		x, errs := v.GetFloat32()
		return gave(x, errs)
	case kFloat64:
		if value {
			x, errs := v.GetFloat64Value()
			return gave(x, errs)
		}
		x, errs := v.GetFloat64()
		return gave(x, errs)
	}
	panic("no such accessor")
}

// readKey reads a member of a map.
func readKey(m *json.Map, k string, acc int, value bool) *result {
	switch acc {
	case kBool:
		if value {
			x, errs := m.GetBoolValue(k)
			return gave(x, errs)
		}
		x, errs := m.GetBool(k)
		return gave(x, errs)
	case kString:
		if value {
			x, errs := m.GetStringValue(k)
			return gave(x, errs)
		}
		x, errs := m.GetString(k)
		return gave(x, errs)
	case kInt:
		if value {
			x, errs := m.GetIntValue(k)
			return gave(x, errs)
		}
		x, errs := m.GetInt(k)
		return gave(x, errs)
	case kInt8:
		if value {
			x, errs := m.GetInt8Value(k)
			return gave(x, errs)
		}
		x, errs := m.GetInt8(k)
		return gave(x, errs)
	case kInt16:
		if value {
			x, errs := m.GetInt16Value(k)
			return gave(x, errs)
		}
		x, errs := m.GetInt16(k)
		return gave(x, errs)
	case kInt32:
		if value {
			x, errs := m.GetInt32Value(k)
			return gave(x, errs)
		}
		x, errs := m.GetInt32(k)
		return gave(x, errs)
	case kInt64:
		if value {
			x, errs := m.GetInt64Value(k)
			return gave(x, errs)
		}
		x, errs := m.GetInt64(k)
		return gave(x, errs)
	case kUInt:
		if value {
			x, errs := m.GetUIntValue(k)
			return gave(x, errs)
		}
		x, errs := m.GetUInt(k)
		return gave(x, errs)
	case kUInt8:
		if value {
			x, errs := m.GetUInt8Value(k)
			return gave(x, errs)
		}
		x, errs := m.GetUInt8(k)
		return gave(x, errs)
	case kUInt16:
		if value {
			x, errs := m.GetUInt16Value(k)
			return gave(x, errs)
		}
		x, errs := m.GetUInt16(k)
		return gave(x, errs)
	case kUInt32:
		if value {
			x, errs := m.GetUInt32Value(k)
			return gave(x, errs)
		}
		x, errs := m.GetUInt32(k)
		return gave(x, errs)
	case kUInt64:
		if value {
			x, errs := m.GetUInt64Value(k)
			return gave(x, errs)
		}
		x, errs := m.GetUInt64(k)
		return gave(x, errs)
	case kFloat32:
		if value {
			x, errs := m.GetFloat32Value(k)
			return gave(x, errs)
		}
		x, errs := m.GetFloat32(k)
		return gave(x, errs)
	case kFloat64:
		if value {
			x, errs := m.GetFloat64Value(k)
			return gave(x, errs)
		}
		x, errs := m.GetFloat64(k)
		return gave(x, errs)
	}
	panic("no such accessor")
}

// readList reads a whole array with a typed accessor; nil entries have the kind nil.
func readList(a *json.Array, acc int, value bool) ([]*node, bool) {
	var r []*node
	add := func(o interface{}) {
		k, u, s := rawObj(o)
		r = append(r, &node{kind: k, u: u, s: s})
	}
	switch acc {
	case kBool:
		if value {
			xs, errs := a.GetArrayOfBoolValue()
			for _, x := range xs {
				add(x)
			}
			return r, len(errs) > 0
		}
		xs, errs := a.GetArrayOfBool()
		if xs != nil {
			for _, x := range *xs {
				add(x)
			}
		}
		return r, len(errs) > 0
	case kString:
		if value {
			xs, errs := a.GetArrayOfStringValue()
			for _, x := range xs {
				add(x)
			}
			return r, len(errs) > 0
		}
		xs, errs := a.GetArrayOfString()
		if xs != nil {
			for _, x := range *xs {
				add(x)
			}
		}
		return r, len(errs) > 0
	case kInt:
		if value {
			xs, errs := a.GetArrayOfIntValue()
			for _, x := range xs {
				add(x)
			}
			return r, len(errs) > 0
		}
		xs, errs := a.GetArrayOfInt()
		if xs != nil {
			for _, x := range *xs {
				add(x)
			}
		}
		return r, len(errs) > 0
	case kInt8:
		if value {
			xs, errs := a.GetArrayOfInt8Value()
			for _, x := range xs {
				add(x)
			}
			return r, len(errs) > 0
		}
		xs, errs := a.GetArrayOfInt8()
		if xs != nil {
			for _, x := range *xs {
				add(x)
			}
		}
		return r, len(errs) > 0
	case kInt16:
		if value {
			xs, errs := a.GetArrayOfInt16Value()
			for _, x := range xs {
				add(x)
			}
			return r, len(errs) > 0
		}
		xs, errs := a.GetArrayOfInt16()
		if xs != nil {
			for _, x := range *xs {
				add(x)
			}
		}
		return r, len(errs) > 0
	case kInt32:
		if value {
			xs, errs := a.GetArrayOfInt32Value()
			for _, x := range xs {
				add(x)
			}
			return r, len(errs) > 0
		}
		xs, errs := a.GetArrayOfInt32()
		if xs != nil {
			for _, x := range *xs {
				add(x)
			}
		}
		return r, len(errs) > 0
	case kInt64:
		if value {
			xs, errs := a.GetArrayOfInt64Value()
			for _, x := range xs {
				add(x)
			}
			return r, len(errs) > 0
		}
		xs, errs := a.GetArrayOfInt64()
		if xs != nil {
			for _, x := range *xs {
				add(x)
			}
		}
		return r, len(errs) > 0
	case kUInt:
		if value {
			xs, errs := a.GetArrayOfUIntValue()
			for _, x := range xs {
				add(x)
			}
			return r, len(errs) > 0
		}
		xs, errs := a.GetArrayOfUInt()
		if xs != nil {
			for _, x := range *xs {
				add(x)
			}
		}
		return r, len(errs) > 0
	case kUInt8:
		if value {
			xs, errs := a.GetArrayOfUInt8Value()
			for _, x := range xs {
				add(x)
			}
			return r, len(errs) > 0
		}
		xs, errs := a.GetArrayOfUInt8()
		if xs != nil {
			for _, x := range *xs {
				add(x)
			}
		}
		return r, len(errs) > 0
	case kUInt16:
		if value {
			xs, errs := a.GetArrayOfUInt16Value()
			for _, x := range xs {
				add(x)
			}
			return r, len(errs) > 0
		}
		xs, errs := a.GetArrayOfUInt16()
		if xs != nil {
			for _, x := range *xs {
				add(x)
			}
		}
		return r, len(errs) > 0
	case kUInt32:
		if value {
			xs, errs := a.GetArrayOfUInt32Value()
			for _, x := range xs {
				add(x)
			}
			return r, len(errs) > 0
		}
		xs, errs := a.GetArrayOfUInt32()
		if xs != nil {
			for _, x := range *xs {
				add(x)
			}
		}
		return r, len(errs) > 0
	case kUInt64:
		if value {
			xs, errs := a.GetArrayOfUInt64Value()
			for _, x := range xs {
				add(x)
			}
			return r, len(errs) > 0
		}
		xs, errs := a.GetArrayOfUInt64()
		if xs != nil {
			for _, x := range *xs {
				add(x)
			}
		}
		return r, len(errs) > 0
	case kFloat32:
		if value {
			xs, errs := a.GetArrayOfFloat32Value()
			for _, x := range xs {
				add(x)
			}
			return r, len(errs) > 0
		}
		xs, errs := a.GetArrayOfFloat32()
		if xs != nil {
			for _, x := range *xs {
				add(x)
			}
		}
		return r, len(errs) > 0
	case kFloat64:
		if value {
			xs, errs := a.GetArrayOfFloat64Value()
			for _, x := range xs {
				add(x)
			}
			return r, len(errs) > 0
		}
		xs, errs := a.GetArrayOfFloat64()
		if xs != nil {
			for _, x := range *xs {
				add(x)
			}
		}
		return r, len(errs) > 0
	}
	panic("no such accessor")
}

// readListKey reads a member that is an array; ok is false if the map has no such accessor.
func readListKey(m *json.Map, k string, acc int, value bool) (r []*node, failed, none, ok bool) {
	add := func(o interface{}) {
		k, u, s := rawObj(o)
		r = append(r, &node{kind: k, u: u, s: s})
	}
	switch acc {
	case kBool:
		if value {
			xs, errs := m.GetArrayOfBoolValue(k)
			for _, x := range xs {
				add(x)
			}
			return r, len(errs) > 0, xs == nil, true
		}
		xs, errs := m.GetArrayOfBool(k)
		if xs != nil {
			for _, x := range *xs {
				add(x)
			}
		}
		return r, len(errs) > 0, xs == nil, true
	case kString:
		if value {
			return
		}
		xs, errs := m.GetArrayOfString(k)
		if xs != nil {
			for _, x := range *xs {
				add(x)
			}
		}
		return r, len(errs) > 0, xs == nil, true
	case kInt:
		if value {
			return
		}
		xs, errs := m.GetArrayOfInt(k)
		if xs != nil {
			for _, x := range *xs {
				add(x)
			}
		}
		return r, len(errs) > 0, xs == nil, true
	case kInt8:
		if value {
			return
		}
		xs, errs := m.GetArrayOfInt8(k)
		if xs != nil {
			for _, x := range *xs {
				add(x)
			}
		}
		return r, len(errs) > 0, xs == nil, true
	case kInt16:
		if value {
			return
		}
		xs, errs := m.GetArrayOfInt16(k)
		if xs != nil {
			for _, x := range *xs {
				add(x)
			}
		}
		return r, len(errs) > 0, xs == nil, true
	case kInt32:
		if value {
			return
		}
		xs, errs := m.GetArrayOfInt32(k)
		if xs != nil {
			for _, x := range *xs {
				add(x)
			}
		}
		return r, len(errs) > 0, xs == nil, true
	case kInt64:
		if value {
			return
		}
		xs, errs := m.GetArrayOfInt64(k)
		if xs != nil {
			for _, x := range *xs {
				add(x)
			}
		}
		return r, len(errs) > 0, xs == nil, true
	case kUInt:
		if value {
			return
		}
		xs, errs := m.GetArrayOfUInt(k)
		if xs != nil {
			for _, x := range *xs {
				add(x)
			}
		}
		return r, len(errs) > 0, xs == nil, true
	case kUInt8:
		if value {
			return
		}
		xs, errs := m.GetArrayOfUInt8(k)
		if xs != nil {
			for _, x := range *xs {
				add(x)
			}
		}
		return r, len(errs) > 0, xs == nil, true
	case kUInt16:
		if value {
			return
		}
		xs, errs := m.GetArrayOfUInt16(k)
		if xs != nil {
			for _, x := range *xs {
				add(x)
			}
		}
		return r, len(errs) > 0, xs == nil, true
	case kUInt32:
		if value {
			return
		}
		xs, errs := m.GetArrayOfUInt32(k)
		if xs != nil {
			for _, x := range *xs {
				add(x)
			}
		}
		return r, len(errs) > 0, xs == nil, true
	case kUInt64:
		if value {
			return
		}
		xs, errs := m.GetArrayOfUInt64(k)
		if xs != nil {
			for _, x := range *xs {
				add(x)
			}
		}
		return r, len(errs) > 0, xs == nil, true
	case kFloat32:
		if value {
			xs, errs := m.GetArrayOfFloat32Value(k)
			for _, x := range xs {
				add(x)
			}
			return r, len(errs) > 0, xs == nil, true
		}
		xs, errs := m.GetArrayOfFloat32(k)
		if xs != nil {
			for _, x := range *xs {
				add(x)
			}
		}
		return r, len(errs) > 0, xs == nil, true
	case kFloat64:
		if value {
			xs, errs := m.GetArrayOfFloat64Value(k)
			for _, x := range xs {
				add(x)
			}
			return r, len(errs) > 0, xs == nil, true
		}
		xs, errs := m.GetArrayOfFloat64(k)
		if xs != nil {
			for _, x := range *xs {
				add(x)
			}
		}
		return r, len(errs) > 0, xs == nil, true
	}
	panic("no such accessor")
}
