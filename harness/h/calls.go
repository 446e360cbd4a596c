// Written by tools/gen_calls.py: calls of every reader the API declares.
package h

import (
	"strings"

	json "github.com/matehaxor03/holistic_json/json"

	"verifharness/sym"
)

// readValue calls one reader of Value, by number; there are ValueReaders.
const readersOfValue = 66

func readValue(v *json.Value, i int, s string, n int) {
	switch i {
	case 0:
		v.GetMap()
	case 1:
		v.GetMapValue()
	case 2:
		v.IsMap()
	case 3:
		v.IsEmptyString()
	case 4:
		v.GetFunc()
	case 5:
		v.GetErrors()
	case 6:
		v.GetArray()
	case 7:
		v.GetArrayValue()
	case 8:
		v.GetBool()
	case 9:
		v.GetBoolValue()
	case 10:
		v.IsArray()
	case 11:
		v.GetType()
	case 12:
		v.GetObject()
	case 13:
		v.IsString()
	case 14:
		v.IsValueEqualToStringValue(s)
	case 15:
		v.IsValueEqualToString(&s)
	case 16:
		v.GetStringValue()
	case 17:
		v.GetString()
	case 18:
		v.IsNumber()
	case 19:
		v.IsFloat()
	case 20:
		v.IsFloat32()
	case 21:
		v.IsFloat64()
	case 22:
		v.IsBool()
	case 23:
		v.IsBoolTrue()
	case 24:
		v.IsBoolFalse()
	case 25:
		v.IsInteger()
	case 26:
		v.IsInt()
	case 27:
		v.IsInt8()
	case 28:
		v.IsInt16()
	case 29:
		v.IsInt32()
	case 30:
		v.IsInt64()
	case 31:
		v.IsUInt()
	case 32:
		v.IsUInt8()
	case 33:
		v.IsUInt16()
	case 34:
		v.IsUInt32()
	case 35:
		v.IsUInt64()
	case 36:
		v.GetFloat32()
	case 37:
		v.GetFloat32Value()
	case 38:
		v.GetFloat64()
	case 39:
		v.GetFloat64Value()
	case 40:
		v.GetInt()
	case 41:
		v.GetIntValue()
	case 42:
		v.GetInt8()
	case 43:
		v.GetInt8Value()
	case 44:
		v.GetInt16()
	case 45:
		v.GetInt16Value()
	case 46:
		v.GetInt32()
	case 47:
		v.GetInt32Value()
	case 48:
		v.GetInt64()
	case 49:
		v.GetInt64Value()
	case 50:
		v.GetUInt()
	case 51:
		v.GetUIntValue()
	case 52:
		v.GetUInt8()
	case 53:
		v.GetUInt8Value()
	case 54:
		v.GetUInt16()
	case 55:
		v.GetUInt16Value()
	case 56:
		v.GetUInt32()
	case 57:
		v.GetUInt32Value()
	case 58:
		v.GetUInt64()
	case 59:
		v.GetUInt64Value()
	case 60:
		v.GetRunes()
	case 61:
		v.GetTimeWithDecimalPlaces(n)
	case 62:
		v.GetTime()
	case 63:
		v.GetTimeValue()
	case 64:
		v.IsNil()
	case 65:
		v.Clone()
	}
	sym.Reach("called")
}

// readMap calls one reader of Map, by number; there are MapReaders.
const readersOfMap = 85

func readMap(m *json.Map, i int, s string, n int) {
	switch i {
	case 0:
		m.GetKeys()
	case 1:
		m.HasKey(s)
	case 2:
		m.GetMap(s)
	case 3:
		m.GetMapValue(s)
	case 4:
		m.Values()
	case 5:
		m.GetValue(s)
	case 6:
		m.Clone()
	case 7:
		m.IsNil()
	case 8:
		m.IsNull(s)
	case 9:
		m.IsBool(s)
	case 10:
		m.IsEmptyString(s)
	case 11:
		m.IsInteger(s)
	case 12:
		m.IsInt(s)
	case 13:
		m.IsInt8(s)
	case 14:
		m.IsInt16(s)
	case 15:
		m.IsInt32(s)
	case 16:
		m.IsInt64(s)
	case 17:
		m.IsUInt(s)
	case 18:
		m.IsUInt8(s)
	case 19:
		m.IsUInt16(s)
	case 20:
		m.IsUInt32(s)
	case 21:
		m.IsUInt64(s)
	case 22:
		m.IsString(s)
	case 23:
		m.IsMap(s)
	case 24:
		m.IsBoolTrue(s)
	case 25:
		m.IsBoolFalse(s)
	case 26:
		m.ToJSONString(&strings.Builder{})
	case 27:
		m.GetErrors(s)
	case 28:
		m.GetType(s)
	case 29:
		m.GetFunc(s)
	case 30:
		m.GetString(s)
	case 31:
		m.GetStringValue(s)
	case 32:
		m.GetBool(s)
	case 33:
		m.GetBoolValue(s)
	case 34:
		m.IsFloat(s)
	case 35:
		m.IsFloat32(s)
	case 36:
		m.IsFloat64(s)
	case 37:
		m.GetFloat32(s)
	case 38:
		m.GetFloat32Value(s)
	case 39:
		m.GetFloat64(s)
	case 40:
		m.GetFloat64Value(s)
	case 41:
		m.GetIntValue(s)
	case 42:
		m.GetInt(s)
	case 43:
		m.GetInt8Value(s)
	case 44:
		m.GetInt8(s)
	case 45:
		m.GetInt16Value(s)
	case 46:
		m.GetInt16(s)
	case 47:
		m.GetInt32Value(s)
	case 48:
		m.GetInt32(s)
	case 49:
		m.GetInt64Value(s)
	case 50:
		m.GetInt64(s)
	case 51:
		m.GetUIntValue(s)
	case 52:
		m.GetUInt(s)
	case 53:
		m.GetUInt8Value(s)
	case 54:
		m.GetUInt8(s)
	case 55:
		m.GetUInt16Value(s)
	case 56:
		m.GetUInt16(s)
	case 57:
		m.GetUInt32Value(s)
	case 58:
		m.GetUInt32(s)
	case 59:
		m.GetUInt64Value(s)
	case 60:
		m.GetUInt64(s)
	case 61:
		m.IsArray(s)
	case 62:
		m.GetArray(s)
	case 63:
		m.GetArrayValue(s)
	case 64:
		m.GetArrayOfInt(s)
	case 65:
		m.GetArrayOfInt8(s)
	case 66:
		m.GetArrayOfInt16(s)
	case 67:
		m.GetArrayOfInt32(s)
	case 68:
		m.GetArrayOfInt64(s)
	case 69:
		m.GetArrayOfUInt(s)
	case 70:
		m.GetArrayOfUInt8(s)
	case 71:
		m.GetArrayOfUInt16(s)
	case 72:
		m.GetArrayOfUInt32(s)
	case 73:
		m.GetArrayOfUInt64(s)
	case 74:
		m.GetArrayOfFloat32(s)
	case 75:
		m.GetArrayOfFloat32Value(s)
	case 76:
		m.GetArrayOfFloat64(s)
	case 77:
		m.GetArrayOfFloat64Value(s)
	case 78:
		m.GetArrayOfBool(s)
	case 79:
		m.GetArrayOfBoolValue(s)
	case 80:
		m.GetArrayOfString(s)
	case 81:
		m.GetRunes(s)
	case 82:
		m.GetObjectForMap(s)
	case 83:
		m.GetTime(s)
	case 84:
		m.GetTimeWithDecimalPlaces(s, n)
	}
	sym.Reach("called")
}

// readArray calls one reader of Array, by number; there are ArrayReaders.
const readersOfArray = 35

func readArray(a *json.Array, i int, s string, n int) {
	switch i {
	case 0:
		a.ToJSONString(&strings.Builder{})
	case 1:
		a.GetStringValue(n)
	case 2:
		a.GetMap(n)
	case 3:
		a.GetArrayValue()
	case 4:
		a.GetArrayOfInt()
	case 5:
		a.GetArrayOfInt8()
	case 6:
		a.GetArrayOfInt16()
	case 7:
		a.GetArrayOfInt32()
	case 8:
		a.GetArrayOfInt64()
	case 9:
		a.GetArrayOfUInt()
	case 10:
		a.GetArrayOfUInt8()
	case 11:
		a.GetArrayOfUInt16()
	case 12:
		a.GetArrayOfUInt32()
	case 13:
		a.GetArrayOfUInt64()
	case 14:
		a.GetArrayOfIntValue()
	case 15:
		a.GetArrayOfInt8Value()
	case 16:
		a.GetArrayOfInt16Value()
	case 17:
		a.GetArrayOfInt32Value()
	case 18:
		a.GetArrayOfInt64Value()
	case 19:
		a.GetArrayOfUIntValue()
	case 20:
		a.GetArrayOfUInt8Value()
	case 21:
		a.GetArrayOfUInt16Value()
	case 22:
		a.GetArrayOfUInt32Value()
	case 23:
		a.GetArrayOfUInt64Value()
	case 24:
		a.GetArrayOfString()
	case 25:
		a.GetArrayOfStringValue()
	case 26:
		a.GetArrayOfFloat32()
	case 27:
		a.GetArrayOfFloat32Value()
	case 28:
		a.GetArrayOfFloat64()
	case 29:
		a.GetArrayOfFloat64Value()
	case 30:
		a.GetArrayOfBool()
	case 31:
		a.GetArrayOfBoolValue()
	case 32:
		a.GetValues()
	case 33:
		a.Clone()
	case 34:
		a.Len()
	}
	sym.Reach("called")
}

// setNil calls one setter of Value with a nil pointer, by number.
const nilsOfValue = 19

func setNil(c *json.Value, i int) {
	switch i {
	case 0:
		c.SetMap(nil)
	case 1:
		c.SetErrors(nil)
	case 2:
		c.SetError(nil)
	case 3:
		c.SetArray(nil)
	case 4:
		c.SetBool(nil)
	case 5:
		c.SetString(nil)
	case 6:
		c.SetFloat32(nil)
	case 7:
		c.SetFloat64(nil)
	case 8:
		c.SetInt(nil)
	case 9:
		c.SetInt8(nil)
	case 10:
		c.SetInt16(nil)
	case 11:
		c.SetInt32(nil)
	case 12:
		c.SetInt64(nil)
	case 13:
		c.SetUInt(nil)
	case 14:
		c.SetUInt8(nil)
	case 15:
		c.SetUInt16(nil)
	case 16:
		c.SetUInt32(nil)
	case 17:
		c.SetUInt64(nil)
	case 18:
		c.SetTime(nil)
	}
}

// setNilIn calls one setter of Map with a nil pointer, by number.
const nilsOfMap = 19

func setNilIn(c *json.Map, k string, i int) {
	switch i {
	case 0:
		c.SetMap(k, nil)
	case 1:
		c.SetValue(k, nil)
	case 2:
		c.SetFunc(k, nil)
	case 3:
		c.SetString(k, nil)
	case 4:
		c.SetBool(k, nil)
	case 5:
		c.SetFloat32(k, nil)
	case 6:
		c.SetFloat64(k, nil)
	case 7:
		c.SetInt(k, nil)
	case 8:
		c.SetInt8(k, nil)
	case 9:
		c.SetInt16(k, nil)
	case 10:
		c.SetInt32(k, nil)
	case 11:
		c.SetInt64(k, nil)
	case 12:
		c.SetUInt(k, nil)
	case 13:
		c.SetUInt8(k, nil)
	case 14:
		c.SetUInt16(k, nil)
	case 15:
		c.SetUInt32(k, nil)
	case 16:
		c.SetUInt64(k, nil)
	case 17:
		c.SetArray(k, nil)
	case 18:
		c.SetTime(k, nil)
	}
}

// appendNil calls one setter of Array with a nil pointer, by number.
const nilsOfArray = 17

func appendNil(c *json.Array, i int) {
	switch i {
	case 0:
		c.AppendString(nil)
	case 1:
		c.AppendUInt(nil)
	case 2:
		c.AppendUInt8(nil)
	case 3:
		c.AppendUInt16(nil)
	case 4:
		c.AppendUInt32(nil)
	case 5:
		c.AppendUInt64(nil)
	case 6:
		c.AppendInt(nil)
	case 7:
		c.AppendInt8(nil)
	case 8:
		c.AppendInt16(nil)
	case 9:
		c.AppendInt32(nil)
	case 10:
		c.AppendInt64(nil)
	case 11:
		c.AppendFloat32(nil)
	case 12:
		c.AppendFloat64(nil)
	case 13:
		c.AppendBool(nil)
	case 14:
		c.AppendValue(nil)
	case 15:
		c.AppendMap(nil)
	case 16:
		c.AppendArray(nil)
	}
}
