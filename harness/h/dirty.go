package h

import (
	"reflect"

	"github.com/gagliardetto/binary/zz_verif/sym"
)

// dirty fills everything settable under v with junk (integers arbitrary): what a
// reused target variable may hold before a decode. skip leaves tagged-out fields alone.
func dirty(v reflect.Value, depth int) {
	if !v.CanSet() {
		return
	}
	switch v.Kind() {
	case reflect.Bool:
		v.SetBool(true)
	case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Int:
		v.SetInt(sym.I64("junk"))
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uint:
		v.SetUint(sym.U64("junk"))
	case reflect.Float32, reflect.Float64:
		v.SetFloat(1.5)
	case reflect.String:
		v.SetString("junk")
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			dirty(v.Index(i), depth)
		}
	case reflect.Slice:
		n := 3
		if depth > 2 {
			n = 1
		}
		if depth > 4 {
			return
		}
		s := reflect.MakeSlice(v.Type(), n, n)
		for i := 0; i < n; i++ {
			dirty(s.Index(i), depth+1)
		}
		v.Set(s)
	case reflect.Map:
		m := reflect.MakeMap(v.Type())
		key := reflect.New(v.Type().Key()).Elem()
		switch key.Kind() {
		case reflect.String:
			key.SetString("junkkey")
		case reflect.Float32, reflect.Float64:
			key.SetFloat(77)
		case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			key.SetInt(77)
		case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
			key.SetUint(77)
		case reflect.Bool:
			key.SetBool(true)
		default:
			v.Set(m)
			return
		}
		val := reflect.New(v.Type().Elem()).Elem()
		dirty(val, depth+1)
		m.SetMapIndex(key, val)
		v.Set(m)
	case reflect.Ptr:
		if depth > 4 {
			return
		}
		p := reflect.New(v.Type().Elem())
		dirty(p.Elem(), depth+1)
		v.Set(p)
	case reflect.Struct:
		t := v.Type()
		for i := 0; i < v.NumField(); i++ {
			tag := t.Field(i).Tag
			if b := tag.Get("bin"); b == "-" || b == "skip" || tag.Get("borsh_skip") == "true" {
				continue
			}
			dirty(v.Field(i), depth+1)
		}
	}
}

// clone deep-copies v (unexported fields shallowly).
func clone(v reflect.Value) reflect.Value {
	out := reflect.New(v.Type()).Elem()
	out.Set(v)
	cloneIn(out)
	return out
}

func cloneIn(v reflect.Value) {
	if !v.CanSet() {
		return
	}
	switch v.Kind() {
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			cloneIn(v.Index(i))
		}
	case reflect.Slice:
		if v.IsNil() {
			return
		}
		s := reflect.MakeSlice(v.Type(), v.Len(), v.Len())
		reflect.Copy(s, v)
		for i := 0; i < v.Len(); i++ {
			cloneIn(s.Index(i))
		}
		v.Set(s)
	case reflect.Map:
		if v.IsNil() {
			return
		}
		m := reflect.MakeMap(v.Type())
		for _, k := range v.MapKeys() {
			m.SetMapIndex(k, clone(v.MapIndex(k)))
		}
		v.Set(m)
	case reflect.Ptr:
		if v.IsNil() {
			return
		}
		p := reflect.New(v.Type().Elem())
		p.Elem().Set(v.Elem())
		cloneIn(p.Elem())
		v.Set(p)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			cloneIn(v.Field(i))
		}
	}
}

func cloneOf(p interface{}) interface{} {
	v := reflect.ValueOf(p)
	if v.Kind() != reflect.Ptr {
		return clone(v).Interface()
	}
	q := reflect.New(v.Type().Elem())
	q.Elem().Set(v.Elem())
	cloneIn(q.Elem())
	return q.Interface()
}

func dirtyOf(p interface{}) interface{} {
	q := reflect.New(reflect.TypeOf(p).Elem())
	q.Elem().Set(reflect.ValueOf(p).Elem())
	dirty(q.Elem(), 0)
	return q.Interface()
}
