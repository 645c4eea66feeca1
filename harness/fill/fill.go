// Package fill populates values by reflection, so that their encoding shows every part of their type.
package fill

import (
	"encoding/json"
	"fmt"
	"net/http"
	"reflect"
	"time"
)

var enums = map[reflect.Type]reflect.Value{}

// Enum has values of the type populated with v.
func Enum(v any) { enums[reflect.TypeOf(v)] = reflect.ValueOf(v) }

// In populates what p points to.
func In(p any) { set(reflect.ValueOf(p).Elem(), 0) }

// New makes a populated value.
func New[T any]() T {
	var v T
	In(&v)
	return v
}

func set(v reflect.Value, depth int) {
	// The exported fields of an embedded struct can be set even if its type isn't exported
	if !v.CanSet() && v.Kind() != reflect.Struct {
		return
	}
	if e, ok := enums[v.Type()]; ok && v.CanSet() {
		v.Set(e)
		return
	}
	if v.Type() == reflect.TypeOf(time.Time{}) {
		v.Set(reflect.ValueOf(time.Unix(1700000000, 0).UTC()))
		return
	}
	switch v.Kind() {
	case reflect.String:
		v.SetString("s")
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt(7)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		v.SetUint(7)
	case reflect.Float32, reflect.Float64:
		v.SetFloat(1.5)
	case reflect.Bool:
		v.SetBool(true)
	case reflect.Interface:
		if v.NumMethod() == 0 {
			v.Set(reflect.ValueOf("any"))
		}
	case reflect.Pointer:
		if depth > 4 {
			return
		}
		n := reflect.New(v.Type().Elem())
		set(n.Elem(), depth+1)
		v.Set(n)
	case reflect.Slice:
		if depth > 4 {
			return
		}
		n := reflect.MakeSlice(v.Type(), 1, 1)
		set(n.Index(0), depth+1)
		v.Set(n)
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			set(v.Index(i), depth+1)
		}
	case reflect.Map:
		if depth > 4 {
			return
		}
		m := reflect.MakeMap(v.Type())
		k := reflect.New(v.Type().Key()).Elem()
		set(k, depth+1)
		e := reflect.New(v.Type().Elem()).Elem()
		set(e, depth+1)
		m.SetMapIndex(k, e)
		v.Set(m)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			f := v.Type().Field(i)
			d := depth + 1
			if f.Anonymous {
				d = depth
			}
			set(v.Field(i), d)
		}
	}
}

// Note records what a handler has read.
func Note(h http.Header, kind string, v any) { h.Add("X-Read", fmt.Sprintf("%s=%+v", kind, v)) }

// Show makes a bound value readable, whatever its pointers.
func Show(v any) string {
	b, _ := json.Marshal(flat(reflect.ValueOf(v), 0))
	return string(b)
}

func flat(v reflect.Value, depth int) any {
	switch v.Kind() {
	case reflect.Pointer, reflect.Interface:
		if v.IsNil() || depth > 8 {
			return nil
		}
		return flat(v.Elem(), depth+1)
	case reflect.Struct:
		out := []any{}
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).IsExported() || v.Type().Field(i).Anonymous {
				out = append(out, flat(v.Field(i), depth+1))
			}
		}
		return out
	case reflect.Slice, reflect.Array:
		out := []any{}
		for i := 0; i < v.Len(); i++ {
			out = append(out, flat(v.Index(i), depth+1))
		}
		return out
	case reflect.Map:
		out := []any{}
		for _, k := range v.MapKeys() {
			out = append(out, fmt.Sprint(k), flat(v.MapIndex(k), depth+1))
		}
		return out
	}
	return fmt.Sprint(v)
}
