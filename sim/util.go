//go:build go1.22

package zsim

import (
	"fmt"
	"reflect"
	"runtime"
)

func realYield() { runtime.Gosched() }

func keyString(v reflect.Value) string {
	switch v.Kind() {
	case reflect.String:
		return "s" + v.String()
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return fmt.Sprintf("i%021d", v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return fmt.Sprintf("u%021d", v.Uint())
	case reflect.Interface:
		if v.IsNil() {
			return "n"
		}
		return "I" + v.Elem().Type().String() + keyString(v.Elem())
	case reflect.Pointer:
		return "p" // addresses have no deterministic order
	case reflect.Struct:
		s := "S"
		for i := 0; i < v.NumField(); i++ {
			s += keyString(v.Field(i)) + ";"
		}
		return s
	case reflect.Bool:
		return fmt.Sprint(v.Bool())
	}
	return v.Type().String()
}
