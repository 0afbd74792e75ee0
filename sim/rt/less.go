package rt

import (
	"fmt"
	"reflect"
)

func lessAny(a, b any) bool {
	va, vb := reflect.ValueOf(a), reflect.ValueOf(b)
	switch va.Kind() {
	case reflect.String:
		return va.String() < vb.String()
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return va.Int() < vb.Int()
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return va.Uint() < vb.Uint()
	case reflect.Float32, reflect.Float64:
		return va.Float() < vb.Float()
	case reflect.Bool:
		return !va.Bool() && vb.Bool()
	}
	if S != nil {
		na, oka := S.ptrs[a]
		nb, okb := S.ptrs[b]
		if oka && okb {
			return na < nb
		}
	}
	if ka, ok := a.(interface{ Key() string }); ok {
		if kb, ok := b.(interface{ Key() string }); ok {
			return ka.Key() < kb.Key()
		}
	}
	if va.Kind() == reflect.Ptr || va.Kind() == reflect.Chan || va.Kind() == reflect.Func {
		return false // no stable order known
	}
	return fmt.Sprint(a) < fmt.Sprint(b)
}
