//go:build verifsym

package mj

import "reflect"

// Validate models gin's validator for types without validation tags: it accepts everything.
//
//verif:replaces (*github.com/gin-gonic/gin/binding.defaultValidator).ValidateStruct
func Validate(v *int, obj any) error {
	check(reflect.TypeOf(obj), 0)
	return nil
}

func check(t reflect.Type, depth int) {
	if t == nil || depth > 4 {
		return
	}
	switch t.Kind() {
	case reflect.Ptr, reflect.Slice:
		check(t.Elem(), depth+1)
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			f := t.Field(i)
			if f.Tag.Get("binding") != "" {
				_ = t.Method(0) // not supported by the executor
			}
			if f.PkgPath == "" && t.PkgPath() != "time" {
				check(f.Type, depth+1)
			}
		}
	}
}
