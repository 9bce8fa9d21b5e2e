package conv

import (
	"reflect"
	"strings"
)

// Over sets the exported fields of *dst to those of *src, and leaves others,
// as a user does who changes an object that was used before.
func Over(dst, src any) { over(reflect.ValueOf(dst).Elem(), reflect.ValueOf(src).Elem()) }

func over(dst, src reflect.Value) {
	if dst.Kind() != reflect.Struct || !strings.Contains(dst.Type().PkgPath(), "gringo") {
		dst.Set(src)
		return
	}
	for i := 0; i < dst.NumField(); i++ {
		if dst.Type().Field(i).IsExported() {
			over(dst.Field(i), src.Field(i))
		}
	}
}
