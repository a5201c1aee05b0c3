// Package conv translates between the reference values and misc's types.
package conv

import (
	"fmt"

	"github.com/GalaIO/P2Pcrawler/misc"
	"verif/harness/ref"
)

// ToMisc turns a reference value into the types of package misc.
func ToMisc(v ref.Value) interface{} {
	switch x := v.(type) {
	case int, string:
		return x
	case ref.List:
		l := misc.List{}
		for _, e := range x {
			l = append(l, ToMisc(e))
		}
		return l
	case ref.Dict:
		d := misc.Dict{}
		for k, e := range x {
			d[k] = ToMisc(e)
		}
		return d
	}
	panic(fmt.Sprintf("%T", v))
}

// FromMisc turns a decoded value into a reference value; ok is false when it
// contains anything but int, string, misc.List and misc.Dict.
func FromMisc(v interface{}) (r ref.Value, ok bool) {
	switch x := v.(type) {
	case int, string:
		return x, true
	case misc.List:
		l := ref.List{}
		for _, e := range x {
			f, ok := FromMisc(e)
			if !ok {
				return nil, false
			}
			l = append(l, f)
		}
		return l, true
	case misc.Dict:
		d := ref.Dict{}
		for k, e := range x {
			f, ok := FromMisc(e)
			if !ok {
				return nil, false
			}
			d[k] = f
		}
		return d, true
	}
	return nil, false
}

// Same reports whether the decoded value m denotes v.
func Same(m interface{}, v ref.Value) bool {
	f, ok := FromMisc(m)
	return ok && ref.Equal(f, v)
}
