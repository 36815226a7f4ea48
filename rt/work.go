package rt

import "reflect"

// Work that the statement counter does not see: elements handled by a single call
// of a builtin or of a function of another package.

var counting bool

// CountWork switches the counting on or off.
//
//go:norace
func CountWork(on bool) { counting = on }

// W returns its argument and counts the elements in it as work of the operation.
// Bytes don't count.
//
//go:norace
func W[T any](x T) T {
	if counting {
		weigh(x)
	}
	return x
}

//go:norace
func weigh(x any) {
	switch x.(type) {
	case []byte, string, int:
		return
	}
	r := R
	if r == nil || r.quiet > 0 || r.cur == nil || r.cur.OpID == 0 {
		return
	}
	v := reflect.ValueOf(x)
	switch v.Kind() {
	case reflect.Slice, reflect.Map:
		r.cur.Work += int64(v.Len())
	}
}
