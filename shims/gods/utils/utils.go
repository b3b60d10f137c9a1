// Package utils is a minimal stand-in for github.com/emirpasic/gods/utils.
package utils

// Comparator orders two keys: negative, zero or positive.
type Comparator func(a, b interface{}) int

// Int64Comparator orders int64 keys.
func Int64Comparator(a, b interface{}) int {
	x, y := a.(int64), b.(int64)
	switch {
	case x > y:
		return 1
	case x < y:
		return -1
	}
	return 0
}

// UInt64Comparator orders uint64 keys.
func UInt64Comparator(a, b interface{}) int {
	x, y := a.(uint64), b.(uint64)
	switch {
	case x > y:
		return 1
	case x < y:
		return -1
	}
	return 0
}
