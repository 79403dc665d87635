// Package runtime has functions whose names resemble those of Go's runtime.
package runtime

// Call calls f.
func Call(f func()) { f() }

// Panic panics after it has called before, which is told how many lines below
// its call that happens.
func Panic(before func(int)) {
	before(1)
	panic("in a package called runtime")
}
