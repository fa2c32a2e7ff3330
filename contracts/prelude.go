//go:build go1.21

package ofxgo

// The specification language. These functions are interpreted by govc; their
// bodies only let the contracts type-check.

// forall says that f holds of every index from 0 to n-1.
func forall(n int, f func(i int) bool) bool { return false }

// same says that two values have the same contents.
func same(a, b interface{}) bool { return false }

// samePtr says that two pointers are equal.
func samePtr(a, b interface{}) bool { return false }

// vAssert is an obligation at this point.
func vAssert(c bool, label string) {}

// vAssume restricts the states considered.
func vAssume(c bool) {}

func imp(a, b bool) bool { return !a || b }
func iff(a, b bool) bool { return a == b }

// vGiveUp says that the contract has no meaning for the code on this path, so
// that nothing is decided about the function.
func vGiveUp(why string) {}

// vPure is the value of a function without effects.
func vPure(f func() bool) bool { return false }

// vFreshFrom starts the time from which on vFresh holds of what is allocated.
func vFreshFrom() {}

// vFresh says that what p points to has been allocated since vFreshFrom.
func vFresh(p interface{}) bool { return false }

// vMatching is any text which matches an expression, vNotMatching any other.
func vMatching(re string) string    { return "" }
func vNotMatching(re string) string { return "" }
