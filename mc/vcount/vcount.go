// Package vcount counts the statements that instrumented code executes, on one goroutine at a time.
package vcount

var n int64
var on bool

// P is called before every statement.
func P() {
	if on {
		n++
	}
}

// Start counts from now on.
func Start() { on = true }

// Count is how many statements there have been.
func Count() int64 { return n }

// Stop counts no longer.
func Stop() { on = false }
