//go:build !goexperiment.synctest

package nd

// Bubble runs f with a clock of its own, which moves only while every
// goroutine is blocked.
func Bubble(f func()) { panic("built without bubbles") }
