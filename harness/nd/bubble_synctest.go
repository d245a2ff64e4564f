//go:build goexperiment.synctest

package nd

import "testing/synctest"

// Bubble runs f with a clock of its own, which moves only while every
// goroutine is blocked.
func Bubble(f func()) { synctest.Run(f) }
