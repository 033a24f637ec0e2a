//go:build race

package simrt

import (
	"runtime"
	"unsafe"
)

func release(p *byte) { runtime.RaceReleaseMerge(unsafe.Pointer(p)) }
func acquire(p *byte) { runtime.RaceAcquire(unsafe.Pointer(p)) }
func newHB() *byte    { return new(byte) }

// runEvent runs the event in a goroutine of its own: were the world to run
// them all itself, each would be ordered after everything before it.
func runEvent(e *event) {
	hb, f := e.hb, e.f
	go func() {
		acquire(hb)
		f()
	}()
}
