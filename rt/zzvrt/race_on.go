// +build race

package zzvrt

import (
	"runtime"
	"unsafe"
)

//go:norace
func raceOff() { runtime.RaceDisable() }

//go:norace
func raceOn() { runtime.RaceEnable() }

//go:norace
func release(p *int) { runtime.RaceReleaseMerge(unsafe.Pointer(p)) }

//go:norace
func acquire(p *int) { runtime.RaceAcquire(unsafe.Pointer(p)) }
