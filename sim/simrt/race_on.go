//go:build race

package simrt

import (
	"os"
	"runtime"
	"strconv"
	"unsafe"
)

// Under the race detector the harness must neither be reported nor hide
// anything: its own goroutine switching and its shared books must not order
// the accesses of the code under test. So harness code runs with the race
// context of a separate, never running goroutine whose synchronisation is
// ignored; every goroutine gets its own context back when it enters the code
// under test. Only the orderings the code under test makes itself remain.

const RaceBuild = true

var (
	ctxOff     uintptr
	harnessCtx uintptr
)

func init() {
	n, err := strconv.Atoi(os.Getenv("SIM_RACECTX"))
	if err != nil || n <= 0 {
		return
	}
	ready := make(chan uintptr)
	go func() {
		runtime.RaceDisable()
		c := *(*uintptr)(unsafe.Pointer(getg() + uintptr(n)))
		runtime.RaceEnable()
		// without passing through the runtime's own per-goroutine switch,
		// the context itself ignores synchronisation from here on
		runtime.RaceDisable()
		ready <- c
		select {}
	}()
	harnessCtx = <-ready
	ctxOff = uintptr(n)
}

func ctxp() *uintptr { return (*uintptr)(unsafe.Pointer(getg() + ctxOff)) }

// hIn enters the harness; the result is for hOut.
func hIn() uintptr {
	if ctxOff == 0 {
		return 0
	}
	p := ctxp()
	o := *p
	*p = harnessCtx
	return o
}

func hOut(c uintptr) {
	if c != 0 {
		*ctxp() = c
	}
}

func raceDisable() {
	if ctxOff == 0 {
		runtime.RaceDisable()
	}
}
func raceEnable() {
	if ctxOff == 0 {
		runtime.RaceEnable()
	}
}
func raceAcquire(p unsafe.Pointer)  { runtime.RaceAcquire(p) }
func raceRelease(p unsafe.Pointer)  { runtime.RaceRelease(p) }
func raceRelMerge(p unsafe.Pointer) { runtime.RaceReleaseMerge(p) }

// HIn and HOut bracket harness code the code under test calls.
func HIn() uintptr   { return hIn() }
func HOut(c uintptr) { hOut(c) }

// raceWrite is a write the detector knows of: this package is not instrumented.
func raceWrite(p unsafe.Pointer) { runtime.RaceWrite(p) }
