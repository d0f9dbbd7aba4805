//go:build !race

package simrt

import "unsafe"

const RaceBuild = false

func raceDisable()                  {}
func raceEnable()                   {}
func raceAcquire(p unsafe.Pointer)  {}
func raceRelease(p unsafe.Pointer)  {}
func raceRelMerge(p unsafe.Pointer) {}

func hIn() uintptr { return 0 }
func hOut(uintptr) {}

// HIn and HOut bracket harness code the code under test calls.
func HIn() uintptr               { return 0 }
func HOut(uintptr)               {}
func raceWrite(p unsafe.Pointer) {}
