package simrt

import "reflect"

// Package-level variables of the code under test are set back before every
// run, so that a run does not depend on the ones its process did before.

var resets []func()

// OnReset registers what sets the variables of one package back.
func OnReset(fs ...func()) { resets = append(resets, fs...) }

// ResetGlobals sets them all back, in the order of initialisation.
func ResetGlobals() {
	cur = nil
	for _, f := range resets {
		f()
	}
}

// Zero sets a variable without an initial value back; p points to it.
func Zero(p interface{}) { reflect.ValueOf(p).Elem().SetZero() }
