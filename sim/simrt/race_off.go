//go:build !race

package simrt

import "unsafe"

func raceDisable()                  {}
func raceEnable()                   {}
func Acquire(p unsafe.Pointer)      {}
func Release(p unsafe.Pointer)      {}
func ReleaseMerge(p unsafe.Pointer) {}
func RaceErrors() int               { return 0 }

const Race = false
