//go:build race

package main

import "runtime"

// The handing over of the control between threads must not be seen as
// synchronisation by the race detector: it would order everything.
func raceHide() { runtime.RaceDisable() }
func raceShow() { runtime.RaceEnable() }
