//go:build race

package props

import "runtime"

const raceOn = true

func raceErrors() int { return runtime.RaceErrors() }
