//go:build !race

package props

const raceOn = false

func raceErrors() int { return 0 }
