//go:build !race

package engine

const RaceBuild = false

func raceErrors() int { return 0 }
