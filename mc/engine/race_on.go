//go:build race

package engine

import "runtime"

const RaceBuild = true

func raceErrors() int { return runtime.RaceErrors() }
