//go:build race

package pbt

import "runtime"

const raceBuild = true

func raceErrors() int { return runtime.RaceErrors() }
