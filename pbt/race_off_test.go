//go:build !race

package pbt

const raceBuild = false

func raceErrors() int { return 0 }
