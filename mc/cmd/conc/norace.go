//go:build !race

package main

const withRace = false

func raceErrors() int { return 0 }
