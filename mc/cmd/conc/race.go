//go:build race

package main

import "runtime"

const withRace = true

func raceErrors() int { return runtime.RaceErrors() }
