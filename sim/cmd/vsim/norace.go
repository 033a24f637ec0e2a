//go:build !race

package main

const raceEnabled = false

func raceCheck() string { return "" }
func raceEnv() []string { return nil }
