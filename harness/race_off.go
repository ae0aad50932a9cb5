//go:build !race

package main

const raceMode = false

func raceErrors() int { return 0 }

func raceText() string { return "" }
