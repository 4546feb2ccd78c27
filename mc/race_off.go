//go:build !race

package main

func raceHide() {}
func raceShow() {}
