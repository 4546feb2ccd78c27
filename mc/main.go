package main

import (
	"fmt"
	"os"
	"strconv"
	"time"
)

// usage:
//   vmc check P01 quick|thorough      (run by /verif/run.sh)
//   vmc replay FILE
//   vmc worker ...                    (internal)

type check struct {
	run    func(w *W)
	assume []string
}

var checks = map[string]*check{}

func register(id string, run func(w *W), assume ...string) {
	checks[id] = &check{run, assume}
}

func main() {
	a := os.Args[1:]
	if len(a) < 1 {
		fmt.Fprintln(os.Stderr, "usage: vmc check ID TIER | replay FILE")
		os.Exit(2)
	}
	switch a[0] {
	case "check":
		if checks[a[1]] == nil {
			fmt.Fprintln(os.Stderr, "unknown property", a[1])
			os.Exit(2)
		}
		os.Exit(parentMain(a[1], a[2]))
	case "replay":
		os.Exit(replayMain(a[1]))
	case "races":
		n, _ := strconv.Atoi(a[1])
		i, _ := strconv.Atoi(a[2])
		b, _ := strconv.Atoi(a[3])
		os.Exit(racesMain(n, i, b))
	case "worker":
		num := func(i int) int { n, _ := strconv.Atoi(a[i]); return n }
		sec, _ := strconv.ParseFloat(a[10], 64)
		hang, _ := strconv.ParseFloat(a[11], 64)
		workerMain(a[1], a[2], num(3), num(4), num(5), num(6), num(7), a[8], a[9],
			time.Now().Add(time.Duration(sec*float64(time.Second))), time.Duration(hang*float64(time.Second)))
	default:
		os.Exit(2)
	}
}
