package main

// Worker side: a worker enumerates the whole space of a check in a fixed
// order and executes the units that fall into its shard.

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"sync/atomic"
	"syscall"
	"time"
)

type Failure struct {
	Suite    string `json:"suite"`
	Unit     int    `json:"unit"`
	Key      string `json:"key"`  // stable identity, matched against known-findings
	What     string `json:"what"` // one line
	Grammar  string `json:"grammar,omitempty"`
	Input    string `json:"input,omitempty"`
	Expected string `json:"expected,omitempty"`
	Got      string `json:"got,omitempty"`
	Extra    string `json:"extra,omitempty"`
}

type SuiteStat struct {
	Name        string         `json:"name"`
	Bounds      string         `json:"bounds"`
	Units       int            `json:"units"`
	Executions  int            `json:"executions_on_impl"`
	States      int            `json:"model_states"`
	Transitions int            `json:"model_transitions"`
	Skipped     int            `json:"model_budget_exceeded,omitempty"`
	Outcomes    map[string]int `json:"outcomes"`
	Samples     []string       `json:"samples,omitempty"`
}

type Result struct {
	Suites   []*SuiteStat `json:"suites"`
	Failures []Failure    `json:"failures"`
	Known    []Failure    `json:"known"`  // one per known finding seen
	Capped   bool         `json:"capped"` // the deadline stopped the enumeration
	Units    int          `json:"units"`
}

const (
	mmSize    = 1 << 16
	exitHang  = 43
	exitHeap  = 44
	maxFails  = 6
	heapLimit = 3 << 30
)

type W struct {
	prop, tier    string
	known         []known
	shard, n      int
	only, from    int
	upto          int
	idx           int
	deadline      time.Time
	res           Result
	cur           *SuiteStat
	mm            []byte
	beat          atomic.Int64
	stopped       bool
	hang          time.Duration
	suiteSelected string
	visited       map[cfgKey]struct{}
	memo          map[string]*G
}

func (w *W) Thorough() bool { return w.tier == "thorough" }

// Pick returns q in the quick tier, t in the thorough one.
func (w *W) Pick(q, t int) int {
	if w.Thorough() {
		return t
	}
	return q
}

func (w *W) Suite(name, bounds string) {
	w.cur = &SuiteStat{Name: name, Bounds: bounds, Outcomes: map[string]int{}}
	w.res.Suites = append(w.res.Suites, w.cur)
}

// Unit reports whether the next unit of the enumeration belongs to this
// worker (and should be executed now).
func (w *W) Unit() bool {
	i := w.idx
	w.idx++
	if w.stopped {
		return false
	}
	if w.only >= 0 {
		if i != w.only {
			return false
		}
	} else {
		if i%w.n != w.shard || i < w.from {
			return false
		}
		if w.upto >= 0 && i > w.upto {
			return false
		}
		if len(w.res.Failures) >= maxFails {
			w.stopped = true
			return false
		}
		if time.Now().After(w.deadline) {
			w.res.Capped = true
			w.stopped = true
			return false
		}
	}
	w.cur.Units++
	w.res.Units++
	w.setUnit(i)
	return true
}

func (w *W) setUnit(i int) {
	binary.LittleEndian.PutUint64(w.mm[0:], uint64(i))
	w.putText(16, 24000, w.cur.Name)
	w.putText(24016, 8000, "")
	w.beat.Add(1)
}

func (w *W) putText(off, max int, s string) {
	if len(s) > max-8 {
		s = s[:max-8]
	}
	binary.LittleEndian.PutUint32(w.mm[off:], uint32(len(s)))
	copy(w.mm[off+4:], s)
}

func getText(mm []byte, off int) string {
	n := binary.LittleEndian.Uint32(mm[off:])
	if int(n) > mmSize {
		return "?"
	}
	return string(mm[off+4 : off+4+int(n)])
}

// About describes the current unit, in case it does not come back.
func (w *W) About(s string) { w.putText(16, 24000, w.cur.Name+": "+s); w.beat.Add(1) }

// Case announces one execution of the implementation.
func (w *W) Case(s string) {
	w.putText(24016, 8000, s)
	w.beat.Add(1)
	w.cur.Executions++
}

func (w *W) Sample(s string) {
	if len(w.cur.Samples) < 3 {
		if len(s) > 600 {
			s = s[:600] + "..."
		}
		w.cur.Samples = append(w.cur.Samples, s)
	}
}

func (w *W) Outcome(k string) { w.cur.Outcomes[k]++ }

func (w *W) Fail(f Failure) {
	f.Suite = w.cur.Name
	f.Unit = w.idx - 1
	if f.Key == "" {
		f.Key = f.Suite + "/" + f.What
	}
	clip := func(s *string) {
		if len(*s) > 4000 {
			*s = (*s)[:4000] + "..."
		}
	}
	clip(&f.Expected)
	clip(&f.Got)
	clip(&f.Grammar)
	clip(&f.Input)
	clip(&f.Extra)
	for _, k := range w.known { // one is enough, and it does not end the run
		if k.prop == w.prop && k.key == f.Key {
			for _, g := range w.res.Known {
				if g.Key == f.Key {
					return
				}
			}
			w.res.Known = append(w.res.Known, f)
			return
		}
	}
	if len(w.res.Failures) < 4*maxFails {
		w.res.Failures = append(w.res.Failures, f)
	}
}

func cpuTime() time.Duration {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

// watch ends the process when one execution does not come back, or eats the
// memory.
func (w *W) watch() {
	sample := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}, {Name: "/memory/classes/heap/stacks:bytes"}}
	last := int64(-1)
	since := time.Now()
	cpu := cpuTime()
	for {
		time.Sleep(100 * time.Millisecond)
		metrics.Read(sample)
		if sample[0].Value.Uint64()+sample[1].Value.Uint64() > heapLimit {
			fmt.Fprintln(os.Stderr, "vmc: memory limit of the worker exceeded")
			os.Exit(exitHeap)
		}
		if b := w.beat.Load(); b != last {
			last = b
			since = time.Now()
			cpu = cpuTime()
			continue
		}
		el := time.Since(since)
		used := cpuTime() - cpu
		if (el > w.hang && used > w.hang/2) || el > 4*w.hang {
			fmt.Fprintln(os.Stderr, "vmc: no progress")
			os.Exit(exitHang)
		}
	}
}

func workerMain(prop, tier string, shard, n, from, only, upto int, mmPath, resPath string, deadline time.Time, hang time.Duration) {
	runtime.GOMAXPROCS(2)
	debug.SetGCPercent(300)
	debug.SetMaxStack(768 << 20)
	os.Unsetenv("TRACE")
	f, err := os.OpenFile(mmPath, os.O_RDWR|os.O_CREATE, 0o644)
	if err != nil {
		panic(err)
	}
	f.Truncate(mmSize)
	mm, err := syscall.Mmap(int(f.Fd()), 0, mmSize, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		panic(err)
	}
	w := &W{prop: prop, tier: tier, shard: shard, n: n, from: from, only: only, upto: upto, mm: mm, deadline: deadline, hang: hang}
	w.visited = map[cfgKey]struct{}{}
	w.known = loadKnown()
	go w.watch()
	checks[prop].run(w)
	b, _ := json.Marshal(&w.res)
	if err := os.WriteFile(resPath, b, 0o644); err != nil {
		panic(err)
	}
}
