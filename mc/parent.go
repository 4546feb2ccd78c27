package main

// Parent side: spawns the workers, classifies what they report, writes the
// evidence and the replay files.

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

var verifDir = func() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}()

type runOut struct {
	res    *Result
	code   int // 0 ok
	sig    string
	unit   int
	about  string
	casetx string
	stderr string
}

func (r runOut) died() bool { return r.res == nil }

func (r runOut) why() string {
	switch r.code {
	case exitHang:
		return "does not terminate"
	case exitHeap:
		return "exhausts memory"
	}
	s := "crashes the process"
	for _, l := range strings.Split(r.stderr, "\n") {
		if strings.Contains(l, "fatal error:") || strings.HasPrefix(l, "panic:") || strings.Contains(l, "stack exceeds") {
			s += " (" + strings.TrimSpace(l) + ")"
			break
		}
	}
	return s
}

func spawn(tmp, prop, tier string, shard, n, from, only, upto int, deadline, hang float64) runOut {
	tag := fmt.Sprintf("%d-%d-%d-%d-%d", shard, from, only, upto, time.Now().UnixNano())
	mm := filepath.Join(tmp, "mm-"+tag)
	rs := filepath.Join(tmp, "res-"+tag)
	er := filepath.Join(tmp, "err-"+tag)
	ef, _ := os.Create(er)
	exe, _ := os.Executable()
	I := strconv.Itoa
	cmd := exec.Command(exe, "worker", prop, tier, I(shard), I(n), I(from), I(only), I(upto), mm, rs,
		fmt.Sprint(deadline), fmt.Sprint(hang))
	cmd.Stderr = ef
	cmd.Env = append(os.Environ(), "VMC_TMP="+tmp)
	err := cmd.Run()
	ef.Close()
	out := runOut{}
	if err != nil {
		out.code = -1
		if ee, ok := err.(*exec.ExitError); ok {
			out.code = ee.ExitCode()
			out.sig = ee.String()
		}
	}
	if b, e := os.ReadFile(rs); e == nil && out.code == 0 {
		out.res = &Result{}
		if json.Unmarshal(b, out.res) != nil {
			out.res = nil
		}
	}
	if b, e := os.ReadFile(mm); e == nil && len(b) == mmSize {
		out.unit = int(binary.LittleEndian.Uint64(b))
		out.about = getText(b, 16)
		out.casetx = getText(b, 24016)
	}
	if b, e := os.ReadFile(er); e == nil {
		if len(b) > 20000 {
			b = append(b[:10000], b[len(b)-10000:]...)
		}
		out.stderr = string(b)
	}
	os.Remove(mm)
	os.Remove(rs)
	os.Remove(er)
	return out
}

type known struct{ prop, key, what string }

func loadKnown() []known {
	var ks []known
	b, err := os.ReadFile(filepath.Join(verifDir, "known-findings.txt"))
	if err != nil {
		return nil
	}
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		// known: property=ID key=KEY :: WHAT
		l = strings.TrimPrefix(l, "known: ")
		i := strings.Index(l, " :: ")
		if i < 0 {
			continue
		}
		k := known{what: l[i+4:]}
		for _, f := range strings.Fields(l[:i]) {
			if strings.HasPrefix(f, "property=") {
				k.prop = f[9:]
			}
			if strings.HasPrefix(f, "key=") {
				k.key = f[4:]
			}
		}
		ks = append(ks, k)
	}
	return ks
}

func envFloat(k string, d float64) float64 {
	if s := os.Getenv(k); s != "" {
		if f, e := strconv.ParseFloat(s, 64); e == nil {
			return f
		}
	}
	return d
}

func parentMain(prop, tier string) int {
	start := time.Now()
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	tmp, err := os.MkdirTemp("", "vmc-run-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(tmp)
	n := 8
	dl := envFloat("VMC_DEADLINE", 150)
	if tier == "thorough" {
		dl = envFloat("VMC_DEADLINE", 700)
	}
	hang := envFloat("VMC_HANG", 25)

	type deathRec struct {
		o          runOut
		reproduced int
		tried      int
	}
	var mu sync.Mutex
	var all []*Result
	var deaths []deathRec
	unexplained := ""
	var wg sync.WaitGroup
	for s := 0; s < n; s++ {
		wg.Add(1)
		go func(s int) {
			defer wg.Done()
			from := 0
			lostRetries := 0
			for tries := 0; tries < 4; tries++ {
				left := dl - time.Since(start).Seconds()
				if left < 1 {
					left = 1
				}
				o := spawn(tmp, prop, tier, s, n, from, -1, -1, left, hang)
				if !o.died() {
					mu.Lock()
					all = append(all, o.res)
					mu.Unlock()
					return
				}
				// which unit, and does it die again on its own?
				rec := deathRec{o: o}
				for k := 0; k < 2; k++ {
					rec.tried++
					p := spawn(tmp, prop, tier, s, n, 0, o.unit, -1, 1000, hang*1.5)
					if p.died() {
						rec.reproduced++
						rec.o = p
						if p.about == "" {
							rec.o = o
						}
					} else if len(p.res.Failures) > 0 {
						mu.Lock()
						all = append(all, p.res)
						mu.Unlock()
					}
				}
				believed := rec.reproduced == rec.tried
				if !believed && o.code == 2 && strings.Contains(o.stderr, "fatal error:") && !strings.Contains(o.stderr, "out of memory") {
					believed = true // the runtime saw it happen
				}
				mu.Lock()
				if believed {
					deaths = append(deaths, rec)
				} else {
					lostRetries++
					if lostRetries >= 3 {
						unexplained = fmt.Sprintf("worker %d died (%s) at unit %d (%s), not reproduced: %s", s, o.sig, o.unit, o.about, tail(o.stderr, 400))
					}
				}
				stop := len(deaths) >= 4
				mu.Unlock()
				if believed {
					from = o.unit + 1
				} else {
					from = o.unit // once more
				}
				if stop {
					return
				}
			}
		}(s)
	}
	wg.Wait()

	// merge
	suites := []*SuiteStat{}
	byName := map[string]*SuiteStat{}
	var fails []Failure
	capped := false
	for _, r := range all {
		capped = capped || r.Capped
		fails = append(append(fails, r.Failures...), r.Known...)
		for _, s := range r.Suites {
			t := byName[s.Name]
			if t == nil {
				t = &SuiteStat{Name: s.Name, Bounds: s.Bounds, Outcomes: map[string]int{}}
				byName[s.Name] = t
				suites = append(suites, t)
			}
			t.Units += s.Units
			t.Executions += s.Executions
			t.States += s.States
			t.Transitions += s.Transitions
			t.Skipped += s.Skipped
			for k, v := range s.Outcomes {
				t.Outcomes[k] += v
			}
			if len(t.Samples) < 2 {
				t.Samples = append(t.Samples, s.Samples...)
				if len(t.Samples) > 2 {
					t.Samples = t.Samples[:2]
				}
			}
		}
	}
	for _, d := range deaths {
		fails = append(fails, Failure{
			Suite: strings.SplitN(d.o.about, ":", 2)[0], Unit: d.o.unit,
			Key:   "death/" + d.o.about,
			What:  "an execution " + d.o.why(),
			Input: d.o.casetx, Grammar: d.o.about,
			Got:   tail(d.o.stderr, 1500),
			Extra: fmt.Sprintf("reproduced %d/%d in fresh processes", d.reproduced, d.tried),
		})
	}
	sort.SliceStable(fails, func(a, b int) bool { return fails[a].Unit < fails[b].Unit })

	ks := loadKnown()
	knownHit := map[string]bool{}
	var fresh []Failure
	for _, f := range fails {
		hit := false
		for _, k := range ks {
			if k.prop == prop && k.key == f.Key {
				hit = true
				if !knownHit[k.key] {
					knownHit[k.key] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k.what)
				}
			}
		}
		if !hit {
			fresh = append(fresh, f)
		}
	}

	wall := func() float64 { return float64(int(time.Since(start).Seconds()*100)) / 100 }
	st, tr, ex, un, sk := 0, 0, 0, 0, 0
	var samples []string
	for _, s := range suites {
		st += s.States
		tr += s.Transitions
		ex += s.Executions
		un += s.Units
		sk += s.Skipped
		for _, x := range s.Samples {
			if len(samples) < 12 {
				samples = append(samples, s.Name+": "+x)
			}
		}
		s.Samples = nil
	}
	if samples == nil {
		samples = []string{}
	}
	exhaustive := !capped && len(deaths) == 0 && len(fresh) == 0 && unexplained == ""
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
		"coverage": map[string]any{
			"states": st, "transitions": tr, "traces_validated_against_impl": ex,
			"samples": samples, "units": un, "exhaustive": exhaustive,
			"cap":                             map[bool]string{true: "deadline reached before the end of the enumeration", false: "none"}[capped],
			"not_compared_model_budget":       sk,
			"suites":                          suites,
			"known_findings_seen_on_this_run": len(knownHit),
		},
		"assumptions": checks[prop].assume,
		"wall_s":      wall(),
		"violations":  len(fresh),
	}
	if checks[prop].assume == nil {
		ev["assumptions"] = []string{}
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verifDir, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(verifDir, "evidence", prop+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	for _, s := range suites {
		fmt.Printf("%s %-28s units=%d exec=%d states=%d transitions=%d %s\n", prop, s.Name, s.Units, s.Executions, s.States, s.Transitions, outcomes(s.Outcomes))
	}
	fmt.Printf("%s tier=%s units=%d executions=%d states=%d transitions=%d exhaustive=%v wall=%.1fs\n", prop, tier, un, ex, st, tr, exhaustive, wall())

	if len(fresh) == 0 {
		if unexplained != "" {
			fmt.Fprintln(os.Stderr, unexplained)
			return 2
		}
		os.Remove(filepath.Join(verifDir, "evidence", "replay-"+prop+".json")) // of an earlier run
		return 0
	}
	// re-run the first violation in fresh processes, for the record
	f := fresh[0]
	if !strings.HasPrefix(f.Key, "death/") {
		again := 0
		for k := 0; k < 5; k++ {
			p := spawn(tmp, prop, tier, 0, 1, 0, f.Unit, -1, 1000, hang)
			if p.died() || len(p.res.Failures) > 0 {
				again++
			}
		}
		f.Extra += fmt.Sprintf(" [unit %d fails %d/5 times when run alone in a fresh process]", f.Unit, again)
	}
	rp := filepath.Join(verifDir, "evidence", "replay-"+prop+".json")
	doc := map[string]any{"property": prop, "tier": tier, "violation": f, "others": fresh[1:min(len(fresh), 20)],
		"how": "cd /verif && ./run.sh replay " + rp}
	b, _ = json.MarshalIndent(doc, "", " ")
	os.WriteFile(rp, append(b, '\n'), 0o644)
	fmt.Print(strings.ToValidUTF8(fmt.Sprintf("%s: %s\n  suite:    %s\n  grammar:  %s\n  input:    %s\n  expected: %s\n  got:      %s\n  %s\n", prop, f.What, f.Suite, short(f.Grammar), short(f.Input), short(f.Expected), short(f.Got), f.Extra), "?"))
	fmt.Printf("VIOLATION property=%s replay=%s\n", prop, rp)
	return 1
}

func short(s string) string {
	if len(s) > 700 {
		return s[:700] + "..."
	}
	return s
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[:n/2] + "\n...\n" + s[len(s)-n/2:]
	}
	return s
}

func outcomes(m map[string]int) string {
	ks := []string{}
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	s := ""
	for i, k := range ks {
		if i > 8 {
			s += " ..."
			break
		}
		s += fmt.Sprintf(" %s=%d", k, m[k])
	}
	return s
}

// replayMain runs the unit of a recorded violation again, in a fresh process.
func replayMain(file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var doc struct {
		Property, Tier string
		Violation      Failure
	}
	if err := json.Unmarshal(b, &doc); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	tmp, _ := os.MkdirTemp("", "vmc-run-")
	defer os.RemoveAll(tmp)
	o := spawn(tmp, doc.Property, doc.Tier, 0, 1, 0, doc.Violation.Unit, -1, 1000, 25)
	if o.died() {
		fmt.Printf("unit %d (%s) %s\n%s\n", doc.Violation.Unit, o.about, o.why(), tail(o.stderr, 2000))
		fmt.Printf("VIOLATION property=%s replay=%s\n", doc.Property, file)
		return 1
	}
	for _, f := range o.res.Failures {
		fmt.Print(strings.ToValidUTF8(fmt.Sprintf("%s\n  suite:    %s\n  grammar:  %s\n  input:    %s\n  expected: %s\n  got:      %s\n", f.What, f.Suite, f.Grammar, f.Input, f.Expected, f.Got), "?"))
	}
	if len(o.res.Failures) > 0 {
		fmt.Printf("VIOLATION property=%s replay=%s\n", doc.Property, file)
		return 1
	}
	fmt.Println("the recorded unit passes")
	return 0
}
