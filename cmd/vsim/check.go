package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"strconv"
	"strings"
	"time"

	"verif/sim"
)

// tiers: how many runs, and how long at most.
var quickRuns = map[string]int{}

func check(args []string) {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	tier := fs.String("tier", os.Getenv("VERIF_TIER"), "")
	runs := fs.Int("runs", 0, "")
	capS := fs.Float64("cap", 0, "")
	fs.Parse(args)
	start := time.Now()
	seed := uint64(1)
	if s := os.Getenv("VERIF_SEED"); s != "" {
		n, err := strconv.ParseUint(s, 10, 64)
		if err != nil {
			die("VERIF_SEED: %v", err)
		}
		seed = n
	}
	if *tier == "" {
		*tier = "quick"
	}
	fmt.Printf("property %s, tier %s, seed %d\n", *prop, *tier, seed)
	n, capSec := 30000, 80.0
	if v, ok := quickRuns[*prop]; ok {
		n = v
	}
	if *tier == "thorough" {
		n, capSec = 1<<30, 600
	}
	if *runs > 0 {
		n = *runs
	}
	if *capS > 0 {
		capSec = *capS
	}
	root, err := os.Getwd()
	if err != nil {
		die("%v", err)
	}
	workers := runtime.NumCPU()
	if workers > 16 {
		workers = 16
	}
	// known findings first
	known := knownFindings(filepath.Join(root, "known_findings.txt"), *prop)
	var kf []string
	for _, k := range known {
		failing, err := sim.KnownFails(k.id)
		if err != nil {
			die("known finding %s: %v", k.id, err)
		}
		if failing {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", *prop, k.text)
			kf = append(kf, k.text)
		}
	}
	var b batch
	keep := 160
	b.run(*prop, seed, n, workers, capSec, keep)
	if b.broken != "" && len(b.fails) == 0 {
		die("%s", b.broken)
	}
	violations := 0
	var viol *Failure
	if len(b.fails) > 0 {
		viol = b.fails[0]
		for _, f := range b.fails {
			if f.Index < viol.Index {
				viol = f
			}
		}
		violations = len(b.fails)
		dir := filepath.Join(root, "out", "replays")
		orig := filepath.Join(dir, fmt.Sprintf("%s-seed%d-run%d-full.json", viol.Property, viol.Seed, viol.Index))
		viol.write(orig)
		small := filepath.Join(dir, fmt.Sprintf("%s-seed%d-run%d.json", viol.Property, viol.Seed, viol.Index))
		if o, err := command("replay", "-check", orig).Output(); err == nil {
			limit := "30"
			if *tier == "thorough" {
				limit = "120"
			}
			err := command("shrink", limit, orig, small).Run()
			if err == nil {
				err = command("replay", "-check", small).Run()
			}
			if err != nil {
				fmt.Printf("not minimised: %v\n", err)
				viol.write(small)
			}
		} else if !withBefore(viol, small, workers) {
			die("a failure does not reproduce in a fresh process: %s %v\n%s", orig, err, o)
		}
		viol = readFailure(small)
		fmt.Printf("%s: %s\n", viol.Tag, viol.Message)
		fmt.Printf("seed %d, run %d, profile %q: %d choices, minimised to %d\n", viol.Seed, viol.Index, viol.Profile, viol.Original, len(viol.Choices))
		for _, l := range viol.Log {
			fmt.Println("  " + l)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, small)
		evidence(root, *prop, *tier, seed, &b, 0, start, violations, kf)
		os.Exit(1)
	}
	// the same seeds must give the same executions, whatever the process layout
	hashes := map[int]string{}
	for _, r := range b.reps {
		for i, h := range r.Hashes {
			hashes[i] = h
		}
	}
	var again batch
	m := keep
	if m > n {
		m = n
	}
	again.run(*prop, seed, m, 3, capSec, keep)
	if again.broken != "" {
		die("%s", again.broken)
	}
	same := 0
	for _, r := range again.reps {
		for i, h := range r.Hashes {
			if g, ok := hashes[i]; ok {
				if g != h {
					die("not deterministic: run %d of seed %d gave %s and %s", i, seed, g, h)
				}
				same++
			}
		}
	}
	evidence(root, *prop, *tier, seed, &b, same, start, 0, kf)
	total := 0
	for _, r := range b.reps {
		total += r.Runs
	}
	fmt.Printf("held on %d runs, %.0f s (%d repeated in other processes with the same result)\n", total, time.Since(start).Seconds(), same)
}

type finding struct{ id, text string }

// known_findings.txt: "known: property=P07 id=NAME text" and "fixed: ..." lines.
// withBefore looks for a failure that needs what earlier runs have left in package
// variables of the code under test, and writes it down with the runs it needs.
func withBefore(f *Failure, path string, step int) bool {
	for n := 1; ; n *= 4 {
		f.Before = nil
		for j := f.Index - n*step; j < f.Index; j += step {
			if j >= 0 {
				f.Before = append(f.Before, j)
			}
		}
		f.write(path)
		if command("replay", "-check", path).Run() == nil {
			return true
		}
		if n*step > f.Index {
			return false
		}
	}
}

func knownFindings(file, prop string) []finding {
	b, err := os.ReadFile(file)
	if err != nil {
		die("%v", err)
	}
	var o []finding
	for _, l := range strings.Split(string(b), "\n") {
		f := strings.Fields(l)
		if len(f) > 3 && f[0] == "known:" && f[1] == "property="+prop && strings.HasPrefix(f[2], "id=") {
			o = append(o, finding{strings.TrimPrefix(f[2], "id="), strings.Join(f[3:], " ")})
		}
	}
	return o
}

func evidence(root, prop, tier string, seed uint64, b *batch, same int, start time.Time, violations int, kf []string) {
	stats := map[string]int{}
	shapes := map[string]bool{}
	prof := map[string]int{}
	var samples []any
	runs, steps, trivial := 0, 0, 0
	var ns int64
	capped := false
	for _, r := range b.reps {
		runs += r.Runs
		steps += r.Steps
		trivial += r.Trivial
		ns += r.SimNs
		capped = capped || r.Capped
		for k, v := range r.Stats {
			stats[k] += v
		}
		for k, v := range r.ByProf {
			prof[k] += v
		}
		for _, s := range r.Shapes {
			shapes[s] = true
		}
		if len(samples) < 2 && r.Sample != nil {
			samples = append(samples, r.Sample)
		}
	}
	if samples == nil {
		samples = []any{"none: the check stopped at a violation"}
	}
	wall := time.Since(start).Seconds()
	cov := map[string]any{
		"evaluations":                  runs,
		"distinct_nontrivial":          len(shapes),
		"rule":                         "one evaluation is one simulated execution: a seeded history of publisher steps, attacks, cache damage, time and client processes with injected faults. It is non-trivial if a fault, attack, damage, schedule switch or cross-session check took effect in it; two are distinct if the sequence of abstract states (per session: serving mode, fault class, outcome, offline, and per cache file the kind and version of the document in it) differs.",
		"samples":                      samples,
		"trivial_runs":                 trivial,
		"runs_per_hour":                int(float64(runs) / wall * 3600),
		"seeds_per_hour":               int(float64(runs) / wall * 3600),
		"simulated_hours":              int(ns / 3600e9),
		"events":                       steps,
		"profiles":                     prof,
		"faults_injected":              sortedCounts(stats, "fault:"),
		"attacks_served":               sortedCounts(stats, "attack:"),
		"sessions":                     sortedCounts(stats, "session:"),
		"cross_checks":                 sortedCounts(stats, "check:"),
		"scheduler":                    sortedCounts(stats, "sched:"),
		"world":                        sortedCounts(stats, "world:"),
		"other":                        sortedCounts(stats, "config:"),
		"repeated_with_same_event_log": same,
		"stopped_by_time":              capped,
		"known_findings":               kf,
		"real_components":              sim.RealParts,
		"stub_components":              sim.StubParts,
	}
	ev := map[string]any{"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov, "wall_s": wall, "violations": violations,
		"assumptions": sim.Assumptions}
	j, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		die("%v", err)
	}
	os.MkdirAll(filepath.Join(root, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(root, "evidence", prop+".json"), append(j, '\n'), 0o644); err != nil {
		die("%v", err)
	}
}
