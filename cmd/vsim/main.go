// vsim decides the properties by simulation.
//
//	vsim check -prop P01 [-tier quick|thorough]   the check of one property
//	vsim worker ...                                a part of it (own process)
//	vsim replay FILE                               repeat a recorded failure
//	vsim one -prop P01 -seed N -i N                one run, with its log
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"verif/sim"
)

func die(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "vsim: "+f+"\n", a...)
	os.Exit(3)
}

// Failure is a violation with everything needed to repeat it.
type Failure struct {
	Property string   `json:"property"`
	Profile  string   `json:"profile"`
	Tag      string   `json:"tag"`
	Message  string   `json:"message"`
	Seed     uint64   `json:"seed"`
	Index    int      `json:"index"`
	Hash     string   `json:"event_log_hash"`
	Before   []int    `json:"runs_before_in_the_process,omitempty"` // of the same seed: the failure needs what they leave in package variables
	Original int      `json:"choices_before_minimising"`
	Choices  []uint32 `json:"choices"`
	Log      []string `json:"log"`
}

type report struct {
	Kind    string
	Fail    *Failure       `json:",omitempty"`
	Broken  string         `json:",omitempty"`
	Index   int            `json:",omitempty"`
	Runs    int            `json:",omitempty"`
	Steps   int            `json:",omitempty"`
	SimNs   int64          `json:",omitempty"`
	Stats   map[string]int `json:",omitempty"`
	Shapes  []string       `json:",omitempty"`
	Trivial int            `json:",omitempty"`
	Hashes  map[int]string `json:",omitempty"`
	Sample  []string       `json:",omitempty"`
	ByProf  map[string]int `json:",omitempty"`
	Capped  bool           `json:",omitempty"`
}

func propNum(p string) uint64 {
	n, _ := strconv.Atoi(strings.TrimPrefix(p, "P"))
	return uint64(n)
}

func seedOf(seed uint64, prop string, i int) uint64 { return sim.Mix(seed, propNum(prop), uint64(i)) }

func profileFor(prop string, i int) *sim.Profile {
	ps := sim.Profiles[prop]
	if len(ps) == 0 {
		die("no profile for %s", prop)
	}
	return ps[i%len(ps)]
}

func named(prop, name string) *sim.Profile {
	for _, p := range sim.Profiles[prop] {
		if p.Name == name {
			return p
		}
	}
	die("no profile %s of %s", name, prop)
	return nil
}

func execute(src *sim.Src, pf *sim.Profile, verbose bool) *sim.Result {
	return sim.Execute(src, verbose, func(r *sim.Run) { pf.Scen(r, pf) })
}

func quiet() {
	runtime.GOMAXPROCS(1)
	debug.SetGCPercent(-1)
	debug.SetMemoryLimit(3 << 30)
}

func failureOf(prop string, pf *sim.Profile, seed uint64, i int, res *sim.Result) *Failure {
	return &Failure{Property: prop, Profile: pf.Name, Tag: res.Viol[0].Tag, Message: res.Viol[0].Msg, Seed: seed, Index: i,
		Hash: fmt.Sprintf("%016x", res.Hash), Original: len(res.Choices), Choices: res.Choices, Log: res.Log}
}

func worker(args []string) {
	fs := flag.NewFlagSet("worker", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	seed := fs.Uint64("seed", 1, "")
	from := fs.Int("from", 0, "")
	step := fs.Int("step", 1, "")
	to := fs.Int("to", 100, "")
	cap := fs.Float64("cap", 30, "seconds")
	keep := fs.Int("keep", 64, "hashes of runs below this index are reported")
	dump := fs.Int("dump", -1, "print the log of this run (for finding nondeterminism)")
	fs.Parse(args)
	quiet()
	out := bufio.NewWriter(os.Stdout)
	enc := json.NewEncoder(out)
	start := time.Now()
	rep := report{Kind: "sum", Stats: map[string]int{}, Hashes: map[int]string{}, ByProf: map[string]int{}}
	shapes := map[uint64]bool{}
	execute(sim.NewSrc(1), profileFor(*prop, 0), false)
	n := 0
	fails := 0
	last := time.Now()
	for i := *from; i < *to; i += *step {
		if time.Since(start).Seconds() > *cap {
			rep.Capped = true
			break
		}
		pf := profileFor(*prop, i)
		res := execute(sim.NewSrc(seedOf(*seed, *prop, i)), pf, false)
		if res.Broken != "" {
			enc.Encode(report{Kind: "broken", Broken: res.Broken, Index: i})
			out.Flush()
			os.Exit(3)
		}
		if i == *dump {
			for _, l := range res.Log {
				fmt.Fprintln(os.Stderr, l)
			}
		}
		rep.Runs++
		rep.Steps += res.Events
		rep.SimNs += int64(res.SimTime)
		rep.ByProf[pf.Name]++
		for k, v := range res.Stats {
			rep.Stats[k] += v
		}
		if i < *keep {
			rep.Hashes[i] = fmt.Sprintf("%016x/%d", res.Hash, len(res.Choices))
		}
		if nontrivial(res) {
			shapes[res.Shape] = true
		} else {
			rep.Trivial++
		}
		if rep.Sample == nil && len(res.Log) > 10 && nontrivial(res) && len(res.Log) < 400 {
			rep.Sample = append([]string{fmt.Sprintf("run %d, profile %q, %d choices", i, pf.Name, len(res.Choices))}, res.Log[:min(60, len(res.Log))]...)
		}
		if len(res.Viol) > 0 {
			enc.Encode(report{Kind: "fail", Fail: failureOf(*prop, pf, *seed, i, res), Index: i})
			out.Flush()
			fails++
			if fails >= 3 {
				break
			}
		}
		n++
		if n%25 == 0 {
			runtime.GC()
		}
		if time.Since(last) > 2*time.Second {
			last = time.Now()
			enc.Encode(report{Kind: "tick", Index: i})
			out.Flush()
		}
	}
	for s := range shapes {
		rep.Shapes = append(rep.Shapes, fmt.Sprintf("%x", s))
	}
	enc.Encode(rep)
	out.Flush()
}

// nontrivial: some fault, attack or damage took effect, or a check over several
// sessions was made.
func nontrivial(res *sim.Result) bool {
	for k := range res.Stats {
		if strings.HasPrefix(k, "fault:") || strings.HasPrefix(k, "attack:") || strings.HasPrefix(k, "check:") || strings.HasPrefix(k, "sched:") {
			return true
		}
	}
	return false
}

func shrink(f *Failure, limit time.Duration) *Failure {
	pf := named(f.Property, f.Profile)
	end := time.Now().Add(limit)
	best := append([]uint32(nil), f.Choices...)
	tries := 0
	fails := func(c []uint32) ([]uint32, bool) {
		tries++
		if tries%25 == 0 {
			runtime.GC()
		}
		res := execute(sim.ReplaySrc(c), pf, false)
		if res.Broken != "" || len(res.Viol) == 0 || res.Viol[0].Tag != f.Tag {
			return nil, false
		}
		out := res.Choices
		for len(out) > 0 && out[len(out)-1] == 0 {
			out = out[:len(out)-1]
		}
		if len(out) > len(c) {
			out = c
		}
		return append([]uint32(nil), out...), true
	}
	weight := func(c []uint32) (int, int) {
		nz := 0
		for _, x := range c {
			if x != 0 {
				nz++
			}
		}
		return nz, len(c)
	}
	try := func(c []uint32) bool {
		if time.Now().After(end) {
			return false
		}
		if o, ok := fails(c); ok {
			a, b := weight(o)
			x, y := weight(best)
			if b < y || (b == y && a < x) || a < x {
				best = o
				return true
			}
			if b == y && a == x && less(o, best) {
				best = o
				return true
			}
		}
		return false
	}
	for round := 0; round < 8 && time.Now().Before(end); round++ {
		before, lb := weight(best)
		for size := len(best) / 2; size >= 1 && time.Now().Before(end); size /= 2 {
			for i := 0; i+size <= len(best) && time.Now().Before(end); {
				cut := append(append([]uint32(nil), best[:i]...), best[i+size:]...)
				if try(cut) {
					continue
				}
				zero := append([]uint32(nil), best...)
				some := false
				for j := i; j < i+size; j++ {
					some = some || zero[j] != 0
					zero[j] = 0
				}
				if !some || !try(zero) {
					i += size
				}
			}
		}
		for i := 0; i < len(best) && time.Now().Before(end); i++ {
			for best[i] > 1 {
				c := append([]uint32(nil), best...)
				c[i] /= 2
				if !try(c) {
					c = append([]uint32(nil), best...)
					c[i]--
					if !try(c) {
						break
					}
				}
				if i >= len(best) {
					break
				}
			}
		}
		a, la := weight(best)
		if a == before && la == lb {
			break
		}
	}
	res := execute(sim.ReplaySrc(best), pf, true)
	if len(res.Viol) == 0 {
		return f
	}
	n := *f
	n.Choices = best
	n.Log, n.Message, n.Hash = res.Log, res.Viol[0].Msg, fmt.Sprintf("%016x", res.Hash)
	return &n
}

func less(a, b []uint32) bool {
	for i := range a {
		if a[i] != b[i] {
			return a[i] < b[i]
		}
	}
	return false
}

func readFailure(p string) *Failure {
	b, err := os.ReadFile(p)
	if err != nil {
		die("%v", err)
	}
	var f Failure
	if err := json.Unmarshal(b, &f); err != nil {
		die("%s: %v", p, err)
	}
	return &f
}

func (f *Failure) write(p string) {
	b, _ := json.MarshalIndent(f, "", " ")
	if err := os.MkdirAll(filepath.Dir(p), 0o755); err != nil {
		die("%v", err)
	}
	if err := os.WriteFile(p, append(b, '\n'), 0o644); err != nil {
		die("%v", err)
	}
}

func replay(args []string) {
	quiet()
	check := false
	if len(args) > 1 && args[0] == "-check" {
		check, args = true, args[1:]
	}
	if len(args) != 1 {
		die("replay FILE")
	}
	f := readFailure(args[0])
	for _, j := range f.Before {
		execute(sim.NewSrc(seedOf(f.Seed, f.Property, j)), profileFor(f.Property, j), false)
	}
	res := execute(sim.ReplaySrc(f.Choices), named(f.Property, f.Profile), true)
	if res.Broken != "" {
		die("%s", res.Broken)
	}
	if check {
		if len(res.Viol) == 0 || res.Viol[0].Tag != f.Tag || fmt.Sprintf("%016x", res.Hash) != f.Hash {
			fmt.Println("does not reproduce")
			os.Exit(3)
		}
		return
	}
	for _, l := range res.Log {
		fmt.Println(l)
	}
	if len(res.Viol) == 0 {
		fmt.Println("no violation")
		return
	}
	fmt.Printf("%s: %s\n", res.Viol[0].Tag, res.Viol[0].Msg)
	fmt.Printf("VIOLATION property=%s replay=%s\n", f.Property, args[0])
	os.Exit(1)
}

func one(args []string) {
	fs := flag.NewFlagSet("one", flag.ExitOnError)
	prop := fs.String("prop", "P01", "")
	seed := fs.Uint64("seed", 1, "")
	i := fs.Int("i", 0, "")
	pre := fs.Int("pre", 0, "executions before it in this process")
	fs.Parse(args)
	quiet()
	for j := *i - *pre; j < *i; j++ {
		execute(sim.NewSrc(seedOf(*seed, *prop, j)), profileFor(*prop, j), true)
	}
	pf := profileFor(*prop, *i)
	res := execute(sim.NewSrc(seedOf(*seed, *prop, *i)), pf, true)
	for _, l := range res.Log {
		fmt.Println(l)
	}
	fmt.Println("profile", pf.Name, "choices", len(res.Choices), "hash", res.Hash, "time", res.SimTime, "broken", res.Broken)
	for _, v := range res.Viol {
		fmt.Println("VIOL", v.Tag, v.Msg)
	}
}

func self() string {
	p, err := os.Executable()
	if err != nil {
		die("%v", err)
	}
	return p
}

func command(args ...string) *exec.Cmd {
	c := exec.Command(self(), args...)
	c.Env = append(os.Environ(), "GOMAXPROCS=1", "GODEBUG=asyncpreemptoff=1")
	c.Stderr = os.Stderr
	return c
}

type batch struct {
	mu     sync.Mutex
	reps   []report
	fails  []*Failure
	broken string
	procs  []*exec.Cmd
	beat   map[int]time.Time
}

// run starts workers over the given indices and collects what they say.
func (b *batch) run(prop string, seed uint64, n, workers int, cap float64, keep int) {
	b.beat = map[int]time.Time{}
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		c := command("worker", "-prop", prop, "-seed", fmt.Sprint(seed), "-from", fmt.Sprint(w), "-step", fmt.Sprint(workers), "-to", fmt.Sprint(n), "-cap", fmt.Sprint(cap), "-keep", fmt.Sprint(keep))
		o, err := c.StdoutPipe()
		if err != nil {
			die("%v", err)
		}
		if err := c.Start(); err != nil {
			die("%v", err)
		}
		b.procs = append(b.procs, c)
		b.beat[w] = time.Now()
		wg.Add(1)
		go func() {
			defer wg.Done()
			sc := bufio.NewScanner(o)
			sc.Buffer(nil, 1<<28)
			done := false
			for sc.Scan() {
				var r report
				if err := json.Unmarshal(sc.Bytes(), &r); err != nil {
					continue
				}
				b.mu.Lock()
				b.beat[w] = time.Now()
				switch r.Kind {
				case "sum":
					b.reps = append(b.reps, r)
					done = true
				case "fail":
					b.fails = append(b.fails, r.Fail)
				case "broken":
					b.broken = fmt.Sprintf("run %d: %s", r.Index, r.Broken)
				}
				b.mu.Unlock()
			}
			err := c.Wait()
			b.mu.Lock()
			delete(b.beat, w)
			if !done && b.broken == "" && len(b.fails) == 0 {
				b.broken = fmt.Sprintf("worker %d ended early: %v", w, err)
			}
			b.mu.Unlock()
		}()
	}
	stop := make(chan struct{})
	go func() {
		for {
			select {
			case <-stop:
				return
			case <-time.After(time.Second):
			}
			b.mu.Lock()
			for w, t := range b.beat {
				if time.Since(t) > 90*time.Second {
					b.broken = fmt.Sprintf("worker %d makes no progress", w)
				}
			}
			if b.broken != "" || len(b.fails) > 0 {
				for _, c := range b.procs {
					c.Process.Kill()
				}
			}
			b.mu.Unlock()
		}
	}()
	wg.Wait()
	close(stop)
}

func main() {
	// package time reads the local zone from a file once per process, at its first use;
	// that read must not appear in the log of whichever run comes first
	time.Local = time.UTC
	if len(os.Args) < 2 {
		die("usage: vsim check|worker|replay|one|shrink ...")
	}
	switch os.Args[1] {
	case "check":
		check(os.Args[2:])
	case "worker":
		worker(os.Args[2:])
	case "replay":
		replay(os.Args[2:])
	case "one":
		one(os.Args[2:])
	case "shrink": // -limit s IN OUT
		quiet()
		sec, _ := strconv.Atoi(os.Args[2])
		shrink(readFailure(os.Args[3]), time.Duration(sec)*time.Second).write(os.Args[4])
	default:
		die("unknown command %s", os.Args[1])
	}
}

func sortedCounts(m map[string]int, prefix string) map[string]int {
	o := map[string]int{}
	for k, v := range m {
		if strings.HasPrefix(k, prefix) {
			o[strings.TrimPrefix(k, prefix)] = v
		}
	}
	return o
}

var _ = sort.Strings
