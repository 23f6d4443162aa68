package sim

import (
	"context"
	"fmt"
	"hash/fnv"
	"path"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"syscall"
	"testing/synctest"
	"time"
)

// Proc is one simulated process: a goroutine that runs only while it holds the
// baton, with its own clock skew and open files.
type Proc struct {
	ID   int
	Name string
	Cwd  string
	Skew int64

	plan        *Plan
	ops         int // every gate passed
	mut         int // mutating system calls
	reqs        int
	ioFaults    int
	wFaults     int
	rFaults     int
	netFault    int
	dead        bool // crashed
	gone        bool // finished or crashed
	crashing    bool
	crashed1    bool
	turn        uint64
	panicked    string
	reqLog      []*ReqRec
	touched     map[string]bool // paths written
	opened      map[string]bool
	reads       map[string][][]byte // what files held when they were opened
	made        map[string]bool     // folders
	statFaults  int
	statBad     map[string]bool
	unlinkFault bool
	actor       bool // harness code, not the library
}

// Plan is what goes wrong while a process runs one session.
type Plan struct {
	IO         []*IOFault
	CrashAt    int // 1-based index of the mutating call to crash at, 0 = never
	CrashAfter bool
	ShortReads bool
	SkewAt     int // gate index of a clock jump
	SkewBy     int64
}

// IOFault makes a class of system calls fail.
type IOFault struct {
	Op    string
	Path  func(string) bool
	Err   error
	Skip  int // matching calls to let through first
	Count int // calls to fail, 0 = all
	Part  int // bytes a failing write still writes
	Short bool
	seen  int
}

func (f *IOFault) hit(op, p string) bool {
	if f.Op != op || (f.Path != nil && !f.Path(p)) {
		return false
	}
	f.seen++
	if f.seen <= f.Skip {
		return false
	}
	return f.Count == 0 || f.seen <= f.Skip+f.Count
}

type waiter struct {
	p  *Proc
	ch chan struct{}
}

// Run is one simulated execution.
type Run struct {
	Src     *Src
	FS      *FS
	Log     []string
	Verbose bool
	Stats   map[string]int
	Viol    []Violation

	Unsupported []string
	ReadOnly    []string
	Budget      int

	mu     sync.Mutex
	cur    *Proc
	parked []*waiter
	wake   chan struct{}
	procs  []*Proc
	live   int
	fds    map[int]*openFile
	nextFd int
	locks  map[*inode]*Proc
	hash   uint64
	nlog   int
	shape  uint64
	start  time.Time
	hung   bool
	base   int64 // wall clock offset for everyone, seconds

	Net *Net
	// concurrent is set while more than one process may run.
	concurrent bool
	onGate     func(p *Proc)
}

// Violation is a broken property, as a class (Tag) and an explanation.
type Violation struct {
	Tag string
	Msg string
}

func (r *Run) violate(tag, f string, a ...any) {
	m := fmt.Sprintf(f, a...)
	for _, v := range r.Viol {
		if v.Tag == tag {
			return
		}
	}
	r.Viol = append(r.Viol, Violation{tag, m})
	r.ev("VIOLATION %s: %s", tag, m)
}

func (r *Run) count(k string) { r.Stats[k]++ }

// ev appends to the event log. It never draws a choice or reads a clock.
func (r *Run) ev(f string, a ...any) {
	s := fmt.Sprintf(f, a...)
	h := fnv.New64a()
	var b [8]byte
	for i := range b {
		b[i] = byte(r.hash >> (8 * i))
	}
	h.Write(b[:])
	h.Write([]byte(s))
	r.hash = h.Sum64()
	r.nlog++
	if r.Verbose || len(r.Log) < 4000 {
		r.Log = append(r.Log, s)
	}
}

// state folds an abstract state into the run's shape, the measure of distinctness.
func (r *Run) state(s string) {
	h := fnv.New64a()
	var b [8]byte
	for i := range b {
		b[i] = byte(r.shape >> (8 * i))
	}
	h.Write(b[:])
	h.Write([]byte(s))
	r.shape = h.Sum64()
}

const fdStart = 1 << 28

var fdGlobal = fdStart

func mix(a, b, c uint64) uint64 {
	z := a*0x9e3779b97f4a7c15 ^ b*0xbf58476d1ce4e5b9 ^ c*0x94d049bb133111eb
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	return z ^ (z >> 31)
}

func (r *Run) take(p *Proc) {
	r.cur = p
	p.turn++
	time.VsimSkew = p.Skew + r.base
	if !p.actor {
		syscall.VsimOn = true
		syscall.VsimPid = 1000 + p.ID
		syscall.VsimSetRand(true, mix(uint64(p.ID)+77, p.turn, 0))
	}
}

func (r *Run) drop() {
	syscall.VsimOn = false
	syscall.VsimSetRand(false, 0)
	time.VsimSkew = r.base
	r.cur = nil
}

type stepBudget struct{}

// step counts work; a process that never stops is reported, not waited for.
func (r *Run) step(p *Proc) {
	p.ops++
	if pl := p.plan; pl != nil && pl.SkewAt > 0 && p.ops == pl.SkewAt && pl.SkewBy != 0 {
		p.Skew += pl.SkewBy
		time.VsimSkew = p.Skew + r.base
		r.count("fault:clock:jump")
		r.ev("%s clock jumps by %ds", p.Name, pl.SkewBy)
	}
	if p.ops > r.Budget {
		r.violate("no-termination", "%s did not finish within %d steps", p.Name, r.Budget)
		r.kill(p)
	}
	if r.onGate != nil {
		r.onGate(p)
	}
}

// yield lets the scheduler decide who goes on.
func (r *Run) yield(p *Proc) {
	if !r.concurrent || r.live <= 1 {
		return
	}
	r.park(p)
}

func (r *Run) park(p *Proc) {
	w := &waiter{p, make(chan struct{})}
	r.drop()
	r.mu.Lock()
	r.parked = append(r.parked, w)
	r.mu.Unlock()
	select {
	case r.wake <- struct{}{}:
	default:
	}
	<-w.ch
	r.take(p)
	if p.dead {
		runtime.Goexit()
	}
}

// sleep gives up the baton for d of simulated time, or until ctx is done.
func (r *Run) sleep(p *Proc, d time.Duration, ctx context.Context) error {
	r.drop()
	t := time.NewTimer(d)
	var err error
	if ctx != nil {
		select {
		case <-t.C:
		case <-ctx.Done():
			err = ctx.Err()
		}
	} else {
		<-t.C
	}
	t.Stop()
	r.park(p)
	return err
}

func (r *Run) kill(p *Proc) {
	p.dead = true
	for _, fd := range sortedFds(r.fds) {
		if r.fds[fd].owner == p {
			delete(r.fds, fd)
		}
	}
	runtime.Goexit()
}

func sortedFds(m map[int]*openFile) []int {
	var k []int
	for x := range m {
		k = append(k, x)
	}
	sort.Ints(k)
	return k
}

func (r *Run) crash(p *Proc, op, path string) {
	r.count("fault:crash:" + op)
	r.ev("%s crashes at %s %s", p.Name, op, r.disp(path))
	r.kill(p)
}

// touch records a change to the file system.
func (r *Run) touch(p *Proc, name string, write, create bool) {
	if write || create {
		if p.touched == nil {
			p.touched = map[string]bool{}
		}
		p.touched[path.Clean(name)] = true
	}
}

// Spawn prepares a process; it runs once Wait is called.
func (r *Run) Spawn(name, cwd string, skew int64, plan *Plan, f func(p *Proc)) *Proc {
	p := &Proc{ID: len(r.procs), Name: name, Cwd: cwd, Skew: skew, plan: plan}
	r.procs = append(r.procs, p)
	r.live++
	go func() {
		defer func() {
			if x := recover(); x != nil {
				p.panicked = fmt.Sprint(x)
				r.ev("%s panics: %v", p.Name, x)
				st := debug.Stack()
				if p.actor || inHarness(st) {
					r.Unsupported = append(r.Unsupported, fmt.Sprintf("harness panic: %v\n%s", x, st))
				} else {
					r.violate("panic", "%s: panic: %v at %s", p.Name, x, panicSite(st))
				}
			}
			p.gone = true
			r.live--
			r.drop()
			select {
			case r.wake <- struct{}{}:
			default:
			}
		}()
		r.park(p)
		f(p)
	}()
	return p
}

// inHarness tells whether it was the simulator that panicked.
func inHarness(st []byte) bool {
	seen := false
	for _, l := range strings.Split(string(st), "\n") {
		if strings.HasPrefix(l, "panic(") {
			seen = true
			continue
		}
		if !seen || strings.HasPrefix(l, "\t") || strings.HasPrefix(l, "runtime.") {
			continue
		}
		return strings.HasPrefix(l, "verif/")
	}
	return false
}

func panicSite(st []byte) string {
	for _, l := range strings.Split(string(st), "\n") {
		if i := strings.Index(l, "go-tuf-metadata/metadata"); i >= 0 && !strings.HasPrefix(l, "\t") {
			l = l[i+len("go-tuf-metadata/"):]
			if j := strings.LastIndex(l, "("); j > 0 {
				l = l[:j]
			}
			return l
		}
	}
	return "?"
}

// Wait runs every spawned process to its end under the seeded scheduler.
func (r *Run) Wait() {
	r.concurrent = r.live > 1
	last := -1
	for {
		synctest.Wait()
		r.mu.Lock()
		sort.SliceStable(r.parked, func(i, j int) bool { return r.parked[i].p.ID < r.parked[j].p.ID })
		n := len(r.parked)
		r.mu.Unlock()
		if n == 0 {
			if r.live == 0 {
				break
			}
			t := time.NewTimer(400 * time.Hour)
			select {
			case <-r.wake:
				t.Stop()
			case <-t.C:
				r.hung = true
				var who []string
				for _, p := range r.procs {
					if !p.gone && !p.dead {
						who = append(who, p.Name)
					}
				}
				if len(who) == 0 { // waiting for a goroutine that went with the process
					return
				}
				r.violate("hang", "%s still blocked after 400 simulated hours", strings.Join(who, ","))
				return
			}
			continue
		}
		// the benign choice is to let the one that ran last go on
		i := 0
		if n > 1 {
			for j, w := range r.parked {
				if w.p.ID == last {
					r.parked[0], r.parked[j] = r.parked[j], r.parked[0]
					break
				}
			}
			i = r.Src.N(n)
			if i != 0 {
				r.count("sched:switch")
			}
		}
		w := r.parked[i]
		r.mu.Lock()
		r.parked = append(r.parked[:i:i], r.parked[i+1:]...)
		r.mu.Unlock()
		last = w.p.ID
		close(w.ch)
	}
	select {
	case <-r.wake:
	default:
	}
	r.concurrent = false
}

// Result is what a run leaves behind.
type Result struct {
	Viol    []Violation
	Hash    uint64
	Events  int
	Shape   uint64
	Log     []string
	Stats   map[string]int
	Choices []uint32
	SimTime time.Duration
	Broken  string // harness trouble: the run decides nothing
}

// Execute runs one scenario in a bubble of virtual time.
func Execute(src *Src, verbose bool, f func(r *Run)) (res *Result) {
	r := &Run{Src: src, Verbose: verbose, Stats: map[string]int{}, Budget: 20000,
		wake: make(chan struct{}, 1), fds: map[int]*openFile{}, locks: map[*inode]*Proc{}, nextFd: fdGlobal}
	res = &Result{}
	defer func() {
		fdGlobal = r.nextFd
		if x := recover(); x != nil {
			res.Broken = fmt.Sprintf("%v\n%s", x, debug.Stack())
		}
		syscall.VsimOn = false
		syscall.VsimSetRand(false, 0)
		time.VsimSkew = 0
		res.Viol, res.Hash, res.Events, res.Shape, res.Log, res.Stats, res.Choices = r.Viol, r.hash, r.nlog, r.shape, r.Log, r.Stats, src.Out
		if r.hung {
			res.Broken = "" // what is still blocked makes the bubble complain
		}
		if len(r.Unsupported) > 0 && res.Broken == "" {
			res.Broken = "simulator: " + r.Unsupported[0]
		}
	}()
	synctest.VsimRun(func() {
		defer func() {
			if x := recover(); x != nil {
				res.Broken = fmt.Sprintf("%v\n%s", x, debug.Stack())
			}
		}()
		r.wake = make(chan struct{}, 1)
		r.start = time.Now()
		r.FS = NewFS()
		r.install()
		r.installNet()
		f(r)
		res.SimTime = time.Since(r.start)
	})
	return res
}
