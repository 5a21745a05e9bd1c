package main

import (
	"fmt"
	"go/types"
	"math/rand"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

type typesPackage = types.Package

type Driver struct {
	verif, prop, tier string
	workers           int
	verbose, noNative bool
	jobs              []Job
	start             time.Time
	budget            int
	deadline          time.Time
	seed              int64

	mu        sync.Mutex
	results   []*JobResult
	nat       *Native
	known     []known
	stopAt    atomic.Int64 // UnixNano; 0: run on
	confirmed map[string]bool
}

type JobResult struct {
	Job      Job
	Paths    int
	Infeas   int
	Incompl  int
	Forks    int
	Asserts  int
	Trivial  int
	Queries  int
	Sat      int
	Unsat    int
	Unknown  int
	Solver   time.Duration
	Wall     time.Duration
	Steps    int64
	Notes    map[string]int
	Viol     []*Violation
	Samples  []*Replay
	Fns      map[*ssa.Function]bool
	Reached  map[string]bool
	TimedOut bool
	Err      string
}

func z3bin() string {
	if b := os.Getenv("SYMGO_Z3"); b != "" {
		return b
	}
	for _, p := range []string{"/usr/local/bin/z3-new", "/usr/bin/z3", "/usr/local/bin/z3", "z3"} {
		if _, err := os.Stat(p); err == nil {
			return p
		}
	}
	return "z3"
}

func (d *Driver) runJob(p *Program, j Job, sv *Solver, limit time.Duration) (res *JobResult) {
	t0 := time.Now()
	res = &JobResult{Job: j}
	c := NewCtx()
	x := &Exec{p: p, c: c, solver: sv, vcache: map[*Term][]*Term{}, ufres: map[string]*Term{}, notes: map[string]int{},
		params: j.Params, job: j.Name, entry: j.Entry, fns: map[*ssa.Function]bool{}, reached: map[string]bool{}, pused: map[string]bool{},
		loopMax: 1100, stepMax: 20_000_000, maxViol: 4}
	x.deadline = t0.Add(limit)
	x.stopAt = &d.stopAt
	tried := 0
	if !d.deadline.IsZero() && d.deadline.Before(x.deadline) {
		x.deadline = d.deadline
	}
	q0, s0, u0, k0, d0 := sv.queries, sv.sat, sv.unsat, sv.unknown, sv.dur
	defer func() {
		if r := recover(); r != nil {
			res.Err = fmt.Sprint(r)
			if _, ok := r.(engineError); !ok {
				res.Err += "\n" + string(debug.Stack())
			}
			sv.dead = true
		}
		res.Paths, res.Infeas, res.Incompl, res.Forks = x.paths, x.infeas, x.incompl, x.nforks
		res.Asserts, res.Trivial, res.Steps = x.asserts, x.trivial, x.steps
		res.Notes, res.Viol, res.Samples, res.Fns, res.Reached, res.TimedOut = x.notes, x.viol, x.samples, x.fns, x.reached, x.timedOut
		res.Queries, res.Sat, res.Unsat, res.Unknown = sv.queries-q0, sv.sat-s0, sv.unsat-u0, sv.unknown-k0
		res.Solver = sv.dur - d0
		res.Wall = time.Since(t0)
	}()
	sv.Begin(c)
	rng := rand.New(rand.NewSource(d.seed*7919 + int64(len(j.Name))))
	f := p.harness.Func(j.Entry)
	if f == nil {
		panic(engineError("no entry " + j.Entry))
	}
	s := x.newState()
	// package initialisation, then the entry
	s.frames = append(s.frames, x.newFrame(p.harness.Func("init")))
	if ev := x.run(s); ev.kind != "done" {
		panic(engineError("package initialisation: " + ev.kind + " " + ev.msg))
	}
	x.reached = map[string]bool{}
	s.frames = append(s.frames, x.newFrame(f))
	s.steps = 0
	x.work = append(x.work, s)
	for len(x.work) > 0 {
		s := x.work[len(x.work)-1]
		x.work = x.work[:len(x.work)-1]
		ev := x.run(s)
		switch ev.kind {
		case "done":
			x.paths++
			if !d.noNative {
				x.sample(s, rng)
			}
		case "infeasible":
			x.infeas++
		case "stop": // a definite violation was recorded
			x.paths++
		case "panic", "oob", "hang":
			x.paths++
			x.violation(s, ev.kind, ev.msg)
		case "unsupported":
			x.incompl++
			x.note(ev.msg)
		default:
			panic(engineError("event " + ev.kind))
		}
		for ; tried < len(x.viol); tried++ {
			d.tryConfirm(x.viol[tried], j)
		}
		if !x.timedOut && x.late() {
			x.timedOut = true
		}
		if x.timedOut || len(x.viol) >= x.maxViol {
			if len(x.work) > 0 {
				x.note(fmt.Sprintf("%d paths not explored", len(x.work)))
				x.incompl += len(x.work)
			}
			break
		}
	}
	return
}

// grace is how long exploration goes on after the first confirmed violation.
var grace = 8 * time.Second

func violKey(v *Violation, j Job) string {
	return v.Kind + v.Msg + j.Entry + fmt.Sprint(j.Params["kind"])
}

// tryConfirm replays a candidate on the real code as soon as it is found.
func (d *Driver) tryConfirm(v *Violation, j Job) {
	if d.noNative {
		return
	}
	k := violKey(v, j)
	d.mu.Lock()
	skip := d.confirmed[k]
	d.mu.Unlock()
	if skip {
		return
	}
	v.Tried = true
	v.OK = d.confirm(d.nat, v)
	if !v.OK {
		return
	}
	d.mu.Lock()
	d.confirmed[k] = true
	if d.matchKnown(v) == nil && d.stopAt.Load() == 0 {
		d.stopAt.Store(time.Now().Add(grace).UnixNano())
	}
	d.mu.Unlock()
}

const samplesPerJob = 3

// sample keeps a few completed paths (reservoir) for the comparison with native runs.
func (x *Exec) sample(s *State, rng *rand.Rand) {
	x.nsample++
	if len(x.samples) < samplesPerJob {
		x.samples = append(x.samples, x.replay(s))
	} else if k := rng.Intn(x.nsample); k < samplesPerJob {
		x.samples[k] = x.replay(s)
	}
}

func (d *Driver) run() int {
	if s := os.Getenv("VERIF_SEED"); s != "" {
		fmt.Sscan(s, &d.seed)
	} else {
		d.seed = 1
	}
	if d.budget == 0 {
		d.budget = 600
		if d.tier == "thorough" {
			d.budget = 3 * 3600
		}
	}
	d.deadline = d.start.Add(time.Duration(d.budget) * time.Second)
	p, err := loadProgram(d.verif + "/harness")
	if err != nil {
		fmt.Fprintln(os.Stderr, "cannot load the code under test:", err)
		return 2
	}
	// the native build runs while the jobs do
	var nat *Native
	natc := make(chan error, 1)
	if !d.noNative {
		nat = newNative(d.verif, d.prop)
		defer nat.Close()
		d.nat = nat
		go func() { natc <- nat.Build("") }()
	}
	load := time.Since(d.start)
	d.known = d.knownFindings()
	d.confirmed = map[string]bool{}
	jobs := append([]Job(nil), d.jobs...)
	if harnessTags != "" {
		fmt.Println("amt.Int is not usable as a generic key: containers over it are left out")
		n := jobs[:0]
		for _, j := range jobs {
			if k := j.Params["kind"]; k != 12 && k != 15 {
				n = append(n, j)
			}
		}
		jobs = n
	}
	sort.SliceStable(jobs, func(i, k int) bool { return jobs[i].Weight > jobs[k].Weight })
	ch := make(chan Job)
	var wg sync.WaitGroup
	limit := 240 * time.Second
	if d.tier == "thorough" {
		limit = 3600 * time.Second
	}
	skipped, left := 0, len(jobs)
	for i := 0; i < d.workers; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			sv, err := NewSolver(z3bin())
			if err != nil {
				fmt.Fprintln(os.Stderr, "solver:", err)
				os.Exit(2)
			}
			defer sv.Close()
			for j := range ch {
				d.mu.Lock()
				st := d.stopAt.Load()
				skip := time.Now().After(d.deadline) || st != 0 && time.Now().UnixNano() > st
				if skip {
					skipped++
				}
				// a fair share of what is left, with room for the heavier jobs
				share := 4 * time.Until(d.deadline) * time.Duration(d.workers) / time.Duration(left)
				left--
				d.mu.Unlock()
				if skip {
					continue
				}
				if share > limit {
					share = limit
				}
				r := d.runJob(p, j, sv, share)
				d.mu.Lock()
				d.results = append(d.results, r)
				if d.verbose {
					fmt.Printf("%-60s paths %d infeas %d incompl %d asserts %d(%d) queries %d solver %.2fs wall %.2fs steps %d viol %d %v %s\n", j.Name, r.Paths, r.Infeas, r.Incompl, r.Asserts, r.Trivial, r.Queries, r.Solver.Seconds(), r.Wall.Seconds(), r.Steps, len(r.Viol), r.Notes, r.Err)
					for _, v := range r.Viol {
						fmt.Printf("    %s: %s at %s\n", v.Kind, v.Msg, v.Where)
					}
				}
				d.mu.Unlock()
				if len(r.Samples) > 0 || true {
					runtime.Gosched()
				}
			}
		}()
	}
	for _, j := range jobs {
		ch <- j
	}
	close(ch)
	wg.Wait()
	if !d.noNative {
		if err := <-natc; err != nil {
			fmt.Fprintln(os.Stderr, "native build:", err)
			return 2
		}
	}
	return d.report(nat, load, skipped)
}

func fnNames(rs []*JobResult) (repo []string, others int) {
	seen := map[string]bool{}
	o := map[string]bool{}
	for _, r := range rs {
		for f := range r.Fns {
			g := f
			if or := f.Origin(); or != nil {
				g = or
			}
			n := g.String()
			if strings.Contains(n, repoPath+".") {
				seen[strings.ReplaceAll(n, repoPath+".", "")] = true
			} else {
				o[n] = true
			}
		}
	}
	for n := range seen {
		repo = append(repo, n)
	}
	sort.Strings(repo)
	return repo, len(o)
}
