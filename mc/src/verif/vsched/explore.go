package vsched

import (
	"fmt"
	"runtime"
	"sort"
	"time"
	"unsafe"
)

// Options configure an exploration.
type Options struct {
	Bound    int          // preemption bound (negative: unbounded)
	Deadline time.Time    // stop without a verdict then
	MaxExecs int          // 0: unlimited
	MaxSteps int          // per execution
	Race     bool         // data races are violations
	NoAdapt  bool         // do not look for data races at all
	Racy     []string     // code locations whose memory accesses are scheduling points
	MapPerm  bool         // enumerate map iteration orders
	Timed    bool         // the harness drives the clock
	Delay    bool         // the bound limits all deviations from a deterministic schedule (delay bounding)
	NoCache  bool         // disable state caching (validation)
	FixRoot  []int        // restrict to a subtree (work splitting)
	Setup    func(r *Run) // called before each execution
}

// Result summarises an exploration.
type Result struct {
	Execs       int
	Complete    int // executions run to completion and judged
	Pruned      int
	States      int
	Transitions int64
	Outcomes    map[string]int
	Exhausted   bool // everything within the bound was explored
	BoundHit    bool // some branch was cut by the preemption bound
	Violation   *Violation
	Choices     []int
	Keys        []uint64
	Inconcl     string
	Diverged    string
	MaxThreads  int
	MaxDepth    int
	newRacy     []string
	Racy        []string // unordered memory accesses found (explored as scheduling points)
}

func newRun(opt *Options) *Run {
	genCounter++
	r := &Run{gen: genCounter, doneCh: make(chan struct{}, 1), maxSteps: opt.MaxSteps,
		bound: opt.Bound, raceOn: opt.Race || !opt.NoAdapt, raceFail: opt.Race, MapPerm: opt.MapPerm, Timed: opt.Timed, delay: opt.Delay}
	if r.maxSteps == 0 {
		r.maxSteps = 20000
	}
	if r.bound < 0 {
		r.bound = 1 << 30
	}
	if r.raceOn {
		r.shadow = map[unsafe.Pointer]*cell{}
	}
	if len(opt.Racy) > 0 && !opt.Race {
		r.racy = map[string]bool{}
		for _, l := range opt.Racy {
			r.racy[l] = true
		}
	}
	r.mapIDs = map[any]uint64{}
	r.Locals = map[string]any{}
	r.clock.Name = "clock"
	r.hist.Name = "history"
	return r
}

// Current returns the choices of the execution in progress (for a watchdog).
func Current() (choices []int, bound int) {
	r := R
	if r == nil {
		return nil, 0
	}
	c, _ := choicesOf(r)
	return c, r.bound
}

// exec runs one execution.
func exec(body func(), opt *Options, prefix []int, keys []uint64, cache map[uint64]int8, record bool) *Run {
	r := newRun(opt)
	r.prefix = prefix
	r.pkeys = keys
	r.cache = cache
	r.record = record
	R = r
	if opt.Setup != nil {
		opt.Setup(r)
	}
	m := r.newThread("main", body)
	m.hash = 42
	m.vc.set(0, 1)
	r.cur = m
	m.wake <- struct{}{}
	select {
	case <-r.doneCh:
	default:
		<-r.doneCh
	}
	r.dead = true
	r.kill()
	R = nil
	return r
}

func (r *Run) kill() {
	wait := func(t *Thread) {
		select {
		case <-t.exit:
			return
		default:
		}
		tm := time.NewTimer(20 * time.Second)
		select {
		case <-t.exit:
		case <-tm.C:
			buf := make([]byte, 1<<16)
			n := runtime.Stack(buf, true)
			panic(fmt.Sprintf("vsched: thread %s does not terminate\n%s", t.Name, buf[:n]))
		}
		tm.Stop()
	}
	wait(r.cur)
	for i := 0; i < len(r.threads); i++ {
		t := r.threads[i]
		select {
		case <-t.exit:
			continue
		default:
		}
		r.cur = t
		select {
		case t.wake <- struct{}{}:
		default:
		}
		wait(t)
	}
}

// Explore runs body under every schedule within the bound. Code locations
// found to access memory without ordering become scheduling points themselves
// (and the exploration starts over), unless races are violations anyway.
func Explore(body func(), opt Options) *Result {
	opt.Racy = append([]string{}, opt.Racy...)
	var execs int
	for {
		res := explore(body, opt)
		execs += res.Execs
		res.Execs = execs
		if len(res.newRacy) == 0 {
			res.Racy = opt.Racy
			return res
		}
		opt.Racy = append(opt.Racy, res.newRacy...)
	}
}

func explore(body func(), opt Options) *Result {
	res := &Result{Outcomes: map[string]int{}}
	var cache map[uint64]int8
	if !opt.NoCache {
		cache = map[uint64]int8{}
	}
	prefix := append([]int{}, opt.FixRoot...)
	var keys []uint64
	root := len(opt.FixRoot)
	for {
		if !opt.Deadline.IsZero() && res.Execs%16 == 0 && time.Now().After(opt.Deadline) {
			return res
		}
		if opt.MaxExecs > 0 && res.Execs >= opt.MaxExecs {
			return res
		}
		r := exec(body, &opt, prefix, keys, cache, false)
		res.Execs++
		res.States += r.newStates
		res.Transitions += int64(r.steps - r.base)
		res.BoundHit = res.BoundHit || r.boundHit
		if len(r.threads) > res.MaxThreads {
			res.MaxThreads = len(r.threads)
		}
		if len(r.decisions) > res.MaxDepth {
			res.MaxDepth = len(r.decisions)
		}
		if r.diverged != "" {
			res.Diverged = r.diverged
			return res
		}
		if r.raceSeen && !opt.Race && len(opt.Racy) < 60 {
			c, _ := choicesOf(r)
			rr := exec(body, &opt, c, nil, nil, true)
			seen := map[string]bool{}
			for _, l := range opt.Racy {
				seen[l] = true
			}
			for _, l := range rr.racePair {
				if l != "" && !seen[l] {
					seen[l] = true
					res.newRacy = append(res.newRacy, l)
				}
			}
			if len(res.newRacy) > 0 {
				return res
			}
		}
		if r.viol != nil {
			res.Violation = r.viol
			res.Complete++
			res.Choices, res.Keys = choicesOf(r)
			return res
		}
		if r.inconcl != "" {
			res.Inconcl = r.inconcl
		} else if r.pruned {
			res.Pruned++
		} else {
			res.Complete++
			sort.Strings(r.Out)
			res.Outcomes[fmt.Sprint(r.Out)]++
		}
		// backtrack
		i := len(r.decisions) - 1
		for ; i >= root; i-- {
			if r.decisions[i].chosen+1 < r.decisions[i].n {
				break
			}
		}
		if i < root {
			res.Exhausted = res.Inconcl == ""
			return res
		}
		prefix = prefix[:0]
		keys = keys[:0]
		for _, d := range r.decisions[:i] {
			prefix = append(prefix, d.chosen)
			keys = append(keys, d.key)
		}
		prefix = append(prefix, r.decisions[i].chosen+1)
		keys = append(keys, r.decisions[i].key)
	}
}

func choicesOf(r *Run) ([]int, []uint64) {
	var c []int
	var k []uint64
	for _, d := range r.decisions {
		c = append(c, d.chosen)
		k = append(k, d.key)
	}
	return c, k
}

// ReplayResult is one replayed execution.
type ReplayResult struct {
	Violation *Violation
	Trace     []Step
	Out       []string
	Diverged  string
	Inconcl   string
	Choices   []int
}

// Replay re-executes one schedule with recording (opt.Bound must be the bound
// of the exploration that produced the choices).
func Replay(body func(), opt Options, choices []int) *ReplayResult {
	r := exec(body, &opt, choices, nil, nil, true)
	c, _ := choicesOf(r)
	return &ReplayResult{Violation: r.viol, Trace: r.trace, Out: r.Out, Diverged: r.diverged, Inconcl: r.inconcl, Choices: c}
}

// Roots enumerates subtree roots (choice prefixes) for work splitting: all
// decision prefixes of depth up to d reached within the bound.
func Roots(body func(), opt Options, want int) [][]int {
	type node struct {
		p    []int
		leaf bool
	}
	frontier := []node{{}}
	for {
		open := 0
		for _, n := range frontier {
			if !n.leaf {
				open++
			}
		}
		if open == 0 || len(frontier) >= want {
			break
		}
		var next []node
		for _, n := range frontier {
			if n.leaf {
				next = append(next, n)
				continue
			}
			r := exec(body, &opt, n.p, nil, nil, false)
			if r.viol != nil || len(r.decisions) <= len(n.p) {
				next = append(next, node{n.p, true})
				continue
			}
			d := r.decisions[len(n.p)]
			for c := 0; c < d.n; c++ {
				next = append(next, node{append(append([]int{}, n.p...), c), false})
			}
		}
		frontier = next
	}
	var out [][]int
	for _, n := range frontier {
		out = append(out, n.p)
	}
	return out
}
