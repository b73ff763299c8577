// Command runner decides properties by running the scenarios of verif/harness.
package main

import (
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"

	"verif/harness"
	"verif/vsched"
)

type report struct {
	Scenario    string
	Bound       int // largest completed preemption bound (-1: complete without bound)
	Done        bool
	Unbounded   bool
	Execs       int
	Complete    int
	Pruned      int
	States      int64
	Transitions int64
	Outcomes    int
	Sample      []string
	Racy        []string
	MaxThreads  int
	Kind        string
	Msg         string
	Choices     []int
	VBound      int
	Case        string
	Trace       []string
	Inconcl     string
	WallS       float64
	Seq         bool
	Crash       string
}

type replayFile struct {
	Property string
	Scenario string
	Kind     string
	Message  string
	Bound    int
	Choices  []int    `json:",omitempty"`
	Racy     []string `json:",omitempty"`
	Case     string   `json:",omitempty"`
	Trace    []string
}

func find(prop, name string) *harness.Scenario {
	for _, s := range harness.All {
		if s.Prop == prop && s.Name == name {
			return s
		}
	}
	return nil
}

func options(s *harness.Scenario) vsched.Options {
	return vsched.Options{Race: s.Race, MapPerm: s.MapPerm, Timed: s.Timed, MaxSteps: s.Steps, Delay: s.Delay}
}

func traceLines(tr []vsched.Step) []string {
	var out []string
	for _, s := range tr {
		out = append(out, fmt.Sprintf("%-14s %-16s %-12s %s", s.Thread, s.Op, s.Obj, s.Loc))
	}
	return out
}

func runSeq(s *harness.Scenario, thorough bool, only string, deadline time.Time) (r report) {
	start := time.Now()
	r.Scenario, r.Seq = s.Name, true
	c := &harness.Seq{Thorough: thorough, Only: only, States: map[string]struct{}{}, Outcomes: map[string]int{}}
	current = c
	if !deadline.IsZero() {
		c.Stop = func() bool { return time.Now().After(deadline) }
	}
	defer func() {
		r.WallS = time.Since(start).Seconds()
		r.Execs, r.Complete = int(c.Cases), int(c.Cases)
		r.Transitions = c.Ops
		if r.Transitions == 0 {
			r.Transitions = c.Cases
		}
		r.States = int64(len(c.States))
		if r.States == 0 {
			r.States = c.Cases
		}
		current = nil
		r.Outcomes = len(c.Outcomes)
		for k := range c.Outcomes {
			r.Sample = append(r.Sample, k)
		}
		sort.Strings(r.Sample)
		if len(r.Sample) > 12 {
			r.Sample = r.Sample[:12]
		}
		if p := recover(); p != nil {
			r.Case = c.CaseName()
			if v, ok := p.(vsched.SeqViolation); ok {
				r.Kind, r.Msg = v.Kind, v.Msg
			} else {
				r.Kind, r.Msg = "panic", fmt.Sprintf("panic: %v", p)
				r.Trace = strings.Split(string(debug.Stack()), "\n")
			}
			r.Msg = "case " + r.Case + ": " + r.Msg
		} else {
			r.Done = !c.Stopped
			r.Unbounded = r.Done
		}
	}()
	s.Seq(c)
	return
}

func runSched(s *harness.Scenario, tier int, deadline time.Time) (r report) {
	start := time.Now()
	r.Scenario = s.Name
	r.Bound = -2
	defer func() { r.WallS = time.Since(start).Seconds() }()
	max := s.Bounds[tier]
	opt := options(s)
	opt.Deadline = deadline
	for b := 0; ; b++ {
		if max < 0 && b > 3 {
			b = -1
		}
		opt.Bound = b
		res := vsched.Explore(s.Body, opt)
		opt.Racy = res.Racy
		r.Execs += res.Execs
		r.Racy = res.Racy
		if res.Diverged != "" {
			r.Inconcl = "diverged: " + res.Diverged
			return
		}
		if res.Inconcl != "" {
			r.Inconcl = res.Inconcl
		}
		if res.Violation != nil {
			// a violation must be reproducible
			for i := 0; i < 3; i++ {
				rp := vsched.Replay(s.Body, opt, res.Choices)
				if rp.Violation == nil || rp.Violation.Kind != res.Violation.Kind {
					r.Inconcl = "violation not reproducible: " + res.Violation.Msg + " " + rp.Diverged
					return
				}
				r.Msg = rp.Violation.Msg
				r.Trace = traceLines(rp.Trace)
			}
			r.Kind, r.Choices, r.VBound = res.Violation.Kind, res.Choices, b
			r.fill(res)
			return
		}
		if res.Exhausted || r.States < int64(res.States) {
			r.fill(res)
		}
		if !res.Exhausted {
			return
		}
		r.Bound = b
		if !res.BoundHit {
			r.Unbounded = true
			r.Done = true
			return
		}
		if b == max || b < 0 {
			r.Done = true
			return
		}
	}
}

func (r *report) fill(res *vsched.Result) {
	r.Complete, r.Pruned = res.Complete, res.Pruned
	r.States, r.Transitions = int64(res.States), res.Transitions
	r.Outcomes, r.MaxThreads = len(res.Outcomes), res.MaxThreads
	r.Sample = nil
	for k := range res.Outcomes {
		r.Sample = append(r.Sample, k)
	}
	sort.Strings(r.Sample)
	if len(r.Sample) > 12 {
		r.Sample = r.Sample[:12]
	}
}

func main() {
	prop := flag.String("prop", "", "property")
	tier := flag.String("tier", "quick", "quick or thorough")
	budget := flag.Float64("budget", 60, "seconds for exploration")
	evidence := flag.String("evidence", "", "evidence directory")
	known := flag.String("known", "", "known findings file")
	worker := flag.String("worker", "", "internal: scenario to run")
	deadline := flag.Float64("deadline", 0, "internal: seconds")
	jobs := flag.Int("j", 8, "parallel workers")
	replay := flag.String("replay", "", "replay file")
	list := flag.Bool("list", false, "list scenarios")
	only := flag.String("only", "", "run only this scenario")
	nocache := flag.Bool("validate", false, "compare explorations with and without state caching")
	flag.Parse()
	ti := 0
	if *tier == "thorough" {
		ti = 1
	}
	switch {
	case *list:
		for _, s := range harness.All {
			flags := ""
			if s.Seq == nil {
				flags = ",preemptions"
				if s.Delay {
					flags = ",delays"
				}
				if s.Race {
					flags += ",races"
				}
				if s.Timed {
					flags += ",timed"
				}
			}
			if s.ThoroughOnly {
				flags += ",thorough only"
			}
			fmt.Printf("%s %s bounds=%v%s: %s\n", s.Prop, s.Name, s.Bounds, flags, s.Doc)
		}
	case *worker != "":
		if f := os.Getenv("VERIF_PROF"); f != "" {
			w, _ := os.Create(f)
			pprof.StartCPUProfile(w)
			defer pprof.StopCPUProfile()
		}
		s := find(*prop, *worker)
		dl := time.Now().Add(time.Duration(*deadline * float64(time.Second)))
		var r report
		debug.SetMaxStack(64 << 20)
		watch(s)
		if s.Seq != nil {
			r = runSeq(s, ti == 1, "", dl)
		} else {
			r = runSched(s, ti, dl)
		}
		json.NewEncoder(os.Stdout).Encode(r)
	case *replay != "":
		os.Exit(doReplay(*replay))
	case *nocache:
		validate(*prop, *only, *deadline)
	default:
		os.Exit(master(*prop, *tier, ti, *budget, *evidence, *known, *jobs, *only))
	}
}

var current *harness.Seq

// watch reports an execution that computes without end.
func watch(s *harness.Scenario) {
	cpu := func() float64 {
		var u syscall.Rusage
		syscall.Getrusage(syscall.RUSAGE_SELF, &u)
		return float64(u.Utime.Sec+u.Stime.Sec) + float64(u.Utime.Usec+u.Stime.Usec)/1e6
	}
	go func() {
		last, since := vsched.Progress.Load(), cpu()
		idle := 0
		for {
			time.Sleep(time.Second)
			if n := vsched.Progress.Load(); n != last {
				last, since, idle = n, cpu(), 0
				continue
			}
			if cpu()-since < 25 {
				// blocked by something the scheduler doesn't control
				if idle++; idle > 60 && cpu()-since < 5 {
					json.NewEncoder(os.Stdout).Encode(report{Scenario: s.Name, Inconcl: "an execution is blocked outside of the scheduler"})
					os.Exit(0)
				}
				continue
			}
			buf := make([]byte, 1<<15)
			r := report{Scenario: s.Name, Kind: "hang", Msg: "endless computation",
				Trace: strings.Split(string(buf[:runtime.Stack(buf, true)]), "\n")}
			if c := current; c != nil {
				r.Seq, r.Case = true, c.CaseName()
				r.Msg = "case " + r.Case + ": " + r.Msg
			} else {
				r.Choices, r.VBound = vsched.Current()
			}
			json.NewEncoder(os.Stdout).Encode(r)
			os.Exit(0)
		}
	}()
}

func doReplay(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var f replayFile
	if err := json.Unmarshal(b, &f); err != nil {
		fmt.Println(err)
		return 2
	}
	s := find(f.Property, f.Scenario)
	if s == nil {
		fmt.Println("unknown scenario")
		return 2
	}
	if s.Seq != nil {
		r := runSeq(s, true, f.Case, time.Time{})
		if r.Kind == "" {
			r = runSeq(s, false, f.Case, time.Time{})
		}
		if r.Kind != "" {
			fmt.Printf("reproduced: %s: %s\n", r.Kind, r.Msg)
			return 1
		}
		fmt.Println("not reproduced")
		return 0
	}
	opt := options(s)
	opt.Bound = f.Bound
	opt.Racy = f.Racy
	rp := vsched.Replay(s.Body, opt, f.Choices)
	for _, l := range traceLines(rp.Trace) {
		fmt.Println(l)
	}
	if rp.Violation != nil {
		fmt.Printf("reproduced: %s: %s\n", rp.Violation.Kind, rp.Violation.Msg)
		return 1
	}
	fmt.Println("not reproduced", rp.Diverged, rp.Inconcl, rp.Out)
	return 0
}

func master(prop, tier string, ti int, budget float64, evidence, known string, jobs int, only string) int {
	start := time.Now()
	var ss []*harness.Scenario
	total := 0.0
	for _, s := range harness.All {
		if s.Prop == prop && (ti == 1 || !s.ThoroughOnly) && (only == "" || s.Name == only) {
			ss = append(ss, s)
			if s.Weight == 0 {
				s.Weight = 1
			}
			total += float64(s.Weight)
		}
	}
	if len(ss) == 0 {
		fmt.Println("no scenarios for", prop)
		return 2
	}
	sort.SliceStable(ss, func(i, j int) bool { return ss[i].Weight > ss[j].Weight })
	if jobs > len(ss) {
		jobs = len(ss)
	}
	self, _ := os.Executable()
	end := start.Add(time.Duration(budget * float64(time.Second)))
	reports := make([]report, len(ss))
	var wg sync.WaitGroup
	ch := make(chan int)
	var mu sync.Mutex
	left := total
	for w := 0; w < jobs; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range ch {
				s := ss[i]
				mu.Lock()
				// share of what remains, given the parallelism
				d := time.Until(end).Seconds() * float64(s.Weight) * float64(jobs) / left
				left -= float64(s.Weight)
				mu.Unlock()
				if m := time.Until(end).Seconds(); d > m {
					d = m
				}
				if d < 2 {
					d = 2
				}
				ctx, cancel := context.WithTimeout(context.Background(), time.Duration(d+90)*time.Second)
				cmd := exec.CommandContext(ctx, self, "-prop", prop, "-tier", tier, "-worker", s.Name, "-deadline", fmt.Sprint(d))
				cmd.Env = append(os.Environ(), "GOMAXPROCS=1", "GOGC=400", "GOMEMLIMIT=3GiB")
				var eb strings.Builder
				cmd.Stderr = &eb
				out, err := cmd.Output()
				cancel()
				r := report{}
				if e := json.Unmarshal(out, &r); e != nil || err != nil {
					r = report{Scenario: s.Name, Crash: fmt.Sprintf("worker: %v %s", err, tail(eb.String(), 60))}
					if t := eb.String(); strings.Contains(t, "stack overflow") || strings.Contains(t, "fatal error: concurrent map") || strings.Contains(t, "SIGSEGV") {
						r.Kind, r.Msg = "crash", tail(t, 3)
						r.Trace = strings.Split(tail(t, 60), "\n")
					}
				}
				reports[i] = r
			}
		}()
	}
	for i := range ss {
		ch <- i
	}
	close(ch)
	wg.Wait()

	kn := loadKnown(known)
	code := 0
	exhaustive := true
	var states, trans, execs, complete int64
	var perScenario []map[string]any
	var samples []any
	var viol []map[string]any
	sort.Slice(reports, func(i, j int) bool { return reports[i].Scenario < reports[j].Scenario })
	for _, r := range reports {
		states += r.States
		trans += r.Transitions
		execs += int64(r.Execs)
		complete += int64(r.Complete)
		if !r.Done {
			exhaustive = false
		}
		s := find(prop, r.Scenario)
		m := map[string]any{"scenario": r.Scenario, "doc": s.Doc, "executions": r.Execs, "judged": r.Complete,
			"pruned": r.Pruned, "states": r.States, "transitions": r.Transitions, "distinct_outcomes": r.Outcomes,
			"complete": r.Done, "wall_s": r.WallS}
		if r.Seq {
			m["kind"] = "sequential enumeration"
		} else {
			m["kind"] = "schedule exploration"
			if s.Delay {
				m["delay_bound_completed"] = r.Bound
			} else {
				m["preemption_bound_completed"] = r.Bound
			}
			m["all_schedules"] = r.Unbounded
			m["threads"] = r.MaxThreads
		}
		if len(r.Racy) > 0 {
			m["unordered_memory_accesses"] = r.Racy
		}
		if r.Inconcl != "" {
			m["inconclusive"] = r.Inconcl
		}
		status := "ok"
		if !r.Done {
			status = "ok so far (time)"
		}
		if r.Kind != "" {
			status = "VIOLATED"
		}
		if r.Crash != "" {
			status = "worker crashed: " + tail(r.Crash, 4)
			m["crash"] = r.Crash
		}
		if r.Inconcl != "" {
			status += " inconclusive: " + r.Inconcl
		}
		fmt.Printf("%s %-24s execs=%-8d judged=%-8d states=%-8d bound=%d all=%v outcomes=%d %.1fs %s\n", prop, r.Scenario, r.Execs, r.Complete, r.States, r.Bound, r.Unbounded, r.Outcomes, r.WallS, status)
		perScenario = append(perScenario, m)
		for i, o := range r.Sample {
			if i < 3 && len(samples) < 30 {
				samples = append(samples, map[string]any{"scenario": r.Scenario, "outcome": o})
			}
		}
		if r.Kind != "" {
			msg := r.Scenario + ": " + r.Kind + ": " + r.Msg
			if k := kn.match(prop, msg); k != "" {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k)
				continue
			}
			p := writeReplay(evidence, prop, &r)
			fmt.Printf("%s\n", msg)
			fmt.Printf("VIOLATION property=%s replay=%s\n", prop, p)
			viol = append(viol, map[string]any{"scenario": r.Scenario, "kind": r.Kind, "message": r.Msg, "replay": p})
			code = 1
		}
	}
	for _, k := range kn.of(prop) {
		_ = k
	}
	if evidence != "" {
		if len(samples) == 0 {
			samples = append(samples, map[string]any{"note": "no outcome was recorded"})
		}
		ev := map[string]any{
			"property": prop, "tier": tier, "seed": 1, "level": "model_checking", "exhaustive": exhaustive,
			"wall_s": time.Since(start).Seconds(),
			"coverage": map[string]any{
				"states": states, "transitions": trans, "traces_validated_against_impl": complete,
				"executions": execs, "samples": samples, "scenarios": perScenario,
				"note": "executions are runs of the instrumented repository code itself under a controlled scheduler, so every judged execution is a trace of the implementation; states are distinct happens-before states (schedule exploration) or distinct model states or cases (sequential enumeration)",
			},
			"violations": viol,
		}
		if viol == nil {
			ev["violations"] = []any{}
		}
		b, _ := json.MarshalIndent(ev, "", " ")
		os.MkdirAll(evidence, 0o755)
		os.WriteFile(filepath.Join(evidence, prop+".json"), append(b, '\n'), 0o644)
	}
	return code
}

func tail(s string, n int) string {
	l := strings.Split(strings.TrimSpace(s), "\n")
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, "\n")
}

func writeReplay(evidence, prop string, r *report) string {
	dir := filepath.Join(evidence, "replays")
	os.MkdirAll(dir, 0o755)
	h := fnv.New32a()
	fmt.Fprint(h, r.Scenario, r.Kind, r.Choices, r.Case)
	p := filepath.Join(dir, fmt.Sprintf("%s-%s-%08x.json", prop, r.Scenario, h.Sum32()))
	b, _ := json.MarshalIndent(replayFile{prop, r.Scenario, r.Kind, r.Msg, r.VBound, r.Choices, r.Racy, r.Case, r.Trace}, "", " ")
	os.WriteFile(p, append(b, '\n'), 0o644)
	return p
}

type knownSet map[string][][2]string

// loadKnown reads lines "known: property=ID match=<substring> :: <description>".
func loadKnown(path string) knownSet {
	k := knownSet{}
	b, err := os.ReadFile(path)
	if err != nil {
		return k
	}
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known: property=") {
			continue
		}
		l = strings.TrimPrefix(l, "known: property=")
		i := strings.Index(l, " match=")
		j := strings.Index(l, " :: ")
		if i < 0 || j < i {
			continue
		}
		p := l[:i]
		k[p] = append(k[p], [2]string{l[i+7 : j], l[j+4:]})
	}
	return k
}

func (k knownSet) of(p string) [][2]string { return k[p] }

func (k knownSet) match(p, msg string) string {
	for _, e := range k[p] {
		if e[0] != "" && strings.Contains(msg, e[0]) {
			return e[1]
		}
	}
	return ""
}

func validate(prop, only string, secs float64) {
	for _, s := range harness.All {
		if s.Body == nil || (prop != "" && s.Prop != prop) || (only != "" && s.Name != only) {
			continue
		}
		for b := 0; b <= 2 && (b <= s.Bounds[1] || s.Bounds[1] < 0); b++ {
			o := options(s)
			o.Bound = b
			o.Deadline = time.Now().Add(time.Duration(secs * float64(time.Second)))
			x := vsched.Explore(s.Body, o)
			o.NoCache = true
			o.Deadline = time.Now().Add(time.Duration(secs * float64(time.Second)))
			y := vsched.Explore(s.Body, o)
			same := len(x.Outcomes) == len(y.Outcomes)
			for k := range y.Outcomes {
				if x.Outcomes[k] == 0 {
					same = false
				}
			}
			fmt.Printf("%s %s bound %d: cached %d execs %d outcomes viol=%v exh=%v | uncached %d execs %d outcomes viol=%v exh=%v same=%v\n",
				s.Prop, s.Name, b, x.Execs, len(x.Outcomes), x.Violation != nil, x.Exhausted, y.Execs, len(y.Outcomes), y.Violation != nil, y.Exhausted, same)
			if !x.Exhausted || !y.Exhausted {
				break
			}
		}
	}
}
