// Package harness holds the model-checking scenarios of qbeon/webwire-go. It
// is rewritten (mc/instr) and linked against the instrumented repository.
package harness

import (
	"fmt"
	"sort"
	"strings"
	"time"

	"verif/vsched"
)

// Scenario is one bounded space of behaviours of the real code.
type Scenario struct {
	Prop string // property it decides
	Name string
	Doc  string

	// Body is run under every schedule (and environment answer) within the
	// preemption bound.
	Body   func()
	Bounds [2]int // largest preemption bound of the quick and thorough tier (-1: none)

	// Seq enumerates a sequential space of inputs or histories.
	Seq func(c *Seq)

	Race         bool // unordered memory accesses are violations
	MapPerm      bool
	Timed        bool
	ThoroughOnly bool
	Weight       int  // share of the time budget (default 1)
	Delay        bool // bounds limit the deviations from a deterministic schedule
	Steps        int  // steps after which an execution counts as endless
}

// All lists the scenarios.
var All []*Scenario

func add(s *Scenario) {
	for _, o := range All {
		if o.Name == s.Name && o.Prop == s.Prop {
			panic("duplicate scenario " + s.Prop + "/" + s.Name)
		}
	}
	All = append(All, s)
}

// Seq is the context of a sequential enumeration.
type Seq struct {
	Thorough bool
	Cases    int64 // enumerated cases
	Ops      int64 // operations executed on the implementation
	States   map[string]struct{}
	Outcomes map[string]int
	Case     string // description of the case in progress
	Only     string // replay: run only this case
	Stop     func() bool
	Stopped  bool

	caseF string
	caseA []any
}

// Try starts a case; it tells whether to run it.
func (c *Seq) Try(format string, args ...any) bool {
	if c.Stopped {
		return false
	}
	if c.Only != "" {
		c.Case = fmt.Sprintf(format, args...)
		if c.Case != c.Only {
			return false
		}
	} else {
		if c.Cases&255 == 0 && c.Stop != nil && c.Stop() {
			c.Stopped = true
			return false
		}
		c.caseF, c.caseA = format, args
	}
	c.Cases++
	vsched.Progress.Add(1)
	return true
}

// State counts distinct model states.
func (c *Seq) State(s string) {
	c.States[s] = struct{}{}
}

// Outcome counts outcomes.
func (c *Seq) Outcome(s string) { c.Outcomes[s]++ }

// Fail reports the running case.
func (c *Seq) Fail(format string, args ...any) {
	if c.Case == "" && c.caseF != "" {
		c.Case = fmt.Sprintf(c.caseF, c.caseA...)
	}
	panic(vsched.SeqViolation{Kind: "oracle", Msg: fmt.Sprintf(format, args...)})
}

// CaseName names the case in progress.
func (c *Seq) CaseName() string {
	if c.Only == "" {
		return fmt.Sprintf(c.caseF, c.caseA...)
	}
	return c.Case
}

// fail reports a violation from a scheduled body.
func fail(format string, args ...any) { vsched.Fail("oracle", format, args...) }

// spawn starts a named thread and returns a join function.
func spawn(name string, f func()) *task {
	t := &task{}
	t.o.Name = "join " + name
	vsched.GoNamed(name, func() {
		f()
		vsched.Op("done", &t.o, nil, func() { t.done = true })
	})
	return t
}

type task struct {
	o    vsched.Obj
	done bool
}

func (t *task) join() {
	vsched.Op("join", &t.o, func() bool { return t.done }, nil)
}

// isDone peeks after quiescence.
func (t *task) isDone() bool { return t.done }

func joinAll(ts ...*task) {
	for _, t := range ts {
		t.join()
	}
}

// outcome notes an outcome of the execution.
func outcome(format string, args ...any) { vsched.Outcome(fmt.Sprintf(format, args...)) }

// hist is an ordered global event history.
type hist struct{ ev []string }

func (h *hist) add(format string, args ...any) {
	s := fmt.Sprintf(format, args...)
	vsched.Log(func() { h.ev = append(h.ev, s) })
}

func (h *hist) index(s string) int {
	for i, e := range h.ev {
		if e == s {
			return i
		}
	}
	return -1
}

func (h *hist) count(prefix string) int {
	n := 0
	for _, e := range h.ev {
		if strings.HasPrefix(e, prefix) {
			n++
		}
	}
	return n
}

func (h *hist) String() string { return strings.Join(h.ev, " ") }

// cell is a shared counter or flag with ordered access.
type cell struct {
	o vsched.Obj
	v int
}

func (c *cell) add(d int) (n int) {
	vsched.Op("cell", &c.o, nil, func() { c.v += d; n = c.v })
	return
}

func (c *cell) set(v int) { vsched.Op("cell", &c.o, nil, func() { c.v = v }) }

func (c *cell) get() (n int) {
	vsched.Op("cell", &c.o, nil, func() { n = c.v })
	return
}

func (c *cell) await(v int) {
	vsched.Op("await", &c.o, func() bool { return c.v >= v }, nil)
}

func sorted(m map[string]int) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// vtimeAt is the virtual time t.
func vtimeAt(t int64) time.Time { return time.Now().Add(time.Duration(t - vsched.Now())) }
