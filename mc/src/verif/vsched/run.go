// Package vsched is a deterministic cooperative scheduler for stateless model
// checking of Go code. Instrumented code (see mc/instr) performs every
// synchronisation operation through this package and its shim packages; at
// most one thread runs at a time and every choice (which thread continues,
// which environment answer is given) is made by an Explorer.
package vsched

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"strings"
	"sync/atomic"
	"unsafe"
)

// R is the execution in progress (nil: instrumented code runs sequentially
// and unscheduled).
var R *Run

var genCounter uint64

// VC is a vector clock.
type VC []uint32

func (v VC) get(i int) uint32 {
	if i < len(v) {
		return v[i]
	}
	return 0
}

func (v *VC) join(o VC) {
	if len(o) > len(*v) {
		n := make(VC, len(o))
		copy(n, *v)
		*v = n
	}
	for i, c := range o {
		if c > (*v)[i] {
			(*v)[i] = c
		}
	}
}

func (v *VC) set(i int, c uint32) {
	if i >= len(*v) {
		n := make(VC, i+1)
		copy(n, *v)
		*v = n
	}
	(*v)[i] = c
}

// Obj is the scheduler's view of a shared object.
type Obj struct {
	gen   uint64
	hW    uint64 // hash of the last conflicting (write) event
	reads uint64 // commutative sum of read events since then
	vc    VC     // release clock
	rvc   VC     // release clock of readers
	Name  string
}

func (o *Obj) touch(r *Run) {
	if o.gen != r.gen {
		*o = Obj{gen: r.gen, Name: o.Name}
	}
}

// Fresh tells whether the object was not used in this execution yet (shims
// reset their state then).
func (o *Obj) Fresh() bool { return R != nil && o.gen != R.gen }

type tstate byte

const (
	tReady   tstate = iota // about to perform pending op (subject to guard) or resumed
	tParked                // waiting to be completed by a partner
	tQuiesce               // waiting for global quiescence
	tDone
)

// Guard tells whether a pending operation can proceed.
type Guard interface{ Ready(t *Thread) bool }

// GuardFunc adapts a function.
type GuardFunc func() bool

// Ready implements Guard.
func (g GuardFunc) Ready(*Thread) bool { return g() }

// Thread is a scheduled thread.
type Thread struct {
	ID    int
	Name  string
	wake  chan struct{}
	state tstate
	guard Guard
	pend  string
	pobj  *Obj
	hash  uint64
	vc    VC
	exit  chan struct{}

	// select completion
	selDone  int
	selPanic bool
	waiters  []*waiter
	loc      string
	quLimit  int64
	quFires  int
}

func (t *Thread) canRun() bool {
	if t.state != tReady {
		return false
	}
	return t.guard == nil || t.guard.Ready(t)
}

// Violation describes a failed execution.
type Violation struct {
	Kind string
	Msg  string
}

type decision struct {
	n      int
	chosen int
	key    uint64
	kind   byte // 't' thread, 'c' choice
	pre    bool // choosing >0 costs a preemption
}

// Step is one line of a recorded trace.
type Step struct {
	Thread string
	Op     string
	Obj    string
	Loc    string
}

// Run is one execution.
type Run struct {
	gen     uint64
	threads []*Thread
	cur     *Thread
	sum     uint64
	steps   int
	base    int // steps when the replayed prefix was consumed
	dead    bool
	ended   bool
	doneCh  chan struct{}
	viol    *Violation
	pruned  bool
	inconcl string

	prefix    []int
	pkeys     []uint64
	decisions []decision
	preempts  int
	bound     int
	delay     bool
	cache     map[uint64]int8
	newStates int
	diverged  string
	boundHit  bool

	now      int64
	poolFIFO bool
	timers   []*TimerCore
	timerSeq int
	autoFire int
	Timed    bool // harness drives the clock: timer operations are scheduling points
	MapPerm  bool
	timerHit int

	clock Obj
	hist  Obj

	raceOn   bool
	raceFail bool
	raceSeen bool
	racePair [2]string
	racy     map[string]bool
	shadow   map[unsafe.Pointer]*cell
	mapIDs   map[any]uint64

	maxSteps int
	record   bool
	trace    []Step
	enBuf    []*Thread
	Out      []string // harness outcome strings (thread order independent)
	fs       any
	Locals   map[string]any
	dataRace string
}

func mix(a, b uint64) uint64 {
	a ^= b + 0x9e3779b97f4a7c15 + (a << 6) + (a >> 2)
	a ^= a >> 30
	a *= 0xbf58476d1ce4e5b9
	a ^= a >> 27
	a *= 0x94d049bb133111eb
	a ^= a >> 31
	return a
}

func hashStr(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h ^= uint64(s[i])
		h *= 1099511628211
	}
	return h
}

var kindHash = map[string]uint64{}

func kh(s string) uint64 {
	if h, ok := kindHash[s]; ok {
		return h
	}
	h := mix(hashStr(s), 77)
	kindHash[s] = h
	return h
}

// Active tells whether a scheduled execution is in progress.
func Active() bool { return R != nil }

// Cur returns the running thread.
func Cur() *Thread {
	if R == nil {
		return nil
	}
	return R.cur
}

// Dead tells whether the current execution is being torn down; shims make
// their operations no-ops then.
func Dead() bool { return R != nil && R.dead }

// Point is a scheduling point in front of an operation on o. It returns when
// the calling thread was chosen to run and its guard holds.
func Point(op string, o *Obj, g Guard) *Thread {
	r := R
	if r.dead {
		runtime.Goexit()
	}
	t := r.cur
	t.guard = g
	t.pend = op
	t.pobj = o
	if r.record {
		t.loc = caller(3)
	}
	r.switchFrom(t)
	t.guard = nil
	return t
}

// switchFrom picks the next thread and transfers control if needed.
func (r *Run) switchFrom(t *Thread) {
	n := r.pick(t)
	if n == nil { // execution ended (deadlock, pruned, ...)
		r.end()
		runtime.Goexit()
	}
	if n == t {
		return
	}
	r.cur = n
	n.wake <- struct{}{}
	<-t.wake
	if r.dead {
		runtime.Goexit()
	}
}

// end wakes the explorer, which tears the execution down.
func (r *Run) end() {
	if !r.ended {
		r.ended = true
		r.dead = true
		r.doneCh <- struct{}{}
	}
}

// pick selects the next thread to run.
func (r *Run) pick(cur *Thread) *Thread {
	if r.ended {
		return nil
	}
	r.steps++
	Progress.Add(1)
	if r.steps > r.maxSteps {
		if r.viol == nil {
			r.viol = &Violation{Kind: "livelock", Msg: fmt.Sprintf("still running after %d steps:%s", r.maxSteps, r.describe())}
		}
		return nil
	}
	for {
		en := r.enBuf[:0]
		curEn := false
		if cur != nil && cur.canRun() {
			en = append(en, cur)
			curEn = true
		}
		for _, t := range r.threads {
			if t != cur && t.canRun() {
				en = append(en, t)
			}
		}
		r.enBuf = en
		if len(en) == 0 {
			if q := r.quiescer(); q != nil {
				if r.fireAuto(q) {
					continue
				}
				q.state = tReady
				return q
			}
			if r.fireAuto(nil) {
				continue
			}
			r.deadlock()
			return nil
		}
		if len(en) == 1 {
			return en[0]
		}
		if (curEn || r.delay) && r.preempts >= r.bound {
			r.boundHit = true
			return en[0]
		}
		key := mix(r.sum, 0x1234)
		if cur != nil {
			key = mix(key, cur.hash)
			if curEn {
				key = mix(key, 3)
			}
		}
		c := r.decide(len(en), key, 't', curEn || r.delay)
		if c < 0 {
			return nil
		}
		return en[c]
	}
}

func (r *Run) quiescer() *Thread {
	for _, t := range r.threads {
		if t.state == tQuiesce {
			return t
		}
	}
	return nil
}

// decide makes one recorded choice. It returns -1 when the execution is to be
// abandoned because the state was explored before.
func (r *Run) decide(n int, key uint64, kind byte, pre bool) int {
	i := len(r.decisions)
	c := 0
	if i+1 == len(r.prefix) {
		r.base = r.steps
	}
	if i < len(r.prefix) {
		c = r.prefix[i]
		if c >= n || (i < len(r.pkeys) && r.pkeys[i] != key) {
			r.diverged = fmt.Sprintf("decision %d: choice %d of %d, key %x want %x", i, c, n, key, func() uint64 {
				if i < len(r.pkeys) {
					return r.pkeys[i]
				}
				return 0
			}())
			return -1
		}
	} else if r.cache != nil && kind == 't' {
		left := int8(100)
		if r.bound-r.preempts < 100 {
			left = int8(r.bound - r.preempts)
		}
		if old, ok := r.cache[key]; ok {
			if old >= left {
				r.pruned = true
				return -1
			}
		} else {
			r.newStates++
		}
		r.cache[key] = left
	} else if r.cache != nil && kind == 'c' {
		r.newStates++
	}
	r.decisions = append(r.decisions, decision{n, c, key, kind, pre})
	if pre && c > 0 {
		r.preempts++
	}
	return c
}

// Event records that the current thread performed op on o (write: conflicts
// with every other access of o; read: commutes with reads).
func Event(op string, o *Obj, write bool) uint64 {
	r := R
	t := r.cur
	h := mix(t.hash, kh(op))
	if o != nil {
		o.touch(r)
		if write {
			h = mix(h, mix(o.hW, o.reads))
			o.hW = h
			o.reads = 0
		} else {
			h = mix(h, o.hW)
			o.reads += h
		}
	}
	t.hash = h
	r.sum += mix(h, 11)
	if r.record {
		name := ""
		if o != nil {
			name = o.Name
		}
		r.trace = append(r.trace, Step{t.Name, op, name, t.loc})
	}
	return h
}

// Acq joins the object's clock into the thread's, Rel does the reverse.
func Acq(o *Obj) { R.cur.vc.join(o.vc) }

// Rel releases the thread's clock into the object.
func Rel(o *Obj) {
	t := R.cur
	o.vc.join(t.vc)
	t.vc.set(t.ID, t.vc.get(t.ID)+1)
}

// AcqR joins the readers' clock.
func AcqR(o *Obj) { R.cur.vc.join(o.rvc) }

// RelR releases into the readers' clock.
func RelR(o *Obj) {
	t := R.cur
	o.rvc.join(t.vc)
	t.vc.set(t.ID, t.vc.get(t.ID)+1)
}

// Op performs an atomic operation: waits for guard, then runs eff.
func Op(op string, o *Obj, guard func() bool, eff func()) {
	if R == nil {
		if guard != nil && !guard() {
			panic("vsched: operation " + op + " blocks outside of a scheduled execution")
		}
		if eff != nil {
			eff()
		}
		return
	}
	var g Guard
	if guard != nil {
		g = GuardFunc(guard)
	}
	Point(op, o, g)
	Event(op, o, true)
	if o != nil {
		Acq(o)
	}
	if eff != nil {
		eff()
	}
	if o != nil {
		Rel(o)
	}
}

// AtomicOp is Op without a guard, for shims.
func AtomicOp(op string, o *Obj, write bool, eff func()) {
	if R == nil {
		eff()
		return
	}
	if R.dead {
		runtime.Goexit()
	}
	Point(op, o, nil)
	Event(op, o, write)
	Acq(o)
	eff()
	if write {
		Rel(o)
	}
}

// Yield is a scheduling point without an operation.
func Yield() {
	if R == nil {
		return
	}
	Point("yield", nil, nil)
}

// Go starts a thread.
func Go(f func()) { GoNamed("", f) }

// GoNamed starts a named thread.
func GoNamed(name string, f func()) *Thread {
	r := R
	if r == nil {
		panic("vsched: goroutine started outside of a scheduled execution")
	}
	if r.dead {
		return nil
	}
	t := r.cur
	if len(r.threads) > 1200 {
		r.inconcl = "too many threads"
		r.end()
		runtime.Goexit()
	}
	h := Event("go", nil, true)
	nt := r.newThread(name, f)
	nt.hash = mix(h, 0xabcdef)
	nt.vc.join(t.vc)
	nt.vc.set(nt.ID, 1)
	t.vc.set(t.ID, t.vc.get(t.ID)+1)
	return nt
}

func (r *Run) newThread(name string, f func()) *Thread {
	t := &Thread{ID: len(r.threads), wake: make(chan struct{}, 1), exit: make(chan struct{})}
	t.Name = name
	if name == "" {
		t.Name = fmt.Sprintf("g%d", t.ID)
		if r.record {
			t.Name += ":" + caller(4)
		}
	}
	t.pend = "start"
	r.threads = append(r.threads, t)
	go func() {
		defer close(t.exit)
		<-t.wake
		if r.dead {
			return
		}
		ok := false
		defer func() {
			if ok || r.dead {
				return
			}
			if p := recover(); p != nil {
				r.Fail("panic", fmt.Sprintf("thread %s: panic: %v", t.Name, p), string(debug.Stack()))
				return
			}
			if t.state != tDone && !r.ended {
				// runtime.Goexit called by the code under test
				r.finish(t)
			}
		}()
		f()
		ok = true
		r.finish(t)
	}()
	return t
}

// finish ends a thread.
func (r *Run) finish(t *Thread) {
	t.state = tDone
	Event("exit", nil, true)
	if t.ID == 0 {
		r.end()
		return
	}
	n := r.pick(t)
	if n == nil {
		r.end()
		return
	}
	r.cur = n
	n.wake <- struct{}{}
}

// Fail records a violation and ends the execution.
func (r *Run) Fail(kind, msg, stack string) {
	if r.viol == nil && !r.dead {
		if r.record && stack != "" {
			msg += "\n" + trimStack(stack)
		}
		r.viol = &Violation{Kind: kind, Msg: msg}
	}
	r.end()
}

// Fail reports a violated property from harness code and ends the execution.
func Fail(kind, format string, args ...any) {
	msg := fmt.Sprintf(format, args...)
	if R == nil {
		panic(SeqViolation{kind, msg})
	}
	if R.dead {
		runtime.Goexit()
	}
	R.Fail(kind, msg, "")
	runtime.Goexit()
}

// SeqViolation is what Fail panics with outside of a scheduled execution.
type SeqViolation struct{ Kind, Msg string }

// Inconclusive ends the execution without a verdict.
func Inconclusive(msg string) {
	R.inconcl = msg
	R.end()
	runtime.Goexit()
}

func (r *Run) deadlock() {
	if r.viol == nil {
		r.viol = &Violation{Kind: "deadlock", Msg: "no thread can continue:" + r.describe()}
	}
}

// Progress counts scheduling steps (and enumerated cases) of the process.
var Progress atomic.Int64

// describe lists the threads that have not ended.
func (r *Run) describe() string {
	var b strings.Builder
	for _, t := range r.threads {
		if t.state == tDone {
			continue
		}
		name := ""
		if t.pobj != nil {
			name = t.pobj.Name
		}
		fmt.Fprintf(&b, "\n  %s in %s %s %s", t.Name, t.pend, name, t.loc)
	}
	return b.String()
}

// PoolFIFO makes pools of the rest of the execution hand out the object that
// was returned first instead of the one returned last.
func PoolFIFO(on bool) { R.poolFIFO = on }

// IsPoolFIFO tells about PoolFIFO.
func IsPoolFIFO() bool { return R.poolFIFO }

// Blocked describes the threads that are blocked right now except the caller.
func Blocked() []string {
	var out []string
	for _, t := range R.threads {
		if t.state != tDone && t != R.cur {
			out = append(out, t.Name+" in "+t.pend)
		}
	}
	return out
}

// Park blocks the thread until Unpark (used by channels and conditions).
func (t *Thread) park() {
	t.state = tParked
	R.switchFrom(t)
}

func (t *Thread) unpark(h uint64) {
	t.state = tReady
	t.hash = mix(t.hash, h)
	t.guard = nil
}

// ParkCur parks the running thread (for shims).
func ParkCur(op string, o *Obj) {
	t := R.cur
	t.pend = op
	t.pobj = o
	t.park()
}

// Unpark makes a parked thread runnable; h is the hash of the waking event.
func Unpark(t *Thread, h uint64) { t.unpark(h) }

// JoinVC makes t happen-after the current thread.
func JoinVC(t *Thread) { t.vc.join(R.cur.vc) }

// Quiesce blocks until no other thread can run (timers due within the
// automatic horizon fire first).
func Quiesce() {
	r := R
	if r.dead {
		runtime.Goexit()
	}
	t := r.cur
	t.pend = "quiesce"
	t.pobj = nil
	if r.record {
		t.loc = caller(2)
	}
	t.state = tQuiesce
	t.quFires = 0
	t.quLimit = r.now + autoHorizon
	r.switchFrom(t)
	t.hash = mix(t.hash, r.sum)
	Event("quiesce", nil, true)
	for _, o := range r.threads {
		t.vc.join(o.vc)
	}
	t.vc.set(t.ID, t.vc.get(t.ID)+1)
}

// Choose asks the explorer for an environment answer in [0,n).
func Choose(n int) int {
	r := R
	if n <= 1 {
		return 0
	}
	if r.dead {
		runtime.Goexit()
	}
	c := r.decide(n, mix(r.sum, mix(r.cur.hash, 5)), 'c', false)
	if c < 0 {
		r.end()
		runtime.Goexit()
	}
	t := r.cur
	t.hash = mix(t.hash, uint64(c)+1000)
	r.sum += mix(t.hash, 13)
	if r.record {
		r.trace = append(r.trace, Step{t.Name, fmt.Sprintf("choose %d/%d", c, n), "", caller(2)})
	}
	return c
}

// Log appends to the global history as an ordered event.
func Log(eff func()) {
	if R == nil {
		eff()
		return
	}
	Op("log", &R.hist, nil, eff)
}

// Outcome records an outcome string of this execution (for statistics).
func Outcome(s string) {
	if R != nil && !R.dead {
		R.Out = append(R.Out, s)
	}
}

// ThreadName returns the name of the running thread.
func ThreadName() string {
	if R == nil {
		return "seq"
	}
	return R.cur.Name
}

// ThreadID identifies the running thread.
func ThreadID() int {
	if R == nil {
		return 0
	}
	return R.cur.ID
}

// NumThreads is the number of threads created so far.
func NumThreads() int { return len(R.threads) }

// Recording tells whether the execution records a trace (replay mode).
func Recording() bool { return R != nil && R.record }

// callers caches the locations of racy accesses by the innermost return
// addresses.
var callers = map[[6]uintptr]string{}

// framePCs collects the innermost return addresses.
//
//go:noescape
func framePCs(pcs *[6]uintptr)

//go:noinline
func fastCaller(skip int) string {
	var k [6]uintptr
	framePCs(&k)
	l, ok := callers[k]
	if !ok {
		l = caller(skip + 1)
		if len(callers) < 1<<16 {
			callers[k] = l
		}
	}
	return l
}

func caller(skip int) string {
	pcs := make([]uintptr, 12)
	n := runtime.Callers(skip, pcs)
	fr := runtime.CallersFrames(pcs[:n])
	for {
		f, more := fr.Next()
		if !strings.Contains(f.Function, "verif/vsched") {
			fn := f.Function
			if i := strings.LastIndex(fn, "/"); i >= 0 {
				fn = fn[i+1:]
			}
			file := f.File
			if i := strings.LastIndex(file, "/"); i >= 0 {
				file = file[i+1:]
			}
			return fmt.Sprintf("%s (%s:%d)", fn, file, f.Line)
		}
		if !more {
			return ""
		}
	}
}

func trimStack(s string) string {
	lines := strings.Split(s, "\n")
	var out []string
	for i := 0; i+1 < len(lines); i++ {
		l := lines[i]
		if strings.HasPrefix(l, "\t") || strings.Contains(l, "verif/vsched") ||
			strings.Contains(l, "runtime") || strings.HasPrefix(l, "goroutine") {
			continue
		}
		if strings.HasPrefix(l, "panic(") {
			continue
		}
		out = append(out, "    "+l)
		if len(out) > 14 {
			break
		}
	}
	return strings.Join(out, "\n")
}

const autoHorizon = int64(5e9)

// Dead tells whether the execution is being torn down.
func (r *Run) Dead() bool { return r.dead }

// Parked tells whether the thread waits for a partner.
func (t *Thread) Parked() bool { return t.state == tParked }
