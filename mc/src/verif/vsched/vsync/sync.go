// Package vsync replaces sync under the scheduler.
package vsync

import "verif/vsched"

// Locker is sync.Locker.
type Locker interface {
	Lock()
	Unlock()
}

// Mutex is sync.Mutex.
type Mutex struct {
	o      vsched.Obj
	locked bool
}

// Ready implements vsched.Guard.
func (m *Mutex) Ready(*vsched.Thread) bool { return m.o.Fresh() || !m.locked }

func (m *Mutex) fresh() {
	if m.o.Fresh() {
		m.locked = false
	}
}

// Lock locks.
func (m *Mutex) Lock() {
	if vsched.R == nil {
		if m.locked {
			panic("vsched: deadlock: mutex locked twice by a sequential caller")
		}
		m.locked = true
		return
	}
	vsched.Point("lock", &m.o, m)
	vsched.Event("lock", &m.o, true)
	m.locked = true
	vsched.Acq(&m.o)
}

// TryLock tries to lock.
func (m *Mutex) TryLock() bool {
	if vsched.R == nil {
		ok := !m.locked
		m.locked = true
		return ok
	}
	vsched.Point("trylock", &m.o, nil)
	m.fresh()
	vsched.Event("trylock", &m.o, true)
	if m.locked {
		return false
	}
	m.locked = true
	vsched.Acq(&m.o)
	return true
}

// Unlock unlocks.
func (m *Mutex) Unlock() {
	if vsched.R == nil {
		if !m.locked {
			panic("sync: unlock of unlocked mutex")
		}
		m.locked = false
		return
	}
	if vsched.R.Dead() {
		return
	}
	vsched.Point("unlock", &m.o, nil)
	m.fresh()
	vsched.Event("unlock", &m.o, true)
	if !m.locked {
		panic("sync: unlock of unlocked mutex")
	}
	m.locked = false
	vsched.Rel(&m.o)
}

// RWMutex is sync.RWMutex.
type RWMutex struct {
	o       vsched.Obj
	writer  bool
	readers int
	waiting int // writers that arrived while readers were in
}

type rGuard struct{ m *RWMutex }

// Ready implements vsched.Guard.
func (g rGuard) Ready(*vsched.Thread) bool {
	return g.m.o.Fresh() || (!g.m.writer && g.m.waiting == 0)
}

type wGuard struct{ m *RWMutex }

// Ready implements vsched.Guard.
func (g wGuard) Ready(*vsched.Thread) bool {
	return g.m.o.Fresh() || (!g.m.writer && g.m.readers == 0)
}

type wArrive struct{ m *RWMutex }

// Ready implements vsched.Guard.
func (g wArrive) Ready(*vsched.Thread) bool { return g.m.o.Fresh() || !g.m.writer }

func (m *RWMutex) fresh() {
	if m.o.Fresh() {
		m.writer, m.readers, m.waiting = false, 0, 0
	}
}

// RLock locks for reading.
func (m *RWMutex) RLock() {
	if vsched.R == nil {
		if m.writer {
			panic("vsched: deadlock: RLock under Lock by a sequential caller")
		}
		m.readers++
		return
	}
	vsched.Point("rlock", &m.o, rGuard{m})
	m.fresh()
	vsched.Event("rlock", &m.o, false)
	m.readers++
	vsched.Acq(&m.o)
}

// TryRLock tries to lock for reading.
func (m *RWMutex) TryRLock() bool {
	if vsched.R == nil {
		if m.writer {
			return false
		}
		m.readers++
		return true
	}
	vsched.Point("tryrlock", &m.o, nil)
	m.fresh()
	vsched.Event("tryrlock", &m.o, true)
	if m.writer || m.waiting > 0 {
		return false
	}
	m.readers++
	vsched.Acq(&m.o)
	return true
}

// RUnlock unlocks a reader.
func (m *RWMutex) RUnlock() {
	if vsched.R == nil {
		if m.readers == 0 {
			panic("sync: RUnlock of unlocked RWMutex")
		}
		m.readers--
		return
	}
	if vsched.R.Dead() {
		return
	}
	vsched.Point("runlock", &m.o, nil)
	m.fresh()
	vsched.Event("runlock", &m.o, false)
	if m.readers == 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	m.readers--
	vsched.RelR(&m.o)
}

// Lock locks for writing.
func (m *RWMutex) Lock() {
	if vsched.R == nil {
		if m.writer || m.readers > 0 {
			panic("vsched: deadlock: Lock by a sequential caller")
		}
		m.writer = true
		return
	}
	vsched.Point("wlock", &m.o, wArrive{m})
	m.fresh()
	vsched.Event("wlock", &m.o, true)
	if m.readers > 0 {
		m.waiting++
		vsched.Point("wlock-wait", &m.o, wGuard{m})
		vsched.Event("wlock-wait", &m.o, true)
		m.waiting--
	}
	m.writer = true
	vsched.Acq(&m.o)
	vsched.AcqR(&m.o)
}

// TryLock tries to lock for writing.
func (m *RWMutex) TryLock() bool {
	if vsched.R == nil {
		if m.writer || m.readers > 0 {
			return false
		}
		m.writer = true
		return true
	}
	vsched.Point("trywlock", &m.o, nil)
	m.fresh()
	vsched.Event("trywlock", &m.o, true)
	if m.writer || m.readers > 0 {
		return false
	}
	m.writer = true
	vsched.Acq(&m.o)
	vsched.AcqR(&m.o)
	return true
}

// Unlock unlocks a writer.
func (m *RWMutex) Unlock() {
	if vsched.R == nil {
		if !m.writer {
			panic("sync: Unlock of unlocked RWMutex")
		}
		m.writer = false
		return
	}
	if vsched.R.Dead() {
		return
	}
	vsched.Point("wunlock", &m.o, nil)
	m.fresh()
	vsched.Event("wunlock", &m.o, true)
	if !m.writer {
		panic("sync: Unlock of unlocked RWMutex")
	}
	m.writer = false
	vsched.Rel(&m.o)
}

// RLocker returns a Locker for reading.
func (m *RWMutex) RLocker() Locker { return rlocker{m} }

type rlocker struct{ m *RWMutex }

func (r rlocker) Lock()   { r.m.RLock() }
func (r rlocker) Unlock() { r.m.RUnlock() }

// WaitGroup is sync.WaitGroup.
type WaitGroup struct {
	o vsched.Obj
	n int
}

// Ready implements vsched.Guard.
func (w *WaitGroup) Ready(*vsched.Thread) bool { return w.o.Fresh() || w.n == 0 }

// Add adds.
func (w *WaitGroup) Add(d int) {
	if vsched.R == nil {
		w.n += d
		return
	}
	if vsched.R.Dead() {
		return
	}
	vsched.Point("wg.add", &w.o, nil)
	if w.o.Fresh() {
		w.n = 0
	}
	vsched.Event("wg.add", &w.o, true)
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	vsched.Rel(&w.o)
}

// Done is Add(-1).
func (w *WaitGroup) Done() { w.Add(-1) }

// Wait waits.
func (w *WaitGroup) Wait() {
	if vsched.R == nil {
		if w.n != 0 {
			panic("vsched: deadlock: WaitGroup.Wait by a sequential caller")
		}
		return
	}
	vsched.Point("wg.wait", &w.o, w)
	vsched.Event("wg.wait", &w.o, true)
	vsched.Acq(&w.o)
}

// Go runs f in a goroutine.
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	vsched.Go(func() {
		defer w.Done()
		f()
	})
}

// Once is sync.Once.
type Once struct {
	m    Mutex
	done bool
}

// Do runs f once.
func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

// OnceFunc is sync.OnceFunc.
func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

// OnceValue is sync.OnceValue.
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

// OnceValues is sync.OnceValues.
func OnceValues[A, B any](f func() (A, B)) func() (A, B) {
	var o Once
	var a A
	var b B
	return func() (A, B) { o.Do(func() { a, b = f() }); return a, b }
}

// Cond is sync.Cond.
type Cond struct {
	L  Locker
	o  vsched.Obj
	ws []*vsched.Thread
}

// NewCond makes a Cond.
func NewCond(l Locker) *Cond { return &Cond{L: l} }

// Wait waits for Signal or Broadcast.
func (c *Cond) Wait() {
	if vsched.R == nil {
		panic("vsched: deadlock: Cond.Wait by a sequential caller")
	}
	t := vsched.Point("cond.wait", &c.o, nil)
	vsched.Event("cond.wait", &c.o, true)
	c.ws = append(c.ws, t)
	// enqueued before unlocking, so that no wake-up is lost
	c.L.Unlock()
	woken := true
	for _, w := range c.ws {
		if w == t {
			woken = false
		}
	}
	if !woken {
		vsched.ParkCur("cond.wait (parked)", &c.o)
	}
	vsched.Acq(&c.o)
	c.L.Lock()
}

// Signal wakes one waiter.
func (c *Cond) Signal() { c.wake(1) }

// Broadcast wakes all waiters.
func (c *Cond) Broadcast() { c.wake(1 << 30) }

func (c *Cond) wake(n int) {
	if vsched.R == nil || vsched.R.Dead() {
		return
	}
	vsched.Point("cond.wake", &c.o, nil)
	h := vsched.Event("cond.wake", &c.o, true)
	vsched.Rel(&c.o)
	for n > 0 && len(c.ws) > 0 {
		t := c.ws[0]
		c.ws = append([]*vsched.Thread{}, c.ws[1:]...)
		if t.Parked() {
			vsched.Unpark(t, h)
		}
		n--
	}
}

// Pool is sync.Pool; it always reuses an object: the one returned last, or
// the one returned first after vsched.PoolFIFO.
type Pool struct {
	o     vsched.Obj
	New   func() any
	items []any
}

func (p *Pool) fresh() {
	if p.o.Fresh() {
		p.items = nil
	}
}

// Get takes an object.
func (p *Pool) Get() any {
	if vsched.R == nil {
		if n := len(p.items); n > 0 {
			x := p.items[n-1]
			p.items = p.items[:n-1]
			return x
		}
		if p.New != nil {
			return p.New()
		}
		return nil
	}
	vsched.Point("pool.get", &p.o, nil)
	p.fresh()
	vsched.Event("pool.get", &p.o, true)
	if n := len(p.items); n > 0 {
		i := n - 1
		if vsched.IsPoolFIFO() {
			i = 0
		}
		x := p.items[i]
		p.items = append(append([]any{}, p.items[:i]...), p.items[i+1:]...)
		vsched.Acq(&p.o)
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

// Put returns an object.
func (p *Pool) Put(x any) {
	if x == nil {
		return
	}
	if vsched.R == nil {
		p.items = append(p.items, x)
		return
	}
	if vsched.R.Dead() {
		return
	}
	vsched.Point("pool.put", &p.o, nil)
	p.fresh()
	vsched.Event("pool.put", &p.o, true)
	p.items = append(p.items, x)
	vsched.Rel(&p.o)
}

// Map is sync.Map.
type Map struct {
	o vsched.Obj
	m map[any]any
}

func (m *Map) op(name string, f func()) {
	vsched.AtomicOp(name, &m.o, true, func() {
		if m.m == nil {
			m.m = map[any]any{}
		}
		f()
	})
}

// Load loads.
func (m *Map) Load(k any) (v any, ok bool) {
	m.op("map.load", func() { v, ok = m.m[k] })
	return
}

// Store stores.
func (m *Map) Store(k, v any) { m.op("map.store", func() { m.m[vsched.K(k)] = v }) }

// Clear clears.
func (m *Map) Clear() { m.op("map.clear", func() { m.m = map[any]any{} }) }

// LoadOrStore loads or stores.
func (m *Map) LoadOrStore(k, v any) (act any, loaded bool) {
	m.op("map.loadorstore", func() {
		if act, loaded = m.m[k]; !loaded {
			m.m[vsched.K(k)] = v
			act = v
		}
	})
	return
}

// LoadAndDelete loads and deletes.
func (m *Map) LoadAndDelete(k any) (v any, ok bool) {
	m.op("map.loadanddelete", func() { v, ok = m.m[k]; delete(m.m, k) })
	return
}

// Delete deletes.
func (m *Map) Delete(k any) { m.op("map.delete", func() { delete(m.m, k) }) }

// Swap swaps.
func (m *Map) Swap(k, v any) (prev any, loaded bool) {
	m.op("map.swap", func() { prev, loaded = m.m[k]; m.m[vsched.K(k)] = v })
	return
}

// CompareAndSwap compares and swaps.
func (m *Map) CompareAndSwap(k, o, n any) (ok bool) {
	m.op("map.cas", func() {
		if v, have := m.m[k]; have && v == o {
			m.m[k] = n
			ok = true
		}
	})
	return
}

// CompareAndDelete compares and deletes.
func (m *Map) CompareAndDelete(k, o any) (ok bool) {
	m.op("map.cad", func() {
		if v, have := m.m[k]; have && v == o {
			delete(m.m, k)
			ok = true
		}
	})
	return
}

// Range iterates.
func (m *Map) Range(f func(k, v any) bool) {
	type kv struct{ k, v any }
	var all []kv
	m.op("map.range", func() {
		for k, v := range vsched.RangeMap(m.m) {
			all = append(all, kv{k, v})
		}
	})
	for _, e := range all {
		if !f(e.k, e.v) {
			return
		}
	}
}
