package vsched

import (
	"fmt"
	"runtime"
	"unsafe"
)

// cell is the race detector's shadow of one memory location.
type cell struct {
	wt   int
	wc   uint32
	wloc string
	r    VC
	rloc []string
	o    Obj
}

// RaceEnabled makes accesses checked.
func access(p unsafe.Pointer, write bool) {
	r := R
	if r == nil || !r.raceOn || r.dead || p == nil {
		return
	}
	c := r.shadow[p]
	if c == nil {
		c = &cell{wt: -1}
		r.shadow[p] = c
	}
	if r.racy != nil && r.racy[raceCaller()] {
		// a location known to be accessed without ordering: explore the order
		op := "load"
		if write {
			op = "store"
		}
		c.o.touch(r)
		c.o.Name = "memory"
		Point(op, &c.o, nil)
		Event(op, &c.o, write)
		Acq(&c.o)
		if write {
			defer Rel(&c.o)
		} else {
			defer RelR(&c.o)
		}
	}
	t := r.cur
	if c.wt >= 0 && c.wt != t.ID && t.vc.get(c.wt) < c.wc {
		r.race(write, true, c.wt, c.wloc)
	}
	loc := ""
	if r.record {
		loc = raceCaller()
	}
	if write {
		for i, k := range c.r {
			if i != t.ID && k > t.vc.get(i) {
				l := ""
				if i < len(c.rloc) {
					l = c.rloc[i]
				}
				r.race(true, false, i, l)
			}
		}
		c.wt = t.ID
		c.wc = t.vc.get(t.ID)
		c.wloc = loc
		c.r = c.r[:0]
		c.rloc = c.rloc[:0]
		return
	}
	c.r.set(t.ID, t.vc.get(t.ID))
	if r.record {
		for len(c.rloc) <= t.ID {
			c.rloc = append(c.rloc, "")
		}
		c.rloc[t.ID] = loc
	}
}

func (r *Run) race(w, pw bool, other int, oloc string) {
	kind := func(b bool) string {
		if b {
			return "write"
		}
		return "read"
	}
	msg := fmt.Sprintf("data race: %s by %s at %s, unordered with %s by %s at %s",
		kind(w), r.cur.Name, raceCaller(), kind(pw), r.threads[other].Name, oloc)
	if !r.raceFail {
		if !r.raceSeen {
			r.raceSeen = true
			r.racePair = [2]string{raceCaller(), oloc}
		}
		return
	}
	r.Fail("race", msg, "")
	runtime.Goexit()
}

func raceCaller() string { return fastCaller(4) }

// Rd reports a read of *p.
func Rd[T any](p *T) *T {
	if R != nil {
		access(unsafe.Pointer(p), false)
	}
	return p
}

// Wr reports a write of *p.
func Wr[T any](p *T) *T {
	if R != nil {
		access(unsafe.Pointer(p), true)
	}
	return p
}

func mapPtr[M ~map[K]V, K comparable, V any](m M) unsafe.Pointer {
	return *(*unsafe.Pointer)(unsafe.Pointer(&m))
}

// MapR reports a read of the map.
func MapR[M ~map[K]V, K comparable, V any](m M) M {
	if R != nil {
		access(mapPtr(m), false)
	}
	return m
}

// MapW reports a modification of the map.
func MapW[M ~map[K]V, K comparable, V any](m M) M {
	if R != nil {
		access(mapPtr(m), true)
	}
	return m
}

// RdS reports a read of the elements of a slice (the first and the last one).
func RdS[S ~[]E, E any](s S) S {
	if n := len(s); R != nil && n > 0 {
		access(unsafe.Pointer(&s[0]), false)
		if n > 1 {
			access(unsafe.Pointer(&s[n-1]), false)
		}
	}
	return s
}

// WrS reports a write of the elements of a slice (the first and the last one).
func WrS[S ~[]E, E any](s S) S {
	if n := len(s); R != nil && n > 0 {
		access(unsafe.Pointer(&s[0]), true)
		if n > 1 {
			access(unsafe.Pointer(&s[n-1]), true)
		}
	}
	return s
}

// Copy copies reporting the accesses.
func Copy[D ~[]E, S ~[]E, E any](dst D, src S) int {
	if n := min(len(dst), len(src)); R != nil && n > 0 {
		access(unsafe.Pointer(&src[0]), false)
		access(unsafe.Pointer(&src[n-1]), false)
		access(unsafe.Pointer(&dst[0]), true)
		access(unsafe.Pointer(&dst[n-1]), true)
	}
	return copy(dst, src)
}

// CopyString copies a string reporting the accesses.
func CopyString[D ~[]byte, S ~string](dst D, src S) int {
	if n := min(len(dst), len(src)); R != nil && n > 0 {
		access(unsafe.Pointer(&dst[0]), true)
		access(unsafe.Pointer(&dst[n-1]), true)
	}
	return copy(dst, src)
}
