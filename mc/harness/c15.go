package harness

import (
	"fmt"
	"sort"
	"strings"

	wwr "github.com/qbeon/webwire-go"

	"verif/vsched"
)

// sworld is a server with three connections for concurrent session operations.
type sworld struct {
	srv   wwr.Server
	t     *tracker
	sm    *store
	p     map[string]*Peer
	c     map[string]wwr.Connection
	keys  map[string]bool // every key that ever existed
	nreq  map[string]int
	sent  map[string][]int // restore and close requests per client
	hung  map[string]bool
	names []string

	nsetup    map[string]int // requests sent before the interesting part
	isRestore map[string]bool
}

func newWorld(max int, names ...string) *sworld {
	w := &sworld{t: newTracker(), sm: newStore(), p: map[string]*Peer{}, c: map[string]wwr.Connection{},
		keys: map[string]bool{}, nreq: map[string]int{}, sent: map[string][]int{}, hung: map[string]bool{}, names: names,
		nsetup: map[string]int{}, isRestore: map[string]bool{}}
	w.sm.history = w.t.h
	o := w.sm.options()
	o.MaxSessionConnections = uint(max)
	var n *Net
	w.srv, n = server(w.t.impl, o)
	for _, x := range names {
		if w.t.conns[x] == nil {
			w.t.conns[x] = &slot{}
		}
		w.p[x] = n.Connect(x, connOpts(x, 1))
		w.c[x] = w.t.conns[x].get()
	}
	vsched.Quiesce()
	return w
}

func (w *sworld) put(keys ...string) {
	for _, k := range keys {
		w.sm.put(k)
		w.keys[k] = true
	}
}

// restore sends a restore request.
func (w *sworld) restore(x, key string) int {
	w.nreq[x]++
	id := w.nreq[x]
	w.sent[x] = append(w.sent[x], id)
	w.isRestore[fmt.Sprint(x, id)] = true
	w.p[x].Send(encNameless(tRestoreSession, reqID(id), key))
	return id
}

func (w *sworld) reqClose(x string) int {
	w.nreq[x]++
	id := w.nreq[x]
	w.sent[x] = append(w.sent[x], id)
	w.p[x].Send(encNameless(tCloseSession, reqID(id), ""))
	return id
}

// setup restores a session and requires success.
func (w *sworld) setup(x, key string) {
	id := w.restore(x, key)
	vsched.Quiesce()
	if r := w.answer(x, id); r != "ok" {
		fail("restoring %s on %s was answered with %s", key, x, r)
	}
	w.nsetup[x] = len(w.sent[x])
}

// answer tells how a request was answered.
func (w *sworld) answer(x string, id int) string {
	r := repliesTo(w.p[x].Got(), reqID(id))
	if len(r) > 1 {
		fail("request %d of %s got %d replies: %s", id, x, len(r), show(r))
	}
	if len(r) == 0 {
		return "none"
	}
	switch r[0].typ {
	case tReplyUtf8, tReplyBin:
		return "ok"
	case tReplyMaxConns:
		return "maxconns"
	case tReplyNotFound:
		return "notfound"
	}
	return r[0].String()
}

// consistent checks, at quiescence, that the registry and the connections
// agree and the hooks were called properly.
func (w *sworld) consistent(max int) {
	want := map[string][]string{}
	for _, x := range w.names {
		c := w.c[x]
		k := c.SessionKey()
		if c.HasSession() != (k != "") || (c.Session() != nil) != (k != "") {
			fail("connection %s: HasSession %v, SessionKey %q", x, c.HasSession(), k)
		}
		if !c.IsActive() && k != "" {
			fail("the closed connection %s still has session %s", x, k)
		}
		if k != "" {
			want[k] = append(want[k], x)
			w.keys[k] = true
		}
		for _, id := range w.sent[x] {
			if a := w.answer(x, id); a == "none" && c.IsActive() {
				fail("request %d of %s was not answered", id, x)
			}
		}
	}
	if n := w.srv.ActiveSessionsNum(); n != len(want) {
		fail("%d active sessions, but the connections' sessions are %v", n, want)
	}
	var keys []string
	for k := range w.keys {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for i := 1; i <= w.sm.nextKey; i++ {
		keys = append(keys, fmt.Sprintf("S%d", i))
	}
	for _, k := range keys {
		var got []string
		for _, c := range w.srv.SessionConnections(k) {
			for _, x := range w.names {
				if w.c[x] == c {
					got = append(got, x)
				}
			}
		}
		sort.Strings(got)
		if strings.Join(got, ",") != strings.Join(want[k], ",") {
			fail("session %s is registered for %v, but it is the session of %v", k, got, want[k])
		}
		num := len(want[k])
		if num == 0 {
			num = -1
		}
		if n := w.srv.SessionConnectionsNum(k); n != num {
			fail("session %s has %d connections according to SessionConnectionsNum, want %d", k, n, num)
		}
		if max > 0 && len(got) > max {
			fail("session %s has %d connections, more than the limit %d", k, len(got), max)
		}
		closed := w.t.h.count("closed:" + k)
		if closed > 1 {
			fail("session %s was destroyed %d times: %s", k, closed, w.t.h)
		}
		if closed > 0 {
			if len(want[k]) > 0 {
				fail("session %s was destroyed, but is still in use by %v: %s", k, want[k], w.t.h)
			}
			if strings.HasPrefix(k, "S") {
				if d := w.t.h.index("created:" + k); d < 0 || d > w.t.h.index("closed:"+k) {
					fail("session %s was destroyed before its creation hook had finished: %s", k, w.t.h)
				}
			}
			if w.sm.recs[k] != nil {
				fail("the destroyed session %s is still stored", k)
			}
		}
		outcome("%s:%d:%v", k, closed, want[k])
	}
}

func init() {
	disturb := func(w *sworld, d int) []*task {
		switch d {
		case 1:
			return []*task{spawn("hangup", func() { w.p["a"].Hangup() })}
		case 2:
			return []*task{spawn("close", func() { w.c["a"].Close() })}
		case 3:
			return []*task{spawn("closesession", func() { w.c["a"].CloseSession() })}
		case 4:
			return []*task{spawn("srvclose", func() { w.srv.CloseSession("K") })}
		}
		return nil
	}
	monitor := func(w *sworld, max int) *task {
		return spawn("monitor", func() {
			for i := 0; i < 2; i++ {
				if n := w.srv.SessionConnectionsNum("K"); n > max {
					fail("session K has %d connections, more than the limit %d", n, max)
				}
				if n := len(w.srv.SessionConnections("K")); n > max {
					fail("session K lists %d connections, more than the limit %d", n, max)
				}
			}
		})
	}
	body := func(nmon int) func() {
		return func() {
			max := 1 + vsched.Choose(2)
			d := vsched.Choose(5)
			prev := vsched.Choose(2) == 1 // whether b and c have a session already
			// with a disturbance a uses the session already
			w := newWorld(max, "a", "b", "c")
			w.put("K", "P", "Q")
			ids := map[string]int{}
			if d > 0 {
				w.setup("a", "K")
			}
			if prev {
				w.setup("b", "P")
				w.setup("c", "Q")
			}
			var ts []*task
			if nmon > 0 {
				ts = append(ts, monitor(w, max))
			}
			for _, x := range w.names {
				x := x
				if d == 0 || x != "a" {
					ids[x] = w.restore(x, "K")
				}
			}
			ts = append(ts, disturb(w, d)...)
			allJoined(ts...)
			vsched.Quiesce()
			ok := 0
			for _, x := range w.names {
				if ids[x] == 0 {
					continue
				}
				r := w.answer(x, ids[x])
				key := w.c[x].SessionKey()
				old := map[string]string{"a": "", "b": "P", "c": "Q"}[x]
				if !prev {
					old = ""
				}
				switch r {
				case "ok":
					ok++
					if key != "K" && d != 4 {
						fail("%s restored K but has session %q", x, key)
					}
				case "maxconns":
					if key != old {
						fail("a refused restore changed the session of %s from %q to %q", x, old, key)
					}
				case "notfound":
					if d < 3 {
						fail("restoring K on %s was answered with not found", x)
					}
					if key != old {
						fail("a failed restore changed the session of %s from %q to %q", x, old, key)
					}
				default:
					fail("restoring K on %s was answered with %s", x, r)
				}
			}
			if d == 0 && ok != max {
				fail("%d of 3 restores succeeded with limit %d", ok, max)
			}
			if d == 1 || d == 2 {
				// a kept the session at least until the disturbance began
				if ok < max-1 || ok > max {
					fail("%d of 2 restores succeeded with limit %d next to a leaving connection", ok, max)
				}
			}
			w.consistent(max)
			// places that are free can be used
			if w.sm.recs["K"] == nil {
				return
			}
			for _, x := range w.names {
				if !w.c[x].IsActive() || w.c[x].SessionKey() == "K" {
					continue
				}
				free := max - len(w.srv.SessionConnections("K"))
				id := w.restore(x, "K")
				vsched.Quiesce()
				r := w.answer(x, id)
				if free > 0 && r != "ok" || free <= 0 && r != "maxconns" {
					fail("restoring K on %s with %d free places was answered with %s", x, free, r)
				}
			}
			w.consistent(max)
			// and are freed by closing a connection
			for _, x := range w.names {
				if w.c[x].SessionKey() == "K" {
					w.p[x].Hangup()
					vsched.Quiesce()
				}
			}
			for _, x := range w.names {
				if w.c[x].IsActive() {
					id := w.restore(x, "K")
					vsched.Quiesce()
					if r := w.answer(x, id); r != "ok" {
						fail("restoring the unused session K on %s was answered with %s", x, r)
					}
					break
				}
			}
			w.consistent(max)
		}
	}
	add(&Scenario{Prop: "C15", Name: "restores", Bounds: [2]int{1, 2}, Weight: 2,
		Doc:  "two or three concurrent restores of a session next to a leaving connection (hangup, close, session closed by connection or key), limits 1 and 2, with and without previous sessions; then free places are used and freed again",
		Body: body(0)})
	add(&Scenario{Prop: "C15", Name: "monitored", Bounds: [2]int{1, 2}, Weight: 2,
		Doc:  "the same with a thread that watches the number of connections",
		Body: body(1)})
	add(&Scenario{Prop: "C15", Name: "creations", Bounds: [2]int{1, 2}, Weight: 2, Race: true,
		Doc: "a creation concurrent with a restore, a creation or a closure on the same connection and restores of the new session on others, limit 1",
		Body: func() {
			w := newWorld(1, "a", "b", "c")
			w.put("K")
			ts := []*task{spawn("create", func() { w.c["a"].CreateSession(nil) })}
			switch vsched.Choose(4) {
			case 0:
				w.restore("a", "K")
			case 1:
				ts = append(ts, spawn("create2", func() { w.c["a"].CreateSession(nil) }))
			case 2:
				w.reqClose("a")
			case 3:
				w.restore("b", "S1")
			}
			w.restore("c", "S1")
			w.restore("c", "K")
			allJoined(ts...)
			vsched.Quiesce()
			w.consistent(1)
		}})
	add(&Scenario{Prop: "C15", Name: "slowlookup", Bounds: [2]int{1, 2}, Weight: 2,
		Doc: "restores of different sessions on connections that already have one, all at the limit, in both directions",
		Body: func() {
			max := 1
			w := newWorld(max, "a", "b", "c")
			w.put("K", "L")
			w.setup("a", "K")
			w.setup("b", "L")
			ia := w.restore("a", "L")
			ib := w.restore("b", "K")
			ic := w.restore("c", "K")
			vsched.Quiesce()
			ra, rb, rc := w.answer("a", ia), w.answer("b", ib), w.answer("c", ic)
			check := func(x, r, old, nw string) {
				k := w.c[x].SessionKey()
				if r == "ok" && k != nw || r == "maxconns" && k != old || r != "ok" && r != "maxconns" {
					fail("restoring %s on %s (session %q) was answered with %s, its session is %q", nw, x, old, r, k)
				}
			}
			check("a", ra, "K", "L")
			check("b", rb, "L", "K")
			check("c", rc, "", "K")
			w.consistent(max)
		}})
}
