package harness

import (
	"verif/vsched"
)

// sessActs are the session operations that race with each other.
var sessActs = []struct {
	name string
	f    func(w *sworld)
}{
	{"a.CloseSession", func(w *sworld) { w.c["a"].CloseSession() }},
	{"a.reqclose", func(w *sworld) { w.reqClose("a") }},
	{"a.hangup", func(w *sworld) { w.p["a"].Hangup() }},
	{"a.Close", func(w *sworld) { w.c["a"].Close() }},
	{"a.Create", func(w *sworld) { w.c["a"].CreateSession(nil) }},
	{"a.restoreL", func(w *sworld) { w.restore("a", "L") }},
	{"a.restoreK", func(w *sworld) { w.restore("a", "K") }},
	{"srv.CloseK", func(w *sworld) { w.srv.CloseSession("K") }},
	{"srv.CloseS1", func(w *sworld) { w.srv.CloseSession("S1") }},
	{"b.CloseSession", func(w *sworld) { w.c["b"].CloseSession() }},
	{"b.reqclose", func(w *sworld) { w.reqClose("b") }},
	{"b.hangup", func(w *sworld) { w.p["b"].Hangup() }},
	{"b.restoreK", func(w *sworld) { w.restore("b", "K") }},
	{"b.restoreS1", func(w *sworld) { w.restore("b", "S1") }},
	{"b.Create", func(w *sworld) { w.c["b"].CreateSession(nil) }},
	{"b.Close", func(w *sworld) { w.c["b"].Close() }},
}

// sessStarts are the initial states.
var sessStarts = []struct {
	name string
	f    func(w *sworld)
}{
	{"a:K b:K", func(w *sworld) { w.setup("a", "K"); w.setup("b", "K") }},
	{"a:K", func(w *sworld) { w.setup("a", "K") }},
	{"a:- b:-", func(w *sworld) {}},
}

func init() {
	run := func(w *sworld, acts ...int) {
		// requests of one client are sent in order by the main thread,
		// everything else has its own thread
		var ts []*task
		for _, a := range acts {
			a := a
			ts = append(ts, spawn(sessActs[a].name, func() { sessActs[a].f(w) }))
		}
		allJoined(ts...)
		vsched.Quiesce()
		w.consistent(0)
		// only sessions that were to be closed may be destroyed
		does := map[string]bool{}
		for _, a := range acts {
			does[sessActs[a].name] = true
		}
		onA := does["a.CloseSession"] || does["a.reqclose"]
		onB := does["b.CloseSession"] || does["b.reqclose"]
		for _, k := range []string{"K", "L", "S1", "S2"} {
			if w.t.h.count("closed:"+k) > 0 && !onA && !(onB && k != "L") && !does["srv.Close"+k] {
				fail("session %s was destroyed, but nobody closed it: %s", k, w.t.h)
			}
		}
		// a destroyed session can't be restored, a stored one can
		probe := ""
		for _, x := range w.names {
			if w.c[x].IsActive() {
				probe = x
			}
		}
		for _, k := range []string{"K", "S1", "S2"} {
			if w.t.h.count("closed:"+k) == 0 && w.sm.recs[k] == nil || probe == "" {
				continue
			}
			id := w.restore(probe, k)
			vsched.Quiesce()
			r := w.answer(probe, id)
			if w.sm.recs[k] != nil && r != "ok" || w.sm.recs[k] == nil && r != "notfound" {
				fail("afterwards restoring session %s (stored: %v) was answered with %s: %s", k, w.sm.recs[k] != nil, r, w.t.h)
			}
		}
		w.consistent(0)
	}
	add(&Scenario{Prop: "C16", Name: "pairs", Bounds: [2]int{1, 2}, Weight: 3, Race: true,
		Doc: "every pair of session operations (closure by connection, client and key, hangup, close, creation, restoration on two connections) from three initial states",
		Body: func() {
			w := newWorld(0, "a", "b", "c")
			w.put("K", "L")
			st := vsched.Choose(len(sessStarts))
			x := vsched.Choose(len(sessActs))
			y := vsched.Choose(len(sessActs))
			if y < x {
				x, y = y, x
				return // covered by the mirrored pair
			}
			sessStarts[st].f(w)
			run(w, x, y)
		}})
	add(&Scenario{Prop: "C16", Name: "lastone", Bounds: [2]int{2, 3}, Weight: 2, Race: true,
		Doc: "the connections of a session are closed or leave at the same time while it is restored elsewhere",
		Body: func() {
			w := newWorld(0, "a", "b", "c")
			w.put("K")
			w.setup("a", "K")
			two := vsched.Choose(2) == 1
			if two {
				w.setup("b", "K")
			}
			// all uses of K by a and b end by closing: it must be destroyed
			// unless c got hold of it
			how := []int{0, 1, 7}
			ts := []*task{}
			ia := how[vsched.Choose(3)]
			ts = append(ts, spawn("a", func() { sessActs[ia].f(w) }))
			if two {
				ib := []int{9, 10}[vsched.Choose(2)]
				ts = append(ts, spawn("b", func() { sessActs[ib].f(w) }))
			}
			id := w.restore("c", "K")
			allJoined(ts...)
			vsched.Quiesce()
			w.consistent(0)
			r := w.answer("c", id)
			n := w.t.h.count("closed:K")
			switch {
			case r == "ok" && w.c["c"].SessionKey() == "K" && n == 0:
			case r == "ok" && w.c["c"].SessionKey() == "" && n == 1 && ia == 7:
			case r == "notfound" && w.c["c"].SessionKey() == "" && n == 1:
			default:
				fail("all connections of K were closed, a concurrent restore was answered with %s, K was destroyed %d times, the restoring connection has session %q: %s",
					r, n, w.c["c"].SessionKey(), w.t.h)
			}
		}})
	add(&Scenario{Prop: "C16", Name: "creation", Bounds: [2]int{2, 3}, Weight: 2, Race: true,
		Doc: "a session is closed by connection, by key or by the client, or its connection ends, while it is being created",
		Body: func() {
			w := newWorld(0, "a", "b")
			res := make([]error, 1)
			ts := []*task{spawn("create", func() { res[0] = w.c["a"].CreateSession(nil) })}
			act := []int{0, 1, 2, 3, 8, 13}[vsched.Choose(6)]
			ts = append(ts, spawn(sessActs[act].name, func() { sessActs[act].f(w) }))
			more := []int{-1, 0, 13}[vsched.Choose(3)]
			if more >= 0 {
				ts = append(ts, spawn(sessActs[more].name+"2", func() { sessActs[more].f(w) }))
			}
			allJoined(ts...)
			vsched.Quiesce()
			w.consistent(0)
			if (act == 2 || act == 3) && more < 0 {
				// the connection ends: the session must stay restorable if it
				// was created
				if res[0] == nil && w.sm.recs["S1"] == nil {
					fail("the created session was not stored because its connection ended: %s", w.t.h)
				}
				if n := w.t.h.count("closed:"); n != 0 {
					fail("a disconnect destroyed the session: %s", w.t.h)
				}
			}
		}})
	add(&Scenario{Prop: "C16", Name: "createclose", Bounds: [2]int{2, 3}, Weight: 1, Race: true,
		Doc: "a session is created and then closed on its connection while it is being restored elsewhere: it is destroyed exactly when nobody is left",
		Body: func() {
			w := newWorld(0, "a", "b")
			restores := 1 + vsched.Choose(2)
			ts := []*task{spawn("createclose", func() {
				if err := w.c["a"].CreateSession(nil); err != nil {
					fail("CreateSession: %v", err)
				}
				if err := w.c["a"].CloseSession(); err != nil {
					fail("CloseSession: %v", err)
				}
			})}
			var ids []int
			for i := 0; i < restores; i++ {
				ids = append(ids, w.restore("b", "S1"))
			}
			allJoined(ts...)
			vsched.Quiesce()
			w.consistent(0)
			ok := false
			for _, id := range ids {
				switch w.answer("b", id) {
				case "ok":
					ok = true
				case "notfound":
				default:
					fail("restoring was answered with %s", w.answer("b", id))
				}
			}
			if has := w.c["b"].SessionKey() == "S1"; has != ok {
				fail("restored: %v, but b has the session: %v: %s", ok, has, w.t.h)
			}
			if n := w.t.h.count("closed:S1"); !ok && n != 1 {
				fail("nobody has the closed session, but it was destroyed %d times: %s", n, w.t.h)
			}
			if ok {
				if err := w.c["b"].CloseSession(); err != nil {
					fail("CloseSession: %v", err)
				}
				if n := w.t.h.count("closed:S1"); n != 1 {
					fail("the last connection closed the session, but it was destroyed %d times: %s", n, w.t.h)
				}
			}
			w.consistent(0)
		}})
	add(&Scenario{Prop: "C16", Name: "notices", Bounds: [2]int{2, 3}, Weight: 2, Race: true,
		Doc: "the server closes a session by key and by connection while the client switches to another one, closes it or creates a new one: the client is told exactly about the closures of its sessions",
		Body: func() {
			w := newWorld(0, "a")
			w.put("K", "L")
			w.setup("a", "K")
			ts := []*task{spawn("srv.CloseSession", func() {
				cs, _, _ := w.srv.CloseSession("K")
				for _, c := range cs {
					if c != w.c["a"] {
						fail("CloseSession affected another connection")
					}
				}
			})}
			switch vsched.Choose(7) {
			case 0:
				ts = append(ts, spawn("CloseSession", func() { w.c["a"].CloseSession() }))
			case 1:
				w.restore("a", "L")
			case 2:
				ts = append(ts, spawn("srv.CloseSession2", func() { w.srv.CloseSession("K") }))
			case 3:
				w.restore("a", "L")
				ts = append(ts, spawn("CloseSession", func() { w.c["a"].CloseSession() }))
			case 4:
				ts = append(ts, spawn("CreateSession", func() {
					w.c["a"].CloseSession()
					w.c["a"].CreateSession(nil)
				}))
			case 5:
				w.reqClose("a")
				vsched.Quiesce()
			case 6:
				w.restore("a", "L")
				w.restore("a", "K")
			}
			allJoined(ts...)
			vsched.Quiesce()
			w.consistent(0)
			told := 0
			for _, m := range w.p["a"].Got() {
				if m.typ == tSessionClosed {
					told++
				}
			}
			closed := w.t.h.count("closed:")
			if len(w.sent["a"]) == 2 && told+1 == closed && !w.isRestore["a2"] {
				told++ // closed by the client's own request
			}
			if told != closed {
				fail("%d sessions of the connection were closed, but the client was told about %d: %s", closed, told, w.t.h)
			}
			outcome("told %d", told)
		}})
	add(&Scenario{Prop: "C16", Name: "confirmed", Bounds: [2]int{2, 3}, Weight: 2,
		Doc: "the client looks at the server's state as soon as it receives the reply to a restoration or closure or a notification of a creation or closure: what it was told has already happened, also when another connection shares the session or is leaving it",
		Body: func() {
			w := newWorld(0, "a", "b")
			w.put("K", "L")
			op := vsched.Choose(6)
			if op > 1 {
				w.setup("a", "K")
			}
			shared := vsched.Choose(3)
			if shared > 0 {
				w.setup("b", "K")
			}
			if shared == 2 {
				w.p["b"].Hangup()
			}
			a := w.c["a"]
			n := len(w.p["a"].Got())
			reply, key, typ := 0, "", 0
			switch op {
			case 0:
				key, typ = "S1", tSessionCreated
				spawn("CreateSession", func() { a.CreateSession(nil) })
			case 1:
				key, reply = "K", w.restore("a", "K")
			case 2:
				key, reply = "L", w.restore("a", "L")
			case 3:
				reply = w.reqClose("a")
			case 4:
				typ = tSessionClosed
				spawn("CloseSession", func() { a.CloseSession() })
			case 5:
				typ = tSessionClosed
				spawn("srv.CloseSession", func() { w.srv.CloseSession("K") })
			}
			if typ != 0 {
				if g := w.p["a"].Await(n); len(g) != n+1 || g[n].typ != typ {
					fail("operation %d: the client got %s", op, show(g))
				}
			} else if r, ok := w.p["a"].AwaitReply(reqID(reply)); !ok || r.typ != tReplyUtf8 && r.typ != tReplyBin {
				fail("operation %d: the client got %s", op, r)
			}
			for _, k := range []string{"K", "L", "S1"} {
				listed := false
				for _, c := range w.srv.SessionConnections(k) {
					listed = listed || c == a
				}
				if listed != (k == key) {
					fail("operation %d: the client was told, but the connection is listed under %s: %v", op, k, listed)
				}
			}
			if op == 3 && shared == 0 {
				if n := w.sm.closedCount("K"); n != 1 {
					fail("the client was told that its session is closed, but it was destroyed %d times", n)
				}
			}
			if k := a.SessionKey(); k != key || a.HasSession() != (key != "") {
				fail("operation %d: the client was told, but the connection's session is %q", op, k)
			}
			vsched.Quiesce()
			w.consistent(0)
			outcome("%d %d", op, shared)
		}})
	add(&Scenario{Prop: "C16", Name: "triples", Bounds: [2]int{0, 1}, Weight: 6, ThoroughOnly: true,
		Doc: "every combination of three session operations from three initial states",
		Body: func() {
			w := newWorld(0, "a", "b", "c")
			w.put("K", "L")
			st := vsched.Choose(len(sessStarts))
			x := vsched.Choose(len(sessActs))
			y := vsched.Choose(len(sessActs) - x)
			z := vsched.Choose(len(sessActs) - x - y)
			sessStarts[st].f(w)
			run(w, x, x+y, x+y+z)
		}})
}
