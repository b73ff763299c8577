package harness

import (
	"fmt"

	wwr "github.com/qbeon/webwire-go"

	"verif/vsched"
)

// gates block handlers until they are opened.
type gates struct {
	o    vsched.Obj
	open map[string]bool
	at   map[string]bool // handlers that reached their gate
}

func newGates() *gates {
	g := &gates{open: map[string]bool{}, at: map[string]bool{}}
	g.o.Name = "gate"
	return g
}

func (g *gates) pass(k string) {
	vsched.Op("gate.arrive", &g.o, nil, func() { g.at[k] = true })
	vsched.Op("gate.pass", &g.o, func() bool { return g.open[k] }, nil)
}

func (g *gates) release(k string) {
	vsched.Op("gate.open", &g.o, nil, func() { g.open[k] = true })
}

func (g *gates) awaitAt(k string) {
	vsched.Op("gate.await", &g.o, func() bool { return g.at[k] }, nil)
}

func (g *gates) reached(k string) (r bool) {
	vsched.Op("gate.look", &g.o, nil, func() { r = g.at[k] })
	return
}

// tracker is a server implementation that logs handlers in a history and
// passes them through gates named in gated.
type tracker struct {
	h     *hist
	g     *gates
	gated map[string]bool
	impl  *Impl
	conns map[string]*slot
}

func newTracker(gated ...string) *tracker {
	t := &tracker{h: &hist{}, g: newGates(), gated: map[string]bool{}, conns: map[string]*slot{}}
	for _, k := range gated {
		t.gated[k] = true
	}
	for _, n := range []string{"a", "b", "c"} {
		t.conns[n] = &slot{}
	}
	t.impl = &Impl{
		Conn: func(o wwr.ConnectionOptions, c wwr.Connection) {
			if n, ok := o.Info[1].(string); ok {
				t.conns[n].set(c)
			}
		},
		Req: func(c wwr.Connection, m wwr.Message) (wwr.Payload, error) {
			k := string(m.Name())
			t.h.add("start:%s", k)
			if t.gated[k] {
				t.g.pass(k)
			}
			t.h.add("end:%s", k)
			return wwr.Payload{Data: []byte("re-" + k)}, nil
		},
		Sig: func(c wwr.Connection, m wwr.Message) {
			k := string(m.Name())
			t.h.add("start:%s", k)
			if t.gated[k] {
				t.g.pass(k)
			}
			t.h.add("end:%s", k)
		},
	}
	return t
}

func connOpts(name string, limit int) wwr.ConnectionOptions {
	return wwr.ConnectionOptions{ConcurrencyLimit: limit, Info: map[int]interface{}{1: name}}
}

func req(id int, name string) []byte { return encRequest(reqID(id), name, eBin, "p") }
func sig(name string) []byte         { return encSignal(name, eBin, "p") }

// exactly requires exactly one reply to a request.
func exactly(got []wire, id int, want wire) {
	r := repliesTo(got, reqID(id))
	if len(r) != 1 || r[0] != want {
		fail("request %d: replies [%s], want [%s]; all messages: %s", id, show(r), want, show(got))
	}
}

func handled(k string, id int) wire { return replyOf(eBin, "re-"+k)(reqID(id)) }
func refused(id int) wire           { return special(tReplyShutdown)(reqID(id)) }

func checkShutdownHistory(t *tracker, names ...string) {
	ret := t.h.index("shutdown-returned")
	if ret < 0 {
		fail("Shutdown did not return: %s; blocked: %v", t.h, vsched.Blocked())
	}
	for _, k := range names {
		s, e := t.h.index("start:"+k), t.h.index("end:"+k)
		if s >= 0 && s > ret {
			fail("handler %s started after Shutdown had returned: %s", k, t.h)
		}
		if s >= 0 && (e < 0 || e > ret) {
			fail("Shutdown returned before handler %s did: %s", k, t.h)
		}
		if n := t.h.count("start:" + k); n > 1 {
			fail("handler %s started %d times", k, n)
		}
	}
}

func init() {
	shut := func(s wwr.Server, t *tracker) *task {
		return spawn("shutdown", func() {
			if err := s.Shutdown(); err != nil {
				fail("Shutdown: %v", err)
			}
			t.h.add("shutdown-returned")
		})
	}

	add(&Scenario{Prop: "C08", Name: "pending", Bounds: [2]int{1, 2},
		Doc: "while one handler keeps the shutdown pending, three messages of any kind arrive on the same or another connection",
		Body: func() {
			lim := []int{1, 2, -1}[vsched.Choose(3)]
			first := vsched.Choose(2) // what keeps it pending: request or signal
			t := newTracker("x")
			s, n := server(t.impl, noSessions())
			a := n.Connect("a", connOpts("a", 2))
			b := n.Connect("b", connOpts("b", lim))
			if first == 0 {
				a.Send(req(1, "x"))
			} else {
				a.Send(sig("x"))
			}
			t.g.awaitAt("x")
			sd := shut(s, t)
			vsched.Quiesce()
			if sd.isDone() {
				fail("Shutdown returned while a handler was running")
			}
			if n.Connect("late", connOpts("c", 1)) != nil {
				fail("a connection was accepted during the shutdown")
			}
			var want []wire
			for i := 2; i <= 4; i++ {
				switch vsched.Choose(5) {
				case 0:
					b.Send(req(i, "late"))
					want = append(want, refused(i))
				case 1:
					b.Send(sig("late"))
				case 2:
					b.Send(encNameless(tRestoreSession, reqID(i), "k"))
					want = append(want, refused(i))
				case 3:
					b.Send(encNameless(tCloseSession, reqID(i), ""))
					want = append(want, refused(i))
				case 4:
					b.Send([]byte{tHeartbeat})
				}
			}
			a.Send(req(9, "late"))
			vsched.Quiesce()
			got := b.Got()[1:]
			if len(got) != len(want) {
				fail("limit %d: messages that arrived during the shutdown were answered with [%s], want [%s]", lim, show(got), show(want))
			}
			for i := range want {
				if got[i] != want[i] {
					fail("limit %d: messages that arrived during the shutdown were answered with [%s], want [%s]", lim, show(got), show(want))
				}
			}
			exactly(a.Got(), 9, refused(9))
			if t.h.count("start:late") > 0 {
				fail("a message that arrived during the shutdown was handled: %s", t.h)
			}
			if sd.isDone() {
				fail("Shutdown returned while a handler was running")
			}
			t.g.release("x")
			vsched.Quiesce()
			checkShutdownHistory(t, "x", "late")
			if first == 0 {
				exactly(a.Got(), 1, handled("x", 1))
			}
			if !a.closed || !b.closed {
				fail("a connection is open after Shutdown returned")
			}
			outcome("%d %d %s", lim, first, show(got))
		}})

	for _, lim := range []int{1, 2, -1} {
		lim := lim
		add(&Scenario{Prop: "C08", Name: fmt.Sprintf("race%d", lim), Bounds: [2]int{2, 3}, Weight: 2,
			Doc: "a request and a signal arrive concurrently with Shutdown",
			Body: func() {
				t := newTracker()
				s, n := server(t.impl, noSessions())
				a := n.Connect("a", connOpts("a", lim))
				a.Send(req(1, "r"))
				sd := shut(s, t)
				a.Send(sig("s"))
				sd.join()
				vsched.Quiesce()
				checkShutdownHistory(t, "r", "s")
				got := a.Got()
				r := repliesTo(got, reqID(1))
				switch {
				case t.h.index("start:r") >= 0:
					exactly(got, 1, handled("r", 1))
				case len(r) > 0:
					exactly(got, 1, refused(1))
				}
				outcome("%s | %s", t.h, show(r))
			}})
	}

	add(&Scenario{Prop: "C08", Name: "race2conns", Bounds: [2]int{2, 3}, Weight: 2,
		Doc: "requests on two connections concurrent with Shutdown",
		Body: func() {
			t := newTracker()
			s, n := server(t.impl, noSessions())
			a := n.Connect("a", connOpts("a", 2))
			b := n.Connect("b", connOpts("b", 1))
			if a == nil || b == nil {
				fail("connection refused by a running server")
			}
			a.Send(req(1, "r"))
			b.Send(req(2, "q"))
			sd := shut(s, t)
			sd.join()
			vsched.Quiesce()
			checkShutdownHistory(t, "r", "q")
			for i, p := range []*Peer{a, b} {
				k := []string{"r", "q"}[i]
				got := p.Got()
				if t.h.index("start:"+k) >= 0 {
					exactly(got, i+1, handled(k, i+1))
				} else if len(repliesTo(got, reqID(i+1))) > 0 {
					exactly(got, i+1, refused(i+1))
				}
			}
			outcome("%s", t.h)
		}})

	add(&Scenario{Prop: "C08", Name: "saturated", Bounds: [2]int{1, 2},
		Doc: "all handler slots of a connection are busy when the shutdown begins and more messages wait for them",
		Body: func() {
			t := newTracker("x", "y")
			s, n := server(t.impl, noSessions())
			a := n.Connect("a", connOpts("a", 2))
			a.Send(req(1, "x"))
			a.Send(req(2, "y"))
			waiting := vsched.Choose(3)
			t.g.awaitAt("x")
			t.g.awaitAt("y")
			late := func() {
				if waiting == 2 {
					a.Send(sig("late"))
				}
				if waiting > 0 {
					a.Send(req(3, "late"))
				}
			}
			before := vsched.Choose(2) == 0
			if before {
				late()
				vsched.Quiesce()
			}
			sd := shut(s, t)
			vsched.Quiesce()
			if !before {
				late()
			}
			t.g.release("x")
			vsched.Quiesce()
			if sd.isDone() {
				fail("Shutdown returned while a handler was running")
			}
			exactly(a.Got(), 1, handled("x", 1))
			if waiting > 0 {
				exactly(a.Got(), 3, refused(3))
			}
			t.g.release("y")
			vsched.Quiesce()
			checkShutdownHistory(t, "x", "y")
			if t.h.count("start:late") > 0 {
				fail("a message that waited for a handler slot was handled during the shutdown")
			}
			exactly(a.Got(), 2, handled("y", 2))
			outcome("%d %v", waiting, before)
		}})

	add(&Scenario{Prop: "C08", Name: "rejectedslots", Bounds: [2]int{1, 2},
		Doc: "any number of requests on a connection with few handler slots is rejected while another connection's handler keeps the shutdown pending",
		Body: func() {
			t := newTracker("x")
			s, n := server(t.impl, noSessions())
			a := n.Connect("a", connOpts("a", 1))
			b := n.Connect("b", connOpts("b", 2+vsched.Choose(2)))
			a.Send(req(1, "x"))
			t.g.awaitAt("x")
			sd := shut(s, t)
			vsched.Quiesce()
			for i := 2; i <= 6; i++ {
				b.Send(req(i, "late"))
			}
			vsched.Quiesce()
			for i := 2; i <= 6; i++ {
				exactly(b.Got(), i, refused(i))
			}
			t.g.release("x")
			sd.join()
			vsched.Quiesce()
			checkShutdownHistory(t, "x", "late")
			exactly(a.Got(), 1, handled("x", 1))
		}})

	add(&Scenario{Prop: "C08", Name: "closing", Bounds: [2]int{2, 2},
		Doc: "shutdown while a connection with a running handler is closed by the server or the client",
		Body: func() {
			t := newTracker("x")
			how := vsched.Choose(2)
			s, n := server(t.impl, noSessions())
			a := n.Connect("a", connOpts("a", 2))
			a.Send(req(1, "x"))
			t.g.awaitAt("x")
			sd := shut(s, t)
			cl := spawn("closer", func() {
				if how == 0 {
					t.conns["a"].get().Close()
				} else {
					a.Hangup()
				}
			})
			cl.join()
			vsched.Quiesce()
			if sd.isDone() {
				fail("Shutdown returned while a handler was running")
			}
			t.g.release("x")
			sd.join()
			vsched.Quiesce()
			checkShutdownHistory(t, "x")
			if how == 0 {
				exactly(a.Got(), 1, handled("x", 1))
			}
		}})

	add(&Scenario{Prop: "C08", Name: "twice", Bounds: [2]int{2, 3},
		Doc: "two concurrent Shutdown calls with a request in flight both return, and not too early",
		Body: func() {
			t := newTracker()
			s, n := server(t.impl, noSessions())
			a := n.Connect("a", connOpts("a", 2))
			a.Send(req(1, "r"))
			sd := shut(s, t)
			s2 := spawn("shutdown2", func() {
				if err := s.Shutdown(); err != nil {
					fail("Shutdown: %v", err)
				}
				t.h.add("shutdown2-returned")
			})
			sd.join()
			s2.join()
			vsched.Quiesce()
			checkShutdownHistory(t, "r")
			if i, e := t.h.index("start:r"), t.h.index("end:r"); i >= 0 && e > t.h.index("shutdown2-returned") {
				fail("Shutdown returned before a handler did: %s", t.h)
			}
			if t.h.index("start:r") >= 0 {
				exactly(a.Got(), 1, handled("r", 1))
			}
			if err := s.Shutdown(); err != nil {
				fail("Shutdown of a stopped server: %v", err)
			}
			outcome("%s", t.h)
		}})
}
