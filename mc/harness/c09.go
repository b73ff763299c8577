package harness

import (
	"fmt"

	wwr "github.com/qbeon/webwire-go"

	"verif/vsched"
)

// checkCloseHistory requires that the socket was closed only after every
// handler that was started had ended.
func checkCloseHistory(h *hist, names ...string) {
	c := h.index("sockclosed")
	for _, k := range names {
		if n := h.count("start:" + k); n > 1 {
			fail("message %s was handled %d times", k, n)
		}
		if s, e := h.index("start:"+k), h.index("end:"+k); c >= 0 && s >= 0 && e > c {
			fail("the socket was closed while handler %s was running (or before it started): %s", k, h)
		}
	}
}

func init() {
	add(&Scenario{Prop: "C09", Name: "pending", Bounds: [2]int{1, 2},
		Doc: "Close while handlers run: messages arriving meanwhile are refused, replies are delivered before the socket closes",
		Body: func() {
			lim := []int{2, 3, -1}[vsched.Choose(3)]
			kind := vsched.Choose(4)
			t := newTracker("x", "s")
			_, n := server(t.impl, noSessions())
			a := n.Connect("a", connOpts("a", lim))
			b := n.Connect("b", connOpts("b", 1))
			a.Send(req(1, "x"))
			a.Send(sig("s"))
			t.g.awaitAt("x")
			t.g.awaitAt("s")
			ca := t.conns["a"].get()
			if !ca.IsActive() {
				fail("open connection is not active")
			}
			ca.Close()
			if ca.IsActive() {
				fail("closed connection is active")
			}
			for i := 0; i < 2; i++ {
				switch kind {
				case 0:
					a.Send(req(2+i, "late"))
				case 1:
					a.Send(sig("late"))
				case 2:
					a.Send(encNameless(tRestoreSession, reqID(2+i), "k"))
				case 3:
					a.Send(encNameless(tCloseSession, reqID(2+i), ""))
				}
			}
			vsched.Quiesce()
			if a.closed {
				fail("the socket was closed while handlers were running")
			}
			free := lim != 2 // with limit 2 both slots are busy
			check := func() {
				for i := 2; i <= 3 && kind != 1; i++ {
					exactly(a.Got(), i, refused(i))
				}
				if t.h.count("start:late") > 0 {
					fail("a handler started on a closed connection: %s", t.h)
				}
			}
			if free {
				check()
			}
			t.g.release("s")
			vsched.Quiesce()
			check()
			if a.closed {
				fail("the socket was closed while a handler was running")
			}
			ca.Close()
			t.g.release("x")
			vsched.Quiesce()
			exactly(a.Got(), 1, handled("x", 1))
			if !a.closed {
				fail("the socket is still open after the last handler returned")
			}
			if b.closed || !t.conns["b"].get().IsActive() {
				fail("closing one connection closed another")
			}
			b.Send(req(7, "b"))
			vsched.Quiesce()
			exactly(b.Got(), 7, handled("b", 7))
			ca.Close()
		}})

	add(&Scenario{Prop: "C09", Name: "waiting", Bounds: [2]int{1, 2},
		Doc: "Close while messages wait for a handler slot",
		Body: func() {
			t := newTracker("x", "y")
			_, n := server(t.impl, noSessions())
			a := n.Connect("a", connOpts("a", 2))
			a.Send(req(1, "x"))
			a.Send(req(2, "y"))
			sigFirst := vsched.Choose(2) == 0
			if sigFirst {
				a.Send(sig("late"))
			}
			a.Send(req(3, "late"))
			vsched.Quiesce()
			t.conns["a"].get().Close()
			t.g.release("x")
			vsched.Quiesce()
			exactly(a.Got(), 3, refused(3))
			exactly(a.Got(), 1, handled("x", 1))
			if a.closed {
				fail("the socket was closed while a handler was running")
			}
			t.g.release("y")
			vsched.Quiesce()
			exactly(a.Got(), 2, handled("y", 2))
			if t.h.count("start:late") > 0 {
				fail("a handler started on a closed connection: %s", t.h)
			}
			if !a.closed {
				fail("the socket is still open after the last handler returned")
			}
		}})

	for _, lim := range []int{1, 2, -1} {
		lim := lim
		add(&Scenario{Prop: "C09", Name: fmt.Sprintf("race%d", lim), Bounds: [2]int{2, 3}, Weight: 2,
			Doc: "a request and a signal arrive concurrently with Close",
			Body: func() {
				t := newTracker()
				_, n := server(t.impl, noSessions())
				a := n.Connect("a", connOpts("a", lim))
				a.onClose = func() { t.h.add("sockclosed") }
				a.Send(req(1, "r"))
				cl := spawn("closer", func() {
					t.conns["a"].get().Close()
					t.h.add("close-returned")
				})
				a.Send(sig("s"))
				cl.join()
				vsched.Quiesce()
				checkCloseHistory(t.h, "r", "s")
				got := a.Got()
				if t.h.index("start:r") >= 0 {
					exactly(got, 1, handled("r", 1))
				} else if len(repliesTo(got, reqID(1))) > 0 {
					exactly(got, 1, refused(1))
				}
				if !a.closed {
					fail("the socket is still open: %s", t.h)
				}
				outcome("%s", t.h)
			}})
	}

	add(&Scenario{Prop: "C09", Name: "concurrentclose", Bounds: [2]int{2, 3}, Race: true, Weight: 2,
		Doc: "three concurrent ends of one connection (two Close calls and a hangup) with a running handler",
		Body: func() {
			t := newTracker()
			discs := &cell{}
			t.impl.Disc = func(c wwr.Connection, err error) { discs.add(1) }
			hang := vsched.Choose(2) == 1
			_, n := server(t.impl, noSessions())
			a := n.Connect("a", connOpts("a", 2))
			a.Send(req(1, "r"))
			t.conns["a"].get()
			t1 := spawn("close1", func() { t.conns["a"].get().Close() })
			t2 := spawn("close2", func() { t.conns["a"].get().Close() })
			if hang {
				a.Hangup()
			}
			joinAll(t1, t2)
			vsched.Quiesce()
			if !a.closed {
				fail("the socket is still open")
			}
			if t.conns["a"].c.IsActive() {
				fail("a closed connection is active")
			}
			if !hang && t.h.index("start:r") >= 0 {
				exactly(a.Got(), 1, handled("r", 1))
			}
			outcome("%s %d", t.h, discs.get())
		}})

	add(&Scenario{Prop: "C09", Name: "fromhandler", Bounds: [2]int{2, 3},
		Doc: "handlers that close their own connection still deliver their replies",
		Body: func() {
			lim := []int{1, 2, -1}[vsched.Choose(3)]
			h := &hist{}
			impl := &Impl{Req: func(c wwr.Connection, m wwr.Message) (wwr.Payload, error) {
				k := string(m.Name())
				h.add("start:%s", k)
				c.Close()
				h.add("end:%s", k)
				return wwr.Payload{Data: []byte("re-" + k)}, nil
			}}
			_, n := server(impl, noSessions())
			a := n.Connect("a", connOpts("a", lim))
			a.onClose = func() { h.add("sockclosed") }
			a.Send(req(1, "r"))
			a.Send(req(2, "q"))
			vsched.Quiesce()
			got := a.Got()
			for i, k := range []string{"r", "q"} {
				if h.index("start:"+k) >= 0 {
					exactly(got, i+1, handled(k, i+1))
				}
			}
			if !a.closed {
				fail("the socket is still open")
			}
			if h.index("start:r") < 0 && h.index("start:q") < 0 {
				fail("no request was handled")
			}
			checkCloseHistory(h, "r", "q")
			// a message that arrives afterwards is not handled
			a.Send(req(3, "late"))
			vsched.Quiesce()
			if h.index("start:late") >= 0 {
				fail("a request sent after the connection was closed was handled: %s", h)
			}
			outcome("%s", h)
		}})

	add(&Scenario{Prop: "C09", Name: "session", Bounds: [2]int{2, 3},
		Doc: "closing a connection of a session with a running handler removes exactly that connection from the session",
		Body: func() {
			t := newTracker("x")
			busy := vsched.Choose(2) == 1
			sm := newStore()
			s, n := server(t.impl, sm.options())
			a := n.Connect("a", connOpts("a", 2))
			b := n.Connect("b", connOpts("b", 1))
			ca, cb := t.conns["a"].get(), t.conns["b"].get()
			sm.put("K")
			a.Send(encNameless(tRestoreSession, reqID(1), "K"))
			b.Send(encNameless(tRestoreSession, reqID(1), "K"))
			vsched.Quiesce()
			if s.SessionConnectionsNum("K") != 2 {
				fail("session has %d connections, want 2", s.SessionConnectionsNum("K"))
			}
			if busy {
				a.Send(req(2, "x"))
				t.g.awaitAt("x")
			}
			cl := spawn("closer", func() { ca.Close() })
			t.g.release("x")
			cl.join()
			vsched.Quiesce()
			if n := s.SessionConnectionsNum("K"); n != 1 {
				fail("after closing one of two connections the session has %d", n)
			}
			l := s.SessionConnections("K")
			if len(l) != 1 || l[0] != cb {
				fail("the wrong connection was removed from the session")
			}
			if ca.HasSession() || ca.SessionKey() != "" || ca.Session() != nil {
				fail("a closed connection still has a session")
			}
			if cb.SessionKey() != "K" {
				fail("another connection lost its session")
			}
			if busy {
				exactly(a.Got(), 2, handled("x", 2))
			}
			cb.Close()
			vsched.Quiesce()
			if s.ActiveSessionsNum() != 0 {
				fail("%d active sessions without connections", s.ActiveSessionsNum())
			}
			if sm.closedCount("K") != 0 {
				fail("closing connections destroyed the session")
			}
		}})
}
