package harness

import (
	"fmt"
	"strings"
	"time"

	wwr "github.com/qbeon/webwire-go"
	"github.com/qbeon/webwire-go/transport/memchan"

	"verif/vsched"
)

var heartbeat = []byte{tHeartbeat}

// idleConn is a connection whose idle time is followed.
type idleConn struct {
	name   string
	m      *memClient
	c      wwr.Connection
	last   int64 // when the last message arrived
	closed bool
	want   []string // replies
	seen   int
}

// idleWorld is a server with a read timeout and connections in virtual time.
type idleWorld struct {
	srv     wwr.Server
	tr      *memchan.Transport
	t       *tracker
	timeout int64
	conns   []*idleConn
	next    *idleConn
	disc    map[string]int
	discErr map[string]error
	starts  int
	reqs    int
	trace   []string
}

func newIdle(opt time.Duration, effective int64, limit int, gated ...string) *idleWorld {
	w := &idleWorld{t: newTracker(gated...), timeout: effective, disc: map[string]int{}, discErr: map[string]error{}}
	byConn := map[wwr.Connection]string{}
	base := w.t.impl.Conn
	w.t.impl.Conn = func(o wwr.ConnectionOptions, c wwr.Connection) {
		n, _ := o.Info[1].(string)
		vsched.Log(func() { byConn[c] = n })
		base(o, c)
	}
	w.t.impl.Disc = func(c wwr.Connection, err error) {
		vsched.Log(func() {
			w.disc[byConn[c]]++
			w.discErr[byConn[c]] = err
		})
	}
	n := 0
	o := noSessions()
	o.ReadTimeout = opt
	w.srv, w.tr = memServer(w.t.impl, o, func() wwr.ConnectionOptions {
		n++
		return connOpts(string(rune('a'+n-1)), limit)
	})
	return w
}

func (w *idleWorld) dial() *idleConn {
	n := string(rune('a' + len(w.conns)))
	c := &idleConn{name: n, m: mustDial(w.tr, n)}
	c.c = w.t.conns[n].get()
	c.last = vsched.Now()
	vsched.Quiesce()
	c.seen = len(c.m.Got())
	w.conns = append(w.conns, c)
	return c
}

func (w *idleWorld) fail(format string, args ...any) {
	fail("%s\nafter: %s", fmt.Sprintf(format, args...), strings.Join(w.trace, "; "))
}

// wait lets time pass.
func (w *idleWorld) wait(d int64) {
	w.trace = append(w.trace, fmt.Sprintf("wait %v", time.Duration(d)))
	end := vsched.Now() + d
	for vsched.AdvanceNext(end) {
		vsched.Quiesce()
		if n := vsched.NextTimer(); n < 0 || n > vsched.Now() {
			w.check()
		}
	}
	vsched.Quiesce()
	w.check()
}

// idleMsgs are messages that restart the idle period.
var idleMsgs = []string{"heartbeat", "signal", "request", "restore", "reqclose", "reply"}

// send sends a message; handler names the handler that is to run.
func (w *idleWorld) send(c *idleConn, kind, handler string) {
	w.trace = append(w.trace, fmt.Sprintf("%s %s", kind, c.name))
	var b []byte
	want := ""
	starts := 0
	w.reqs++
	id := reqID(w.reqs)
	switch kind {
	case "heartbeat":
		b = heartbeat
	case "signal":
		b = encSignal(handler, eBin, "p")
		starts = 1
	case "request":
		b = encRequest(id, handler, eBin, "p")
		want = handled(handler, w.reqs).String()
		starts = 1
	case "restore":
		b = encNameless(tRestoreSession, id, "K")
		want = "disabled(" + id + ")"
	case "reqclose":
		b = encNameless(tCloseSession, id, "")
		want = "disabled(" + id + ")"
	case "reply": // not expected by a server
		b = encNameless(tReplyBin, id, "x")
	}
	err := c.m.Send(b)
	vsched.Quiesce()
	if c.closed {
		if err == nil {
			w.fail("a message could be sent on the closed connection %s", c.name)
		}
		return
	}
	if err != nil {
		w.fail("sending on connection %s failed: %v", c.name, err)
	}
	c.last = vsched.Now()
	w.starts += starts
	if want != "" && !w.t.gated[handler] {
		c.want = append(c.want, want)
	}
	w.check()
}

// check compares the connections' states with the idle times.
func (w *idleWorld) check() {
	for _, c := range w.conns {
		if vsched.Now() >= c.last+w.timeout {
			c.closed = true
		}
		if c.c.IsActive() == c.closed || c.m.Ended() != c.closed || c.m.sock.IsConnected() == c.closed {
			w.fail("connection %s, idle for %v with a read timeout of %v: IsActive %v, reading ended %v, client connected %v", c.name,
				time.Duration(vsched.Now()-c.last), time.Duration(w.timeout), c.c.IsActive(), c.m.Ended(), c.m.sock.IsConnected())
		}
		n := 0
		if c.closed {
			n = 1
		}
		if w.disc[c.name] != n {
			w.fail("connection %s was reported as disconnected %d times, want %d", c.name, w.disc[c.name], n)
		}
		if c.closed && w.discErr[c.name] == nil {
			w.fail("connection %s was reported as disconnected without an error", c.name)
		}
		got := show(c.m.Got()[c.seen:])
		if want := strings.Join(c.want, " "); got != want {
			w.fail("client %s got [%s], want [%s]", c.name, got, want)
		}
	}
	if n := w.t.h.count("start:"); n != w.starts {
		w.fail("%d handlers ran, want %d: %s", n, w.starts, w.t.h)
	}
}

func init() {
	timeouts := []struct{ opt, eff time.Duration }{
		{2 * time.Second, 2 * time.Second},
		{0, time.Minute},
		{time.Second, time.Second},
		{90*time.Minute + time.Millisecond, 90*time.Minute + time.Millisecond},
	}
	world := func(limits ...int) *idleWorld {
		t := timeouts[vsched.Choose(len(timeouts))]
		return newIdle(t.opt, int64(t.eff), limits[vsched.Choose(len(limits))])
	}
	waits := func(w *idleWorld) []int64 {
		return []int64{w.timeout / 2, w.timeout - 1, w.timeout}
	}
	steps := func(w *idleWorld, depth int) {
		for i := 0; i < depth; i++ {
			ws := waits(w)
			k := vsched.Choose(len(ws) + len(w.conns)*len(idleMsgs))
			if k < len(ws) {
				w.wait(ws[k])
				continue
			}
			k -= len(ws)
			w.send(w.conns[k/len(idleMsgs)], idleMsgs[k%len(idleMsgs)], "h")
		}
		outcome("%v", len(w.disc))
	}
	add(&Scenario{Prop: "C26", Name: "sequences", Bounds: [2]int{0, 0}, Timed: true, Weight: 3,
		Doc: "every sequence of 4 steps out of six kinds of messages and waits of half, almost the whole and the whole read timeout, for 3 concurrency limits, in virtual time",
		Body: func() {
			w := newIdle(2*time.Second, int64(2*time.Second), []int{1, 2, -1}[vsched.Choose(3)])
			w.dial()
			steps(w, 4)
			w.wait(w.timeout)
		}})
	add(&Scenario{Prop: "C26", Name: "timeouts", Bounds: [2]int{0, 0}, Timed: true,
		Doc: "every sequence of 2 steps for 4 read timeouts (1 s, 2 s, the default, 90 min) and 2 concurrency limits",
		Body: func() {
			w := world(0, 2)
			w.dial()
			steps(w, 2)
			w.wait(w.timeout)
		}})
	add(&Scenario{Prop: "C26", Name: "twoconns", Bounds: [2]int{0, 0}, Timed: true, Weight: 2,
		Doc: "two connections opened at different times, every sequence of 3 messages and waits: their idle periods are independent",
		Body: func() {
			w := newIdle(2*time.Second, int64(2*time.Second), 1+vsched.Choose(2))
			w.dial()
			w.wait(w.timeout / 3)
			w.dial()
			steps(w, 3)
			w.wait(w.timeout)
		}})
	add(&Scenario{Prop: "C26", Name: "deeper", Bounds: [2]int{0, 0}, Timed: true, Weight: 6, ThoroughOnly: true,
		Doc: "every sequence of 6 steps on one connection",
		Body: func() {
			w := newIdle(2*time.Second, int64(2*time.Second), 1)
			w.dial()
			steps(w, 6)
			w.wait(w.timeout)
		}})
	add(&Scenario{Prop: "C26", Name: "busy", Bounds: [2]int{1, 2}, Timed: true, Weight: 2,
		Doc: "while all handler slots of a connection are busy and while the server shuts down, heartbeats keep the connection alive without any reply or handler; when they stop it is closed",
		Body: func() {
			limit := []int{2, -1, 3}[vsched.Choose(3)]
			shutdown := vsched.Choose(3) // none, before, after the handlers started
			kind := []string{"request", "signal"}[vsched.Choose(2)]
			w := newIdle(2*time.Second, int64(2*time.Second), limit, "x", "y")
			c := w.dial()
			w.send(c, kind, "x")
			w.wait(w.timeout / 2)
			w.send(c, kind, "y")
			var sd *task
			if shutdown > 0 {
				sd = spawn("shutdown", func() {
					w.srv.Shutdown()
					w.t.h.add("shutdown-returned")
				})
				vsched.Quiesce()
			}
			for i := 0; i < 3; i++ {
				w.wait(w.timeout - 1)
				w.send(c, "heartbeat", "")
			}
			if shutdown == 2 {
				// the idle connection is closed although handlers are running
				w.wait(w.timeout)
			}
			if sd != nil && sd.isDone() {
				fail("Shutdown returned while handlers were running")
			}
			w.t.g.release("y")
			vsched.Quiesce()
			if !c.closed && kind == "request" {
				c.want = append(c.want, handled("y", 2).String())
			}
			w.check()
			w.t.g.release("x")
			vsched.Quiesce()
			if sd != nil {
				if !sd.isDone() {
					fail("Shutdown did not return")
				}
				return
			}
			if kind == "request" {
				c.want = append(c.want, handled("x", 1).String())
			}
			w.check()
			w.wait(w.timeout - 1)
			w.send(c, "heartbeat", "")
			w.wait(w.timeout)
		}})
	add(&Scenario{Prop: "C26", Name: "expiry", Bounds: [2]int{2, 3}, Timed: true, Weight: 2,
		Doc: "a message is sent while the read timeout expires: either it arrives and the period restarts or the connection is closed once",
		Body: func() {
			kind := vsched.Choose(3)
			w := newIdle(2*time.Second, int64(2*time.Second), 1)
			c := w.dial()
			var err error
			var sent int64
			msg := [][]byte{heartbeat, req(1, "h"), sig("h")}[kind]
			s := spawn("send", func() {
				sent = vsched.Now()
				err = c.m.Send(msg)
			})
			clock := spawn("clock", func() {
				vsched.AdvanceNext(vsched.Now() + w.timeout)
			})
			joinAll(s, clock)
			vsched.Quiesce()
			ended := c.m.Ended()
			if ended != !c.c.IsActive() || ended != (w.disc["a"] == 1) || w.disc["a"] > 1 {
				fail("connection active %v, client ended %v, reported %d times", c.c.IsActive(), ended, w.disc["a"])
			}
			if ended && err == nil {
				// it arrived in time: the connection may only end later
				if sent+w.timeout > vsched.Now() {
					fail("the connection was closed although a message had arrived, at most %v before", time.Duration(vsched.Now()-sent))
				}
			}
			if !ended && err != nil {
				fail("sending failed on an open connection: %v", err)
			}
			starts := w.t.h.count("start:")
			if err != nil && starts > 0 {
				fail("the message was handled although sending it failed")
			}
			if err == nil && kind > 0 && starts != 1 || kind == 0 && starts != 0 {
				fail("%d handlers ran", starts)
			}
			outcome("ended %v", ended)
			if !ended {
				end := vsched.Now() + w.timeout
				for vsched.AdvanceNext(end) {
				}
				vsched.Quiesce()
				if c.c.IsActive() || w.disc["a"] != 1 {
					fail("the connection was not closed when its read timeout expired")
				}
			}
		}})
	add(&Scenario{Prop: "C26", Name: "deadlines", Bounds: [2]int{0, 0}, Timed: true,
		Doc: "on a model transport: the deadline of every read is the read timeout from the previous message on, for every sequence of 4 kinds of messages",
		Body: func() {
			t := timeouts[vsched.Choose(len(timeouts))]
			o := noSessions()
			o.ReadTimeout = t.opt
			tk := newTracker()
			_, n := server(tk.impl, o)
			p := n.Connect("a", connOpts("a", 1+vsched.Choose(2)))
			vsched.Quiesce()
			for i := 0; i < 4; i++ {
				if len(p.deadlines) != i+1 || p.deadlines[i] != vsched.Now()+int64(t.eff) {
					fail("the deadlines of the reads after %d messages are %v, want %d of them, the last in %v", i, p.deadlines, i+1, t.eff)
				}
				vsched.AdvanceNext(vsched.Now() + int64(time.Second)/3)
				p.Send([][]byte{heartbeat, sig("h"), req(i, "h"), encNameless(tRestoreSession, reqID(i), "K"), encNameless(tReplyBin, reqID(i), "x")}[vsched.Choose(5)])
				vsched.Quiesce()
			}
		}})
}
