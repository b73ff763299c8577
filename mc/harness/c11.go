package harness

import (
	"fmt"
	"strings"
	"time"

	wwr "github.com/qbeon/webwire-go"

	"verif/vsched"
)

// lifecycle records hooks per connection.
type lifecycle struct {
	h     *hist
	conns map[string]wwr.Connection
	impl  *Impl
	onCon func(name string, c wwr.Connection)
	onReq func(c wwr.Connection, m wwr.Message)
	slots map[string]*slot
}

func newLifecycle() *lifecycle {
	l := &lifecycle{h: &hist{}, conns: map[string]wwr.Connection{}, slots: map[string]*slot{"a": {}, "b": {}}}
	name := func(c wwr.Connection) string { return fmt.Sprint(c.Info(1)) }
	l.impl = &Impl{
		Conn: func(o wwr.ConnectionOptions, c wwr.Connection) {
			n := name(c)
			l.h.add("conn:%s", n)
			if s := l.slots[n]; s != nil {
				s.set(c)
			}
			if o.Info[1] != n {
				fail("the connected hook of %s got the options of %v", n, o.Info[1])
			}
			if l.onCon != nil {
				l.onCon(n, c)
			}
			l.h.add("connd:%s", n)
		},
		Disc: func(c wwr.Connection, err error) {
			n := name(c)
			l.h.add("disc:%s", n)
			if c.IsActive() {
				fail("connection %s is active in its disconnected hook", n)
			}
		},
		Req: func(c wwr.Connection, m wwr.Message) (wwr.Payload, error) {
			l.h.add("msg:%s", name(c))
			if l.onReq != nil {
				l.onReq(c, m)
			}
			return wwr.Payload{Data: []byte("ok")}, nil
		},
		Sig: func(c wwr.Connection, m wwr.Message) { l.h.add("msg:%s", name(c)) },
	}
	return l
}

// check verifies the order of hooks of a connection.
func (l *lifecycle) check(n string, ended bool) {
	if c := l.h.count("conn:" + n); c != 1 {
		fail("the connected hook of %s ran %d times: %s", n, c, l.h)
	}
	want := 0
	if ended {
		want = 1
	}
	if c := l.h.count("disc:" + n); c != want {
		fail("the disconnected hook of %s ran %d times, want %d: %s", n, c, want, l.h)
	}
	done := l.h.index("connd:" + n)
	if i := l.h.index("msg:" + n); i >= 0 && (done < 0 || i < done) {
		fail("a message of %s was handled before the connected hook had returned: %s", n, l.h)
	}
	if i := l.h.index("disc:" + n); i >= 0 && (done < 0 || i < done) {
		fail("the disconnected hook of %s ran before the connected hook had returned: %s", n, l.h)
	}
	if ended && l.slots[n].c != nil && l.slots[n].c.IsActive() {
		fail("connection %s ended but is active", n)
	}
	if !ended && !l.slots[n].c.IsActive() {
		fail("connection %s is inactive", n)
	}
}

// malformed messages: they must end the connection.
var malformedMsgs = [][]byte{
	{},
	{255},
	{100, 1, 2},
	{tSignalBin},
	{tSignalBin, 0},
	{tSignalBin, 5, 'a', 'b'},
	{tSignalUtf16, 2, 'a', 'b', 'c'},
	{tSignalUtf8, 255, 'a', 'b'},
	{tRequestBin, 1, 2, 3, 4, 5, 6, 7, 8},
	{tRequestBin, 1, 2, 3, 4, 5, 6, 7, 8, 0},
	{tRequestUtf8, 1, 2, 3, 4, 5, 6, 7, 8, 9, 'a'},
	{tRequestUtf16, 1, 2, 3, 4, 5, 6, 7, 8, 0, 'a'},
	{tRestoreSession, 1, 2, 3, 4, 5, 6, 7, 8},
	{tCloseSession, 1, 2, 3, 4, 5, 6, 7},
	{tCloseSession, 1, 2, 3, 4, 5, 6, 7, 8, 9},
	{tHeartbeat, 1},
}

func init() {
	add(&Scenario{Prop: "C11", Name: "handshake", Bounds: [2]int{1, 2},
		Doc: "two connections that send a request or signal immediately, for every combination of configuration values: configuration first with the configured values, connected hook before the handler",
		Body: func() {
			to := []time.Duration{0, time.Second, 90*time.Second + 123*time.Millisecond}[vsched.Choose(3)]
			bs := []uint32{0, 32, 70000}[vsched.Choose(3)]
			sp := []string{"", "proto v1"}[vsched.Choose(2)]
			l := newLifecycle()
			sess := newStore()
			o := sess.options()
			o.ReadTimeout, o.MessageBufferSize, o.SubProtocolName = to, bs, []byte(sp)
			if bs == 0 {
				o.WarnLog, o.ErrorLog = discard, discard
			}
			n := &Net{}
			o.WarnLog, o.ErrorLog = discard, discard
			_, err := wwr.NewServer(l.impl, o, n)
			if err != nil {
				fail("NewServer: %v", err)
			}
			ps := []*Peer{n.Connect("a", connOpts("a", -1)), n.Connect("b", connOpts("b", 1))}
			ps[0].Send(req(1, "x"))
			ps[1].Send(sig("x"))
			ps[1].Send(req(1, "x"))
			vsched.Quiesce()
			if to == 0 {
				to = 60 * time.Second
			}
			if bs == 0 {
				bs = 8192
			}
			want := conf{2, 0, uint32(to / time.Millisecond), bs, sp}
			for _, p := range ps {
				got := p.Got()
				if len(got) != 2 || got[0].typ != tAcceptConf {
					fail("messages %s: want the configuration and a reply", show(got))
				}
				if got[0].conf != want {
					fail("announced configuration %v, configured %v", got[0].conf, want)
				}
			}
			l.check("a", false)
			l.check("b", false)
			outcome("%v", want)
		}})

	ends := []string{"hangup", "srvclose", "malformed", "shutdown", "closeinhook", "closeinhandler", "conffails", "conffails getwriter", "conffails write"}
	add(&Scenario{Prop: "C11", Name: "ends", Bounds: [2]int{1, 2}, Weight: 2,
		Doc: "every cause of a connection's end, with and without a session, a request in flight and messages still to come: hooks exactly once and in order, inactive and in no session afterwards, another connection untouched",
		Body: func() {
			cause := ends[vsched.Choose(len(ends))]
			lim := []int{1, 2}[vsched.Choose(2)]
			l := newLifecycle()
			sm := newStore()
			s, n := server(l.impl, sm.options())
			sm.put("K")
			if cause == "closeinhook" {
				l.onCon = func(n string, c wwr.Connection) {
					if n == "a" {
						c.Close()
					}
				}
			}
			if cause == "closeinhandler" {
				l.onReq = func(c wwr.Connection, m wwr.Message) {
					if string(m.Name()) == "x" {
						c.Close()
					}
				}
			}
			b := n.Connect("b", connOpts("b", 1))
			b.Send(encNameless(tRestoreSession, reqID(1), "K"))
			vsched.Quiesce()
			a := n.ConnectWith("a", connOpts("a", lim), func(p *Peer) {
				if strings.HasPrefix(cause, "conffails") {
					p.failWrites = 1
					p.failAt = strings.TrimSpace(strings.TrimPrefix(cause, "conffails"))
				}
			})
			a.Send(encNameless(tRestoreSession, reqID(1), "K"))
			a.Send(req(2, "x"))
			switch cause {
			case "hangup":
				a.Hangup()
			case "srvclose":
				l.slots["a"].get().Close()
			case "malformed":
				a.Send(malformedMsgs[5])
			case "shutdown":
				l.slots["a"].get()
				if err := s.Shutdown(); err != nil {
					fail("Shutdown: %v", err)
				}
			}
			a.Send(sig("late"))
			vsched.Quiesce()
			ok := l.slots["a"].c != nil
			if !ok && cause != "hangup" && !strings.HasPrefix(cause, "conffails") {
				fail("the connected hook was not invoked: %s", l.h)
			}
			if ok {
				if strings.HasPrefix(cause, "conffails") {
					fail("a connection whose configuration could not be sent was established")
				}
				l.check("a", true)
				ca := l.slots["a"].c
				if ca.HasSession() || ca.SessionKey() != "" {
					fail("a connection that ended is in a session")
				}
			} else if l.h.count("disc:a")+l.h.count("msg:a") > 0 {
				fail("hooks of a connection that was never established: %s", l.h)
			}
			if !a.closed {
				fail("%s: the socket was not closed", cause)
			}
			if cause == "shutdown" {
				l.check("b", true)
				if s.ActiveSessionsNum() != 0 {
					fail("sessions are active after the shutdown")
				}
			} else {
				l.check("b", false)
				if c := s.SessionConnections("K"); len(c) != 1 || c[0] != l.slots["b"].c {
					fail("%s: the session has %d connections, want only the remaining one", cause, len(c))
				}
				b.Send(req(5, "y"))
				vsched.Quiesce()
				exactly(b.Got(), 5, replyOf(eBin, "ok")(reqID(5)))
			}
			outcome("%s %s", cause, l.h)
		}})

	add(&Scenario{Prop: "C11", Name: "malformed", Bounds: [2]int{0, 1},
		Doc: "every kind of malformed message before, between or after valid ones ends its connection and no other",
		Body: func() {
			m := malformedMsgs[vsched.Choose(len(malformedMsgs))]
			pos := vsched.Choose(3)
			l := newLifecycle()
			_, n := server(l.impl, noSessions())
			a := n.Connect("a", connOpts("a", 2))
			b := n.Connect("b", connOpts("b", 1))
			for i := 0; i < 3; i++ {
				if i == pos {
					a.Send(m)
				} else {
					a.Send(req(i, "x"))
				}
				b.Send(req(i, "x"))
			}
			vsched.Quiesce()
			l.check("a", true)
			l.check("b", false)
			if !a.closed {
				fail("% x: the connection is open", m)
			}
			for i := 0; i < 3; i++ {
				exactly(b.Got(), i, replyOf(eBin, "ok")(reqID(i)))
				if r := repliesTo(a.Got(), reqID(i)); i < pos {
					// sent while the connection was open
					if len(r) > 1 || len(r) == 1 && r[0] != replyOf(eBin, "ok")(reqID(i)) {
						fail("replies %s", show(r))
					}
				} else if len(r) > 0 {
					fail("% x: a message after the malformed one was handled", m)
				}
			}
			if c := l.h.count("msg:a"); c != pos {
				fail("% x: %d messages handled, want %d", m, c, pos)
			}
		}})

	add(&Scenario{Prop: "C11", Name: "tworaces", Bounds: [2]int{2, 3}, Weight: 2,
		Doc: "two different causes of a connection's end at the same time, while a request arrives",
		Body: func() {
			c1 := vsched.Choose(3)
			c2 := vsched.Choose(3)
			if c2 < c1 {
				return
			}
			l := newLifecycle()
			sm := newStore()
			s, n := server(l.impl, sm.options())
			sm.put("K")
			a := n.Connect("a", connOpts("a", 2))
			a.Send(encNameless(tRestoreSession, reqID(1), "K"))
			ca := l.slots["a"].get()
			do := func(k int) {
				switch k {
				case 0:
					a.Hangup()
				case 1:
					ca.Close()
				case 2:
					if err := s.Shutdown(); err != nil {
						fail("Shutdown: %v", err)
					}
				}
			}
			t1 := spawn("end1", func() { do(c1) })
			t2 := spawn("end2", func() { do(c2) })
			a.Send(req(2, "x"))
			joinAll(t1, t2)
			vsched.Quiesce()
			l.check("a", true)
			if ca.HasSession() || s.ActiveSessionsNum() != 0 {
				fail("a connection that ended is in a session: %s", l.h)
			}
			outcome("%d %d %s", c1, c2, l.h)
		}})

	add(&Scenario{Prop: "C11", Name: "memchan", Bounds: [2]int{0, 1},
		Doc: "in-memory transport: configuration first, hooks in order, malformed messages and hangups end the connection",
		Body: func() {
			l := newLifecycle()
			names := []string{"a", "b"}
			i := 0
			s, tr := memServer(l.impl, noSessions(), func() wwr.ConnectionOptions {
				i++
				return connOpts(names[i-1], 2)
			})
			how := vsched.Choose(4)
			a := mustDial(tr, "a")
			b := mustDial(tr, "b")
			if err := a.Send(req(1, "x")); err != nil {
				fail("Send: %v", err)
			}
			a.AwaitReply(reqID(1))
			switch how {
			case 0:
				a.sock.Close()
			case 1:
				a.Send([]byte{tSignalBin, 5, 'a'})
			case 2:
				l.slots["a"].get().Close()
			case 3:
				if err := s.Shutdown(); err != nil {
					fail("Shutdown: %v", err)
				}
			}
			vsched.Quiesce()
			l.check("a", true)
			if !a.Ended() || a.sock.IsConnected() {
				fail("the client is still connected")
			}
			for _, c := range []*memClient{a, b} {
				g := c.Got()
				if how == 3 && c == b && len(g) == 0 {
					continue
				}
				if len(g) == 0 || g[0].typ != tAcceptConf || g[0].conf != (conf{2, 0, 60000, 128, ""}) {
					fail("first message is not the configuration: %s", show(g))
				}
			}
			exactly(a.Got(), 1, replyOf(eBin, "ok")(reqID(1)))
			if how != 3 {
				l.check("b", false)
			}
			outcome("%d %s", how, l.h)
		}})
}
