package harness

import (
	"errors"
	"fmt"
	"strings"
	"time"

	wwr "github.com/qbeon/webwire-go"
	"github.com/qbeon/webwire-go/message"

	"verif/vsched"
)

// spans are times handlers take, around the default and configured read
// timeout.
var spans = []time.Duration{time.Millisecond, time.Second, 59 * time.Second, 61 * time.Second, time.Hour, 100 * 24 * time.Hour}

// elapse lets time pass, firing the timers that are due.
func elapse(d time.Duration) {
	end := vsched.Now() + int64(d)
	for vsched.AdvanceNext(end) {
		vsched.Quiesce()
	}
	vsched.Quiesce()
}

// slowHooks is a session manager whose lookup and destruction hooks wait at
// gates named lookup and closed.
type slowHooks struct {
	*store
	g    *gates
	hold map[string]bool
}

func (s *slowHooks) OnSessionLookup(key string) (wwr.SessionLookupResult, error) {
	r, err := s.store.OnSessionLookup(key)
	if s.hold["lookup"] {
		s.g.pass("lookup")
	}
	return r, err
}

func (s *slowHooks) OnSessionClosed(key string) error {
	err := s.store.OnSessionClosed(key)
	if s.hold["closed"] {
		s.g.pass("closed")
	}
	return err
}

// slowReqs are the requests that can take their time: the handler of x, or a
// hook.
var slowReqs = []string{"x", "lookup", "closed"}

// slowReq is a server with a connection a that has session K, a connection b
// and a request 1 that takes its time.
func slowReq(which string, lim int) (srv wwr.Server, t *tracker, a, b *Peer, finish func()) {
	t = newTracker("x", "s")
	st := newStore()
	sm := &slowHooks{store: st, g: t.g, hold: map[string]bool{}}
	o := st.options()
	o.SessionManager = sm
	srv, n := server(t.impl, o)
	a = n.Connect("a", connOpts("a", lim))
	b = n.Connect("b", connOpts("b", lim))
	st.put("K")
	st.put("L")
	a.Send(encNameless(tRestoreSession, reqID(90), "K"))
	vsched.Quiesce()
	if r := repliesTo(a.Got(), reqID(90)); len(r) != 1 || r[0].typ != tReplyUtf8 {
		fail("restoring was answered with [%s]", show(r))
	}
	switch which {
	case "x":
		a.Send(req(1, "x"))
	case "lookup":
		sm.hold["lookup"] = true
		b.Send(encNameless(tRestoreSession, reqID(1), "L"))
	case "closed":
		sm.hold["closed"] = true
		a.Send(encNameless(tCloseSession, reqID(1), ""))
	}
	t.g.awaitAt(which)
	vsched.Quiesce()
	return srv, t, a, b, func() {
		vsched.Log(func() { sm.hold = map[string]bool{} })
		t.g.release(which)
	}
}

// slowAnswer requires that request 1 was answered, positively.
func slowAnswer(when, which string, a, b *Peer) {
	p, want := a, handled("x", 1)
	switch which {
	case "lookup":
		p = b
	case "closed":
		want = replyOf(eBin, "")(reqID(1))
	}
	r := repliesTo(p.Got(), reqID(1))
	if len(r) == 1 && which == "lookup" && r[0].typ == tReplyUtf8 && strings.Contains(r[0].payload, `"k":"L"`) {
		return
	}
	if len(r) != 1 || r[0] != want {
		fail("%s: the request that was being handled (%s) was answered with [%s]", when, which, show(r))
	}
}

func init() {
	add(&Scenario{Prop: "C07", Name: "time", Bounds: [2]int{0, 1}, Timed: true,
		Doc: "handlers that take from a millisecond to 100 days: with every concurrency limit and handler result their requests get the same replies",
		Body: func() {
			lim := []int{1, 2, -1}[vsched.Choose(3)]
			span := spans[vsched.Choose(len(spans))]
			rc := resCases[[]int{0, 2, 5, 8}[vsched.Choose(4)]]
			g := newGates()
			impl := &Impl{Req: func(c wwr.Connection, m wwr.Message) (wwr.Payload, error) {
				if string(m.Name()) == "x" {
					g.pass("x")
					return rc.pl, rc.err
				}
				return wwr.Payload{Data: []byte("second")}, nil
			}}
			o := noSessions()
			o.ReadTimeout = time.Second
			_, n := server(impl, o)
			p := n.Connect("a", wwr.ConnectionOptions{ConcurrencyLimit: lim})
			p.Send(req(1, "x"))
			g.awaitAt("x")
			p.Send(req(2, "y"))
			elapse(span)
			if len(repliesTo(p.Got(), reqID(1))) > 0 {
				fail("a reply was sent before the handler returned: %s", show(p.Got()))
			}
			g.release("x")
			vsched.Quiesce()
			exactly(p.Got(), 1, rc.want(reqID(1)))
			exactly(p.Got(), 2, replyOf(eBin, "second")(reqID(2)))
			if p.closed {
				fail("the connection was closed")
			}
			outcome("%d %v %s", lim, span, rc.name)
		}})

	add(&Scenario{Prop: "C08", Name: "time", Bounds: [2]int{0, 1}, Timed: true,
		Doc: "a handler or a hook of a session request takes from a millisecond to 100 days while Shutdown waits: Shutdown doesn't return before it does, and its reply is delivered",
		Body: func() {
			which := slowReqs[vsched.Choose(len(slowReqs))]
			lim := []int{1, 2, -1}[vsched.Choose(3)]
			span := spans[vsched.Choose(len(spans))]
			s, t, a, b, finish := slowReq(which, lim)
			sd := spawn("shutdown", func() { s.Shutdown() })
			vsched.Quiesce()
			elapse(span)
			if sd.isDone() || a.closed || b.closed {
				fail("after %v Shutdown returned (%v) or closed a socket (%v, %v) although a request was being handled (%s)", span, sd.isDone(), a.closed, b.closed, which)
			}
			c := b
			if which == "lookup" {
				c = a
			}
			c.Send(req(5, "late"))
			vsched.Quiesce()
			exactly(c.Got(), 5, refused(5))
			finish()
			vsched.Quiesce()
			if !sd.isDone() {
				fail("Shutdown doesn't return: %v", vsched.Blocked())
			}
			slowAnswer(fmt.Sprintf("after %v", span), which, a, b)
			if t.h.count("start:late") > 0 {
				fail("a message was handled during the shutdown")
			}
			outcome("%s %v", which, span)
		}})

	add(&Scenario{Prop: "C08", Name: "requests", Bounds: [2]int{2, 3}, Delay: true,
		Doc: "a session is restored or closed upon request when the server is shut down: the reply is delivered before Shutdown returns and the socket is closed, or the request is refused",
		Body: func() {
			which := slowReqs[vsched.Choose(len(slowReqs))]
			lim := []int{1, 2, -1}[vsched.Choose(3)]
			s, _, a, b, finish := slowReq(which, lim)
			sd := spawn("shutdown", func() {
				s.Shutdown()
				slowAnswer("when Shutdown returned", which, a, b)
			})
			finish()
			sd.join()
			vsched.Quiesce()
			slowAnswer("at the end", which, a, b)
		}})

	add(&Scenario{Prop: "C09", Name: "time", Bounds: [2]int{0, 1}, Timed: true,
		Doc: "a handler or a hook of a session request takes from a millisecond to 100 days after its connection was closed: the socket isn't closed before its reply was delivered",
		Body: func() {
			which := slowReqs[vsched.Choose(len(slowReqs))]
			lim := []int{1, 2, -1}[vsched.Choose(3)]
			span := spans[vsched.Choose(len(spans))]
			_, t, a, b, finish := slowReq(which, lim)
			p, n := a, "a"
			if which == "lookup" {
				p, n = b, "b"
			}
			t.conns[n].get().Close()
			vsched.Quiesce()
			elapse(span)
			if p.closed {
				fail("after %v the socket was closed although a request was being handled (%s)", span, which)
			}
			finish()
			vsched.Quiesce()
			if !p.closed {
				fail("the socket isn't closed")
			}
			if which != "lookup" {
				slowAnswer(fmt.Sprintf("after %v", span), which, a, b)
			} else if r := repliesTo(p.Got(), reqID(1)); len(r) != 1 {
				fail("the request that was being handled (lookup) was answered with [%s]", show(r))
			}
			outcome("%s %v", which, span)
		}})

	add(&Scenario{Prop: "C09", Name: "requests", Bounds: [2]int{2, 3}, Delay: true,
		Doc: "a session is restored or closed upon request when the connection is closed: the reply is delivered before the socket is closed",
		Body: func() {
			which := slowReqs[vsched.Choose(len(slowReqs))]
			lim := []int{1, 2, -1}[vsched.Choose(3)]
			_, t, a, b, finish := slowReq(which, lim)
			p, n := a, "a"
			if which == "lookup" {
				p, n = b, "b"
			}
			c := t.conns[n].get()
			cl := spawn("close", c.Close)
			finish()
			cl.join()
			vsched.Quiesce()
			if r := repliesTo(p.Got(), reqID(1)); len(r) != 1 {
				fail("the request that was being handled (%s) was answered with [%s]", which, show(r))
			}
			if which != "lookup" {
				slowAnswer("at the end", which, a, b)
			}
			if !p.closed {
				fail("the socket isn't closed")
			}
		}})

	add(&Scenario{Prop: "C10", Name: "time", Bounds: [2]int{0, 1}, Timed: true,
		Doc: "messages wait from a millisecond to 100 days for a handler slot: all are handled when there's one, in order when the limit is 1",
		Body: func() {
			lim := []int{1, 2, 3}[vsched.Choose(3)]
			span := spans[vsched.Choose(len(spans))]
			r := newRunner(nil)
			o := noSessions()
			o.ReadTimeout = time.Second
			_, n := server(r.impl, o)
			a := n.Connect("a", connOpts("a", lim))
			for i := 0; i < lim; i++ {
				a.Send(req(i, fmt.Sprintf("g%d", i)))
			}
			a.Send(req(20, "w20"))
			a.Send(sig("v"))
			a.Send(req(21, "w21"))
			vsched.Quiesce()
			elapse(span)
			if r.now() != lim || r.h.count("w")+r.h.count("v") > 0 {
				fail("after %v %d handlers run, want %d: %s", span, r.now(), lim, r.h)
			}
			r.g.release(fmt.Sprintf("g%d", lim-1))
			if lim == 1 {
				r.g.release("g0")
			}
			vsched.Quiesce()
			exactly(a.Got(), 20, handled("w20", 20))
			exactly(a.Got(), 21, handled("w21", 21))
			if r.h.count("v") != 1 {
				fail("after %v a waiting signal was handled %d times", span, r.h.count("v"))
			}
			for i := 0; i < lim; i++ {
				r.g.release(fmt.Sprintf("g%d", i))
			}
			vsched.Quiesce()
			for i := 0; i < lim; i++ {
				exactly(a.Got(), i, handled(fmt.Sprintf("g%d", i), i))
			}
			outcome("%d %v", lim, span)
		}})

	add(&Scenario{Prop: "C30", Name: "succession", Bounds: [2]int{0, 1}, Timed: true,
		Doc: "the same or different failures occur 1 to 6 times in immediate or slow succession, on one or two connections: each is logged",
		Body: func() {
			act := logActs[vsched.Choose(len(logActs))]
			gap := []time.Duration{0, time.Millisecond, time.Hour}[vsched.Choose(3)]
			same := vsched.Choose(2) == 1
			w, elog, _, inject := newLogWorld(2)
			for i := 0; i < 6; i++ {
				text := "cause-of-it"
				if !same {
					text += fmt.Sprint(i) + "."
				}
				w.put("K", "L")
				if w.c["a"].SessionKey() != "K" {
					inject("lookup", nil, nil)
					w.setup("a", "K")
				}
				before := elog.has(text)
				inject(act.hook, errors.New(text), nil)
				act.f(w)
				vsched.Quiesce()
				if elog.has(text) != before+1 {
					fail("%s failed for the %dth time, its error was logged %d times: %q", act.name, i+1, elog.has(text)-before, elog.l)
				}
				inject(act.hook, nil, nil)
				if act.hook == "created" {
					w.c["b"].CloseSession()
				}
				if gap > 0 {
					elapse(gap)
				}
			}
			outcome("%s", act.hook)
		}})

	add(&Scenario{Prop: "C30", Name: "texts", Bounds: [2]int{0, 1},
		Doc: "failures whose text is long, empty or consists of any bytes: it's logged as it is",
		Body: func() {
			act := logActs[vsched.Choose(len(logActs))]
			texts := []string{"", " ", "x", "tab\t and \"quotes\"", "%", "100%", "%d%s%v%!", "ünïcödé \u2028", "\x00\x01\xff\xfe", "end\n"}
			for _, n := range []int{63, 64, 65, 100, 255, 256, 257, 1000, 1023, 1024, 1025, 4096, 5000, 65535, 65536, 70000} {
				texts = append(texts, strings.Repeat("0123456789", n/10)+strings.Repeat("x", n%10)+"end")
			}
			text := texts[vsched.Choose(len(texts))]
			w, elog, _, inject := newLogWorld(2)
			inject(act.hook, &noted{"<" + text + ">"}, nil)
			n := len(elog.l)
			act.f(w)
			vsched.Quiesce()
			if elog.has("<"+text+">") != 1 || len(elog.l) <= n {
				fail("%s failed with %.80q (%d bytes), the log is %.200q", act.name, text, len(text), elog.l)
			}
			outcome("%s", act.hook)
		}})
}

func init() {
	add(&Scenario{Prop: "C14", Name: "pending", Bounds: [2]int{1, 2}, Weight: 1,
		Doc: "while a handler or hook keeps a shutdown pending, sessions and connections are reported as they are; afterwards there are none",
		Body: func() {
			which := slowReqs[vsched.Choose(len(slowReqs))]
			s, t, a, b, finish := slowReq(which, 2)
			ca, cb := t.conns["a"].get(), t.conns["b"].get()
			sd := spawn("shutdown", func() { s.Shutdown() })
			vsched.Quiesce()
			conns := 1
			if which == "closed" {
				conns = -1 // the session is about to end
			}
			if conns > 0 {
				if n := s.ActiveSessionsNum(); n != 1 {
					fail("%d active sessions, want 1 while the shutdown is pending", n)
				}
				if n, l := s.SessionConnectionsNum("K"), s.SessionConnections("K"); n != 1 || len(l) != 1 || l[0] != ca {
					fail("session K has %d connections (%v), want 1 while the shutdown is pending", n, l)
				}
				if ca.SessionKey() != "K" || !ca.HasSession() || ca.Session() == nil || ca.SessionInfo("k") != "K" || !ca.SessionCreation().Equal(sessTime) {
					fail("the connection has no session while the shutdown is pending: %v", ca.Session())
				}
			}
			if cb.HasSession() {
				fail("a connection got a session")
			}
			finish()
			sd.join()
			vsched.Quiesce()
			slowAnswer("at the end", which, a, b)
			if n := s.ActiveSessionsNum(); n != 0 {
				fail("%d active sessions after the shutdown", n)
			}
			for i, c := range []wwr.Connection{ca, cb} {
				if c.IsActive() || c.HasSession() || c.Session() != nil {
					fail("connection %d is active (%v) or has a session (%v) after the shutdown", i, c.IsActive(), c.Session())
				}
			}
		}})
}

func init() {
	add(&Scenario{Prop: "C11", Name: "early", Bounds: [2]int{2, 3}, Weight: 1,
		Doc: "a connection ends (hangup, failing read, shutdown) while it's being established: the connected hook is invoked once and before the disconnected hook, or neither is",
		Body: func() {
			how := vsched.Choose(3)
			l := newLifecycle()
			s, n := server(l.impl, noSessions())
			p := n.Connect("a", connOpts("a", 1))
			switch how {
			case 0:
				p.Hangup()
			case 1:
				p.FailRead(rerr{false, errors.New("broken")})
			case 2:
				s.Shutdown()
			}
			vsched.Quiesce()
			c, d := l.h.count("conn:a"), l.h.count("disc:a")
			if c != d || c > 1 {
				fail("the connected hook was invoked %d times, the disconnected hook %d times", c, d)
			}
			if c == 1 {
				l.check("a", true)
			}
			if !p.closed {
				fail("the socket is open")
			}
			outcome("%d %d", how, c)
		}})

	add(&Scenario{Prop: "C11", Name: "memmalformed", Bounds: [2]int{0, 1},
		Doc: "in-memory transport: every kind of malformed message ends its connection and no other",
		Body: func() {
			m := malformedMsgs[1+vsched.Choose(len(malformedMsgs)-1)]
			l := newLifecycle()
			i := 0
			_, tr := memServer(l.impl, noSessions(), func() wwr.ConnectionOptions {
				i++
				return connOpts([]string{"a", "b"}[i-1], 2)
			})
			a, b := mustDial(tr, "a"), mustDial(tr, "b")
			a.Send(m)
			vsched.Quiesce()
			a.Send(req(1, "x"))
			b.Send(req(1, "x"))
			vsched.Quiesce()
			l.check("a", true)
			l.check("b", false)
			if !a.Ended() || a.sock.IsConnected() {
				fail("% x: the client is still connected", m)
			}
			if l.h.count("msg:a") > 0 {
				fail("% x: a message after it was handled", m)
			}
			exactly(b.Got(), 1, replyOf(eBin, "ok")(reqID(1)))
		}})

	add(&Scenario{Prop: "C14", Name: "refreshed", Bounds: [2]int{0, 1},
		Doc: "the stored session changes (information, times) between restorations on the same or another connection: each restoration's reply and the restoring connection have what's stored then, other connections keep theirs",
		Body: func() {
			st := newStore()
			t := newTracker()
			_, n := server(t.impl, st.options())
			ps := []*Peer{n.Connect("a", connOpts("a", 1)), n.Connect("b", connOpts("b", 2))}
			cs := []wwr.Connection{t.conns["a"].get(), t.conns["b"].get()}
			mod := &sessModel{}
			has := []*srec{nil, nil}
			for i := 1; i <= 3; i++ {
				x := vsched.Choose(2)
				rec := &srec{creation: sessTime.Add(time.Duration(i) * time.Minute), lookup: sessTime.Add(time.Duration(i) * time.Hour),
					info: map[string]interface{}{"round": float64(i)}}
				switch vsched.Choose(3) {
				case 1:
					rec.info = nil
				case 2:
					rec.info["more"] = "x"
				}
				vsched.Log(func() { st.recs["K"] = rec })
				l := rec.lookup
				ps[x].Send(encNameless(tRestoreSession, reqID(i), "K"))
				vsched.Quiesce()
				r := repliesTo(ps[x].Got(), reqID(i))
				if len(r) != 1 || r[0].typ != tReplyUtf8 {
					fail("restoring was answered with [%s]", show(r))
				}
				mod.trace = append(mod.trace, fmt.Sprintf("restore %d on %d", i, x))
				mod.checkJSON(r[0].payload, &msess{key: "K", creation: rec.creation, info: rec.info}, l)
				has[x] = &srec{creation: rec.creation, lookup: l, info: rec.info}
				for j, h := range has {
					s := cs[j].Session()
					if h == nil {
						if s != nil {
							fail("connection %d has a session", j)
						}
						continue
					}
					if s == nil || s.Key != "K" || !s.Creation.Equal(h.creation) || !s.LastLookup.Equal(h.lookup) ||
						!cs[j].SessionCreation().Equal(h.creation) || !sameInfo(wwr.SessionInfoToVarMap(s.Info), h.info) {
						fail("after %v connection %d has session %+v, want %+v", mod.trace, j, s, h)
					}
					for _, k := range []string{"round", "more"} {
						if got := cs[j].SessionInfo(k); got != h.info[k] {
							fail("after %v connection %d has field %s = %v, want %v", mod.trace, j, k, got, h.info[k])
						}
					}
				}
			}
		}})

	add(&Scenario{Prop: "C14", Name: "bykey", Bounds: [2]int{0, 1},
		Doc: "a session on 1 to 6 connections is closed by key: it has ended on all of them and was destroyed when the call returns",
		Body: func() {
			num := 1 + vsched.Choose(6)
			names := []string{"a", "b", "c", "d", "e", "f"}[:num]
			w := newWorld(0, names...)
			w.put("K")
			for _, x := range names {
				w.setup(x, "K")
			}
			cs, errs, err := w.srv.CloseSession("K")
			if len(cs) != num || len(errs) != num || err != nil {
				fail("closing: %d connections, %d results, %v", len(cs), len(errs), err)
			}
			for _, x := range names {
				if w.c[x].HasSession() || w.c[x].SessionKey() != "" {
					fail("%d connections: connection %s still has the session", num, x)
				}
			}
			if w.srv.ActiveSessionsNum() != 0 || w.srv.SessionConnectionsNum("K") != -1 || w.sm.closedCount("K") != 1 {
				fail("%d connections: the session is still active or wasn't destroyed", num)
			}
		}})

	add(&Scenario{Prop: "C14", Name: "generated", Bounds: [2]int{0, 0}, Steps: 100000000,
		Doc: "300000 keys of the default generator and 100 sessions created with it: no key occurs twice",
		Body: func() {
			g := wwr.NewDefaultSessionKeyGenerator()
			seen := map[string]bool{}
			for i := 0; i < 300000; i++ {
				k := g.Generate()
				if k == "" || seen[k] {
					fail("key %q was generated twice (or is empty)", k)
				}
				seen[k] = true
			}
			st := newStore()
			o := st.options()
			o.SessionKeyGenerator = nil
			t := newTracker()
			_, n := server(t.impl, o)
			n.Connect("a", connOpts("a", 1))
			c := t.conns["a"].get()
			for i := 0; i < 100; i++ {
				if err := c.CreateSession(nil); err != nil {
					fail("creating session %d: %v", i, err)
				}
				k := c.SessionKey()
				if k == "" || seen[k] {
					fail("session key %q was generated twice (or is empty)", k)
				}
				seen[k] = true
				c.CloseSession()
			}
		}})

	add(&Scenario{Prop: "C19", Name: "numbers",
		Doc: "information of 0 to 70000 fields and lists of up to 70000 elements: copies are complete and independent",
		Seq: func(c *Seq) {
			for _, num := range []int{0, 1, 2, 15, 16, 17, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1023, 1024, 1025, 4096, 5000, 65535, 65536, 70000} {
				for _, kind := range []string{"fields", "list", "strings", "bytes", "map"} {
					if !c.Try("%d %s", num, kind) {
						continue
					}
					d := map[string]interface{}{}
					list := make([]interface{}, num)
					strs := make([]string, num)
					bs := make([]byte, num)
					m := map[string]interface{}{}
					for i := 0; i < num; i++ {
						k := fmt.Sprint(i)
						switch kind {
						case "fields":
							d[k] = []interface{}{i}
						case "list":
							list[i] = []int{i}
						case "strings":
							strs[i] = k
						case "bytes":
							bs[i] = byte(i)
						case "map":
							m[k] = []int{i}
						}
					}
					switch kind {
					case "list":
						d["x"] = list
					case "strings":
						d["x"] = strs
					case "bytes":
						d["x"] = bs
					case "map":
						d["x"] = m
					}
					in := wwr.GenericSessionInfoParser(d)
					cp := in.Copy()
					for _, s := range []wwr.SessionInfo{in, cp} {
						c.Ops++
						if len(s.Fields()) != len(d) || !sameInfo(wwr.SessionInfoToVarMap(s), d) {
							c.Fail("the information has %d fields, want %d, or differs", len(s.Fields()), len(d))
						}
					}
					if num == 0 {
						continue
					}
					switch kind {
					case "fields":
						for i := 0; i < num; i++ {
							cp.Value(fmt.Sprint(i)).([]interface{})[0] = "spoiled"
							d[fmt.Sprint(i)].([]interface{})[0] = "changed"
						}
					case "list":
						for i, x := range cp.Value("x").([]interface{}) {
							x.([]int)[0] = -1
							list[i].([]int)[0] = -2
						}
					case "strings":
						l := cp.Value("x").([]string)
						for i := range l {
							l[i], strs[i] = "spoiled", "changed"
						}
					case "bytes":
						l := cp.Value("x").([]byte)
						for i := range l {
							l[i], bs[i] = l[i]+1, bs[i]+2
						}
					case "map":
						l := cp.Value("x").(map[string]interface{})
						for i := 0; i < num; i++ {
							l[fmt.Sprint(i)].([]int)[0] = -1
							m[fmt.Sprint(i)].([]int)[0] = -2
						}
					}
					for i := 0; i < num; i++ {
						ok := true
						if kind == "fields" {
							ok = cp.Value(fmt.Sprint(i)).([]interface{})[0] == i
						}
						if !ok {
							c.Fail("field %d of a copy was changed", i)
						}
					}
					switch kind {
					case "list":
						for i, x := range cp.Value("x").([]interface{}) {
							if x.([]int)[0] != i {
								c.Fail("element %d of a copy was changed", i)
							}
						}
					case "strings":
						for i, x := range cp.Value("x").([]string) {
							if x != fmt.Sprint(i) {
								c.Fail("element %d of a copy was changed", i)
							}
						}
					case "bytes":
						for i, x := range cp.Value("x").([]byte) {
							if x != byte(i) {
								c.Fail("element %d of a copy was changed", i)
							}
						}
					case "map":
						l := cp.Value("x").(map[string]interface{})
						for i := 0; i < num; i++ {
							if l[fmt.Sprint(i)].([]int)[0] != i {
								c.Fail("element %d of a copy was changed", i)
							}
						}
					}
					c.Outcome(kind)
				}
			}
		}})

	add(&Scenario{Prop: "C22", Name: "redialled", Bounds: [2]int{1, 2},
		Doc: "a client's write that is cut off in every way (writer never closed before the close, blocked flush, overflow, message rejected by its reader), then a redial: the messages written on the new connection arrive exactly as written",
		Body: func() {
			n := newRawNet(64, nil)
			c := n.client()
			if err := c.Dial(time.Time{}); err != nil {
				fail("Dial: %v", err)
			}
			how := vsched.Choose(4)
			byServer := vsched.Choose(2) == 1
			old := n.sock(0)
			cut := func() {
				if byServer {
					old.Close()
				} else {
					c.Close()
				}
			}
			var ts []*task
			switch how {
			case 0:
				w, err := c.GetWriter()
				if err != nil {
					fail("GetWriter: %v", err)
				}
				w.Write([]byte(sigMsg("cut")[:3]))
				cut()
				if w.Close() == nil {
					fail("a message was flushed into a closed connection")
				}
			case 1:
				ts = append(ts, spawn("write", func() {
					if put(c, sigMsg("cut")) == nil {
						fail("a message that nobody read was written")
					}
				}))
				vsched.Quiesce()
				cut()
			case 2:
				if put(c, sigMsg("cut"), strings.Repeat("o", 100)) == nil {
					fail("an overflowing message was written")
				}
				cut()
			case 3:
				ts = append(ts, spawn("write", func() { put(c, "\x00garbage") }))
				old.Read(message.NewMessage(64), time.Time{})
				cut()
			}
			allJoined(ts...)
			if err := c.Dial(time.Time{}); err != nil {
				fail("redialing: %v", err)
			}
			b := readAll(n.sock(1), "srv", 64)
			for _, m := range []string{"one", "two"} {
				m := m
				allJoined(spawn("write-"+m, func() {
					if err := put(c, sigMsg(m)); err != nil {
						fail("writing %s on the new connection: %v", m, err)
					}
				}))
			}
			if g := b.msgs(); len(g) != 2 || g[0] != sigMsg("one") || g[1] != sigMsg("two") {
				fail("the new connection received %q", g)
			}
			outcome("%d %v", how, byServer)
		}})

	add(&Scenario{Prop: "C23", Name: "past", Bounds: [2]int{1, 2}, Timed: true,
		Doc: "reads whose deadline lies in the past, however far: they fail without waiting and close the connection",
		Body: func() {
			n := newRawNet(64, nil)
			s, c := n.pair()
			d := []time.Time{
				vtimeAt(vsched.Now() - 1),
				vtimeAt(vsched.Now() - int64(time.Hour)),
				time.Unix(1, 0),
				time.Unix(0, 0),
				time.Unix(-1, 0),
				time.Date(1900, 1, 1, 0, 0, 0, 0, time.UTC),
				time.Date(1, 1, 2, 0, 0, 0, 0, time.UTC),
			}[vsched.Choose(7)]
			side := []wwr.Socket{s, c}[vsched.Choose(2)]
			t0 := vsched.Now()
			var err wwr.ErrSockRead
			r := spawn("read", func() { err = side.Read(message.NewMessage(64), d) })
			vsched.AdvanceNext(t0 + int64(time.Second))
			vsched.Quiesce()
			if !r.isDone() {
				fail("a read whose deadline was %v is still waiting", d.UTC())
			}
			if err == nil || err.IsCloseErr() {
				fail("a read whose deadline was %v ended with %v", d.UTC(), err)
			}
			dead("server socket", s)
			dead("client socket", c)
		}})

	add(&Scenario{Prop: "C24", Name: "crowd", Bounds: [2]int{0, 0}, Delay: true, Steps: 10000000,
		Doc: "300 clients on one in-memory transport: every dial is accepted without waiting for the other connections, each is served independently and the closure of one affects no other",
		Body: func() {
			t := newTracker()
			_, tr := memServer(t.impl, noSessions(), func() wwr.ConnectionOptions { return wwr.ConnectionOptions{ConcurrencyLimit: 2} })
			const count = 300
			var cs []*memClient
			dialer := spawn("dialer", func() {
				for i := 0; i < count; i++ {
					cs = append(cs, mustDial(tr, fmt.Sprint("c", i)))
				}
			})
			allJoined(dialer)
			for i, c := range cs {
				if err := c.Send(req(i+1, fmt.Sprint("x", i))); err != nil {
					fail("client %d: Send: %v", i, err)
				}
			}
			vsched.Quiesce()
			for i := 0; i < count; i += 3 {
				cs[i].sock.Close()
			}
			vsched.Quiesce()
			for i, c := range cs {
				if closed := i%3 == 0; c.sock.IsConnected() == closed {
					fail("client %d of %d: connected %v", i, count, !closed)
				}
				exactly(c.Got(), i+1, handled(fmt.Sprint("x", i), i+1))
			}
			if err := cs[1].Send(req(1000, "again")); err != nil {
				fail("Send: %v", err)
			}
			vsched.Quiesce()
			exactly(cs[1].Got(), 1000, handled("again", 1000))
		}})
}
