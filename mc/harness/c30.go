package harness

import (
	"context"
	"errors"
	"fmt"
	"log"
	"strings"

	wwr "github.com/qbeon/webwire-go"

	"verif/vsched"
)

// logSink records log entries.
type logSink struct {
	o vsched.Obj
	l []string
}

func (s *logSink) Write(b []byte) (int, error) {
	// not a scheduling point: the logger holds its lock
	s.l = append(s.l, string(b))
	return len(b), nil
}

// has counts the entries containing a text.
func (s *logSink) has(text string) (n int) {
	vsched.Op("log.look", &s.o, nil, func() {
		for _, e := range s.l {
			if strings.Contains(e, text) {
				n++
			}
		}
	})
	return
}

// stringer is a value a hook may panic with.
type stringer struct{ s string }

func (s stringer) String() string { return s.s }

type ptrErr struct{ s string }

func (e *ptrErr) Error() string { return e.s }

// logErrs are the errors of a hook or handler whose text is t.
var logErrs = []func(t string) error{
	func(t string) error { return errors.New(t) },
	func(t string) error { return fmt.Errorf("wrapped: %w", errors.New(t)) },
	func(t string) error { return &ptrErr{t} },
	func(t string) error { return fmt.Errorf("%s: %w", t, context.Canceled) },
	func(t string) error { return wwr.ErrDisconnected{Cause: errors.New(t)} },
	func(t string) error { return errors.New(t + " 100% %s %d %!v") },
	func(t string) error { return errors.New("line 1\n" + t) },
}

// logPanics are the values a hook panics with.
var logPanics = []func(t string) interface{}{
	func(t string) interface{} { return t },
	func(t string) interface{} { return errors.New(t) },
	func(t string) interface{} { return stringer{t} },
	func(t string) interface{} { return []string{t} },
}

// logActs are operations during which a hook or handler fails.
var logActs = []struct {
	name string
	hook string
	conn string
	f    func(w *sworld)
}{
	{"request", "request", "a", func(w *sworld) { w.p["a"].Send(req(90, "fail")) }},
	{"create", "created", "b", func(w *sworld) { w.c["b"].CreateSession(nil) }},
	{"restore", "lookup", "b", func(w *sworld) { w.restore("b", "L") }},
	{"restoreown", "lookup", "a", func(w *sworld) { w.restore("a", "K") }},
	{"CloseSession", "closed", "a", func(w *sworld) { w.c["a"].CloseSession() }},
	{"reqclose", "closed", "a", func(w *sworld) { w.reqClose("a") }},
	{"srv.CloseSession", "closed", "a", func(w *sworld) { w.srv.CloseSession("K") }},
}

// newLogWorld is a world that logs; every failure text contains its hook.
func newLogWorld(limit int) (w *sworld, elog, wlog *logSink, fail func(hook string, err error, pan interface{})) {
	w = newWorld(0)
	elog, wlog = &logSink{}, &logSink{}
	w.names = []string{"a", "b"}
	var reqErr error
	req := w.t.impl.Req
	w.t.impl.Req = func(c wwr.Connection, m wwr.Message) (wwr.Payload, error) {
		if string(m.Name()) == "fail" && reqErr != nil {
			return wwr.Payload{}, reqErr
		}
		return req(c, m)
	}
	o := w.sm.options()
	o.ErrorLog, o.WarnLog = log.New(elog, "E ", 0), log.New(wlog, "W ", 0)
	var n *Net
	w.srv, n = server(w.t.impl, o)
	for _, x := range w.names {
		w.p[x] = n.Connect(x, connOpts(x, limit))
		w.c[x] = w.t.conns[x].get()
	}
	vsched.Quiesce()
	w.put("K", "L")
	w.setup("a", "K")
	return w, elog, wlog, func(hook string, err error, pan interface{}) {
		switch hook {
		case "request":
			reqErr = err
		case "created":
			w.sm.failCreate = err
		case "lookup":
			w.sm.failLookup = err
		case "closed":
			w.sm.failClose = err
			if pan != nil {
				w.sm.panicClose, w.sm.panicWith = true, pan
			}
		}
	}
}

func init() {
	add(&Scenario{Prop: "C30", Name: "failures", Bounds: [2]int{2, 3},
		Doc: "every hook and handler failing with every kind of error or (session destruction) panic, for every operation that invokes it: the text is logged to the configured error log",
		Body: func() {
			act := logActs[vsched.Choose(len(logActs))]
			w, elog, _, inject := newLogWorld([]int{1, 2}[vsched.Choose(2)])
			kinds := len(logErrs)
			if act.hook == "closed" {
				kinds += len(logPanics)
			}
			k := vsched.Choose(kinds)
			text := "cause-of-" + act.name
			want := text
			if k < len(logErrs) {
				err := logErrs[k](text)
				want = err.Error()
				inject(act.hook, err, nil)
			} else {
				inject(act.hook, nil, logPanics[k-len(logErrs)](text))
			}
			allJoined(spawn(act.name, func() { act.f(w) }))
			vsched.Quiesce()
			if elog.has(want) == 0 {
				fail("%s: the hook or handler (%s) failed with %q, but the error log is %q", act.name, act.hook, want, elog.l)
			}
			outcome("%s", act.hook)
		}})
	add(&Scenario{Prop: "C30", Name: "pairs", Bounds: [2]int{1, 2}, Weight: 2,
		Doc: "two different failures at the same time, next to a hangup, a close or a shutdown or undisturbed: both are logged exactly when their hook or handler ran",
		Body: func() {
			x := vsched.Choose(len(logActs))
			y := vsched.Choose(len(logActs))
			if y <= x || logActs[x].hook == logActs[y].hook {
				return
			}
			w, elog, _, inject := newLogWorld(2)
			var ran []string
			before := len(w.sm.events())
			d := vsched.Choose(4)
			for _, i := range []int{x, y} {
				e := &noted{text: "cause-of-" + logActs[i].hook}
				inject(logActs[i].hook, e, nil)
			}
			w.t.impl.Req = func(base func(wwr.Connection, wwr.Message) (wwr.Payload, error)) func(wwr.Connection, wwr.Message) (wwr.Payload, error) {
				return func(c wwr.Connection, m wwr.Message) (wwr.Payload, error) {
					vsched.Log(func() { ran = append(ran, "request") })
					return base(c, m)
				}
			}(w.t.impl.Req)
			var ts []*task
			for _, i := range []int{x, y} {
				i := i
				ts = append(ts, spawn(logActs[i].name, func() { logActs[i].f(w) }))
			}
			switch d {
			case 1:
				ts = append(ts, spawn("hangup", func() { w.p["a"].Hangup() }))
			case 2:
				ts = append(ts, spawn("close", func() { w.c["b"].Close() }))
			case 3:
				ts = append(ts, spawn("shutdown", func() { w.srv.Shutdown() }))
			}
			allJoined(ts...)
			vsched.Quiesce()
			for _, e := range w.sm.events()[before:] {
				h := e[:strings.Index(e+":", ":")]
				ran = append(ran, h)
			}
			all := " " + strings.Join(ran, " ") + " "
			for _, i := range []int{x, y} {
				h := logActs[i].hook
				n := strings.Count(all, " "+h+" ")
				if h == "created" {
					n = strings.Count(all, " creating ")
				}
				if l := elog.has("cause-of-" + h); l < n || n == 0 && l > 0 {
					fail("the hook or handler (%s) failed %d times, its error was logged %d times: %q", h, n, l, elog.l)
				}
			}
			outcome("%d entries", len(elog.l))
		}})
}

func init() {
	replies := []struct {
		name string
		f    func(w *sworld)
	}{
		{"reply", func(w *sworld) { w.p["a"].Send(req(90, "r")) }},
		{"error reply", func(w *sworld) { w.p["a"].Send(req(90, "refuse")) }},
		{"internal error", func(w *sworld) { w.p["a"].Send(req(90, "fail")) }},
		{"restored session", func(w *sworld) { w.restore("a", "L") }},
		{"unknown session", func(w *sworld) { w.restore("a", "none") }},
		{"full session", func(w *sworld) { w.restore("a", "F") }},
		{"failed lookup", func(w *sworld) { w.sm.failLookup = errHook; w.restore("a", "L") }},
		{"closure", func(w *sworld) { w.reqClose("a") }},
		{"shutdown", func(w *sworld) {
			g := spawn("shutdown", func() { w.srv.Shutdown() })
			vsched.Quiesce()
			w.p["a"].Send(req(91, "late"))
			vsched.Quiesce()
			w.t.g.release("held")
			allJoined(g)
		}},
		{"disabled sessions", func(w *sworld) { w.restore("a", "L") }},
		{"disabled closure", func(w *sworld) { w.reqClose("a") }},
	}
	add(&Scenario{Prop: "C30", Name: "replies", Bounds: [2]int{1, 2},
		Doc: "every kind of reply can't be delivered because getting the writer, writing or flushing fails: the failure is logged",
		Body: func() {
			r := replies[vsched.Choose(len(replies))]
			at := failures[vsched.Choose(len(failures))]
			w := newWorld(0)
			elog := &logSink{}
			w.t.gated["held"] = true
			base := w.t.impl.Req
			w.t.impl.Req = func(c wwr.Connection, m wwr.Message) (wwr.Payload, error) {
				switch string(m.Name()) {
				case "fail":
					return wwr.Payload{}, errors.New("unexpected")
				case "refuse":
					return wwr.Payload{}, wwr.ErrRequest{Code: "C"}
				}
				return base(c, m)
			}
			o := w.sm.options()
			o.ErrorLog, o.WarnLog = log.New(elog, "", 0), log.New(elog, "", 0)
			o.MaxSessionConnections = 1
			if strings.HasPrefix(r.name, "disabled") {
				o.Sessions = wwr.Disabled
			}
			var n *Net
			w.srv, n = server(w.t.impl, o)
			for _, x := range []string{"a", "b"} {
				w.p[x] = n.Connect(x, connOpts(x, 1))
				w.c[x] = w.t.conns[x].get()
			}
			w.put("L", "F")
			if o.Sessions != wwr.Disabled {
				w.setup("b", "F")
			}
			if r.name == "shutdown" {
				w.p["b"].Send(req(92, "held"))
			}
			vsched.Quiesce()
			w.p["a"].failAt, w.p["a"].failWrites = at, -1
			r.f(w)
			vsched.Quiesce()
			if len(w.p["a"].msgs) > 1 {
				fail("harness: the message was delivered")
			}
			if elog.has(errIO.Error()) == 0 {
				fail("a %s couldn't be delivered (%s failed), but the logs are %q", r.name, at, elog.l)
			}
			outcome("%s", r.name)
		}})
	add(&Scenario{Prop: "C30", Name: "transport", Bounds: [2]int{1, 2},
		Doc: "failing handshakes, failing closures of their sockets and abnormal ends of connections are logged with their causes, each in the log of its server",
		Body: func() {
			at := vsched.Choose(len(failures) + 1)
			closing := vsched.Choose(2) == 1
			t := newTracker()
			elog, wlog, other := &logSink{}, &logSink{}, &logSink{}
			o := noSessions()
			o.ErrorLog, o.WarnLog = log.New(elog, "", 0), log.New(wlog, "", 0)
			_, n := server(t.impl, o)
			o.ErrorLog, o.WarnLog = log.New(other, "", 0), log.New(other, "", 0)
			_, n2 := server(t.impl, o)
			p := n.ConnectWith("a", connOpts("a", 1), func(p *Peer) {
				if at < len(failures) {
					p.failAt, p.failWrites = failures[at], -1
				}
				if closing {
					p.closeErr = errors.New("socket can't be closed")
				}
			})
			q := n2.Connect("b", connOpts("b", 1))
			if at == len(failures) {
				vsched.Quiesce()
				p.FailRead(rerr{false, errors.New("cable unplugged")})
			}
			vsched.Quiesce()
			if at == len(failures) {
				if elog.has("cable unplugged")+wlog.has("cable unplugged") == 0 {
					fail("a connection broke (cable unplugged), but the logs are %q and %q", elog.l, wlog.l)
				}
			} else {
				if elog.has(errIO.Error()) == 0 {
					fail("the handshake failed (%s), but the error log is %q", failures[at], elog.l)
				}
				if closing && elog.has("socket can't be closed") == 0 {
					fail("the socket of a failed handshake couldn't be closed, but the error log is %q", elog.l)
				}
			}
			q.Hangup()
			vsched.Quiesce()
			if len(other.l) > 0 {
				fail("the log of another server, whose connection ended normally, is %q", other.l)
			}
			outcome("%d %v", at, closing)
		}})
}

// noted is an error.
type noted struct{ text string }

func (n *noted) Error() string { return n.text }
