package harness

import (
	"errors"
	"fmt"
	"strings"

	wwr "github.com/qbeon/webwire-go"

	"verif/vsched"
)

// noStore is a session manager and key generator that must not be used.
type noStore struct{ used []string }

func (s *noStore) OnSessionCreated(wwr.Connection) error {
	s.used = append(s.used, "created")
	return nil
}

func (s *noStore) OnSessionLookup(key string) (wwr.SessionLookupResult, error) {
	s.used = append(s.used, "lookup")
	return wwr.NewSessionLookupResult(sessTime, sessTime, nil), nil
}

func (s *noStore) OnSessionClosed(string) error {
	s.used = append(s.used, "closed")
	return nil
}

func (s *noStore) Generate() string {
	s.used = append(s.used, "generate")
	return "GEN"
}

// disabledWorld is a server without sessions.
type disabledWorld struct {
	srv   wwr.Server
	t     *tracker
	p     []*Peer
	c     []wwr.Connection
	seen  []int
	gone  []bool
	reqs  int
	store *noStore
	job   func()
	runs  int
	trace []string
}

func newDisabled(cfg, conns int) *disabledWorld {
	w := &disabledWorld{t: newTracker(), store: &noStore{}}
	w.t.impl.Req = func(c wwr.Connection, m wwr.Message) (wwr.Payload, error) {
		w.runs++
		if w.job != nil {
			w.job()
		}
		return wwr.Payload{Data: []byte("done")}, nil
	}
	w.t.impl.Sig = func(c wwr.Connection, m wwr.Message) {
		w.runs++
		if w.job != nil {
			w.job()
		}
	}
	o := noSessions()
	if cfg == 1 {
		o.SessionManager, o.SessionKeyGenerator = w.store, w.store
		o.SessionInfoParser = wwr.GenericSessionInfoParser
		o.MaxSessionConnections = 1
	}
	var n *Net
	w.srv, n = server(w.t.impl, o)
	for i := 0; i < conns; i++ {
		x := string(rune('a' + i))
		w.p = append(w.p, n.Connect(x, connOpts(x, []int{1, 2, -1}[i])))
		w.c = append(w.c, w.t.conns[x].get())
		w.seen = append(w.seen, 1)
		w.gone = append(w.gone, false)
	}
	vsched.Quiesce()
	w.check("at the start")
	return w
}

func (w *disabledWorld) fail(format string, args ...any) {
	fail("%s\nafter: %s", fmt.Sprintf(format, args...), strings.Join(w.trace, "; "))
}

// disabledOps are the operations on one connection.
var disabledOps = []string{"create", "createinfo", "close", "srvclose", "restore", "restoreempty", "reqclose",
	"request", "signal", "createinreq", "closeinreq", "createinsig", "closeinsig", "srvcloseinreq", "conclose", "hangup"}

func wantDisabled(w *disabledWorld, what string, err error, gone bool) {
	var d wwr.ErrSessionsDisabled
	var e wwr.ErrDisconnected
	if errors.As(err, &d) || gone && errors.As(err, &e) {
		return
	}
	w.fail("%s returned %v (%T) although sessions are disabled", what, err, err)
}

// step performs an operation on connection i.
func (w *disabledWorld) step(i int, op string) {
	w.trace = append(w.trace, fmt.Sprintf("%s %c", op, 'a'+i))
	c, p := w.c[i], w.p[i]
	var want []string
	runs := w.runs
	create := func(info wwr.SessionInfo) func() {
		return func() { wantDisabled(w, "CreateSession", c.CreateSession(info), w.gone[i]) }
	}
	closeIt := func() {
		wantDisabled(w, "CloseSession", c.CloseSession(), w.gone[i])
	}
	srvclose := func() {
		for _, k := range []string{"", "K", "GEN"} {
			a, es, err := w.srv.CloseSession(k)
			if a != nil || es != nil && len(es) > 0 || err != nil {
				w.fail("Server.CloseSession(%q) returned %v, %v, %v", k, a, es, err)
			}
		}
	}
	id := func() string {
		w.reqs++
		return reqID(w.reqs)
	}
	request := func(f func()) {
		w.job = f
		x := id()
		p.Send(encRequest(x, "job", eBin, ""))
		want = append(want, fmt.Sprintf("reply(%s,0,\"done\")", x))
		runs++
	}
	signal := func(f func()) {
		w.job = f
		p.Send(encSignal("job", eBin, "x"))
		runs++
	}
	refuse := func(t int, payload string) {
		x := id()
		p.Send(encNameless(t, x, payload))
		want = append(want, "disabled("+x+")")
	}
	switch op {
	case "create":
		create(nil)()
	case "createinfo":
		create(wwr.GenericSessionInfoParser(map[string]interface{}{"a": "b"}))()
	case "close":
		closeIt()
	case "srvclose":
		srvclose()
	case "restore":
		refuse(tRestoreSession, "K")
	case "restoreempty":
		refuse(tRestoreSession, "GEN")
	case "reqclose":
		refuse(tCloseSession, "")
	case "request":
		request(nil)
	case "signal":
		signal(nil)
	case "createinreq":
		request(create(nil))
	case "closeinreq":
		request(closeIt)
	case "createinsig":
		signal(create(nil))
	case "closeinsig":
		signal(closeIt)
	case "srvcloseinreq":
		request(srvclose)
	case "conclose":
		c.Close()
	case "hangup":
		p.Hangup()
	}
	vsched.Quiesce()
	if w.gone[i] {
		runs, want = w.runs, nil // nothing sent on a closed connection arrives
	}
	if op == "conclose" || op == "hangup" {
		w.gone[i] = true
	}
	w.job = nil
	if w.runs != runs {
		w.fail("%d handlers ran, want %d", w.runs, runs)
	}
	for j := range w.p {
		got := w.p[j].Got()
		nw := got[w.seen[j]:]
		w.seen[j] = len(got)
		l := show(nw)
		exp := ""
		if j == i {
			exp = strings.Join(want, " ")
		}
		if l != exp {
			w.fail("client %c got [%s], want [%s]", 'a'+j, l, exp)
		}
	}
	w.check("afterwards")
}

func (w *disabledWorld) check(when string) {
	if len(w.store.used) > 0 {
		w.fail("%s: the session hooks %v were called although sessions are disabled", when, w.store.used)
	}
	for i, c := range w.c {
		if c.HasSession() || c.Session() != nil || c.SessionKey() != "" || !c.SessionCreation().IsZero() || c.SessionInfo("a") != nil {
			w.fail("%s: connection %c has a session: %v", when, 'a'+i, c.Session())
		}
		if c.IsActive() == w.gone[i] {
			w.fail("%s: connection %c: IsActive is %v", when, 'a'+i, c.IsActive())
		}
	}
	if n := w.srv.ActiveSessionsNum(); n != 0 {
		w.fail("%s: %d active sessions", when, n)
	}
	for _, k := range []string{"", "K", "GEN"} {
		if n := w.srv.SessionConnectionsNum(k); n != -1 {
			w.fail("%s: session %q has %d connections", when, k, n)
		}
		if l := w.srv.SessionConnections(k); l != nil {
			w.fail("%s: session %q has connections %v", when, k, l)
		}
	}
}

func (w *disabledWorld) explore(depth int) {
	for d := 0; d < depth; d++ {
		i := vsched.Choose(len(w.c))
		w.step(i, disabledOps[vsched.Choose(len(disabledOps))])
	}
	outcome("gone %v", w.gone)
}

func init() {
	add(&Scenario{Prop: "C20", Name: "sequences", Bounds: [2]int{0, 0}, Weight: 3,
		Doc:  "every sequence of 3 operations (session creation and closure directly and inside handlers, closure by key, restoration and closure requests, requests, signals, hangup, close) on 2 connections, with and without a session manager configured",
		Body: func() { newDisabled(vsched.Choose(2), 2).explore(3) }})
	add(&Scenario{Prop: "C20", Name: "depth4", Bounds: [2]int{0, 0}, Weight: 6, ThoroughOnly: true,
		Doc:  "every sequence of 4 operations on 2 connections, without a session manager",
		Body: func() { newDisabled(0, 2).explore(4) }})
	add(&Scenario{Prop: "C20", Name: "concurrent", Bounds: [2]int{2, 3}, Weight: 2,
		Doc: "every combination of three concurrent session operations on one connection of a server without sessions: the refusals are the same and other requests are answered",
		Body: func() {
			w := newDisabled(1, 2)
			acts := []func() string{
				func() string { wantDisabled(w, "CreateSession", w.c[0].CreateSession(nil), false); return "" },
				func() string { wantDisabled(w, "CloseSession", w.c[0].CloseSession(), false); return "" },
				func() string { w.srv.CloseSession("K"); return "" },
				func() string {
					w.p[0].Send(encNameless(tRestoreSession, reqID(1), "K"))
					return "disabled(" + reqID(1) + ")"
				},
				func() string {
					w.p[0].Send(encNameless(tCloseSession, reqID(2), ""))
					return "disabled(" + reqID(2) + ")"
				},
				func() string {
					w.p[0].Send(encRequest(reqID(3), "j", eBin, ""))
					return "reply(" + reqID(3) + ",0,\"done\")"
				},
			}
			x := vsched.Choose(len(acts))
			y := x + vsched.Choose(len(acts)-x)
			z := y + vsched.Choose(len(acts)-y)
			if x == y || y == z {
				return
			}
			want := make([]string, 3)
			var ts []*task
			for i, a := range []int{x, y, z} {
				i, a := i, a
				ts = append(ts, spawn(fmt.Sprint("act", a), func() { want[i] = acts[a]() }))
			}
			joinAll(ts...)
			vsched.Quiesce()
			got := w.p[0].Got()[1:]
			n := 0
			for _, e := range want {
				if e == "" {
					continue
				}
				n++
				k := 0
				for _, g := range got {
					if g.String() == e {
						k++
					}
				}
				if k != 1 {
					w.fail("the client got [%s], want %v", show(got), want)
				}
			}
			if n != len(got) {
				w.fail("the client got [%s], want %v", show(got), want)
			}
			w.check("afterwards")
		}})
}
