package harness

import (
	"errors"
	"strings"
	"time"

	wwr "github.com/qbeon/webwire-go"
	"github.com/qbeon/webwire-go/transport/memchan"

	"verif/vsched"
)

// stall blocks the first thread that comes by a point.
type stall struct {
	o    vsched.Obj
	at   string
	open bool
	hit  bool
}

func (s *stall) pass(point string) {
	if s == nil || s.at != point {
		return
	}
	first := false
	vsched.Op("stall", &s.o, nil, func() {
		if !s.hit {
			s.hit, first = true, true
		}
	})
	if first {
		vsched.Op("stalled", &s.o, func() bool { return s.open }, nil)
	}
}

func (s *stall) end() { vsched.Op("unstall", &s.o, nil, func() { s.open = true }) }

// slowWorld is a server one of whose hooks, handlers or clients doesn't proceed.
type slowWorld struct {
	*sworld
	net     *Net
	s       *stall
	creator int // the thread that creates a session on a
	fresh   map[string]*Peer
	strict  bool
	touched bool // other operations are called on a too
}

// slowPoints are what can be slow, and how it comes into play.
var slowPoints = []struct {
	name  string
	point string
	f     func(w *slowWorld)
}{
	{"OnClientConnected", "OnClientConnected:c", func(w *slowWorld) { w.connect("c") }},
	{"OnRequest", "OnRequest:a", func(w *slowWorld) { w.p["a"].Send(req(80, "r")) }},
	{"OnSignal", "OnSignal:a", func(w *slowWorld) { w.p["a"].Send(sig("s")) }},
	{"OnClientDisconnected", "OnClientDisconnected:a", func(w *slowWorld) { w.p["a"].Hangup() }},
	{"OnClientDisconnected by Close", "OnClientDisconnected:a", func(w *slowWorld) { w.c["a"].Close() }},
	{"Generate", "Generate:a", func(w *slowWorld) { w.create() }},
	{"OnSessionCreated", "OnSessionCreated:a", func(w *slowWorld) { w.create() }},
	{"OnSessionLookup", "OnSessionLookup:M", func(w *slowWorld) { w.restore("a", "M") }},
	{"ParseInfo", "ParseInfo:M", func(w *slowWorld) { w.restore("a", "M") }},
	{"OnSessionClosed by connection", "OnSessionClosed:K", func(w *slowWorld) { w.c["a"].CloseSession() }},
	{"OnSessionClosed by client", "OnSessionClosed:K", func(w *slowWorld) { w.reqClose("a") }},
	{"OnSessionClosed by key", "OnSessionClosed:K", func(w *slowWorld) { w.srv.CloseSession("K") }},
	{"client during the handshake", "getwriter:c", func(w *slowWorld) { w.connect("c") }},
	{"client during the handshake's end", "flush:c", func(w *slowWorld) { w.connect("c") }},
	{"client during Signal", "getwriter:a", func(w *slowWorld) { w.c["a"].Signal([]byte("n"), wwr.Payload{}) }},
	{"client during Signal's write", "write:a", func(w *slowWorld) { w.c["a"].Signal([]byte("n"), wwr.Payload{}) }},
	{"client during Signal's end", "flush:a", func(w *slowWorld) { w.c["a"].Signal([]byte("n"), wwr.Payload{}) }},
	{"client during a reply", "getwriter:a", func(w *slowWorld) { w.p["a"].Send(req(80, "r")) }},
	{"client during a reply's end", "flush:a", func(w *slowWorld) { w.p["a"].Send(req(80, "r")) }},
	{"client during CreateSession", "getwriter:a", func(w *slowWorld) { w.create() }},
	{"client during CreateSession's end", "flush:a", func(w *slowWorld) { w.create() }},
	{"client during CloseSession", "getwriter:a", func(w *slowWorld) { w.c["a"].CloseSession() }},
	{"client during CloseSession's end", "flush:a", func(w *slowWorld) { w.c["a"].CloseSession() }},
	{"client during CloseSession by key", "getwriter:a", func(w *slowWorld) { w.srv.CloseSession("K") }},
	{"client during a restored session's reply", "flush:a", func(w *slowWorld) { w.restore("a", "M") }},
	{"client during an error reply", "flush:a", func(w *slowWorld) { w.p["a"].Send(req(80, "err")) }},
	{"client during an error reply (pointer)", "flush:a", func(w *slowWorld) { w.p["a"].Send(req(80, "errp")) }},
	{"client during an internal error reply", "flush:a", func(w *slowWorld) { w.p["a"].Send(req(80, "internal")) }},
	{"client during the reply instead of one that can't be sent", "getwriter:a", func(w *slowWorld) { w.p["a"].Send(req(80, "odd")) }},
	{"client during a failed restoration's reply", "flush:a", func(w *slowWorld) { w.restore("a", "nope") }},
	{"client during a closure's confirmation", "flush:a", func(w *slowWorld) { w.reqClose("a") }},
	{"client during a refusal of its closed connection", "", func(w *slowWorld) { w.refusal() }},
	{"socket being closed", "close:a", func(w *slowWorld) { w.c["a"].Close() }},
	{"socket being closed by hangup", "close:a", func(w *slowWorld) { w.p["a"].Hangup() }},
}

// check reports unexpected results of a single operation.
func (w *slowWorld) check(format string, args ...any) {
	if w.strict {
		fail(format, args...)
	}
}

func (w *slowWorld) create() {
	vsched.Log(func() { w.creator = vsched.ThreadID() })
	if err := w.c["a"].CreateSession(nil); err != nil && !w.touched {
		fail("CreateSession: %v", err)
	}
}

func (w *slowWorld) connect(name string) { w.open(name, 1) }

func (w *slowWorld) open(name string, limit int) {
	p := w.net.ConnectWith(name, connOpts(name, limit), func(p *Peer) {
		p.onIO = func(op string) { w.s.pass(op + ":" + name) }
	})
	vsched.Log(func() { w.fresh[name] = p })
}

func (w *slowWorld) ask(x string, p *Peer) {
	w.nreq[x]++
	id := 40 + w.nreq[x]
	p.Send(req(id, "q"))
	r, ok := p.AwaitReply(reqID(id))
	if ok && r != handled("q", id) {
		w.check("the request of %s was answered with [%s]", x, r)
	}
}

// refusal makes a connection, which is closed while a handler of it runs, be
// slow at being told so.
func (w *slowWorld) refusal() {
	w.open("c", -1)
	p := w.fresh["c"]
	c := w.t.conns["c"].get()
	p.Send(req(1, "hold"))
	w.t.conns["hold"].get()
	c.Close()
	vsched.Log(func() { w.s.at = "flush:c" })
	p.Send(req(2, "r"))
}

// slowActs are what others do meanwhile; each must come to its end.
var slowActs = []struct {
	name string
	f    func(w *slowWorld)
}{
	{"request", func(w *slowWorld) { w.ask("b", w.p["b"]) }},
	{"signal", func(w *slowWorld) {
		w.p["b"].Send(sig("b-signal"))
		w.p["b"].Send(heartbeat)
		w.ask("b", w.p["b"])
		if w.t.h.count("end:b-signal") != 1 {
			w.check("the signal of b wasn't handled: %s", w.t.h)
		}
	}},
	{"Signal", func(w *slowWorld) {
		if err := w.c["b"].Signal([]byte("n"), wwr.Payload{}); err != nil {
			w.check("Signal on b: %v", err)
		}
	}},
	{"sessions", func(w *slowWorld) {
		if err := w.c["b"].CloseSession(); err != nil {
			w.check("CloseSession on b: %v", err)
		}
		if err := w.c["b"].CreateSession(nil); err != nil {
			w.check("CreateSession on b: %v", err)
		}
		useSession(w.c["b"].Session())
	}},
	{"restore", func(w *slowWorld) {
		id := w.restore("b", "N")
		if r, ok := w.p["b"].AwaitReply(reqID(id)); ok && r.typ != tReplyUtf8 && r.typ != tReplyBin {
			w.check("restoring N on b was answered with %s", r)
		}
	}},
	{"restore M", func(w *slowWorld) {
		id := w.restore("b", "M")
		if r, ok := w.p["b"].AwaitReply(reqID(id)); ok && r.typ != tReplyUtf8 && r.typ != tReplyBin {
			w.check("restoring M on b was answered with %s", r)
		}
	}},
	{"closing request", func(w *slowWorld) {
		id := w.reqClose("b")
		w.p["b"].AwaitReply(reqID(id))
	}},
	{"getters", func(w *slowWorld) {
		c := w.c["b"]
		useSession(c.Session())
		c.HasSession()
		c.SessionKey()
		c.SessionCreation()
		c.SessionInfo("k")
		c.IsActive()
		c.RemoteAddr()
		c.Info(1)
		c.Creation()
	}},
	{"hangup", func(w *slowWorld) { w.p["b"].Hangup(); w.awaitLeft("b") }},
	{"Close", func(w *slowWorld) { w.c["b"].Close(); w.awaitLeft("b") }},
	{"connect", func(w *slowWorld) {
		w.connect("d")
		w.fresh["d"].Await(0)
		c := w.t.conns["d"].get()
		if err := c.Signal([]byte("n"), wwr.Payload{}); err != nil {
			w.check("Signal on d: %v", err)
		}
		w.ask("d", w.fresh["d"])
	}},
	{"queries", func(w *slowWorld) {
		w.srv.ActiveSessionsNum()
		for _, k := range []string{"K", "L", "M", "N", "S1", "nope"} {
			w.srv.SessionConnectionsNum(k)
			w.srv.SessionConnections(k)
		}
		w.srv.Address()
	}},
	{"CloseSession by key", func(w *slowWorld) { w.srv.CloseSession("L") }},
}

// slowTouches are further operations on the slow connection; they may have to
// wait, but not make others wait.
var slowTouches = []struct {
	name string
	f    func(w *slowWorld)
}{
	{"Session", func(w *slowWorld) { useSession(w.c["a"].Session()) }},
	{"HasSession", func(w *slowWorld) { w.c["a"].HasSession() }},
	{"SessionKey", func(w *slowWorld) { w.c["a"].SessionKey() }},
	{"SessionCreation", func(w *slowWorld) { w.c["a"].SessionCreation() }},
	{"SessionInfo", func(w *slowWorld) { w.c["a"].SessionInfo("k") }},
	{"other getters", func(w *slowWorld) {
		c := w.c["a"]
		c.IsActive()
		c.RemoteAddr()
		c.Info(1)
		c.Creation()
	}},
	{"Signal", func(w *slowWorld) { w.c["a"].Signal([]byte("t"), wwr.Payload{}) }},
	{"CreateSession", func(w *slowWorld) { w.c["a"].CreateSession(nil) }},
	{"CloseSession", func(w *slowWorld) { w.c["a"].CloseSession() }},
	{"Close", func(w *slowWorld) { w.c["a"].Close() }},
	{"hangup", func(w *slowWorld) { w.p["a"].Hangup() }},
	{"request", func(w *slowWorld) { w.p["a"].Send(req(81, "t")) }},
	{"signal", func(w *slowWorld) { w.p["a"].Send(sig("t")) }},
	{"heartbeat", func(w *slowWorld) { w.p["a"].Send(heartbeat) }},
	{"closing request", func(w *slowWorld) { w.reqClose("a") }},
	{"restore request", func(w *slowWorld) { w.restore("a", "S9") }},
	{"CloseSession by key", func(w *slowWorld) { w.srv.CloseSession("K") }},
	{"queries of the session", func(w *slowWorld) {
		w.srv.SessionConnections("K")
		w.srv.SessionConnectionsNum("K")
	}},
}

// awaitLeft waits until the disconnection of a connection was announced.
func (w *slowWorld) awaitLeft(x string) {
	s := w.t.conns["left-"+x]
	s.get()
}

func newSlow(start int) *slowWorld {
	w := &slowWorld{sworld: newWorld(0), s: &stall{}, fresh: map[string]*Peer{}, creator: -1}
	w.names = []string{"a", "b"}
	for _, x := range []string{"d", "hold", "left-a", "left-b", "left-c", "left-d"} {
		w.t.conns[x] = &slot{}
	}
	own := func() string {
		if vsched.ThreadID() == w.creator {
			return "a"
		}
		return ""
	}
	hs := &hookedStore{w.sm, func(name string) {
		switch name {
		case "Generate", "OnSessionCreated":
			w.s.pass(name + ":" + own())
		}
	}}
	o := w.sm.options()
	o.SessionManager, o.SessionKeyGenerator = &slowStore{hs, w.s}, hs
	o.SessionInfoParser = func(m map[string]interface{}) wwr.SessionInfo {
		k, _ := m["k"].(string)
		w.s.pass("ParseInfo:" + k)
		return wwr.GenericSessionInfoParser(m)
	}
	name := func(c wwr.Connection) string {
		n, _ := c.Info(1).(string)
		return n
	}
	impl := w.t.impl
	conn, sigf, reqf := impl.Conn, impl.Sig, impl.Req
	impl.Conn = func(o wwr.ConnectionOptions, c wwr.Connection) {
		w.s.pass("OnClientConnected:" + name(c))
		conn(o, c)
	}
	impl.Disc = func(c wwr.Connection, err error) {
		w.s.pass("OnClientDisconnected:" + name(c))
		w.t.conns["left-"+name(c)].set(c)
	}
	impl.Sig = func(c wwr.Connection, m wwr.Message) {
		w.s.pass("OnSignal:" + name(c))
		sigf(c, m)
	}
	impl.Req = func(c wwr.Connection, m wwr.Message) (wwr.Payload, error) {
		w.s.pass("OnRequest:" + name(c))
		switch string(m.Name()) {
		case "err":
			return wwr.Payload{}, wwr.ErrRequest{Code: "E", Message: "text"}
		case "errp":
			return wwr.Payload{}, &wwr.ErrRequest{Code: "E", Message: "text"}
		case "internal":
			return wwr.Payload{}, errors.New("internal")
		case "odd":
			return wwr.Payload{Encoding: wwr.EncodingUtf16, Data: []byte("odd")}, nil
		case "hold":
			w.t.conns["hold"].set(c)
			vsched.Op("hold", &w.s.o, func() bool { return w.s.open }, nil)
		}
		return reqf(c, m)
	}
	w.srv, w.net = server(impl, o)
	for _, x := range w.names {
		w.connect(x)
		w.p[x] = w.fresh[x]
		w.c[x] = w.t.conns[x].get()
	}
	w.put("K", "L", "M", "N")
	switch start {
	case 1:
		w.setup("a", "K")
		w.setup("b", "L")
	case 2:
		w.setup("a", "K")
		w.setup("b", "K")
	}
	vsched.Quiesce()
	return w
}

// slowStore is slow for particular keys.
type slowStore struct {
	*hookedStore
	s *stall
}

func (h *slowStore) OnSessionLookup(key string) (wwr.SessionLookupResult, error) {
	h.s.pass("OnSessionLookup:" + key)
	return h.hookedStore.OnSessionLookup(key)
}

func (h *slowStore) OnSessionClosed(key string) error {
	h.s.pass("OnSessionClosed:" + key)
	return h.hookedStore.OnSessionClosed(key)
}

func init() {
	// starts tells which initial states a point needs
	starts := func(name string) []int {
		switch {
		case strings.Contains(name, "Create") || name == "Generate":
			return []int{0}
		case strings.HasPrefix(name, "OnSessionClosed"):
			return []int{1}
		case strings.Contains(name, "CloseSession"):
			return []int{1, 2}
		}
		return []int{0, 1, 2}
	}
	run := func(n int) {
		pt := slowPoints[vsched.Choose(len(slowPoints))]
		st := starts(pt.name)
		start := st[vsched.Choose(len(st))]
		var acts []int
		for i := 0; i < n; i++ {
			from := 0
			if i > 0 {
				from = acts[i-1]
			}
			acts = append(acts, from+vsched.Choose(len(slowActs)-from))
		}
		w := newSlow(start)
		w.s.at = pt.point
		w.strict = n == 1
		slow := spawn("slow", func() { pt.f(w) })
		if strings.HasSuffix(pt.point, ":M") {
			// the others may look up the same session
			vsched.Op("await", &w.s.o, func() bool { return w.s.hit }, nil)
		}
		var ts []*task
		for _, a := range acts {
			a := a
			ts = append(ts, spawn(slowActs[a].name, func() { slowActs[a].f(w) }))
		}
		vsched.Quiesce()
		for i, t := range ts {
			if !t.isDone() {
				fail("%s of another connection did not come to its end while a %s was in progress: %v", slowActs[acts[i]].name, pt.name, vsched.Blocked())
			}
		}
		hit := w.s.hit
		w.s.end()
		vsched.Quiesce()
		if !slow.isDone() {
			fail("after the %s the operation did not come to its end: %v", pt.name, vsched.Blocked())
		}
		// everything works afterwards
		for _, x := range w.names {
			if w.c[x].IsActive() && w.p[x].IsConnected() {
				w.ask(x, w.p[x])
			}
		}
		w.consistent(0)
		sd := spawn("shutdown", func() { w.srv.Shutdown() })
		allJoined(sd)
		outcome("%s %v", pt.name, hit)
		if n == 1 && !hit && start < 2 {
			fail("harness: the %s was not reached", pt.name)
		}
	}
	add(&Scenario{Prop: "C31", Name: "one", Bounds: [2]int{1, 2}, Weight: 3, Delay: true,
		Doc:  "every hook and handler of a connection, or its client reading slowly at every place the server writes, doesn't proceed while another connection or the server is used in each possible way",
		Body: func() { run(1) }})
	add(&Scenario{Prop: "C31", Name: "two", Bounds: [2]int{0, 1}, Weight: 3, Delay: true,
		Doc:  "the same with every pair of operations on the other connection and the server",
		Body: func() { run(2) }})
	touched := func() {
		pt := slowPoints[vsched.Choose(len(slowPoints))]
		st := starts(pt.name)
		start := st[vsched.Choose(len(st))]
		touch := slowTouches[vsched.Choose(len(slowTouches))]
		act := slowActs[vsched.Choose(len(slowActs))]
		w := newSlow(start)
		w.s.at, w.touched = pt.point, true
		slow := spawn("slow", func() { pt.f(w) })
		vsched.Quiesce()
		toucher := spawn("touch", func() { touch.f(w) })
		vsched.Quiesce()
		other := spawn(act.name, func() { act.f(w) })
		vsched.Quiesce()
		if !other.isDone() {
			fail("%s of another connection did not come to its end while a %s was in progress and %s was called on the same connection: %v", act.name, pt.name, touch.name, vsched.Blocked())
		}
		w.s.end()
		vsched.Quiesce()
		if !slow.isDone() || !toucher.isDone() {
			fail("after the %s (and %s) an operation did not come to its end: %v", pt.name, touch.name, vsched.Blocked())
		}
		for _, x := range w.names {
			if w.c[x].IsActive() && w.p[x].IsConnected() {
				w.ask(x, w.p[x])
			}
		}
		sd := spawn("shutdown", func() { w.srv.Shutdown() })
		allJoined(sd)
		outcome("%s %s", pt.name, touch.name)
	}
	add(&Scenario{Prop: "C31", Name: "touched", Bounds: [2]int{0, 1}, Weight: 2, Delay: true,
		Doc:  "the same while another operation on the slow connection itself has to wait for it: queries, signals, session operations, requests, closing",
		Body: touched})
	add(&Scenario{Prop: "C31", Name: "shutdown", Bounds: [2]int{1, 2}, Delay: true,
		Doc: "the client of a connection doesn't read the refusal of its request while the server shuts down and waits for a handler: others are refused, queried, signaled and closed, the handler ends, its reply is delivered",
		Body: func() {
			w := newSlow(1)
			point := []string{"getwriter:a", "write:a", "flush:a"}[vsched.Choose(3)]
			act := vsched.Choose(7)
			w.open("d", 2)
			d := w.fresh["d"]
			d.Send(req(1, "hold"))
			w.t.conns["hold"].get()
			sd := spawn("shutdown", func() { w.srv.Shutdown() })
			vsched.Quiesce()
			if sd.isDone() {
				fail("Shutdown didn't wait for a handler")
			}
			vsched.Log(func() { w.s.at = point })
			kind := vsched.Choose(3)
			switch kind {
			case 0:
				w.p["a"].Send(req(2, "r"))
			case 1:
				w.restore("a", "M")
			case 2:
				w.reqClose("a")
			}
			var what string
			var f func()
			refusedOn := func(p *Peer) func() {
				return func() {
					p.Send(req(3, "r"))
					if r, ok := p.AwaitReply(reqID(3)); ok && r != refused(3) {
						fail("a request during the shutdown was answered with %s", r)
					}
				}
			}
			switch act {
			case 0:
				what, f = "the refusal of a request", refusedOn(w.p["b"])
			case 1:
				what, f = "the refusal of a request on a busy connection", refusedOn(d)
			case 2:
				what, f = "queries", func() {
					w.srv.ActiveSessionsNum()
					w.srv.SessionConnections("L")
					w.c["b"].HasSession()
					w.c["b"].IsActive()
				}
			case 3:
				what, f = "Signal", func() {
					if err := w.c["b"].Signal([]byte("n"), wwr.Payload{}); err != nil {
						fail("Signal on b: %v", err)
					}
				}
			case 4:
				what, f = "hangup", func() { w.p["b"].Hangup(); w.awaitLeft("b") }
			case 5:
				what, f = "Close", func() { w.c["b"].Close(); w.awaitLeft("b") }
			case 6:
				what, f = "CloseSession", func() { w.c["b"].CloseSession() }
			}
			other := spawn(what, f)
			vsched.Quiesce()
			if !other.isDone() {
				fail("%s did not come to its end while a client didn't read a refusal: %v", what, vsched.Blocked())
			}
			if !w.s.hit {
				fail("harness: no refusal was written")
			}
			w.s.end()
			allJoined(sd)
			exactly(d.Got(), 1, handled("hold", 1))
			outcome("%s %s", point, what)
		}})
	mem := func() {
		point := vsched.Choose(6)
		act := vsched.Choose(7)
		t := newTracker("slow")
		t.conns["d"], t.conns["left-b"] = &slot{}, &slot{}
		t.impl.Disc = func(c wwr.Connection, err error) {
			if c.Info(1) == "b" {
				t.conns["left-b"].set(c)
			}
		}
		next := ""
		s := &stall{}
		srv, tr := memServer(t.impl, noSessions(), func() wwr.ConnectionOptions {
			n := next
			if n == "a" {
				s.pass("OnBeforeCreation")
			}
			return connOpts(n, 1)
		})
		dial := func(name string) *memClient {
			vsched.Log(func() { next = name })
			sock, err := (&memchan.ClientTransport{Server: tr}).NewSocket(0)
			if err != nil {
				fail("NewSocket: %v", err)
			}
			if err := sock.Dial(time.Time{}); err != nil {
				fail("Dial: %v", err)
			}
			c := &memClient{name: name, sock: sock}
			c.o.Name = name
			return c
		}
		ask := func(c *memClient, id int) {
			if err := c.Send(req(id, "q")); err != nil {
				fail("%s couldn't send: %v", c.name, err)
			}
			if r, ok := c.AwaitReply(reqID(id)); !ok || r != handled("q", id) {
				fail("the request of %s was answered with [%s] %v", c.name, r, ok)
			}
		}
		b := dial("b")
		b.readLoop(128)
		cb := t.conns["b"].get()
		var a *memClient
		var slow *task
		name := ""
		if point > 1 {
			a = dial("a")
			a.readLoop(128)
			t.conns["a"].get()
			vsched.Quiesce()
		}
		switch point {
		case 0:
			name = "OnBeforeCreation hook"
			s.at = "OnBeforeCreation"
			slow = spawn("dial", func() { a = dial("a") })
			vsched.Quiesce()
		case 1:
			name = "client that doesn't read its configuration"
			a = dial("a")
		case 2:
			name = "client that doesn't read a signal"
			// the reader stalls in the previous message
			a.hold = s
			s.at = "reader"
			slow = spawn("Signal", func() {
				for i := 0; i < 2; i++ {
					if err := t.conns["a"].get().Signal([]byte("n"), wwr.Payload{}); err != nil {
						fail("Signal on a: %v", err)
					}
				}
			})
		case 3:
			name = "client that doesn't read a reply"
			a.hold = s
			s.at = "reader"
			slow = spawn("requests", func() { a.Send(req(1, "x")); a.Send(req(2, "y")) })
		case 4:
			name = "server that handles a request"
			slow = spawn("requests", func() { a.Send(req(1, "slow")); a.Send(req(2, "y")) })
		case 5:
			name = "server that handles a signal"
			slow = spawn("signals", func() { a.Send(sig("slow")); a.Send(sig("z")) })
		}
		var f func()
		what := ""
		ended := false
		switch act {
		case 0:
			what, f = "a request", func() { ask(b, 10) }
		case 1:
			what, f = "Signal", func() {
				if err := cb.Signal([]byte("n"), wwr.Payload{}); err != nil {
					fail("Signal on b: %v", err)
				}
			}
		case 2:
			ended = true
			what, f = "closing", func() { b.sock.Close(); t.conns["left-b"].get() }
		case 3:
			ended = true
			what, f = "Close", func() { cb.Close(); t.conns["left-b"].get() }
		case 4:
			if point == 0 {
				return // OnBeforeCreation is slow for everybody
			}
			what, f = "connecting", func() {
				d := dial("d")
				d.readLoop(128)
				ask(d, 10)
				if err := d.sock.Close(); err != nil {
					fail("Close of d: %v", err)
				}
			}
		case 5:
			what, f = "queries", func() {
				if !b.sock.IsConnected() || !cb.IsActive() {
					fail("b isn't connected")
				}
				b.sock.RemoteAddr()
				cb.RemoteAddr()
				srv.Address()
			}
		case 6:
			what, f = "signals and heartbeats", func() {
				if b.Send(sig("b1")) != nil || b.Send(heartbeat) != nil || b.Send(sig("b2")) != nil {
					fail("b couldn't send")
				}
				ask(b, 10)
				if t.h.count("end:b") != 2 {
					fail("the signals of b weren't handled: %s", t.h)
				}
			}
		}
		other := spawn(what, f)
		vsched.Quiesce()
		if !other.isDone() {
			fail("%s of another connection did not come to its end because of a %s: %v", what, name, vsched.Blocked())
		}
		s.end()
		t.g.release("slow")
		vsched.Quiesce()
		if a == nil || slow != nil && !slow.isDone() {
			fail("the operation delayed by a %s did not come to its end: %v", name, vsched.Blocked())
		}
		if a.rd == nil {
			a.readLoop(128)
		}
		ask(a, 20)
		if !ended {
			ask(b, 20)
		}
		sd := spawn("shutdown", func() { srv.Shutdown() })
		allJoined(sd)
		outcome("%s %s", name, what)
	}
	add(&Scenario{Prop: "C31", Name: "memory", Bounds: [2]int{1, 3}, Delay: true,
		Doc:  "the same on the in-memory transport: a slow connection hook, a client that doesn't read its configuration, signals or replies, a server busy with a handler",
		Body: mem})
}
