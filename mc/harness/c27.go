package harness

import (
	"context"
	"fmt"
	"time"

	wwr "github.com/qbeon/webwire-go"
	"github.com/qbeon/webwire-go/message"
	"github.com/qbeon/webwire-go/payload"
	reqman "github.com/qbeon/webwire-go/requestManager"
	"github.com/qbeon/webwire-go/transport/memchan"

	"verif/vsched"
)

// apiWorld is a server with two connections whose whole interface is used.
type apiWorld struct {
	*sworld
	net     *Net
	down    bool
	settled func() // runs before the server is probed
}

func useSession(s *wwr.Session) {
	if s == nil {
		return
	}
	_, _, _ = s.Key, s.Creation, s.LastLookup
	if s.Info != nil {
		for _, f := range s.Info.Fields() {
			s.Info.Value(f)
		}
		s.Info.Copy()
		wwr.SessionInfoToVarMap(s.Info)
	}
	s.Clone()
}

var someInfo = func() wwr.SessionInfo {
	return wwr.GenericSessionInfoParser(map[string]interface{}{"k": "K", "d": map[string]interface{}{"x": []interface{}{"y"}}})
}

// apiActs are the operations on a server and on connection a.
var apiActs = []struct {
	name string
	f    func(w *apiWorld)
}{
	{"Signal", func(w *apiWorld) { w.c["a"].Signal([]byte("n"), wwr.Payload{Data: []byte("x")}) }},
	{"CreateSession", func(w *apiWorld) { w.c["a"].CreateSession(someInfo()) }},
	{"CreateBad", func(w *apiWorld) { w.c["a"].CreateSession(badInfo{badValues[1]}) }},
	{"CloseSession", func(w *apiWorld) { w.c["a"].CloseSession() }},
	{"Session", func(w *apiWorld) { useSession(w.c["a"].Session()) }},
	{"getters", func(w *apiWorld) {
		c := w.c["a"]
		c.HasSession()
		c.SessionKey()
		c.SessionCreation()
		c.SessionInfo("k")
		c.SessionInfo("d")
	}},
	{"info", func(w *apiWorld) {
		c := w.c["a"]
		c.IsActive()
		c.RemoteAddr()
		c.Info(1)
		c.Creation()
	}},
	{"Close", func(w *apiWorld) { w.c["a"].Close() }},
	{"hangup", func(w *apiWorld) { w.p["a"].Hangup() }},
	{"request", func(w *apiWorld) { w.p["a"].Send(encRequest(reqID(70), "r", eUtf8, "p")) }},
	{"signal", func(w *apiWorld) { w.p["a"].Send(encSignal("s", eUtf8, "p")) }},
	{"heartbeat", func(w *apiWorld) { w.p["a"].Send(heartbeat) }},
	{"restore", func(w *apiWorld) { w.restore("a", "K") }},
	{"reqclose", func(w *apiWorld) { w.reqClose("a") }},
	{"b.restore", func(w *apiWorld) { w.restore("b", "K") }},
	{"b.CreateSession", func(w *apiWorld) { w.c["b"].CreateSession(nil) }},
	{"b.Close", func(w *apiWorld) { w.c["b"].Close() }},
	{"connect", func(w *apiWorld) { w.net.Connect("c", connOpts("c", 1)) }},
	{"srv.CloseSession", func(w *apiWorld) { w.srv.CloseSession("K") }},
	{"queries", func(w *apiWorld) {
		w.srv.ActiveSessionsNum()
		w.srv.SessionConnectionsNum("K")
		for _, c := range w.srv.SessionConnections("K") {
			useSession(c.Session())
		}
	}},
	{"Address", func(w *apiWorld) { w.srv.Address() }},
	{"Run", func(w *apiWorld) { w.srv.Run() }},
	{"Shutdown", func(w *apiWorld) { w.srv.Shutdown() }},
}

var apiStarts = []string{"", "K", "S", "N"}

// hookedStore runs operations inside the session hooks.
type hookedStore struct {
	*store
	at func(hook string)
}

func (h *hookedStore) Generate() string {
	h.at("Generate")
	return h.store.Generate()
}

func (h *hookedStore) OnSessionCreated(c wwr.Connection) error {
	err := h.store.OnSessionCreated(c)
	h.at("OnSessionCreated")
	return err
}

func (h *hookedStore) OnSessionLookup(key string) (wwr.SessionLookupResult, error) {
	h.at("OnSessionLookup")
	return h.store.OnSessionLookup(key)
}

func (h *hookedStore) OnSessionClosed(key string) error {
	err := h.store.OnSessionClosed(key)
	h.at("OnSessionClosed")
	return err
}

func newAPI(start, limit int) *apiWorld { return newHookedAPI(start, limit, nil) }

// newHookedAPI calls hook in every hook.
func newHookedAPI(start, limit int, hook func(w *apiWorld, name string, c wwr.Connection)) *apiWorld {
	w := &apiWorld{sworld: newWorld(0)}
	w.sworld.names = []string{"a", "b"}
	w.t.impl.Req = func(c wwr.Connection, m wwr.Message) (wwr.Payload, error) {
		useSession(c.Session())
		return wwr.Payload{Data: m.Payload()}, nil
	}
	w.t.impl.Sig = func(c wwr.Connection, m wwr.Message) { useSession(c.Session()) }
	var n *Net
	o := w.sm.options()
	if hook != nil {
		hs := &hookedStore{w.sm, func(name string) { hook(w, name, nil) }}
		o.SessionManager, o.SessionKeyGenerator = hs, hs
		o.SessionInfoParser = func(m map[string]interface{}) wwr.SessionInfo {
			hook(w, "ParseInfo", nil)
			return wwr.GenericSessionInfoParser(m)
		}
		conn, disc, req, sig := w.t.impl.Conn, w.t.impl.Disc, w.t.impl.Req, w.t.impl.Sig
		w.t.impl.Conn = func(o wwr.ConnectionOptions, c wwr.Connection) {
			if conn != nil {
				conn(o, c)
			}
			hook(w, "OnClientConnected", c)
		}
		w.t.impl.Disc = func(c wwr.Connection, err error) {
			hook(w, "OnClientDisconnected", c)
			if disc != nil {
				disc(c, err)
			}
		}
		w.t.impl.Req = func(c wwr.Connection, m wwr.Message) (wwr.Payload, error) {
			hook(w, "OnRequest", c)
			return req(c, m)
		}
		w.t.impl.Sig = func(c wwr.Connection, m wwr.Message) {
			hook(w, "OnSignal", c)
			sig(c, m)
		}
	}
	w.srv, n = server(w.t.impl, o)
	w.net = n
	for _, x := range w.names {
		w.p[x] = n.Connect(x, connOpts(x, limit))
		w.c[x] = w.t.conns[x].get()
	}
	vsched.Quiesce()
	w.put("K")
	switch apiStarts[start] {
	case "K":
		w.setup("a", "K")
		w.setup("b", "K")
	case "S":
		if err := w.c["a"].CreateSession(someInfo()); err != nil {
			fail("CreateSession: %v", err)
		}
		vsched.Quiesce()
	case "N":
		// a session without information
		if err := w.c["a"].CreateSession(nil); err != nil {
			fail("CreateSession: %v", err)
		}
		vsched.Quiesce()
	}
	return w
}

func (w *apiWorld) run(acts ...int) {
	var ts []*task
	shutdown := false
	for _, a := range acts {
		a := a
		shutdown = shutdown || apiActs[a].name == "Shutdown"
		t := spawn(apiActs[a].name, func() { apiActs[a].f(w) })
		if apiActs[a].name != "Run" {
			ts = append(ts, t)
		}
	}
	allJoined(ts...)
	if w.settled != nil {
		w.settled()
	}
	// the server still works
	probe := "probe"
	for _, x := range w.names {
		c, p := w.c[x], w.p[x]
		useSession(c.Session())
		if !c.IsActive() || !p.IsConnected() || shutdown {
			continue
		}
		p.Send(encRequest(reqID(99), probe, eBin, "z"))
		vsched.Quiesce()
		exactly(p.Got(), 99, replyOf(eBin, "z")(reqID(99)))
		if err := c.Signal([]byte("s"), wwr.Payload{}); err != nil {
			fail("a signal afterwards failed: %v", err)
		}
	}
	if !shutdown {
		sd := spawn("final-shutdown", func() { w.srv.Shutdown() })
		allJoined(sd)
	}
	outcome("%v %v", w.c["a"].IsActive(), w.srv.ActiveSessionsNum())
}

// memActs are the operations on client sockets of the in-memory transport.
type memAPI struct {
	srv  wwr.Server
	tr   *memchan.Transport
	t    *tracker
	s, u wwr.ClientSocket // s: connected, u: another one
	up   bool
}

func writeTo(s wwr.Socket, b []byte) error {
	w, err := s.GetWriter()
	if err != nil {
		return err
	}
	if _, err := w.Write(b); err != nil {
		w.Close()
		return err
	}
	return w.Close()
}

func readOne(s wwr.Socket, deadline time.Time) wwr.ErrSockRead {
	m := message.NewMessage(128)
	err := s.Read(m, deadline)
	if err == nil {
		_ = fmt.Sprint(m.MsgType, m.MsgBuffer.Data())
		m.Close()
	}
	return err
}

var memActs = []struct {
	name string
	f    func(w *memAPI)
}{
	{"srv.Close", func(w *memAPI) {
		if c := w.t.conns["a"].peek(); c != nil {
			c.Close()
		}
	}},
	{"srv.Signal", func(w *memAPI) {
		if c := w.t.conns["a"].peek(); c != nil {
			c.Signal([]byte("n"), wwr.Payload{})
		}
	}},
	{"newsocket", func(w *memAPI) {
		x, err := (&memchan.ClientTransport{Server: w.tr}).NewSocket(0)
		if err == nil {
			x.IsConnected()
			x.Close()
		}
	}},
	{"Address", func(w *memAPI) { w.srv.Address() }},
	{"Dial", func(w *memAPI) { w.s.Dial(time.Time{}) }},
	{"Close", func(w *memAPI) { w.s.Close() }},
	{"Read", func(w *memAPI) { readOne(w.s, time.Time{}) }},
	{"ReadDeadline", func(w *memAPI) { readOne(w.s, time.Now().Add(time.Second)) }},
	{"send", func(w *memAPI) { writeTo(w.s, encSignal("s", eBin, "p")) }},
	{"request", func(w *memAPI) { writeTo(w.s, encRequest(reqID(1), "r", eBin, "p")) }},
	{"emptywriter", func(w *memAPI) {
		if x, err := w.s.GetWriter(); err == nil {
			x.Close()
		}
	}},
	{"state", func(w *memAPI) {
		w.s.IsConnected()
		if a := w.s.RemoteAddr(); a != nil {
			_ = a.Network()
			_ = a.String()
		}
	}},
	{"u.Dial", func(w *memAPI) {
		if w.u.Dial(time.Time{}) == nil {
			w.u.IsConnected()
		}
	}},
	{"u.Close", func(w *memAPI) { w.u.Close() }},
	{"Run", func(w *memAPI) { w.srv.Run() }},
	{"Shutdown", func(w *memAPI) { w.srv.Shutdown() }},
}

func newMemAPI(connected bool) *memAPI { return newHookedMemAPI(connected, nil) }

func newHookedMemAPI(connected bool, hook func(w *memAPI, name string)) *memAPI {
	w := &memAPI{t: newTracker()}
	at := func(name string) {
		if hook != nil {
			hook(w, name)
		}
	}
	if hook != nil {
		conn, req, sig := w.t.impl.Conn, w.t.impl.Req, w.t.impl.Sig
		w.t.impl.Conn = func(o wwr.ConnectionOptions, c wwr.Connection) {
			conn(o, c)
			at("connected")
		}
		w.t.impl.Disc = func(c wwr.Connection, err error) { at("disconnected") }
		w.t.impl.Req = func(c wwr.Connection, m wwr.Message) (wwr.Payload, error) {
			at("request")
			return req(c, m)
		}
		w.t.impl.Sig = func(c wwr.Connection, m wwr.Message) {
			at("signal")
			sig(c, m)
		}
	}
	names := "abc"
	n := 0
	w.srv, w.tr = memServer(w.t.impl, noSessions(), func() wwr.ConnectionOptions {
		i := 0
		vsched.Log(func() { i = n; n++ })
		at("options")
		return connOpts(string(names[i%3]), 1)
	})
	ct := &memchan.ClientTransport{Server: w.tr}
	w.s, _ = ct.NewSocket(0)
	w.u, _ = ct.NewSocket(0)
	if connected {
		if err := w.s.Dial(time.Time{}); err != nil {
			fail("Dial: %v", err)
		}
		if err := readOne(w.s, time.Time{}); err != nil {
			fail("reading the configuration failed: %v", err)
		}
		w.t.conns["a"].get()
		vsched.Quiesce()
	}
	return w
}

func (w *memAPI) run(acts ...int) {
	for _, a := range acts {
		a := a
		spawn(memActs[a].name, func() { memActs[a].f(w) })
	}
	vsched.Quiesce()
	// whatever is blocked (readers, writers nobody reads from) returns when
	// the sockets are closed
	var ts []*task
	ts = append(ts, spawn("end1", func() { w.s.Close() }), spawn("end2", func() { w.u.Close() }), spawn("end3", func() { w.srv.Shutdown() }))
	allJoined(ts...)
	vsched.Quiesce()
	if b := vsched.Blocked(); len(b) > 0 {
		fail("threads are blocked although all sockets were closed and the server was shut down: %v", b)
	}
}

func init() {
	add(&Scenario{Prop: "C27", Name: "pairs", Bounds: [2]int{1, 2}, Weight: 4, Race: true,
		Doc: "every pair of operations on a server and a connection (all getters, signals, sessions, closures, incoming messages, queries, connects, shutdown) from four initial states and with two concurrency limits; then the server still answers and shuts down",
		Body: func() {
			st := vsched.Choose(len(apiStarts))
			x := vsched.Choose(len(apiActs))
			y := vsched.Choose(len(apiActs))
			if y < x {
				return // covered by the mirrored pair
			}
			newAPI(st, []int{1, 2}[vsched.Choose(2)]).run(x, y)
		}})
	add(&Scenario{Prop: "C27", Name: "triples", Bounds: [2]int{0, 1}, Weight: 3, Race: true,
		Doc: "every combination of three operations on a server and a connection, from four initial states",
		Body: func() {
			st := vsched.Choose(len(apiStarts))
			x := vsched.Choose(len(apiActs))
			y := x + vsched.Choose(len(apiActs)-x)
			z := y + vsched.Choose(len(apiActs)-y)
			newAPI(st, 1).run(x, y, z)
		}})
	triggers := []int{}
	for _, n := range []string{"request", "signal", "CreateSession", "restore", "reqclose", "CloseSession", "srv.CloseSession", "hangup", "Close", "connect"} {
		for i := range apiActs {
			if apiActs[i].name == n {
				triggers = append(triggers, i)
			}
		}
	}
	inside := func(depth int) {
		st := vsched.Choose(len(apiStarts))
		trigger := triggers[vsched.Choose(len(triggers))]
		armed := false
		ran := 0
		w := newHookedAPI(st, 1, func(w *apiWorld, name string, c wwr.Connection) {
			may := false
			vsched.Log(func() { may = armed && ran < depth })
			if !may {
				return
			}
			// Run and Shutdown wait for the hook
			act := vsched.Choose(len(apiActs)-1) - 1
			if act < 0 {
				return
			}
			vsched.Log(func() {
				may = ran < depth
				ran++
			})
			if !may {
				return
			}
			if name == "OnClientConnected" {
				for _, p := range w.net.peers {
					if p.name == "c" {
						w.c["a"], w.p["a"] = c, p
					}
				}
			}
			apiActs[act].f(w)
		})
		vsched.Log(func() { armed = true })
		w.settled = func() { vsched.Log(func() { armed = false }) }
		w.run(trigger)
		outcome("%d ran", ran)
	}
	add(&Scenario{Prop: "C27", Name: "hooks", Bounds: [2]int{1, 2}, Race: true, Weight: 3,
		Doc:  "every operation on a server and on a connection called from inside every hook and handler, for every operation that invokes it and four initial states: it returns, and the server still answers and shuts down",
		Body: func() { inside(1) }})
	add(&Scenario{Prop: "C27", Name: "nestedhooks", Bounds: [2]int{0, 1}, Race: true, Weight: 2,
		Doc:  "like hooks, with another operation called from inside a hook that runs afterwards or due to the first operation",
		Body: func() { inside(2) }})
	add(&Scenario{Prop: "C27", Name: "sockets", Bounds: [2]int{1, 2}, Weight: 3, Race: true,
		Doc: "every pair of operations on a client socket of the in-memory transport (dial, close, read with and without deadline, write, queries), the server side of the connection, another socket and the server, connected and not",
		Body: func() {
			conn := vsched.Choose(2) == 1
			x := vsched.Choose(len(memActs))
			y := vsched.Choose(len(memActs))
			if y < x {
				return
			}
			newMemAPI(conn).run(x, y)
		}})
	memTriggers := []string{"Dial", "Close", "send", "request", "srv.Close", "u.Dial"}
	add(&Scenario{Prop: "C27", Name: "sockethooks", Bounds: [2]int{1, 2}, Race: true, Weight: 2,
		Doc: "every operation on the sockets of the in-memory transport and the server called from inside every hook and handler and (except for the sockets being dialled) from inside the function choosing the options of a connection, for every operation that invokes it: it returns or is woken by closing the sockets",
		Body: func() {
			conn := vsched.Choose(2) == 1
			trigger := memTriggers[vsched.Choose(len(memTriggers))]
			armed, ran := false, false
			w := newHookedMemAPI(conn, func(w *memAPI, name string) {
				may := false
				vsched.Log(func() { may = armed && !ran })
				if !may {
					return
				}
				// Run and Shutdown wait for the hook
				n := len(memActs) - 2
				if name == "options" {
					n = 4 // the sockets being dialled are off limits
				}
				act := vsched.Choose(n+1) - 1
				if act < 0 {
					return
				}
				vsched.Log(func() {
					may = !ran
					ran = true
				})
				if may {
					memActs[act].f(w)
				}
			})
			vsched.Log(func() { armed = true })
			for i := range memActs {
				if memActs[i].name == trigger {
					w.run(i)
				}
			}
			outcome("%v", ran)
		}})
	add(&Scenario{Prop: "C27", Name: "sockettriples", Bounds: [2]int{0, 1}, Weight: 3, Race: true,
		Doc: "every combination of three operations on a client socket of the in-memory transport",
		Body: func() {
			conn := vsched.Choose(2) == 1
			x := vsched.Choose(len(memActs))
			y := x + vsched.Choose(len(memActs)-x)
			z := y + vsched.Choose(len(memActs)-y)
			newMemAPI(conn).run(x, y, z)
		}})
	add(&Scenario{Prop: "C27", Name: "requests", Bounds: [2]int{2, 3}, Race: true, Weight: 2,
		Doc: "every combination of three operations of a request manager: creating requests, awaiting, fulfilling, failing, cancelling and querying them",
		Body: func() {
			m := reqman.NewRequestManager()
			r := m.Create()
			ctx, cancel := context.WithCancel(context.Background())
			acts := []func(){
				func() { m.Create() },
				func() { await(r, ctx) },
				func() { m.Fulfill(rmsg(r.Identifier, "f")) },
				func() { m.Fail(r.Identifier, fmt.Errorf("e")) },
				func() { m.IsPending(r.Identifier); m.PendingRequests() },
				cancel,
			}
			x := vsched.Choose(len(acts))
			y := x + vsched.Choose(len(acts)-x)
			z := y + vsched.Choose(len(acts)-y)
			if y == 1 && (x == 1 || z == 1) {
				return // one waiter per request
			}
			var ts []*task
			for _, a := range []int{x, y, z} {
				a := a
				ts = append(ts, spawn(fmt.Sprint("act", a), acts[a]))
			}
			vsched.Quiesce()
			cancel()
			allJoined(ts...)
		}})
	add(&Scenario{Prop: "C27", Name: "pool", Bounds: [2]int{2, 3}, Race: true,
		Doc: "three threads get, fill, read and return message buffers of one pool",
		Body: func() {
			p := message.NewSyncPool(64, uint32(vsched.Choose(3)))
			var ts []*task
			for i := 0; i < 3; i++ {
				i := i
				ts = append(ts, spawn(fmt.Sprint("user", i), func() {
					for k := 0; k < 2; k++ {
						m := p.Get()
						tag := fmt.Sprintf("p%d%d", i, k)
						if ok, err := m.ReadBytes(encSignal("n", eUtf8, tag)); !ok || err != nil {
							fail("reading a signal: %v %v", ok, err)
						}
						vsched.Yield()
						if string(m.MsgPayload.Data) != tag || m.MsgPayload.Encoding != payload.Utf8 {
							fail("the message of thread %d changed to %q", i, m.MsgPayload.Data)
						}
						m.Close()
					}
				}))
			}
			joinAll(ts...)
		}})
	add(&Scenario{Prop: "C27", Name: "storage", Bounds: [2]int{1, 2}, Race: true,
		Doc: "two concurrent sequences of operations of the default session manager and of the default key generator",
		Body: func() {
			w := newDworld()
			g := wwr.NewDefaultSessionKeyGenerator()
			prog := &cell{}
			x := vsched.Choose(len(storeOps))
			y := vsched.Choose(len(storeOps))
			if y < x {
				return
			}
			var keys [2]string
			var ts []*task
			for i, op := range []string{storeOps[x], storeOps[y]} {
				i, op := i, op
				ts = append(ts, spawn(op, func() {
					keys[i] = g.Generate()
					k := op[len(op)-1:]
					switch op[:2] {
					case "cr":
						r := newRec(k + fmt.Sprint(i))
						w.m.OnSessionCreated(r.conn())
					case "lo":
						w.m.OnSessionLookup(k)
					case "cl":
						w.m.OnSessionClosed(k)
					}
					prog.add(1)
				}))
			}
			joinAll(ts...)
			if keys[0] == keys[1] {
				fail("the same session key was generated twice: %q", keys[0])
			}
		}})
}
