package harness

import (
	"context"
	"fmt"
	"reflect"
	"strings"
	"time"

	wwr "github.com/qbeon/webwire-go"
	"github.com/qbeon/webwire-go/message"
	reqman "github.com/qbeon/webwire-go/requestManager"
	"github.com/qbeon/webwire-go/transport/memchan"

	"verif/vsched"
)

// graph measures what can be reached from objects of the library: the number
// of entries of maps, slices and channels and of allocated objects by type.
type graph struct {
	seen map[[2]any]bool
	n    map[string]int
}

// measure walks the object graph. Message pools and everything that belongs to
// the harness or the scheduler are left out.
func measure(roots ...any) *graph {
	g := &graph{map[[2]any]bool{}, map[string]int{}}
	for _, r := range roots {
		g.walk(reflect.ValueOf(r))
	}
	return g
}

func (g *graph) walk(v reflect.Value) {
	if !v.IsValid() {
		return
	}
	t := v.Type()
	pkg, name := t.PkgPath(), t.Name()
	switch {
	case strings.HasPrefix(pkg, "verif/harness"), pkg == "log", pkg == "time", strings.HasSuffix(pkg, "/vtime"):
		return
	case strings.HasSuffix(pkg, "/vsched") && !strings.HasPrefix(name, "Chan["):
		return
	case strings.HasSuffix(pkg, "/vsync") && name == "Pool":
		return
	case strings.HasSuffix(pkg, "webwire-go/message") && strings.Contains(name, "Pool"):
		return
	}
	switch v.Kind() {
	case reflect.Ptr, reflect.Map, reflect.Slice:
		if v.IsNil() {
			return
		}
		k := [2]any{t, v.Pointer()}
		if v.Kind() != reflect.Slice || v.Len() > 0 {
			if g.seen[k] {
				return
			}
			g.seen[k] = true
		}
	}
	switch v.Kind() {
	case reflect.Ptr:
		e := t.Elem()
		if p := e.PkgPath(); strings.HasPrefix(p, "verif/harness") || strings.HasPrefix(p, "verif/vsched") && !strings.HasPrefix(e.Name(), "Chan[") && !strings.HasPrefix(e.Name(), "Map") {
			return
		}
		g.n[t.String()]++
		g.walk(v.Elem())
	case reflect.Interface:
		if !v.IsNil() {
			g.walk(v.Elem())
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			g.walk(v.Field(i))
		}
	case reflect.Map:
		g.n["entries of "+t.String()] += v.Len()
		for it := v.MapRange(); it.Next(); {
			g.walk(it.Key())
			g.walk(it.Value())
		}
	case reflect.Slice:
		if t.Elem().Kind() == reflect.Uint8 {
			g.n["bytes"] += v.Len()
			return
		}
		g.n["elements of "+t.String()] += v.Len()
		for i := 0; i < v.Len(); i++ {
			g.walk(v.Index(i))
		}
	case reflect.Array:
		if t.Elem().Kind() == reflect.Uint8 {
			return
		}
		for i := 0; i < v.Len(); i++ {
			g.walk(v.Index(i))
		}
	case reflect.String:
		g.n["string bytes"] += v.Len()
	}
}

// grown tells what grew.
func (g *graph) grown(before *graph) string {
	for _, k := range sorted(g.n) {
		if g.n[k] > before.n[k] {
			return fmt.Sprintf("%s: %d, before: %d", k, g.n[k], before.n[k])
		}
	}
	return ""
}

// leaveActs are what happens on the connections of one cycle.
var leaveActs = []struct {
	name string
	f    func(w *sworld)
}{
	{"a.CreateSession", func(w *sworld) { w.c["a"].CreateSession(someInfo()) }},
	{"a.CreateSession unencodable", func(w *sworld) { w.c["a"].CreateSession(badInfo{badValues[1]}) }},
	{"a.CreateSession undeliverable", func(w *sworld) { w.p["a"].failWrites = -1; w.c["a"].CreateSession(nil) }},
	{"a.CreateSession colliding", func(w *sworld) { w.sm.forced = "K"; w.c["a"].CreateSession(nil); w.sm.forced = "" }},
	{"a.CloseSession", func(w *sworld) { w.c["a"].CloseSession() }},
	{"a.closing request", func(w *sworld) { w.reqClose("a") }},
	{"a.restore K", func(w *sworld) { w.restore("a", "K") }},
	{"a.restore L", func(w *sworld) { w.restore("a", "L") }},
	{"a.restore unknown", func(w *sworld) { w.restore("a", "none") }},
	{"a.restore failing", func(w *sworld) { w.sm.inject(sessOp{fault: "error"}); w.restore("a", "L") }},
	{"a.restore unencodable", func(w *sworld) { w.sm.inject(sessOp{fault: "badinfo"}); w.restore("a", "L") }},
	{"a.CloseSession panicking", func(w *sworld) { w.sm.inject(sessOp{fault: "panic"}); w.c["a"].CloseSession() }},
	{"a.Signal", func(w *sworld) { w.c["a"].Signal([]byte("n"), wwr.Payload{}) }},
	{"a.request", func(w *sworld) { w.p["a"].Send(req(70, "r")) }},
	{"a.signal", func(w *sworld) { w.p["a"].Send(sig("s")) }},
	{"a.garbage", func(w *sworld) { w.p["a"].Send([]byte{tReplyUtf8, 0, 0, 0, 0, 0, 0, 0, 1, 1}) }},
	{"a.hangup", func(w *sworld) { w.p["a"].Hangup() }},
	{"a.Close", func(w *sworld) { w.c["a"].Close() }},
	{"b.CreateSession", func(w *sworld) { w.c["b"].CreateSession(nil) }},
	{"b.restore K", func(w *sworld) { w.restore("b", "K") }},
	{"b.CloseSession", func(w *sworld) { w.c["b"].CloseSession() }},
	{"srv.CloseSession", func(w *sworld) { w.srv.CloseSession("K") }},
	{"queries", func(w *sworld) {
		w.srv.ActiveSessionsNum()
		w.srv.SessionConnections("K")
		w.srv.SessionConnectionsNum("x")
	}},
}

func init() {
	cycles := func(reps int, acts []int, start, end, limit int) {
		w := newWorld(limit)
		var n *Net
		o := w.sm.options()
		o.MaxSessionConnections = uint(limit)
		w.srv, n = server(w.t.impl, o)
		var idle *graph
		threads := 0
		for r := -1; r < reps; r++ {
			w.names = []string{"a", "b"}
			w.put("K", "L")
			for _, x := range w.names {
				w.t.conns[x] = &slot{}
				w.p[x] = n.Connect(x, connOpts(x, 2))
				w.c[x] = w.t.conns[x].get()
				w.sent[x] = nil
			}
			vsched.Quiesce()
			if r < 0 {
				// everything is used once
				for i, x := range w.names {
					w.setup(x, []string{"K", "L"}[i])
					w.p[x].Send(req(71, "r"))
					w.p[x].AwaitReply(reqID(71))
					w.p[x].Send(sig("s"))
					w.c[x].Signal([]byte("n"), wwr.Payload{})
					w.c[x].CloseSession()
					w.c[x].CreateSession(someInfo())
					w.reqClose(x)
					vsched.Quiesce()
					w.c[x].Close()
				}
				vsched.Quiesce()
				continue
			}
			if start > 0 {
				w.setup("a", "K")
			}
			if start > 1 && limit != 1 {
				w.setup("b", "K")
			}
			var ts []*task
			for _, a := range acts {
				a := a
				ts = append(ts, spawn(leaveActs[a].name, func() { leaveActs[a].f(w) }))
			}
			if end == 2 {
				// the connections end meanwhile
				for _, x := range w.names {
					w.p[x].Hangup()
				}
			}
			allJoined(ts...)
			w.sm.inject(sessOp{})
			for _, x := range w.names {
				if end == 0 {
					w.p[x].Hangup()
				} else {
					w.c[x].Close()
				}
			}
			vsched.Quiesce()
			if n := w.srv.ActiveSessionsNum(); n != 0 {
				fail("%d active sessions without any connection: %s", n, w.t.h)
			}
			w.c, w.p = map[string]wwr.Connection{}, map[string]*Peer{}
			g := measure(w.srv)
			if idle != nil {
				if d := g.grown(idle); d != "" {
					fail("after all connections ended in the same way again, the server keeps more than before: %s", d)
				}
				if b := vsched.Blocked(); len(b) > threads {
					fail("threads are left behind: %v", b)
				}
			} else {
				idle = g
				threads = len(vsched.Blocked())
				outcome("%d objects", len(g.seen))
			}
		}
	}
	add(&Scenario{Prop: "C32", Name: "cycles", Bounds: [2]int{1, 2}, Weight: 3, Delay: true,
		Doc: "connections with and without sessions come, run one of 23 operations (including those that fail) and leave, again and again: the reachable objects, entries and threads of the server don't grow",
		Body: func() {
			a := vsched.Choose(len(leaveActs))
			cycles(3, []int{a}, vsched.Choose(3), vsched.Choose(3), vsched.Choose(2))
		}})
	add(&Scenario{Prop: "C32", Name: "pairs", Bounds: [2]int{0, 1}, Weight: 3, Delay: true,
		Doc: "the same with every pair of operations at the same time",
		Body: func() {
			a := vsched.Choose(len(leaveActs))
			b := a + vsched.Choose(len(leaveActs)-a)
			cycles(2, []int{a, b}, vsched.Choose(3), vsched.Choose(3), 0)
		}})
	add(&Scenario{Prop: "C32", Name: "handshakes", Bounds: [2]int{1, 2}, Weight: 1, Delay: true,
		Doc: "connections whose handshake fails at every step, or that end at once, again and again",
		Body: func() {
			how := vsched.Choose(6)
			t := newTracker()
			srv, n := server(t.impl, noSessions())
			var idle *graph
			for r := 0; r < 3; r++ {
				t.conns["a"] = &slot{}
				p := n.ConnectWith("a", connOpts("a", 1), func(p *Peer) {
					switch how {
					case 0, 1, 2:
						p.failAt, p.failWrites = failures[how], -1
					case 3:
						p.hup = true
					}
				})
				switch how {
				case 4:
					p.Hangup()
				case 5:
					t.conns["a"].get().Close()
				}
				vsched.Quiesce()
				if !p.served {
					fail("the connection is still served: %v", vsched.Blocked())
				}
				t.conns["a"] = &slot{}
				g := measure(srv)
				if idle != nil {
					if d := g.grown(idle); d != "" {
						fail("after another connection ended during its handshake, the server keeps more than before: %s", d)
					}
					if b := vsched.Blocked(); len(b) > 0 {
						fail("threads are left behind: %v", b)
					}
				} else {
					idle = g
				}
			}
			outcome("%d", how)
		}})
	add(&Scenario{Prop: "C32", Name: "memory", Bounds: [2]int{1, 2}, Weight: 2, Delay: true, Timed: true,
		Doc: "connections of the in-memory transport are opened, used and ended by the client, the server, both, a read timeout or refused, again and again, with new and with reused sockets",
		Body: func() {
			how := vsched.Choose(6)
			reuse := vsched.Choose(2) == 1
			use := vsched.Choose(4)
			t := newTracker()
			o := noSessions()
			o.ReadTimeout = 5 * time.Second
			refuse := false
			srv, tr := memServer(t.impl, o, func() wwr.ConnectionOptions {
				if refuse {
					return wwr.ConnectionOptions{Connection: wwr.Refuse}
				}
				return connOpts("a", 1)
			})
			var sock wwr.ClientSocket
			var idle *graph
			for r := 0; r < 4; r++ {
				if sock == nil || !reuse {
					s, err := (&memchan.ClientTransport{Server: tr}).NewSocket(0)
					if err != nil {
						fail("NewSocket: %v", err)
					}
					sock = s
				}
				t.conns["a"] = &slot{}
				how, use := how, use
				if r == 0 {
					how, use = 0, 1 // everything is used once
				}
				refuse = how == 5
				if err := sock.Dial(time.Time{}); (err == nil) == refuse {
					fail("Dial: %v", err)
				}
				if !refuse {
					c := &memClient{name: "a", sock: sock}
					c.o.Name = "a"
					c.readLoop(128)
					con := t.conns["a"].get()
					var ts []*task
					switch use {
					case 1:
						c.Send(req(1, "q"))
						c.AwaitReply(reqID(1))
					case 2:
						ts = append(ts, spawn("send", func() { c.Send(sig("s")) }))
					case 3:
						ts = append(ts, spawn("Signal", func() { con.Signal([]byte("s"), wwr.Payload{}) }))
					}
					switch how {
					case 0:
						sock.Close()
					case 1:
						con.Close()
					case 2:
						ts = append(ts, spawn("close", func() { sock.Close() }))
						con.Close()
					case 3:
						vsched.Quiesce()
						for lim := vsched.Now() + int64(time.Minute); vsched.AdvanceNext(lim); {
							vsched.Quiesce()
						}
					case 4:
						vsched.Quiesce()
						sock.Close()
						sock.Close()
					}
					allJoined(ts...)
				}
				vsched.Quiesce()
				if sock.IsConnected() {
					fail("the socket is still connected")
				}
				t.conns["a"] = &slot{}
				g := measure(srv, tr, sock)
				if idle != nil {
					if d := g.grown(idle); d != "" {
						fail("after another connection ended, the server and transport keep more than before: %s", d)
					}
					if b := vsched.Blocked(); len(b) > 0 {
						fail("threads are left behind: %v", b)
					}
				} else {
					idle = g
				}
			}
			outcome("%d %v %d", how, reuse, use)
		}})
	add(&Scenario{Prop: "C32", Name: "refused", Bounds: [2]int{1, 2}, Weight: 1, Delay: true,
		Doc: "connections over the in-memory transport are refused by the hook, by a server that is shutting down or was shut down, again and again, with new and with reused sockets",
		Body: func() {
			how := vsched.Choose(4)
			reuse := vsched.Choose(2) == 1
			t := newTracker("slow")
			refuse := false
			srv, tr := memServer(t.impl, noSessions(), func() wwr.ConnectionOptions {
				if refuse {
					return wwr.ConnectionOptions{Connection: wwr.Refuse}
				}
				return connOpts("a", 2)
			})
			a := mustDial(tr, "a")
			a.Send(req(1, "q"))
			a.AwaitReply(reqID(1))
			var sd *task
			switch how {
			case 0:
				refuse = true
			case 1:
				a.Send(req(2, "slow"))
				t.g.awaitAt("slow")
				sd = spawn("shutdown", func() { srv.Shutdown() })
			case 2:
				sd = spawn("shutdown", func() { srv.Shutdown() })
				allJoined(sd)
			case 3:
				if err := tr.Shutdown(); err != nil {
					fail("Shutdown of the transport: %v", err)
				}
			}
			vsched.Quiesce()
			var sock wwr.ClientSocket
			var idle *graph
			for r := 0; r < 4; r++ {
				if sock == nil || !reuse {
					s, err := (&memchan.ClientTransport{Server: tr}).NewSocket(0)
					if err != nil {
						fail("NewSocket: %v", err)
					}
					sock = s
				}
				if err := sock.Dial(time.Time{}); err == nil {
					fail("Dial succeeded")
				}
				vsched.Quiesce()
				if sock.IsConnected() {
					fail("the refused socket is connected")
				}
				if r%2 == 0 {
					sock.Close()
					vsched.Quiesce()
				}
				g := measure(srv, tr)
				if idle == nil {
					idle = g
				} else if d := g.grown(idle); d != "" {
					fail("after another refused connection, the server and transport keep more than before: %s", d)
				}
			}
			t.g.release("slow")
			if sd != nil {
				allJoined(sd)
			}
			outcome("%d %v", how, reuse)
		}})
	add(&Scenario{Prop: "C32", Name: "requests", Bounds: [2]int{1, 2}, Weight: 1, Timed: true,
		Doc: "requests of a request manager are answered, failed, timed out or canceled, before or while they are awaited, again and again",
		Body: func() {
			how := vsched.Choose(6)
			m := reqman.NewRequestManager()
			var idle *graph
			for r := 0; r < 3; r++ {
				q := m.Create()
				ctx, cancel := context.WithTimeout(context.Background(), time.Second)
				if how == 4 {
					cancel()
				}
				settle := func() {
					switch how {
					case 0, 1:
						msg := message.NewMessage(32)
						msg.MsgIdentifier = q.Identifier
						m.Fulfill(msg)
					case 2:
						m.Fail(q.Identifier, errHook)
					case 5:
						cancel()
					}
				}
				t := spawn("settle", settle)
				if how == 1 {
					t.join()
				}
				wt := spawn("await", func() { q.AwaitReply(ctx) })
				vsched.Quiesce()
				if how == 3 {
					for lim := vsched.Now() + int64(time.Minute); vsched.AdvanceNext(lim); {
						vsched.Quiesce()
					}
				}
				allJoined(t, wt)
				cancel()
				vsched.Quiesce()
				if n := m.PendingRequests(); n != 0 {
					fail("%d pending requests are left", n)
				}
				g := measure(&m)
				if idle != nil {
					if d := g.grown(idle); d != "" {
						fail("after another request the manager keeps more than before: %s", d)
					}
					if b := vsched.Blocked(); len(b) > 0 {
						fail("threads are left behind: %v", b)
					}
				} else {
					idle = g
				}
			}
			outcome("%d", how)
		}})
}
