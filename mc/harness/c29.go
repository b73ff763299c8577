package harness

import (
	"errors"
	"fmt"
	"net"
	"net/url"
	"reflect"
	"strings"
	"time"

	wwr "github.com/qbeon/webwire-go"
	"github.com/qbeon/webwire-go/transport/memchan"

	"verif/vsched"
	"verif/vsched/vtime"
)

// ---- what a connection reports

// metaInfo are the information maps a transport may provide; the connection's
// name is stored under key 1 of those that aren't empty.
var metaValue = &struct{ s string }{"pointer"}

func metaInfo(i int, name string) map[int]interface{} {
	switch i {
	case 0:
		return map[int]interface{}{1: name, 0: "zero", -1: "minus", 3: 3}
	case 1:
		return map[int]interface{}{1: name, 0: nil, -3: metaValue, 1 << 40: []string{"x"}, 7: "", 8: 0}
	case 2:
		return map[int]interface{}{}
	}
	return nil
}

var metaKeys = []int{0, 1, -1, 2, 3, -2, 256, 1<<63 - 1, -3, 7, 8, 1 << 40, 1<<40 + 1, -1 << 40}

// metaConn is what is expected of one connection.
type metaConn struct {
	name     string
	addr     net.Addr
	opts     wwr.ConnectionOptions
	peer     *Peer
	c        wwr.Connection
	from, to int64 // when it was created
	created  time.Time
	seen     int
	disc     int
	reason   error
	first    [][]byte
}

// metaWorld is a server whose connections are recognised by the transport.
type metaWorld struct {
	sm    *store
	srv   wwr.Server
	net   *Net
	conns map[string]*metaConn
	order []string
	// pending: the connection being opened when names aren't in the options
	byLimit map[int]*metaConn
}

// check compares everything a connection reports.
func (m *metaConn) check(where string, c wwr.Connection) {
	if c == nil {
		fail("%s of %s got no connection", where, m.name)
	}
	if m.c == nil {
		fail("%s of %s before its connected hook", where, m.name)
	}
	if c != m.c {
		fail("%s of %s got another connection object than the connected hook", where, m.name)
	}
	if a := c.RemoteAddr(); a != m.addr {
		fail("%s: the remote address of %s is %v, the transport provided %v", where, m.name, a, m.addr)
	}
	for _, k := range metaKeys {
		want := m.opts.Info[k]
		if got := c.Info(k); !reflect.DeepEqual(got, want) {
			fail("%s: Info(%d) of %s is %#v, the transport provided %#v", where, k, m.name, got, want)
		}
	}
	t := c.Creation()
	if n := vtime.Nanos(t); n < m.from || n > m.to {
		fail("%s: %s was created at %v, which is not between its acceptance (%v) and its connected hook (%v)",
			where, m.name, time.Duration(n), time.Duration(m.from), time.Duration(m.to))
	}
	if m.created.IsZero() {
		m.created = t
	} else if !t.Equal(m.created) {
		fail("%s: the creation time of %s changed from %v to %v", where, m.name, m.created, t)
	}
	m.seen++
}

// of finds the connection by its concurrency limit or by the object.
func (w *metaWorld) of(c wwr.Connection) (m *metaConn) {
	for _, n := range w.order {
		if w.conns[n].c == c {
			return w.conns[n]
		}
	}
	fail("a hook got an unknown connection")
	return nil
}

func newMeta(hook func(where string, m *metaConn)) *metaWorld {
	w := &metaWorld{sm: newStore(), conns: map[string]*metaConn{}, byLimit: map[int]*metaConn{}}
	at := func(where string, c wwr.Connection) {
		m := w.of(c)
		m.check(where, c)
		if hook != nil {
			hook(where, m)
		}
		m.check(where, c)
	}
	impl := &Impl{
		Conn: func(o wwr.ConnectionOptions, c wwr.Connection) {
			m := w.byLimit[o.ConcurrencyLimit]
			if m == nil {
				fail("the connected hook got the options %+v", o)
			}
			if o.Connection != m.opts.Connection || len(o.Info) != len(m.opts.Info) || (o.Info == nil) != (m.opts.Info == nil) || !reflect.DeepEqual(o.Info, m.opts.Info) {
				fail("the connected hook of %s got the options %+v, the transport provided %+v", m.name, o, m.opts)
			}
			if m.c != nil {
				fail("the connected hook of %s ran twice", m.name)
			}
			vsched.Log(func() { m.c, m.to = c, vsched.Now() })
			at("connected hook", c)
		},
		Disc: func(c wwr.Connection, err error) {
			at("disconnected hook", c)
			m := w.of(c)
			vsched.Log(func() { m.disc++; m.reason = err })
		},
		Req: func(c wwr.Connection, _ wwr.Message) (wwr.Payload, error) {
			at("request handler", c)
			return wwr.Payload{}, nil
		},
		Sig: func(c wwr.Connection, _ wwr.Message) { at("signal handler", c) },
	}
	w.sm.onCreate = func(c wwr.Connection) { at("session creation hook", c) }
	w.srv, w.net = server(impl, w.sm.options())
	return w
}

// expect prepares a connection.
func (w *metaWorld) expect(name string, info, limit int, addr net.Addr) *metaConn {
	m := &metaConn{name: name, addr: addr, opts: wwr.ConnectionOptions{Info: metaInfo(info, name), ConcurrencyLimit: limit}}
	w.conns[name] = m
	w.order = append(w.order, name)
	w.byLimit[limit] = m
	return m
}

func (w *metaWorld) connect(m *metaConn) {
	m.from, m.to = vsched.Now(), vsched.Now()
	vsched.Log(func() { m.from = vsched.Now() })
	p := w.net.ConnectWith(m.name, m.opts, func(p *Peer) {
		p.addr = func() (a net.Addr) {
			// sockets have no remote address once they are closed
			vsched.Op("sock.remoteaddr", &p.out, nil, func() {
				if !p.closed {
					a = m.addr
				}
			})
			return
		}
		p.q = m.first
	})
	if p == nil {
		fail("the connection %s was refused", m.name)
	}
	vsched.Log(func() { m.peer = p })
}

func pass(d time.Duration) {
	end := vsched.Now() + int64(d)
	for vsched.AdvanceNext(end) {
	}
}

// metaEnds are the ways a connection ends.
var metaEnds = []string{"hangup", "close", "malformed", "shutdown"}

func (w *metaWorld) end(m *metaConn, how string) {
	switch how {
	case "hangup":
		m.peer.Hangup()
	case "close":
		m.c.Close()
	case "malformed":
		m.peer.Send([]byte{255})
	case "shutdown":
		w.srv.Shutdown()
	}
}

// early queues messages before the connection is opened.
func (m *metaConn) early(b ...[]byte) { m.first = append(m.first, b...) }

// ended ends a connection and checks what was reported.
func (w *metaWorld) ended(m *metaConn, how string) {
	if how != "" {
		w.end(m, how)
		vsched.Quiesce()
	}
	m.check("end", m.c)
	if m.disc != 1 {
		fail("the disconnected hook of %s ran %d times", m.name, m.disc)
	}
	if m.reason == nil {
		fail("the disconnected hook of %s was given no reason", m.name)
	}
}

var metaAddrs = []net.Addr{nil, maddr("1.2.3.4:5"), maddr("")}

// ---- servers and transports with results of their own

// resNet is a model transport with configurable results.
type resNet struct {
	Net
	addr     url.URL
	serveErr error
	shutErr  error
	crash    bool // Serve fails right away
	serves   int
	addrs    int
}

func (n *resNet) Address() url.URL {
	vsched.Log(func() { n.addrs++ })
	return n.addr
}

func (n *resNet) Serve() error {
	vsched.Log(func() { n.serves++ })
	if !n.crash {
		n.Net.Serve()
	}
	return n.serveErr
}

func (n *resNet) Shutdown() error {
	n.Net.Shutdown()
	return n.shutErr
}

var metaURLs = []url.URL{
	{},
	{Scheme: "mock"},
	{Scheme: "https", Host: "host:8080", Path: "/p/q", RawQuery: "x=y", Fragment: "f", User: url.User("u")},
	{Opaque: "o", RawPath: "/%2f", Path: "//", ForceQuery: true},
}

var errServe, errShut = errors.New("serving failed"), errors.New("closing the listener failed")

func init() {
	add(&Scenario{Prop: "C29", Name: "opening", Bounds: [2]int{1, 2}, Timed: true, Weight: 2,
		Doc: "two connections opened at the same time, with every pair of information maps and addresses: hooks, handlers and an observing thread are told the options, address, information and creation time of their connection",
		Body: func() {
			w := newMeta(nil)
			x, y := vsched.Choose(4), vsched.Choose(4)
			a := w.expect("a", x, 1, metaAddrs[(x+y)%3])
			b := w.expect("b", y, -1, metaAddrs[(x+2*y+1)%3])
			pass(3 * time.Second)
			a.early(sig("s"))
			ts := []*task{spawn("connect-a", func() { w.connect(a) }), spawn("connect-b", func() { w.connect(b) })}
			allJoined(ts...)
			if a.c == nil || b.c == nil {
				fail("a connected hook didn't run")
			}
			pass(2 * time.Second)
			for _, m := range []*metaConn{a, b} {
				m.check("afterwards", m.c)
			}
			w.ended(a, "hangup")
			w.ended(b, "close")
		}})
	add(&Scenario{Prop: "C29", Name: "ending", Bounds: [2]int{1, 2}, Timed: true, Weight: 3,
		Doc: "two connections with handlers, an observing thread and a session creation end at the same time, in every pair of ways: everybody is told the same options, address, information and creation time, then and afterwards",
		Body: func() {
			w := newMeta(nil)
			x := vsched.Choose(4)
			a := w.expect("a", x, 1, metaAddrs[x%3])
			b := w.expect("b", (x+1)%4, -1, metaAddrs[(x+1)%3])
			ea, eb := metaEnds[vsched.Choose(4)], metaEnds[vsched.Choose(3)]
			act := vsched.Choose(4)
			pass(3 * time.Second)
			w.connect(a)
			vsched.Quiesce()
			pass(2 * time.Second)
			w.connect(b)
			vsched.Quiesce()
			pass(2 * time.Second)
			var ts []*task
			switch act {
			case 0:
				a.peer.Send(req(1, "r"))
			case 1:
				a.peer.Send(sig("s"))
			case 2:
				ts = append(ts, spawn("observer", func() { a.check("observer", a.c) }))
			case 3:
				ts = append(ts, spawn("create", func() { a.c.CreateSession(nil) }))
			}
			ts = append(ts, spawn("end-a", func() { w.end(a, ea) }), spawn("end-b", func() { w.end(b, eb) }))
			allJoined(ts...)
			w.ended(a, "")
			w.ended(b, "")
			outcome("%d %d", a.seen, b.seen)
		}})
	add(&Scenario{Prop: "C29", Name: "succession", Bounds: [2]int{0, 1}, Timed: true, Weight: 2,
		Doc: "up to four connections one after the other and at the same time, some refused, with every combination of information maps: each keeps its own data, whatever happens to the others; session queries and closures hand out the same connections",
		Body: func() {
			w := newMeta(nil)
			w.sm.put("K")
			names := []string{"a", "b", "c", "d"}
			var open []*metaConn
			for i, n := range names {
				m := w.expect(n, vsched.Choose(4), i+1, maddr("addr-"+n))
				pass(time.Second)
				w.connect(m)
				vsched.Quiesce()
				m.peer.Send(encNameless(tRestoreSession, reqID(1), "K"))
				m.peer.Send(sig("s"))
				vsched.Quiesce()
				open = append(open, m)
				if i < 3 && vsched.Choose(2) == 1 {
					w.end(open[0], metaEnds[i])
					vsched.Quiesce()
					open = open[1:]
				}
				for _, k := range names[:i+1] {
					w.conns[k].check("later", w.conns[k].c)
				}
			}
			seen := map[wwr.Connection]bool{}
			for _, c := range w.srv.SessionConnections("K") {
				w.of(c).check("SessionConnections", c)
				seen[c] = true
			}
			if len(seen) != len(open) {
				fail("SessionConnections lists %d connections, want %d", len(seen), len(open))
			}
			cs, _, _ := w.srv.CloseSession("K")
			for _, c := range cs {
				w.of(c).check("CloseSession", c)
				delete(seen, c)
			}
			if len(seen) > 0 {
				fail("CloseSession reports %d connections, want %d", len(cs), len(open))
			}
		}})
	add(&Scenario{Prop: "C29", Name: "reasons", Bounds: [2]int{1, 2},
		Doc: "the disconnected hook is given the error that ended the connection, for every way the transport may report it, with and without running handlers",
		Body: func() {
			kind := vsched.Choose(4)
			var m *metaConn
			w := newMeta(nil)
			m = w.expect("a", 0, 1, maddr("x"))
			w.connect(m)
			vsched.Quiesce()
			want := "closed"
			text := fmt.Sprintf("cause-%d", kind)
			if vsched.Choose(2) == 1 {
				m.peer.Send(req(1, "r"))
			}
			switch kind {
			case 0:
				m.peer.Hangup()
			case 1:
				m.c.Close()
			case 2, 3:
				m.peer.FailRead(rerr{kind == 2, errors.New(text)})
				want = text
			}
			vsched.Quiesce()
			if m.disc != 1 || m.reason == nil || !strings.Contains(m.reason.Error(), want) {
				fail("the connection ended with %q; the disconnected hook ran %d times with the reason %v", want, m.disc, m.reason)
			}
			if m.c.IsActive() || m.peer.closes == 0 {
				fail("the connection ended but is active (%v) or its socket is open", m.c.IsActive())
			}
		}})
	add(&Scenario{Prop: "C29", Name: "server", Bounds: [2]int{2, 3}, Weight: 2,
		Doc: "Run, Shutdown and Address of a server at the same time, on transports that serve and shut down with every result and have every kind of address, with and without a running handler",
		Body: func() {
			n := &resNet{addr: metaURLs[vsched.Choose(len(metaURLs))], crash: vsched.Choose(2) == 1}
			if n.crash || vsched.Choose(2) == 1 {
				n.serveErr = errServe
			}
			if vsched.Choose(2) == 1 {
				n.shutErr = errShut
			}
			busy := vsched.Choose(2) == 1
			t := newTracker("r")
			s, err := wwr.NewServer(t.impl, quiet(noSessions()), n)
			if err != nil {
				fail("NewServer: %v", err)
			}
			address := func() {
				if a := s.Address(); !reflect.DeepEqual(a, n.addr) {
					fail("Address is %#v, the transport's is %#v", a, n.addr)
				}
			}
			var runErr, shutErr error
			ran := false
			run := spawn("Run", func() { runErr = s.Run(); ran = true })
			vsched.Quiesce()
			if run.isDone() != n.crash {
				fail("Run returned: %v; the transport crashed: %v", run.isDone(), n.crash)
			}
			address()
			var p *Peer
			if busy {
				p = n.Connect("a", connOpts("a", 1))
				p.Send(req(1, "r"))
				vsched.Quiesce()
			}
			sd := spawn("Shutdown", func() { shutErr = s.Shutdown() })
			ad := spawn("Address", address)
			if busy {
				vsched.Quiesce()
				if sd.isDone() || run.isDone() != n.crash {
					fail("Shutdown or Run returned while a handler was running")
				}
				t.g.release("r")
			}
			allJoined(sd, ad, run)
			if busy {
				exactly(p.Got(), 1, handled("r", 1))
			}
			address()
			if !ran || n.serves != 1 {
				fail("the transport served %d times", n.serves)
			}
			if (runErr == nil) != (n.serveErr == nil) || runErr != nil && !strings.Contains(runErr.Error(), n.serveErr.Error()) {
				fail("Run returned %v, the transport %v", runErr, n.serveErr)
			}
			if (shutErr == nil) != (n.shutErr == nil) || shutErr != nil && !strings.Contains(shutErr.Error(), n.shutErr.Error()) {
				fail("Shutdown returned %v, the transport %v", shutErr, n.shutErr)
			}
			if n.shutdown != 1 {
				fail("the transport was shut down %d times", n.shutdown)
			}
			outcome("%v %v", runErr, shutErr)
		}})
	add(&Scenario{Prop: "C29", Name: "memory", Bounds: [2]int{1, 2}, Timed: true, Weight: 2,
		Doc: "two connections dialled at the same time over the in-memory transport: options are assigned to the connections they were made for, addresses are distinct and stay the same on both sides, Run ends with the shutdown",
		Body: func() {
			t := newTracker()
			sets := 0
			given := map[int]wwr.ConnectionOptions{}
			conns := map[string]wwr.Connection{}
			addrs := map[string]string{}
			base := t.impl.Conn
			look := func(where string, c wwr.Connection) {
				n, _ := c.Info(1).(string)
				a := c.RemoteAddr()
				if a == nil || a.Network() != "memchan" || a.String() == "" {
					fail("%s: the remote address of %s is %v", where, n, a)
				}
				vsched.Log(func() {
					if conns[n] == nil {
						conns[n], addrs[n] = c, a.String()
					} else if conns[n] != c || addrs[n] != a.String() {
						fail("%s: the connection or address of %s changed", where, n)
					}
				})
			}
			t.impl.Conn = func(o wwr.ConnectionOptions, c wwr.Connection) {
				if o.Info[1] != c.Info(1) || o.Info[2] != c.Info(2) || c.Info(3) != nil {
					fail("the connected hook got %v but the connection reports %v, %v, %v", o, c.Info(1), c.Info(2), c.Info(3))
				}
				i, _ := o.Info[2].(int)
				if !reflect.DeepEqual(given[i], o) {
					fail("the connected hook got the options %v, given were %v", o, given[i])
				}
				look("connected hook", c)
				base(o, c)
			}
			t.impl.Disc = func(c wwr.Connection, err error) {
				look("disconnected hook", c)
				if err == nil {
					fail("the disconnected hook was given no reason")
				}
			}
			t.impl.Sig = func(c wwr.Connection, _ wwr.Message) { look("signal handler", c) }
			srv, tr := memServer(t.impl, noSessions(), func() (o wwr.ConnectionOptions) {
				vsched.Log(func() {
					i := sets
					sets++
					o = wwr.ConnectionOptions{ConcurrencyLimit: i + 1, Info: map[int]interface{}{1: string("abc"[i]), 2: i}}
					given[i] = o
				})
				return
			})
			if a := srv.Address(); a.Scheme != "memchan" {
				fail("the server's address is %v", a)
			}
			var cs [2]*memClient
			ts := []*task{}
			for i := range cs {
				i := i
				ts = append(ts, spawn(fmt.Sprint("dial", i), func() {
					c := mustDial(tr, fmt.Sprint("client", i))
					vsched.Log(func() { cs[i] = c })
				}))
			}
			allJoined(ts...)
			if sets != 2 || len(conns) != 2 || conns["a"] == conns["b"] || addrs["a"] == addrs["b"] {
				fail("two dials led to the connections %v with the addresses %v", conns, addrs)
			}
			var remote [2]string
			for i, c := range cs {
				a := c.sock.RemoteAddr()
				if a == nil || a.Network() != "memchan" {
					fail("the remote address of client %d is %v", i, a)
				}
				remote[i] = a.String()
			}
			cs[0].Send(sig("s"))
			run := spawn("Run", func() {
				if err := srv.Run(); err != nil {
					fail("Run returned %v", err)
				}
			})
			vsched.Quiesce()
			if run.isDone() {
				fail("Run returned before the shutdown")
			}
			switch vsched.Choose(3) {
			case 0:
				allJoined(spawn("close0", func() { cs[0].sock.Close() }), spawn("closeb", func() { conns["b"].Close() }))
			case 1:
				allJoined(spawn("closea", func() { conns["a"].Close() }))
			}
			sd := spawn("Shutdown", func() {
				if err := srv.Shutdown(); err != nil {
					fail("Shutdown returned %v", err)
				}
			})
			allJoined(sd, run)
			for _, n := range []string{"a", "b"} {
				look("end", conns[n])
			}
			for i, c := range cs {
				if a := c.sock.RemoteAddr(); a == nil || a.Network() != "memchan" || a.String() != remote[i] {
					fail("the remote address of client %d was %s and now is %v", i, remote[i], a)
				}
			}
			// a server that was shut down neither accepts connections nor runs
			sock, err := (&memchan.ClientTransport{Server: tr}).NewSocket(0)
			if err != nil {
				fail("NewSocket: %v", err)
			}
			if sock.Dial(time.Time{}) == nil {
				fail("a dial succeeded after the shutdown")
			}
			again := spawn("Run again", func() { srv.Run() })
			allJoined(again)
		}})
}
