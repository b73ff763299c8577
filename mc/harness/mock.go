package harness

import (
	"bytes"
	"context"
	"errors"
	"io"
	"log"
	"net"
	"net/url"
	"time"

	wwr "github.com/qbeon/webwire-go"
	"github.com/qbeon/webwire-go/message"

	"verif/vsched"
	"verif/vsched/vtime"
)

// Net is a model transport: connections are pairs of message queues, every
// socket call is one scheduling point, a writer is exclusive until closed.
type Net struct {
	o        vsched.Obj
	opts     wwr.ServerOptions
	down     wwr.IsShuttingDown
	onNew    wwr.OnNewConnection
	peers    []*Peer
	closed   bool
	shutdown int
}

func (n *Net) Initialize(o wwr.ServerOptions, down wwr.IsShuttingDown, onNew wwr.OnNewConnection) error {
	n.opts, n.down, n.onNew = o, down, onNew
	n.o.Name = "net"
	return nil
}

func (n *Net) Serve() error {
	vsched.Op("serve", &n.o, func() bool { return n.closed }, nil)
	return nil
}

func (n *Net) Shutdown() error {
	var ps []*Peer
	vsched.Op("net.shutdown", &n.o, nil, func() {
		n.closed = true
		n.shutdown++
		ps = n.peers
	})
	for _, p := range ps {
		p.Close()
	}
	return nil
}

func (n *Net) Address() url.URL { return url.URL{Scheme: "mock"} }

// Connect opens a connection (nil: refused).
func (n *Net) Connect(name string, o wwr.ConnectionOptions) *Peer {
	return n.ConnectWith(name, o, nil)
}

// ConnectWith opens a connection whose socket was prepared.
func (n *Net) ConnectWith(name string, o wwr.ConnectionOptions, prepare func(*Peer)) *Peer {
	if n.down() {
		return nil
	}
	p := &Peer{net: n, name: name}
	p.in.Name = name + ".in"
	p.out.Name = name + ".out"
	if prepare != nil {
		prepare(p)
	}
	ok := false
	vsched.Op("accept", &n.o, nil, func() {
		if n.closed {
			return
		}
		n.peers = append(n.peers, p)
		ok = true
	})
	if !ok {
		return nil
	}
	vsched.GoNamed("serve-"+name, func() {
		n.onNew(o, p)
		vsched.Op("served", &p.in, nil, func() { p.served = true })
	})
	return p
}

// Peer is one connection: a wwr.Socket for the server and the client's hands.
type Peer struct {
	net    *Net
	name   string
	in     vsched.Obj
	q      [][]byte
	hup    bool // the client hung up: q is still delivered
	closed bool // socket closed by the server
	served bool // onNewConnection returned

	deadlines []int64 // of the reads, virtual time

	out     vsched.Obj
	held    bool
	msgs    [][]byte
	empties int
	// failWrites makes the next writes fail (negative: all), failAt tells
	// whether getting the writer, writing or flushing fails
	failWrites int
	failAt     string
	closes     int
	onClose    func()
	addr       func() net.Addr
	readErr    wwr.ErrSockRead // fails the reads once everything was delivered
	closeErr   error
	onIO       func(op string) // called first in GetWriter, Write, Close and flushing
}

type rerr struct {
	closed bool
	e      error
}

func (e rerr) Error() string    { return "read: " + e.e.Error() }
func (e rerr) IsCloseErr() bool { return e.closed }

type maddr string

func (a maddr) Network() string { return "mock" }
func (a maddr) String() string  { return string(a) }

// ---- server side

func (p *Peer) Read(msg *message.Message, deadline time.Time) wwr.ErrSockRead {
	var b []byte
	if vsched.R != nil {
		d := vtime.Nanos(deadline)
		vsched.Log(func() { p.deadlines = append(p.deadlines, d) })
	}
	vsched.Op("sock.read", &p.in, func() bool { return len(p.q) > 0 || p.hup || p.closed }, func() {
		if !p.closed && len(p.q) > 0 {
			b = p.q[0]
			p.q = append([][]byte{}, p.q[1:]...)
		}
	})
	if b == nil {
		if p.readErr != nil {
			return p.readErr
		}
		return rerr{true, errors.New("closed")}
	}
	ok, err := msg.Read(&accReader{bytes.NewReader(b)})
	if err != nil {
		return rerr{false, err}
	}
	if !ok {
		return rerr{false, errors.New("no message type")}
	}
	return nil
}

// accReader reports the writes to the buffers it's read into.
type accReader struct{ r io.Reader }

func (a *accReader) Read(b []byte) (int, error) {
	n, err := a.r.Read(b)
	vsched.WrS(b[:n])
	return n, err
}

// readMsg reports reads of a message.
func readMsg(m wwr.Message) {
	vsched.RdS(m.Name())
	vsched.RdS(m.Payload())
}

type pwriter struct {
	p    *Peer
	b    []byte
	done bool
	bad  bool // a write failed
}

func (p *Peer) io(op string) {
	if p.onIO != nil {
		p.onIO(op)
	}
}

// failures are the steps of writing a message that can fail.
var failures = []string{"flush", "getwriter", "write"}

var errIO = errors.New("broken socket")

func (p *Peer) GetWriter() (io.WriteCloser, error) {
	p.io("getwriter")
	ok, bad := false, false
	vsched.Op("sock.getwriter", &p.out, func() bool { return !p.held }, func() {
		if bad = p.failAt == "getwriter" && p.failWrites != 0; bad {
			p.failWrites--
			return
		}
		if !p.closed && !p.hup {
			p.held = true
			ok = true
		}
	})
	if bad {
		return nil, errIO
	}
	if !ok {
		return nil, wwr.ErrDisconnected{Cause: errors.New("closed")}
	}
	return &pwriter{p: p}, nil
}

func (w *pwriter) Write(b []byte) (int, error) {
	if w.done {
		fail("write to a socket writer after it was closed")
	}
	w.p.io("write")
	if w.p.failAt == "write" && w.p.failWrites != 0 {
		w.bad = true
		return 0, errIO
	}
	w.b = append(w.b, vsched.RdS(b)...)
	return len(b), nil
}

func (w *pwriter) Close() error {
	if w.done {
		fail("socket writer closed twice")
	}
	w.done = true
	var err error
	p := w.p
	p.io("flush")
	vsched.Op("sock.flush", &p.out, nil, func() {
		p.held = false
		switch {
		case p.closed || p.hup:
			err = errors.New("closed")
		case w.bad:
			p.failWrites--
		case p.failAt != "write" && p.failWrites != 0:
			p.failWrites--
			err = errIO
		case len(w.b) == 0:
			p.empties++
			err = errors.New("no data written")
		default:
			p.msgs = append(p.msgs, w.b)
		}
	})
	return err
}

func (p *Peer) IsConnected() (c bool) {
	vsched.Op("sock.isconnected", &p.out, nil, func() { c = !p.closed && !p.hup })
	return
}

func (p *Peer) RemoteAddr() net.Addr {
	if p.addr != nil {
		return p.addr()
	}
	return maddr(p.name)
}

func (p *Peer) Close() error {
	p.io("close")
	vsched.Op("sock.close", &p.out, nil, func() {
		vsched.Event("sock.close", &p.in, true)
		p.closed = true
		p.closes++
	})
	if p.onClose != nil {
		p.onClose()
	}
	return p.closeErr
}

// ---- client side

// Send sends a message to the server (ignored when closed).
func (p *Peer) Send(b []byte) {
	vsched.Op("client.send", &p.in, nil, func() {
		if !p.closed && !p.hup {
			p.q = append(p.q, b)
		}
	})
}

// Hangup closes the connection from the client's side.
func (p *Peer) Hangup() {
	vsched.Op("client.hangup", &p.out, nil, func() {
		vsched.Event("client.hangup", &p.in, true)
		p.hup = true
	})
}

// FailRead makes reading fail with an error once everything was delivered.
func (p *Peer) FailRead(err wwr.ErrSockRead) {
	vsched.Op("client.failread", &p.out, nil, func() {
		vsched.Event("client.failread", &p.in, true)
		p.readErr = err
		p.hup = true
	})
}

// Got returns the messages received so far.
func (p *Peer) Got() []wire {
	var raw [][]byte
	vsched.Op("client.got", &p.out, nil, func() { raw = p.msgs })
	var ws []wire
	for _, b := range raw {
		ws = append(ws, mustDecode(b))
	}
	return ws
}

// Await waits until n messages (besides the configuration) have arrived or the
// connection is closed.
func (p *Peer) Await(n int) []wire {
	vsched.Op("client.await", &p.out, func() bool { return len(p.msgs) > n || p.closed || p.hup }, nil)
	return p.Got()
}

// AwaitReply waits for a reply with the identifier.
func (p *Peer) AwaitReply(id string) (w wire, ok bool) {
	find := func() bool {
		for _, b := range p.msgs {
			d, err := decode(b)
			if err == nil && d.id == id {
				w, ok = d, true
				return true
			}
		}
		return false
	}
	vsched.Op("client.awaitreply", &p.out, func() bool { return find() || p.closed || p.hup }, nil)
	find()
	return
}

// replies filters the replies to an identifier.
func repliesTo(ws []wire, id string) []wire {
	var out []wire
	for _, w := range ws {
		if w.id == id {
			out = append(out, w)
		}
	}
	return out
}

// Impl is a server implementation made of functions.
type Impl struct {
	Conn func(o wwr.ConnectionOptions, c wwr.Connection)
	Disc func(c wwr.Connection, err error)
	Sig  func(c wwr.Connection, m wwr.Message)
	Req  func(c wwr.Connection, m wwr.Message) (wwr.Payload, error)
}

func (i *Impl) OnClientConnected(o wwr.ConnectionOptions, c wwr.Connection) {
	if i.Conn != nil {
		i.Conn(o, c)
	}
}

func (i *Impl) OnClientDisconnected(c wwr.Connection, err error) {
	if i.Disc != nil {
		i.Disc(c, err)
	}
}

func (i *Impl) OnSignal(_ context.Context, c wwr.Connection, m wwr.Message) {
	readMsg(m)
	if i.Sig != nil {
		i.Sig(c, m)
	}
}

func (i *Impl) OnRequest(_ context.Context, c wwr.Connection, m wwr.Message) (wwr.Payload, error) {
	readMsg(m)
	if i.Req != nil {
		return i.Req(c, m)
	}
	return wwr.Payload{}, nil
}

var discard = log.New(io.Discard, "", 0)

// quiet fills in loggers and small buffers.
func quiet(o wwr.ServerOptions) wwr.ServerOptions {
	if o.WarnLog == nil {
		o.WarnLog = discard
	}
	if o.ErrorLog == nil {
		o.ErrorLog = discard
	}
	if o.MessageBufferSize == 0 {
		o.MessageBufferSize = 128
	}
	return o
}

// server starts a server on a model transport.
func server(impl *Impl, o wwr.ServerOptions) (wwr.Server, *Net) {
	n := &Net{}
	s, err := wwr.NewServer(impl, quiet(o), n)
	if err != nil {
		fail("NewServer: %v", err)
	}
	return s, n
}

func noSessions() wwr.ServerOptions { return wwr.ServerOptions{Sessions: wwr.Disabled} }

// slot captures the server-side connection handed to the connected hook.
type slot struct {
	o vsched.Obj
	c wwr.Connection
}

func (s *slot) set(c wwr.Connection) { vsched.Op("slot.set", &s.o, nil, func() { s.c = c }) }

func (s *slot) get() (c wwr.Connection) {
	vsched.Op("slot.get", &s.o, func() bool { return s.c != nil }, func() { c = s.c })
	return
}

// peek returns the connection if there is one.
func (s *slot) peek() (c wwr.Connection) {
	vsched.Op("slot.peek", &s.o, nil, func() { c = s.c })
	return
}
