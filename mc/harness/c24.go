package harness

import (
	"fmt"
	"time"

	wwr "github.com/qbeon/webwire-go"
	"github.com/qbeon/webwire-go/message"
	"github.com/qbeon/webwire-go/transport/memchan"

	"verif/vsched"
)

// serverGot reads one message on a server socket.
func echoOnce(s wwr.Socket, c wwr.Socket, tag string) {
	b := readAll(c, "clt-"+tag, 64)
	w := spawn("srv-"+tag, func() {
		if err := put(s, sigMsg(tag)); err != nil {
			fail("%s: writing to a fresh connection: %v", tag, err)
		}
	})
	allJoined(w)
	if b.count(sigMsg(tag)) != 1 {
		fail("%s: the connection does not work: received %q", tag, b.msgs())
	}
}

func init() {
	add(&Scenario{Prop: "C24", Name: "refused", Bounds: [2]int{1, 2},
		Doc: "every reason for refusing a dial, first or after an accepted connection: the socket stays disconnected, the server sees nothing, and dialing works again when the reason is gone",
		Body: func() {
			why := vsched.Choose(5)
			after := vsched.Choose(2) == 1
			refuse := &cell{}
			n := newRawNet(64, func() wwr.ConnectionOptions {
				if refuse.get() == 1 {
					return wwr.ConnectionOptions{Connection: wwr.Refuse}
				}
				return wwr.ConnectionOptions{ConcurrencyLimit: 7, Info: map[int]interface{}{1: "i"}}
			})
			c := n.client()
			if after {
				if err := c.Dial(time.Time{}); err != nil {
					fail("Dial: %v", err)
				}
				echoOnce(n.sock(0), c, "first")
				c.Close()
			}
			before := n.served()
			target := c
			switch why {
			case 0:
				refuse.set(1)
			case 1:
				n.setDown()
			case 2:
				if err := n.tr.Shutdown(); err != nil {
					fail("Shutdown: %v", err)
				}
			case 3:
				target, _ = (&memchan.ClientTransport{}).NewSocket(0)
			case 4:
				n.setDown()
				if err := n.tr.Shutdown(); err != nil {
					fail("Shutdown: %v", err)
				}
			}
			for i := 0; i < 2; i++ {
				if err := target.Dial(time.Time{}); err == nil {
					fail("reason %d: dial %d succeeded", why, i)
				}
				dead("refused socket", target)
			}
			vsched.Quiesce()
			if n.served() != before {
				fail("reason %d: the server was given a refused connection", why)
			}
			target.Close()
			if why == 0 {
				refuse.set(0)
				if err := c.Dial(time.Time{}); err != nil {
					fail("dialing after a refusal: %v", err)
				}
				s := n.sock(before)
				if n.opts[before].ConcurrencyLimit != 7 || n.opts[before].Info[1] != "i" {
					fail("the server got the options %v", n.opts[before])
				}
				echoOnce(s, c, "again")
			}
		}})

	add(&Scenario{Prop: "C24", Name: "twice", Bounds: [2]int{2, 3},
		Doc: "two concurrent dials of one socket, optionally with a close: at most one connection at a time, each served exactly once",
		Body: func() {
			n := newRawNet(64, nil)
			c := n.client()
			closing := vsched.Choose(2) == 1
			ok := &cell{}
			dial := func() {
				if c.Dial(time.Time{}) == nil {
					ok.add(1)
				}
			}
			ts := []*task{spawn("dial1", dial), spawn("dial2", dial)}
			if closing {
				ts = append(ts, spawn("close", func() { c.Close() }))
			}
			allJoined(ts...)
			if k := n.served(); k != ok.get() {
				fail("%d dials succeeded, the server was given %d connections", ok.get(), k)
			}
			if ok.get() < 1 || ok.get() == 2 && !closing {
				fail("%d of two concurrent dials succeeded", ok.get())
			}
			if !closing {
				if !c.IsConnected() {
					fail("the socket is disconnected after a successful dial")
				}
				echoOnce(n.sock(0), c, "x")
				if c.Dial(time.Time{}) == nil {
					fail("a connected socket was dialed again")
				}
				if n.served() != 1 || !c.IsConnected() {
					fail("dialing a connected socket had an effect")
				}
			}
			if c.IsConnected() {
				k := 0
				for i := 0; i < n.served(); i++ {
					if n.sock(i).IsConnected() {
						k++
					}
				}
				if k != 1 {
					fail("the client is connected, %d server sockets are", k)
				}
			}
			outcome("%v %d", closing, ok.get())
		}})

	add(&Scenario{Prop: "C24", Name: "shutdown", Bounds: [2]int{2, 3}, Weight: 2,
		Doc: "two dials, a redial and a close concurrent with the transport's shutdown: nothing is connected afterwards",
		Body: func() {
			n := newRawNet(64, nil)
			c0, c1 := n.client(), n.client()
			if err := c0.Dial(time.Time{}); err != nil {
				fail("Dial: %v", err)
			}
			var err1, err2 error
			ts := []*task{
				spawn("dial", func() { err1 = c1.Dial(time.Time{}) }),
				spawn("redial", func() {
					c0.Close()
					err2 = c0.Dial(time.Time{})
				}),
				spawn("shutdown", func() {
					if err := n.tr.Shutdown(); err != nil {
						fail("Shutdown: %v", err)
					}
				}),
			}
			allJoined(ts...)
			if c0.IsConnected() || c1.IsConnected() {
				fail("a connection is open after the shutdown (dial: %v, redial: %v)", err1, err2)
			}
			want := 1
			if err1 == nil {
				want++
			}
			if err2 == nil {
				want++
			}
			if n.served() != want {
				fail("%d dials succeeded, the server was given %d connections", want, n.served())
			}
			for i := 0; i < want; i++ {
				if n.sock(i).IsConnected() {
					fail("server socket %d is connected after the shutdown", i)
				}
			}
			if c1.Dial(time.Time{}) == nil {
				fail("a dial succeeded after the shutdown")
			}
			if err := n.tr.Serve(); err == nil {
				fail("Serve works after the shutdown")
			}
			outcome("%v %v", err1 == nil, err2 == nil)
		}})

	add(&Scenario{Prop: "C24", Name: "serve", Bounds: [2]int{2, 3},
		Doc: "Serve returns once the transport is shut down, also with two concurrent shutdowns",
		Body: func() {
			n := newRawNet(64, nil)
			early := vsched.Choose(2) == 1
			sv := spawn("serve", func() { n.tr.Serve() })
			if early {
				vsched.Quiesce()
				if sv.isDone() {
					fail("Serve returned before the shutdown")
				}
			}
			t1 := spawn("shutdown1", func() { n.tr.Shutdown() })
			t2 := spawn("shutdown2", func() { n.tr.Shutdown() })
			allJoined(sv, t1, t2)
		}})

	add(&Scenario{Prop: "C24", Name: "server", Bounds: [2]int{1, 2}, Weight: 2,
		Doc: "dials concurrent with a server's shutdown: each is either served and closed, or refused and unseen",
		Body: func() {
			seen := &cell{}
			gone := &cell{}
			impl := &Impl{
				Conn: func(o wwr.ConnectionOptions, c wwr.Connection) {
					if o.ConcurrencyLimit != 3 {
						fail("the server got the options %v", o)
					}
					seen.add(1)
				},
				Disc: func(c wwr.Connection, err error) { gone.add(1) },
			}
			s, tr := memServer(impl, noSessions(), func() wwr.ConnectionOptions { return wwr.ConnectionOptions{ConcurrencyLimit: 3} })
			var e1 error
			var c1 *memClient
			d1 := spawn("dial1", func() { c1, e1 = memDial(tr, "c1", 128) })
			sh := spawn("shutdown", func() {
				if err := s.Shutdown(); err != nil {
					fail("Shutdown: %v", err)
				}
			})
			allJoined(d1, sh)
			if c1 != nil && (c1.sock.IsConnected() || !c1.Ended()) {
				fail("a connection is open after the shutdown")
			}
			if (e1 != nil) && seen.get() > 0 {
				fail("a refused connection reached the server")
			}
			if seen.get() > 1 || gone.get() != seen.get() {
				fail("connected hook %d times, disconnected hook %d times", seen.get(), gone.get())
			}
			if _, err := memDial(tr, "late", 128); err == nil {
				fail("a dial succeeded after the shutdown")
			}
			outcome("%v %d", e1 == nil, seen.get())
		}})

	add(&Scenario{Prop: "C24", Name: "redial", Bounds: [2]int{1, 2},
		Doc: "a client that reconnects while a handler of its previous connection is running gets a connection of its own: no late reply, no closure by the old one",
		Body: func() {
			t := newTracker("x")
			var conns []wwr.Connection
			co := &cell{}
			t.impl.Conn = func(o wwr.ConnectionOptions, c wwr.Connection) {
				conns = append(conns, c)
				co.add(1)
			}
			closeOld := vsched.Choose(2) == 1
			_, tr := memServer(t.impl, noSessions(), func() wwr.ConnectionOptions { return wwr.ConnectionOptions{ConcurrencyLimit: 2} })
			c := mustDial(tr, "c")
			co.await(1)
			if err := c.Send(req(1, "x")); err != nil {
				fail("Send: %v", err)
			}
			t.g.awaitAt("x")
			c.sock.Close()
			c.rd.join()
			c2 := &memClient{name: "c2", sock: c.sock}
			if err := c.sock.Dial(time.Time{}); err != nil {
				fail("redialing: %v", err)
			}
			c2.readLoop(128)
			co.await(2)
			if closeOld {
				conns[0].Close()
			}
			t.g.release("x")
			vsched.Quiesce()
			if !c.sock.IsConnected() || c2.Ended() {
				fail("the new connection was closed by the old one")
			}
			if err := c2.Send(req(1, "y")); err != nil {
				fail("Send: %v", err)
			}
			vsched.Quiesce()
			exactly(c2.Got(), 1, handled("y", 1))
			if conns[0].IsActive() || !conns[1].IsActive() {
				fail("old connection active: %v, new: %v", conns[0].IsActive(), conns[1].IsActive())
			}
			if err := conns[0].Signal([]byte("old"), wwr.Payload{}); err == nil {
				fail("a signal was sent on the previous connection")
			}
			vsched.Quiesce()
			if g := c2.Got(); len(g) != 2 {
				fail("the new connection received %s", show(g))
			}
		}})
	_ = message.NewMessage
	_ = fmt.Sprint
}
