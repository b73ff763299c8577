package harness

import (
	"fmt"
	"time"

	wwr "github.com/qbeon/webwire-go"
	"github.com/qbeon/webwire-go/message"

	"verif/vsched"
)

// dead verifies that a socket is disconnected.
func dead(name string, s wwr.Socket) {
	if s.IsConnected() {
		fail("%s is connected after the close", name)
	}
	if err := s.Read(message.NewMessage(64), time.Time{}); err == nil {
		fail("%s: a read succeeded after the close", name)
	}
	if w, err := s.GetWriter(); err == nil || w != nil {
		fail("%s: GetWriter succeeded after the close", name)
	}
}

func init() {
	kinds := []string{"read-s", "read-c", "write-s", "write-c", "hold-s", "hold-c", "readto-s"}
	for _, two := range []bool{false, true} {
		two := two
		name, bounds := "close", [2]int{2, 3}
		if two {
			name, bounds = "close2", [2]int{1, 2}
		}
		add(&Scenario{Prop: "C23", Name: name, Bounds: bounds, Weight: 3,
			Doc: "any two calls blocked in, or running into, a close from one or both sides: every call returns, blocked ones with an error",
			Body: func() {
				n := newRawNet(64, nil)
				s, c := n.pair()
				closer := vsched.Choose(2)
				k1 := vsched.Choose(len(kinds))
				k2 := k1 + vsched.Choose(len(kinds)-k1)
				var ts []*task
				ops := []string{kinds[k1], kinds[k2]}
				for i, k := range ops {
					k := k
					sock := wwr.Socket(c)
					if k[len(k)-1] == 's' {
						sock = s
					}
					ts = append(ts, spawn(fmt.Sprintf("%s%d", k, i), func() {
						switch k[:4] {
						case "read":
							var d time.Time
							if k == "readto-s" {
								d = time.Unix(1<<40, 0)
							}
							msg := message.NewMessage(64)
							for {
								if err := sock.Read(msg, d); err != nil {
									if !err.IsCloseErr() {
										fail("a read interrupted by a close failed with %v", err)
									}
									return
								}
							}
						case "writ":
							put(sock, sigMsg("x"))
						case "hold":
							w, err := sock.GetWriter()
							if err != nil {
								return
							}
							w.Write([]byte(sigMsg("y")))
							w.Close()
						}
					}))
				}
				closes := []wwr.Socket{s, c}
				for i := 0; i < 2; i++ {
					i := i
					if i == closer || two {
						ts = append(ts, spawn(fmt.Sprint("closer", i), func() {
							if err := closes[i].Close(); err != nil {
								fail("Close: %v", err)
							}
						}))
					}
				}
				allJoined(ts...)
				dead("server socket", s)
				dead("client socket", c)
				if err := c.Close(); err != nil {
					fail("repeated Close: %v", err)
				}
				outcome("%v", ops)
			}})
	}

	add(&Scenario{Prop: "C23", Name: "overflow", Bounds: [2]int{2, 3},
		Doc: "empty and oversized writes concurrent with a close and other writers never block anything",
		Body: func() {
			n := newRawNet(40, nil)
			s, c := n.pair()
			side := vsched.Choose(2)
			bad := vsched.Choose(2)
			b := readAll(s, "reader", 40)
			ts := []*task{
				spawn("bad", func() {
					if bad == 0 {
						put(c)
					} else {
						put(c, string(make([]byte, 41)))
					}
				}),
				spawn("good", func() { put(c, sigMsg("x")) }),
				spawn("closer", func() {
					if side == 0 {
						s.Close()
					} else {
						c.Close()
					}
				}),
			}
			allJoined(ts...)
			if !b.ended() {
				fail("the reader is blocked")
			}
			dead("server socket", s)
			dead("client socket", c)
		}})

	add(&Scenario{Prop: "C23", Name: "reconnect", Bounds: [2]int{1, 2}, Weight: 2,
		Doc: "close and redial with calls of the previous connection still running: they all end and the new connection works",
		Body: func() {
			n := newRawNet(64, nil)
			s1, c := n.pair()
			k := vsched.Choose(3)
			var ts []*task
			switch k {
			case 0:
				ts = append(ts, spawn("read", func() { s1.Read(message.NewMessage(64), time.Time{}) }))
			case 1:
				ts = append(ts, spawn("write", func() { put(s1, sigMsg("old")) }))
			case 2:
				ts = append(ts, spawn("close", func() { s1.Close() }))
			}
			c.Close()
			if err := c.Dial(time.Time{}); err != nil {
				fail("redialing: %v", err)
			}
			vsched.Quiesce()
			if !ts[0].isDone() && k != 1 {
				fail("a call of the previous connection is blocked")
			}
			s2 := n.sock(1)
			if !c.IsConnected() || !s2.IsConnected() {
				fail("the new connection was closed (kind %d)", k)
			}
			if s1.IsConnected() {
				fail("the previous connection's socket reports the new connection as its own")
			}
			b := readAll(c, "client-reader", 64)
			w := spawn("newwrite", func() {
				if err := put(s2, sigMsg("new")); err != nil {
					fail("writing to the new connection: %v", err)
				}
			})
			allJoined(w, ts[0])
			if g := b.msgs(); len(g) != 1 || g[0] != sigMsg("new") {
				fail("the new connection received %q", g)
			}
		}})

	const ms = int64(time.Millisecond)
	add(&Scenario{Prop: "C23", Name: "deadline", Bounds: [2]int{2, 3}, Timed: true, Weight: 2,
		Doc: "a read with a deadline against a message, a close and the passing of time in every order",
		Body: func() {
			n := newRawNet(64, nil)
			s, c := n.pair()
			other := vsched.Choose(3)
			t0 := vsched.Now()
			dl := vtimeAt(t0 + 50*ms)
			var rerr wwr.ErrSockRead
			var at int64
			r := spawn("reader", func() {
				rerr = s.Read(message.NewMessage(64), dl)
				at = vsched.Now()
			})
			remote := readAll(c, "remote", 64)
			var werr error
			w := spawn("other", func() {
				switch other {
				case 1:
					werr = put(c, sigMsg("x"))
				case 2:
					c.Close()
				}
			})
			vsched.AdvanceNext(t0 + 49*ms)
			if other == 0 {
				vsched.Quiesce()
				if r.isDone() {
					fail("a read with a deadline in 50ms ended after 49ms: %v", rerr)
				}
			}
			vsched.AdvanceNext(t0 + 50*ms)
			vsched.Quiesce()
			// let late timers fire
			vsched.AdvanceNext(t0 + 200*ms)
			allJoined(r, w)
			if rerr != nil && !rerr.IsCloseErr() && at < t0+50*ms {
				fail("the read was failed by its deadline after %v", time.Duration(at-t0))
			}
			switch {
			case rerr == nil:
				if other != 1 {
					fail("a read succeeded without a message")
				}
				if !s.IsConnected() {
					fail("the connection was closed though the message was read")
				}
				if werr != nil {
					fail("the message was read but writing it failed: %v", werr)
				}
			default:
				if s.IsConnected() || c.IsConnected() {
					fail("the connection is open after a failed read (%v)", rerr)
				}
				if !remote.ended() {
					fail("the remote reader is blocked after the deadline")
				}
				if other == 0 && rerr.IsCloseErr() {
					fail("the deadline was reported as a closure")
				}
			}
			outcome("%d %v", other, rerr == nil)
		}})

	add(&Scenario{Prop: "C23", Name: "distances", Bounds: [2]int{1, 2}, Timed: true,
		Doc: "reads on both sockets with deadlines long past, just past, now and at various distances, with and without a message waiting: each ends at its deadline at the latest, without a message as a failure other than a closure which disconnects both sides",
		Body: func() {
			n := newRawNet(64, nil)
			s, c := n.pair()
			on, other := s, wwr.Socket(c)
			if vsched.Choose(2) == 1 {
				on, other = c, s
			}
			t0 := vsched.Now()
			dist := []int64{-1 << 55, -1e9, -1, 0, 1, 999, 1e6, 1e9 + 1, 3600e9, 1 << 55}[vsched.Choose(10)]
			msg := vsched.Choose(2) == 1
			var w *task
			var werr error
			if msg {
				w = spawn("writer", func() { werr = put(other, sigMsg("x")) })
				vsched.Quiesce()
			}
			var rerr wwr.ErrSockRead
			var got string
			r := spawn("reader", func() {
				m := message.NewMessage(64)
				rerr = on.Read(m, vtimeAt(t0+dist))
				if rerr == nil {
					got = string(m.MsgBuffer.Data())
				}
			})
			if dist > 0 {
				vsched.AdvanceNext(t0 + dist - 1)
				vsched.Quiesce()
				if !msg && r.isDone() {
					fail("a read with a deadline in %v ended early: %v", time.Duration(dist), rerr)
				}
				vsched.AdvanceNext(t0 + dist)
			}
			vsched.AdvanceNext(vsched.Now())
			vsched.Quiesce()
			if !r.isDone() {
				fail("a read with a deadline in %v is still blocked after it", time.Duration(dist))
			}
			if dist > 0 && msg && rerr != nil {
				fail("a read failed though the message was waiting: %v", rerr)
			}
			if rerr == nil {
				if !msg || got != sigMsg("x") {
					fail("read %q", got)
				}
				allJoined(w)
				if werr != nil {
					fail("the message was read, but writing it failed: %v", werr)
				}
				if !on.IsConnected() || !other.IsConnected() {
					fail("a successful read closed the connection")
				}
			} else {
				if rerr.IsCloseErr() {
					fail("the deadline was reported as a closure")
				}
				dead("the socket", on)
				dead("the other socket", other)
				if msg {
					allJoined(w)
					if werr == nil {
						fail("the message was never read, but writing it succeeded")
					}
				}
			}
			outcome("%v %v %v", dist < 0, msg, rerr == nil)
		}})

	add(&Scenario{Prop: "C23", Name: "deadlines", Bounds: [2]int{1, 2}, Timed: true,
		Doc: "consecutive reads with and without deadlines: an earlier deadline never fails a later read",
		Body: func() {
			n := newRawNet(64, nil)
			s, c := n.pair()
			t0 := vsched.Now()
			first := []int64{10, 20}[vsched.Choose(2)] // when the first message arrives
			second := vsched.Choose(3)                 // deadline of the second read: none, late, early
			var e1, e2 wwr.ErrSockRead
			var at int64
			r := spawn("reader", func() {
				e1 = s.Read(message.NewMessage(64), vtimeAt(t0+20*ms))
				if e1 != nil {
					return
				}
				var d time.Time
				switch second {
				case 1:
					d = vtimeAt(t0 + 100*ms)
				case 2:
					d = vtimeAt(t0 + 30*ms)
				}
				e2 = s.Read(message.NewMessage(64), d)
				at = vsched.Now()
			})
			vsched.Quiesce()
			if first == 10 {
				vsched.AdvanceNext(t0 + 10*ms)
			}
			w := spawn("writer", func() { put(c, sigMsg("x")) })
			if first == 20 {
				vsched.AdvanceNext(t0 + 20*ms)
			}
			vsched.Quiesce()
			if first == 10 && e1 != nil {
				fail("a read with a deadline in 20ms failed after 10ms: %v", e1)
			}
			if e1 != nil {
				allJoined(r, w)
				return
			}
			if first == 10 {
				vsched.AdvanceNext(t0 + 29*ms)
				vsched.Quiesce()
				if r.isDone() {
					fail("the second read ended before its deadline: %v", e2)
				}
			}
			vsched.AdvanceNext(t0 + 30*ms)
			vsched.Quiesce()
			if (second == 2) != r.isDone() {
				fail("second read: done=%v after 30ms (deadline kind %d)", r.isDone(), second)
			}
			vsched.AdvanceNext(t0 + 99*ms)
			vsched.Quiesce()
			if second != 2 && r.isDone() {
				fail("the second read ended before its deadline: %v", e2)
			}
			vsched.AdvanceNext(t0 + 100*ms)
			vsched.Quiesce()
			if (second != 0) != r.isDone() {
				fail("second read: done=%v after 100ms (deadline kind %d)", r.isDone(), second)
			}
			if second == 0 {
				c.Close()
				allJoined(r)
			} else if e2.IsCloseErr() {
				fail("the deadline was reported as a closure")
			}
			_ = at
			allJoined(w)
		}})
}
