package harness

import (
	"bytes"
	"fmt"
	"strings"

	wwr "github.com/qbeon/webwire-go"

	"verif/vsched"
)

func init() {
	// watch checks a message at the start and the end of its handler
	watch := func(g *gates, m wwr.Message, want string) []byte {
		id := m.Identifier()
		name, pl, enc := m.Name(), m.Payload(), m.PayloadEncoding()
		n0, p0 := append([]byte{}, name...), append([]byte{}, pl...)
		if string(n0) != want || !bytes.HasPrefix(p0, []byte("payload-"+want)) {
			fail("the handler of %s got name %q and payload %q", want, n0, p0)
		}
		if g != nil {
			g.pass(want)
		}
		same := func(what string, a, b any) {
			if fmt.Sprint(a) != fmt.Sprint(b) {
				fail("the %s of message %s changed from %q to %q while its handler was running", what, want, a, b)
			}
		}
		same("identifier", id, m.Identifier())
		same("name", n0, m.Name())
		same("payload", p0, m.Payload())
		same("encoding", enc, m.PayloadEncoding())
		same("name slice", n0, name)
		same("payload slice", p0, pl)
		u, err := m.PayloadUtf8()
		if err != nil {
			fail("PayloadUtf8: %v", err)
		}
		same("UTF-8 payload", p0, u)
		return pl
	}

	type message interface{ Name() []byte }
	rq := func(i int) []byte {
		k := fmt.Sprintf("m%d", i)
		return encRequest(reqID(i), k, eBin, "payload-"+k)
	}

	for _, mem := range []bool{false, true} {
		mem := mem
		name := "gated"
		bounds := [2]int{1, 2}
		if mem {
			name, bounds = "gatedmem", [2]int{0, 1}
		}
		add(&Scenario{Prop: "C13", Name: name, Bounds: bounds, Weight: 2,
			Doc: "handlers that are held up while other messages (requests, signals, heartbeats, rejected and unexpected ones) are read, in every release order, with payloads of several sizes; replies echo the message's own payload",
			Body: func() {
				g := newGates()
				vsched.PoolFIFO(vsched.Choose(2) == 1)
				// how much longer the payloads of m1, m2 and m3 are
				pad := [][3]int{{0, 0, 0}, {40, 60, 50}, {0, 106, 70}, {106, 0, 0}}[vsched.Choose(4)]
				pl := func(i int) string {
					s := fmt.Sprintf("payload-m%d", i)
					if i < 4 {
						s += strings.Repeat(fmt.Sprint(i), pad[i-1])
					}
					return s
				}
				rq := func(i int) []byte { return encRequest(reqID(i), fmt.Sprintf("m%d", i), eBin, pl(i)) }
				impl := &Impl{
					Req: func(c wwr.Connection, m wwr.Message) (wwr.Payload, error) {
						return wwr.Payload{Data: watch(g, m, string(append([]byte{}, m.Name()...)))}, nil
					},
					Sig: func(c wwr.Connection, m wwr.Message) {},
				}
				opts := wwr.ConnectionOptions{ConcurrencyLimit: -1}
				var send func([]byte)
				var got func() []wire
				if mem {
					_, tr := memServer(impl, noSessions(), func() wwr.ConnectionOptions { return opts })
					c := mustDial(tr, "a")
					send = func(b []byte) {
						if err := c.Send(b); err != nil {
							fail("Send: %v", err)
						}
					}
					got = c.Got
				} else {
					_, n := server(impl, noSessions())
					a := n.Connect("a", opts)
					send, got = a.Send, a.Got
				}
				noise := func() {
					switch vsched.Choose(4) {
					case 1:
						send([]byte{tHeartbeat})
					case 2:
						send(encSignal("zz", eUtf8, "signal payload"))
					case 3:
						send(encNameless(tReplyBin, "unexpect", "unexpected"))
					}
				}
				send(rq(1))
				g.awaitAt("m1")
				noise()
				send(rq(2))
				g.awaitAt("m2")
				noise()
				order := [][]string{{"m1", "m2"}, {"m2", "m1"}}[vsched.Choose(2)]
				g.release(order[0])
				vsched.Quiesce()
				send(rq(3))
				g.awaitAt("m3")
				g.release("m3")
				vsched.Quiesce()
				send(encRequest(reqID(4), "m4", eUtf8, pl(4)))
				g.release("m4")
				g.release(order[1])
				vsched.Quiesce()
				for i := 1; i <= 4; i++ {
					exactly(got(), i, replyOf(eBin, pl(i))(reqID(i)))
				}
			}})
	}

	add(&Scenario{Prop: "C13", Name: "twoconns", Bounds: [2]int{1, 2}, Weight: 2, Race: true,
		Doc: "ungated handlers on two connections sharing the message pool, under every schedule: no message changes, no unordered access to a message",
		Body: func() {
			impl := &Impl{
				Req: func(c wwr.Connection, m wwr.Message) (wwr.Payload, error) {
					return wwr.Payload{Data: watch(nil, m, string(append([]byte{}, m.Name()...)))}, nil
				},
				Sig: func(c wwr.Connection, m wwr.Message) { watch(nil, m, string(append([]byte{}, m.Name()...))) },
			}
			_, n := server(impl, noSessions())
			a := n.Connect("a", connOpts("a", 2))
			b := n.Connect("b", connOpts("b", 1))
			a.Send(rq(1))
			a.Send([]byte(encSignal("m2", eBin, "payload-m2")))
			b.Send(rq(3))
			a.Send(rq(4))
			vsched.Quiesce()
			for _, i := range []int{1, 4} {
				exactly(a.Got(), i, replyOf(eBin, fmt.Sprintf("payload-m%d", i))(reqID(i)))
			}
			exactly(b.Got(), 3, replyOf(eBin, "payload-m3")(reqID(3)))
		}})

	add(&Scenario{Prop: "C13", Name: "rejected", Bounds: [2]int{1, 2}, Race: true,
		Doc: "messages rejected by a closing connection or server, session requests and a handler in progress: their buffers are not reused while in use",
		Body: func() {
			vsched.PoolFIFO(vsched.Choose(2) == 1)
			g := newGates()
			impl := &Impl{
				Req: func(c wwr.Connection, m wwr.Message) (wwr.Payload, error) {
					return wwr.Payload{Data: watch(g, m, string(append([]byte{}, m.Name()...)))}, nil
				},
			}
			sl := &slot{}
			impl.Conn = func(o wwr.ConnectionOptions, c wwr.Connection) {
				if o.Info[1] == "a" {
					sl.set(c)
				}
			}
			s, n := server(impl, noSessions())
			a := n.Connect("a", connOpts("a", 3))
			b := n.Connect("b", connOpts("b", 2))
			ca := sl.get()
			a.Send(rq(1))
			g.awaitAt("m1")
			how := vsched.Choose(2)
			var sd *task
			if how == 0 {
				ca.Close()
			} else {
				sd = spawn("shutdown", func() { s.Shutdown() })
				vsched.Quiesce()
			}
			a.Send(rq(2))
			a.Send(encNameless(tRestoreSession, reqID(5), "key"))
			b.Send(rq(3))
			if how == 0 {
				g.awaitAt("m3")
				b.Send(rq(4))
				g.awaitAt("m4")
			} else {
				b.Send(rq(4))
			}
			vsched.Quiesce()
			for _, k := range []string{"m4", "m1", "m3"} {
				g.release(k)
			}
			vsched.Quiesce()
			if sd != nil {
				allJoined(sd)
			}
			exactly(a.Got(), 1, replyOf(eBin, "payload-m1")(reqID(1)))
			exactly(a.Got(), 2, refused(2))
			exactly(a.Got(), 5, refused(5))
			for i := 3; i <= 4; i++ {
				if how == 0 {
					exactly(b.Got(), i, replyOf(eBin, fmt.Sprintf("payload-m%d", i))(reqID(i)))
				} else {
					exactly(b.Got(), i, refused(i))
				}
			}
		}})

	add(&Scenario{Prop: "C13", Name: "released", Bounds: [2]int{1, 2}, Race: true,
		Doc: "every kind of message that is released at once (heartbeats, unexpected, refused and malformed ones, signals) on one connection while handlers of another one run, whose messages aren't touched by the release",
		Body: func() {
			vsched.PoolFIFO(vsched.Choose(2) == 1)
			impl := &Impl{
				Req: func(c wwr.Connection, m wwr.Message) (wwr.Payload, error) {
					return wwr.Payload{Data: watch(nil, m, string(append([]byte{}, m.Name()...)))}, nil
				},
				Sig: func(c wwr.Connection, m wwr.Message) {},
			}
			_, n := server(impl, noSessions())
			a := n.Connect("a", connOpts("a", []int{1, 2}[vsched.Choose(2)]))
			b := n.Connect("b", connOpts("b", 2))
			switch vsched.Choose(7) {
			case 0:
				a.Send([]byte{tHeartbeat})
			case 1:
				a.Send(encNameless(tReplyBin, "unexpect", "unexpected"))
			case 2:
				a.Send(encNameless(tRestoreSession, reqID(5), "key"))
			case 3:
				a.Send(encNameless(tCloseSession, reqID(5), ""))
			case 4:
				a.Send(encSignal("zz", eUtf8, "signal payload"))
			case 5:
				a.Send([]byte{tRequestBin, 1, 2})
			case 6:
				a.Hangup()
			}
			b.Send(rq(1))
			b.Send(rq(2))
			vsched.Quiesce()
			for i := 1; i <= 2; i++ {
				exactly(b.Got(), i, replyOf(eBin, fmt.Sprintf("payload-m%d", i))(reqID(i)))
			}
		}})
}
