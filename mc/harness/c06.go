package harness

import (
	"fmt"

	wwr "github.com/qbeon/webwire-go"

	"verif/vsched"
)

// sigClient is a client of either transport.
type sigClient interface {
	Got() []wire
	AwaitReply(id string) (wire, bool)
}

// sigWorld opens one connection with the given message buffer size.
func sigWorld(mem bool, size uint32, lim int) (t *tracker, con wwr.Connection, cl sigClient, send func([]byte)) {
	t = newTracker()
	o := noSessions()
	o.MessageBufferSize = size
	if mem {
		_, tr := memServer(t.impl, o, func() wwr.ConnectionOptions { return connOpts("a", lim) })
		c, err := memDial(tr, "a", size)
		if err != nil {
			fail("Dial: %v", err)
		}
		return t, t.conns["a"].get(), c, func(b []byte) { c.Send(b) }
	}
	_, n := server(t.impl, o)
	p := n.Connect("a", connOpts("a", lim))
	return t, t.conns["a"].get(), p, p.Send
}

// signals filters the signals.
func signals(ws []wire) (out []string) {
	for _, w := range ws {
		if w.typ >= tSignalBin && w.typ <= tSignalUtf16 {
			out = append(out, w.String())
		}
	}
	return
}

// fits tells whether a signal may be sent.
func (s sigCase) fits(size int) bool {
	w := wcase{f: wSignal, name: s.name, enc: s.enc, data: s.payload, safe: true}
	if _, ok := w.valid(); !ok {
		return false
	}
	b, _ := w.expect()
	return len(b) <= size
}

func (s sigCase) send(c wwr.Connection) error {
	return c.Signal([]byte(s.name), wwr.Payload{Encoding: encs[s.enc], Data: []byte(s.payload)})
}

func (s sigCase) wire() string {
	return wire{typ: tSignalBin + s.enc, name: s.name, payload: s.payload, enc: s.enc}.String()
}

func init() {
	for _, mem := range []bool{false, true} {
		mem := mem
		suffix := ""
		if mem {
			suffix = "mem"
		}
		add(&Scenario{Prop: "C06", Name: "limit" + suffix, Bounds: [2]int{0, 0}, Weight: 2,
			Doc: "signals with every name length and every payload length up to and beyond several buffer sizes in every encoding; after each rejected one a valid signal and a reply arrive",
			Body: func() {
				size := []int{32, 33, 34, 35, 39, 64, 300, 301}[vsched.Choose(8)]
				enc := vsched.Choose(3)
				// name lengths in slices
				var names []int
				if size > 255 {
					names = []int{0, 1, 2, 253, 254, 255, 256, 257, 258}
				} else {
					names = seqTo(0, size+2)
				}
				const per = 6
				k := vsched.Choose((len(names) + per - 1) / per)
				names = names[k*per : min(len(names), (k+1)*per)]
				_, con, cl, send := sigWorld(mem, uint32(size), 2)
				var want []string
				lastBad, replies := "", 0
				for _, nl := range names {
					lens := seqTo(max(0, size-nl-6), size-nl+3)
					lens = append([]int{0, 1, 2, 3}, lens...)
					lens = append(lens, size, size+1, 2*size)
					for _, pl := range lens {
						if pl < 0 {
							continue
						}
						s := sigCase{textOf(nl, 0), dataOf(pl, 0), enc}
						err := s.send(con)
						ok := s.fits(size)
						if ok != (err == nil) {
							fail("buffer %d: a signal with a name of %d and a payload of %d bytes, encoding %d: %v", size, nl, pl, enc, err)
						}
						if ok {
							want = append(want, s.wire())
							continue
						}
						if lastBad == fmt.Sprint(nl, pl > 3) {
							continue
						}
						lastBad = fmt.Sprint(nl, pl > 3)
						v := sigCase{"v", "ok", enc}
						if err := v.send(con); err != nil {
							fail("a valid signal after a rejected one: %v", err)
						}
						want = append(want, v.wire())
						replies++
						send(req(replies, "r"))
						if w, ok := cl.AwaitReply(reqID(replies)); !ok || w.typ < tReplyBin {
							fail("a request after a rejected signal got %v", w)
						}
					}
				}
				vsched.Quiesce()
				got := signals(cl.Got())
				if fmt.Sprint(got) != fmt.Sprint(want) {
					fail("buffer %d: %d signals arrived, %d were reported as sent:\n%v\n%v", size, len(got), len(want), got, want)
				}
			}})

		add(&Scenario{Prop: "C06", Name: "huge" + suffix, Bounds: [2]int{0, 0},
			Doc: "names and payloads whose lengths exceed the buffer by multiples of 256, 32 K, 64 K and 16 M, or fill large buffers exactly, in every encoding: the limit doesn't wrap around",
			Body: func() {
				sizes := []int{32, 300, 65535, 65536, 65540, 1 << 17}
				if mem {
					sizes = []int{32, 65540}
				}
				size := sizes[vsched.Choose(len(sizes))]
				enc := vsched.Choose(3)
				_, con, cl, send := sigWorld(mem, uint32(size), 2)
				type lens struct{ name, payload int }
				var all []lens
				for _, n := range []int{0, 1, 2, 254, 255} {
					for _, base := range []int{0, size, 1 << 8, 1 << 9, 1 << 15, 1 << 16, 1 << 17, 1 << 18} {
						for d := -n - 4; d <= 6; d++ {
							if d > -n && d < -6 {
								continue
							}
							all = append(all, lens{n, base + d})
						}
					}
				}
				for _, n := range []int{256, 257, 258, 300, 511, 512, 513, 520, 1 << 15, 1 << 16, 1<<16 + 1, 1<<16 + 2, 1<<16 + 20} {
					all = append(all, lens{n, 0}, lens{n, 1}, lens{n, 2}, lens{n, 10})
				}
				if size == 32 {
					all = append(all, lens{0, 1<<24 + 2}, lens{1, 1<<24 + 4})
				}
				// compare lengths and a few bytes
				brief := func(name, payload string) string {
					if len(payload) > 20 {
						payload = payload[:10] + "..." + payload[len(payload)-10:]
					}
					return fmt.Sprintf("%d %q", len(payload), payload)
				}
				var want []string
				for _, l := range all {
					if l.payload < 0 {
						continue
					}
					s := sigCase{textOf(l.name, 0), dataOf(l.payload, 0), enc}
					err := s.send(con)
					ok := s.fits(size)
					if ok != (err == nil) {
						fail("buffer %d: a signal with a name of %d and a payload of %d bytes, encoding %d: %v", size, l.name, l.payload, enc, err)
					}
					if ok {
						want = append(want, fmt.Sprint(l)+brief(s.name, s.payload))
					}
				}
				send(req(1, "r"))
				if w, ok := cl.AwaitReply(reqID(1)); !ok || w.typ < tReplyBin {
					fail("a request after rejected signals got %v", w)
				}
				vsched.Quiesce()
				n := 0
				for _, g := range cl.Got() {
					if g.typ < tSignalBin || g.typ > tSignalUtf16 {
						continue
					}
					s := fmt.Sprint(lens{len(g.name), len(g.payload)}) + brief(g.name, g.payload)
					if n >= len(want) || s != want[n] {
						fail("buffer %d: signal %d arrived as %s", size, n, s)
					}
					n++
				}
				if n != len(want) {
					fail("buffer %d: %d signals arrived, %d were reported as sent", size, n, len(want))
				}
			}})

		add(&Scenario{Prop: "C06", Name: "characters" + suffix, Bounds: [2]int{0, 0},
			Doc: "signals with every byte value in their name: unprintable ones are rejected and leave no trace",
			Body: func() {
				pos := vsched.Choose(3)
				block := vsched.Choose(8)
				enc := vsched.Choose(3)
				_, con, cl, send := sigWorld(mem, 64, 2)
				var want []string
				for v := block * 32; v < block*32+32; v++ {
					b := []byte("abc")
					b[pos] = byte(v)
					s := sigCase{string(b), "pl", enc}
					err := s.send(con)
					if (err == nil) != printable(s.name) {
						fail("name %q: %v", b, err)
					}
					if err == nil {
						want = append(want, s.wire())
					} else {
						s.name = "ok"
						if err := s.send(con); err != nil {
							fail("a valid signal after a rejected one: %v", err)
						}
						want = append(want, s.wire())
					}
				}
				send(req(1, "r"))
				if w, ok := cl.AwaitReply(reqID(1)); !ok || w.typ < tReplyBin {
					fail("a request after rejected signals got %v", w)
				}
				vsched.Quiesce()
				if got := signals(cl.Got()); fmt.Sprint(got) != fmt.Sprint(want) {
					fail("arrived: %v, reported as sent: %v", got, want)
				}
			}})

		add(&Scenario{Prop: "C06", Name: "concurrent" + suffix, Bounds: [2]int{1, 2}, Weight: 2,
			Doc: "a rejected signal (too large, nothing to send, odd UTF-16, unprintable name, too long name) while another thread sends a valid one and a request is answered: everything else is unaffected under every schedule",
			Body: func() {
				bad := []sigCase{
					{"n", dataOf(40, 0), eBin},
					{"", "", eUtf8},
					{"n", "odd", eUtf16},
					{"\x01", "x", eUtf8},
					{"abc", dataOf(28, 0), eUtf16}, // exceeds the buffer because of its padding only
				}[vsched.Choose(5)]
				_, con, cl, send := sigWorld(mem, 33, 2)
				good := sigCase{"good", "gg", eUtf16}
				var e1, e2 error
				a := spawn("bad", func() { e1 = bad.send(con) })
				b := spawn("good", func() { e2 = good.send(con) })
				send(req(1, "r"))
				w, ok := cl.AwaitReply(reqID(1))
				joinAll(a, b)
				if e1 == nil || e2 != nil {
					fail("invalid signal: %v, valid signal: %v", e1, e2)
				}
				if !ok || w.typ < tReplyBin {
					fail("the request got %v", w)
				}
				// and afterwards
				if err := good.send(con); err != nil {
					fail("later signal: %v", err)
				}
				send(req(2, "r"))
				if w, ok := cl.AwaitReply(reqID(2)); !ok || w.typ < tReplyBin {
					fail("the later request got %v", w)
				}
				vsched.Quiesce()
				if got := signals(cl.Got()); fmt.Sprint(got) != fmt.Sprint([]string{good.wire(), good.wire()}) {
					fail("arrived: %v", got)
				}
				outcome("%v", e1)
			}})
	}

	add(&Scenario{Prop: "C06", Name: "faulty", Bounds: [2]int{0, 1},
		Doc: "model transport: signals whose transmission fails are reported as errors, the client gets nothing of them and later ones arrive",
		Body: func() {
			_, con, cl, send := sigWorld(false, 64, 2)
			p := cl.(*Peer)
			i := vsched.Choose(len(sigCases))
			p.failWrites = 1
			if err := sigCases[i].send(con); err == nil {
				fail("a failed transmission was not reported")
			}
			if err := sigCases[i].send(con); err != nil {
				fail("later signal: %v", err)
			}
			send(req(1, "r"))
			if w, ok := cl.AwaitReply(reqID(1)); !ok || w.typ < tReplyBin {
				fail("the request got %v", w)
			}
			if got := signals(cl.Got()); fmt.Sprint(got) != fmt.Sprint([]string{sigCases[i].wire()}) {
				fail("arrived: %v", got)
			}
			p.Hangup()
			vsched.Quiesce()
			if err := sigCases[i].send(con); err == nil {
				fail("a signal on a closed connection was reported as sent")
			}
		}})
}
