package harness

import (
	"fmt"
	"hash/fnv"
	"strings"
	"time"

	wwr "github.com/qbeon/webwire-go"
	"github.com/qbeon/webwire-go/message"
	"github.com/qbeon/webwire-go/transport/memchan"

	"verif/vsched"
)

// rawNet is a bare in-memory transport without a webwire server.
type rawNet struct {
	tr       *memchan.Transport
	o        vsched.Obj
	accepted []wwr.Socket
	opts     []wwr.ConnectionOptions
	downO    vsched.Obj
	down     bool
}

func newRawNet(size uint32, before func() wwr.ConnectionOptions) *rawNet {
	n := &rawNet{tr: &memchan.Transport{OnBeforeCreation: before}}
	n.o.Name = "accepted"
	n.downO.Name = "down"
	err := n.tr.Initialize(wwr.ServerOptions{MessageBufferSize: size},
		func() (d bool) {
			vsched.Op("isshuttingdown", &n.downO, nil, func() { d = n.down })
			return
		},
		func(o wwr.ConnectionOptions, s wwr.Socket) {
			vsched.Op("onnew", &n.o, nil, func() {
				n.accepted = append(n.accepted, s)
				n.opts = append(n.opts, o)
			})
		})
	if err != nil {
		fail("Initialize: %v", err)
	}
	return n
}

func (n *rawNet) setDown() { vsched.Op("setdown", &n.downO, nil, func() { n.down = true }) }

// served returns the number of accepted connections.
func (n *rawNet) served() (c int) {
	vsched.Op("served", &n.o, nil, func() { c = len(n.accepted) })
	return
}

// sock waits for the i-th accepted socket.
func (n *rawNet) sock(i int) (s wwr.Socket) {
	vsched.Op("awaitnew", &n.o, func() bool { return len(n.accepted) > i }, func() { s = n.accepted[i] })
	return
}

func (n *rawNet) client() wwr.ClientSocket {
	c, err := (&memchan.ClientTransport{Server: n.tr}).NewSocket(0)
	if err != nil {
		fail("NewSocket: %v", err)
	}
	return c
}

// pair returns a connected pair.
func (n *rawNet) pair() (srv wwr.Socket, clt wwr.ClientSocket) {
	c := n.client()
	if err := c.Dial(time.Time{}); err != nil {
		fail("Dial: %v", err)
	}
	return n.sock(n.served2()), c
}

// served2 is the index of the socket accepted by the next connection.
func (n *rawNet) served2() int { return 0 }

// put writes one message in parts.
func put(s wwr.Socket, parts ...string) error {
	w, err := s.GetWriter()
	if err != nil {
		return err
	}
	for _, p := range parts {
		if _, err := w.Write([]byte(p)); err != nil {
			w.Close()
			return err
		}
	}
	return w.Close()
}

// inbox reads messages of a socket until it fails.
type inbox struct {
	o    vsched.Obj
	got  []string
	err  wwr.ErrSockRead
	done bool
	t    *task
}

func readAll(s wwr.Socket, name string, size uint32) *inbox {
	b := &inbox{}
	b.o.Name = name
	b.t = spawn(name, func() {
		msg := message.NewMessage(size)
		for {
			err := s.Read(msg, time.Time{})
			if err != nil {
				e := err
				vsched.Op("inbox.end", &b.o, nil, func() { b.err, b.done = e, true })
				return
			}
			d := string(msg.MsgBuffer.Data())
			msg.MsgBuffer.Close()
			vsched.Op("inbox.got", &b.o, nil, func() { b.got = append(b.got, d) })
		}
	})
	return b
}

func (b *inbox) msgs() (g []string) {
	vsched.Op("inbox.look", &b.o, nil, func() { g = append(g, b.got...) })
	return
}

func (b *inbox) count(m string) (n int) {
	for _, g := range b.msgs() {
		if g == m {
			n++
		}
	}
	return
}

func (b *inbox) ended() (d bool) {
	vsched.Op("inbox.look", &b.o, nil, func() { d = b.done })
	return
}

func sigMsg(name string) string { return string(encSignal(name, eBin, "payload-"+name)) }

// allJoined fails when a task did not finish.
func allJoined(ts ...*task) {
	vsched.Quiesce()
	for _, t := range ts {
		if !t.isDone() {
			fail("a call never returned; blocked threads: %v", vsched.Blocked())
		}
	}
}

func init() {
	add(&Scenario{Prop: "C22", Name: "duplex", Bounds: [2]int{1, 2}, Weight: 2,
		Doc: "two messages in each direction at the same time: received exactly once, in order, unchanged",
		Body: func() {
			n := newRawNet(64, nil)
			s, c := n.pair()
			bs, bc := readAll(s, "srv-reader", 64), readAll(c, "clt-reader", 64)
			send := func(sock wwr.Socket, who string) *task {
				return spawn(who, func() {
					for i := 0; i < 2; i++ {
						m := sigMsg(fmt.Sprintf("%s%d", who, i))
						if err := put(sock, m); err != nil {
							fail("writing: %v", err)
						}
					}
				})
			}
			t1, t2 := send(s, "s"), send(c, "c")
			allJoined(t1, t2)
			if g := strings.Join(bc.msgs(), "|"); g != sigMsg("s0")+"|"+sigMsg("s1") {
				fail("client received %q", g)
			}
			if g := strings.Join(bs.msgs(), "|"); g != sigMsg("c0")+"|"+sigMsg("c1") {
				fail("server received %q", g)
			}
		}})

	add(&Scenario{Prop: "C22", Name: "writers", Bounds: [2]int{2, 3}, Weight: 2,
		Doc: "three threads writing multi-part messages on one socket: never merged, split, lost or reordered per writer",
		Body: func() {
			n := newRawNet(64, nil)
			s, c := n.pair()
			from, to := wwr.Socket(c), s
			if vsched.Choose(2) == 1 {
				from, to = s, c
			}
			b := readAll(to, "reader", 64)
			var ts []*task
			var want []string
			for _, w := range []string{"a", "b", "c"} {
				w := w
				k := 1
				if w == "a" {
					k = 2
				}
				for i := 0; i < k; i++ {
					want = append(want, sigMsg(fmt.Sprintf("%s%d", w, i)))
				}
				ts = append(ts, spawn(w, func() {
					for i := 0; i < k; i++ {
						m := sigMsg(fmt.Sprintf("%s%d", w, i))
						if err := put(from, m[:3], m[3:5], m[5:]); err != nil {
							fail("writing: %v", err)
						}
					}
				}))
			}
			allJoined(ts...)
			g := b.msgs()
			if len(g) != len(want) {
				fail("received %q, want %q in some order", g, want)
			}
			for _, m := range want {
				if b.count(m) != 1 {
					fail("message %q was received %d times: %q", m, b.count(m), g)
				}
			}
			i0, i1 := -1, -1
			for i, m := range g {
				if m == sigMsg("a0") {
					i0 = i
				}
				if m == sigMsg("a1") {
					i1 = i
				}
			}
			if i0 > i1 {
				fail("messages of one writer were reordered: %q", g)
			}
			outcome("%q", g)
		}})

	add(&Scenario{Prop: "C22", Name: "readers", Bounds: [2]int{2, 2},
		Doc: "two threads reading from one socket: every message goes to exactly one of them",
		Body: func() {
			n := newRawNet(64, nil)
			s, c := n.pair()
			b1, b2 := readAll(s, "reader1", 64), readAll(s, "reader2", 64)
			w := spawn("writer", func() {
				for i := 0; i < 3; i++ {
					if err := put(c, sigMsg(fmt.Sprint(i))); err != nil {
						fail("writing: %v", err)
					}
				}
			})
			allJoined(w)
			for i := 0; i < 3; i++ {
				if k := b1.count(sigMsg(fmt.Sprint(i))) + b2.count(sigMsg(fmt.Sprint(i))); k != 1 {
					fail("message %d was received %d times", i, k)
				}
			}
			if k := len(b1.msgs()) + len(b2.msgs()); k != 3 {
				fail("%d messages received", k)
			}
		}})

	add(&Scenario{Prop: "C22", Name: "reject", Bounds: [2]int{0, 1},
		Doc: "every sequence of three valid, empty, exactly fitting and oversized messages: invalid ones fail and never arrive, valid ones arrive",
		Body: func() {
			const size = 40
			n := newRawNet(size, nil)
			s, c := n.pair()
			from, to := wwr.Socket(c), s
			if vsched.Choose(2) == 1 {
				from, to = s, c
			}
			b := readAll(to, "reader", size)
			var want []string
			fits := "?" + string(byte(1)) + "f" + strings.Repeat("x", size-3)
			for i := 0; i < 3; i++ {
				kind := vsched.Choose(6)
				var ok bool
				var err error
				w := spawn("writer", func() {
					switch kind {
					case 0:
						m := sigMsg(fmt.Sprint(i))
						want = append(want, m)
						ok = true
						err = put(from, m[:2], m[2:])
					case 1:
						err = put(from)
					case 2:
						err = put(from, fits, "y")
					case 3:
						err = put(from, fits+"y")
					case 4:
						want = append(want, fits)
						ok = true
						err = put(from, fits)
					case 5:
						err = put(from, "")
					}
				})
				vsched.Quiesce()
				if !w.isDone() {
					fail("writing message %d (kind %d) never returned: %v", i, kind, vsched.Blocked())
				}
				if (err == nil) != ok {
					fail("kind %d: write returned %v", kind, err)
				}
			}
			if g := b.msgs(); strings.Join(g, "|") != strings.Join(want, "|") {
				fail("received %q, want %q", g, want)
			}
		}})

	add(&Scenario{Prop: "C22", Name: "unreadable", Bounds: [2]int{1, 2},
		Doc: "every sequence of three valid messages, malformed ones, ones of an unknown type and ones larger than the reader's buffer, in both directions, read by one thread: each read returns the message or fails accordingly, no writer or reader hangs and valid messages arrive unchanged",
		Body: func() {
			n := newRawNet(40, nil)
			s, c := n.pair()
			from, to := wwr.Socket(c), s
			if vsched.Choose(2) == 1 {
				from, to = s, c
			}
			msgs := []string{
				sigMsg("ok"),
				string([]byte{tRequestBin, 1, 2, 3}),
				string([]byte{250, 1, 2, 3}),
				string(encSignal("", eBin, strings.Repeat("l", 30))),
				string([]byte{tSessionClosed, 1}),
			}
			kinds := make([]int, 3)
			for i := range kinds {
				kinds[i] = vsched.Choose(len(msgs))
			}
			w := spawn("writer", func() {
				for _, k := range kinds {
					if err := put(from, msgs[k]); err != nil {
						fail("writing message of kind %d failed: %v", k, err)
					}
				}
			})
			r := spawn("reader", func() {
				msg := message.NewMessage(24)
				for i, k := range kinds {
					err := to.Read(msg, time.Time{})
					switch {
					case k == 0 && (err != nil || string(msg.MsgBuffer.Data()) != msgs[0]):
						fail("message %d of %v: %v, %q", i, kinds, err, msg.MsgBuffer.Data())
					case k != 0 && err == nil:
						fail("message %d of %v was accepted", i, kinds)
					case k != 0 && err.IsCloseErr():
						fail("message %d of %v is taken for a closure", i, kinds)
					}
					msg.MsgBuffer.Close()
				}
			})
			allJoined(w, r)
			if !to.IsConnected() || !from.IsConnected() {
				fail("disconnected after %v", kinds)
			}
			if s.Close() != nil || c.Close() != nil {
				fail("closing failed")
			}
		}})

	add(&Scenario{Prop: "C22", Name: "splits", Bounds: [2]int{0, 0},
		Doc: "messages of every length up to two bytes more than the buffer, written in every way of up to three parts (empty ones included), in both directions and with several buffer sizes: what fits arrives unchanged, what doesn't fails and never arrives, and the socket goes on working",
		Body: func() {
			size := []int{32, 33, 40}[vsched.Choose(3)]
			n := newRawNet(uint32(size), nil)
			s, c := n.pair()
			from, to := wwr.Socket(c), s
			if vsched.Choose(2) == 1 {
				from, to = s, c
			}
			over := vsched.Choose(5) - 2
			total := size + over
			fits := over <= 0
			b := readAll(to, "reader", uint32(size))
			enc := sigMsg("n")
			m := enc + strings.Repeat("x", total-len(enc))
			first := vsched.Choose(total + 1)
			var want []string
			for second := first; second <= total; second++ {
				var err error
				parts := []string{m[:first], m[first:second], m[second:]}
				w := spawn("writer", func() { err = put(from, parts...) })
				vsched.Quiesce()
				if !w.isDone() {
					fail("writing %d bytes in parts of %d, %d and %d never returned", total, first, second-first, total-second)
				}
				if (err == nil) != fits {
					fail("writing %d bytes in parts of %d, %d and %d to a buffer of %d returned %v", total, first, second-first, total-second, size, err)
				}
				if fits {
					want = append(want, m)
				} else {
					want = append(want, enc)
					w := spawn("writer", func() { err = put(from, enc) })
					vsched.Quiesce()
					if !w.isDone() || err != nil {
						fail("writing after an oversized message: %v", err)
					}
				}
			}
			if g := b.msgs(); strings.Join(g, "|") != strings.Join(want, "|") {
				fail("received %q, want %q", g, want)
			}
			outcome("%v", fits)
		}})

	add(&Scenario{Prop: "C22", Name: "sizes", Bounds: [2]int{0, 0},
		Doc: "buffers of 32 bytes to 1 MiB and messages of one byte less than, exactly, and one byte more than the buffer in both directions: those that fit arrive unchanged, the others fail and leave the socket usable",
		Body: func() {
			sizes := []int{32, 33, 127, 128, 129, 255, 256, 257, 1023, 1024, 1025, 4096, 8192, 8193, 1<<15 - 1, 1 << 15, 1<<15 + 1, 1<<16 - 1, 1 << 16, 1<<16 + 1, 100000, 1 << 17, 1 << 20}
			size := sizes[vsched.Choose(len(sizes))]
			n := newRawNet(uint32(size), nil)
			s, c := n.pair()
			from, to := wwr.Socket(c), s
			if vsched.Choose(2) == 1 {
				from, to = s, c
			}
			b := readAll(to, "reader", uint32(size))
			enc := sigMsg("n")
			sum := func(m string) string {
				h := fnv.New64a()
				h.Write([]byte(m))
				return fmt.Sprint(len(m), " ", h.Sum64())
			}
			var want []string
			for _, l := range []int{size - 1, size, size + 1, size - 1, size * 2, size, len(enc), size + 65536, size} {
				m := enc
				if l > len(enc) {
					m += strings.Repeat("x", l-len(enc)-1) + "y"
				}
				var err error
				w := spawn("writer", func() { err = put(from, m) })
				vsched.Quiesce()
				if !w.isDone() || (err == nil) != (l <= size) {
					fail("writing %d bytes to a buffer of %d returned (%v) %v", l, size, w.isDone(), err)
				}
				if l <= size {
					want = append(want, sum(m))
				}
			}
			var got []string
			for _, m := range b.msgs() {
				got = append(got, sum(m))
			}
			if strings.Join(got, "|") != strings.Join(want, "|") {
				fail("buffer of %d: received %q, want %q", size, got, want)
			}
		}})

	add(&Scenario{Prop: "C22", Name: "closing", Bounds: [2]int{2, 3}, Weight: 2,
		Doc: "a close from either side concurrent with two writes: a write that reported success was received, and nothing is received twice or altered",
		Body: func() {
			n := newRawNet(64, nil)
			s, c := n.pair()
			side := vsched.Choose(2)
			b := readAll(s, "reader", 64)
			var errs [2]error
			var ts []*task
			for i := 0; i < 2; i++ {
				i := i
				ts = append(ts, spawn(fmt.Sprint("writer", i), func() { errs[i] = put(c, sigMsg(fmt.Sprint(i))) }))
			}
			ts = append(ts, spawn("closer", func() {
				if side == 0 {
					s.Close()
				} else {
					c.Close()
				}
			}))
			allJoined(ts...)
			for i := 0; i < 2; i++ {
				k := b.count(sigMsg(fmt.Sprint(i)))
				if errs[i] == nil && k != 1 {
					fail("the write of message %d succeeded but it was received %d times", i, k)
				}
				if k > 1 {
					fail("message %d was received twice", i)
				}
			}
			if g := b.msgs(); len(g) > 2 || len(g) != b.count(sigMsg("0"))+b.count(sigMsg("1")) {
				fail("received %q", g)
			}
			outcome("%v %v", errs[0] == nil, errs[1] == nil)
		}})
}
