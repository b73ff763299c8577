package harness

import (
	"context"
	"fmt"
	"math"
	"reflect"
	"strings"
	"time"

	wwr "github.com/qbeon/webwire-go"
	reqman "github.com/qbeon/webwire-go/requestManager"

	"verif/vsched"
)

// anyMessage chooses a message: one of every type byte (most of them malformed
// or unexpected) or one of the usual kinds.
func anyMessage(id int, all bool) (string, []byte) {
	usual := []struct {
		name string
		b    []byte
	}{
		{"request", req(id, "n")},
		{"failing request", req(id, "err")},
		{"internally failing request", req(id, "internal")},
		{"request with an unencodable reply", req(id, "unencodable")},
		{"nameless request", encRequest(reqID(id), "", eUtf8, "p")},
		{"UTF-16 request", encRequest(reqID(id), "n", eUtf16, "pq")},
		{"signal", sig("s")},
		{"UTF-16 signal", encSignal("n", eUtf16, "pq")},
		{"heartbeat", []byte{tHeartbeat}},
		{"restoration", encNameless(tRestoreSession, reqID(id), "nosuchkey")},
		{"closure", encNameless(tCloseSession, reqID(id), "")},
		{"reply", encNameless(tReplyBin, reqID(id), "x")},
		{"error reply", append(encNameless(tReplyError, reqID(id), "\x01C"), "x"...)},
		{"shutdown reply", encNameless(tReplyShutdown, reqID(id), "")},
		{"configuration", append([]byte{tAcceptConf, 2, 0}, "12345678"...)},
		{"session notification", append([]byte{tSessionCreated}, "{}"...)},
		{"closure notification", []byte{tSessionClosed}},
	}
	n := len(usual)
	if all {
		n += 256
	}
	k := vsched.Choose(n)
	if k < len(usual) {
		return usual[k].name, usual[k].b
	}
	k -= len(usual)
	return fmt.Sprintf("message of type %d", k), encNameless(k, reqID(id), "\x01xy")
}

// fallible returns results by the name of the request.
func fallible(k string) (wwr.Payload, error) {
	switch k {
	case "err":
		return wwr.Payload{}, wwr.ErrRequest{Code: "E", Message: "M"}
	case "internal":
		return wwr.Payload{}, errHook
	case "unencodable":
		return wwr.Payload{Encoding: wwr.EncodingUtf16, Data: []byte("x")}, nil
	}
	return wwr.Payload{Data: []byte("re-" + k)}, nil
}

// after sends any one message (or two of the usual ones) on a connection of a
// server with or without sessions and hands over to the judge.
func after(judge func(s wwr.Server, n *Net, t *tracker, p *Peer, sent string)) {
	lim := []int{1, 2, -1}[vsched.Choose(3)]
	t := newTracker()
	t.impl.Req = func(_ wwr.Connection, m wwr.Message) (wwr.Payload, error) { return fallible(string(m.Name())) }
	o := noSessions()
	if vsched.Choose(2) == 0 {
		o = newStore().options()
	}
	s, n := server(t.impl, o)
	p := n.Connect("a", connOpts("a", lim))
	t.conns["a"].get()
	pair := vsched.Choose(2) == 1
	sent, b := anyMessage(1, !pair)
	p.Send(b)
	if pair {
		if vsched.Choose(2) == 0 {
			vsched.Quiesce()
		}
		what, b := anyMessage(2, false)
		p.Send(b)
		sent += ", " + what
	}
	vsched.Quiesce()
	judge(s, n, t, p, fmt.Sprintf("limit %d, sent %s", lim, sent))
}

func (p *Peer) isClosed() (c bool) {
	vsched.Op("look", &p.out, nil, func() { c = p.closed })
	return
}

func init() {
	add(&Scenario{Prop: "C08", Name: "aftermath", Bounds: [2]int{0, 1}, Delay: true,
		Doc: "after any message (all type bytes), or any two usual or unexpected ones, was handled, Shutdown returns at once and nothing is handled any more",
		Body: func() {
			after(func(s wwr.Server, n *Net, t *tracker, p *Peer, sent string) {
				b := n.Connect("b", connOpts("b", 1))
				t.conns["b"].get()
				b.Send(req(1, "x"))
				if r, ok := b.AwaitReply(reqID(1)); !ok || r != handled("x", 1) {
					fail("%s: another request was answered with %v", sent, r)
				}
				vsched.Quiesce()
				down := spawn("shutdown", func() {
					if err := s.Shutdown(); err != nil {
						fail("Shutdown: %v", err)
					}
				})
				vsched.Quiesce()
				if !down.isDone() {
					fail("%s: Shutdown doesn't return although no handler is running", sent)
				}
				if !b.isClosed() || !p.isClosed() || n.Connect("c", connOpts("c", 1)) != nil {
					fail("%s: the server isn't shut down", sent)
				}
			})
		}})

	add(&Scenario{Prop: "C09", Name: "aftermath", Bounds: [2]int{0, 1}, Delay: true,
		Doc: "after any message (all type bytes), or any two usual or unexpected ones, was handled, closing the connection closes its socket at once",
		Body: func() {
			after(func(s wwr.Server, n *Net, t *tracker, p *Peer, sent string) {
				c := t.conns["a"].get()
				if c.IsActive() == p.isClosed() {
					fail("%s: IsActive is %v", sent, c.IsActive())
				}
				c.Close()
				if !p.isClosed() || c.IsActive() {
					fail("%s: Close doesn't close the socket although no handler is running", sent)
				}
				vsched.Quiesce()
				c.Close()
				if p.closes > 2 {
					fail("%s: the socket was closed %d times", sent, p.closes)
				}
			})
		}})

	add(&Scenario{Prop: "C10", Name: "aftermath", Bounds: [2]int{0, 1}, Delay: true,
		Doc: "after any message (all type bytes), or any two usual or unexpected ones, was handled, as many handlers as before may run",
		Body: func() {
			after(func(s wwr.Server, n *Net, t *tracker, p *Peer, sent string) {
				if p.isClosed() {
					return
				}
				r := newRunner(nil)
				t.impl.Req, t.impl.Sig = r.impl.Req, r.impl.Sig
				c := t.conns["a"].get()
				lim := 0
				fmt.Sscanf(sent, "limit %d", &lim)
				_ = c
				for i := 0; i < 4; i++ {
					p.Send(req(10+i, fmt.Sprintf("g%d", i)))
				}
				vsched.Quiesce()
				if got, want := r.now(), effLimit(lim, 4); got != want {
					fail("%s: then %d handlers of 4 run, want %d", sent, got, want)
				}
				for i := 0; i < 4; i++ {
					r.g.release(fmt.Sprintf("g%d", i))
				}
				vsched.Quiesce()
				for i := 0; i < 4; i++ {
					exactly(p.Got(), 10+i, handled(fmt.Sprintf("g%d", i), 10+i))
				}
			})
		}})

	many := func(end func(s wwr.Server, c []wwr.Connection), name string) func() {
		return func() {
			const total = 270
			conns := []int{1, 3}[vsched.Choose(2)]
			last := []int{0, 1, 255, 256, total - 1}[vsched.Choose(5)]
			r := newRunner(nil)
			var cs []wwr.Connection
			r.impl.Conn = func(_ wwr.ConnectionOptions, c wwr.Connection) { vsched.Log(func() { cs = append(cs, c) }) }
			s, n := server(r.impl, noSessions())
			var ps []*Peer
			for i := 0; i < conns; i++ {
				ps = append(ps, n.Connect(fmt.Sprint("c", i), connOpts("x", -1)))
				vsched.Quiesce()
			}
			for i := 0; i < total; i++ {
				ps[i%conns].Send(req(i, fmt.Sprint("g", i)))
			}
			vsched.Quiesce()
			if r.now() != total {
				fail("%d of %d handlers run", r.now(), total)
			}
			done := spawn("end", func() { end(s, cs) })
			vsched.Quiesce()
			open := func(when string) {
				if name == "Shutdown" && done.isDone() {
					fail("Shutdown returned %s", when)
				}
				if ps[last%conns].isClosed() {
					fail("the socket of a running handler was closed %s", when)
				}
			}
			open("while all handlers run")
			for i := 0; i < total; i++ {
				if i != last {
					r.g.release(fmt.Sprint("g", i))
				}
			}
			vsched.Quiesce()
			open(fmt.Sprintf("while the handler of message %d of %d runs", last, total))
			r.g.release(fmt.Sprint("g", last))
			vsched.Quiesce()
			if !done.isDone() {
				fail("%s has not returned after all handlers", name)
			}
			for i := 0; i < total; i++ {
				exactly(ps[i%conns].Got(), i, handled(fmt.Sprint("g", i), i))
			}
			for _, p := range ps {
				if !p.isClosed() {
					fail("a connection is open after %s", name)
				}
			}
		}
	}
	add(&Scenario{Prop: "C08", Name: "many", Bounds: [2]int{0, 0}, Delay: true, Steps: 1000000,
		Doc: "270 handlers run on one or three connections when the server is shut down: it waits for the last one, whichever it is",
		Body: many(func(s wwr.Server, _ []wwr.Connection) {
			if err := s.Shutdown(); err != nil {
				fail("Shutdown: %v", err)
			}
		}, "Shutdown")})
	add(&Scenario{Prop: "C09", Name: "many", Bounds: [2]int{0, 0}, Delay: true, Steps: 1000000,
		Doc: "270 handlers run on one or three connections when all of them are closed: each waits for its last one, whichever it is",
		Body: many(func(_ wwr.Server, cs []wwr.Connection) {
			for _, c := range cs {
				c.Close()
			}
		}, "Close")})

	add(&Scenario{Prop: "C10", Name: "values", Bounds: [2]int{0, 0}, Delay: true, Steps: 1000000,
		Doc: "limits around powers of two up to 257 with more gated messages than the limit, and huge and negative limits with six messages: exactly as many handlers run as allowed, and all messages are handled in the end",
		Body: func() {
			lims := []int{4, 5, 7, 8, 16, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 130, 255, 256, 257, 258,
				-2, -3, -127, -128, -129, -255, -256, -257, -1 << 15, -1<<15 - 1, -1 << 16, math.MinInt32, math.MinInt32 + 1, math.MinInt64, math.MinInt64 + 1, -1 << 32, 1 - 1<<32,
				1000, 1<<15 - 1, 1 << 15, 1<<15 + 1, 1<<16 - 1, 1 << 16, 1<<16 + 1, 1<<16 + 2, math.MaxInt32, 1 << 31, 1<<31 + 1, 1<<32 - 1, 1 << 32, 1<<32 + 1, 1<<32 + 2, 1 << 62, math.MaxInt64}
			lim := lims[vsched.Choose(len(lims))]
			n := lim + 3
			if lim < 0 || lim > 300 {
				n = 6
			}
			r := newRunner(nil)
			_, nt := server(r.impl, noSessions())
			a := nt.Connect("a", connOpts("a", lim))
			for i := 0; i < n; i++ {
				if i%2 == 0 {
					a.Send(req(i, fmt.Sprintf("g%03d", i)))
				} else {
					a.Send(sig(fmt.Sprintf("g%03d", i)))
				}
			}
			vsched.Quiesce()
			if got, want := r.now(), effLimit(lim, n); got != want {
				fail("limit %d, %d messages: %d handlers run, want %d", lim, n, got, want)
			}
			for i := 0; i < n; i++ {
				r.g.release(fmt.Sprintf("g%03d", i))
			}
			vsched.Quiesce()
			if r.now() != 0 || r.max > effLimit(lim, n) {
				fail("limit %d: %d handlers are running, at most %d were", lim, r.now(), r.max)
			}
			for i := 0; i < n; i++ {
				if c := r.h.count(fmt.Sprintf("g%03d", i)); c != 1 {
					fail("limit %d: message %d was handled %d times", lim, i, c)
				}
				if i%2 == 0 {
					exactly(a.Got(), i, handled(fmt.Sprintf("g%03d", i), i))
				}
			}
		}})

	add(&Scenario{Prop: "C10", Name: "shapes", Bounds: [2]int{0, 0}, Delay: true, Steps: 1000000,
		Doc: "limits 0 to 3 and signals and requests of every encoding with names and payloads of every kind of length, next to plain ones: exactly as many handlers run as allowed, one after the other in order of arrival if the limit is 1",
		Body: func() {
			lim := vsched.Choose(4)
			eff := effLimit(lim, 9)
			req := vsched.Choose(2) == 1
			enc := vsched.Choose(3)
			nl := []int{0, 1, 2, 3, 16, 127, 128, 254, 255}[vsched.Choose(9)]
			pl := []int{0, 1, 2, 64, 127, 255, 256, 512, 700}[vsched.Choose(9)]
			if enc == 2 {
				pl &^= 1
			}
			if nl == 0 && pl == 0 {
				pl = 4
			}
			// the positions of the messages of this shape
			mask := 1 + vsched.Choose(3)
			h := &hist{}
			g := newGates()
			cnt, running, most := 0, 0, 0
			var o vsched.Obj
			o.Name = "running"
			enter := func(m wwr.Message) {
				n := 0
				vsched.Op("enter", &o, nil, func() {
					n = cnt
					cnt++
					running++
					most = max(most, running)
					if lim < 2 {
						if plain := string(m.Name()) == fmt.Sprint("p", n); plain != (mask>>uint(n%2)&1 == 0) {
							fail("handler call %d is one for the wrong message", n)
						}
					}
				})
				h.add("call%d", n)
				g.pass(fmt.Sprint("g", n))
				vsched.Op("leave", &o, nil, func() { running-- })
			}
			impl := &Impl{
				Req: func(_ wwr.Connection, m wwr.Message) (wwr.Payload, error) {
					enter(m)
					return wwr.Payload{}, nil
				},
				Sig: func(_ wwr.Connection, m wwr.Message) { enter(m) },
			}
			opts := noSessions()
			opts.MessageBufferSize = 1024
			_, nt := server(impl, opts)
			a := nt.Connect("a", connOpts("a", lim))
			n := eff + 2
			for i := 0; i < n; i++ {
				switch {
				case mask>>uint(i%2)&1 == 0 && i%4 < 2:
					a.Send(encSignal(fmt.Sprint("p", i), 0, "x"))
				case mask>>uint(i%2)&1 == 0:
					a.Send(encRequest(reqID(i), fmt.Sprint("p", i), 0, "x"))
				case req:
					a.Send(encRequest(reqID(i), strings.Repeat("n", nl), enc, strings.Repeat("y", pl)))
				default:
					a.Send(encSignal(strings.Repeat("n", nl), enc, strings.Repeat("y", pl)))
				}
			}
			for i := 0; i < n; i++ {
				vsched.Quiesce()
				got := 0
				vsched.Op("look", &o, nil, func() { got = running })
				if want := min(eff, n-i); got != want {
					fail("limit %d, %d messages left: %d handlers run, want %d (%s)", lim, n-i, got, want, h)
				}
				g.release(fmt.Sprint("g", i))
			}
			vsched.Quiesce()
			if running != 0 || cnt != n || most > eff {
				fail("limit %d: %d of %d messages were handled, %d at most at once, %d still are", lim, cnt, n, most, running)
			}
		}})

	add(&Scenario{Prop: "C07", Name: "identifiers", Bounds: [2]int{0, 0}, Delay: true, Steps: 1000000,
		Doc: "requests of every kind whose identifiers consist of every byte value at every position, all alike or extreme: answered under exactly this identifier; 300 requests pipelined on a connection get one reply each",
		Body: func() {
			lim := []int{1, 3, -1}[vsched.Choose(3)]
			t := newTracker()
			t.impl.Req = func(_ wwr.Connection, m wwr.Message) (wwr.Payload, error) {
				id := m.Identifier()
				if k := string(m.Name()); k != "n" {
					return fallible(k)
				}
				return wwr.Payload{Data: id[:]}, nil
			}
			_, n := server(t.impl, newStore().options())
			p := n.Connect("a", connOpts("a", lim))
			vsched.Quiesce()
			if vsched.Choose(2) == 0 {
				for i := 0; i < 300; i++ {
					p.Send(req(i, "n"))
				}
				vsched.Quiesce()
				got := p.Got()
				for i := 0; i < 300; i++ {
					exactly(got, i, replyOf(eBin, reqID(i))(reqID(i)))
				}
				return
			}
			pos := vsched.Choose(10)
			only := vsched.Choose(5)
			for b := 0; b < 256; b++ {
				id := []byte("abcdefgh")
				switch pos {
				case 8:
					id = []byte(strings.Repeat(string([]byte{byte(b)}), 8))
				case 9:
					id = make([]byte, 8)
					id[b%8] = byte(b)
				default:
					id[pos] = byte(b)
				}
				for kind, m := range [][]byte{
					encRequest(string(id), "n", eBin, "p"),
					encRequest(string(id), "err", eUtf8, "p"),
					encRequest(string(id), "internal", eUtf16, "pq"),
					encNameless(tRestoreSession, string(id), "nosuchkey"),
					encNameless(tCloseSession, string(id), ""),
				} {
					if kind != only {
						continue
					}
					before := len(p.Got())
					p.Send(m)
					vsched.Quiesce()
					got := p.Got()[before:]
					want := []wire{
						{typ: tReplyBin, id: string(id), payload: string(id)},
						{typ: tReplyError, id: string(id), name: "E", payload: "M", enc: eUtf8},
						{typ: tReplyInternal, id: string(id), enc: -1},
						{typ: tReplyNotFound, id: string(id), enc: -1},
						{typ: tReplyBin, id: string(id)},
					}[kind]
					if len(got) != 1 || got[0] != want {
						fail("request kind %d with the identifier % x: got [%s], want %s", kind, id, show(got), want)
					}
				}
			}
		}})

	add(&Scenario{Prop: "C12", Name: "burst", Bounds: [2]int{0, 0}, Delay: true, Steps: 1000000,
		Doc: "300 signals in each direction on a connection, with requests in between: all arrive once, in order",
		Body: func() {
			lim := []int{0, 1, 2, -1}[vsched.Choose(4)]
			t := newTracker()
			_, n := server(t.impl, noSessions())
			p := n.Connect("a", connOpts("a", lim))
			c := t.conns["a"].get()
			const num = 300
			for i := 0; i < num; i++ {
				p.Send(sig(fmt.Sprintf("s%03d", i)))
				if err := c.Signal([]byte(fmt.Sprint("t", i)), wwr.Payload{Data: []byte("d")}); err != nil {
					fail("Signal: %v", err)
				}
				if i%100 == 50 {
					p.Send(req(i, "r"))
				}
			}
			vsched.Quiesce()
			var order []string
			for _, e := range t.h.ev {
				if strings.HasPrefix(e, "start:s") {
					order = append(order, e)
				}
			}
			if len(order) != num {
				fail("limit %d: %d of %d signals were handled", lim, len(order), num)
			}
			for i, e := range order {
				k := fmt.Sprintf("s%03d", i)
				if lim < 2 && lim >= 0 && e != "start:"+k || t.h.count("start:"+k) != 1 {
					fail("limit %d: signal %s was handled %d times; order %v", lim, k, t.h.count("start:"+k), order)
				}
			}
			i := 0
			for _, w := range p.Got() {
				if w.typ != tSignalBin {
					continue
				}
				if want := (wire{typ: tSignalBin, name: fmt.Sprint("t", i), payload: "d"}); w != want {
					fail("signal %d of the server arrived as %s", i, w)
				}
				i++
			}
			if i != num {
				fail("%d of %d signals of the server arrived", i, num)
			}
		}})

	add(&Scenario{Prop: "C15", Name: "numbers", Bounds: [2]int{0, 0}, Steps: 1000000,
		Doc: "limits around powers of two up to 257, and none: exactly as many connections as allowed can restore a session, one more when one leaves (in every way); sessions don't count for each other",
		Body: func() {
			max := []int{0, 1, 2, 3, 4, 5, 8, 15, 16, 17, 63, 64, 65, 127, 128, 129, 255, 256, 257}[vsched.Choose(19)]
			leave := vsched.Choose(4)
			n := max + 2
			if max == 0 {
				n = 260
			}
			var o vsched.Obj
			var cs []wwr.Connection
			impl := &Impl{Conn: func(_ wwr.ConnectionOptions, c wwr.Connection) {
				vsched.Op("conn", &o, nil, func() { cs = append(cs, c) })
			}}
			sm := newStore()
			sm.put("K")
			sm.put("L")
			opt := sm.options()
			opt.MaxSessionConnections = uint(max)
			s, nt := server(impl, opt)
			var ps []*Peer
			for i := 0; i < n; i++ {
				ps = append(ps, nt.Connect(fmt.Sprint("c", i), connOpts("x", 1)))
				vsched.Quiesce()
			}
			other := nt.Connect("other", connOpts("x", 1))
			vsched.Quiesce()
			nreq := 0
			restore := func(p *Peer, k string, want int) {
				nreq++
				p.Send(encNameless(tRestoreSession, reqID(nreq), k))
				vsched.Quiesce()
				r := repliesTo(p.Got(), reqID(nreq))
				if len(r) != 1 || r[0].typ != want {
					fail("limit %d, request %d: restoring %s was answered with [%s], want type %d; %d connections use it", max, nreq, k, show(r), want, s.SessionConnectionsNum(k))
				}
			}
			restore(other, "L", tReplyUtf8)
			for i, p := range ps {
				want := tReplyUtf8
				if max > 0 && i >= max {
					want = tReplyMaxConns
				}
				restore(p, "K", want)
			}
			if max == 0 {
				max = n
			}
			num := func(want int) {
				if got, l := s.SessionConnectionsNum("K"), len(s.SessionConnections("K")); got != want || l != want || s.ActiveSessionsNum() != 2 {
					fail("limit %d: %d (%d) connections of %d active sessions, want %d", max, got, l, s.ActiveSessionsNum(), want)
				}
			}
			num(max)
			if max < 2 {
				return
			}
			switch leave {
			case 0:
				ps[0].Hangup()
			case 1:
				cs[0].Close()
			case 2:
				if err := cs[0].CloseSession(); err != nil {
					fail("CloseSession: %v", err)
				}
			case 3:
				restore(ps[0], "L", tReplyUtf8)
			}
			vsched.Quiesce()
			num(max - 1)
			if max < n {
				restore(ps[max], "K", tReplyUtf8)
				restore(ps[max+1], "K", tReplyMaxConns)
				num(max)
			}
		}})

	add(&Scenario{Prop: "C14", Name: "values", Bounds: [2]int{0, 0},
		Doc: "sessions with all combinations of creation and last lookup times (with fractions, time zones, extreme years) and information (empty, nested, special texts, all kinds of values), with the default or a custom parser and attachment type: created and restored ones have exactly these values everywhere",
		Body: func() {
			times := []time.Time{
				sessTime, {}, time.Unix(0, 0), time.Date(1, 1, 1, 0, 0, 0, 1, time.UTC), time.Date(9999, 12, 31, 23, 59, 59, 999999999, time.UTC),
				time.Date(2020, 2, 29, 23, 59, 59, 123456789, time.UTC), time.Date(2021, 12, 31, 23, 59, 59, 1000, time.FixedZone("X", -11*3600)),
				time.Date(1969, 7, 20, 20, 17, 40, 500000000, time.FixedZone("Y", 5*3600+1800)), time.Now(),
			}
			type m = map[string]interface{}
			infos := []m{
				nil, {}, {"a": nil}, {"": "x"}, {"a": "", "b": false, "c": 0.0}, {"a": 1.5, "b": -1e300, "c": 1e15, "d": true},
				{"a": m{"b": m{"c": []interface{}{"x", nil, 1.0, m{}, []interface{}{}}}}},
				{"k": "<>&\u2028\u2029\"\\\n\x00\x7f", "\x00": "é\U0001f600"}, {"l": []interface{}{m{"a": []interface{}{}}, []interface{}{nil}}},
				{"K": 1.0, "k": 2.0}, {"long": strings.Repeat("y", 300)},
			}
			creation, lookup := times[vsched.Choose(len(times))], times[vsched.Choose(len(times))]
			custom := vsched.Choose(2) == 1
			how := vsched.Choose(2)
			t := newTracker()
			sm := newStore()
			o := sm.options()
			o.MessageBufferSize = 4096
			var parsed int
			if custom {
				o.SessionInfoParser = func(d map[string]interface{}) wwr.SessionInfo {
					parsed++
					return &otherInfo{d}
				}
			}
			s, n := server(t.impl, o)
			_ = s
			for i, info := range infos {
				name := fmt.Sprintf("times %v %v, information %v", creation, lookup, info)
				p := n.Connect("a", connOpts("a", 1))
				vsched.Quiesce()
				c := t.conns["a"].get()
				key := fmt.Sprint("K", i)
				wc, wl := creation, lookup
				if how == 0 {
					info := info
					sm.recs[key] = &srec{creation: creation, lookup: lookup, info: info}
					parsed = 0
					p.Send(encNameless(tRestoreSession, reqID(1), key))
					if r, ok := p.AwaitReply(reqID(1)); !ok || r.typ != tReplyUtf8 {
						fail("%s: restoring was answered with %v", name, r)
					}
				} else {
					var att wwr.SessionInfo
					if custom {
						att = &otherInfo{info}
					} else {
						att = wwr.GenericSessionInfoParser(info)
					}
					before := time.Now()
					if err := c.CreateSession(att); err != nil {
						fail("%s: CreateSession: %v", name, err)
					}
					key = c.SessionKey()
					wc = c.SessionCreation()
					wl = wc
					if wc.Before(before) || wc.After(time.Now()) {
						fail("created at %v", wc)
					}
				}
				vsched.Quiesce()
				g := p.Got()
				mod := &sessModel{}
				mod.trace = []string{name}
				ms := &msess{key: key, creation: wc, info: info}
				mod.checkJSON(g[len(g)-1].payload, ms, wl)
				ss := c.Session()
				if ss == nil || ss.Key != key || !ss.Creation.Equal(wc) || !ss.LastLookup.Equal(wl) || !c.SessionCreation().Equal(wc) || c.SessionKey() != key {
					fail("%s: the connection has session %+v", name, ss)
				}
				if how == 0 && info == nil {
					// parsers needn't be called without any information
				} else if _, ok := ss.Info.(*otherInfo); ok != custom {
					fail("%s: the information is a %T", name, ss.Info)
				}
				if !sameInfo(wwr.SessionInfoToVarMap(ss.Info), info) {
					fail("%s: the connection has %v", name, wwr.SessionInfoToVarMap(ss.Info))
				}
				for k, v := range info {
					if got := c.SessionInfo(k); !reflect.DeepEqual(got, v) {
						fail("%s: field %q is %v", name, k, got)
					}
				}
				if how == 1 {
					rec := sm.recs[key]
					if rec == nil || !rec.creation.Equal(wc) || !rec.lookup.Equal(wl) || !sameInfo(rec.info, info) {
						fail("%s: the creation hook saw %+v", name, rec)
					}
				}
				p.Hangup()
				vsched.Quiesce()
				t.conns["a"] = &slot{}
			}
			outcome("%d %v", how, custom)
		}})

	add(&Scenario{Prop: "C14", Name: "broken", Bounds: [2]int{0, 0}, Weight: 2,
		Doc:  "a session on one to three connections, any of which can't be written to (for good or once): then every sequence of 2 (thorough: 3) session operations; sessions end for all their connections whether or not these can be notified, creations that can't be announced leave no trace",
		Body: func() { brokenSessions(2, "flush") }})
	add(&Scenario{Prop: "C14", Name: "broken1", Bounds: [2]int{0, 0}, Weight: 1,
		Doc:  "as broken, failing to get a writer and to write, with one operation",
		Body: func() { brokenSessions(1, "getwriter", "write") }})
	add(&Scenario{Prop: "C14", Name: "broken2", Bounds: [2]int{0, 0}, Weight: 2, ThoroughOnly: true,
		Doc:  "as broken, failing to get a writer and to write",
		Body: func() { brokenSessions(2, "getwriter", "write") }})
	add(&Scenario{Prop: "C14", Name: "broken3", Bounds: [2]int{0, 0}, Weight: 4, ThoroughOnly: true,
		Doc:  "as broken, with sequences of 3 operations",
		Body: func() { brokenSessions(3, "flush") }})

	add(&Scenario{Prop: "C25", Name: "many", Bounds: [2]int{0, 0}, Steps: 100000000,
		Doc: "70000 requests are created: all identifiers differ, each is pending until it's settled by its own identifier only",
		Body: func() {
			m := reqman.NewRequestManager()
			seen := map[[8]byte]int{}
			var keep []*reqman.Request
			const num = 70000
			for i := 0; i < num; i++ {
				r := m.Create()
				if j, dup := seen[r.Identifier]; dup {
					fail("requests %d and %d have the same identifier % x", j, i, r.Identifier)
				}
				seen[r.Identifier] = i
				if string(r.IdentifierBytes) != string(r.Identifier[:]) {
					fail("the identifiers % x and % x of a request differ", r.IdentifierBytes, r.Identifier)
				}
				if i%251 == 0 {
					keep = append(keep, r)
					continue
				}
				if !m.Fail(r.Identifier, errHook) {
					fail("request %d wasn't pending", i)
				}
			}
			if m.PendingRequests() != len(keep) {
				fail("%d requests are pending, want %d", m.PendingRequests(), len(keep))
			}
			for i, r := range keep {
				if !m.IsPending(r.Identifier) || !m.Fulfill(rmsg(r.Identifier, fmt.Sprint(i))) {
					fail("request %d isn't pending", i)
				}
				if got := await(r, context.Background()); got.String() != fmt.Sprintf("reply(%d)", i) {
					fail("request %d got %v", i, got)
				}
			}
		}})
}

// otherInfo is a session information type of its own.
type otherInfo struct{ d map[string]interface{} }

func (o *otherInfo) Copy() wwr.SessionInfo {
	return &otherInfo{wwr.SessionInfoToVarMap(wwr.GenericSessionInfoParser(o.d))}
}
func (o *otherInfo) Fields() []string {
	l := make([]string, 0, len(o.d))
	for k := range o.d {
		l = append(l, k)
	}
	return l
}
func (o *otherInfo) Value(k string) interface{} {
	return wwr.GenericSessionInfoParser(o.d).Value(k)
}
