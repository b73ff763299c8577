package harness

import (
	"context"
	"errors"
	"fmt"
	"strings"

	wwr "github.com/qbeon/webwire-go"

	"verif/vsched"
)

// A handler result and the reply it must produce.
type resCase struct {
	name string
	pl   wwr.Payload
	err  error
	want func(id string) wire // expected reply (id filled in)
}

var longCode = strings.Repeat("C", 256)

const secret = "s3cr3t-internal-detail"

type customErr struct{}

func (customErr) Error() string { return secret }

func replyOf(enc int, pl string) func(string) wire {
	return func(id string) wire {
		return wire{typ: tReplyBin + enc, id: id, enc: enc, payload: pl}
	}
}

func special(t int) func(string) wire {
	return func(id string) wire { return wire{typ: t, id: id, enc: -1} }
}

func errReply(code, msg string) func(string) wire {
	return func(id string) wire { return wire{typ: tReplyError, id: id, name: code, payload: msg, enc: eUtf8} }
}

var resCases = []resCase{
	{"bin", wwr.Payload{Data: []byte("pl")}, nil, replyOf(eBin, "pl")},
	{"empty", wwr.Payload{}, nil, replyOf(eBin, "")},
	{"utf8", wwr.Payload{Encoding: wwr.EncodingUtf8, Data: []byte("ü")}, nil, replyOf(eUtf8, "ü")},
	{"utf16", wwr.Payload{Encoding: wwr.EncodingUtf16, Data: []byte("a\x00b\x00")}, nil, replyOf(eUtf16, "a\x00b\x00")},
	{"utf16empty", wwr.Payload{Encoding: wwr.EncodingUtf16}, nil, replyOf(eUtf16, "")},
	{"err", wwr.Payload{}, wwr.ErrRequest{Code: "E1", Message: "message"}, errReply("E1", "message")},
	{"errptr", wwr.Payload{}, &wwr.ErrRequest{Code: "E2", Message: ""}, errReply("E2", "")},
	{"errpl", wwr.Payload{Data: []byte("ignored")}, wwr.ErrRequest{Code: "E3", Message: "m"}, errReply("E3", "m")},
	{"plain", wwr.Payload{Data: []byte(secret)}, errors.New(secret), special(tReplyInternal)},
	{"custom", wwr.Payload{}, customErr{}, special(tReplyInternal)},
	{"wrapped", wwr.Payload{}, fmt.Errorf("%s: %w", secret, errors.New("x")), special(tReplyInternal)},
	{"disconnected", wwr.Payload{}, wwr.ErrDisconnected{Cause: errors.New(secret)}, special(tReplyInternal)},
	{"notfound", wwr.Payload{}, wwr.ErrSessionNotFound{}, special(tReplyInternal)},
	{"maxconns", wwr.Payload{}, wwr.ErrMaxSessConnsReached{}, special(tReplyInternal)},
	{"sessdisabled", wwr.Payload{}, wwr.ErrSessionsDisabled{}, special(tReplyInternal)},
	{"shutdown", wwr.Payload{}, wwr.ErrServerShutdown{}, special(tReplyInternal)},
	{"canceled", wwr.Payload{Data: []byte(secret)}, context.Canceled, special(tReplyInternal)},
	{"overflow", wwr.Payload{}, wwr.ErrBufferOverflow{}, special(tReplyInternal)},
	{"protocol", wwr.Payload{}, wwr.ErrProtocol{Cause: errors.New(secret)}, special(tReplyInternal)},
	// replies that cannot be encoded
	{"oddutf16", wwr.Payload{Encoding: wwr.EncodingUtf16, Data: []byte("abc")}, nil, special(tReplyInternal)},
	{"nocode", wwr.Payload{}, wwr.ErrRequest{Message: secret}, special(tReplyInternal)},
	{"longcode", wwr.Payload{}, wwr.ErrRequest{Code: longCode, Message: secret}, special(tReplyInternal)},
	{"badcode", wwr.Payload{}, &wwr.ErrRequest{Code: "a\x01b", Message: secret}, special(tReplyInternal)},
}

type reqKind struct {
	name string
	enc  func(id string) []byte
}

var reqKinds = []reqKind{
	{"bin", func(id string) []byte { return encRequest(id, "n", eBin, "p") }},
	{"utf8", func(id string) []byte { return encRequest(id, "nm", eUtf8, "pp") }},
	{"utf16", func(id string) []byte { return encRequest(id, "n", eUtf16, "p\x00") }},
	{"nameless", func(id string) []byte { return encRequest(id, "", eBin, "p") }},
	{"payloadless", func(id string) []byte { return encRequest(id, "name", eBin, "") }},
}

func init() {
	limits := []int{-1, 0, 1, 2}

	add(&Scenario{Prop: "C07", Name: "results", Bounds: [2]int{0, 1},
		Doc: "one request of every kind under every concurrency limit with every handler result, followed by a second request",
		Body: func() {
			lim := limits[vsched.Choose(len(limits))]
			k := reqKinds[vsched.Choose(len(reqKinds))]
			rc := resCases[vsched.Choose(len(resCases))]
			runs := &cell{}
			impl := &Impl{Req: func(c wwr.Connection, m wwr.Message) (wwr.Payload, error) {
				runs.add(1)
				if id := m.Identifier(); string(id[:]) == reqID(2) {
					return wwr.Payload{Data: []byte("second")}, nil
				}
				return rc.pl, rc.err
			}}
			_, n := server(impl, noSessions())
			p := n.Connect("a", wwr.ConnectionOptions{ConcurrencyLimit: lim})
			p.Send(k.enc(reqID(1)))
			vsched.Quiesce()
			p.Send(encRequest(reqID(2), "x", eBin, ""))
			vsched.Quiesce()
			got := p.Got()
			if got[0].typ != tAcceptConf {
				fail("no configuration first: %s", show(got))
			}
			ids := []string{reqID(1), reqID(2)}
			want := []wire{rc.want(reqID(1)), replyOf(eBin, "second")(reqID(2))}
			for i, id := range ids {
				r := repliesTo(got, id)
				if len(r) != 1 || r[0] != want[i] {
					fail("limit %d, %s request, handler result %s: request %d got replies [%s], want [%s]",
						lim, k.name, rc.name, i+1, show(r), want[i])
				}
			}
			if len(got) != 3 {
				fail("unexpected messages: %s", show(got))
			}
			if c := runs.get(); c != 2 {
				fail("2 requests, %d handler invocations", c)
			}
			outcome("%s %s %d", k.name, rc.name, lim)
		}})

	add(&Scenario{Prop: "C07", Name: "noreply", Bounds: [2]int{0, 1},
		Doc: "every sequence of three messages out of signals, heartbeats, unexpected types, requests and session requests gets exactly the replies it should",
		Body: func() {
			lim := []int{1, 2, -1}[vsched.Choose(3)]
			handled := &cell{}
			impl := &Impl{
				Req: func(c wwr.Connection, m wwr.Message) (wwr.Payload, error) {
					handled.add(1)
					return wwr.Payload{Data: m.Payload()}, nil
				},
			}
			_, n := server(impl, noSessions())
			p := n.Connect("a", wwr.ConnectionOptions{ConcurrencyLimit: lim})
			type mk struct {
				b    func(id string) []byte
				want func(id string) wire
				req  bool
			}
			kinds := []mk{
				{func(id string) []byte { return encSignal("s", eBin, "x") }, nil, false},
				{func(id string) []byte { return encSignal("s", eUtf16, "x\x00") }, nil, false},
				{func(id string) []byte { return []byte{tHeartbeat} }, nil, false},
				{func(id string) []byte { return encNameless(tReplyBin, id, "x") }, nil, false},
				{func(id string) []byte { return encNameless(tReplyShutdown, id, "") }, nil, false},
				{func(id string) []byte { return []byte{tSessionClosed} }, nil, false},
				{func(id string) []byte { return append([]byte{tSessionCreated}, "{}"...) }, nil, false},
				{func(id string) []byte { return encRequest(id, "r", eUtf8, "pl") }, replyOf(eBin, "pl"), true},
				{func(id string) []byte { return encNameless(tCloseSession, id, "") }, special(tReplyDisabled), false},
				{func(id string) []byte { return encNameless(tRestoreSession, id, "key") }, special(tReplyDisabled), false},
			}
			var want []wire
			reqs := 0
			for i := 1; i <= 3; i++ {
				k := kinds[vsched.Choose(len(kinds))]
				p.Send(k.b(reqID(i)))
				if k.want != nil {
					want = append(want, k.want(reqID(i)))
				}
				if k.req {
					reqs++
				}
			}
			vsched.Quiesce()
			got := p.Got()[1:]
			if len(got) != len(want) {
				fail("got [%s], want [%s]", show(got), show(want))
			}
			for _, w := range want {
				r := repliesTo(got, w.id)
				if len(r) != 1 || r[0] != w {
					fail("got [%s], want [%s]", show(got), show(want))
				}
			}
			if c := handled.get(); c != reqs {
				fail("%d requests, %d handler invocations", reqs, c)
			}
			outcome("%s", show(got))
		}})

	// concurrent requests, signals sent by the server and failing replies
	for _, lim := range []int{1, 2, -1} {
		lim := lim
		add(&Scenario{Prop: "C07", Name: fmt.Sprintf("concurrent%d", lim), Bounds: [2]int{2, 4},
			Doc: "three requests pipelined on one connection with handlers that overlap",
			Body: func() {
				runs := map[string]*cell{reqID(1): {}, reqID(2): {}, reqID(3): {}}
				impl := &Impl{Req: func(c wwr.Connection, m wwr.Message) (wwr.Payload, error) {
					id := m.Identifier()
					runs[string(id[:])].add(1)
					switch string(id[:]) {
					case reqID(1):
						return wwr.Payload{Data: []byte("r1")}, nil
					case reqID(2):
						return wwr.Payload{}, wwr.ErrRequest{Code: "C", Message: "m"}
					}
					return wwr.Payload{Encoding: wwr.EncodingUtf16, Data: []byte("x")}, nil
				}}
				_, n := server(impl, noSessions())
				p := n.Connect("a", wwr.ConnectionOptions{ConcurrencyLimit: lim})
				for i := 1; i <= 3; i++ {
					p.Send(encRequest(reqID(i), "n", eBin, fmt.Sprint(i)))
				}
				vsched.Quiesce()
				got := p.Got()[1:]
				want := []wire{replyOf(eBin, "r1")(reqID(1)), errReply("C", "m")(reqID(2)), special(tReplyInternal)(reqID(3))}
				if len(got) != 3 {
					fail("3 requests, replies [%s]", show(got))
				}
				for _, w := range want {
					r := repliesTo(got, w.id)
					if len(r) != 1 || r[0] != w {
						fail("replies [%s], want [%s] in any order", show(got), show(want))
					}
				}
				for id, c := range runs {
					if c.get() != 1 {
						fail("request %s was handled %d times", id, c.get())
					}
				}
				outcome("%s", show(got))
			}})
	}

	add(&Scenario{Prop: "C07", Name: "twoconns", Bounds: [2]int{2, 3},
		Doc: "two connections sending requests with equal identifiers and a server-side signal in between: replies stay on their connection",
		Body: func() {
			sa := &slot{}
			impl := &Impl{
				Conn: func(o wwr.ConnectionOptions, c wwr.Connection) {
					if o.Info[1] == "a" {
						sa.set(c)
					}
				},
				Req: func(c wwr.Connection, m wwr.Message) (wwr.Payload, error) {
					return wwr.Payload{Data: []byte(fmt.Sprint(c.Info(1)) + string(m.Payload()))}, nil
				}}
			_, n := server(impl, noSessions())
			a := n.Connect("a", wwr.ConnectionOptions{ConcurrencyLimit: 2, Info: map[int]interface{}{1: "a"}})
			b := n.Connect("b", wwr.ConnectionOptions{Info: map[int]interface{}{1: "b"}})
			sig := spawn("signaller", func() {
				if err := sa.get().Signal([]byte("s"), wwr.Payload{Data: []byte("x")}); err != nil {
					fail("Signal: %v", err)
				}
			})
			a.Send(encRequest(reqID(1), "n", eBin, "1"))
			a.Send(encRequest(reqID(2), "n", eBin, "2"))
			b.Send(encRequest(reqID(1), "n", eBin, "3"))
			sig.join()
			vsched.Quiesce()
			ga, gb := a.Got()[1:], b.Got()[1:]
			check := func(g []wire, id, pl string) {
				r := repliesTo(g, id)
				if len(r) != 1 || r[0] != replyOf(eBin, pl)(id) {
					fail("request %s: replies [%s], want payload %s", id, show(r), pl)
				}
			}
			check(ga, reqID(1), "a1")
			check(ga, reqID(2), "a2")
			check(gb, reqID(1), "b3")
			if len(ga) != 3 || len(gb) != 1 {
				fail("connection a got [%s], b got [%s]", show(ga), show(gb))
			}
			outcome("%s | %s", show(ga), show(gb))
		}})

	add(&Scenario{Prop: "C07", Name: "slowhooks", Bounds: [2]int{1, 2}, Delay: true,
		Doc: "a restore, closing or ordinary request is held up in each hook while a message or two of another connection are read, with either reuse order of the message buffers: each is answered with its own reply",
		Body: func() {
			points := []struct {
				at    string
				start int
				f     func(w *slowWorld) int
				want  int
			}{
				{"OnSessionLookup:M", 0, func(w *slowWorld) int { return w.restore("a", "M") }, tReplyUtf8},
				{"OnSessionLookup:M", 1, func(w *slowWorld) int { return w.restore("a", "M") }, tReplyUtf8},
				{"ParseInfo:M", 1, func(w *slowWorld) int { return w.restore("a", "M") }, tReplyUtf8},
				{"OnSessionClosed:K", 1, func(w *slowWorld) int { return w.reqClose("a") }, tReplyBin},
				{"OnRequest:a", 1, func(w *slowWorld) int { w.p["a"].Send(req(70, "slow")); return 70 }, tReplyBin},
				{"OnSessionLookup:nope", 1, func(w *slowWorld) int { return w.restore("a", "nope") }, tReplyNotFound},
			}
			pt := points[vsched.Choose(len(points))]
			acts := []func(w *slowWorld){
				func(w *slowWorld) { w.ask("b", w.p["b"]) },
				func(w *slowWorld) { w.p["b"].Send(encRequest(reqID(60), "long", eUtf8, strings.Repeat("l", 80))) },
				func(w *slowWorld) { w.restore("b", "N") },
				func(w *slowWorld) { w.reqClose("b") },
				func(w *slowWorld) { w.p["b"].Send(heartbeat); w.p["b"].Send(sig("sig")) },
			}
			first := vsched.Choose(len(acts))
			second := first + vsched.Choose(len(acts)-first)
			vsched.PoolFIFO(vsched.Choose(2) == 1)
			w := newSlow(pt.start)
			w.nreq["b"] = 20
			w.s.at = pt.at
			before := len(w.p["a"].Got())
			id := pt.f(w)
			bs := spawn("b", func() {
				acts[first](w)
				if second != first {
					acts[second](w)
				}
			})
			vsched.Quiesce()
			if !bs.isDone() {
				fail("b was not answered")
			}
			hit := w.s.hit
			w.s.end()
			vsched.Quiesce()
			got := w.p["a"].Got()
			if r := repliesTo(got, reqID(id)); len(r) != 1 || r[0].typ != pt.want {
				fail("the request %d, held up in %s, was answered with [%s]; all messages: %s", id, pt.at, show(r), show(got))
			}
			if n := len(got) - before; n != 1 {
				fail("the connection got %d messages for one request: %s", n, show(got))
			}
			for _, m := range w.p["b"].Got()[1:] {
				if m.id != "" && m.id != reqID(1) && m.id < reqID(20) {
					fail("b got a reply to a request it never sent: %s", m)
				}
			}
			outcome("%s %v", pt.at, hit)
			if !hit {
				fail("harness: %s was not reached", pt.at)
			}
		}})

	add(&Scenario{Prop: "C07", Name: "toolarge", Bounds: [2]int{0, 1},
		Doc: "on the in-memory transport: replies of every size around the buffer size, in all encodings and as errors: those that don't fit are answered with an internal error, the connection stays usable",
		Body: func() {
			const buf = 64
			enc := vsched.Choose(4)
			over := []int{-10, -2, -1, 0, 1, 2, 3, 100}[vsched.Choose(8)]
			lim := []int{1, 2}[vsched.Choose(2)]
			var pl wwr.Payload
			var rerr error
			var want wire
			size := 0 // of the reply
			switch enc {
			case eBin, eUtf8:
				d := strings.Repeat("d", buf-9+over)
				size = 9 + len(d)
				pl = wwr.Payload{Encoding: []wwr.PayloadEncoding{wwr.EncodingBinary, wwr.EncodingUtf8}[enc], Data: []byte(d)}
				want = replyOf(enc, d)(reqID(1))
			case eUtf16:
				d := strings.Repeat("d\x00", (buf-10+over)/2)
				size = 10 + len(d)
				pl = wwr.Payload{Encoding: wwr.EncodingUtf16, Data: []byte(d)}
				want = replyOf(enc, d)(reqID(1))
			case 3:
				m := strings.Repeat("m", buf-10-4+over)
				size = 10 + 4 + len(m)
				rerr = wwr.ErrRequest{Code: "CODE", Message: m}
				want = errReply("CODE", m)(reqID(1))
			}
			if size > buf {
				want = special(tReplyInternal)(reqID(1))
			}
			impl := &Impl{Req: func(c wwr.Connection, m wwr.Message) (wwr.Payload, error) {
				if id := m.Identifier(); string(id[:]) == reqID(2) {
					return wwr.Payload{Data: []byte("second")}, nil
				}
				return pl, rerr
			}}
			o := noSessions()
			o.MessageBufferSize = buf
			_, tr := memServer(impl, o, func() wwr.ConnectionOptions { return wwr.ConnectionOptions{ConcurrencyLimit: lim} })
			c := mustDial(tr, "a")
			for i := 1; i <= 2; i++ {
				if err := c.Send(encRequest(reqID(i), "n", eBin, "p")); err != nil {
					fail("sending a request failed: %v", err)
				}
				vsched.Quiesce()
			}
			got := c.Got()
			for i, w := range []wire{want, replyOf(eBin, "second")(reqID(2))} {
				r := repliesTo(got, reqID(i+1))
				if len(r) != 1 || r[0] != w {
					fail("a reply of %d bytes with a buffer of %d bytes: request %d got [%s], want [%s]", size, buf, i+1, show(r), w)
				}
			}
			if len(got) != 3 || c.Ended() {
				fail("unexpected messages: %s (ended: %v)", show(got), c.Ended())
			}
			outcome("%s", want)
		}})
}
