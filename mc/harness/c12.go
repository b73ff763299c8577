package harness

import (
	"fmt"

	wwr "github.com/qbeon/webwire-go"

	"verif/vsched"
)

type sigCase struct {
	name, payload string
	enc           int
}

var sigCases = []sigCase{
	{"s", "p", eBin},
	{"name", "pl\x00\xff", eBin},
	{"", "x", eBin},
	{"s", "ü€", eUtf8},
	{"", "x", eUtf8},
	{"odd", "a\x00", eUtf16},
	{"ev", "a\x00b\x00", eUtf16},
	{"", "a\x00", eUtf16},
	{"only", "", eBin},
	{"only", "", eUtf8},
	{"only", "", eUtf16},
	{"odd", "", eUtf16},
}

func (s sigCase) String() string { return fmt.Sprintf("%s/%d/%q", s.name, s.enc, s.payload) }

var encs = []wwr.PayloadEncoding{wwr.EncodingBinary, wwr.EncodingUtf8, wwr.EncodingUtf16}

func init() {
	add(&Scenario{Prop: "C12", Name: "toserver", Bounds: [2]int{0, 1},
		Doc: "every pair of client signals under every concurrency limit, interleaved with requests and heartbeats, reaches the handler exactly once and intact",
		Body: func() {
			lim := []int{0, 2, -1}[vsched.Choose(3)]
			s1 := sigCases[vsched.Choose(len(sigCases))]
			s2 := sigCases[vsched.Choose(len(sigCases))]
			noise := vsched.Choose(2)
			got := map[string]int{}
			var o vsched.Obj
			impl := &Impl{Sig: func(c wwr.Connection, m wwr.Message) {
				var e int
				switch m.PayloadEncoding() {
				case wwr.EncodingUtf8:
					e = eUtf8
				case wwr.EncodingUtf16:
					e = eUtf16
				}
				k := sigCase{string(m.Name()), string(m.Payload()), e}.String()
				vsched.Op("sig", &o, nil, func() { got[k]++ })
			}}
			_, n := server(impl, noSessions())
			a := n.Connect("a", connOpts("a", lim))
			a.Send(encSignal(s1.name, s1.enc, s1.payload))
			if noise == 1 {
				a.Send([]byte{tHeartbeat})
				a.Send(req(1, "r"))
			}
			a.Send(encSignal(s2.name, s2.enc, s2.payload))
			vsched.Quiesce()
			want := map[string]int{}
			want[s1.String()]++
			want[s2.String()]++
			for k, c := range want {
				if got[k] != c {
					fail("signals %s and %s: the handler got %v", s1, s2, got)
				}
			}
			if len(got) != len(want) {
				fail("signals %s and %s: the handler got %v", s1, s2, got)
			}
		}})

	add(&Scenario{Prop: "C12", Name: "twoclients", Bounds: [2]int{1, 2},
		Doc: "every pair of server-side signals, sent at the same time to two clients, one of which gets a reply, too: each client gets its own signal, unmodified",
		Body: func() {
			sc := map[string]sigCase{}
			sc["a"] = sigCases[vsched.Choose(len(sigCases))]
			sc["b"] = sigCases[vsched.Choose(len(sigCases))]
			t := newTracker()
			_, n := server(t.impl, noSessions())
			p := map[string]*Peer{}
			var ts []*task
			for _, x := range []string{"a", "b"} {
				p[x] = n.Connect(x, connOpts(x, 1))
			}
			ca, cb := t.conns["a"].get(), t.conns["b"].get()
			vsched.Quiesce()
			p["a"].Send(req(1, "r"))
			for i, c := range []wwr.Connection{ca, cb} {
				x := []string{"a", "b"}[i]
				s, c := sc[x], c
				ts = append(ts, spawn("signal-"+x, func() {
					if err := c.Signal([]byte(s.name), wwr.Payload{Encoding: encs[s.enc], Data: []byte(s.payload)}); err != nil {
						fail("Signal %s: %v", s, err)
					}
				}))
			}
			allJoined(ts...)
			vsched.Quiesce()
			for _, x := range []string{"a", "b"} {
				s, seen := sc[x], 0
				got := p[x].Got()[1:]
				for _, m := range got {
					if m.id != "" {
						continue
					}
					seen++
					if m.typ != tSignalBin+s.enc || m.name != s.name || m.payload != s.payload {
						fail("client %s got %s instead of the signal %s", x, m, s)
					}
				}
				if seen != 1 {
					fail("client %s got %d signals: %s", x, seen, show(got))
				}
			}
			exactly(p["a"].Got(), 1, handled("r", 1))
			if len(p["a"].Got()) != 3 || len(p["b"].Got()) != 2 {
				fail("unexpected messages: %s | %s", show(p["a"].Got()), show(p["b"].Got()))
			}
		}})

	for _, mem := range []bool{false, true} {
		mem := mem
		name := "toclient"
		bounds := [2]int{2, 3}
		if mem {
			name, bounds = "toclientmem", [2]int{1, 2}
		}
		add(&Scenario{Prop: "C12", Name: name, Bounds: bounds, Weight: 2,
			Doc: "two threads sending two server-side signals each while a request is answered: each arrives exactly once, unmodified, in order per thread",
			Body: func() {
				t := newTracker()
				var ca wwr.Connection
				var client interface {
					Got() []wire
				}
				if mem {
					_, tr := memServer(t.impl, noSessions(), func() wwr.ConnectionOptions { return connOpts("a", 2) })
					c := mustDial(tr, "a")
					ca = t.conns["a"].get()
					c.Send(req(1, "r"))
					client = c
				} else {
					_, n := server(t.impl, noSessions())
					p := n.Connect("a", connOpts("a", 2))
					ca = t.conns["a"].get()
					p.Send(req(1, "r"))
					client = p
				}
				var ts []*task
				for _, w := range []string{"x", "y"} {
					w := w
					ts = append(ts, spawn(w, func() {
						for i := 0; i < 2; i++ {
							enc := i * 2
							pl := wwr.Payload{Encoding: encs[enc], Data: []byte(w + "\x00")}
							if err := ca.Signal([]byte(fmt.Sprintf("%s%d", w, i)), pl); err != nil {
								fail("Signal: %v", err)
							}
						}
					}))
				}
				allJoined(ts...)
				got := client.Got()[1:]
				var sigs, per = map[string]int{}, map[string]string{}
				for _, w := range got {
					if w.typ == tReplyBin {
						continue
					}
					sigs[w.String()]++
					if len(w.name) == 2 {
						per[w.name[:1]] += w.name[1:]
					}
				}
				for _, w := range []string{"x", "y"} {
					if per[w] != "01" {
						fail("signals of thread %s arrived as %q: %s", w, per[w], show(got))
					}
					for i := 0; i < 2; i++ {
						k := wire{typ: tSignalBin + i*2, name: fmt.Sprintf("%s%d", w, i), payload: w + "\x00", enc: i * 2}.String()
						if sigs[k] != 1 {
							fail("signal %s arrived %d times: %s", k, sigs[k], show(got))
						}
					}
				}
				exactly(client.Got(), 1, handled("r", 1))
				if len(got) != 5 {
					fail("unexpected messages: %s", show(got))
				}
				outcome("%s", show(got))
			}})
	}

	add(&Scenario{Prop: "C12", Name: "kinds", Bounds: [2]int{0, 0},
		Doc: "every kind of server-side signal arrives as it was sent, also with writes that fail in between",
		Body: func() {
			t := newTracker()
			_, n := server(t.impl, noSessions())
			a := n.Connect("a", connOpts("a", 1))
			ca := t.conns["a"].get()
			i := vsched.Choose(len(sigCases))
			j := vsched.Choose(len(sigCases))
			flaky := vsched.Choose(3)
			var want []string
			for k, s := range []sigCase{sigCases[i], sigCases[j], sigCases[i]} {
				if flaky == k+1 {
					a.failWrites = 1
				}
				err := ca.Signal([]byte(s.name), wwr.Payload{Encoding: encs[s.enc], Data: []byte(s.payload)})
				if (err != nil) != (flaky == k+1) {
					fail("signal %s: %v", s, err)
				}
				if err == nil {
					want = append(want, wire{typ: tSignalBin + s.enc, name: s.name, payload: s.payload, enc: s.enc}.String())
				}
			}
			var got []string
			for _, w := range a.Got()[1:] {
				got = append(got, w.String())
			}
			if fmt.Sprint(got) != fmt.Sprint(want) {
				fail("sent %v, received %v", want, got)
			}
		}})

	add(&Scenario{Prop: "C12", Name: "closing", Bounds: [2]int{0, 1}, Weight: 2,
		Doc: "in-memory transport: signals in both directions while the connection is closed: whatever was reported as sent to the client arrived once, client signals are handled at most once",
		Body: func() {
			t := newTracker()
			_, tr := memServer(t.impl, noSessions(), func() wwr.ConnectionOptions { return connOpts("a", 2) })
			c := mustDial(tr, "a")
			ca := t.conns["a"].get()
			var e1, e2 error
			side := vsched.Choose(2)
			ts := []*task{
				spawn("signaller", func() { e1 = ca.Signal([]byte("x"), wwr.Payload{Data: []byte("1")}) }),
				spawn("client", func() { e2 = c.Send(sig("y")) }),
				spawn("closer", func() {
					if side == 0 {
						ca.Close()
					} else {
						c.sock.Close()
					}
				}),
			}
			allJoined(ts...)
			k := 0
			for _, w := range c.Got()[1:] {
				if w.name != "x" || w.payload != "1" {
					fail("received %s", w)
				}
				k++
			}
			if k > 1 || e1 == nil && k != 1 {
				fail("Signal returned %v, the client received %d signals", e1, k)
			}
			h := t.h.count("start:y")
			if h > 1 {
				fail("a signal was handled %d times", h)
			}
			outcome("%v %v %d %d", e1 == nil, e2 == nil, k, h)
		}})
}
