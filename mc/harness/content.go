package harness

import (
	"fmt"
	"strings"

	wwr "github.com/qbeon/webwire-go"
	"github.com/qbeon/webwire-go/message"
	pld "github.com/qbeon/webwire-go/payload"

	"verif/vsched"
)

// notableBytes are bytes that text processing tends to treat specially.
var notableBytes = []byte{0, '\t', '\n', '\r', ' ', '"', '%', '+', '/', '\\', 'A', 0x7f, 0x80, 0xbb, 0xbf, 0xef, 0xfe, 0xff}

// notable lists all strings of up to n notable bytes.
func notable(n int) (l []string) {
	l = []string{""}
	for from := 0; n > 0; n-- {
		to := len(l)
		for _, s := range l[from:to] {
			for _, b := range notableBytes {
				l = append(l, s+string([]byte{b}))
			}
		}
		from = to
	}
	return
}

// affixed puts a string at the ends of a text, around it and inside it.
func affixed(s string) []string {
	return []string{s, s + "xy", "xy" + s, s + "xy" + s, "x" + s + "y"}
}

// texts are payloads of special content.
func texts() (l []string) {
	seen := map[string]bool{}
	put := func(s string) {
		if !seen[s] {
			seen[s] = true
			l = append(l, s)
		}
	}
	for _, s := range notable(2) {
		put(s)
	}
	for _, s := range []string{"\xef\xbb\xbf", "\xff\xfe\x00\x00", "\u2028", "\u00a0", "\r\n", "\x00\x00", "  ", "e\u0301", "\U0001f600", "\xed\xa0\x80", "null", "0", "%s", "%!d"} {
		for _, t := range affixed(s) {
			put(t)
		}
	}
	return
}

func init() {
	add(&Scenario{Prop: "C01", Name: "contents",
		Doc: "every string of up to 3 notable bytes (and every 2 byte value, and all code points) as payload, alone and inside others, of every writer with a payload is parsed back unchanged",
		Seq: func(c *Seq) {
			reused := message.NewMessage(70000)
			one := func(s string) {
				for _, w := range []*wcase{
					{f: wReply, id: ids[1], data: s},
					{f: wReply, id: ids[1], enc: eUtf8, data: s},
					{f: wReply, id: ids[1], enc: eUtf16, data: s},
					{f: wReplyError, id: ids[1], name: "C", data: s, safe: true},
					{f: wRequest, id: ids[1], name: "n", enc: eUtf8, data: s, safe: true},
					{f: wRequest, id: ids[1], enc: eBin, data: s, safe: true},
					{f: wRequest, id: ids[1], name: "n", enc: eUtf16, data: s, safe: true},
					{f: wSignal, name: "n", enc: eUtf8, data: s, safe: true},
					{f: wSignal, enc: eBin, data: s, safe: true},
					{f: wSignal, enc: eUtf16, data: s, safe: true},
					{f: wNameless, typ: tRestoreSession, id: ids[1], data: s},
					{f: wCreated, data: s},
				} {
					if c.Try("%v content %q", w, s) {
						judgeRoundtrip(c, w, reused)
					}
				}
			}
			for _, s := range notable(3) {
				one(s)
			}
			for _, s := range texts() {
				for _, t := range affixed(s) {
					one(t)
				}
			}
			for u := 0; u < 0x10000; u++ {
				one(string([]byte{byte(u), byte(u >> 8)}))
			}
			step := rune(17)
			if c.Thorough {
				step = 1
			}
			for r := rune(0x80); r <= 0x10ffff; r += step {
				one(string(r))
			}
		}})

	add(&Scenario{Prop: "C04", Name: "texts",
		Doc: "every code point and every string of up to 3 notable bytes, alone and inside others, passes unchanged as binary and UTF-8 payload",
		Seq: func(c *Seq) {
			one := func(s string) {
				for _, enc := range []int{eBin, eUtf8} {
					if !c.Try("%q enc %d", s, enc) {
						continue
					}
					p := pld.Payload{Encoding: encs[enc], Data: []byte(s)}
					got, err := p.Utf8()
					c.Ops++
					if err != nil || string(got) != s {
						c.Fail("became %q, %v", got, err)
					}
				}
			}
			for r := rune(0); r <= 0x10ffff; r++ {
				one(string(r))
				if r%16 == 0 || r < 0x10000 {
					one("a" + string(r))
					one(string(r) + "a")
				}
			}
			for _, s := range notable(3) {
				one(s)
			}
			msg := message.NewMessage(400)
			for _, s := range texts() {
				one(s)
				for _, t := range affixed(s) {
					if !c.Try("message %q", t) {
						continue
					}
					for enc := eBin; enc <= eUtf8; enc++ {
						if ok, err := msg.ReadBytes(encSignal("s", enc, t)); !ok || err != nil {
							c.Fail("signal: %v %v", ok, err)
						}
						if got, err := msg.PayloadUtf8(); err != nil || string(got) != t {
							c.Fail("the message's payload became %q, %v", got, err)
						}
					}
				}
			}
		}})

	const parts = 12
	add(&Scenario{Prop: "C07", Name: "contents", Bounds: [2]int{0, 0},
		Doc: "requests and replies whose names and payloads consist of up to 2 notable bytes, or contain special texts, in all encodings and as error messages: the handler gets exactly what was sent and the client what was returned",
		Body: func() {
			enc := vsched.Choose(3)
			asErr := vsched.Choose(2) == 1
			part := vsched.Choose(parts)
			lim := []int{1, 2}[vsched.Choose(2)]
			var bad string
			var o vsched.Obj
			var want string
			impl := &Impl{Req: func(c wwr.Connection, m wwr.Message) (wwr.Payload, error) {
				got := string(m.Payload())
				vsched.Op("seen", &o, nil, func() {
					if got != want || m.PayloadEncoding() != encs[enc] {
						bad = fmt.Sprintf("the payload %q arrived as %q", want, got)
					}
				})
				if asErr {
					return wwr.Payload{}, wwr.ErrRequest{Code: "C", Message: got}
				}
				return wwr.Payload{Encoding: encs[enc], Data: []byte(got)}, nil
			}}
			_, n := server(impl, noSessions())
			p := n.Connect("a", connOpts("a", lim))
			for i, s := range texts() {
				if i%parts != part || s == "" || (enc == eUtf16 && len(s)%2 != 0) {
					continue
				}
				vsched.Op("send", &o, nil, func() { want = s })
				id := reqID(i)
				p.Send(encRequest(id, "n", enc, s))
				w, ok := p.AwaitReply(id)
				exp := replyOf(enc, s)(id)
				if asErr {
					exp = errReply("C", s)(id)
				}
				if bad != "" {
					fail("%s", bad)
				}
				if !ok || w != exp {
					fail("the reply %s was sent as %s", exp, w)
				}
			}
			outcome("%d %v %d", enc, asErr, part)
		}})

	add(&Scenario{Prop: "C12", Name: "contents", Bounds: [2]int{0, 0},
		Doc: "signals in both directions whose payload consists of up to 2 notable bytes or contains special texts, and whose names contain every printable byte, arrive unchanged",
		Body: func() {
			enc := vsched.Choose(3)
			part := vsched.Choose(parts)
			lim := []int{1, 2}[vsched.Choose(2)]
			var o vsched.Obj
			var got []string
			t := newTracker()
			t.impl.Sig = func(c wwr.Connection, m wwr.Message) {
				s := fmt.Sprintf("%q %q", m.Name(), m.Payload())
				if m.PayloadEncoding() != encs[enc] {
					s = "wrong encoding"
				}
				vsched.Op("seen", &o, nil, func() { got = append(got, s) })
			}
			_, n := server(t.impl, noSessions())
			p := n.Connect("a", connOpts("a", lim))
			con := t.conns["a"].get()
			names := []string{"", "s", " ", " s", "s ", "  ", "A", "a", "\"", "%s", "\\", "/", "~"}
			var l [][2]string
			for _, s := range texts() {
				if s != "" {
					l = append(l, [2]string{"n", s}, [2]string{"", s})
				}
			}
			for _, name := range names {
				l = append(l, [2]string{name, "xy"}, [2]string{name, ""})
			}
			for b := 32; b < 127; b++ {
				l = append(l, [2]string{string(rune(b)) + "x" + string(rune(b)), "xy"})
			}
			sent := 0
			for i, x := range l {
				if i%parts != part || x[0]+x[1] == "" || (enc == eUtf16 && len(x[1])%2 != 0) {
					continue
				}
				p.Send(encSignal(x[0], enc, x[1]))
				vsched.Quiesce()
				if want := fmt.Sprintf("%q %q", x[0], x[1]); len(got) != 1 || got[0] != want {
					fail("the signal %s arrived as %s", want, strings.Join(got, ", "))
				}
				vsched.Op("seen", &o, nil, func() { got = nil })
				if err := con.Signal([]byte(x[0]), wwr.Payload{Encoding: encs[enc], Data: []byte(x[1])}); err != nil {
					fail("signal %q %q: %v", x[0], x[1], err)
				}
				sent++
				ms := p.Await(sent)
				if w := (wire{typ: tSignalBin + enc, name: x[0], payload: x[1], enc: enc}); ms[sent] != w {
					fail("the signal %s arrived as %s", w, ms[sent])
				}
			}
			outcome("%d %d", enc, part)
		}})

	add(&Scenario{Prop: "C14", Name: "keys", Bounds: [2]int{0, 0},
		Doc: "sessions with keys that consist of up to 2 notable bytes or special texts, or differ only in case, blanks or trailing bytes: restoring, querying and closing one by its key affects exactly this one",
		Body: func() {
			part := vsched.Choose(parts)
			w := newWorld(0, "a", "b")
			var keys []string
			for _, s := range texts() {
				keys = append(keys, "K"+s, s+"K")
			}
			keys = append(keys, "k", "K", strings.Repeat("K", 500), strings.Repeat("K", 501))
			a, b := w.c["a"], w.c["b"]
			w.put("K")
			w.setup("b", "K")
			id := 1000
			for i, k := range keys {
				if i%parts != part || k == "K" {
					continue
				}
				id++
				w.p["a"].Send(encNameless(tRestoreSession, reqID(id), k))
				if r, ok := w.p["a"].AwaitReply(reqID(id)); !ok || r.typ != tReplyNotFound {
					fail("the unknown key %q was answered with %s", k, r)
				}
				w.put(k)
				id++
				w.p["a"].Send(encNameless(tRestoreSession, reqID(id), k))
				if r, ok := w.p["a"].AwaitReply(reqID(id)); !ok || r.typ != tReplyUtf8 {
					fail("the key %q was answered with %s", k, r)
				}
				if a.SessionKey() != k || a.Session().Key != k || a.SessionInfo("k") != any(k) {
					fail("restored %q, got %q", k, a.SessionKey())
				}
				if w.srv.SessionConnectionsNum(k) != 1 || len(w.srv.SessionConnections(k)) != 1 || w.srv.SessionConnections(k)[0] != a || w.srv.ActiveSessionsNum() != 2 {
					fail("the session %q isn't listed", k)
				}
				if i%2 == 0 {
					if cs, _, err := w.srv.CloseSession(k); err != nil || len(cs) != 1 {
						fail("closing %q: %v %v", k, cs, err)
					}
				} else if err := a.CloseSession(); err != nil {
					fail("closing %q: %v", k, err)
				}
				if a.HasSession() || w.srv.SessionConnectionsNum(k) != -1 || w.sm.closedCount(k) != 1 {
					fail("the session %q wasn't closed", k)
				}
				if b.SessionKey() != "K" || w.srv.SessionConnectionsNum("K") != 1 || w.sm.closedCount("K") != 0 {
					fail("closing %q affected another session", k)
				}
			}
			outcome("%d", part)
		}})
}
