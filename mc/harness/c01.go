package harness

import (
	"bytes"
	"fmt"
	"io"
	"time"

	"github.com/qbeon/webwire-go/message"
	pld "github.com/qbeon/webwire-go/payload"

	"verif/vsched"
)

// ---- an independent description of the wire format

// parsed is a message as the protocol describes it.
type parsed struct {
	typ     byte
	id      string
	name    string
	payload string
	enc     int // -1: unspecified
	conf    *conf
	lax     bool // both acceptance and rejection conform
}

// refParse parses a message of any type; the grammar is the one documented in
// message/message.go.
func refParse(b []byte) (m parsed, ok bool) {
	if len(b) == 0 {
		return
	}
	m.typ = b[0]
	n := len(b)
	switch m.typ {
	case tAcceptConf:
		if n < 11 {
			return
		}
		m.conf = &conf{int(b[1]), int(b[2]), le32(b[3:]), le32(b[7:]), string(b[11:])}
	case tHeartbeat, tSessionClosed:
		if n != 1 {
			return
		}
	case tSessionCreated:
		if n < 2 {
			return
		}
		m.payload = string(b[1:])
	case tReplyError:
		if n < 11 || b[9] == 0 || n < 10+int(b[9]) {
			return
		}
		e := 10 + int(b[9])
		m.id, m.name, m.payload, m.enc = string(b[1:9]), string(b[10:e]), string(b[e:]), -1
	case tReplyShutdown, tReplyInternal, tReplyNotFound, tReplyMaxConns, tReplyDisabled:
		if n < 9 {
			return
		}
		m.id, m.lax = string(b[1:9]), n > 9
	case tCloseSession:
		if n != 9 {
			return
		}
		m.id = string(b[1:9])
	case tRestoreSession:
		if n < 10 {
			return
		}
		m.id, m.payload = string(b[1:9]), string(b[9:])
	case tReplyBin, tReplyUtf8:
		if n < 9 {
			return
		}
		m.id, m.payload, m.enc = string(b[1:9]), string(b[9:]), int(m.typ-tReplyBin)
	case tReplyUtf16:
		if n < 10 || n%2 != 0 {
			return
		}
		m.id, m.payload, m.enc = string(b[1:9]), string(b[10:]), eUtf16
	case tSignalBin, tSignalUtf8, tSignalUtf16:
		m.enc = int(m.typ - tSignalBin)
		if n < 2 {
			return
		}
		return refNamed(m, b, 1)
	case tRequestBin, tRequestUtf8, tRequestUtf16:
		m.enc = int(m.typ - tRequestBin)
		if n < 10 {
			return
		}
		m.id = string(b[1:9])
		return refNamed(m, b, 9)
	default:
		return
	}
	return m, true
}

// refNamed parses the name and payload; at is the position of the length flag.
func refNamed(m parsed, b []byte, at int) (parsed, bool) {
	l := int(b[at])
	o := at + 1 + l
	if len(b) < o {
		return m, false
	}
	m.name = string(b[at+1 : o])
	if m.enc == eUtf16 {
		if len(b)%2 != 0 {
			return m, false
		}
		o += l % 2
	}
	if len(b) < o {
		return m, false
	}
	m.payload = string(b[o:])
	return m, l > 0 || len(m.payload) > 0
}

func le32(b []byte) uint32 {
	return uint32(b[0]) | uint32(b[1])<<8 | uint32(b[2])<<16 | uint32(b[3])<<24
}

// same tells how a message object differs from its description ("" if not).
func (m parsed) same(msg *message.Message, raw []byte) string {
	id := m.id
	if id == "" {
		id = "\x00\x00\x00\x00\x00\x00\x00\x00"
	}
	switch {
	case msg.MsgType != m.typ:
		return fmt.Sprintf("type %d", msg.MsgType)
	case string(msg.MsgIdentifier[:]) != id:
		return fmt.Sprintf("identifier %x instead of %x", msg.MsgIdentifier, id)
	case string(msg.MsgIdentifierBytes) != id && !(m.id == "" && len(msg.MsgIdentifierBytes) == 0):
		return fmt.Sprintf("identifier bytes %x instead of %x", msg.MsgIdentifierBytes, id)
	case string(msg.MsgName) != m.name:
		return fmt.Sprintf("name %q instead of %q", msg.MsgName, m.name)
	case string(msg.MsgPayload.Data) != m.payload:
		return fmt.Sprintf("payload %q instead of %q", msg.MsgPayload.Data, m.payload)
	case m.enc >= 0 && int(msg.MsgPayload.Encoding) != m.enc:
		return fmt.Sprintf("encoding %d instead of %d", msg.MsgPayload.Encoding, m.enc)
	case !bytes.Equal(msg.MsgBuffer.Data(), raw):
		return fmt.Sprintf("buffer % x", msg.MsgBuffer.Data())
	case msg.MsgBuffer.IsEmpty():
		return "empty buffer"
	}
	c := msg.ServerConfiguration
	if w := m.conf; w == nil {
		if c.MajorProtocolVersion != 0 || c.MinorProtocolVersion != 0 || c.ReadTimeout != 0 || c.MessageBufferSize != 0 || len(c.SubProtocolName) != 0 {
			return fmt.Sprintf("server configuration %v", c)
		}
	} else if int(c.MajorProtocolVersion) != w.major || int(c.MinorProtocolVersion) != w.minor ||
		c.ReadTimeout != time.Duration(w.timeoutMs)*time.Millisecond || c.MessageBufferSize != w.bufSize ||
		string(c.SubProtocolName) != w.proto {
		return fmt.Sprintf("server configuration %v instead of %v", c, *w)
	}
	// the accessors agree with the fields
	a := msg.Identifier()
	if string(a[:]) != id || string(msg.Name()) != m.name || string(msg.Payload()) != m.payload ||
		msg.PayloadEncoding() != msg.MsgPayload.Encoding {
		return "accessors differ from the fields"
	}
	wantsReply := false
	switch m.typ {
	case tCloseSession, tRestoreSession, tRequestBin, tRequestUtf8, tRequestUtf16:
		wantsReply = true
	}
	if msg.RequiresReply() != wantsReply {
		return "RequiresReply differs"
	}
	return ""
}

// ---- writers

// sink is a writer that may fail; it checks the calls made on it.
type sink struct {
	b         []byte
	writes    int
	closes    int
	failAt    int // the failing write (1 based), 0: none
	failClose bool
	failed    bool
	bad       string
	failWith  error // the failure, WRITEFAILED and CLOSEFAILED if nil
	onIO      func(b []byte)
}

type sinkErr string

func (e sinkErr) Error() string { return string(e) }

func (s *sink) Write(b []byte) (int, error) {
	if s.onIO != nil {
		s.onIO(b)
	}
	s.writes++
	if s.closes > 0 {
		s.bad = "written after the close"
	}
	if s.failed {
		s.bad = "written after a failure"
	}
	if s.writes == s.failAt {
		s.failed = true
		if s.failWith != nil {
			return 0, s.failWith
		}
		return 0, sinkErr("WRITEFAILED")
	}
	s.b = append(s.b, b...)
	return len(b), nil
}

func (s *sink) Close() error {
	if s.onIO != nil {
		s.onIO(nil)
	}
	s.closes++
	if s.closes > 1 {
		s.bad = "closed twice"
	}
	if s.failClose {
		if s.failWith != nil {
			return s.failWith
		}
		return sinkErr("CLOSEFAILED")
	}
	return nil
}

// wcase is a call of a protocol writer.
type wcase struct {
	f    int // writer
	typ  byte
	id   string
	name string
	enc  int
	data string
	safe bool
}

const (
	wReply = iota
	wReplyError
	wSpecial
	wRequest
	wSignal
	wNameless
	wCreated
	wClosed
	wBeat
	wLast
)

func (w *wcase) run(s io.WriteCloser) error {
	switch w.f {
	case wReply:
		return message.WriteMsgReply(s, []byte(w.id), pld.Encoding(w.enc), []byte(w.data))
	case wReplyError:
		return message.WriteMsgReplyError(s, []byte(w.id), []byte(w.name), []byte(w.data), w.safe)
	case wSpecial:
		return message.WriteMsgSpecialRequestReply(s, w.typ, []byte(w.id))
	case wRequest:
		return message.WriteMsgRequest(s, []byte(w.id), []byte(w.name), pld.Encoding(w.enc), []byte(w.data), w.safe)
	case wSignal:
		return message.WriteMsgSignal(s, []byte(w.name), pld.Encoding(w.enc), []byte(w.data), w.safe)
	case wNameless:
		return message.WriteMsgNamelessRequest(s, w.typ, []byte(w.id), []byte(w.data))
	case wCreated:
		return message.WriteMsgNotifySessionCreated(s, []byte(w.data))
	case wClosed:
		return message.WriteMsgNotifySessionClosed(s)
	case wBeat:
		return message.WriteMsgHeartbeat(s)
	}
	panic("writer")
}

// valid tells whether the parameters are valid and what the message says.
func (w *wcase) valid() (m parsed, ok bool) {
	ok = true
	m = parsed{id: w.id, name: w.name, payload: w.data, enc: w.enc}
	unalignedData := w.enc == eUtf16 && len(w.data)%2 != 0
	switch w.f {
	case wReply:
		m.typ = byte(tReplyBin + w.enc)
		ok = !unalignedData
	case wReplyError:
		m.typ, m.enc = tReplyError, -1
		ok = len(w.name) > 0 && len(w.name) < 256 && (!w.safe || printable(w.name))
	case wSpecial:
		m.typ, m.enc = w.typ, 0
		ok = w.typ >= tReplyShutdown && w.typ <= tReplyDisabled
	case wRequest, wSignal:
		m.typ = byte(tRequestBin + w.enc)
		if w.f == wSignal {
			m.typ = byte(tSignalBin + w.enc)
		}
		ok = len(w.name) < 256 && len(w.name)+len(w.data) > 0 && !unalignedData && (!w.safe || printable(w.name))
	case wNameless:
		m.typ, m.enc = w.typ, 0
		ok = (w.typ == tRestoreSession) == (len(w.data) > 0)
	case wCreated:
		m.typ = tSessionCreated
		ok = len(w.data) > 0
	case wClosed:
		m.typ = tSessionClosed
	case wBeat:
		m.typ = tHeartbeat
	}
	return
}

func printable(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] < 32 || s[i] > 126 {
			return false
		}
	}
	return true
}

// expect is the documented encoding; pad is the padding byte's position (-1).
func (w *wcase) expect() (b []byte, pad int) {
	m, _ := w.valid()
	pad = -1
	b = append(b, m.typ)
	switch w.f {
	case wReply:
		b = append(b, w.id...)
		if w.enc == eUtf16 {
			pad = len(b)
			b = append(b, 0)
		}
	case wReplyError:
		b = append(b, w.id...)
		b = append(b, byte(len(w.name)))
		b = append(b, w.name...)
	case wSpecial, wNameless:
		b = append(b, w.id...)
	case wRequest, wSignal:
		if w.f == wRequest {
			b = append(b, w.id...)
		}
		b = append(b, byte(len(w.name)))
		b = append(b, w.name...)
		if w.enc == eUtf16 && len(w.name)%2 != 0 {
			pad = len(b)
			b = append(b, 0)
		}
	}
	return append(b, w.data...), pad
}

func (w *wcase) String() string {
	return fmt.Sprintf("writer %d type %d id %x name %d:%.8q enc %d payload %d:%.8x safe %v",
		w.f, w.typ, w.id, len(w.name), w.name, w.enc, len(w.data), w.data, w.safe)
}

// textOf is a printable name.
func textOf(n, seed int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(32 + (i*7+seed*31+n)%95)
	}
	return string(b)
}

// dataOf is an arbitrary payload.
func dataOf(n, seed int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i*37 + seed*101 + n)
	}
	if seed == 1 {
		for i := range b {
			b[i] = 0
		}
	}
	return string(b)
}

var ids = []string{"\x00\x00\x00\x00\x00\x00\x00\x00", "\x01\x02\x03\x04\x05\x06\x07\x08", "\xff\xff\xff\xff\xff\xff\xff\xff"}

// eachWrite enumerates the calls of all writers over the given name and payload
// lengths.
func eachWrite(names, lens []int, seeds int, f func(w *wcase)) {
	for seed := 0; seed < seeds; seed++ {
		id := ids[seed%len(ids)]
		for _, pl := range lens {
			data := dataOf(pl, seed)
			for enc := eBin; enc <= eUtf16; enc++ {
				f(&wcase{f: wReply, id: id, enc: enc, data: data})
				for _, nl := range names {
					name := textOf(nl, seed)
					for s := 0; s < 2; s++ {
						f(&wcase{f: wRequest, id: id, name: name, enc: enc, data: data, safe: s == 0})
						f(&wcase{f: wSignal, name: name, enc: enc, data: data, safe: s == 0})
						if enc == eBin {
							f(&wcase{f: wReplyError, id: id, name: name, data: data, safe: s == 0})
						}
					}
				}
			}
			f(&wcase{f: wNameless, typ: tRestoreSession, id: id, data: data})
			f(&wcase{f: wNameless, typ: tCloseSession, id: id, data: data})
			f(&wcase{f: wCreated, data: data})
		}
		for t := 0; t < 256; t++ {
			f(&wcase{f: wSpecial, typ: byte(t), id: id})
		}
		f(&wcase{f: wClosed})
		f(&wcase{f: wBeat})
	}
}

func seqTo(lo, hi int) (l []int) {
	for i := lo; i <= hi; i++ {
		l = append(l, i)
	}
	return
}

// judgeRoundtrip writes a message and reads it back.
func judgeRoundtrip(c *Seq, w *wcase, reused *message.Message) {
	m, ok := w.valid()
	s := &sink{}
	err := w.run(s)
	c.Ops++
	if err != nil {
		if ok {
			c.Fail("a valid message was rejected: %v", err)
		}
		return // C05
	}
	if m.id == "" {
		m.id = ids[0]
	}
	checkRead(c, m, s.b, reused)
	if ok {
		exp, pad := w.expect()
		if pad >= 0 && pad < len(s.b) {
			exp[pad] = s.b[pad]
		}
		if !bytes.Equal(exp, s.b) {
			c.Fail("written % .40x, expected % .40x", s.b, exp)
		}
	}
	if w.enc == eUtf16 && (w.f == wReply || w.f == wRequest || w.f == wSignal) && (len(s.b)-len(w.data))%2 != 0 {
		c.Fail("the UTF-16 payload starts at the odd offset %d", len(s.b)-len(w.data))
	}
	if w.f == wRequest {
		if n := message.CalcMsgLenRequest([]byte(w.name), pld.Encoding(w.enc), []byte(w.data)); n != len(s.b) {
			c.Fail("CalcMsgLenRequest says %d for %d bytes", n, len(s.b))
		}
	}
	c.Outcome(fmt.Sprintf("writer %d enc %d accepted", w.f, w.enc))
}

func init() {
	add(&Scenario{Prop: "C01", Name: "roundtrip", Weight: 3,
		Doc: "every writer, over all name lengths 0..257 and payload lengths: whatever is accepted has the documented layout and is parsed back unchanged (into a fresh and a reused message, from bytes and from a stream)",
		Seq: func(c *Seq) {
			lens := append(seqTo(0, 9), 15, 16, 17, 127, 128, 254, 255, 256, 257, 258, 1023, 1024)
			seeds := 3
			if c.Thorough {
				lens = append(seqTo(0, 300), 1023, 1024, 65535, 65536)
				seeds = 4
			}
			const size = 70000
			reused := message.NewMessage(size)
			eachWrite(seqTo(0, 257), lens, seeds, func(w *wcase) {
				if !c.Try("%v", w) {
					return
				}
				judgeRoundtrip(c, w, reused)
			})
		}})

	add(&Scenario{Prop: "C01", Name: "config",
		Doc: "server configurations over all boundary values of every field are parsed back unchanged or rejected when they can't be expressed",
		Seq: func(c *Seq) {
			reused := message.NewMessage(2000)
			timeouts := []time.Duration{0, time.Millisecond, 255 * time.Millisecond, 256 * time.Millisecond, time.Second,
				65535 * time.Millisecond, 65536 * time.Millisecond, 60 * time.Second, time.Hour, 16777216 * time.Millisecond,
				4294967295 * time.Millisecond, 4294967296 * time.Millisecond, 1 << 62, -1, -time.Millisecond, -time.Hour}
			sizes := []uint32{0, 1, 32, 255, 256, 8192, 65535, 65536, 1 << 24, 1<<31 - 1, 1 << 31, 1<<32 - 1}
			vers := []byte{0, 1, 2, 127, 128, 255}
			plens := append(seqTo(0, 20), 255, 256, 1000)
			if c.Thorough {
				plens = seqTo(0, 1100)
			}
			for _, t := range timeouts {
				for _, sz := range sizes {
					for _, ma := range vers {
						for _, mi := range vers {
							for _, pl := range plens {
								if !c.Try("timeout %d size %d version %d.%d protocol %d", t, sz, ma, mi, pl) {
									continue
								}
								p := dataOf(pl, 0)
								b, err := message.NewAcceptConfMessage(message.ServerConfiguration{
									MajorProtocolVersion: ma, MinorProtocolVersion: mi, ReadTimeout: t,
									MessageBufferSize: sz, SubProtocolName: []byte(p),
								})
								c.Ops++
								if t > 4294967295*time.Millisecond || t <= -time.Millisecond {
									if err == nil {
										c.Fail("an inexpressible read timeout was accepted")
									}
									continue
								}
								if t < 0 {
									continue // rounds to zero milliseconds
								}
								if err != nil {
									c.Fail("rejected: %v", err)
								}
								m := parsed{typ: tAcceptConf, conf: &conf{int(ma), int(mi), uint32(t / time.Millisecond), sz, p}}
								checkRead(c, m, b, reused)
							}
						}
					}
				}
			}
		}})
}

var primer = [][]byte{
	encRequest("\xa1\xa2\xa3\xa4\xa5\xa6\xa7\xa8", "primer", eUtf16, "primer"),
	append([]byte{tAcceptConf, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9}, "primer"...),
}

// checkRead reads a message in every way.
func checkRead(c *Seq, m parsed, b []byte, reused *message.Message) {
	for _, msg := range []*message.Message{nil, reused} {
		for stream := 0; stream < 2; stream++ {
			if msg == nil {
				if stream == 1 && len(b) > 300 {
					continue
				}
				msg = message.NewMessage(uint32(len(b)))
			}
			var ok bool
			var err error
			if msg == reused {
				// leave something in every field
				msg.ReadBytes(primer[stream])
			}
			if stream == 0 {
				ok, err = msg.ReadBytes(b)
			} else {
				ok, err = msg.Read(bytes.NewReader(b))
			}
			if err != nil || !ok {
				c.Fail("a written message is not parsed: %v %v (% .40x)", ok, err, b)
			}
			if d := m.same(msg, b); d != "" {
				c.Fail("parsed back with %s", d)
			}
		}
	}
}

// together are messages that are written and read at the same time.
var together = []*wcase{
	{f: wReply, id: "12345678", enc: eBin, data: "ab"},
	{f: wReply, id: "87654321", enc: eUtf8, data: "xyz"},
	{f: wReply, id: "abcdefgh", enc: eUtf16, data: "a\x00b\x00"},
	{f: wReplyError, id: "err4err4", name: "CODE", data: "message", safe: true},
	{f: wReplyError, id: "err5err5", name: "C", data: "", safe: false},
	{f: wSpecial, typ: tReplyInternal, id: "internal"},
	{f: wSpecial, typ: tReplyShutdown, id: "shutdown"},
	{f: wRequest, id: "request1", name: "nm", enc: eBin, data: "p", safe: true},
	{f: wRequest, id: "request2", name: "odd", enc: eUtf16, data: "a\x00", safe: true},
	{f: wRequest, id: "request3", name: "", enc: eUtf8, data: "only", safe: false},
	{f: wSignal, name: "signal", enc: eBin, data: "p", safe: true},
	{f: wSignal, name: "s", enc: eUtf16, data: "c\x00d\x00", safe: true},
	{f: wSignal, name: "only the name", enc: eUtf8, data: "", safe: false},
	{f: wNameless, typ: tRestoreSession, id: "restore1", data: "key"},
	{f: wNameless, typ: tCloseSession, id: "closing1"},
	{f: wCreated, data: "{session}"},
	{f: wClosed},
	{f: wBeat},
}

func init() {
	add(&Scenario{Prop: "C01", Name: "together", Bounds: [2]int{1, 2},
		Doc: "every pair of messages is written to two writers, and read back, by two threads at the same time: each message arrives as if it were alone",
		Body: func() {
			i := vsched.Choose(len(together))
			j := i + vsched.Choose(len(together)-i)
			var ts []*task
			for k, w := range []*wcase{together[i], together[j]} {
				w, k := w, k
				ts = append(ts, spawn(fmt.Sprint("writer", k), func() {
					var o vsched.Obj
					s := &sink{onIO: func(b []byte) {
						vsched.RdS(b)
						vsched.Op("write", &o, nil, func() {})
						vsched.RdS(b)
					}}
					m, _ := w.valid()
					if err := w.run(s); err != nil {
						fail("%v is rejected: %v", w, err)
					}
					exp, pad := w.expect()
					if pad >= 0 && pad < len(s.b) {
						exp[pad] = s.b[pad]
					}
					if !bytes.Equal(exp, s.b) {
						fail("%v was written as % x instead of % x while %v was written", w, s.b, exp, []*wcase{together[i], together[j]}[1-k])
					}
					if w.f == wRequest && message.CalcMsgLenRequest([]byte(w.name), pld.Encoding(w.enc), []byte(w.data)) != len(s.b) {
						fail("CalcMsgLenRequest of %v is wrong", w)
					}
					if m.id == "" {
						m.id = ids[0]
					}
					msg := message.NewMessage(uint32(len(s.b)))
					ok, err := msg.ReadBytes(append([]byte{}, s.b...))
					vsched.Op("parsed", &o, nil, func() {})
					if err != nil || !ok {
						fail("%v isn't parsed: %v %v", w, ok, err)
					}
					if d := m.same(msg, s.b); d != "" {
						fail("%v was parsed back with %s", w, d)
					}
				}))
			}
			allJoined(ts...)
			outcome("%d %d", together[i].f, together[j].f)
		}})
}
