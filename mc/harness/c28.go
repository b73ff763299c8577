package harness

import (
	"bytes"
	"errors"
	"fmt"
	"log"
	"math"
	"net/url"
	"strings"
	"time"

	wwr "github.com/qbeon/webwire-go"

	"verif/vsched"
	"verif/vsched/vos"
)

// badNet is a transport that can't be initialized.
type badNet struct{ Net }

func (*badNet) Initialize(wwr.ServerOptions, wwr.IsShuttingDown, wwr.OnNewConnection) error {
	return errors.New("can't initialize")
}

func (*badNet) Address() url.URL { return url.URL{} }

// optTimeouts are read timeouts around every boundary.
var optTimeouts = []time.Duration{math.MinInt64, -1, 0, 1, time.Millisecond, time.Second - 1, time.Second, time.Second + 1,
	1500*time.Millisecond + 999999, 60 * time.Second, 24 * time.Hour, 4294967294 * time.Millisecond, 4294967295 * time.Millisecond,
	4294967295*time.Millisecond + 999999, 4294967296 * time.Millisecond, 4294967297 * time.Millisecond, 2 * 4294967296 * time.Millisecond, math.MaxInt64}

var optBuffers = []uint32{0, 1, 31, 32, 33, 64, 255, 256, 8191, 8192, 65535, 65536, 1 << 20}

var optProtos = []string{"", "x", "sub-protocol name", strings.Repeat("n", 255), strings.Repeat("n", 256), "\x00\xff"}

// wantTimeout is the effective read timeout (false: rejected).
func wantTimeout(d time.Duration) (time.Duration, bool) {
	if d < time.Second {
		return time.Minute, true
	}
	return d, d/time.Millisecond <= math.MaxUint32
}

func wantBuffer(n uint32) (uint32, bool) {
	if n == 0 {
		return 8192, true
	}
	return n, n >= 32
}

// checkServed connects to a server and compares what it announces.
func checkServed(n *Net, t *tracker, timeout time.Duration, buf uint32, proto string) (*Peer, wwr.Connection) {
	p := n.Connect("a", connOpts("a", 1))
	if p == nil {
		fail("the connection was refused")
	}
	c := t.conns["a"].get()
	vsched.Quiesce()
	got := p.Got()
	if len(got) != 1 || got[0].typ != tAcceptConf {
		fail("the client got [%s] instead of the configuration", show(got))
	}
	want := conf{2, 0, uint32(timeout / time.Millisecond), buf, proto}
	if got[0].conf != want {
		fail("the server announces %+v, want %+v", got[0].conf, want)
	}
	if len(p.deadlines) != 1 || p.deadlines[0] != vsched.Now()+int64(timeout) {
		fail("the deadline of the first read is in %v, want %v", p.deadlines, timeout)
	}
	return p, c
}

// checkBuffer probes the effective buffer size with signals.
func checkBuffer(p *Peer, c wwr.Connection, buf uint32) {
	for d := -1; d <= 1; d++ {
		data := make([]byte, int(buf)-2-1+d)
		seen := len(p.msgs)
		err := c.Signal([]byte("n"), wwr.Payload{Data: data})
		if d <= 0 && (err != nil || len(p.msgs) != seen+1 || len(p.msgs[seen]) != int(buf)+d) {
			fail("a signal of %d bytes with a buffer of %d bytes failed: %v", int(buf)+d, buf, err)
		}
		var o wwr.ErrBufferOverflow
		if d > 0 && (!errors.As(err, &o) || len(p.msgs) != seen) {
			fail("a signal of %d bytes with a buffer of %d bytes: %v", int(buf)+d, buf, err)
		}
	}
	p.msgs = p.msgs[:1]
}

func init() {
	add(&Scenario{Prop: "C28", Name: "values", Bounds: [2]int{0, 0}, Timed: true, Weight: 2,
		Doc: "every combination of 18 read timeouts, 13 buffer sizes and 6 sub-protocol names around every boundary: rejected or effective and announced",
		Body: func() {
			t := optTimeouts[vsched.Choose(len(optTimeouts))]
			b := optBuffers[vsched.Choose(len(optBuffers))]
			proto := optProtos[vsched.Choose(len(optProtos))]
			o := wwr.ServerOptions{Sessions: wwr.Disabled, ReadTimeout: t, MessageBufferSize: b, WarnLog: discard, ErrorLog: discard}
			if proto != "" || vsched.Choose(2) == 1 {
				o.SubProtocolName = []byte(proto)
			}
			tk := newTracker()
			n := &Net{}
			s, err := wwr.NewServer(tk.impl, o, n)
			wt, okt := wantTimeout(t)
			wb, okb := wantBuffer(b)
			if !okt || !okb {
				if err == nil || s != nil {
					fail("a server with a read timeout of %v and a buffer of %d bytes was created: %v %v", t, b, s, err)
				}
				outcome("rejected")
				return
			}
			if err != nil || s == nil {
				fail("creating a server with a read timeout of %v and a buffer of %d bytes failed: %v", t, b, err)
			}
			outcome("created")
			if n.opts.ReadTimeout != wt || n.opts.MessageBufferSize != wb || string(n.opts.SubProtocolName) != proto {
				fail("the transport was given a read timeout of %v, a buffer of %d bytes, protocol %q; want %v, %d, %q",
					n.opts.ReadTimeout, n.opts.MessageBufferSize, n.opts.SubProtocolName, wt, wb, proto)
			}
			p, c := checkServed(n, tk, wt, wb, proto)
			checkBuffer(p, c, wb)
		}})
	add(&Scenario{Prop: "C28", Name: "sessions", Bounds: [2]int{0, 0}, Timed: true, Weight: 2,
		Doc: "every combination of session setting, session manager, key generator, info parser, connection limit, loggers, implementation and transport being given, missing or failing",
		Body: func() {
			fs := vos.Reset()
			setting := []wwr.OptionValue{wwr.OptionUnset, wwr.Disabled, wwr.Enabled}[vsched.Choose(3)]
			opt := func() bool { return vsched.Choose(2) == 1 }
			hasMan, hasGen, hasParser, limit, hasWarn, hasErr, hasImpl := opt(), opt(), opt(), opt(), opt(), opt(), opt()
			trans := vsched.Choose(3)
			sm := newStore()
			gen := newStore()
			gen.nextKey = 100
			var parsed int
			warn, elog := log.New(&bytes.Buffer{}, "", 0), log.New(&bytes.Buffer{}, "", 0)
			o := wwr.ServerOptions{Sessions: setting, MessageBufferSize: 1024}
			if hasMan {
				o.SessionManager = sm
			}
			if hasGen {
				o.SessionKeyGenerator = gen
			}
			if hasParser {
				o.SessionInfoParser = func(m map[string]interface{}) wwr.SessionInfo {
					parsed++
					return wwr.GenericSessionInfoParser(m)
				}
			}
			if limit {
				o.MaxSessionConnections = 1
			}
			if hasWarn {
				o.WarnLog = warn
			}
			if hasErr {
				o.ErrorLog = elog
			}
			tk := newTracker()
			var impl wwr.ServerImplementation
			if hasImpl {
				impl = tk.impl
			}
			n := &Net{}
			var tr wwr.Transport
			switch trans {
			case 1:
				tr = n
			case 2:
				tr = &badNet{}
			}
			given := o
			s, err := wwr.NewServer(impl, o, tr)
			if !hasImpl || trans != 1 {
				if err == nil || s != nil {
					fail("a server without implementation or working transport was created: %v %v", s, err)
				}
				outcome("rejected")
				return
			}
			if err != nil || s == nil {
				fail("creating a server failed: %v", err)
			}
			if fmt.Sprint(given.Sessions, given.SessionManager == nil, given.ReadTimeout) != fmt.Sprint(o.Sessions, o.SessionManager == nil, o.ReadTimeout) {
				fail("the caller's options were changed")
			}
			// the effective options
			e := n.opts
			enabled := setting != wwr.Disabled
			if e.Sessions == wwr.OptionUnset || (e.Sessions == wwr.Enabled) != enabled {
				fail("the effective session setting is %v for %v", e.Sessions, setting)
			}
			if e.WarnLog == nil || e.ErrorLog == nil || hasWarn && e.WarnLog != warn || hasErr && e.ErrorLog != elog {
				fail("the effective loggers are %v, %v", e.WarnLog, e.ErrorLog)
			}
			if enabled && (e.SessionManager == nil || e.SessionKeyGenerator == nil || e.SessionInfoParser == nil) {
				fail("session dependencies are missing: %+v", e)
			}
			if hasMan && e.SessionManager != wwr.SessionManager(sm) || hasGen && e.SessionKeyGenerator != wwr.SessionKeyGenerator(gen) {
				fail("the given session manager or key generator was replaced")
			}
			if e.MaxSessionConnections != o.MaxSessionConnections || e.MessageBufferSize != 1024 || e.ReadTimeout != time.Minute {
				fail("the effective options are %+v", e)
			}
			p, c := checkServed(n, tk, time.Minute, 1024, "")
			err = c.CreateSession(someInfo())
			vsched.Quiesce()
			if !enabled {
				var d wwr.ErrSessionsDisabled
				if !errors.As(err, &d) {
					fail("creating a session on a server without sessions: %v", err)
				}
				if l := fs.Files(); len(l) > 0 {
					fail("a server without sessions created the files %v", l)
				}
				outcome("disabled")
				return
			}
			if err != nil {
				fail("creating a session: %v", err)
			}
			key := c.SessionKey()
			if key == "" || hasGen && key != "S101" {
				fail("the session's key is %q", key)
			}
			// it is restored on another connection from the storage
			if hasMan && sm.recs[key] == nil && !hasGen {
				// the test storage knows only keys of its own generator
				sm.put(key)
			} else if hasMan && sm.recs[key] == nil {
				sm.put(key)
			}
			q := n.Connect("b", connOpts("b", 1))
			q.Send(encNameless(tRestoreSession, reqID(1), key))
			vsched.Quiesce()
			r := repliesTo(q.Got(), reqID(1))
			if len(r) != 1 {
				fail("the restoration was answered with [%s]", show(r))
			}
			switch {
			case limit && r[0].typ != tReplyMaxConns:
				fail("with a limit of one connection a restoration was answered with %s", r[0])
			case !limit && r[0].typ != tReplyUtf8:
				fail("the restoration of a session was answered with %s", r[0])
			case !limit:
				b := tk.conns["b"].get()
				if b.SessionKey() != key || b.SessionInfo("k") == nil {
					fail("the restored session is %v with info %v", b.Session(), b.SessionInfo("k"))
				}
				if hasParser && parsed == 0 {
					fail("the given session info parser was not used")
				}
			}
			if !hasMan && len(fs.Files()) == 0 {
				fail("the default session manager stored nothing")
			}
			_ = p
			outcome("enabled")
		}})
	add(&Scenario{Prop: "C28", Name: "prepare", Bounds: [2]int{0, 0},
		Doc: "preparing options twice changes nothing, for every combination of boundary values",
		Body: func() {
			t := optTimeouts[vsched.Choose(len(optTimeouts))]
			b := optBuffers[vsched.Choose(len(optBuffers))]
			set := []wwr.OptionValue{wwr.OptionUnset, wwr.Disabled, wwr.Enabled}[vsched.Choose(3)]
			vos.Reset()
			o := wwr.ServerOptions{Sessions: set, ReadTimeout: t, MessageBufferSize: b}
			err := o.Prepare()
			wb, okb := wantBuffer(b)
			if okb != (err == nil) {
				fail("Prepare with a buffer of %d bytes: %v", b, err)
			}
			if err != nil {
				return
			}
			wt := t
			if t < time.Second {
				wt = time.Minute
			}
			ws := set
			if set == wwr.OptionUnset {
				ws = wwr.Enabled
			}
			for i := 0; i < 2; i++ {
				if o.ReadTimeout != wt || o.MessageBufferSize != wb || o.Sessions != ws || o.WarnLog == nil || o.ErrorLog == nil ||
					ws == wwr.Enabled && (o.SessionManager == nil || o.SessionKeyGenerator == nil) || o.SessionInfoParser == nil {
					fail("prepared options (%d): %+v", i, o)
				}
				before := o
				if err := o.Prepare(); err != nil {
					fail("preparing again: %v", err)
				}
				if o.WarnLog != before.WarnLog || o.SessionManager != before.SessionManager {
					fail("preparing again replaced a dependency")
				}
			}
		}})

	add(&Scenario{Prop: "C28", Name: "sizes", Bounds: [2]int{0, 0},
		Doc: "buffers from 32 bytes to 16 MiB: signals and requests of clients that fill them exactly are handled unchanged, as are those on the default; one byte more ends the connection",
		Body: func() {
			sizes := []int{0, 32, 33, 63, 64, 65, 127, 128, 255, 256, 257, 1023, 1024, 1025, 4096, 8191, 8192, 8193, 1<<15 - 1, 1 << 15, 1<<16 - 1, 1 << 16, 1<<16 + 1, 1<<17 + 5, 1 << 20, 1 << 24}
			size := sizes[vsched.Choose(len(sizes))]
			var seen []string
			note := func(m wwr.Message) { seen = append(seen, string(m.Payload())) }
			impl := &Impl{
				Req: func(_ wwr.Connection, m wwr.Message) (wwr.Payload, error) {
					note(m)
					return wwr.Payload{Data: []byte("r")}, nil
				},
				Sig: func(_ wwr.Connection, m wwr.Message) { note(m) },
			}
			o := noSessions()
			o.MessageBufferSize, o.WarnLog, o.ErrorLog = uint32(size), discard, discard
			n := &Net{}
			if _, err := wwr.NewServer(impl, o, n); err != nil {
				fail("NewServer: %v", err)
			}
			eff := size
			if size == 0 {
				eff = 8192
			}
			a := n.Connect("a", connOpts("a", 1))
			exact := func(m []byte, over int) ([]byte, string) {
				l := len(m)
				m = append(m, bytes.Repeat([]byte("z"), eff-l+over)...)
				return m, string(m[l:])
			}
			m1, p1 := exact(encSignal("n", eBin, ""), 0)
			m2, p2 := exact(encRequest(reqID(1), "n", eBin, ""), 0)
			a.Send(m1)
			a.Send(m2)
			vsched.Quiesce()
			if len(seen) != 2 || seen[0] != p1 || seen[1] != p2 {
				fail("buffer of %d bytes: %d messages of exactly this size were handled (or changed)", eff, len(seen))
			}
			exactly(a.Got(), 1, replyOf(eBin, "r")(reqID(1)))
			conf := a.Got()[0].conf
			if int(conf.bufSize) != eff {
				fail("announced a buffer size of %d instead of %d", conf.bufSize, eff)
			}
			big, _ := exact(encSignal("n", eBin, ""), 1)
			a.Send(big)
			vsched.Quiesce()
			if !a.closed || len(seen) != 2 {
				fail("buffer of %d bytes: a message of one byte more didn't end the connection (%v) or was handled", eff, a.closed)
			}
		}})
}
