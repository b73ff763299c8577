package harness

import (
	"encoding/json"
	"fmt"
	"path/filepath"
	"strings"
	"time"

	wwr "github.com/qbeon/webwire-go"

	"verif/vsched"
	"verif/vsched/vos"
)

// sessConn is a connection that has a session.
type sessConn struct {
	wwr.Connection
	s *wwr.Session
}

func (c sessConn) Session() *wwr.Session                { return c.s.Clone() }
func (c sessConn) SessionKey() string                   { return c.s.Key }
func (c sessConn) SessionCreation() time.Time           { return c.s.Creation }
func (c sessConn) HasSession() bool                     { return true }
func (c sessConn) IsActive() bool                       { return true }
func (c sessConn) SessionInfo(field string) interface{} { return c.s.Clone().Info.Value(field) }

// drec is what is known about a session in the default storage.
type drec struct {
	key      string
	creation time.Time
	info     map[string]interface{}
	exists   [2]bool     // may be missing, may be found
	last     []time.Time // possible last lookup times
}

func newRec(key string) *drec {
	return &drec{key: key, creation: vtimeAt(vsched.Now()).UTC(),
		info: map[string]interface{}{"of": key, "deep": map[string]interface{}{"l": []interface{}{"x", 1.5, nil, true}}}}
}

func (r *drec) conn() wwr.Connection {
	s := &wwr.Session{Key: r.key, Creation: r.creation, LastLookup: r.creation, Info: wwr.GenericSessionInfoParser(r.info)}
	return sessConn{s: s}
}

// judge compares a lookup's result; it reports whether the session was found.
func (r *drec) judge(res wwr.SessionLookupResult, err error, when string) bool {
	if err != nil {
		fail("%s: looking up session %s failed: %v", when, r.key, err)
	}
	if res == nil {
		if !r.exists[0] {
			fail("%s: session %s was not found although it is stored", when, r.key)
		}
		return false
	}
	if !r.exists[1] {
		fail("%s: session %s was found although it is not stored", when, r.key)
	}
	okLast := false
	for _, t := range r.last {
		okLast = okLast || t.Equal(res.LastLookup())
	}
	if !res.Creation().Equal(r.creation) || !sameInfo(res.Info(), r.info) || !okLast {
		fail("%s: session %s was found as %v, last lookup %v, %v; want %v, one of %v, %v", when, r.key,
			res.Creation(), res.LastLookup(), res.Info(), r.creation, r.last, r.info)
	}
	return true
}

const sessDir = "/work/store/sessions"

func advance() { vsched.AdvanceNext(vsched.Now() + int64(time.Hour)) }

// dworld is a default session manager with stored sessions X and Y.
type dworld struct {
	fs   *vos.FS
	m    *wwr.DefaultSessionManager
	recs map[string]*drec
}

func newDworld() *dworld {
	w := &dworld{fs: vos.Reset(), recs: map[string]*drec{}}
	w.m = wwr.NewDefaultSessionManager(sessDir)
	for _, k := range []string{"X", "Y"} {
		advance()
		r := newRec(k)
		r.exists[1] = true
		r.last = []time.Time{r.creation}
		w.recs[k] = r
		if err := w.m.OnSessionCreated(r.conn()); err != nil {
			fail("storing a session failed: %v", err)
		}
	}
	advance()
	return w
}

// storeOps are the operations of the default session manager.
var storeOps = []string{"create Z", "lookup X", "lookup Y", "close X", "close Y"}

// perform runs an operation; the expectations allow both outcomes while it is
// in progress.
func (w *dworld) perform(op string, faults bool, prog *cell) {
	k := strings.Fields(op)[1]
	now := vtimeAt(vsched.Now())
	r := w.recs[k]
	switch strings.Fields(op)[0] {
	case "create":
		for w.recs[k] != nil {
			k += "2"
		}
		r = newRec(k)
		vsched.Log(func() {
			w.recs[k] = r
			r.exists = [2]bool{true, true}
			r.last = []time.Time{r.creation}
		})
		err := w.m.OnSessionCreated(r.conn())
		if err != nil && !faults {
			fail("storing session %s failed: %v", k, err)
		}
		prog.add(1)
		if err == nil {
			vsched.Log(func() { r.exists[0] = false })
		}
	case "lookup":
		before := *r
		vsched.Log(func() { r.last = append(append([]time.Time{}, r.last...), now) })
		res, err := w.m.OnSessionLookup(k)
		prog.add(1)
		if err != nil && faults {
			return
		}
		if before.judge(res, err, op) {
			vsched.Log(func() { r.last = []time.Time{now} })
		} else {
			vsched.Log(func() { r.last = before.last })
		}
	case "close":
		if r.exists[1] {
			vsched.Log(func() { r.exists[0] = true })
		}
		err := w.m.OnSessionClosed(k)
		if err != nil && r.exists[1] && !faults {
			fail("closing session %s failed: %v", k, err)
		}
		prog.add(1)
		if err == nil {
			vsched.Log(func() { r.exists = [2]bool{true, false} })
		}
	}
}

// recheck looks everything up with a new process and uses the storage on.
func (w *dworld) recheck(when string) {
	w.m = wwr.NewDefaultSessionManager(sessDir)
	for _, k := range []string{"X", "Y", "Z", "Z2", "Z22", "Z222", "Z2222"} {
		r := w.recs[k]
		if r == nil {
			r = &drec{key: k, exists: [2]bool{true, false}}
		}
		advance()
		t1 := vtimeAt(vsched.Now())
		res, err := w.m.OnSessionLookup(k)
		if !r.judge(res, err, when) {
			outcome("%s gone", k)
			continue
		}
		outcome("%s there", k)
		r.exists = [2]bool{false, true}
		r.last = []time.Time{t1}
		advance()
		res, err = w.m.OnSessionLookup(k)
		r.judge(res, err, when+", second lookup")
		if err := w.m.OnSessionClosed(k); err != nil {
			fail("%s: closing session %s failed: %v", when, k, err)
		}
		r.exists = [2]bool{true, false}
		res, err = w.m.OnSessionLookup(k)
		r.judge(res, err, when+", after closing it")
	}
	if res, err := w.m.OnSessionLookup("W"); res != nil || err != nil {
		fail("%s: looking up an unknown session returned %v, %v", when, res, err)
	}
	for p := range w.fs.Files() {
		if filepath.Dir(p) != sessDir {
			fail("the file %s was created outside the session directory", p)
		}
	}
}

func init() {
	crash := func(n int) func() {
		return func() {
			w := newDworld()
			ops := make([]string, n)
			for i := range ops {
				ops[i] = storeOps[vsched.Choose(len(storeOps))]
			}
			var prog cell
			w.fs.Arm(true)
			vsched.GoNamed("worker", func() {
				for _, o := range ops {
					w.perform(o, false, &prog)
					advance()
				}
				prog.set(100)
			})
			crashed := w.fs.WaitCrashOr(func() bool { return prog.v == 100 })
			if !crashed {
				prog.get()
			}
			w.fs.Restart()
			advance()
			w.recheck(fmt.Sprintf("after %v with crash %v in operation %d", ops, crashed, prog.v))
		}
	}
	add(&Scenario{Prop: "C17", Name: "crash2", Bounds: [2]int{0, 0}, Timed: true,
		Doc: "every history of two operations on the default session storage with a process crash before every modifying system call (torn writes included), followed by a restart", Body: crash(2)})
	add(&Scenario{Prop: "C17", Name: "crash3", Bounds: [2]int{0, 0}, Timed: true, Weight: 2,
		Doc: "the same for three operations", Body: crash(3)})
	add(&Scenario{Prop: "C17", Name: "crash4", Bounds: [2]int{0, 0}, Timed: true, Weight: 3,
		Doc: "the same for four operations", Body: crash(4)})
	add(&Scenario{Prop: "C17", Name: "crash5", Bounds: [2]int{0, 0}, Timed: true, Weight: 6, ThoroughOnly: true,
		Doc: "the same for five operations", Body: crash(5)})

	add(&Scenario{Prop: "C17", Name: "fulldisk", Bounds: [2]int{0, 0}, Timed: true,
		Doc: "every history of two operations with up to two file creations or writes failing because the disk is full",
		Body: func() {
			w := newDworld()
			a, b := storeOps[vsched.Choose(len(storeOps))], storeOps[vsched.Choose(len(storeOps))]
			var prog cell
			w.fs.Faults = 2
			w.perform(a, true, &prog)
			advance()
			w.perform(b, true, &prog)
			advance()
			w.fs.Faults = 0
			w.recheck("after a full disk during " + a + " and " + b)
		}})

	ioerr := func(n, errs int) func() {
		return func() {
			w := newDworld()
			ops := make([]string, n)
			for i := range ops {
				ops[i] = storeOps[vsched.Choose(len(storeOps))]
			}
			var prog cell
			w.fs.Errors = errs
			for _, o := range ops {
				w.perform(o, true, &prog)
				advance()
			}
			w.fs.Errors = 0
			w.recheck(fmt.Sprintf("after input/output errors during %v", ops))
		}
	}
	add(&Scenario{Prop: "C17", Name: "ioerrors2", Bounds: [2]int{0, 0}, Timed: true,
		Doc: "every history of two operations with up to two system calls of any kind (reads included) failing: an operation that reports success did its work, a stored session is never reported as missing or with other contents", Body: ioerr(2, 2)})
	add(&Scenario{Prop: "C17", Name: "ioerrors3", Bounds: [2]int{0, 0}, Timed: true, Weight: 2,
		Doc: "the same for three operations", Body: ioerr(3, 2)})
	add(&Scenario{Prop: "C17", Name: "ioerrors4", Bounds: [2]int{0, 0}, Timed: true, Weight: 4, ThoroughOnly: true,
		Doc: "the same for four operations and up to three failures", Body: ioerr(4, 3)})

	add(&Scenario{Prop: "C17", Name: "times", Bounds: [2]int{0, 0}, Timed: true,
		Doc: "every sequence of four lookups of a stored session after a nanosecond, some milliseconds, seconds, hours or a year, by the same manager or a new one: each returns the time of the previous one and the creation time and information",
		Body: func() {
			w := newDworld()
			r := w.recs["X"]
			mk := vsched.Choose(4)
			if mk > 0 {
				r = newRec("I")
				r.info = []map[string]interface{}{nil, {}, {
					"": "", "int": float64(1 << 40), "neg": -0.5, "t": true, "f": false, "nil": nil,
					"utf": "\u00fc\U0001f600\x00\n\"", "l": []interface{}{}, "m": map[string]interface{}{"k": map[string]interface{}{}},
					"k": "v", "c": "x", "i": map[string]interface{}{"i": "i"}, "html": "<&>\u2028",
				}}[mk-1]
				r.exists[1] = true
				r.last = []time.Time{r.creation}
				if err := w.m.OnSessionCreated(r.conn()); err != nil {
					fail("storing a session failed: %v", err)
				}
			}
			for i := 0; i < 4; i++ {
				d := []time.Duration{1, 5 * time.Millisecond, 1500 * time.Millisecond, 3 * time.Hour, 365 * 24 * time.Hour}[vsched.Choose(5)]
				vsched.AdvanceNext(vsched.Now() + int64(d))
				if i == 2 && vsched.Choose(2) == 1 {
					w.m = wwr.NewDefaultSessionManager(sessDir)
				}
				now := vtimeAt(vsched.Now())
				res, err := w.m.OnSessionLookup(r.key)
				r.judge(res, err, fmt.Sprintf("lookup %d", i))
				r.last = []time.Time{now}
			}
			if err := w.m.OnSessionClosed(r.key); err != nil {
				fail("closing the session failed: %v", err)
			}
			r.exists = [2]bool{true, false}
			res, err := w.m.OnSessionLookup(r.key)
			r.judge(res, err, "after closing it")
		}})

	// concurrent operations of one or two managers
	conc := func(pairs [][]string, withCrash bool) func() {
		return func() {
			w := newDworld()
			ops := pairs[vsched.Choose(len(pairs))]
			var prog cell
			m := w.m
			h := &hist{}
			for _, o := range ops {
				if o == "create Z" {
					r := newRec("Z")
					r.exists = [2]bool{true, true}
					r.last = []time.Time{r.creation}
					w.recs["Z"] = r
				}
			}
			now := vtimeAt(vsched.Now())
			for _, r := range w.recs {
				r.last = append(r.last, now)
			}
			var ts []*task
			if withCrash {
				w.fs.Arm(true)
			}
			for i, o := range ops {
				i, o := i, o
				f := strings.Fields(o)
				ts = append(ts, spawn(fmt.Sprint(i, o), func() {
					r := w.recs[f[1]]
					h.add("begin%d:%s", i, o)
					switch f[0] {
					case "create":
						if err := m.OnSessionCreated(r.conn()); err != nil {
							fail("storing session %s failed: %v", f[1], err)
						}
						h.add("created:%s", f[1])
					case "lookup":
						got, err := m.OnSessionLookup(f[1])
						x := *r
						x.exists = [2]bool{true, true}
						if x.judge(got, err, "concurrent "+o) {
							h.add("found%d:%s", i, f[1])
						} else {
							h.add("missing%d:%s", i, f[1])
						}
					case "close":
						if err := m.OnSessionClosed(f[1]); err != nil {
							fail("closing session %s failed: %v", f[1], err)
						}
						h.add("closed:%s", f[1])
					}
					prog.add(1)
				}))
			}
			crashed := w.fs.WaitCrashOr(func() bool { return prog.v == len(ops) })
			if !crashed {
				for _, t := range ts {
					t.join()
				}
			}
			// judge the lookups
			for i, o := range ops {
				f := strings.Fields(o)
				if f[0] != "lookup" {
					continue
				}
				b := h.index(fmt.Sprintf("begin%d:%s", i, o))
				fo, mi := h.index(fmt.Sprintf("found%d:%s", i, f[1])), h.index(fmt.Sprintf("missing%d:%s", i, f[1]))
				cl, cb := h.index("closed:"+f[1]), -1
				for j, o2 := range ops {
					if o2 == "close "+f[1] {
						cb = h.index(fmt.Sprintf("begin%d:%s", j, o2))
					}
				}
				if fo >= 0 && cl >= 0 && b > cl {
					fail("a lookup found session %s after it had been closed: %s", f[1], h)
				}
				if mi >= 0 && f[1] != "Z" && (cb < 0 || mi < cb) {
					fail("a lookup did not find the stored session %s: %s", f[1], h)
				}
				if cr := h.index("created:" + f[1]); mi >= 0 && f[1] == "Z" && cr >= 0 && b > cr {
					fail("a lookup did not find the stored session Z: %s", h)
				}
			}
			for k, r := range w.recs {
				began := false
				for j, o := range ops {
					if o == "close "+k && h.index(fmt.Sprintf("begin%d:%s", j, o)) >= 0 {
						began = true
					}
				}
				switch {
				case h.index("closed:"+k) >= 0:
					r.exists = [2]bool{true, false}
				case began:
					r.exists = [2]bool{true, true}
				case k == "Z" && h.index("created:Z") < 0:
					r.exists = [2]bool{true, true}
				default:
					r.exists = [2]bool{false, true}
				}
			}
			w.fs.Restart()
			advance()
			w.recheck(fmt.Sprintf("after concurrent %v (crash %v)", ops, crashed))
		}
	}
	two := [][]string{
		{"lookup X", "lookup X"}, {"lookup X", "close X"}, {"lookup X", "lookup Y"}, {"lookup X", "close Y"},
		{"create Z", "lookup Z"}, {"create Z", "lookup X"}, {"create Z", "close X"}, {"close X", "close Y"},
	}
	three := [][]string{
		{"lookup X", "lookup X", "close X"}, {"lookup X", "lookup X", "lookup X"}, {"create Z", "lookup Z", "lookup Z"},
		{"create Z", "lookup X", "close X"}, {"lookup X", "lookup Y", "close X"},
	}
	add(&Scenario{Prop: "C17", Name: "concurrent2", Bounds: [2]int{2, 4}, Timed: true,
		Doc: "two concurrent operations on the default session storage, then a restart", Body: conc(two, false)})
	add(&Scenario{Prop: "C17", Name: "concurrent3", Bounds: [2]int{2, 3}, Timed: true, Weight: 2,
		Doc: "three concurrent operations", Body: conc(three, false)})
	add(&Scenario{Prop: "C17", Name: "crashconc", Bounds: [2]int{1, 2}, Timed: true, Weight: 2,
		Doc: "two concurrent operations with a crash before every modifying system call", Body: conc(two, true)})

	add(&Scenario{Prop: "C17", Name: "server", Bounds: [2]int{0, 1}, Timed: true,
		Doc: "a server with the default storage: sessions created by connections are restored by other connections and by a restarted server (after a crash or a hangup) with their creation time, information and last lookup; closed ones never",
		Body: func() {
			fs := vos.Reset()
			start := func() (wwr.Server, *Net, *tracker) {
				t := newTracker()
				s, n := server(t.impl, wwr.ServerOptions{SessionManager: wwr.NewDefaultSessionManager(sessDir), MessageBufferSize: 1024})
				return s, n, t
			}
			restore := func(p *Peer, id int, key string) wire {
				p.Send(encNameless(tRestoreSession, reqID(id), key))
				vsched.Quiesce()
				r := repliesTo(p.Got(), reqID(id))
				if len(r) != 1 {
					fail("restoring a session got replies [%s]; blocked %v", show(r), vsched.Blocked())
				}
				return r[0]
			}
			type js struct {
				K string                 `json:"k"`
				C time.Time              `json:"c"`
				L time.Time              `json:"l"`
				I map[string]interface{} `json:"i"`
			}
			parse := func(s string) (j js) {
				if err := json.Unmarshal([]byte(s), &j); err != nil {
					fail("unreadable session %q: %v", s, err)
				}
				return
			}
			_, n, t := start()
			a := n.Connect("a", connOpts("a", 1))
			ca := t.conns["a"].get()
			vsched.Quiesce()
			var info wwr.SessionInfo
			if vsched.Choose(2) == 0 {
				info = wwr.GenericSessionInfoParser(map[string]interface{}{"user": "ü", "deep": map[string]interface{}{"l": []interface{}{"x", 2.5, nil}}})
			}
			if err := ca.CreateSession(info); err != nil {
				fail("CreateSession: %v", err)
			}
			vsched.Quiesce()
			got := a.Got()
			if len(got) != 2 || got[1].typ != tSessionCreated {
				fail("the client got [%s]", show(got))
			}
			orig := parse(got[1].payload)
			same := func(w wire, last time.Time, when string) {
				if w.typ != tReplyUtf8 {
					fail("%s: restoring the session was answered with %s", when, w)
				}
				j := parse(w.payload)
				if j.K != orig.K || !j.C.Equal(orig.C) || !sameInfo(j.I, orig.I) || !j.L.Equal(last) {
					fail("%s: the restored session is %+v, want %+v with last lookup %v", when, j, orig, last)
				}
			}
			advance()
			b := n.Connect("b", connOpts("b", 1))
			vsched.Quiesce()
			t1 := vtimeAt(vsched.Now())
			same(restore(b, 1, orig.K), orig.L, "restoring it on another connection")
			advance()
			how := vsched.Choose(3)
			switch how {
			case 0: // crash
				fs.Restart()
			case 1: // everyone disconnects
				a.Hangup()
				b.Hangup()
				vsched.Quiesce()
			case 2: // closed on both
				if err := ca.CloseSession(); err != nil {
					fail("CloseSession: %v", err)
				}
				b.Send(encNameless(tCloseSession, reqID(2), ""))
				vsched.Quiesce()
			}
			_, n2, t2 := start()
			c := n2.Connect("c", connOpts("c", 1))
			vsched.Quiesce()
			r := restore(c, 1, orig.K)
			if how == 2 {
				if r.typ != tReplyNotFound {
					fail("restoring a closed session was answered with %s", r)
				}
				return
			}
			same(r, t1, "restoring it with a new server")
			cc := t2.conns["c"].get()
			if err := cc.CloseSession(); err != nil {
				fail("CloseSession: %v", err)
			}
			vsched.Quiesce()
			if r := restore(c, 9, orig.K); r.typ != tReplyNotFound {
				fail("restoring a closed session was answered with %s", r)
			}
		}})
}
