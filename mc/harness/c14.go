package harness

import (
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"reflect"
	"sort"
	"strings"
	"time"

	wwr "github.com/qbeon/webwire-go"

	"verif/vsched"
)

// mconn is a connection of the session model.
type mconn struct {
	p      *Peer
	c      wwr.Connection
	gone   bool
	key    string
	seen   int // client messages already checked
	reqs   int
	lookup time.Time

	broken int // writes that will fail (negative: all)
}

// msess is a session of the model.
type msess struct {
	key      string
	creation time.Time
	info     map[string]interface{}
	stored   bool
	lookup   time.Time // what the next lookup returns
	lookups  int
}

// sessModel drives a server through session operations and compares every
// observation with the reference model.
type sessModel struct {
	srv   wwr.Server
	net   *Net
	t     *tracker
	sm    *store
	max   int
	conns []*mconn
	sess  []*msess
	logAt int
	mode  int // how server-side operations are carried out
	job   func()
	trace []string
}

func newSessModel(max, conns, mode int) *sessModel {
	m := &sessModel{t: newTracker(), sm: newStore(), max: max, mode: mode}
	m.t.impl.Req = func(c wwr.Connection, msg wwr.Message) (wwr.Payload, error) {
		m.job()
		return wwr.Payload{}, nil
	}
	m.t.impl.Sig = func(c wwr.Connection, msg wwr.Message) { m.job() }
	o := m.sm.options()
	o.MaxSessionConnections = uint(max)
	m.srv, m.net = server(m.t.impl, o)
	for i := 0; i < conns; i++ {
		n := string(rune('a' + i))
		p := m.net.Connect(n, connOpts(n, []int{1, 2, -1}[i]))
		c := m.t.conns[n].get()
		vsched.Quiesce()
		m.conns = append(m.conns, &mconn{p: p, c: c, seen: 1})
	}
	return m
}

func (m *sessModel) fail(format string, args ...any) {
	fail("%s\nafter: %s", fmt.Sprintf(format, args...), strings.Join(m.trace, "; "))
}

// writeFails tells whether the next write to a connection fails.
func (m *sessModel) writeFails(i int) bool {
	x := m.conns[i]
	if x.broken > 0 {
		x.broken--
		return true
	}
	return x.broken < 0
}

// mend makes a broken connection that was to fail once work again.
func (x *mconn) mend() {
	if x.broken > 0 {
		x.broken = 0
		vsched.Op("client.mend", &x.p.out, nil, func() { x.p.failWrites = 0 })
	}
}

// run carries out a server-side operation.
func (m *sessModel) run(i int, f func()) {
	c := m.conns[i]
	if c.gone || m.mode == 0 {
		f()
		return
	}
	m.job = f
	if m.mode == 1 {
		c.reqs++
		c.p.Send(encRequest(reqID(c.reqs), "job", eBin, ""))
	} else {
		c.p.Send(encSignal("job", eBin, ""))
	}
}

func (m *sessModel) find(key string) *msess {
	for _, s := range m.sess {
		if s.key == key {
			return s
		}
	}
	return nil
}

func (m *sessModel) members(key string) (l []int) {
	for i, c := range m.conns {
		if key != "" && c.key == key {
			l = append(l, i)
		}
	}
	return
}

// leave removes a connection from its session; the log entries it causes.
func (m *sessModel) leave(i int, destroy bool) (log []string) {
	c := m.conns[i]
	k := c.key
	c.key = ""
	if destroy && k != "" && len(m.members(k)) == 0 {
		m.find(k).stored = false
		log = append(log, "closed:"+k)
	}
	return
}

type sessOp struct {
	kind  string
	i     int
	key   string
	fault string // what the session hook does: error, panic, badinfo
}

func (o sessOp) String() string {
	s := o.kind
	if o.i >= 0 {
		s += " " + string(rune('a'+o.i))
	}
	if o.key != "" {
		s += " " + o.key
	}
	if o.fault != "" {
		s += " (" + o.fault + ")"
	}
	return s
}

// ops lists the operations possible now; connections are interchangeable until
// they are used for the first time (used: number of used ones).
func (m *sessModel) ops(used int) (l []sessOp) {
	keys := []string{"nope"}
	for _, s := range m.sess {
		keys = append(keys, s.key)
	}
	for i, c := range m.conns {
		if i > used {
			break
		}
		l = append(l, sessOp{kind: "create", i: i})
		if !c.gone || c.key != "" {
			l = append(l, sessOp{kind: "close", i: i}, sessOp{kind: "conclose", i: i})
		}
		if !c.gone {
			l = append(l, sessOp{kind: "reqclose", i: i}, sessOp{kind: "hangup", i: i})
			for _, k := range keys {
				l = append(l, sessOp{kind: "restore", i: i, key: k})
			}
		}
	}
	for _, k := range keys {
		l = append(l, sessOp{kind: "srvclose", i: -1, key: k})
	}
	return
}

// step performs an operation on the server and on the model and compares.
func (m *sessModel) step(o sessOp) {
	m.trace = append(m.trace, o.String())
	var wantLog []string
	want := make([][]string, len(m.conns)) // messages the clients get
	var c *mconn
	if o.i >= 0 {
		c = m.conns[o.i]
	}
	job := func() {
		if m.mode == 1 && c != nil && !c.gone {
			want[o.i] = append(want[o.i], fmt.Sprintf("reply(%s,0,\"\")", reqID(c.reqs)))
		}
	}
	var created *msess
	var restored *msess
	var restoredLookup time.Time
	optional := ""
	unsure := -1 // client whose replies aren't judged
	m.sm.inject(o)
	defer m.sm.inject(sessOp{})
	switch o.kind {
	case "create":
		fails := !c.gone && c.key == "" && m.writeFails(o.i)
		var err error
		var att wwr.SessionInfo
		var info map[string]interface{}
		if o.i != 1 {
			info = map[string]interface{}{"who": fmt.Sprint("c", o.i), "n": map[string]interface{}{"l": []interface{}{"x"}}}
			att = wwr.GenericSessionInfoParser(info)
		}
		switch o.fault {
		case "badinfo":
			att, fails = badInfo{badValues[m.sm.nextKey%len(badValues)]}, true
		case "collision":
			// only sessions at the limit
			m.sm.forced, fails = o.key, true
		}
		m.run(o.i, func() { err = c.c.CreateSession(att) })
		vsched.Quiesce()
		m.sm.forced = ""
		switch {
		case c.gone:
			var d wwr.ErrDisconnected
			if !errors.As(err, &d) {
				m.fail("CreateSession on a closed connection returned %v", err)
			}
		case c.key != "":
			if err == nil {
				m.fail("CreateSession on a connection with a session succeeded")
			}
		case fails:
			if err == nil {
				m.fail("CreateSession succeeded although the client can't be notified or the session is used by too many connections")
			}
		default:
			if err != nil {
				m.fail("CreateSession: %v", err)
			}
			k := c.c.SessionKey()
			if k == "" || m.find(k) != nil {
				m.fail("the created session got the key %q", k)
			}
			s := c.c.Session()
			if s == nil {
				m.fail("no session after CreateSession")
			}
			created = &msess{key: k, creation: s.Creation, info: info, stored: o.fault == "", lookup: s.LastLookup}
			m.sess = append(m.sess, created)
			c.key = k
			c.lookup = s.LastLookup
			wantLog = append(wantLog, "creating:"+k, "created:"+k)
			want[o.i] = append(want[o.i], "created")
		}
		job()
	case "close":
		var err error
		m.run(o.i, func() { err = c.c.CloseSession() })
		vsched.Quiesce()
		fails := c.key != "" && m.writeFails(o.i)
		if (err != nil) != fails {
			m.fail("CloseSession: %v, want an error: %v", err, fails)
		}
		if c.key != "" {
			if !fails {
				want[o.i] = append(want[o.i], "closed")
			}
			wantLog = m.leave(o.i, true)
		}
		job()
	case "conclose":
		m.run(o.i, func() { c.c.Close() })
		vsched.Quiesce()
		job()
		wantLog = m.leave(o.i, false)
		c.gone = true
	case "hangup":
		c.p.Hangup()
		vsched.Quiesce()
		wantLog = m.leave(o.i, false)
		c.gone = true
	case "reqclose":
		c.reqs++
		c.p.Send(encNameless(tCloseSession, reqID(c.reqs), ""))
		vsched.Quiesce()
		if c.broken != 0 {
			unsure = o.i
		}
		want[o.i] = append(want[o.i], fmt.Sprintf("reply(%s,0,\"\")", reqID(c.reqs)))
		if c.key != "" {
			wantLog = m.leave(o.i, true)
		}
	case "restore":
		c.reqs++
		id := reqID(c.reqs)
		c.p.Send(encNameless(tRestoreSession, id, o.key))
		vsched.Quiesce()
		s := m.find(o.key)
		if c.broken != 0 {
			// the session may or may not be restored if the client can't be told
			unsure = o.i
			if k := c.c.SessionKey(); k != c.key && k == o.key && s != nil && s.stored {
				wantLog = append(wantLog, m.leave(o.i, false)...)
				c.key = k
			}
			// the lookup may or may not have happened
			if s != nil && s.stored {
				s.lookups = m.sm.recs[o.key].lookups
				s.lookup = m.sm.recs[o.key].lookup
			}
			if ss := c.c.Session(); ss != nil {
				c.lookup = ss.LastLookup
			}
			break
		}
		mem := m.members(o.key)
		full := m.max > 0 && len(mem) >= m.max
		switch {
		case full && c.key == o.key && o.fault == "":
			// restoring the own session at the limit may be refused
			optional = "maxconns(" + id + ")"
			restored = s
		case full:
			want[o.i] = append(want[o.i], "maxconns("+id+")")
		case o.fault == "error", o.fault == "badinfo" && s != nil && s.stored:
			want[o.i] = append(want[o.i], "internal("+id+")")
			if s != nil && s.stored && o.fault == "badinfo" {
				s.lookups++
				s.lookup = sessTime.Add(time.Duration(s.lookups) * time.Hour)
			}
		case s == nil || !s.stored:
			want[o.i] = append(want[o.i], "notfound("+id+")")
		default:
			restored = s
		}
		if restored != nil {
			restoredLookup = s.lookup
		}
	case "srvclose":
		var aff []wwr.Connection
		var errs []error
		var err error
		m.job = nil
		host := -1
		for i, x := range m.conns {
			if !x.gone && host < 0 && m.mode > 0 {
				host = i
			}
		}
		call := func() { aff, errs, err = m.srv.CloseSession(o.key) }
		mem := m.members(o.key)
		if host >= 0 {
			m.run(host, call)
		} else {
			call()
		}
		vsched.Quiesce()
		if len(mem) == 0 {
			if aff != nil || errs != nil && len(errs) > 0 || err != nil {
				m.fail("closing the inactive session %s returned %v, %v, %v", o.key, aff, errs, err)
			}
		} else {
			bad := 0
			for _, i := range mem {
				if m.conns[i].broken != 0 {
					bad++
				}
			}
			if (err != nil) != (bad > 0) || len(aff) != len(mem) || len(errs) != len(mem) {
				m.fail("closing session %s with %d connections (%d broken ones) returned %v, %v, %v", o.key, len(mem), bad, aff, errs, err)
			}
			for _, i := range mem {
				n := 0
				fails := m.writeFails(i)
				for j, a := range aff {
					if a == m.conns[i].c {
						n++
						if (errs[j] != nil) != fails {
							m.fail("closing session %s: error %v for connection %d, want an error: %v", o.key, errs[j], i, fails)
						}
					}
				}
				if n != 1 {
					m.fail("closing session %s: connection %d is listed %d times as affected", o.key, i, n)
				}
				if !fails {
					want[i] = append(want[i], "closed")
				}
			}
			for _, i := range mem {
				wantLog = append(wantLog, m.leave(i, true)...)
			}
		}
		if host >= 0 && m.mode == 1 {
			want[host] = append(want[host], fmt.Sprintf("reply(%s,0,\"\")", reqID(m.conns[host].reqs)))
		}
	}

	// the messages the clients got
	for i, x := range m.conns {
		got := x.p.Got()
		nw := got[x.seen:]
		x.seen = len(got)
		if i == unsure {
			x.mend()
			continue
		}
		if restored != nil && i == o.i {
			if len(nw) == 1 && optional != "" && nw[0].String() == optional {
				continue
			}
			if len(nw) != 1 || nw[0].typ != tReplyUtf8 || nw[0].id != reqID(x.reqs) {
				m.fail("restoring %s was answered with [%s]", o.key, show(nw))
			}
			m.checkJSON(nw[0].payload, restored, restoredLookup)
			restored.lookups++
			restored.lookup = sessTime.Add(time.Duration(restored.lookups) * time.Hour)
			if x.key != o.key {
				wantLog = append(wantLog, m.leave(i, false)...)
				x.key = o.key
			}
			x.lookup = restoredLookup
			continue
		}
		var l []string
		for _, w := range nw {
			l = append(l, w.String())
			if w.typ == tSessionCreated {
				m.checkJSON(w.payload, created, x.lookup)
			}
		}
		if strings.Join(l, " ") != strings.Join(want[i], " ") {
			m.fail("client %c got [%s], want [%s]", 'a'+i, strings.Join(l, " "), strings.Join(want[i], " "))
		}
	}
	// the hooks that ran
	var log []string
	ev := m.sm.events()
	for _, e := range ev[m.logAt:] {
		if !strings.HasPrefix(e, "lookup:") {
			log = append(log, e)
		}
	}
	m.logAt = len(ev)
	if strings.Join(log, " ") != strings.Join(wantLog, " ") {
		m.fail("session hooks: %v, want %v", log, wantLog)
	}
	m.checkState()
}

func (m *sessModel) checkJSON(payload string, s *msess, lookup time.Time) {
	var j struct {
		K string                 `json:"k"`
		C time.Time              `json:"c"`
		L time.Time              `json:"l"`
		I map[string]interface{} `json:"i"`
	}
	if err := json.Unmarshal([]byte(payload), &j); err != nil {
		m.fail("the client got an unreadable session: %v", err)
	}
	if s == nil || j.K != s.key || !j.C.Equal(s.creation) || !j.L.Equal(lookup) || !sameInfo(j.I, s.info) {
		m.fail("the client got session %s, want %+v with last lookup %v", payload, s, lookup)
	}
}

func sameInfo(a, b map[string]interface{}) bool {
	return len(a) == 0 && len(b) == 0 || reflect.DeepEqual(a, b)
}

// checkState compares getters and queries with the model.
func (m *sessModel) checkState() {
	active := map[string]int{}
	for i, x := range m.conns {
		n := string(rune('a' + i))
		if x.c.IsActive() == x.gone {
			m.fail("IsActive of %s is %v", n, x.c.IsActive())
		}
		s := x.c.Session()
		if x.c.HasSession() != (x.key != "") || (s != nil) != (x.key != "") || x.c.SessionKey() != x.key {
			m.fail("connection %s: HasSession %v, Session %v, SessionKey %q, want session %q", n, x.c.HasSession(), s, x.c.SessionKey(), x.key)
		}
		if x.key == "" {
			if x.c.SessionInfo("who") != nil || !x.c.SessionCreation().IsZero() {
				m.fail("connection %s without a session has session information", n)
			}
			continue
		}
		active[x.key]++
		ms := m.find(x.key)
		if s.Key != x.key || !s.Creation.Equal(ms.creation) || !x.c.SessionCreation().Equal(ms.creation) || !s.LastLookup.Equal(x.lookup) ||
			!sameInfo(wwr.SessionInfoToVarMap(s.Info), ms.info) {
			m.fail("connection %s has session %+v, want %+v with last lookup %v", n, s, ms, x.lookup)
		}
		for k, v := range ms.info {
			if !reflect.DeepEqual(x.c.SessionInfo(k), v) {
				m.fail("connection %s: session info %s is %v, want %v", n, k, x.c.SessionInfo(k), v)
			}
		}
		if x.c.SessionInfo("nosuchfield") != nil {
			m.fail("connection %s has an unknown info field", n)
		}
	}
	if n := m.srv.ActiveSessionsNum(); n != len(active) {
		m.fail("%d sessions are active, want %v", n, active)
	}
	for _, k := range append([]*msess{{key: "nope"}}, m.sess...) {
		want := active[k.key]
		if want == 0 {
			want = -1
		}
		if n := m.srv.SessionConnectionsNum(k.key); n != want {
			m.fail("session %s has %d connections, want %d", k.key, n, want)
		}
		l := m.srv.SessionConnections(k.key)
		var got []string
		for _, c := range l {
			for i, x := range m.conns {
				if x.c == c {
					got = append(got, fmt.Sprint(i))
				}
			}
		}
		sort.Strings(got)
		var wantl []string
		for _, i := range m.members(k.key) {
			wantl = append(wantl, fmt.Sprint(i))
		}
		if strings.Join(got, ",") != strings.Join(wantl, ",") || len(l) != len(wantl) || want < 0 && l != nil {
			m.fail("the connections of session %s are %v, want %v", k.key, got, wantl)
		}
	}
}

// badValues can't be sent to a client.
var badValues = []interface{}{math.NaN(), complex(1, 2), func() {}}

type badInfo struct{ v interface{} }

func (b badInfo) Fields() []string { return []string{"x", "bad"} }
func (b badInfo) Value(name string) interface{} {
	return map[string]interface{}{"x": "y", "bad": b.v}[name]
}
func (b badInfo) Copy() wwr.SessionInfo { return b }

// rejected lists the creations that are rejected.
func (m *sessModel) rejected() (l []sessOp) {
	for i, x := range m.conns {
		if x.gone || x.key != "" {
			continue
		}
		l = append(l, sessOp{kind: "create", i: i, fault: "badinfo"})
		for _, s := range m.sess {
			if n := len(m.members(s.key)); m.max > 0 && n >= m.max {
				l = append(l, sessOp{kind: "create", i: i, key: s.key, fault: "collision"})
			}
		}
	}
	return
}

func (m *sessModel) explore(depth int) {
	used := 0
	for d := 0; d < depth; d++ {
		l := m.ops(used)
		o := l[vsched.Choose(len(l))]
		if o.i >= used {
			used = o.i + 1
		}
		m.step(o)
	}
	outcome("%d sessions", m.srv.ActiveSessionsNum())
}

func init() {
	add(&Scenario{Prop: "C14", Name: "depth3", Bounds: [2]int{0, 0},
		Doc: "every sequence of 3 session operations (create, close by connection, by key, by the client, restore, hangup, connection close) on 3 connections, limits 0 to 2, called directly, in request handlers or in signal handlers",
		Body: func() {
			mode := vsched.Choose(3)
			newSessModel(vsched.Choose(3), 3, mode).explore(3)
		}})
	add(&Scenario{Prop: "C14", Name: "depth4", Bounds: [2]int{0, 0}, Weight: 3,
		Doc: "every sequence of 4 session operations on 3 connections, limits 0 to 2",
		Body: func() {
			newSessModel(vsched.Choose(3), 3, 0).explore(4)
		}})
	add(&Scenario{Prop: "C14", Name: "twoconns", Bounds: [2]int{0, 0}, Weight: 3,
		Doc: "every sequence of 5 session operations that starts with a creation, on 2 connections with limit 1",
		Body: func() {
			m := newSessModel(1, 2, 0)
			m.step(sessOp{kind: "create"})
			m.explore(4)
		}})
	add(&Scenario{Prop: "C14", Name: "rejected", Bounds: [2]int{0, 0}, Weight: 2,
		Doc: "creations that are rejected because the information can't be sent to the client, or the generated key is that of a session at its limit, after every sequence of two operations and before every other one: they leave no trace",
		Body: func() {
			m := newSessModel(vsched.Choose(3), 3, vsched.Choose(2))
			m.step(sessOp{kind: "create"})
			m.explore(vsched.Choose(3))
			l := m.rejected()
			if len(l) == 0 {
				return
			}
			m.step(l[vsched.Choose(len(l))])
			if k := m.ops(3); true {
				m.step(k[vsched.Choose(len(k))])
			}
		}})
	add(&Scenario{Prop: "C14", Name: "depth5", Bounds: [2]int{0, 0}, Weight: 10, ThoroughOnly: true,
		Doc: "every sequence of 5 session operations on 3 connections, limits 0 and 2",
		Body: func() {
			newSessModel([]int{0, 2}[vsched.Choose(2)], 3, 0).explore(5)
		}})
	add(&Scenario{Prop: "C14", Name: "inhooks", Bounds: [2]int{0, 0},
		Doc: "session operations called by the connected hook, by the session creation hook and after the disconnected hook",
		Body: func() {
			where := vsched.Choose(3)
			what := vsched.Choose(3)
			t := newTracker()
			sm := newStore()
			var res error
			var inner wwr.Connection
			act := func(c wwr.Connection) {
				inner = c
				switch what {
				case 0:
					res = c.CreateSession(nil)
				case 1:
					res = c.CloseSession()
				case 2:
					c.Close()
				}
			}
			base := t.impl.Conn
			t.impl.Conn = func(o wwr.ConnectionOptions, c wwr.Connection) {
				base(o, c)
				if where == 0 {
					act(c)
				}
			}
			t.impl.Disc = func(c wwr.Connection, _ error) {
				if where == 2 {
					act(c)
				}
			}
			if where == 1 {
				sm.onCreate = act
			}
			s, n := server(t.impl, sm.options())
			a := n.Connect("a", connOpts("a", 1))
			ca := t.conns["a"].get()
			vsched.Quiesce()
			if where == 1 {
				if err := ca.CreateSession(nil); err != nil {
					fail("CreateSession: %v", err)
				}
				vsched.Quiesce()
			}
			if where == 2 {
				a.Hangup()
				vsched.Quiesce()
			}
			if inner != ca {
				fail("the hook did not run: %v", vsched.Blocked())
			}
			got := show(a.Got()[1:])
			log := strings.Join(sm.events(), " ")
			wantKey, wantGot, wantLog := false, "", ""
			wantErr := false
			switch {
			case where == 0 && what == 0:
				wantKey, wantGot, wantLog = true, "created", "creating:S1 created:S1"
			case where == 1 && what == 0:
				wantKey, wantGot, wantLog = true, "created", "creating:S1 created:S1"
				wantErr = true
			case where == 1 && what == 1:
				wantGot, wantLog = "created closed", "creating:S1 created:S1 closed:S1"
			case where == 1 && what == 2:
				wantGot, wantLog = "created", "creating:S1 created:S1"
			case where == 2 && what == 0:
				wantErr = true
			}
			if got != wantGot || log != wantLog || (res != nil) != wantErr {
				fail("hook %d operation %d: client got [%s], hooks [%s], result %v; want [%s], [%s]", where, what, got, log, res, wantGot, wantLog)
			}
			num := 0
			if wantKey {
				num = 1
			}
			if ca.HasSession() != wantKey || s.ActiveSessionsNum() != num {
				fail("hook %d operation %d: HasSession %v, %d active sessions", where, what, ca.HasSession(), s.ActiveSessionsNum())
			}
		}})
}

func init() {
	add(&Scenario{Prop: "C14", Name: "closingmembers", Bounds: [2]int{1, 2},
		Doc: "a session is closed by its key while some of its connections are being closed with a handler still running and some can't be written to, at every step of writing: exactly those whose client wasn't notified are reported with an error",
		Body: func() {
			w := newWorld(0, "a", "b")
			w.put("K")
			for _, x := range w.names {
				w.setup(x, "K")
			}
			w.t.g = newGates()
			impl := w.t.impl
			impl.Req = func(c wwr.Connection, m wwr.Message) (wwr.Payload, error) {
				w.t.g.pass("r-" + fmt.Sprint(c.Info(1)))
				return wwr.Payload{}, nil
			}
			before := map[string]int{}
			how := map[string]int{}
			for _, x := range w.names {
				how[x] = vsched.Choose(8)
				p := w.p[x]
				if how[x]&1 != 0 {
					p.Send(req(50, "r"))
					w.t.g.awaitAt("r-" + x)
					w.c[x].Close()
				}
				if at := how[x] >> 1; at > 0 {
					vsched.Op("client.break", &p.out, nil, func() { p.failAt, p.failWrites = failures[at-1], -1 })
				}
				before[x] = len(p.Got())
			}
			aff, errs, err := w.srv.CloseSession("K")
			vsched.Quiesce()
			if len(aff) != 2 || len(errs) != 2 {
				fail("closing the session of 2 connections returned %v, %v, %v", aff, errs, err)
			}
			bad := 0
			for i, c := range aff {
				x := fmt.Sprint(c.Info(1))
				n := 0
				for _, m := range w.p[x].Got()[before[x]:] {
					if m.typ == tSessionClosed {
						n++
					}
				}
				if n > 1 || (n == 1) != (errs[i] == nil) {
					fail("connection %s (state %d) got %d notifications, its error is %v", x, how[x], n, errs[i])
				}
				if errs[i] != nil {
					bad++
				}
				if how[x]>>1 != 0 && errs[i] == nil {
					fail("connection %s can't be written to (state %d), there's no error", x, how[x])
				}
				if c.HasSession() {
					fail("connection %s still has a session", x)
				}
			}
			if (err != nil) != (bad > 0) || aff[0] == aff[1] {
				fail("closing a session with %d failing connections returned %v, %v, %v", bad, aff, errs, err)
			}
			if w.srv.ActiveSessionsNum() != 0 || w.t.h.count("closed:K") > 1 {
				fail("the session is still active: %s", w.t.h)
			}
			for _, x := range w.names {
				w.t.g.release("r-" + x)
			}
			vsched.Quiesce()
			outcome("%d", bad)
		}})
}

func brokenSessions(depth int, failures ...string) {
	m := newSessModel([]int{0, 2}[vsched.Choose(2)], 3, 0)
	m.step(sessOp{kind: "create"})
	n := 1 + vsched.Choose(3)
	for i := 1; i < n; i++ {
		if m.max == 0 || i < m.max {
			m.step(sessOp{kind: "restore", i: i, key: m.sess[0].key})
		}
	}
	at := failures[vsched.Choose(len(failures))]
	for _, x := range m.conns {
		x := x
		x.broken = []int{0, -1, 1}[vsched.Choose(3)]
		vsched.Op("client.break", &x.p.out, nil, func() { x.p.failWrites, x.p.failAt = x.broken, at })
	}
	for d := 0; d < depth; d++ {
		l := m.ops(len(m.conns))
		m.step(l[vsched.Choose(len(l))])
	}
}

func init() {
	add(&Scenario{Prop: "C14", Name: "generatedkeys", Bounds: [2]int{0, 0},
		Doc: "generated session keys of every printable character and of lengths up to 600: the client is notified of that key, restores the session by it on another connection, and closes it",
		Body: func() {
			const first, last = 0x20, 0x7e
			lens := []int{2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 63, 64, 65, 127, 128, 129, 200, 254, 255, 256, 257, 400, 600}
			i := vsched.Choose(last - first + 1 + len(lens))
			key := ""
			if i <= last-first {
				key = string(rune(first + i))
			} else {
				for l := lens[i-(last-first+1)]; len(key) < l; {
					key += string(rune(first + 1 + (len(key)*7+l)%(last-first)))
				}
			}
			w := newWorld(2, "a", "b")
			w.sm.forced = key
			if err := w.c["a"].CreateSession(wwr.GenericSessionInfoParser(map[string]interface{}{"k": key})); err != nil {
				fail("creating a session with the key %q failed: %v", key, err)
			}
			vsched.Quiesce()
			told := func(got []wire, typ int) {
				n := 0
				for _, m := range got {
					if m.typ != typ {
						continue
					}
					n++
					var s wwr.JSONEncodedSession
					if err := json.Unmarshal([]byte(m.payload), &s); err != nil || s.Key != key || len(s.Info) != 1 || s.Info["k"] != key {
						fail("the client is told %q: %v; its session is %q", m.payload, err, key)
					}
				}
				if n != 1 {
					fail("the client got %s", show(got))
				}
			}
			told(w.p["a"].Got(), tSessionCreated)
			id := w.restore("b", key)
			vsched.Quiesce()
			if r := w.answer("b", id); r != "ok" {
				fail("restoring session %q was answered with %s", key, r)
			}
			told(w.p["b"].Got(), tReplyUtf8)
			for _, x := range w.names {
				if c := w.c[x]; c.SessionKey() != key || c.Session().Key != key || c.SessionInfo("k") != key {
					fail("connection %s has session %q, %v", x, c.SessionKey(), c.SessionInfo("k"))
				}
			}
			if n := w.srv.SessionConnectionsNum(key); n != 2 || w.srv.ActiveSessionsNum() != 1 || len(w.srv.SessionConnections(key)) != 2 {
				fail("%d connections of session %q", n, key)
			}
			id = w.reqClose("a")
			vsched.Quiesce()
			if r := w.answer("a", id); r != "ok" || w.c["a"].HasSession() {
				fail("closing session %q was answered with %s", key, r)
			}
			if n, errs, err := w.srv.CloseSession(key); len(n) != 1 || len(errs) != 1 || err != nil {
				fail("closing session %q: %v %v %v", key, n, errs, err)
			}
			vsched.Quiesce()
			if w.c["b"].HasSession() || w.srv.ActiveSessionsNum() != 0 {
				fail("session %q is still there", key)
			}
		}})
}

func init() {
	add(&Scenario{Prop: "C14", Name: "many", Bounds: [2]int{0, 0}, Delay: true, Steps: 3000000,
		Doc: "270 connections, each with a session of its own and then all with the same one: numbers and lists of sessions and connections stay exact, the session ends with its last connection only",
		Body: func() {
			const num = 270
			var names []string
			for i := 0; i < num; i++ {
				names = append(names, fmt.Sprintf("c%03d", i))
			}
			w := newWorld(0, names...)
			w.put("one")
			look := func(i int, key string, conns, active int) {
				if n, l := w.srv.SessionConnectionsNum(key), w.srv.SessionConnections(key); n != conns || conns >= 0 && len(l) != conns || conns < 0 && l != nil {
					fail("step %d: session %s has %d connections (%d listed), want %d", i, key, n, len(l), conns)
				}
				if n := w.srv.ActiveSessionsNum(); n != active {
					fail("step %d: %d active sessions, want %d", i, n, active)
				}
			}
			for i, x := range names {
				if err := w.c[x].CreateSession(nil); err != nil {
					fail("creating session %d: %v", i, err)
				}
				look(i, w.c[x].SessionKey(), 1, i+1)
			}
			for i, x := range names {
				own := w.c[x].SessionKey()
				id := w.restore(x, "one")
				if r, ok := w.p[x].AwaitReply(reqID(id)); !ok || r.typ != tReplyUtf8 {
					fail("restoring on connection %d: %s", i, r)
				}
				look(i, own, -1, num-i)
				look(i, "one", i+1, num-i)
			}
			if n := w.sm.closedCount("one"); n != 0 {
				fail("the session was closed")
			}
			if vsched.Choose(2) == 0 {
				for i, x := range names {
					if err := w.c[x].CloseSession(); err != nil {
						fail("closing on connection %d: %v", i, err)
					}
					if i < num-1 {
						look(i, "one", num-1-i, 1)
						if w.sm.closedCount("one") != 0 {
							fail("the session was destroyed with %d connections left", num-1-i)
						}
					}
				}
			} else {
				cs, errs, err := w.srv.CloseSession("one")
				if len(cs) != num || len(errs) != num || err != nil {
					fail("closing: %d connections, %d results, %v", len(cs), len(errs), err)
				}
			}
			look(num, "one", -1, 0)
			vsched.Quiesce()
			for _, x := range names {
				n := 0
				for _, m := range w.p[x].Got() {
					if m.typ == tSessionClosed {
						n++
					}
				}
				if n != 1 || w.c[x].HasSession() {
					fail("connection %s was notified %d times, HasSession %v", x, n, w.c[x].HasSession())
				}
			}
			if w.sm.closedCount("one") != 1 {
				fail("the session was closed %d times", w.sm.closedCount("one"))
			}
		}})
}
