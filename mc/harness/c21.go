package harness

import (
	"bytes"
	"fmt"

	wwr "github.com/qbeon/webwire-go"

	"verif/vsched"
)

// faulty is the list of the faults possible in an operation.
func (m *sessModel) faulty(o sessOp) []string {
	switch o.kind {
	case "create":
		if c := m.conns[o.i]; !c.gone && c.key == "" {
			return []string{"", "error"}
		}
	case "restore":
		if s := m.find(o.key); s != nil && s.stored {
			return []string{"", "error", "badinfo"}
		}
		return []string{"", "error"}
	case "close", "reqclose":
		if k := m.conns[o.i].key; k != "" && len(m.members(k)) == 1 {
			return []string{"", "error", "panic"}
		}
	case "srvclose":
		if len(m.members(o.key)) > 0 {
			return []string{"", "error", "panic"}
		}
	case "conclose", "hangup":
		// no hook may run
		if m.conns[o.i].key != "" {
			return []string{"panic"}
		}
	}
	return []string{""}
}

// leaks fails if a client got to know an internal error text.
func leaks(ps ...*Peer) {
	for _, p := range ps {
		for _, b := range p.msgs {
			if bytes.Contains(b, []byte(secret)) {
				fail("client %s was sent the text of a failure of a session hook: %q", p.name, b)
			}
		}
	}
}

func (m *sessModel) exploreFaults(depth int) {
	used := 0
	n := 0
	for d := 0; d < depth; d++ {
		l := m.ops(used)
		o := l[vsched.Choose(len(l))]
		if o.i >= used {
			used = o.i + 1
		}
		f := m.faulty(o)
		o.fault = f[vsched.Choose(len(f))]
		if o.fault != "" {
			n++
		}
		m.step(o)
		for _, c := range m.conns {
			leaks(c.p)
		}
	}
	outcome("%d faults, %d sessions", n, m.srv.ActiveSessionsNum())
}

// panics are the values the closure hook panics with.
var panics = []any{errHook, 1, nilDeref{}, wwr.ErrSessionNotFound{}, []int(nil)}

type nilDeref struct{}

// badAttachment can't be sent to the client.
type badAttachment struct{}

func (badAttachment) Fields() []string         { return []string{"f"} }
func (badAttachment) Value(string) interface{} { return func() {} }
func (b badAttachment) Copy() wwr.SessionInfo  { return b }

func init() {
	add(&Scenario{Prop: "C21", Name: "sequences", Bounds: [2]int{0, 0}, Weight: 3,
		Doc: "every sequence of 3 session operations on 2 connections, called directly, in request or in signal handlers, with every combination of failing session hooks: the lookup hook fails or returns an unsendable session, the creation hook fails, the closure hook fails or panics",
		Body: func() {
			mode := vsched.Choose(3)
			newSessModel(0, 2, mode).exploreFaults(3)
		}})
	add(&Scenario{Prop: "C21", Name: "established", Bounds: [2]int{0, 0}, Weight: 3,
		Doc: "two connections share a session, then every sequence of 3 session operations with every combination of failing session hooks",
		Body: func() {
			m := newSessModel(0, 2, 0)
			f := sessOp{kind: "create"}
			f.fault = []string{"", "error"}[vsched.Choose(2)]
			m.step(f)
			if f.fault == "" {
				m.step(sessOp{kind: "restore", i: 1, key: "S1"})
			}
			m.exploreFaults(3)
		}})
	add(&Scenario{Prop: "C21", Name: "depth4", Bounds: [2]int{0, 0}, Weight: 8, ThoroughOnly: true,
		Doc:  "every sequence of 4 session operations on 2 connections with every combination of failing session hooks",
		Body: func() { newSessModel(0, 2, 0).exploreFaults(4) }})
	add(&Scenario{Prop: "C21", Name: "pairs", Bounds: [2]int{1, 2}, Weight: 3,
		Doc: "every pair of concurrent session operations from two initial states while all session hooks fail, or while the closure hook panics",
		Body: func() {
			w := newWorld(0, "a", "b", "c")
			w.put("K", "L")
			st := vsched.Choose(2)
			x := vsched.Choose(len(sessActs))
			y := vsched.Choose(len(sessActs))
			fault := []string{"error", "panic"}[vsched.Choose(2)]
			if y < x {
				return // covered by the mirrored pair
			}
			sessStarts[st].f(w)
			w.sm.inject(sessOp{fault: fault})
			var ts []*task
			for _, a := range []int{x, y} {
				a := a
				ts = append(ts, spawn(sessActs[a].name, func() { sessActs[a].f(w) }))
			}
			allJoined(ts...)
			vsched.Quiesce()
			w.consistent(0)
			for _, n := range w.names {
				leaks(w.p[n])
				for _, id := range w.sent[n][w.nsetup[n]:] {
					isRestore := len(repliesTo(w.p[n].Got(), reqID(id))) == 1 && w.isRestore[fmt.Sprint(n, id)]
					if a := w.answer(n, id); fault == "error" && isRestore && a != "internal("+reqID(id)+")" && a != refused(id).String() {
						fail("a restore request was answered with %s although the lookup failed", a)
					}
				}
			}
			// everything works again afterwards
			w.sm.inject(sessOp{})
			for _, n := range w.names {
				if !w.c[n].IsActive() || !w.p[n].IsConnected() {
					continue
				}
				if w.c[n].HasSession() {
					if err := w.c[n].CloseSession(); err != nil {
						fail("closing a session afterwards failed: %v", err)
					}
				}
				if err := w.c[n].CreateSession(nil); err != nil {
					fail("creating a session afterwards failed: %v", err)
				}
				vsched.Quiesce()
				if !w.c[n].HasSession() {
					fail("no session afterwards")
				}
			}
			w.consistent(0)
		}})
	kinds := func(depth int) func() {
		return func() {
			m := newSessModel(0, 2, 0)
			if v := vsched.Choose(len(typedErrs) + len(panics)); v < len(typedErrs) {
				m.sm.failWith = typedErrs[v]
				m.sm.both = vsched.Choose(2) == 1
			} else {
				m.sm.panicWith = panics[v-len(typedErrs)]
			}
			m.exploreFaults(depth)
		}
	}
	add(&Scenario{Prop: "C21", Name: "kinds", Bounds: [2]int{0, 0}, Weight: 2,
		Doc:  "every sequence of 2 session operations on 2 connections with every combination of failing hooks, for every kind of error known to the library (a failing lookup with and without a result) and every kind of panic value",
		Body: kinds(2)})
	add(&Scenario{Prop: "C21", Name: "kinds3", Bounds: [2]int{0, 0}, Weight: 4, ThoroughOnly: true,
		Doc:  "as kinds, with sequences of 3 session operations",
		Body: kinds(3)})
	add(&Scenario{Prop: "C21", Name: "attachment", Bounds: [2]int{0, 0},
		Doc: "creating a session whose attachment can't be sent to the client either fails without any trace or succeeds; afterwards everything works",
		Body: func() {
			w := newWorld(0, "a", "b")
			w.put("K")
			if vsched.Choose(2) == 1 {
				w.setup("b", "K")
			}
			act := vsched.Choose(2)
			err := w.c["a"].CreateSession(badAttachment{})
			vsched.Quiesce()
			if err == nil != w.c["a"].HasSession() {
				fail("CreateSession returned %v, HasSession is %v", err, w.c["a"].HasSession())
			}
			if n := w.t.h.count("creating:"); err != nil && n > 0 {
				fail("the creation hook ran although the creation failed")
			}
			if n := len(w.p["a"].Got()); err != nil && n != 1 {
				fail("the client was notified although the creation failed: %s", show(w.p["a"].Got()))
			}
			w.consistent(0)
			if err == nil {
				return
			}
			if act == 0 {
				if err := w.c["a"].CreateSession(nil); err != nil {
					fail("creating a session afterwards failed: %v", err)
				}
			} else {
				w.setup("a", "K")
			}
			vsched.Quiesce()
			w.consistent(0)
			if !w.c["a"].HasSession() {
				fail("no session afterwards")
			}
		}})
}
