package harness

import (
	"fmt"

	wwr "github.com/qbeon/webwire-go"

	"verif/vsched"
)

// runner counts handlers that are running.
type runner struct {
	h       *hist
	g       *gates
	o       vsched.Obj
	running int
	max     int
	impl    *Impl
}

func newRunner(res func(k string) (wwr.Payload, error)) *runner {
	r := &runner{h: &hist{}, g: newGates()}
	r.o.Name = "running"
	enter := func(k string) {
		if k == "other" {
			r.h.add("%s", k)
			return
		}
		vsched.Op("enter", &r.o, nil, func() {
			r.running++
			if r.running > r.max {
				r.max = r.running
			}
		})
		r.h.add("%s", k)
		if k[0] == 'g' {
			r.g.pass(k)
		}
		vsched.Op("leave", &r.o, nil, func() { r.running-- })
	}
	r.impl = &Impl{
		Req: func(c wwr.Connection, m wwr.Message) (wwr.Payload, error) {
			k := string(m.Name())
			enter(k)
			if res != nil {
				return res(k)
			}
			return wwr.Payload{Data: []byte("re-" + k)}, nil
		},
		Sig: func(c wwr.Connection, m wwr.Message) { enter(string(m.Name())) },
	}
	return r
}

func (r *runner) now() (n int) {
	vsched.Op("look", &r.o, nil, func() { n = r.running })
	return
}

func effLimit(l, n int) int {
	if l < 0 || l > n {
		if l < 0 {
			return n
		}
		return min(l, n)
	}
	if l == 0 {
		return 1
	}
	return l
}

func init() {
	for _, lim := range []int{0, 1, 2, 3, -1} {
		lim := lim
		n := lim + 2
		b := [2]int{1, 2}
		if lim == 3 {
			b = [2]int{0, 1}
		}
		if lim < 1 {
			n = 3
		}
		add(&Scenario{Prop: "C10", Name: fmt.Sprintf("limit%d", lim), Bounds: b, Weight: 2,
			Doc: "more gated messages than handler slots: exactly min(limit, arrived) run, each release lets the next one in, in order when the limit is 1; another connection is not held up",
			Body: func() {
				r := newRunner(nil)
				_, nt := server(r.impl, noSessions())
				a := nt.Connect("a", connOpts("a", lim))
				b := nt.Connect("b", connOpts("b", 1))
				isReq := make([]bool, n)
				odd := vsched.Choose(2)
				for i := 0; i < n; i++ {
					isReq[i] = i%2 == odd
					k := fmt.Sprintf("g%d", i)
					if isReq[i] {
						a.Send(req(i, k))
					} else {
						a.Send(sig(k))
					}
				}
				b.Send(req(9, "other"))
				vsched.Quiesce()
				exactly(b.Got(), 9, handled("other", 9))
				released := map[int]bool{}
				for left := n; left > 0; left-- {
					if got, want := r.now(), effLimit(lim, left); got != want {
						fail("limit %d, %d messages left: %d handlers run, want %d (%s)", lim, left, got, want, r.h)
					}
					// release one that runs
					var cand []int
					for i := 0; i < n; i++ {
						if !released[i] && r.g.reached(fmt.Sprintf("g%d", i)) {
							cand = append(cand, i)
						}
					}
					if n > 4 {
						cand = []int{cand[0], cand[len(cand)-1]}
					}
					c := cand[vsched.Choose(len(cand))]
					released[c] = true
					r.g.release(fmt.Sprintf("g%d", c))
					vsched.Quiesce()
				}
				if r.now() != 0 {
					fail("%d handlers are running", r.now())
				}
				if l := effLimit(lim, n); r.max > l {
					fail("limit %d: %d handlers ran at the same time", lim, r.max)
				}
				for i := 0; i < n; i++ {
					k := fmt.Sprintf("g%d", i)
					if c := r.h.count(k); c != 1 {
						fail("message %d was handled %d times", i, c)
					}
					if isReq[i] {
						exactly(a.Got(), i, handled(k, i))
					}
				}
				if lim == 0 || lim == 1 {
					var want, got string
					for i := 0; i < n; i++ {
						want += fmt.Sprintf(" g%d", i)
					}
					for _, e := range r.h.ev {
						if e != "other" {
							got += " " + e
						}
					}
					if got != want {
						fail("limit %d: messages were handled in the order %s, want %s", lim, got, want)
					}
				}
				outcome("%s", r.h)
			}})
	}

	add(&Scenario{Prop: "C10", Name: "free", Bounds: [2]int{2, 3}, Weight: 2,
		Doc: "ungated handlers on a connection with few slots: never more than the limit run at once, under every schedule",
		Body: func() {
			lim := []int{0, 1, 2}[vsched.Choose(3)]
			r := newRunner(nil)
			_, nt := server(r.impl, noSessions())
			a := nt.Connect("a", connOpts("a", lim))
			for i := 0; i < 4; i++ {
				if i%2 == 0 {
					a.Send(req(i, fmt.Sprintf("n%d", i)))
				} else {
					a.Send(sig(fmt.Sprintf("n%d", i)))
				}
			}
			vsched.Quiesce()
			if l := effLimit(lim, 4); r.max > l {
				fail("limit %d: %d handlers ran at the same time", lim, r.max)
			}
			for i := 0; i < 4; i++ {
				if c := r.h.count(fmt.Sprintf("n%d", i)); c != 1 {
					fail("message %d was handled %d times", i, c)
				}
			}
			outcome("%d %d", lim, r.max)
		}})

	add(&Scenario{Prop: "C10", Name: "noleak", Bounds: [2]int{0, 1},
		Doc: "any sequence of three messages that fail, are unexpected, or are session requests leaves all handler slots usable",
		Body: func() {
			lim := 2
			disabled := vsched.Choose(2) == 0
			r := newRunner(func(k string) (wwr.Payload, error) {
				switch k {
				case "err":
					return wwr.Payload{}, wwr.ErrRequest{Code: "E"}
				case "internal":
					return wwr.Payload{}, errHook
				case "unencodable":
					return wwr.Payload{Encoding: wwr.EncodingUtf16, Data: []byte("x")}, nil
				}
				return wwr.Payload{Data: []byte("re-" + k)}, nil
			})
			o := noSessions()
			if !disabled {
				o = newStore().options()
			}
			_, nt := server(r.impl, o)
			a := nt.Connect("a", connOpts("a", lim))
			for i := 1; i <= 3; i++ {
				switch vsched.Choose(8) {
				case 0:
					a.Send(req(i, "err"))
				case 1:
					a.Send(req(i, "internal"))
				case 2:
					a.Send(req(i, "unencodable"))
				case 3:
					a.Send(encNameless(tReplyBin, reqID(i), "x"))
				case 4:
					a.Send(encNameless(tRestoreSession, reqID(i), "nosuchkey"))
				case 5:
					a.Send(encNameless(tCloseSession, reqID(i), ""))
				case 6:
					a.Send(sig("s"))
				case 7:
					a.Send([]byte{tHeartbeat})
				}
				vsched.Quiesce()
			}
			vsched.Quiesce()
			for i := 0; i <= lim; i++ {
				a.Send(req(10+i, fmt.Sprintf("g%d", i)))
			}
			vsched.Quiesce()
			if c := r.now(); c != lim {
				fail("limit %d: only %d handlers run", lim, c)
			}
			for i := 0; i <= lim; i++ {
				r.g.release(fmt.Sprintf("g%d", i))
			}
			vsched.Quiesce()
			for i := 0; i <= lim; i++ {
				exactly(a.Got(), 10+i, handled(fmt.Sprintf("g%d", i), 10+i))
			}
		}})
}
