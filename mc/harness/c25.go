package harness

import (
	"context"
	"errors"
	"fmt"
	"time"

	wwr "github.com/qbeon/webwire-go"
	"github.com/qbeon/webwire-go/message"
	"github.com/qbeon/webwire-go/payload"
	reqman "github.com/qbeon/webwire-go/requestManager"

	"verif/vsched"
)

// rmsg is a reply message for a request.
func rmsg(id [8]byte, tag string) *message.Message {
	m := message.NewMessage(64)
	if ok, err := m.ReadBytes(append(append([]byte{tReplyUtf8}, id[:]...), tag...)); !ok || err != nil {
		fail("building the reply: %v %v", ok, err)
	}
	return m
}

// rres is what a waiter got.
type rres struct {
	done bool
	tag  string // payload of the reply
	err  error
}

func (r rres) String() string {
	if r.err != nil {
		return "error(" + r.err.Error() + ")"
	}
	return "reply(" + r.tag + ")"
}

func await(r *reqman.Request, ctx context.Context) (out rres) {
	rep, err := r.AwaitReply(ctx)
	out.done, out.err = true, err
	if err == nil {
		if rep == nil {
			fail("neither a reply nor an error")
		}
		out.tag = string(rep.Payload())
		u, e := rep.PayloadUtf8()
		if rep.PayloadEncoding() != payload.Utf8 || e != nil || string(u) != out.tag {
			fail("the reply's accessors disagree: %v %q %v", rep.PayloadEncoding(), u, e)
		}
		rep.Close()
	} else if rep != nil {
		fail("both a reply and an error")
	}
	return
}

// cancelledErr tells whether a wait that was cancelled reports that.
func cancelledErr(err error) bool {
	e, ok := err.(wwr.ErrCanceled)
	return ok && e.Cause == context.Canceled && wwr.IsErrCanceled(err) && !wwr.IsErrTimeout(err)
}

// timedOut tells whether a wait whose deadline passed reports that.
func timedOut(err error) bool {
	e, ok := err.(wwr.ErrDeadlineExceeded)
	return ok && e.Cause == context.DeadlineExceeded && wwr.IsErrTimeout(err) && !wwr.IsErrCanceled(err)
}

func init() {
	add(&Scenario{Prop: "C25", Name: "settle", Bounds: [2]int{3, -1}, Weight: 3, Race: true,
		Doc: "all combinations of up to three concurrent fulfil, fail and cancellation attempts on one request and its waiter: at most one succeeds and the waiter gets that one's result",
		Body: func() {
			m := reqman.NewRequestManager()
			r := m.Create()
			other := m.Create()
			ctx, cancel := context.WithCancel(context.Background())
			defer cancel()
			var res rres
			n := 2 + vsched.Choose(2)
			oks := make([]bool, n)
			kinds := make([]int, n)
			k := 0
			for i := range kinds {
				k += vsched.Choose(3 - k) // combinations, not permutations
				kinds[i] = k
			}
			var ts []*task
			ts = append(ts, spawn("waiter", func() { res = await(r, ctx) }))
			cancelled := false
			for i := range kinds {
				i := i
				switch kinds[i] {
				case 0:
					msg := rmsg(r.Identifier, fmt.Sprint("f", i))
					ts = append(ts, spawn(fmt.Sprint("fulfil", i), func() { oks[i] = m.Fulfill(msg) }))
				case 1:
					e := fmt.Errorf("e%d", i)
					ts = append(ts, spawn(fmt.Sprint("fail", i), func() { oks[i] = m.Fail(r.Identifier, e) }))
				case 2:
					cancelled = true
					ts = append(ts, spawn(fmt.Sprint("cancel", i), cancel))
				}
			}
			joinAll(ts...)
			won := -1
			for i, ok := range oks {
				if ok {
					if won >= 0 {
						fail("attempts %d and %d of %v both report success", won, i, kinds)
					}
					won = i
				}
			}
			want := ""
			switch {
			case won < 0:
				if !cancelled {
					fail("none of the attempts %v succeeded", kinds)
				}
				if !cancelledErr(res.err) {
					fail("the wait was cancelled but it ended with %v (%T)", res, res.err)
				}
			case kinds[won] == 0:
				want = fmt.Sprintf("reply(f%d)", won)
			default:
				want = fmt.Sprintf("error(e%d)", won)
			}
			if want != "" && res.String() != want {
				fail("attempt %d of %v succeeded but the waiter got %v", won, kinds, res)
			}
			if m.IsPending(r.Identifier) || !m.IsPending(other.Identifier) || m.PendingRequests() != 1 {
				fail("pending: %v, the other request: %v, count %d", m.IsPending(r.Identifier), m.IsPending(other.Identifier), m.PendingRequests())
			}
			if m.Fulfill(rmsg(r.Identifier, "late")) || m.Fail(r.Identifier, errors.New("late")) {
				fail("a settled request was settled again")
			}
			if !m.Fulfill(rmsg(other.Identifier, "o")) {
				fail("the other request is not settled")
			}
			if o := await(other, context.Background()); o.String() != "reply(o)" {
				fail("the other request got %v", o)
			}
			outcome("%v %v", kinds, res)
		}})

	add(&Scenario{Prop: "C25", Name: "waiters", Bounds: [2]int{2, -1}, Weight: 2, Race: true,
		Doc: "a request settled before, while or after its waiter starts or gives up: no call blocks once there is a result or a cancellation",
		Body: func() {
			m := reqman.NewRequestManager()
			r := m.Create()
			ctx, cancel := context.WithCancel(context.Background())
			defer cancel()
			early := vsched.Choose(2) == 1
			if early {
				cancel()
			}
			var ok bool
			settler := spawn("settler", func() { ok = m.Fulfill(rmsg(r.Identifier, "r")) })
			var r1 rres
			w := spawn("waiter", func() { r1 = await(r, ctx) })
			joinAll(settler, w)
			if ok && r1.String() != "reply(r)" {
				fail("the request was fulfilled but its waiter got %v", r1)
			}
			if !ok && (!cancelledErr(r1.err) || !early) {
				fail("the request wasn't fulfilled, the waiter got %v (%T)", r1, r1.err)
			}
			if m.IsPending(r.Identifier) || m.PendingRequests() != 0 {
				fail("still pending")
			}
			outcome("early %v: %v", early, r1)
		}})

	add(&Scenario{Prop: "C25", Name: "create", Bounds: [2]int{2, 3}, Weight: 2, Race: true,
		Doc: "requests created, settled, cancelled and looked at by three threads: identifiers are unique, each request gets its own result, the number of pending requests is exact",
		Body: func() {
			m := reqman.NewRequestManager()
			n := 3
			rs := make([]*reqman.Request, n)
			res := make([]rres, n)
			var ts []*task
			for i := 0; i < n; i++ {
				i := i
				kind := vsched.Choose(2)
				ts = append(ts, spawn(fmt.Sprint("user", i), func() {
					r := m.Create()
					rs[i] = r
					if !m.IsPending(r.Identifier) {
						fail("a created request isn't pending")
					}
					if c := m.PendingRequests(); c < 1 || c > n {
						fail("%d pending requests", c)
					}
					if kind == 0 {
						if !m.Fulfill(rmsg(r.Identifier, fmt.Sprint(i))) {
							fail("not fulfilled")
						}
					} else if !m.Fail(r.Identifier, fmt.Errorf("%d", i)) {
						fail("not failed")
					}
					res[i] = await(r, context.Background())
				}))
			}
			joinAll(ts...)
			for i := range rs {
				for j := range rs {
					if i != j && rs[i].Identifier == rs[j].Identifier {
						fail("two requests have the identifier %x", rs[i].Identifier)
					}
				}
				if string(rs[i].IdentifierBytes) != string(rs[i].Identifier[:]) {
					fail("identifier bytes %x of %x", rs[i].IdentifierBytes, rs[i].Identifier)
				}
				if s := res[i].String(); s != fmt.Sprintf("reply(%d)", i) && s != fmt.Sprintf("error(%d)", i) {
					fail("request %d got %v", i, res[i])
				}
			}
			if m.PendingRequests() != 0 {
				fail("%d requests remain pending", m.PendingRequests())
			}
		}})

	add(&Scenario{Prop: "C25", Name: "timeout", Bounds: [2]int{2, 3}, Weight: 2, Timed: true,
		Doc: "a request with a deadline that passes while it's being fulfilled: it fails with a timeout error not before the deadline, or gets the reply",
		Body: func() {
			m := reqman.NewRequestManager()
			r := m.Create()
			start := vsched.Now()
			ctx, cancel := context.WithTimeout(context.Background(), time.Second)
			defer cancel()
			var ok bool
			var res rres
			w := spawn("waiter", func() { res = await(r, ctx) })
			s := spawn("settler", func() { ok = m.Fulfill(rmsg(r.Identifier, "r")) })
			if vsched.Choose(2) == 1 {
				vsched.AdvanceNext(start + int64(time.Hour))
			}
			joinAll(w, s)
			if ok != (res.err == nil) {
				fail("fulfilled: %v, the waiter got %v", ok, res)
			}
			if res.err != nil && !timedOut(res.err) {
				fail("the deadline passed but the wait ended with %v (%T)", res, res.err)
			}
			if res.err != nil && vsched.Now() < start+int64(time.Second) {
				fail("timed out too early")
			}
			if m.PendingRequests() != 0 {
				fail("still pending")
			}
			outcome("%v", res)
		}})

	add(&Scenario{Prop: "C25", Name: "sequences",
		Doc: "all sequences of up to 6 (thorough: 8) creations, fulfilments, failures and cancelled waits of up to 3 requests, compared with a model",
		Seq: func(c *Seq) {
			depth := 6
			if c.Thorough {
				depth = 8
			}
			type rq struct {
				r     *reqman.Request
				state int // 0 pending, 1 fulfilled, 2 failed, 3 gone
			}
			// operations: 0 create, then for each request: fulfil, fail, wait
			var seq []int
			gone, stop := context.WithCancel(context.Background())
			stop()
			run := func() {
				m := reqman.NewRequestManager()
				var rs []*rq
				for step, op := range seq {
					c.Ops++
					if op == 0 {
						r := m.Create()
						for _, o := range rs {
							if o.r.Identifier == r.Identifier {
								c.Fail("duplicate identifier")
							}
						}
						rs = append(rs, &rq{r: r})
						continue
					}
					q := rs[(op-1)/3]
					tag := fmt.Sprint("t", step)
					_ = tag
					switch (op - 1) % 3 {
					case 0:
						msg := message.NewMessage(16)
						msg.ReadBytes(append([]byte{tReplyUtf8}, q.r.Identifier[:]...))
						if m.Fulfill(msg) != (q.state == 0) {
							c.Fail("step %d: fulfilment of a request in state %d", step, q.state)
						}
						if q.state == 0 {
							q.state = 1
						}
					case 1:
						if m.Fail(q.r.Identifier, errHook) != (q.state == 0) {
							c.Fail("step %d: failure of a request in state %d", step, q.state)
						}
						if q.state == 0 {
							q.state = 2
						}
					case 2:
						if q.state == 3 {
							return // a request is awaited only once
						}
						rep, err := q.r.AwaitReply(gone)
						switch q.state {
						case 1:
							if err != nil || rep == nil {
								c.Fail("step %d: a fulfilled request's wait got %v", step, err)
							}
						case 2:
							if err != errHook {
								c.Fail("step %d: a failed request's wait got %v", step, err)
							}
						default:
							if !cancelledErr(err) {
								c.Fail("step %d: a cancelled wait got %v (%T)", step, err, err)
							}
						}
						q.state = 3
					}
					n := 0
					for _, o := range rs {
						if o.state == 0 {
							n++
						}
						if m.IsPending(o.r.Identifier) != (o.state == 0) {
							c.Fail("step %d: pending request in state %d", step, o.state)
						}
					}
					if m.PendingRequests() != n {
						c.Fail("step %d: %d pending requests instead of %d", step, m.PendingRequests(), n)
					}
				}
			}
			var rec func(created int)
			rec = func(created int) {
				if c.Try("%v", seq) {
					run()
				}
				if len(seq) == depth || c.Stopped {
					return
				}
				for op := 0; op <= 3*created; op++ {
					if op == 0 && created == 3 {
						continue
					}
					seq = append(seq, op)
					n := created
					if op == 0 {
						n++
					}
					rec(n)
					seq = seq[:len(seq)-1]
				}
			}
			rec(0)
		}})

	add(&Scenario{Prop: "C25", Name: "kinds",
		Doc: "every kind of error a failed request can carry: it reaches the waiter unchanged and only timeouts and cancellations are classified as such",
		Seq: func(c *Seq) {
			cause := errors.New("cause")
			for i, k := range []struct {
				err               error
				timeout, canceled bool
			}{
				{wwr.ErrTimeout{Cause: cause}, true, false},
				{wwr.ErrDeadlineExceeded{Cause: cause}, true, false},
				{wwr.ErrCanceled{Cause: cause}, false, true},
				{wwr.ErrDialTimeout{}, false, false},
				{wwr.ErrDisconnected{}, false, false},
				{wwr.ErrDisconnected{Cause: cause}, false, false},
				{wwr.ErrTransmission{Cause: cause}, false, false},
				{wwr.ErrProtocol{Cause: cause}, false, false},
				{wwr.ErrRequest{Code: "c", Message: "m"}, false, false},
				{wwr.ErrRequest{}, false, false},
				{wwr.ErrInternal{}, false, false},
				{wwr.ErrServerShutdown{}, false, false},
				{wwr.ErrSessionNotFound{}, false, false},
				{wwr.ErrSessionsDisabled{}, false, false},
				{wwr.ErrMaxSessConnsReached{}, false, false},
				{wwr.ErrBufferOverflow{}, false, false},
				{cause, false, false},
			} {
				if !c.Try("%d %T", i, k.err) {
					continue
				}
				c.Ops++
				m := reqman.NewRequestManager()
				r := m.Create()
				if !m.Fail(r.Identifier, k.err) {
					c.Fail("not failed")
				}
				rep, err := r.AwaitReply(context.Background())
				if rep != nil || err != k.err {
					c.Fail("the waiter got %v, %v (%T)", rep, err, err)
				}
				if wwr.IsErrTimeout(err) != k.timeout || wwr.IsErrCanceled(err) != k.canceled {
					c.Fail("timeout %v, canceled %v", wwr.IsErrTimeout(err), wwr.IsErrCanceled(err))
				}
				if wwr.IsErrTimeout(nil) || wwr.IsErrCanceled(nil) {
					c.Fail("no error is classified")
				}
			}
		}})
}
