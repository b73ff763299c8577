package harness

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"os"

	"github.com/qbeon/webwire-go/message"
)

// chunked is a reader that returns the given chunks and ends or fails as told.
type chunked struct {
	b        []byte
	cuts     []int // ends of the chunks
	i        int
	pos      int
	eofData  bool // the end is reported together with the last data
	stutter  bool // returns (0, nil) before every chunk
	empty    int  // how often (default 1)
	stutterd int
	failAt   int // chunk index at which the reader fails (-1: never)
	failData bool
	failWith error // errStream if nil
	ended    bool
	past     int // reads after the end was reported
}

var errStream = errors.New("STREAM FAILED")

func (r *chunked) Read(p []byte) (int, error) {
	if r.ended {
		r.past++
		return 0, io.EOF
	}
	if len(p) == 0 {
		return 0, nil
	}
	if r.stutter && r.stutterd < max(r.empty, 1) {
		r.stutterd++
		return 0, nil
	}
	r.stutterd = 0
	if r.i == r.failAt {
		n := 0
		if r.failData && r.i < len(r.cuts) {
			n = copy(p, r.b[r.pos:r.cuts[r.i]])
			r.pos += n
		}
		r.ended = true
		if r.failWith != nil {
			return n, r.failWith
		}
		return n, errStream
	}
	if r.pos == len(r.b) {
		r.ended = true
		return 0, io.EOF
	}
	n := copy(p, r.b[r.pos:r.cuts[r.i]])
	r.pos += n
	if r.pos == r.cuts[r.i] {
		r.i++
	}
	if r.pos == len(r.b) && r.eofData && r.failAt < 0 {
		r.ended = true
		return n, io.EOF
	}
	return n, nil
}

func init() {
	add(&Scenario{Prop: "C03", Name: "chunks", Weight: 3,
		Doc: "messages of every length up to and beyond the buffer, split in every possible way into chunks (all compositions), the end reported with or after the last data, with or without empty reads, or a failure at every point: same result as reading the bytes at once",
		Seq: func(c *Seq) {
			max := 12
			if c.Thorough {
				max = 16
			}
			types := []int{tSignalBin, tSignalUtf16, tRequestBin, tRequestUtf16, tReplyUtf16, tHeartbeat, tSessionCreated, 200}
			for n := 0; n <= max; n++ {
				for _, t := range types {
					for size := 1; size <= max+1; size++ {
						if size < n-3 {
							continue
						}
						comps := 1
						if n > 1 {
							comps = 1 << (n - 1)
						}
						for mask := 0; mask < comps; mask++ {
							for variant := 0; variant < 4; variant++ {
								// every way to end properly, then a failure at every chunk
								chunks := bits(mask) + 1
								if n == 0 {
									chunks = 0
								}
								for fail := -1; fail <= chunks; fail++ {
									if fail >= 0 && variant == 3 && !c.Thorough {
										continue
									}
									if !c.Try("type %d length %d buffer %d cuts %b variant %d failure %d", t, n, size, mask, variant, fail) {
										if c.Stopped {
											return
										}
										continue
									}
									stream(c, t, n, size, mask, variant, fail)
								}
							}
						}
					}
				}
			}
		}})

	add(&Scenario{Prop: "C03", Name: "empty",
		Doc: "streams of one or two chunks before each of which, and before their end, 1 to 1000 reads return nothing",
		Seq: func(c *Seq) {
			for _, t := range []int{tSignalBin, tRequestUtf16, tHeartbeat, tRestoreSession} {
				for _, n := range []int{0, 1, 9, 12, 13} {
					for _, k := range []int{2, 3, 10, 15, 16, 17, 32, 64, 100, 101, 256, 1000} {
						for cut := 0; cut < n || cut == 0; cut++ {
							for fail := -1; fail <= 2; fail++ {
								if !c.Try("type %d length %d empty reads %d cut %d failure %d", t, n, k, cut, fail) {
									continue
								}
								var cuts []int
								if cut > 0 {
									cuts = append(cuts, cut)
								}
								if n > 0 {
									cuts = append(cuts, n)
								}
								if fail > len(cuts) {
									continue
								}
								streamOf(c, t, n, 12, cuts, 2, fail, nil, k)
							}
						}
					}
				}
			}
		}})

	add(&Scenario{Prop: "C03", Name: "errors",
		Doc: "streams of 0..12 bytes in one or two chunks that fail at every chunk with every kind of stream error, reported with or after the data",
		Seq: func(c *Seq) {
			for _, t := range []int{tSignalBin, tRequestUtf16, tReplyUtf16, tHeartbeat, tSessionCreated, tRestoreSession} {
				for n := 0; n <= 12; n++ {
					for size := 1; size <= 13; size++ {
						for cut := 0; cut < n || cut == 0; cut++ {
							for variant := 0; variant < 4; variant++ {
								for fail := 0; fail <= 2; fail++ {
									for kind, e := range streamErrs {
										if !c.Try("type %d length %d buffer %d cut %d variant %d failure %d kind %d", t, n, size, cut, variant, fail, kind) {
											continue
										}
										var cuts []int
										if cut > 0 {
											cuts = append(cuts, cut)
										}
										if n > 0 {
											cuts = append(cuts, n)
										}
										if fail > len(cuts) {
											continue
										}
										streamErr(c, t, n, size, cuts, variant, fail, e)
									}
								}
							}
						}
					}
				}
			}
		}})

	add(&Scenario{Prop: "C03", Name: "large",
		Doc: "large messages around the buffer size with two cuts at any position",
		Seq: func(c *Seq) {
			sizes := []int{32, 255, 256, 1024}
			if c.Thorough {
				sizes = append(sizes, 4096, 8192)
			}
			for _, size := range sizes {
				for _, n := range []int{size - 2, size - 1, size, size + 1, size + 2, 2 * size, 2*size + 1, 3 * size} {
					step := 1 + size/64
					for a := 0; a < n; a += step {
						for _, b := range []int{a, a + 1, (a + n) / 2, n - 1, size - 1, size, size + 1} {
							if b < a || b > n {
								continue
							}
							for variant := 0; variant < 4; variant++ {
								for fail := -1; fail < 3; fail++ {
									if !c.Try("length %d buffer %d cuts %d %d variant %d failure %d", n, size, a, b, variant, fail) {
										continue
									}
									var cuts []int
									for _, x := range []int{a, b, n} {
										if x > 0 && (len(cuts) == 0 || x > cuts[len(cuts)-1]) {
											cuts = append(cuts, x)
										}
									}
									if fail > len(cuts) {
										continue
									}
									streamCuts(c, tSignalBin, n, size, cuts, variant, fail)
								}
							}
						}
					}
				}
			}
		}})
}

func bits(m int) (n int) {
	for ; m > 0; m >>= 1 {
		n += m & 1
	}
	return
}

func stream(c *Seq, t, n, size, mask, variant, fail int) {
	var cuts []int
	for i := 1; i < n; i++ {
		if mask>>(i-1)&1 == 1 {
			cuts = append(cuts, i)
		}
	}
	if n > 0 {
		cuts = append(cuts, n)
	}
	streamCuts(c, t, n, size, cuts, variant, fail)
}

func streamCuts(c *Seq, t, n, size int, cuts []int, variant, fail int) {
	streamErr(c, t, n, size, cuts, variant, fail, nil)
}

// streamErrs are the failures of streams that must not be taken for their end.
var streamErrs = []error{
	errStream, io.ErrUnexpectedEOF, io.ErrClosedPipe, io.ErrNoProgress, io.ErrShortBuffer, io.ErrShortWrite,
	os.ErrClosed, os.ErrDeadlineExceeded, net.ErrClosed, context.Canceled, context.DeadlineExceeded, timeoutErr{},
}

type timeoutErr struct{}

func (timeoutErr) Error() string   { return "timeout" }
func (timeoutErr) Timeout() bool   { return true }
func (timeoutErr) Temporary() bool { return true }

func streamErr(c *Seq, t, n, size int, cuts []int, variant, fail int, failWith error) {
	streamOf(c, t, n, size, cuts, variant, fail, failWith, 1)
}

func streamOf(c *Seq, t, n, size int, cuts []int, variant, fail int, failWith error, empty int) {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i*13 + 65)
	}
	if n > 0 {
		b[0] = byte(t)
	}
	if at := flagAt(t); at > 0 && n > at {
		b[at] = 1
	}
	r := &chunked{b: b, cuts: cuts, eofData: variant&1 == 1, stutter: variant&2 == 2, empty: empty, failAt: fail, failData: variant&1 == 1, failWith: failWith}
	msg := message.NewMessage(uint32(size))
	ok, err := msg.Read(r)
	c.Ops++
	want, valid := refParse(b)
	accepted := ok && err == nil
	switch {
	case fail >= 0:
		// a failing stream yields an error, whatever arrived before
		if err == nil {
			c.Fail("a failed stream was accepted")
		}
		c.Outcome("stream error")
	case n > size:
		if err == nil || ok {
			c.Fail("a message larger than the buffer was accepted")
		}
		if r.pos < n {
			c.Fail("%d of %d bytes of the oversized message remain unread", n-r.pos, n)
		}
		c.Outcome("overflow")
	case n == 0:
		if ok {
			c.Fail("an empty stream has a type")
		}
	case accepted != valid:
		c.Fail("accepted: %v (%v), well-formed: %v", accepted, err, valid)
	case accepted:
		if d := want.same(msg, b); d != "" {
			c.Fail("parsed with %s", d)
		}
		c.Outcome("accepted")
	default:
		c.Outcome("malformed")
	}
	usableAfter(c, msg, size)
	if fail < 0 {
		// the same bytes given at once
		whole := message.NewMessage(uint32(size))
		ok, err := whole.ReadBytes(b)
		switch {
		case n > size:
			if ok || err == nil {
				c.Fail("a message larger than the buffer was accepted at once")
			}
		case n == 0:
			if ok {
				c.Fail("an empty message has a type")
			}
		case (ok && err == nil) != valid:
			c.Fail("given at once: accepted %v (%v), well-formed: %v", ok, err, valid)
		case valid:
			if d := want.same(whole, b); d != "" {
				c.Fail("given at once and parsed with %s", d)
			}
		}
		usableAfter(c, whole, size)
	}
}

// usableAfter reads another message into a buffer, both ways.
func usableAfter(c *Seq, msg *message.Message, size int) {
	next := []byte{tReplyBin, 1, 2, 3, 4, 5, 6, 7, 8, 'n'}
	if size < len(next) {
		next = []byte{tHeartbeat}
	}
	m, _ := refParse(next)
	for i := 0; i < 2; i++ {
		var ok bool
		var err error
		if i == 0 {
			ok, err = msg.Read(bytes.NewReader(next))
		} else {
			ok, err = msg.ReadBytes(next)
		}
		if !ok || err != nil {
			c.Fail("the following message is rejected: %v %v", ok, err)
		}
		if d := m.same(msg, next); d != "" {
			c.Fail("the following message is parsed with %s", d)
		}
	}
}

var _ = fmt.Sprint
