package harness

import (
	"fmt"
	"io"
	"strings"

	"github.com/qbeon/webwire-go/message"
	pld "github.com/qbeon/webwire-go/payload"
)

// judgeWrite runs a writer against a sink with the given faults.
func judgeWrite(c *Seq, w *wcase, failAt int, failClose bool) (writes int) {
	return judgeWriteErr(c, w, failAt, failClose, nil)
}

func judgeWriteErr(c *Seq, w *wcase, failAt int, failClose bool, failWith error) (writes int) {
	s := &sink{failAt: failAt, failClose: failClose, failWith: failWith}
	err := w.run(s)
	c.Ops++
	_, ok := w.valid()
	switch {
	case s.bad != "":
		c.Fail("the underlying writer was %s", s.bad)
	case s.closes != 1:
		c.Fail("the underlying writer was closed %d times (error %v)", s.closes, err)
	case !ok && err == nil:
		c.Fail("invalid parameters were accepted")
	case !ok && len(s.b) > 0:
		c.Fail("%d bytes were written despite invalid parameters", len(s.b))
	case s.failed && err == nil:
		c.Fail("a failed write was not reported")
	case failClose && err == nil:
		c.Fail("a failed close was not reported")
	case ok && !s.failed && !failClose && err != nil:
		c.Fail("a valid message was rejected: %v", err)
	case failWith != nil && (s.failed != failClose) && ok && !strings.Contains(err.Error(), failWith.Error()):
		c.Fail("the failure (%v) is not reported: %v", failWith, err)
	case failWith != nil:
	case s.failed && !failClose && !strings.Contains(err.Error(), "WRITEFAILED"):
		c.Fail("the write error is not reported: %v", err)
	case ok && !s.failed && failClose && !strings.Contains(err.Error(), "CLOSEFAILED"):
		c.Fail("the close error is not reported: %v", err)
	}
	if ok {
		c.Outcome(fmt.Sprintf("writer %d valid", w.f))
	} else {
		c.Outcome(fmt.Sprintf("writer %d invalid", w.f))
	}
	return s.writes
}

// faults runs a writer with every fault.
func faults(c *Seq, w *wcase) {
	for _, fc := range []bool{false, true} {
		if !c.Try("%v failing close %v", w, fc) {
			continue
		}
		judgeWrite(c, w, 0, fc)
	}
	for f := 1; f <= 8; f++ {
		for _, fc := range []bool{false, true} {
			if !c.Try("%v failing write %d close %v", w, f, fc) {
				continue
			}
			if n := judgeWrite(c, w, f, fc); n < f {
				return
			}
		}
	}
}

func init() {
	add(&Scenario{Prop: "C05", Name: "faults", Weight: 2,
		Doc: "every writer with names of 0..258 bytes and payload lengths 0..3, 255..256, failing at every write and/or at the close",
		Seq: func(c *Seq) {
			names := append(seqTo(0, 5), 127, 128, 129, 253, 254, 255, 256, 257, 258)
			if c.Thorough {
				names = append(seqTo(0, 258), 512, 513, 65536)
			}
			eachWrite(names, []int{0, 1, 2, 3, 255, 256}, 1, func(w *wcase) {
				if w.f == wReply && w.enc > eUtf16 {
					return
				}
				faults(c, w)
			})
		}})

	add(&Scenario{Prop: "C05", Name: "errors",
		Doc: "every writer failing at every write and/or at the close with every kind of writer error",
		Seq: func(c *Seq) {
			kinds := append([]error{io.EOF}, streamErrs...)
			kinds = append(kinds, typedErrs...)
			eachWrite([]int{0, 1, 2}, []int{0, 2, 3}, 1, func(w *wcase) {
				if w.f == wReply && w.enc > eUtf16 {
					return
				}
				for k, e := range kinds {
					for f := 0; f <= 8; f++ {
						last := false
						for _, fc := range []bool{false, true} {
							if !c.Try("%v failing write %d close %v kind %d", w, f, fc, k) {
								continue
							}
							if n := judgeWriteErr(c, w, f, fc, e); n < f {
								last = true
							}
						}
						if last {
							break
						}
					}
				}
			})
		}})

	add(&Scenario{Prop: "C05", Name: "characters", Weight: 2,
		Doc: "every byte value at every position of names and error codes of 1..6 (thorough: 1..40, 255) bytes",
		Seq: func(c *Seq) {
			names := []int{1, 2, 3, 6}
			if c.Thorough {
				names = append(seqTo(1, 40), 254, 255)
			}
			for _, n := range names {
				for pos := 0; pos < n; pos++ {
					for v := 0; v < 256; v++ {
						b := []byte(textOf(n, 1))
						b[pos] = byte(v)
						for _, w := range []*wcase{
							{f: wRequest, id: ids[1], name: string(b), data: "x", safe: true},
							{f: wRequest, id: ids[1], name: string(b), enc: eUtf16, safe: true},
							{f: wSignal, name: string(b), data: "x", safe: true},
							{f: wSignal, name: string(b), enc: eUtf8, safe: true},
							{f: wReplyError, id: ids[1], name: string(b), data: "x", safe: true},
						} {
							for _, fc := range []bool{false, true} {
								if c.Try("%v name %x failing close %v", w, b, fc) {
									judgeWrite(c, w, 0, fc)
								}
							}
						}
					}
				}
			}
		}})

	add(&Scenario{Prop: "C05", Name: "inputs",
		Doc: "writers never change the slices they are given, not even when failing",
		Seq: func(c *Seq) {
			for _, nl := range []int{0, 1, 2, 255, 256} {
				for _, dl := range []int{0, 1, 2, 100} {
					for enc := eBin; enc <= eUtf16; enc++ {
						for f := 0; f <= 6; f++ {
							if !c.Try("name %d data %d enc %d failing write %d", nl, dl, enc, f) {
								continue
							}
							name, data, id := []byte(textOf(nl, 2)), []byte(dataOf(dl, 2)), []byte(ids[1])
							message.WriteMsgRequest(&sink{failAt: f}, id, name, pld.Encoding(enc), data, true)
							message.WriteMsgSignal(&sink{failAt: f}, name, pld.Encoding(enc), data, true)
							message.WriteMsgReply(&sink{failAt: f}, id, pld.Encoding(enc), data)
							message.WriteMsgReplyError(&sink{failAt: f}, id, name, data, true)
							c.Ops += 4
							if string(name) != textOf(nl, 2) || string(data) != dataOf(dl, 2) || string(id) != ids[1] {
								c.Fail("an input was changed")
							}
						}
					}
				}
			}
		}})
}
