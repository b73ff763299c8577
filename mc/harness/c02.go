package harness

import (
	"bytes"
	"fmt"

	"github.com/qbeon/webwire-go/message"
)

// judge parses b into msg in the given way and compares with the grammar.
func judge(c *Seq, msg *message.Message, b []byte, stream bool) (accepted bool) {
	want, valid := refParse(b)
	var ok bool
	var err error
	if stream {
		ok, err = msg.Read(bytes.NewReader(b))
	} else {
		ok, err = msg.ReadBytes(b)
	}
	c.Ops++
	accepted = ok && err == nil
	switch {
	case accepted && !valid:
		c.Fail("a malformed message was accepted: % .60x", b)
	case !accepted && valid && !want.lax:
		c.Fail("a well-formed message was rejected (%v, %v): % .60x", ok, err, b)
	case accepted:
		if d := want.same(msg, b); d != "" {
			c.Fail("parsed with %s: % .60x", d, b)
		}
	}
	return
}

// flagAt is the position of the name length flag of a type (0: none).
func flagAt(t int) int {
	switch t {
	case tSignalBin, tSignalUtf8, tSignalUtf16:
		return 1
	case tReplyError, tRequestBin, tRequestUtf8, tRequestUtf16:
		return 9
	}
	return 0
}

var knownTypes = []int{0, 1, 2, 3, 4, 5, 21, 22, 23, 31, 32, 33, 63, 64, 65, 127, 128, 129, 191, 192, 193}

func init() {
	add(&Scenario{Prop: "C02", Name: "short",
		Doc: "every byte string of up to 2 (thorough: 3) bytes",
		Seq: func(c *Seq) {
			n := 2
			if c.Thorough {
				n = 3
			}
			b := make([]byte, 0, 4)
			var rec func(i int)
			rec = func(i int) {
				if c.Try("%x", b) {
					judge(c, message.NewMessage(8), b, false)
				}
				if i == n {
					return
				}
				for v := 0; v < 256; v++ {
					b = append(b, byte(v))
					rec(i + 1)
					b = b[:len(b)-1]
				}
			}
			rec(0)
		}})

	add(&Scenario{Prop: "C02", Name: "flags", Weight: 3,
		Doc: "every type byte, every length up to 300 and every value of the name length flag, with different fillings",
		Seq: func(c *Seq) {
			lens := append(seqTo(1, 24), 127, 128, 129, 254, 255, 256, 257, 258, 259, 260, 263, 264, 265, 266, 267, 268, 280)
			if c.Thorough {
				lens = seqTo(1, 300)
			}
			for t := 0; t < 256; t++ {
				at := flagAt(t)
				for _, n := range lens {
					flags := 1
					if at > 0 && n > at {
						flags = 256
					}
					for fl := 0; fl < flags; fl++ {
						for fill := 0; fill < 3; fill++ {
							if !c.Try("type %d length %d flag %d fill %d", t, n, fl, fill) {
								continue
							}
							b := make([]byte, n)
							for i := range b {
								switch fill {
								case 1:
									b[i] = 0xff
								case 2:
									b[i] = byte(i*29 + 7)
								}
							}
							b[0] = byte(t)
							if at > 0 && n > at {
								b[at] = byte(fl)
							}
							if judge(c, message.NewMessage(300), b, fill == 2) {
								c.Outcome(fmt.Sprintf("type %d accepted", t))
							}
						}
					}
				}
			}
		}})

	add(&Scenario{Prop: "C02", Name: "history", Weight: 2,
		Doc: "every sequence of 2 (thorough: 3) messages of all types, valid and malformed, read into the same message object from bytes or a stream, or through the pool after a close: each result is independent of what came before",
		Seq: func(c *Seq) {
			type ex struct {
				b      []byte
				stream bool
			}
			var exs []ex
			addx := func(b []byte) {
				exs = append(exs, ex{b, false}, ex{b, true})
			}
			for _, t := range knownTypes {
				seen := map[bool]map[int]bool{true: {}, false: {}}
				for _, n := range []int{1, 2, 3, 4, 9, 10, 11, 12, 14, 15, 16} {
					for _, fl := range []int{0, 1, 2, 3, 200} {
						b := make([]byte, n)
						for i := range b {
							b[i] = byte(0x41 + i + t)
						}
						b[0] = byte(t)
						if at := flagAt(t); at > 0 && n > at {
							b[at] = byte(fl)
						}
						m, ok := refParse(b)
						shape := 0
						if m.name != "" {
							shape |= 1
						}
						if m.payload != "" {
							shape |= 2
						}
						if m.conf != nil && m.conf.proto != "" {
							shape |= 4
						}
						if m.lax {
							shape |= 8
						}
						if seen[ok][shape] {
							continue
						}
						seen[ok][shape] = true
						addx(b)
					}
				}
			}
			addx([]byte{})                     // no type
			addx([]byte{200, 1, 2, 3})         // unknown type
			addx(bytes.Repeat([]byte{63}, 40)) // larger than the buffer
			depth := 2
			if c.Thorough {
				depth = 3
			}
			over := func(b []byte) bool { return len(b) > 32 }
			do := func(msg *message.Message, e ex) bool {
				if over(e.b) {
					ok := false
					var err error
					if e.stream {
						ok, err = msg.Read(bytes.NewReader(e.b))
					} else {
						ok, err = msg.ReadBytes(e.b)
					}
					if err == nil || ok {
						c.Fail("a message larger than the buffer was accepted")
					}
					return false
				}
				return judge(c, msg, e.b, e.stream)
			}
			c.Outcomes["examples"] = len(exs)
			idx := make([]int, depth)
			var rec func(i int)
			rec = func(i int) {
				if i == depth {
					for mode := 0; mode < 3; mode++ {
						if !c.Try("examples %v mode %d", idx, mode) {
							continue
						}
						pool := message.NewSyncPool(32, 0)
						msg := pool.Get()
						for j, k := range idx {
							do(msg, exs[k])
							switch {
							case mode == 1 && j < depth-1:
								msg.Close()
							case mode == 2 && j < depth-1:
								msg.Close()
								msg = pool.Get()
							}
						}
					}
					return
				}
				for k := range exs {
					idx[i] = k
					rec(i + 1)
					if c.Stopped {
						return
					}
				}
			}
			rec(0)
		}})

	add(&Scenario{Prop: "C02", Name: "buffers",
		Doc: "messages of every length around the buffer size, for buffer sizes 1..70: never truncated, never out of bounds",
		Seq: func(c *Seq) {
			for size := 1; size <= 70; size++ {
				for n := 0; n <= size+3; n++ {
					for _, t := range []int{63, 65, 127, 129, 191, 193, 32, 21, 23, 0} {
						for stream := 0; stream < 2; stream++ {
							if !c.Try("buffer %d length %d type %d stream %d", size, n, t, stream) {
								continue
							}
							b := []byte(dataOf(n, 0))
							if n > 0 {
								b[0] = byte(t)
							}
							if at := flagAt(t); at > 0 && n > at {
								b[at] = 1
							}
							msg := message.NewMessage(uint32(size))
							if n <= size {
								judge(c, msg, b, stream == 1)
								continue
							}
							var ok bool
							var err error
							if stream == 1 {
								ok, err = msg.Read(bytes.NewReader(b))
							} else {
								ok, err = msg.ReadBytes(b)
							}
							if ok || err == nil {
								c.Fail("a message larger than the buffer was accepted")
							}
							v := []byte{tHeartbeat}
							judge(c, msg, v, stream == 1)
						}
					}
				}
			}
		}})
}
