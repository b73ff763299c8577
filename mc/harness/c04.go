package harness

import (
	"bytes"
	"fmt"

	"github.com/qbeon/webwire-go/message"
	pld "github.com/qbeon/webwire-go/payload"

	"verif/vsched"
)

// utf16to8 is an independent UTF-16LE to UTF-8 conversion.
func utf16to8(b []byte) (out []byte) {
	put := func(r uint32) {
		switch {
		case r < 0x80:
			out = append(out, byte(r))
		case r < 0x800:
			out = append(out, 0xc0|byte(r>>6), 0x80|byte(r&63))
		case r < 0x10000:
			out = append(out, 0xe0|byte(r>>12), 0x80|byte(r>>6&63), 0x80|byte(r&63))
		default:
			out = append(out, 0xf0|byte(r>>18), 0x80|byte(r>>12&63), 0x80|byte(r>>6&63), 0x80|byte(r&63))
		}
	}
	at := func(i int) uint32 { return uint32(b[2*i]) | uint32(b[2*i+1])<<8 }
	n := len(b) / 2
	for i := 0; i < n; i++ {
		u := at(i)
		switch {
		case u >= 0xd800 && u < 0xdc00 && i+1 < n && at(i+1) >= 0xdc00 && at(i+1) < 0xe000:
			put(0x10000 + (u-0xd800)<<10 + (at(i+1) - 0xdc00))
			i++
		case u >= 0xd800 && u < 0xe000:
			put(0xfffd)
		default:
			put(u)
		}
	}
	return
}

func convert(c *Seq, b []byte) {
	c.Ops++
	in := append([]byte{}, b...)
	p := pld.Payload{Encoding: pld.Utf16, Data: in}
	got, err := p.Utf8()
	if !bytes.Equal(in, b) {
		c.Fail("the payload was changed")
	}
	if len(b)%2 != 0 {
		if err == nil {
			c.Fail("an odd length was accepted")
		}
		return
	}
	if err != nil {
		c.Fail("% x: %v", b, err)
	}
	if want := utf16to8(b); !bytes.Equal(got, want) {
		c.Fail("% x became %q instead of %q", b, got, want)
	}
}

func init() {
	units := []uint16{0, 'a', 0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xd800, 0xdbff, 0xdc00, 0xdfff, 0xe000, 0xfeff, 0xfffd, 0xffff}

	add(&Scenario{Prop: "C04", Name: "codepoints",
		Doc: "every code unit alone, every surrogate pair (all 1048576 supplementary characters) and every pair in the wrong order",
		Seq: func(c *Seq) {
			b := make([]byte, 4)
			for u := 0; u < 0x10000; u++ {
				if c.Try("unit %x", u) {
					b[0], b[1] = byte(u), byte(u>>8)
					convert(c, b[:2])
				}
			}
			for h := 0xd800; h < 0xe000; h++ {
				for l := 0xdc00; l < 0xe000; l++ {
					for swap := 0; swap < 2; swap++ {
						if c.Try("units %x %x swapped %d", h, l, swap) {
							x, y := h, l
							if swap == 1 {
								x, y = l, h
							}
							b[0], b[1], b[2], b[3] = byte(x), byte(x>>8), byte(y), byte(y>>8)
							convert(c, b)
						}
					}
				}
			}
		}})

	add(&Scenario{Prop: "C04", Name: "sequences", Weight: 2,
		Doc: "every sequence of up to 4 (thorough: 6) code units of 15 classes, also with a trailing odd byte, and long texts",
		Seq: func(c *Seq) {
			n := 4
			if c.Thorough {
				n = 6
			}
			var b []byte
			var rec func(i int)
			rec = func(i int) {
				if c.Try("%x", b) {
					convert(c, b)
					convert(c, append(b[:len(b):len(b)], 'x'))
				}
				if i == n || c.Stopped {
					return
				}
				for _, u := range units {
					b = append(b, byte(u), byte(u>>8))
					rec(i + 1)
					b = b[:len(b)-2]
				}
			}
			rec(0)
			for _, l := range []int{63, 64, 65, 255, 256, 1000, 4096, 40000} {
				for _, u := range units {
					for _, v := range units {
						if c.Try("%d units of %x %x", l, u, v) {
							b = nil
							for i := 0; i < l; i++ {
								x := u
								if i%2 == 1 {
									x = v
								}
								b = append(b, byte(x), byte(x>>8))
							}
							convert(c, b)
						}
					}
				}
			}
		}})

	add(&Scenario{Prop: "C04", Name: "passthrough",
		Doc: "binary and UTF-8 payloads of every length up to 300 and every leading byte are returned unchanged, through payloads and messages; UTF-16 messages convert like their payload",
		Seq: func(c *Seq) {
			for n := 0; n <= 300; n++ {
				for v := 0; v < 256; v += 5 {
					for enc := eBin; enc <= eUtf16; enc++ {
						if !c.Try("length %d byte %d enc %d", n, v, enc) {
							continue
						}
						b := []byte(dataOf(n, 0))
						if n > 0 {
							b[0] = byte(v)
						}
						p := pld.Payload{Encoding: encs[enc], Data: b}
						got, err := p.Utf8()
						want := b
						if enc == eUtf16 {
							want = utf16to8(b)
						}
						odd := enc == eUtf16 && n%2 != 0
						if odd != (err != nil) || (!odd && !bytes.Equal(got, want)) {
							c.Fail("became %q, %v", got, err)
						}
						if odd {
							continue
						}
						msg := message.NewMessage(400)
						ok, err := msg.ReadBytes(encSignal("s", enc, string(b)))
						if !ok || err != nil {
							c.Fail("signal: %v %v", ok, err)
						}
						got, err = msg.PayloadUtf8()
						if err != nil || !bytes.Equal(got, want) {
							c.Fail("the message's payload became %q, %v", got, err)
						}
					}
				}
			}
		}})
}

// keptTexts are converted while the result of another conversion is in use.
var keptTexts = [][]byte{
	{}, []byte("a\x00"), []byte("\xfc\x00"), []byte("\xac\x20b\x00"), []byte("\x3d\xd8\x00\xde"), []byte("\x00\xd8"),
	bytes.Repeat([]byte("x\x00"), 60), bytes.Repeat([]byte("\xac\x20"), 200), []byte("0\x001\x002\x00"),
}

func init() {
	type conv struct {
		in, got, want []byte
		p             *pld.Payload
		m             *message.Message
	}
	start := func(kind int, b []byte) *conv {
		v := &conv{in: append([]byte{}, b...), want: utf16to8(b)}
		var err error
		switch {
		case kind == 0 || len(b) == 0:
			v.p = &pld.Payload{Encoding: pld.Utf16, Data: append([]byte{}, b...)}
			v.got, err = v.p.Utf8()
		default:
			v.m = message.NewMessage(1000)
			if ok, err := v.m.ReadBytes(encSignal("s", eUtf16, string(b))); !ok || err != nil {
				return nil
			}
			v.got, err = v.m.PayloadUtf8()
		}
		if err != nil {
			v.got = []byte(err.Error())
		}
		return v
	}
	check := func(v *conv, failf func(string, ...any), when string) {
		if v == nil {
			failf("a signal was not parsed")
			return
		}
		if !bytes.Equal(v.got, v.want) {
			failf("% x is %q %s instead of %q", v.in, v.got, when, v.want)
		}
		data := v.in
		if v.p != nil {
			data = v.p.Data
		} else {
			data = v.m.Payload()
		}
		if !bytes.Equal(data, v.in) {
			failf("the payload % x is % x %s", v.in, data, when)
		}
	}
	add(&Scenario{Prop: "C04", Name: "kept",
		Doc: "every triple of texts is converted one after the other, through payloads and messages: the results and payloads of earlier conversions stay as they are, also when later results are changed",
		Seq: func(c *Seq) {
			n := len(keptTexts)
			for k := 0; k < 8; k++ {
				for x := 0; x < n*n*n; x++ {
					if !c.Try("texts %d %d %d kinds %d", x%n, x/n%n, x/n/n, k) {
						continue
					}
					c.Ops++
					f := func(format string, a ...any) { c.Fail(format, a...) }
					a := start(k&1, keptTexts[x%n])
					check(a, f, "at first")
					b := start(k>>1&1, keptTexts[x/n%n])
					check(b, f, "at first")
					check(a, f, "after another conversion")
					d := start(k>>2&1, keptTexts[x/n/n])
					for i := range d.got {
						d.got[i] = '#'
					}
					check(a, f, "after the result of another one was changed")
					check(b, f, "after the result of another one was changed")
				}
			}
		}})
	add(&Scenario{Prop: "C04", Name: "concurrent", Bounds: [2]int{1, 2},
		Doc: "every pair of texts is converted by two threads at the same time",
		Body: func() {
			i := vsched.Choose(len(keptTexts))
			j := i + vsched.Choose(len(keptTexts)-i)
			k := vsched.Choose(4)
			var ts []*task
			for n, x := range []int{i, j} {
				x, kind := x, k>>n&1
				ts = append(ts, spawn(fmt.Sprint("converter", n), func() {
					v := start(kind, keptTexts[x])
					vsched.RdS(v.got)
					check(v, fail, "after concurrent conversions")
				}))
			}
			allJoined(ts...)
		}})
}
