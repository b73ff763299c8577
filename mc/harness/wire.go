package harness

import (
	"encoding/binary"
	"fmt"
	"strings"
)

// An independent implementation of the wire format (README / protocol docs).

const (
	tReplyError     = 0
	tReplyShutdown  = 1
	tReplyInternal  = 2
	tReplyNotFound  = 3
	tReplyMaxConns  = 4
	tReplyDisabled  = 5
	tSessionCreated = 21
	tSessionClosed  = 22
	tAcceptConf     = 23
	tCloseSession   = 31
	tRestoreSession = 32
	tHeartbeat      = 33
	tSignalBin      = 63
	tSignalUtf8     = 64
	tSignalUtf16    = 65
	tRequestBin     = 127
	tRequestUtf8    = 128
	tRequestUtf16   = 129
	tReplyBin       = 191
	tReplyUtf8      = 192
	tReplyUtf16     = 193
)

// encodings
const (
	eBin = iota
	eUtf8
	eUtf16
)

func encSignal(name string, enc int, payload string) []byte {
	b := []byte{byte(tSignalBin + enc), byte(len(name))}
	b = append(b, name...)
	if enc == eUtf16 && len(name)%2 != 0 {
		b = append(b, 0)
	}
	return append(b, payload...)
}

func encRequest(id, name string, enc int, payload string) []byte {
	b := append([]byte{byte(tRequestBin + enc)}, id...)
	b = append(b, byte(len(name)))
	b = append(b, name...)
	if enc == eUtf16 && len(name)%2 != 0 {
		b = append(b, 0)
	}
	return append(b, payload...)
}

func encNameless(t int, id, payload string) []byte {
	return append(append([]byte{byte(t)}, id...), payload...)
}

// wire is a decoded server message.
type wire struct {
	typ     int
	id      string
	name    string
	payload string
	enc     int
	conf    conf
}

type conf struct {
	major, minor int
	timeoutMs    uint32
	bufSize      uint32
	proto        string
}

func (w wire) String() string {
	switch w.typ {
	case tReplyError:
		return fmt.Sprintf("error(%s,%s,%q)", w.id, w.name, w.payload)
	case tReplyShutdown:
		return "shutdown(" + w.id + ")"
	case tReplyInternal:
		return "internal(" + w.id + ")"
	case tReplyNotFound:
		return "notfound(" + w.id + ")"
	case tReplyMaxConns:
		return "maxconns(" + w.id + ")"
	case tReplyDisabled:
		return "disabled(" + w.id + ")"
	case tSessionCreated:
		return "created"
	case tSessionClosed:
		return "closed"
	case tAcceptConf:
		return "conf"
	case tSignalBin, tSignalUtf8, tSignalUtf16:
		return fmt.Sprintf("signal(%s,%d,%q)", w.name, w.enc, w.payload)
	case tReplyBin, tReplyUtf8, tReplyUtf16:
		return fmt.Sprintf("reply(%s,%d,%q)", w.id, w.enc, w.payload)
	}
	return fmt.Sprintf("?%d", w.typ)
}

// decode parses a message sent by the server.
func decode(b []byte) (w wire, err error) {
	bad := func(s string) (wire, error) {
		return w, fmt.Errorf("malformed message % x: %s", b, s)
	}
	if len(b) == 0 {
		return bad("empty")
	}
	w.typ = int(b[0])
	w.enc = -1
	switch w.typ {
	case tAcceptConf:
		if len(b) < 11 {
			return bad("short configuration")
		}
		w.conf = conf{int(b[1]), int(b[2]), binary.LittleEndian.Uint32(b[3:7]), binary.LittleEndian.Uint32(b[7:11]), string(b[11:])}
	case tSessionCreated:
		if len(b) < 2 {
			return bad("short")
		}
		w.payload = string(b[1:])
	case tSessionClosed:
		if len(b) != 1 {
			return bad("length")
		}
	case tReplyError:
		if len(b) < 11 || b[9] == 0 || len(b) < 10+int(b[9]) {
			return bad("short error reply")
		}
		w.id = string(b[1:9])
		w.name = string(b[10 : 10+int(b[9])])
		w.payload = string(b[10+int(b[9]):])
		w.enc = eUtf8
	case tReplyShutdown, tReplyInternal, tReplyNotFound, tReplyMaxConns, tReplyDisabled:
		if len(b) != 9 {
			return bad("length")
		}
		w.id = string(b[1:9])
	case tReplyBin, tReplyUtf8:
		if len(b) < 9 {
			return bad("short reply")
		}
		w.id, w.payload, w.enc = string(b[1:9]), string(b[9:]), w.typ-tReplyBin
	case tReplyUtf16:
		if len(b) < 10 || len(b)%2 != 0 {
			return bad("unaligned reply")
		}
		w.id, w.payload, w.enc = string(b[1:9]), string(b[10:]), eUtf16
	case tSignalBin, tSignalUtf8:
		if len(b) < 3 || len(b) < 2+int(b[1]) {
			return bad("short signal")
		}
		n := int(b[1])
		w.name, w.payload, w.enc = string(b[2:2+n]), string(b[2+n:]), w.typ-tSignalBin
	case tSignalUtf16:
		if len(b) < 4 || len(b)%2 != 0 {
			return bad("unaligned signal")
		}
		n := int(b[1])
		o := 2 + n + n%2
		if len(b) < o {
			return bad("short signal")
		}
		w.name, w.payload, w.enc = string(b[2:2+n]), string(b[o:]), eUtf16
	default:
		return bad("not a server message")
	}
	return w, nil
}

func mustDecode(b []byte) wire {
	w, err := decode(b)
	if err != nil {
		fail("the server sent a %v", err)
	}
	return w
}

// reqID builds an 8 byte identifier.
func reqID(i int) string { return fmt.Sprintf("req%05d", i) }

func show(ws []wire) string {
	var s []string
	for _, w := range ws {
		s = append(s, w.String())
	}
	return strings.Join(s, " ")
}
