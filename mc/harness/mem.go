package harness

import (
	"fmt"
	"time"

	wwr "github.com/qbeon/webwire-go"
	"github.com/qbeon/webwire-go/message"
	"github.com/qbeon/webwire-go/transport/memchan"

	"verif/vsched"
)

// memServer starts a server on the in-memory transport.
func memServer(impl *Impl, o wwr.ServerOptions, before func() wwr.ConnectionOptions) (wwr.Server, *memchan.Transport) {
	tr := &memchan.Transport{OnBeforeCreation: before}
	s, err := wwr.NewServer(impl, quiet(o), tr)
	if err != nil {
		fail("NewServer: %v", err)
	}
	return s, tr
}

// memClient is a client on the in-memory transport.
type memClient struct {
	name   string
	sock   wwr.ClientSocket
	o      vsched.Obj
	msgs   [][]byte
	ended  bool
	endErr wwr.ErrSockRead
	bad    string
	rd     *task
	hold   *stall // stalls the reader
}

// memDial connects and starts a read loop.
func memDial(tr *memchan.Transport, name string, size uint32) (*memClient, error) {
	ct := &memchan.ClientTransport{Server: tr}
	sock, err := ct.NewSocket(0)
	if err != nil {
		fail("NewSocket: %v", err)
	}
	c := &memClient{name: name, sock: sock}
	c.o.Name = name
	if err := sock.Dial(time.Time{}); err != nil {
		return nil, err
	}
	c.readLoop(size)
	return c, nil
}

func mustDial(tr *memchan.Transport, name string) *memClient {
	c, err := memDial(tr, name, 128)
	if err != nil {
		fail("Dial: %v", err)
	}
	return c
}

func (c *memClient) readLoop(size uint32) {
	c.rd = spawn("read-"+c.name, func() {
		msg := message.NewMessage(size)
		for {
			err := c.sock.Read(msg, time.Time{})
			if err != nil {
				e := err
				if !err.IsCloseErr() {
					c.bad = err.Error()
				}
				vsched.Op("mem.end", &c.o, nil, func() { c.ended, c.endErr = true, e })
				return
			}
			b := append([]byte{}, msg.MsgBuffer.Data()...)
			c.hold.pass("reader")
			msg.MsgBuffer.Close()
			vsched.Op("mem.got", &c.o, nil, func() { c.msgs = append(c.msgs, b) })
		}
	})
}

// Send writes one message.
func (c *memClient) Send(b []byte) error {
	w, err := c.sock.GetWriter()
	if err != nil {
		return err
	}
	if _, err := w.Write(b); err != nil {
		w.Close()
		return err
	}
	return w.Close()
}

// Got returns the messages received.
func (c *memClient) Got() (ws []wire) {
	var raw [][]byte
	vsched.Op("mem.look", &c.o, nil, func() { raw = append(raw, c.msgs...) })
	if c.bad != "" {
		fail("client %s: reading failed: %s", c.name, c.bad)
	}
	for _, b := range raw {
		ws = append(ws, mustDecode(b))
	}
	return
}

// Ended tells whether the read loop ended.
func (c *memClient) Ended() (e bool) {
	vsched.Op("mem.look", &c.o, nil, func() { e = c.ended })
	return
}

// AwaitReply waits for a reply to an identifier or the end of the connection.
func (c *memClient) AwaitReply(id string) (w wire, ok bool) {
	find := func() bool {
		for _, b := range c.msgs {
			if d, err := decode(b); err == nil && d.id == id {
				w, ok = d, true
				return true
			}
		}
		return false
	}
	vsched.Op("mem.awaitreply", &c.o, func() bool { return find() || c.ended }, nil)
	find()
	return
}

var _ = fmt.Sprint
