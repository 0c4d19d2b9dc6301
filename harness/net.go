package zzverif

import (
	"context"
	"errors"
	"net"
	"time"

	zmq4 "github.com/luxfi/zmq/v4"
	"github.com/luxfi/zmq/v4/transport"
)

// simTransport is an in-memory transport registered under "sim".
type simTransport struct{}

func (simTransport) Dial(ctx context.Context, d transport.Dialer, addr string) (net.Conn, error) {
	return simDial("sim", addr)
}
func (simTransport) Listen(ctx context.Context, addr string) (net.Listener, error) {
	return simListen("sim", addr)
}
func (simTransport) Addr(ep string) (string, error) {
	if ep == "" {
		return "", errors.New("sim: empty address")
	}
	return ep, nil
}

func simStart() {
	err := zmq4.RegisterTransport("sim", simTransport{})
	vAssert(err == nil, "transport registered")
}

func mustListen(s zmq4.Socket, ep string) {
	vAssert(s.Listen(ep) == nil, "listen succeeds")
}

func mustDial(s zmq4.Socket, ep string) {
	vAssert(s.Dial(ep) == nil, "dial succeeds")
}

// rawPeer is a peer played by the harness on the other end of a socket's connection.
type rawPeer struct {
	*end
	got []byte // everything received and not consumed
}

// acceptRaw makes the harness the listener at addr.
func acceptRaw(addr string) *simListener {
	l, err := simListen("sim", addr)
	vAssert(err == nil, "raw listen")
	return l.(*simListener)
}

// preload makes every connection that a socket dials or accepts at the raw side receive hello first.
func rawDial(addr string, typ, id string) *rawPeer {
	c, err := simDial("sim", addr)
	vAssert(err == nil, "raw dial")
	e := c.(*end)
	e.Write(peerHello("NULL", false, typ, id))
	vQuiesce()
	e.drain()
	return &rawPeer{end: e}
}

// dialToRaw makes sck dial a listener played by the harness and returns the harness' end.
func dialToRaw(sck zmq4.Socket, l *simListener, typ, id string) *rawPeer {
	n := len(simAccepted)
	old := simOnConn
	simOnConn = func(cli, srv *end) { srv.Write(peerHello("NULL", true, typ, id)) }
	err := sck.Dial("sim://" + l.addr)
	simOnConn = old
	vAssert(err == nil, "dial to raw peer")
	e := simAccepted[n]
	vQuiesce()
	e.drain()
	return &rawPeer{end: e}
}

func (p *rawPeer) send(frames ...[]byte) { p.Write(msgBytes(frames...)) }

// msgs returns the whole messages received so far and consumes them.
func (p *rawPeer) msgs(label string) [][][]byte {
	p.got = append(p.got, p.drain()...)
	ms, rest := parseMsgs(p.got)
	vAssert(len(rest) == 0, label+" (whole messages only)")
	p.got = nil
	return ms
}

const shortTime = 50 * time.Millisecond

type result struct {
	msg zmq4.Msg
	err error
}

// recvAsync starts a receive; the result appears on the channel.
func recvAsync(s zmq4.Socket) chan result {
	c := make(chan result, 1)
	go func() {
		m, err := s.Recv()
		c <- result{m, err}
	}()
	return c
}

// tryRecv returns the next message if one arrives without time passing.
func tryRecv(c chan result) (result, bool) {
	vQuiesce()
	select {
	case r := <-c:
		return r, true
	default:
		return result{}, false
	}
}

// skipHello removes a socket's greeting and NULL handshake from the bytes it sent.
func skipHello(b []byte) []byte {
	vAssert(len(b) >= 66 && b[64] == 4, "greeting and READY")
	return b[66+int(b[65]):]
}
