package zzverif

import (
	"context"
	"time"

	zmq4 "github.com/luxfi/zmq/v4"
)

var announced = []uint64{1 << 20, 1<<28 + 5, 1 << 31, 1 << 32, 1 << 40, 1 << 62, 1<<63 - 1, 1 << 63, 1<<64 - 1}

func longHeader(flags byte, n uint64) []byte {
	return []byte{flags | 2, byte(n >> 56), byte(n >> 48), byte(n >> 40), byte(n >> 32), byte(n >> 24), byte(n >> 16), byte(n >> 8), byte(n)}
}

// H_C03_announced announces huge frames at every stage and sends almost nothing.
//
//verif:prop C03
//verif:reach handshake established command
//verif:bounds announced lengths 2^20, 2^28+5, 2^31, 2^32, 2^40, 2^62, 2^63-1, 2^63, 2^64-1 with 0-3 bytes following and then the end of the stream, in each handshake position of both mechanisms and roles and in established traffic (message, continuation frame, command); committed memory per connection at most 2 MiB
func H_C03_announced() {
	mech := []string{"NULL", "PLAIN"}[vChoose("mech", 2)]
	server := vChoose("server", 2) == 1
	size := announced[vChoose("size", len(announced))]
	few := vBytes("few", vChoose("nfew", 4))
	h := peerHello(mech, !server, "PAIR", "id")
	a, b := newPipe()
	const limit = 2 << 20
	stage := vChoose("stage", 5)
	if stage < 2 { // the first or second command of the handshake
		n := 64
		if stage == 1 {
			vAssume(mech == "PLAIN")
			fs, _ := parseWire(h[64:])
			n += 2 + len(fs[0].body)
		}
		b.Write(h[:n])
		b.Write(longHeader(4, size))
		b.Write(few)
		b.Close()
		_, err := zmq4.Open(a, secOf(mech), zmq4.Pair, zmq4.SocketIdentity("me"), server, nil)
		vAssert(err != nil, "open fails")
		vMaxAlloc(limit, "memory committed for announced bytes")
		vReach("handshake")
		return
	}
	b.Write(h)
	c, err := zmq4.Open(a, secOf(mech), zmq4.Pair, zmq4.SocketIdentity("me"), server, nil)
	vAssert(err == nil, "opens")
	switch stage {
	case 2:
		b.Write(longHeader(0, size))
	case 3:
		b.Write(frameBytes(1, []byte("x")))
		b.Write(longHeader(byte(vChoose("more", 2)), size))
	case 4:
		vReach("command")
		b.Write(longHeader(4, size))
	}
	b.Write(few)
	b.Close()
	if vChoose("via", 2) == 0 {
		_, err = c.RecvMsg()
	} else {
		_, err = c.RecvCmd()
	}
	vAssert(err != nil, "receive fails")
	vMaxAlloc(limit, "memory committed for announced bytes")
	vReach("established")
}

func newSocketOf(t zmq4.SocketType, opts ...zmq4.Option) zmq4.Socket {
	ctx := context.Background()
	switch t {
	case zmq4.Pair:
		return zmq4.NewPair(ctx, opts...)
	case zmq4.Pub:
		return zmq4.NewPub(ctx, opts...)
	case zmq4.Sub:
		return zmq4.NewSub(ctx, opts...)
	case zmq4.Req:
		return zmq4.NewReq(ctx, opts...)
	case zmq4.Rep:
		return zmq4.NewRep(ctx, opts...)
	case zmq4.Dealer:
		return zmq4.NewDealer(ctx, opts...)
	case zmq4.Router:
		return zmq4.NewRouter(ctx, opts...)
	case zmq4.Pull:
		return zmq4.NewPull(ctx, opts...)
	case zmq4.Push:
		return zmq4.NewPush(ctx, opts...)
	case zmq4.XPub:
		return zmq4.NewXPub(ctx, opts...)
	case zmq4.XSub:
		return zmq4.NewXSub(ctx, opts...)
	}
	return zmq4.NewStream(ctx, opts...)
}

// exercise uses a socket as an application would while its peer misbehaves.
func exercise(s zmq4.Socket) {
	s.Send(zmq4.NewMsgFrom([]byte("peer"), []byte("hello")))
	go func() {
		for i := 0; i < 4; i++ {
			m, err := s.Recv()
			if err == nil && s.Type() == zmq4.Rep {
				s.Send(m)
			}
		}
	}()
	if t, ok := s.(zmq4.Topics); ok {
		defer t.Topics()
	}
	vQuiesce()
	s.Send(zmq4.NewMsgFrom([]byte("peer"), []byte("again")))
	vQuiesce()
}

// H_C03_bytes sends arbitrary bytes to a socket of every type in established traffic.
//
//verif:prop C03
//verif:reach cut open
//verif:bounds every socket type but STREAM, NULL; after the handshake the peer sends N arbitrary bytes (quick 6, thorough 9; length fields at most 3), then stays, ends the stream or resets it, while the application sends and receives
//verif:budget 90 400
func H_C03_bytes() {
	simStart()
	typ := zmtpTypes[vChoose("type", len(zmtpTypes))]
	s := newSocketOf(typ, zmq4.WithAutomaticReconnect(false), zmq4.WithTimeout(time.Second))
	mustListen(s, "sim://a")
	p := rawDial("a", string(partner(typ)), "peer")
	b := vBytes("stream", vParam("n", 6, 9))
	// keep length fields small: interpret the stream as the library does
	for rest := b; len(rest) >= 2; {
		if rest[0]&2 != 0 {
			if len(rest) < 9 {
				break
			}
			for _, x := range rest[1:8] {
				vAssume(x == 0)
			}
			vAssume(rest[8] <= 3)
			rest = rest[9:]
			continue
		}
		n := rest[1]
		if int(n) > len(rest)-2 {
			break
		}
		rest = rest[2+vConcrete(int(n)):]
	}
	p.Write(b)
	switch vChoose("end", 3) {
	case 0:
		vReach("open")
	case 1:
		p.Close()
		vReach("cut")
	case 2:
		p.breakNow()
	}
	exercise(s)
	s.Close()
}

// H_C03_frames sends short sequences of arbitrary frames to a socket of every type.
//
//verif:prop C03
//verif:reach sent
//verif:bounds every socket type but STREAM, NULL and PLAIN; two messages or commands of 1-2 frames with bodies of 0-2 arbitrary bytes, flags MORE and COMMAND arbitrary, while the application sends and receives; the peer announces an empty identity or "peer"
//verif:budget 90 400
func H_C03_frames() {
	simStart()
	typ := zmtpTypes[vChoose("type", len(zmtpTypes))]
	s := newSocketOf(typ, zmq4.WithAutomaticReconnect(false), zmq4.WithTimeout(time.Second))
	mustListen(s, "sim://a")
	p := rawDial("a", string(partner(typ)), []string{"", "peer"}[vChoose("id", 2)])
	for i, n := 0, vParam("frames", 3, 3); i < n; i++ {
		fl := byte(0)
		if i+1 < n {
			fl = byte(vChoose("more", 2))
		}
		fl |= byte(vChoose("cmd", 2) * 4)
		p.Write(frameBytes(fl, vBytes("body", vChoose("len", 3))))
	}
	vReach("sent")
	exercise(s)
	s.Close()
}
