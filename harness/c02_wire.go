package zzverif

import (
	"context"

	zmq4 "github.com/luxfi/zmq/v4"
	"github.com/luxfi/zmq/v4/security/plain"
)

// checkGreeting checks the 64 greeting octets RFC 23 prescribes.
func checkGreeting(b []byte, mech string, asServer byte) {
	vAssert(len(b) >= 64, "a whole greeting")
	vAssert(b[0] == 0xFF && b[9] == 0x7F, "greeting signature")
	vAssert(b[10] == 3 && b[11] == 0, "greeting version")
	m := make([]byte, 20)
	copy(m, mech)
	vAssertSame(b[12:32], m, "greeting mechanism")
	vAssert(b[32] == asServer, "greeting as-server")
	vAssertSame(b[33:64], make([]byte, 31), "greeting filler")
}

// splitCmds parses command frames: name and body.
func splitCmds(b []byte, label string) (names []string, bodies [][]byte) {
	fs, rest := parseWire(b)
	vAssert(len(rest) == 0, label+": whole frames")
	for _, f := range fs {
		long := len(f.body) > 255
		vAssert(f.flags == 4 || f.flags == 6 && long, label+": command flags")
		vAssert(!long || f.flags == 6, label+": long flag")
		vAssert(len(f.body) >= 1 && len(f.body) > int(f.body[0]), label+": command name")
		n := int(f.body[0])
		names = append(names, string(f.body[1:1+n]))
		bodies = append(bodies, f.body[1+n:])
	}
	return names, bodies
}

// checkMeta checks that a metadata block carries exactly the given socket type and identity.
func checkMeta(b []byte, typ, id string) {
	seen := 0
	for len(b) > 0 {
		n := int(b[0])
		vAssert(len(b) >= 1+n+4, "metadata property fits")
		name := string(b[1 : 1+n])
		v := int(b[1+n])<<24 | int(b[2+n])<<16 | int(b[3+n])<<8 | int(b[4+n])
		vAssert(v <= len(b)-(5+n), "metadata value fits")
		val := b[5+n : 5+n+v]
		b = b[5+n+v:]
		switch name {
		case "Socket-Type":
			vAssertSame(val, []byte(typ), "announced socket type")
			seen |= 1
		case "Identity":
			vAssertSame(val, []byte(id), "announced identity")
			seen |= 2
		default:
			vFail("unexpected metadata property")
		}
	}
	vAssert(seen == 3, "socket type and identity announced")
}

var zmtpTypes = []zmq4.SocketType{zmq4.Pair, zmq4.Pub, zmq4.Sub, zmq4.Req, zmq4.Rep, zmq4.Dealer, zmq4.Router, zmq4.Pull, zmq4.Push, zmq4.XPub, zmq4.XSub}

func partner(t zmq4.SocketType) zmq4.SocketType {
	return map[zmq4.SocketType]zmq4.SocketType{zmq4.Pair: zmq4.Pair, zmq4.Pub: zmq4.Sub, zmq4.Sub: zmq4.Pub, zmq4.Req: zmq4.Rep, zmq4.Rep: zmq4.Req,
		zmq4.Dealer: zmq4.Router, zmq4.Router: zmq4.Dealer, zmq4.Pull: zmq4.Push, zmq4.Push: zmq4.Pull, zmq4.XPub: zmq4.XSub, zmq4.XSub: zmq4.XPub}[t]
}

// H_C02_handshake checks every byte a connection emits while it opens.
//
//verif:prop C02
//verif:reach client server null plain longid
//verif:bounds all 11 ZMTP socket types, NULL and PLAIN, both roles, identities of 0, 1, 3 and 255 bytes, user names and passwords of 0, 1 and 255 bytes, contents symbolic
func H_C02_handshake() {
	typ := zmtpTypes[vChoose("type", len(zmtpTypes))]
	id := string(symBytes("id", []int{0, 1, 3, 255}[vChoose("idlen", 4)]))
	if len(id) == 255 {
		vReach("longid")
	}
	mech := []string{"NULL", "PLAIN"}[vChoose("mech", 2)]
	server := vChoose("server", 2) == 1
	a, b := newPipe()
	b.Write(peerHello(mech, !server, string(partner(typ)), "peer"))
	var sec zmq4.Security = secOf(mech)
	var user, pass string
	if mech == "PLAIN" {
		vReach("plain")
		if !server {
			user = string(symBytes("user", []int{0, 1, 255}[vChoose("ulen", 3)]))
			pass = string(symBytes("pass", []int{0, 1, 255}[vChoose("plen", 3)]))
			sec = plain.Security(user, pass)
		}
	} else {
		vReach("null")
	}
	c, err := zmq4.Open(a, sec, typ, zmq4.SocketIdentity(id), server, nil)
	vAssert(err == nil, "open succeeds")
	_ = c
	out := b.drain()
	var as byte
	if server && mech != "NULL" {
		as = 1
	}
	checkGreeting(out, mech, as)
	names, bodies := splitCmds(out[64:], "handshake")
	switch {
	case mech == "NULL":
		vAssert(len(names) == 1 && names[0] == "READY", "READY sent")
	case server:
		vReach("server")
		vAssert(len(names) == 2 && names[0] == "WELCOME" && names[1] == "READY", "WELCOME and READY sent")
		vAssert(len(bodies[0]) == 0, "WELCOME has no body")
	default:
		vReach("client")
		vAssert(len(names) == 2 && names[0] == "HELLO" && names[1] == "INITIATE", "HELLO and INITIATE sent")
		want := concat([]byte{byte(len(user))}, []byte(user), []byte{byte(len(pass))}, []byte(pass))
		vAssert(len(want) == len(bodies[0]), "HELLO length")
		vAssertSame(bodies[0], want, "HELLO body")
	}
	checkMeta(bodies[len(bodies)-1], string(typ), id)
	vObsInt("emitted", len(out))
}

// H_C02_send checks the bytes of messages sent by sockets.
//
//verif:prop C02
//verif:reach single multi long nine
//verif:bounds PUSH, DEALER and PAIR sockets with a raw peer, NULL and PLAIN, 2 messages of 1-3 frames by Send or SendMulti, frame lengths in {0,1,255,256} (thorough: also 300 and 65536), contents symbolic
func H_C02_send() {
	simStart()
	mech := []string{"NULL", "PLAIN"}[vChoose("mech", 2)]
	l := acceptRaw("p")
	var s zmq4.Socket
	var peer zmq4.SocketType
	switch vChoose("type", 3) {
	case 0:
		s, peer = zmq4.NewPush(context.Background(), zmq4.WithSecurity(secOf(mech))), zmq4.Pull
	case 1:
		s, peer = zmq4.NewDealer(context.Background(), zmq4.WithSecurity(secOf(mech))), zmq4.Router
	case 2:
		s, peer = zmq4.NewPair(context.Background(), zmq4.WithSecurity(secOf(mech))), zmq4.Pair
	}
	simOnConn = func(cli, srv *end) { srv.Write(peerHello(mech, true, string(peer), "peer")) }
	mustDial(s, "sim://"+l.addr)
	vQuiesce()
	p := simAccepted[0]
	p.drain()
	lens := []int{0, 1, 255, 256, 300, 65536}[:vParam("lens", 4, 6)]
	var want []byte
	for m := 0; m < 2; m++ {
		var fs [][]byte
		for i, n := 0, 1+vChoose("nframes", vParam("frames", 3, 3)); i < n; i++ {
			k := 1
			if m == 0 && i < 2 {
				k = lens[vChoose("len", len(lens))]
			}
			if k > 255 {
				vReach("long")
			}
			fs = append(fs, symBytes("frame", k))
		}
		if len(fs) == 3 {
			vReach("nine")
		}
		var err error
		if vChoose("multi", 2) == 1 {
			vReach("multi")
			err = s.SendMulti(zmq4.NewMsgFrom(fs...))
		} else {
			vReach("single")
			err = s.Send(zmq4.NewMsgFrom(fs...))
		}
		vAssert(err == nil, "send succeeds")
		want = append(want, msgBytes(fs...)...)
	}
	got := p.drain()
	vAssert(len(got) == len(want), "bytes on the wire (count)")
	vAssertSame(got, want, "bytes on the wire")
	vObsBytes("wire", got)
	s.Close()
}

// H_C02_sendcmd checks the bytes of commands.
//
//verif:prop C02
//verif:reach long refused
//verif:bounds SendCmd with names of 0, 1, 4, 255 and 256 bytes and bodies of 0, 1, 253..256 bytes, contents symbolic, NULL and PLAIN
func H_C02_sendcmd() {
	mech := []string{"NULL", "PLAIN"}[vChoose("mech", 2)]
	c, p := openWith(mech, zmq4.Pair, zmq4.Pair, vChoose("server", 2) == 1)
	name := string(symBytes("name", []int{0, 1, 4, 255, 256}[vChoose("nlen", 5)]))
	body := symBytes("body", []int{0, 1, 249, 250, 251, 253, 254, 255, 256}[vChoose("blen", 9)])
	err := c.SendCmd(name, body)
	if len(name) > 255 {
		vReach("refused")
		vAssert(err != nil, "oversized name refused")
		vAssert(len(p.drain()) == 0, "nothing sent for a refused command")
		return
	}
	vAssert(err == nil, "command sent")
	want := cmdBytes(name, body)
	if len(name)+len(body) > 254 {
		vReach("long")
	}
	got := p.drain()
	vAssert(len(got) == len(want), "command bytes (count)")
	vAssertSame(got, want, "command bytes")
}

// H_C02_recv decodes every conforming encoding of a message or command.
//
//verif:prop C02 C01
//verif:reach longform command message plain
//verif:bounds a message of 1-3 frames (or one command of name length 0-4), each frame in short or long form (long form also for short bodies), bodies of 0, 1, 2, 255 and 256 bytes, contents symbolic, NULL and PLAIN, followed by a further one-frame message
func H_C02_recv() {
	mech := []string{"NULL", "PLAIN"}[vChoose("mech", 2)]
	if mech == "PLAIN" {
		vReach("plain")
	}
	c, p := openWith(mech, zmq4.Pair, zmq4.Pair, vChoose("server", 2) == 1)
	enc := func(flags byte, body []byte) []byte {
		if len(body) <= 255 && vChoose("longform", 2) == 1 {
			vReach("longform")
			return longFrameBytes(flags, body)
		}
		return frameBytes(flags, body)
	}
	lens := []int{0, 1, 2, 255, 256}
	tail := symBytes("tail", 2)
	if vChoose("cmd", 2) == 1 {
		vReach("command")
		name := symBytes("name", vChoose("nlen", 5))
		vAssume(string(name) != "PING")
		body := symBytes("body", lens[vChoose("len", len(lens))])
		p.Write(enc(4, concat([]byte{byte(len(name))}, name, body)))
		p.Write(frameBytes(0, tail))
		if vChoose("via", 2) == 0 {
			cmd, err := c.RecvCmd()
			vAssert(err == nil, "command received")
			vAssertSame([]byte(cmd.Name), name, "command name")
			vAssertSame(cmd.Body, body, "command body")
		} else {
			msg, err := c.RecvMsg()
			vAssert(err == nil, "command received as a message")
			vAssert(msg.Type == zmq4.CmdMsg, "marked as a command")
			vAssertSame(msg.Bytes(), body, "command body in message")
		}
	} else {
		vReach("message")
		var fs [][]byte
		n := 1 + vChoose("nframes", 3)
		for i := 0; i < n; i++ {
			k := 1
			if i < 2 {
				k = lens[vChoose("len", len(lens))]
			}
			f := symBytes("frame", k)
			fs = append(fs, f)
			var fl byte
			if i+1 < n {
				fl = 1
			}
			p.Write(enc(fl, f))
		}
		p.Write(frameBytes(0, tail))
		msg, err := c.RecvMsg()
		vAssert(err == nil, "message received")
		vAssert(msg.Type == zmq4.UsrMsg, "marked as a message")
		sameFrames(msg.Frames, fs, "decoded message")
	}
	msg, err := c.RecvMsg()
	vAssert(err == nil, "next message received")
	sameFrames(msg.Frames, [][]byte{tail}, "next message")
}

// H_C02_ping checks that a PING is answered by a PONG command and nothing else.
//
//verif:prop C02
//verif:reach ping
//verif:bounds one PING with a body of 0-4 symbolic bytes, NULL and PLAIN
func H_C02_ping() {
	mech := []string{"NULL", "PLAIN"}[vChoose("mech", 2)]
	c, p := openWith(mech, zmq4.Pair, zmq4.Pair, true)
	p.Write(cmdBytes("PING", symBytes("body", vChoose("len", 5))))
	msg, err := c.RecvMsg()
	vAssert(err == nil && msg.Type == zmq4.CmdMsg, "PING received as a command")
	names, _ := splitCmds(p.drain(), "answer")
	vAssert(len(names) == 1 && names[0] == "PONG", "PONG sent")
	vReach("ping")
}

// H_C02_anybytes decodes a stream of arbitrary octets and compares with the reference decoder.
//
//verif:prop C02 C03
//verif:reach decoded more cut command
//verif:bounds N arbitrary octets (quick 10, thorough 13) after the handshake followed by end of stream; long-form lengths restricted to values up to 6; reserved flag bits zero
//verif:budget 60 400
func H_C02_anybytes() {
	c, p := openWith("NULL", zmq4.Pair, zmq4.Pair, true)
	n := vParam("n", 10, 13)
	b := vBytes("stream", n)
	p.Write(b)
	p.Close()
	// reference decoder, one message
	var frames [][]byte
	cut, cmd := false, false
	rest := b
	for {
		if len(rest) < 2 {
			cut = true
			break
		}
		fl := rest[0]
		vAssume(fl < 8)
		var size int
		if fl&2 != 0 {
			if len(rest) < 9 {
				cut = true
				break
			}
			for _, x := range rest[1:8] {
				vAssume(x == 0)
			}
			vAssume(rest[8] <= 6)
			size = int(rest[8])
			rest = rest[9:]
		} else {
			size = int(rest[1])
			rest = rest[2:]
		}
		if size > len(rest) {
			cut = true
			break
		}
		size = vConcrete(size)
		frames = append(frames, rest[:size])
		rest = rest[size:]
		if fl&4 != 0 {
			cmd = true
		}
		if fl&1 == 0 {
			break
		}
		vReach("more")
	}
	msg, err := c.RecvMsg()
	vObsBool("err", err != nil)
	if cut {
		vReach("cut")
		vAssert(err != nil, "incomplete message is an error")
		vAssert(c.Closed(), "a cut stream closes the connection")
		return
	}
	if cmd {
		vReach("command")
		ok := len(frames) == 1 && len(frames[0]) > 0 && int(frames[0][0]) < len(frames[0])
		if ok && string(frames[0][1:1+frames[0][0]]) == "PING" {
			return // answering a closed peer may fail
		}
		vAssert((err == nil) == ok, "command accepted when well-formed")
		if ok {
			vAssert(msg.Type == zmq4.CmdMsg, "decoded kind")
			vAssertSame(msg.Bytes(), frames[0][1+int(frames[0][0]):], "decoded command body")
		}
		return
	}
	vReach("decoded")
	vAssert(err == nil, "complete message decoded")
	vAssert(msg.Type == zmq4.UsrMsg, "decoded kind")
	sameFrames(msg.Frames, frames, "decoded message")
	left := p.wr.buf
	vAssertSame(left, rest, "exactly the message is consumed")
}

// H_C02_longlen announces a long frame of which only a part arrives.
//
//verif:prop C02
//verif:reach refused
//verif:bounds one frame (message, continuation or command, alone or after another frame) with any 64-bit length of the form h*256^k + low, 1 <= k <= 7, h any octet but 0, low 0-3, of which only the low octets follow, then the end of the stream, NULL and PLAIN
//verif:budget 30 60
func H_C02_longlen() {
	mech := []string{"NULL", "PLAIN"}[vChoose("mech", 2)]
	c, p := openWith(mech, zmq4.Pair, zmq4.Pair, true)
	if vChoose("cont", 2) == 1 {
		p.Write(frameBytes(1, []byte("f")))
	}
	var n [8]byte
	low := vChoose("low", 4)
	n[7] = byte(low)
	h := vByte("h")
	vAssume(h != 0)
	n[7-1-vChoose("k", 7)] = h
	flags := []byte{2, 3, 6}[vChoose("flags", 3)]
	p.Write([]byte{flags})
	p.Write(n[:])
	p.Write(vBytes("some", low))
	p.Close()
	_, err := c.RecvMsg()
	vAssert(err != nil, "a frame that is not there is not received")
	vReach("refused")
}
