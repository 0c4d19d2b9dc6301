package zzverif

import (
	"strings"

	zmq4 "github.com/luxfi/zmq/v4"
	"github.com/luxfi/zmq/v4/security/plain"
)

// H_C04_greeting opens a connection against every possible greeting.
//
//verif:prop C04 C03
//verif:reach opened refused newer
//verif:bounds 64 arbitrary greeting octets followed by a valid handshake, NULL and PLAIN, both roles; zero padding after the mechanism name
//verif:budget 60 300
func H_C04_greeting() {
	mech := []string{"NULL", "PLAIN"}[vChoose("mech", 2)]
	server := vChoose("server", 2) == 1
	g := vBytes("greeting", 64)
	// the mechanism field is a name padded with zeros
	for i := 12; i+1 < 32; i++ {
		vAssume(g[i] != 0 || g[i+1] == 0)
	}
	a, b := newPipe()
	b.Write(g)
	b.Write(peerHello(mech, !server, "PAIR", "id")[64:])
	c, err := zmq4.Open(a, secOf(mech), zmq4.Pair, zmq4.SocketIdentity("me"), server, nil)
	vObsBool("err", err != nil)
	name := make([]byte, 20)
	copy(name, mech)
	valid := g[0] == 0xFF && g[9] == 0x7F && g[10] >= 3 && string(g[12:32]) == string(name) && g[32] <= 1
	if !valid {
		vReach("refused")
		vAssert(err != nil, "an invalid greeting is refused")
		vAssert(c == nil, "no connection on error")
		return
	}
	// equal roles are refused by some implementations: only the proper role must open
	want := byte(0)
	if mech != "NULL" && !server {
		want = 1
	}
	vAssume(g[32] == want)
	if g[10] > 3 || g[11] > 0 {
		vReach("newer")
	}
	vReach("opened")
	vAssert(err == nil, "a valid greeting opens")
	vAssert(c.Peer.Server == (want == 1), "peer role reported")
	vAssert(len(c.Peer.Meta) == 2 && c.Peer.Meta["Socket-Type"] == "PAIR" && c.Peer.Meta["Identity"] == "id", "peer metadata reported")
}

// H_C04_short cuts the handshake at every byte.
//
//verif:prop C04 C03
//verif:reach cut
//verif:bounds a valid peer handshake cut after every number of bytes, both mechanisms and roles, the transport ending or failing at that point
func H_C04_short() {
	mech := []string{"NULL", "PLAIN"}[vChoose("mech", 2)]
	server := vChoose("server", 2) == 1
	h := peerHello(mech, !server, "PAIR", "id")
	n := vChoose("n", len(h))
	a, b := newPipe()
	b.Write(h[:n])
	if vChoose("how", 2) == 0 {
		b.Close()
	} else {
		b.breakNow()
	}
	c, err := zmq4.Open(a, secOf(mech), zmq4.Pair, zmq4.SocketIdentity("me"), server, nil)
	vAssert(err != nil && c == nil, "an incomplete handshake is an error")
	vReach("cut")
}

// H_C04_types opens a connection for every pair of announced and local types.
//
//verif:prop C04
//verif:reach opened refused unknown
//verif:bounds all 11 ZMTP local types against every announced type name of 0 to 6 arbitrary bytes, identity of 0-3 arbitrary bytes, NULL and PLAIN
//verif:budget 60 300
func H_C04_types() {
	mech := []string{"NULL", "PLAIN"}[vChoose("mech", 2)]
	server := vChoose("server", 2) == 1
	typ := zmtpTypes[vChoose("type", len(zmtpTypes))]
	peer := string(vBlob("peer", 0, 6))
	id := string(vBlob("id", 0, vParam("idlen", 1, 3)))
	a, b := newPipe()
	b.Write(peerHello(mech, !server, peer, id))
	c, err := zmq4.Open(a, secOf(mech), typ, zmq4.SocketIdentity("me"), server, nil)
	vObsBool("err", err != nil)
	ok := compatRef(string(typ), peer)
	vAssert((err == nil) == ok, "opens exactly for compatible types")
	if !ok {
		vReach("refused")
		known := false
		for _, t := range allTypes {
			if t == peer {
				known = true
			}
		}
		if !known {
			vReach("unknown")
		}
		vAssert(c == nil, "no connection on error")
		return
	}
	vReach("opened")
	vAssert(c.Peer.Meta["Socket-Type"] == peer, "announced type reported")
	vAssert(c.Peer.Meta["Identity"] == id, "announced identity reported")
	vAssert(len(c.Peer.Meta) == 2, "nothing else reported")
}

// H_C04_meta reports application properties, names in any letter case.
//
//verif:prop C04
//verif:reach props
//verif:bounds READY or INITIATE with the two system properties and up to 2 application properties in every order, names of up to 3 lower-case letters plus prefix, values of 0-2 arbitrary bytes, each letter of the system names in either case (quick: first two and last letter)
//verif:budget 60 300
func H_C04_meta() {
	mech := []string{"NULL", "PLAIN"}[vChoose("mech", 2)]
	server := vChoose("server", 2) == 1
	mixed := func(s string) string {
		b := []byte(s)
		for i := range b {
			if (i < 2 || i == len(b)-1 || vParam("allcases", 0, 1) == 1) && b[i] != '-' {
				f := vByte("flip")
				vAssume(f&^0x20 == 0)
				b[i] ^= f
			}
		}
		return string(b)
	}
	typ := propBytes(mixed("Socket-Type"), "PAIR")
	ident := propBytes(mixed("Identity"), "id")
	app := vBlob("name", 1, 3)
	for _, x := range app {
		vAssume(x >= 'a' && x <= 'z')
	}
	val := string(vBlob("val", 0, 2))
	ap := propBytes("X-"+string(app), val)
	var meta []byte
	switch vChoose("order", 4) {
	case 0:
		meta = concat(typ, ident, ap)
	case 1:
		meta = concat(ap, ident, typ)
	case 2:
		meta = concat(ident, ap, typ)
	case 3:
		meta = concat(ap, typ) // the identity is optional
	}
	a, b := newPipe()
	h := greetingBytes(mech, !server && mech == "PLAIN")
	switch {
	case mech == "NULL":
		h = concat(h, cmdBytes("READY", meta))
	case server:
		h = concat(h, cmdBytes("HELLO", []byte("\x01u\x01p")), cmdBytes("INITIATE", meta))
	default:
		h = concat(h, cmdBytes("WELCOME", nil), cmdBytes("READY", meta))
	}
	b.Write(h)
	c, err := zmq4.Open(a, secOf(mech), zmq4.Pair, zmq4.SocketIdentity("me"), server, nil)
	vAssert(err == nil, "opens")
	vReach("props")
	vAssert(c.Peer.Meta["Socket-Type"] == "PAIR", "announced type reported")
	n, v := lookupFold(c.Peer.Meta, "X-"+string(app))
	vAssert(n == 1 && v == val, "application property reported")
	if len(meta) == len(typ)+len(ap) {
		vAssert(len(c.Peer.Meta) == 2 && c.Peer.Meta["Identity"] == "", "exactly the announced properties")
	} else {
		vAssert(len(c.Peer.Meta) == 3 && c.Peer.Meta["Identity"] == "id", "exactly the announced properties")
	}
}

// H_C04_metabytes follows a valid socket type by arbitrary bytes.
//
//verif:prop C04 C03
//verif:reach opened refused
//verif:bounds the Socket-Type property followed by up to 10 (thorough 13) arbitrary bytes in READY or INITIATE, ASCII names, NULL and PLAIN
//verif:budget 60 300
func H_C04_metabytes() {
	mech := []string{"NULL", "PLAIN"}[vChoose("mech", 2)]
	server := vChoose("server", 2) == 1
	extra := vBytes("extra", vChoose("len", vParam("n", 10, 13)+1))
	meta := concat(propBytes("Socket-Type", "PAIR"), extra)
	h := greetingBytes(mech, !server && mech == "PLAIN")
	switch {
	case mech == "NULL":
		h = concat(h, cmdBytes("READY", meta))
	case server:
		h = concat(h, cmdBytes("HELLO", []byte("\x01u\x01p")), cmdBytes("INITIATE", meta))
	default:
		h = concat(h, cmdBytes("WELCOME", nil), cmdBytes("READY", meta))
	}
	a, b := newPipe()
	b.Write(h)
	c, err := zmq4.Open(a, secOf(mech), zmq4.Pair, zmq4.SocketIdentity("me"), server, nil)
	want, ok := parseProps(extra)
	vObsBool("err", err != nil)
	vAssert((err == nil) == ok, "opens exactly with well-formed metadata")
	if !ok {
		vReach("refused")
		return
	}
	vReach("opened")
	for i, w := range want {
		if i+1 == len(want) {
			n, v := lookupFold(c.Peer.Meta, w.name)
			vAssert(n == 1 && v == w.val, "announced property reported")
		}
	}
}

// H_C04_sequence plays every short sequence of commands against the handshake.
//
//verif:prop C04 C03
//verif:reach opened refused
//verif:bounds both mechanisms and roles; the peer sends every sequence of up to 2 commands out of HELLO, WELCOME, INITIATE, READY, ERROR, an arbitrary 5-byte name, a plain message frame and a two-frame command, then ends the stream
//verif:budget 60 300
func H_C04_sequence() {
	mech := []string{"NULL", "PLAIN"}[vChoose("mech", 2)]
	server := vChoose("server", 2) == 1
	h, ok := commands(mech, server)
	a, b := newPipe()
	b.Write(h)
	b.wr.mu.Lock()
	b.wr.eof = true
	b.wr.mu.Unlock()
	c, err := zmq4.Open(a, secOf(mech), zmq4.Pair, zmq4.SocketIdentity("me"), server, nil)
	vObsBool("err", err != nil)
	vAssert((err == nil) == ok, "opens exactly after the mechanism's command sequence")
	vAssert((c != nil) == ok, "connection returned exactly on success")
	if ok {
		vReach("opened")
	} else {
		vReach("refused")
	}
}

// H_C04_hello sends arbitrary HELLO bodies to a PLAIN server.
//
//verif:prop C04 C03
//verif:reach opened refused
//verif:bounds HELLO bodies of up to 6 (thorough 9) arbitrary bytes
//verif:budget 60 300
func H_C04_hello() {
	hello := vBlob("hello", 0, vParam("n", 6, 9))
	meta := concat(propBytes("Socket-Type", "PAIR"), propBytes("Identity", "x"))
	a, b := newPipe()
	b.Write(concat(greetingBytes("PLAIN", false), cmdBytes("HELLO", hello), cmdBytes("INITIATE", meta)))
	c, err := zmq4.Open(a, secOf("PLAIN"), zmq4.Pair, zmq4.SocketIdentity("me"), true, nil)
	ok := len(hello) >= 1 && len(hello) >= 2+int(hello[0]) && len(hello) == 2+int(hello[0])+int(hello[1+int(hello[0])])
	vObsBool("err", err != nil)
	vAssert((err == nil) == ok, "opens exactly after a well-formed HELLO")
	vAssert((c != nil) == ok, "connection returned exactly on success")
	if ok {
		vReach("opened")
	} else {
		vReach("refused")
	}
}

// H_C04_local refuses parameters that cannot be announced.
//
//verif:prop C04 C05
//verif:reach toolong reused
//verif:bounds user names and passwords of 0, 255 and 256 bytes; one Security value used for two connections
func H_C04_local() {
	u := strings.Repeat("u", []int{0, 255, 256}[vChoose("u", 3)])
	w := strings.Repeat("w", []int{0, 255, 256}[vChoose("w", 3)])
	sec := plain.Security(u, w)
	for i := 0; i < 2; i++ {
		a, b := newPipe()
		b.Write(peerHello("PLAIN", true, "PAIR", "id"))
		_, err := zmq4.Open(a, sec, zmq4.Pair, zmq4.SocketIdentity("me"), false, nil)
		if len(u) > 255 || len(w) > 255 {
			vAssert(err != nil, "credentials that do not fit are refused")
			vReach("toolong")
			return
		}
		vAssert(err == nil, "opens")
		_, bodies := splitCmds(b.drain()[64:], "handshake")
		want := concat([]byte{byte(len(u))}, []byte(u), []byte{byte(len(w))}, []byte(w))
		vAssertSame(bodies[0], want, "HELLO carries the configured credentials")
		if i == 1 {
			vReach("reused")
		}
	}
}

// commands is a greeting and a sequence of commands out of all those as long as
// the one that mech asks for, and whether it is that one.
func commands(mech string, server bool) ([]byte, bool) {
	meta := concat(propBytes("Socket-Type", "PAIR"), propBytes("Identity", "x"))
	body := map[string][]byte{"HELLO": []byte("\x04user\x04pass"), "WELCOME": nil, "INITIATE": meta, "READY": meta, "ERROR": []byte("\x03bad")}
	names := []string{"HELLO", "WELCOME", "INITIATE", "READY", "ERROR", "?", "message", "twoframes", "end"}
	var want []string
	switch {
	case mech == "NULL":
		want = []string{"READY"}
	case server:
		want = []string{"HELLO", "INITIATE"}
	default:
		want = []string{"WELCOME", "READY"}
	}
	h := greetingBytes(mech, !server && mech == "PLAIN")
	ok := true
	for _, w := range want {
		n := names[vChoose("cmd", len(names))]
		if n == "end" {
			ok = false
			break
		}
		switch n {
		case "?":
			nm := string(vBytes("cmdname", 5))
			h = append(h, cmdBytes(nm, body[w])...)
			n = nm
		case "message":
			h = append(h, frameBytes(0, append([]byte{byte(len(w))}, w+string(body[w])...))...)
		case "twoframes":
			h = append(h, frameBytes(5, append([]byte{byte(len(w))}, w+string(body[w])...))...)
			h = append(h, frameBytes(0, []byte("x"))...)
		default:
			h = append(h, cmdBytes(n, body[n])...)
		}
		if n != w {
			ok = false
		}
	}
	return h, ok
}

// H_C04_socket plays the sequences of commands against sockets.
//
//verif:prop C04 C28
//verif:reach opened refused
//verif:bounds a PAIR socket, with no mechanism given, with nil, with NULL or with PLAIN, that dials or listens; the peer sends every sequence of commands as in H_C04_sequence, and then waits (if the socket listens) or ends its stream
//verif:budget 60 300
func H_C04_socket() {
	simStart()
	opts := []zmq4.Option{zmq4.WithTimeout(shortTime), zmq4.WithAutomaticReconnect(false), zmq4.WithDialerMaxRetries(0)}
	mech := "NULL"
	switch vChoose("security", 4) {
	case 1:
		opts = append(opts, zmq4.WithSecurity(nil))
	case 2:
		opts = append(opts, zmq4.WithSecurity(secOf("NULL")))
	case 3:
		mech = "PLAIN"
		opts = append(opts, zmq4.WithSecurity(secOf(mech)))
	}
	server := vChoose("server", 2) == 1
	s := newSocketOf(zmq4.Pair, opts...)
	h, ok := commands(mech, server)
	if server {
		mustListen(s, "sim://a")
		c, err := simDial("sim", "a")
		vAssert(err == nil, "raw dial")
		c.Write(h)
		vQuiesce()
		err = s.Send(anyMsg())
		vAssert((err == nil) == ok, "takes a peer exactly after the mechanism's command sequence")
	} else {
		acceptRaw("a")
		simOnConn = func(cli, srv *end) {
			srv.Write(h)
			srv.wr.mu.Lock()
			srv.wr.eof = true
			srv.wr.mu.Unlock()
		}
		err := s.Dial("sim://a")
		vAssert((err == nil) == ok, "dials exactly where the mechanism's command sequence follows")
	}
	if ok {
		vReach("opened")
	} else {
		vReach("refused")
	}
	s.Close()
}
