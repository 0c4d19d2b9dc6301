package zzverif

import (
	"errors"

	zmq4 "github.com/luxfi/zmq/v4"
)

// hinder connects a peer that never becomes one, or is slow to; finish completes a slow one's handshake.
func hinder(kind int, t zmq4.SocketType, id string) (p *rawPeer, finish func()) {
	c, err := simDial("sim", "a")
	vAssert(err == nil, "connects")
	p = &rawPeer{end: c.(*end)}
	hello := peerHello("NULL", false, string(partner(t)), id)
	switch kind {
	case 0: // silent
	case 1: // half a handshake
		p.Write(hello[:70])
	case 2:
		p.Write(hello[:70])
		p.Close()
	case 3: // another mechanism
		p.Write(peerHello("PLAIN", false, string(partner(t)), id))
	case 4: // any type it may not talk to
		typ := string(vBytes("typ", 4))
		vAssume(!compatRef(string(t), typ))
		p.Write(peerHello("NULL", false, typ, id))
	case 5: // signature, version or mechanism are wrong
		g := vBytes("greeting", 6)
		ok := vAnd(vAnd(vAnd(g[0] == 0xff, g[1] == 0x7f), vAnd(g[2] >= 3, g[3] == 'N')), vAnd(g[4] == 'U', g[5] == 0))
		vAssume(!ok)
		b := append([]byte(nil), hello...)
		b[0], b[9], b[10], b[12], b[13], b[16] = g[0], g[1], g[2], g[3], g[4], g[5]
		p.Write(b)
	case 6: // gone before it said anything
		p.Close()
	case 7: // reset
		p.breakNow()
	case 8: // slow
		p.Write(hello[:65])
		return p, func() { p.Write(hello[65:]) }
	}
	return p, nil
}

// H_C28_accept has good, bad and slow peers connect to a listening socket in every order.
//
//verif:prop C28
//verif:reach good slow accepterror four
//verif:bounds all 11 ZMTP socket types with a listener; 2 good peers and 2 others, the second like the first, silent or slow, the first silent, stuck half way, cut half way, with another mechanism, of any incompatible type of 4 letters, with any wrong signature, version or mechanism name, gone at once, reset, or finishing its handshake late, in every order; accepting may fail once at any of these moments; traffic in both directions with all peers connected so far after each arrival
//verif:budget 60 300
func H_C28_accept() {
	simStart()
	vDeadlockLabel("a peer is never served")
	t := failTypes[vChoose("type", len(failTypes))]
	s := newSocketOf(t, zmq4.WithTimeout(shortTime))
	mustListen(s, "sim://a")
	if t == zmq4.Sub {
		s.SetOption(zmq4.OptionSubscribe, "")
	}
	var ps []*rawPeer
	var ids []string
	var bad []*rawPeer
	al := &allowance{}
	n := byte(10)
	join := func(p *rawPeer, id string) {
		vQuiesce()
		b := p.drain()
		vAssert(len(b) > 66, "the socket answers the handshake")
		p.got = skipHello(b)
		ps, ids = append(ps, p), append(ids, id)
		if t == zmq4.Pub || t == zmq4.XPub {
			subscribeAll(p)
		}
	}
	var finish []func()
	var late []*rawPeer
	var lateIDs []string
	first := vChoose("first", 2) // where the bad ones come
	second := first + 1 + vChoose("second", 2)
	kind := vChoose("kind", 9)
	accErr := -1 // when accepting fails
	others := []int{8}
	if kind != 4 && kind != 5 {
		accErr = []int{-1, 0, second, 3}[vChoose("accepterror", 4)]
		others = []int{kind, 0, 8}
	}
	for i := 0; i < 4; i++ {
		if i == accErr {
			l := simListeners["a"]
			l.mu.Lock()
			l.accErr = errors.New("accept: too many open files")
			l.cond.Broadcast()
			l.mu.Unlock()
			vReach("accepterror")
		}
		id := string([]byte{'i', byte('0' + i)})
		if i == first || i == second {
			k := kind
			if i == second {
				k = others[vChoose("other", len(others))]
			}
			p, fin := hinder(k, t, id)
			if fin != nil {
				finish = append(finish, fin)
				late = append(late, p)
				lateIDs = append(lateIDs, id)
				vReach("slow")
			} else {
				bad = append(bad, p)
			}
		} else {
			c, err := simDial("sim", "a")
			vAssert(err == nil, "connects")
			p := &rawPeer{end: c.(*end)}
			p.Write(peerHello("NULL", false, string(partner(t)), id))
			join(p, id)
			vReach("good")
		}
		exchange(s, t, ps, ids, n, al)
		n++
	}
	for i, fin := range finish {
		fin()
		join(late[i], lateIDs[i])
		exchange(s, t, ps, ids, n, al)
		n++
	}
	if len(ps) == 4 {
		vReach("four")
	}
	for _, p := range bad {
		b := p.drain()
		names := 0
		if len(b) > 64 {
			fs, _ := parseWire(b[64:])
			for _, f := range fs {
				vAssert(f.flags&4 != 0, "a peer that was not admitted gets no message")
				names++
			}
		}
		vAssert(names <= 2, "a peer that was not admitted gets its handshake only")
	}
	vAssert(s.Close() == nil, "close works")
	vQuiesce()
	vAssert(vLiveGoroutines() == 0, "no goroutine is left")
}

// H_C28_endpoint has sockets listen, fail to listen, dial and listen again at an endpoint.
//
//verif:prop C28
//verif:reach taken again both
//verif:bounds every socket type that exchanges messages (11) over the simulated transport and inproc; an endpoint that is taken, then listening elsewhere; a second listen while listening; a peer that dials and one that is dialled by the same socket, in either order; the socket closed and its endpoint taken over by another one, which the peers reach; traffic after each step
//verif:budget 60 300
func H_C28_endpoint() {
	simStart()
	vDeadlockLabel("a peer is never served")
	scheme := []string{"sim://", "inproc://"}[vChoose("transport", 2)]
	t := failTypes[vChoose("type", len(failTypes))]
	pt := partner(t)
	make1 := func() zmq4.Socket {
		s := newSocketOf(t, zmq4.WithTimeout(shortTime), zmq4.WithID(zmq4.SocketIdentity("s")))
		if t == zmq4.Sub {
			vAssert(s.SetOption(zmq4.OptionSubscribe, "") == nil, "subscribes")
		}
		return s
	}
	peerOf := func(id string) zmq4.Socket {
		p := newSocketOf(pt, zmq4.WithTimeout(shortTime), zmq4.WithID(zmq4.SocketIdentity(id)), zmq4.WithAutomaticReconnect(false))
		if pt == zmq4.Sub {
			vAssert(p.SetOption(zmq4.OptionSubscribe, "") == nil, "subscribes")
		}
		return p
	}
	s := make1()
	vAssert(s.Addr() == nil, "no address before listening")
	ep := scheme + "a"
	var other zmq4.Socket
	if vChoose("taken", 2) == 1 {
		other = make1()
		mustListen(other, ep)
		vAssert(s.Listen(ep) != nil, "an endpoint is listened on by one socket")
		vAssert(s.Addr() == nil, "no address after a failed listen")
		ep = scheme + "b"
		vReach("taken")
	}
	mustListen(s, ep)
	addr := s.Addr()
	vAssert(addr != nil, "an address while listening")
	if vChoose("second", 2) == 1 {
		vAssert(s.Listen(scheme+"c") != nil, "a socket listens once")
		vAssert(s.Addr() != nil && s.Addr().String() == addr.String(), "and keeps its address")
		q := peerOf("x")
		c := make1()
		mustListen(c, scheme+"c") // nothing holds the endpoint that was refused
		vAssert(q.Dial(scheme+"c") == nil, "the endpoint is free")
		vQuiesce()
		pass(c, []zmq4.Socket{q}, []string{"x"}, vByte("n"))
		q.Close()
		c.Close()
	}
	var ps []zmq4.Socket
	var ids []string
	order := vChoose("order", 2)
	for i := 0; i < 2; i++ {
		id := string([]byte{'p', byte('0' + i)})
		p := peerOf(id)
		if i == order {
			mustDial(p, ep)
		} else {
			mustListen(p, scheme+"peer")
			mustDial(s, scheme+"peer")
			vReach("both")
		}
		vQuiesce()
		ps, ids = append(ps, p), append(ids, id)
		pass(s, ps, ids, vByte("n"))
	}
	vAssert(s.Close() == nil, "close works")
	vQuiesce()
	if vChoose("again", 2) == 1 {
		s = make1()
		mustListen(s, ep)
		p := peerOf("again")
		mustDial(p, ep)
		vQuiesce()
		pass(s, []zmq4.Socket{p}, []string{"again"}, vByte("n"))
		vAssert(s.Close() == nil, "close works")
		ps = append(ps, p)
		vReach("again")
	}
	for _, p := range ps {
		p.Close()
	}
	if other != nil {
		p := peerOf("o")
		mustDial(p, scheme+"a")
		vQuiesce()
		pass(other, []zmq4.Socket{p}, []string{"o"}, vByte("n"))
		other.Close()
		p.Close()
	}
	vQuiesce()
	vAssert(vLiveGoroutines() == 0, "no goroutine is left")
}

// waiting holds the receives under way that have not got anything yet.
var waiting = map[zmq4.Socket]chan result{}

// pass checks that messages go from s to each of ps and back as the pattern has it.
func pass(s zmq4.Socket, ps []zmq4.Socket, ids []string, n byte) {
	get := func(from zmq4.Socket, want ...[]byte) {
		c := recvAsync(from)
		r, ok := tryRecv(c)
		vAssert(ok, "a message arrives")
		vAssert(r.err == nil, "receiving works")
		sameFrames(r.msg.Frames, want, "the message that was sent")
	}
	put := func(to zmq4.Socket, frames ...[]byte) {
		vAssert(to.Send(zmq4.NewMsgFrom(frames...)) == nil, "sending works")
		vQuiesce()
	}
	me := []byte("s")
	if s.Type() == zmq4.XPub {
		for _, p := range ps {
			put(p, []byte{1})
		}
	}
	switch t := s.Type(); t {
	case zmq4.Pair, zmq4.Dealer, zmq4.Push, zmq4.Pub, zmq4.XPub, zmq4.XSub:
		put(s, []byte{n}, []byte("x"))
		for _, p := range ps {
			want := [][]byte{{n}, []byte("x")}
			if p.Type() == zmq4.Router {
				want = append([][]byte{me}, want...)
			}
			get(p, want...)
		}
		if t == zmq4.Push || t == zmq4.Pub || t == zmq4.XPub || t == zmq4.XSub {
			return
		}
		for i, p := range ps {
			if p.Type() == zmq4.Router {
				put(p, me, []byte{n, byte(i)})
			} else {
				put(p, []byte{n, byte(i)})
			}
			get(s, []byte{n, byte(i)})
		}
	case zmq4.Pull, zmq4.Sub:
		for i, p := range ps {
			put(p, []byte{n, byte(i)})
			get(s, []byte{n, byte(i)})
		}
	case zmq4.Router:
		for i, p := range ps {
			put(s, []byte(ids[i]), []byte{n})
			get(p, []byte{n})
			put(p, []byte{n, byte(i)})
			get(s, []byte(ids[i]), []byte{n, byte(i)})
		}
	case zmq4.Rep:
		for i, p := range ps {
			put(p, []byte{n, byte(i)})
			get(s, []byte{n, byte(i)})
			put(s, []byte{n, 'r'})
			get(p, []byte{n, 'r'})
		}
	case zmq4.Req:
		put(s, []byte{n})
		answered := 0
		for _, p := range ps {
			c := waiting[p]
			if c == nil {
				c = recvAsync(p)
			}
			r, ok := tryRecv(c)
			if !ok {
				waiting[p] = c
				continue
			}
			delete(waiting, p)
			answered++
			vAssert(r.err == nil, "receiving works")
			if p.Type() == zmq4.Router {
				sameFrames(r.msg.Frames, [][]byte{me, nil, {n}}, "the request")
				put(p, me, nil, []byte{n, 'r'})
			} else {
				sameFrames(r.msg.Frames, [][]byte{{n}}, "the request")
				put(p, []byte{n, 'r'})
			}
		}
		vAssert(answered == 1, "one peer gets the request")
		get(s, []byte{n, 'r'})
	}
}

// H_C28_together has peers arrive at the same time.
//
//verif:prop C28
//verif:reach together
//verif:sched
//verif:bounds SUB, PUB, ROUTER, REP, REQ, PAIR, DEALER, PUSH and PULL sockets; two peers that connect to the socket and one it dials, all at once, one more stuck in its handshake; every schedule with up to 1 delay (thorough 2), one more for SUB and ROUTER; then traffic in both directions with all of them
//verif:budget 90 400
func H_C28_together() {
	simStart()
	vDeadlockLabel("a peer is never served")
	types := []zmq4.SocketType{zmq4.Sub, zmq4.Pub, zmq4.Router, zmq4.Rep, zmq4.Req, zmq4.Pair, zmq4.Dealer, zmq4.Push, zmq4.Pull}
	t := types[vChoose("type", len(types))]
	s := newSocketOf(t, zmq4.WithTimeout(shortTime))
	if t == zmq4.Sub {
		s.SetOption(zmq4.OptionSubscribe, "")
	}
	mustListen(s, "sim://a")
	raw := acceptRaw("b")
	stuck := vChoose("stuck", 2)
	hinder(stuck, t, "h")
	simOnConn = func(cli, srv *end) {
		if srv.local == "b" {
			srv.Write(peerHello("NULL", true, string(partner(t)), "r"))
		}
	}
	ids := []string{"p", "q", "r"}
	ps := make([]*rawPeer, 3)
	done := make(chan bool, 3)
	delays := vParam("delays", 1, 2)
	if stuck == 0 && (t == zmq4.Sub || t == zmq4.Router) {
		delays++
	}
	vExplore(delays)
	for i := 0; i < 2; i++ {
		go func() {
			c, err := simDial("sim", "a")
			vAssert(err == nil, "connects")
			ps[i] = &rawPeer{end: c.(*end)}
			ps[i].Write(peerHello("NULL", false, string(partner(t)), ids[i]))
			done <- true
		}()
	}
	go func() {
		mustDial(s, "sim://b")
		done <- true
	}()
	for i := 0; i < 3; i++ {
		<-done
	}
	vQuiesce()
	vExplore(0)
	raw.mu.Lock()
	ps[2] = &rawPeer{end: raw.queue[0]}
	raw.mu.Unlock()
	for _, p := range ps {
		p.got = skipHello(p.drain())
		if t == zmq4.Pub {
			subscribeAll(p)
		}
	}
	exchange(s, t, ps, ids, 10, &allowance{})
	exchange(s, t, ps, ids, 11, &allowance{})
	vReach("together")
	vAssert(s.Close() == nil, "close works")
	vQuiesce()
	vAssert(vLiveGoroutines() == 0, "no goroutine is left")
}
