package zzverif

import (
	"time"

	zmq4 "github.com/luxfi/zmq/v4"
)

// allowance is how many errors a socket may still report for its failed connections.
type allowance struct{ send, recv int }

// exchange checks that traffic in both directions works with each of the peers ps.
func exchange(s zmq4.Socket, t zmq4.SocketType, ps []*rawPeer, ids []string, n byte, al *allowance) {
	if len(ps) == 0 {
		return
	}
	recv := func() ([][]byte, bool) {
		for {
			m, err := s.Recv()
			if err == nil {
				return m.Frames, true
			}
			vAssert(al.recv > 0, "receiving from the remaining peers works")
			al.recv--
			if t == zmq4.Req {
				return nil, false
			}
		}
	}
	// try sends until it works, which is at once but for the errors still to be reported
	try := func(frames ...[]byte) {
		for {
			err := s.Send(zmq4.NewMsgFrom(frames...))
			if err == nil {
				break
			}
			vAssert(al.send > 0, "sending to the remaining peers works")
			al.send--
			vQuiesce()
		}
		vQuiesce()
	}
	last := func(p *rawPeer, want [][]byte) {
		ms := p.msgs("message sent to a remaining peer")
		vAssert(len(ms) > 0, "the message reaches the remaining peer")
		// an attempt that was reported as failed may have reached the others
		for _, m := range ms {
			sameFrames(m, want, "message reaches the remaining peer unaltered")
		}
	}
	switch t {
	case zmq4.Pair, zmq4.Dealer, zmq4.Push, zmq4.XSub:
		try([]byte{n}, []byte("x"))
		for _, p := range ps {
			last(p, [][]byte{{n}, []byte("x")})
		}
	case zmq4.Pub, zmq4.XPub:
		try([]byte{n}, []byte("x"))
		for _, p := range ps {
			last(p, [][]byte{{n}, []byte("x")})
		}
	case zmq4.Router:
		for i, p := range ps {
			try([]byte(ids[i]), []byte{n})
			last(p, [][]byte{{n}})
		}
	case zmq4.Rep:
		for _, p := range ps {
			p.send([]byte{9, n}, nil, []byte{n})
			f, _ := recv()
			sameFrames(f, [][]byte{{n}}, "request from a remaining peer")
			try([]byte{n, n})
			last(p, [][]byte{{9, n}, nil, {n, n}})
		}
	case zmq4.Req:
		for {
			try([]byte{n})
			var q *rawPeer
			for _, p := range ps {
				if ms := p.msgs("request"); len(ms) > 0 {
					vAssert(q == nil && len(ms) == 1, "the request goes to one peer")
					sameFrames(ms[0], [][]byte{nil, {n}}, "request")
					q = p
				}
			}
			if q != nil {
				q.send(nil, []byte{n, n})
			}
			if f, ok := recv(); ok {
				vAssert(q != nil, "reply from a live peer")
				sameFrames(f, [][]byte{{n, n}}, "reply")
				break
			}
		}
	}
	switch t {
	case zmq4.Pair, zmq4.Dealer, zmq4.XSub, zmq4.Pull, zmq4.Sub, zmq4.XPub, zmq4.Router:
		for i, p := range ps {
			p.send([]byte{2, n}, []byte{byte(i)})
			p.send([]byte{3, n}, []byte{byte(i)})
			for k := byte(2); k < 4; k++ {
				f, _ := recv()
				if t == zmq4.Router {
					vAssert(len(f) == 3 && string(f[0]) == ids[i], "labelled with its sender")
					f = f[1:]
				}
				sameFrames(f, [][]byte{{k, n}, {byte(i)}}, "messages of the remaining peers arrive in order")
			}
		}
	}
}

// fail makes the connection fail; e is the socket's end.
func failConn(mode int, e *end, p *rawPeer) {
	switch mode {
	case 0:
		p.Close()
	case 1:
		p.breakNow()
	case 2: // the next write fails; reading finds nothing more
		e.mu.Lock()
		e.failWrite = 1
		e.mu.Unlock()
	case 3: // reading fails; writing goes on
		e.rd.mu.Lock()
		e.rd.err = errInjected
		e.rd.cond.Broadcast()
		e.rd.mu.Unlock()
	case 4: // the framing is broken
		p.Write([]byte{2, 0xff, 0, 0, 0, 0, 0, 0, 0})
	case 5: // cut inside a frame
		p.Write([]byte{0, 5, 'h'})
		p.Close()
	}
}

const failModes = 6

var failTypes = []zmq4.SocketType{zmq4.Pair, zmq4.Dealer, zmq4.Push, zmq4.Pull, zmq4.Sub, zmq4.XSub, zmq4.Pub, zmq4.XPub, zmq4.Router, zmq4.Rep, zmq4.Req}

// H_C17_remaining fails connections one after the other and uses the remaining ones.
//
//verif:prop C17
//verif:reach removed again
//verif:bounds all 11 ZMTP socket types with 2-3 accepted peers; any one of them, then any other, fails by close, reset, write failure, read failure, broken framing or a cut frame, before or after traffic; then a new peer connects; traffic in both directions with each remaining peer after each step
//verif:budget 120 300
func H_C17_remaining() {
	simStart()
	vDeadlockLabel("a failed connection blocks the socket")
	t := failTypes[vChoose("type", len(failTypes))]
	s := newSocketOf(t)
	mustListen(s, "sim://a")
	if t == zmq4.Sub {
		s.SetOption(zmq4.OptionSubscribe, "")
	}
	names := []string{"p", "q", "r", "s"}
	var ps []*rawPeer
	var ids []string
	var ends []*end
	join := func() {
		id := names[len(simAccepted)]
		p := rawDial("a", string(partner(t)), id)
		if t == zmq4.Pub || t == zmq4.XPub {
			subscribeAll(p)
		}
		ps, ids, ends = append(ps, p), append(ids, id), append(ends, simAccepted[len(simAccepted)-1])
	}
	np := 2 + vChoose("third", 2)
	for i := 0; i < np; i++ {
		join()
	}
	al := &allowance{}
	if vChoose("before", 2) == 1 {
		exchange(s, t, ps, ids, 10, al)
	}
	var dead []*end
	var deadPeers []*rawPeer
	for k := byte(0); k < 2; k++ {
		i := vChoose("which", len(ps))
		mode := vChoose("mode", failModes)
		failConn(mode, ends[i], ps[i])
		dead = append(dead, ends[i])
		deadPeers = append(deadPeers, ps[i])
		ps = append(append([]*rawPeer(nil), ps[:i]...), ps[i+1:]...)
		ids = append(append([]string(nil), ids[:i]...), ids[i+1:]...)
		ends = append(append([]*end(nil), ends[:i]...), ends[i+1:]...)
		vQuiesce()
		al.send++
		al.recv++
		exchange(s, t, ps, ids, 20+k, al)
		if mode == 2 {
			failConn(3, dead[k], nil)
			vQuiesce()
		}
		exchange(s, t, ps, ids, 30+k, al)
		vReach("again")
	}
	join()
	if t == zmq4.Req {
		al.send += 2
		al.recv += 2
	}
	for n := byte(40); n < 43; n++ {
		exchange(s, t, ps, ids, n, al)
	}
	if t == zmq4.Router { // makes sure the failed connections have been written to
		for _, id := range names[:np] {
			s.Send(zmq4.NewMsgFrom([]byte(id), []byte("x")))
			vQuiesce()
		}
	}
	for i, e := range dead {
		// a failure that only shows on reading stays unnoticed where nothing is received
		if (t == zmq4.Push || t == zmq4.Req) && e.failWrite == 0 && !deadPeers[i].isClosed() && e.wr.err == nil {
			continue
		}
		vAssert(e.isClosed(), "a failed connection is dropped and closed")
		vReach("removed")
	}
	vAssert(s.Close() == nil, "close succeeds")
	vQuiesce()
	for _, e := range simAccepted {
		vAssert(e.isClosed(), "every connection is closed")
	}
	vAssert(vLiveGoroutines() == 0, "goroutines end")
}

// H_C17_reconnect loses dialled connections, with automatic reconnection on or off.
//
//verif:prop C17
//verif:reach on off later badshake
//verif:bounds all 11 ZMTP socket types with connections dialled to 1-2 peers; one of them, then possibly it or the other, fails by close, reset, read failure, broken framing or a cut frame; automatic reconnection on or off; the peer's address is reachable again at once or after 3 refused attempts, with 0-2 connections cut in their handshake first; 30 s pass; traffic afterwards
//verif:budget 120 300
func H_C17_reconnect() {
	simStart()
	vDeadlockLabel("a failed connection blocks the socket")
	t := failTypes[vChoose("type", len(failTypes))]
	on := vChoose("on", 2) == 1
	s := newSocketOf(t, zmq4.WithAutomaticReconnect(on))
	if t == zmq4.Sub {
		s.SetOption(zmq4.OptionSubscribe, "")
	}
	addrs := []string{"r0", "r1"}
	n := 1 + vChoose("peers", 2)
	var ps []*rawPeer
	for i := 0; i < n; i++ {
		ps = append(ps, dialToRaw(s, acceptRaw(addrs[i]), string(partner(t)), addrs[i]))
	}
	if t == zmq4.Pub || t == zmq4.XPub {
		for _, p := range ps {
			subscribeAll(p)
		}
	}
	ids := append([]string(nil), addrs[:n]...)
	al := &allowance{}
	exchange(s, t, ps, ids, 10, al)
	for k, rounds := byte(0), 1+vChoose("again", 2); int(k) < rounds; k++ {
		i := 0
		if n == 2 {
			i = vChoose("which", 2)
		}
		refused := 0
		badshake := 0
		if k == 0 {
			refused = vChoose("refused", 2) * 3
			badshake = vChoose("badshake", 3)
		}
		if badshake > 0 {
			vReach("badshake")
		}
		fresh := len(simAccepted)
		attempts := simAttempts
		simDialHook = func(addr string) error {
			vAssert(addr == addrs[i], "only the lost connection is dialled again")
			if refused > 0 {
				refused--
				return errRefused
			}
			return nil
		}
		simOnConn = func(cli, srv *end) {
			if badshake > 0 {
				badshake--
				srv.Close()
				return
			}
			srv.Write(peerHello("NULL", true, string(partner(t)), addrs[i]))
		}
		mode := []int{0, 1, 3, 4, 5}[vChoose("mode", 5)]
		failConn(mode, simDialed[connOf(ps[i])], ps[i])
		vQuiesce()
		al.send++
		al.recv++
		// sockets that do not read notice the loss when they send
		if t == zmq4.Push || t == zmq4.Req {
			for j := 0; j < 3; j++ {
				s.Send(anyMsg())
				vQuiesce()
			}
			if mode == 3 || mode == 4 {
				// nothing is wrong with the only direction in use
				if len(simAccepted) == fresh {
					return
				}
			}
			if t == zmq4.Req {
				al.recv += 2
			}
		}
		vAdvance(30 * time.Second)
		simDialHook, simOnConn = nil, nil
		if !on {
			vAssert(simAttempts == attempts, "no reconnection unless it is on")
			vReach("off")
			if n == 2 {
				q := ps[1-i]
				q.drain()
				exchange(s, t, []*rawPeer{q}, []string{ids[1-i]}, 20+k, al)
			}
			s.Close()
			vQuiesce()
			vAssert(vLiveGoroutines() == 0, "goroutines end")
			return
		}
		// the connection is back, exactly once
		live := -1
		for j := fresh; j < len(simAccepted); j++ {
			if !simAccepted[j].isClosed() && !simDialed[j].isClosed() {
				vAssert(live < 0, "one new connection")
				live = j
			}
		}
		vAssert(live >= 0, "the connection is re-established")
		vReach("on")
		e := simAccepted[live]
		vQuiesce()
		// its handshake and, on SUB, its subscriptions
		ps[i] = &rawPeer{end: e}
		e.drain()
		if t == zmq4.Pub || t == zmq4.XPub {
			subscribeAll(ps[i])
		}
		for _, p := range ps {
			p.drain()
		}
		if t == zmq4.Req {
			al.send += 2
		}
		exchange(s, t, ps, ids, 20+k, al)
		exchange(s, t, ps, ids, 30+k, al)
		vReach("later")
	}
	s.Close()
	vQuiesce()
	vAssert(vLiveGoroutines() == 0, "goroutines end")
}

// connOf returns the index of a raw peer's connection.
func connOf(p *rawPeer) int {
	for i, e := range simAccepted {
		if e == p.end {
			return i
		}
	}
	return -1
}

// H_C17_together fails two connections at about the same time.
//
//verif:prop C17
//verif:reach done
//verif:sched
//verif:bounds PAIR, DEALER, PUSH, PUB, ROUTER, PULL, XSUB and REP sockets with 3 accepted peers; two of them, in either order, fail by close or reset one 0-1 (thorough 0-3) turns after the other; every schedule with up to 2 delays (thorough 3); then traffic in both directions with the remaining peer
//verif:budget 90 400
func H_C17_together() {
	simStart()
	vDeadlockLabel("a failed connection blocks the socket")
	types := []zmq4.SocketType{zmq4.Dealer, zmq4.Push, zmq4.Pub, zmq4.Router, zmq4.Pull, zmq4.Rep, zmq4.Pair, zmq4.XSub}[:vParam("types", 4, 8)]
	t := types[vChoose("type", len(types))]
	s := newSocketOf(t)
	mustListen(s, "sim://a")
	ids := []string{"p", "q", "r"}
	var ps []*rawPeer
	for _, id := range ids {
		p := rawDial("a", string(partner(t)), id)
		if t == zmq4.Pub {
			subscribeAll(p)
		}
		ps = append(ps, p)
	}
	first := vChoose("first", 2)
	mode := vChoose("mode", 2)
	turns := vChoose("turns", vParam("turns", 2, 4))
	if t == zmq4.Push { // it only notices on sending
		for _, p := range ps[:2] {
			p.breakNow()
		}
	}
	vExplore(vParam("delays", 2, 3))
	if t == zmq4.Push {
		s.Send(anyMsg())
		for i := 0; i < turns; i++ {
			vPause()
		}
		s.Send(anyMsg())
		s.Send(anyMsg())
	} else {
		failConn(mode, simAccepted[first], ps[first])
		for i := 0; i < turns; i++ {
			vPause()
		}
		failConn(mode, simAccepted[1-first], ps[1-first])
	}
	vQuiesce()
	vExplore(0)
	ps[2].drain()
	al := &allowance{2, 2}
	for n := byte(10); n < 13; n++ {
		exchange(s, t, ps[2:], ids[2:], n, al)
	}
	vAssert(simAccepted[0].isClosed() && simAccepted[1].isClosed(), "failed connections are dropped and closed")
	al.send = 0
	for n := byte(20); n < 23; n++ {
		exchange(s, t, ps[2:], ids[2:], n, al)
	}
	vReach("done")
	s.Close()
	vQuiesce()
	vAssert(vLiveGoroutines() == 0, "goroutines end")
}
