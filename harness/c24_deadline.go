package zzverif

import (
	"context"
	"errors"
	"time"

	zmq4 "github.com/luxfi/zmq/v4"
)

// awaitTypes wait for a peer when they send.
var awaitTypes = []zmq4.SocketType{zmq4.Pair, zmq4.Dealer, zmq4.Push, zmq4.XSub, zmq4.Router}

// H_C24_nopeer sends without a peer, which arrives early, late or never.
//
//verif:prop C24
//verif:reach never early late left
//verif:bounds PAIR, DEALER, PUSH, XSUB, ROUTER; any timeout of 0-10 s and the default of 5 min; Send and SendMulti; a peer that arrives at any moment up to 20 s (10 min) or never; optionally another one that was there and left before
//verif:budget 60 300
func H_C24_nopeer() {
	simStart()
	vDeadlockLabel("a send never returns")
	t := awaitTypes[vChoose("type", len(awaitTypes))]
	to := 5 * time.Minute
	late := 10 * time.Minute
	var opts []zmq4.Option
	if vChoose("default", 2) == 0 {
		to = vDur("timeout", 0, 10*time.Second)
		late = 20 * time.Second
		opts = append(opts, zmq4.WithTimeout(to))
	}
	s := newSocketOf(t, opts...)
	mustListen(s, "sim://a")
	left := vChoose("left", 2) == 1
	if left {
		p := rawDial("a", string(partner(t)), "p")
		p.Close()
		vQuiesce()
		if t == zmq4.Push || vChoose("notice", 2) == 1 {
			s.Send(zmq4.NewMsgFrom([]byte("p"), []byte("gone")))
			vQuiesce()
		}
		vReach("left")
	}
	var p *rawPeer
	arrives := vChoose("arrives", 2) == 1
	var arrive time.Duration
	start := time.Now()
	if arrives {
		arrive = vDur("arrive", 0, late)
		go func() {
			time.Sleep(arrive)
			c, err := simDial("sim", "a")
			if err != nil {
				return // the socket is closed already
			}
			p = &rawPeer{end: c.(*end)}
			p.Write(peerHello("NULL", false, string(partner(t)), "p"))
		}()
	}
	m := zmq4.NewMsgFrom([]byte("p"), []byte("x"), nil)
	var err error
	if vChoose("multi", 2) == 1 {
		err = s.SendMulti(m)
	} else {
		err = s.Send(m)
	}
	took := time.Since(start)
	vAssert(took <= to, "a send returns by its deadline")
	router := t == zmq4.Router && left // a router without the addressed peer need not wait
	switch {
	case router:
		vAssert(vOr(err == nil, took == to), "fails at the deadline only")
	case err == nil:
		vAssert(arrives, "no success without a peer")
		vAssert(took == arrive, "a send succeeds when a peer arrives")
		vQuiesce()
		p.got = skipHello(p.drain())
		want := m.Frames
		if t == zmq4.Router {
			want = want[1:]
		}
		ms := p.msgs("message")
		vAssert(len(ms) == 1, "the message was handed over")
		sameFrames(ms[0], want, "the message was handed over whole")
		vReach("early")
	default:
		vAssert(vOr(!arrives, to <= arrive), "a send succeeds when a peer arrives in time")
		vAssert(took == to, "a send waits for a peer until its deadline")
		vAssert(errors.Is(err, context.DeadlineExceeded), "the deadline error")
		vReach("never")
		if arrives {
			vAdvance(late)
			p.got = skipHello(p.drain())
			vAssert(len(p.msgs("late")) == 0, "a message whose send failed for want of a peer is not delivered later")
			vReach("late")
		}
	}
	s.Close()
	vQuiesce()
	vAssert(vLiveGoroutines() == 0, "goroutines end")
}

// H_C24_join lets peers come and go around a waiting send.
//
//verif:prop C24 C17
//verif:reach sent
//verif:sched
//verif:bounds PAIR, DEALER, PUSH, XSUB; one send waits while a peer leaves (noticed by the reader or by the send) and another arrives, in any order; schedules with up to 2 delays (thorough 3)
//verif:budget 60 300
func H_C24_join() {
	simStart()
	vDeadlockLabel("a send never returns")
	t := awaitTypes[vChoose("type", 4)]
	s := newSocketOf(t)
	mustListen(s, "sim://a")
	p := rawDial("a", string(partner(t)), "p")
	start := time.Now()
	vExplore(vParam("delays", 2, 3))
	done := make(chan bool, 2)
	go func() {
		for i := 0; ; i++ {
			err := s.Send(zmq4.NewMsgFrom([]byte("x")))
			if err == nil {
				break
			}
			vAssert(i == 0, "at most one send fails for the peer that left")
			time.Sleep(1) // let the failure sink in
		}
		done <- true
	}()
	var q *rawPeer
	go func() {
		c, err := simDial("sim", "a")
		vAssert(err == nil, "raw dial")
		q = &rawPeer{end: c.(*end)}
		q.Write(peerHello("NULL", false, string(partner(t)), "q"))
		done <- true
	}()
	p.Close()
	<-done
	<-done
	vQuiesce()
	vExplore(0)
	vAssert(time.Since(start) <= 1, "no send misses a peer that has arrived")
	vQuiesce()
	if s.Send(zmq4.NewMsgFrom([]byte("y"))) != nil {
		vQuiesce()
		vAssert(s.Send(zmq4.NewMsgFrom([]byte("y"))) == nil, "sending to the remaining peer works")
	}
	vAssert(time.Since(start) <= 1, "no send misses a peer that is there")
	q.got = skipHello(q.drain())
	ms := q.msgs("message")
	vAssert(len(ms) >= 1, "the remaining peer receives")
	sameFrames(ms[len(ms)-1], [][]byte{[]byte("y")}, "the message is handed over whole")
	vReach("sent")
	s.Close()
}

// H_C24_cut makes a connection fail at any write of a message.
//
//verif:prop C24 C17
//verif:reach failed whole other
//verif:bounds PAIR, DEALER, PUSH, XSUB, ROUTER, REQ with 1-2 peers; a message of 1-3 frames by Send or SendMulti to a connection that fails at any of its writes or not at all
//verif:budget 60 300
func H_C24_cut() {
	simStart()
	vDeadlockLabel("a send never returns")
	types := append(append([]zmq4.SocketType(nil), awaitTypes...), zmq4.Req)
	t := types[vChoose("type", len(types))]
	s := newSocketOf(t)
	mustListen(s, "sim://a")
	ids := []string{"p", "q"}
	var ps []*rawPeer
	for i, n := 0, 1+vChoose("peers", 2); i < n; i++ {
		ps = append(ps, rawDial("a", string(partner(t)), ids[i]))
	}
	e := simAccepted[0]
	at := vChoose("at", 9)
	e.mu.Lock()
	if at > 0 {
		e.failWrite = e.nwrite + at
	}
	e.mu.Unlock()
	fs := [][]byte{vBytes("a", 1), vBytes("b", 2), vBytes("c", 3)}[:1+vChoose("frames", 3)]
	out := fs
	if t == zmq4.Router {
		out = concatFrames([][]byte{[]byte("p")}, fs)
	}
	multi := vChoose("multi", 2) == 1
	var err error
	if multi {
		err = s.SendMulti(zmq4.NewMsgFrom(out...))
	} else {
		err = s.Send(zmq4.NewMsgFrom(out...))
	}
	vQuiesce()
	want := fs
	if t == zmq4.Req {
		want = concatFrames([][]byte{nil}, fs)
	}
	whole := func(p *rawPeer) bool {
		p.got = append(p.got, p.drain()...)
		ms, rest := parseMsgs(p.got)
		p.got = nil
		if len(ms) == 0 {
			return false
		}
		vAssert(len(ms) == 1 && len(rest) == 0, "the message once")
		sameFrames(ms[0], want, "the message whole")
		return true
	}
	if err != nil {
		vReach("failed")
		vAssert(at > 0, "a send fails only when its connection does")
		if len(ps) == 2 && t != zmq4.Router && t != zmq4.Req {
			vAssert(whole(ps[1]), "the other peer has the message")
			vReach("other")
		}
		vAssert(t != zmq4.Req || len(ps) == 1, "a request goes to the next peer")
	} else {
		vReach("whole")
		got := 0
		for _, p := range ps {
			if whole(p) {
				got++
			}
		}
		n := len(ps)
		if t == zmq4.Router || t == zmq4.Req {
			n = 1
		}
		vAssert(got == n, "no success unless the whole message was handed over")
	}
	s.Close()
}

// H_C24_reqrep keeps the deadline of REQ and REP behind stalled peers.
//
//verif:prop C24 C11
//verif:reach req rep
//verif:bounds REQ with 1-2 peers, one stalled at any write of the request; REP with a stalled asker and 1-3 replies; any timeout of 1 ns to 5 s
//verif:budget 60 300
func H_C24_reqrep() {
	simStart()
	vDeadlockLabel("a send never returns")
	t := []zmq4.SocketType{zmq4.Req, zmq4.Rep}[vChoose("type", 2)]
	to := vDur("timeout", 1, 5*time.Second)
	s := newSocketOf(t, zmq4.WithTimeout(to))
	mustListen(s, "sim://a")
	p := rawDial("a", string(partner(t)), "p")
	e := simAccepted[0]
	var q *rawPeer
	if vChoose("peers", 2) == 1 {
		q = rawDial("a", string(partner(t)), "q")
	}
	if t == zmq4.Rep {
		vReach("rep")
		p.send(nil, []byte("ask"))
		_, err := s.Recv()
		vAssert(err == nil, "request received")
		e.wr.mu.Lock()
		e.wr.after = e.nwrite + 1 + vChoose("at", 4)
		e.wr.mu.Unlock()
		for i, n := 0, 1+vChoose("replies", 3); i < n; i++ {
			start := time.Now()
			s.Send(zmq4.NewMsgFrom([]byte("r")))
			vAssert(time.Since(start) <= to, "a reply keeps its deadline")
		}
		if q != nil {
			q.send(nil, []byte("ask"))
			start := time.Now()
			m, err := s.Recv()
			vAssert(err == nil && string(m.Frames[0]) == "ask", "requests still arrive")
			vAssert(time.Since(start) == 0, "at once")
		}
	} else {
		vReach("req")
		e.wr.mu.Lock()
		e.wr.after = e.nwrite + 1 + vChoose("at", 4)
		e.wr.mu.Unlock()
		start := time.Now()
		err := s.Send(zmq4.NewMsgFrom([]byte("r")))
		took := time.Since(start)
		vAssert(err == nil && took == 0 || err != nil && took == to, "a request to a stalled peer fails at its deadline")
		if q != nil {
			start = time.Now()
			vAssert(s.Send(zmq4.NewMsgFrom([]byte("s"))) == nil && time.Since(start) == 0, "the next request goes to the next peer")
			vQuiesce()
			ms := q.msgs("request")
			vAssert(len(ms) == 1, "the next request goes to the next peer")
			sameFrames(ms[0], [][]byte{nil, []byte("s")}, "whole")
		}
	}
	start := time.Now()
	vAssert(s.Close() == nil && time.Since(start) == 0, "close")
	vQuiesce()
	vAssert(vLiveGoroutines() == 0, "goroutines end")
}
