package zzverif

import (
	"context"
	"fmt"
	"time"

	zmq4 "github.com/luxfi/zmq/v4"
)

var sockTypes = []zmq4.SocketType{zmq4.Pair, zmq4.Pub, zmq4.Sub, zmq4.Req, zmq4.Rep, zmq4.Dealer, zmq4.Router, zmq4.Pull, zmq4.Push, zmq4.XPub, zmq4.XSub, zmq4.Stream}

// anyMsg is a message that every socket type accepts.
func anyMsg() zmq4.Msg { return zmq4.NewMsgFrom([]byte("p"), []byte("x")) }

// afterClose asserts what holds once Close has returned and everything settled.
func afterClose(s zmq4.Socket, ps []*rawPeer) {
	vQuiesce()
	_, err := s.Recv()
	vAssert(err != nil, "receive after close fails")
	vAssert(s.Send(anyMsg()) != nil, "send after close fails")
	vAssert(s.SendMulti(anyMsg()) != nil, "multi-part send after close fails")
	vAssert(s.Listen("sim://late") != nil, "listen after close fails")
	vAssert(s.Dial("sim://late") != nil, "dial after close fails")
	vAssert(s.Close() != nil, "second close fails")
	vQuiesce()
	vAssert(len(simListeners) == 0, "listener is closed")
	for _, e := range simDialed {
		mine := true
		for _, p := range ps {
			mine = mine && p.end != e
		}
		if mine {
			vAssert(e.isClosed(), "dialled connections are closed")
		}
	}
	for _, e := range simAccepted {
		mine := true
		for _, p := range ps {
			mine = mine && p.end != e
		}
		if mine {
			vAssert(e.isClosed(), "accepted connections are closed")
		}
	}
	vAssert(vLiveGoroutines() == 0, "goroutines end")
}

// H_C15_blocked closes a socket while calls are blocked on it.
//
//verif:prop C15
//verif:reach recv send
//verif:sched
//verif:bounds all 12 socket types with 0-2 peers which are idle or stalled, 0-1 receiver blocked, 0-2 senders (single-part or multi-part) in progress or blocked, a backlog of 0-2 received messages; schedules of the close and its consequences with up to 1 delay (thorough 2)
//verif:budget 120 600
func H_C15_blocked() {
	simStart()
	vDeadlockLabel("close or a blocked call never returns")
	t := sockTypes[vChoose("type", len(sockTypes))]
	s := newSocketOf(t)
	mustListen(s, "sim://a")
	if t == zmq4.Sub {
		s.SetOption(zmq4.OptionSubscribe, "")
	}
	var ps []*rawPeer
	np := vChoose("peers", 3)
	ids := []string{"p", "q"}
	for i := 0; i < np; i++ {
		ps = append(ps, rawDial("a", string(partner(t)), ids[i]))
	}
	if np > 0 && (t == zmq4.Pub || t == zmq4.XPub) {
		subscribeAll(ps[0])
	}
	stalled := np > 0 && vChoose("stalled", 2) == 1
	if t == zmq4.Rep && np > 0 {
		ps[0].send(nil, []byte("ask"))
		_, err := s.Recv()
		vAssert(err == nil, "request received")
	}
	if stalled {
		simAccepted[0].stallWrites(true)
	}
	nsend := vChoose("senders", 3)
	sent := make(chan error, 2)
	closing := make(chan bool)
	for i := 0; i < nsend; i++ {
		go func() {
			for {
				var err error
				if i == 0 {
					err = s.Send(anyMsg())
				} else {
					err = s.SendMulti(anyMsg())
				}
				if err != nil {
					sent <- err
					return
				}
				select {
				case <-closing:
				default:
					vPauseOrIdle(closing)
				}
			}
		}()
	}
	vQuiesce()
	if np > 0 {
		for i, n := 0, vChoose("backlog", 2)*2; i < n; i++ {
			ps[0].send(nil, []byte("m"))
		}
	}
	nrecv := vChoose("receivers", 2)
	recvd := make(chan error, 1)
	if nrecv == 1 {
		go func() {
			for {
				if _, err := s.Recv(); err != nil {
					recvd <- err
					return
				}
			}
		}()
	}
	vQuiesce()
	before := time.Now()
	vExplore(vParam("delays", 1, 2))
	vAssert(s.Close() == nil, "close succeeds")
	close(closing)
	for i := 0; i < nsend; i++ {
		<-sent
		vReach("send")
	}
	if nrecv == 1 {
		<-recvd
		vReach("recv")
	}
	vExplore(0)
	vAssert(time.Since(before) == 0, "blocked calls return at once")
	afterClose(s, ps)
}

// vPauseOrIdle waits for c after a successful send.
func vPauseOrIdle(c chan bool) { <-c }

// H_C15_race closes a socket while something else happens to it.
//
//verif:prop C15
//verif:reach done
//verif:sched
//verif:bounds all 12 socket types with a listener and 0-1 accepted peer; close races with one of: a peer connecting and shaking hands, a peer that stays silent or sends half its handshake, a peer's connection failing or being closed, a dial that succeeds, a dial to a silent peer, a dial being retried, the loss of a dialled peer with reconnection, a listen, a second close, a receive, a send, a subscription, a message arriving; schedules with up to 2 delays (thorough 3)
//verif:budget 120 800
func H_C15_race() {
	simStart()
	vDeadlockLabel("close never returns")
	t := sockTypes[vChoose("type", len(sockTypes))]
	s := newSocketOf(t)
	mustListen(s, "sim://a")
	var ps []*rawPeer
	ev := vChoose("event", 14)
	peer := string(partner(t))
	np := 0
	switch ev {
	case 3, 4, 12, 13:
		np = 1
	case 0, 1, 2, 10, 11:
		np = vChoose("peers", 2)
	}
	for i := 0; i < np; i++ {
		ps = append(ps, rawDial("a", peer, "p"))
	}
	var raw *simListener
	listen := func() {
		raw = acceptRaw("r")
		simOnConn = func(cli, srv *end) {
			if cli.rem == "r" {
				ps = append(ps, &rawPeer{end: srv})
				if ev != 6 {
					srv.Write(peerHello("NULL", true, peer, "r"))
				}
			}
		}
	}
	if ev == 8 {
		listen()
		vAssert(s.Dial("sim://r") == nil, "dial succeeds")
	}
	if ev == 5 || ev == 6 {
		listen()
	}
	if ev == 13 {
		simAccepted[0].stallWrites(true)
		for i := 0; i < 2; i++ {
			go func() {
				if t == zmq4.Rep {
					return
				}
				s.Send(anyMsg())
			}()
		}
		if t == zmq4.Rep {
			ps[0].send(nil, []byte("ask"))
			_, err := s.Recv()
			vAssert(err == nil, "request received")
			vAssert(s.Send(anyMsg()) == nil, "reply is accepted")
		}
	}
	vQuiesce()
	before := time.Now()
	vExplore(vParam("delays", 2, 3))
	done := make(chan bool, 2)
	closed := 0
	go func() {
		switch ev {
		case 0, 13: // a peer connects
			c, err := simDial("sim", "a")
			if err == nil {
				e := c.(*end)
				ps = append(ps, &rawPeer{end: e})
				e.Write(peerHello("NULL", false, peer, "q"))
			}
		case 1, 2: // a peer connects and says nothing, or half
			c, err := simDial("sim", "a")
			if err == nil {
				e := c.(*end)
				ps = append(ps, &rawPeer{end: e})
				if ev == 2 {
					e.Write(peerHello("NULL", false, peer, "q")[:70])
				}
			}
		case 3:
			ps[0].breakNow()
		case 4:
			ps[0].Close()
		case 5, 6, 7: // dial: succeeds, silent, refused and retried
			s.Dial("sim://r")
		case 8:
			ps[len(ps)-1].breakNow()
		case 9:
			if s.Close() == nil {
				closed++
			}
		case 10:
			s.Recv()
		case 11:
			s.Send(anyMsg())
		case 12:
			if t == zmq4.Sub {
				s.SetOption(zmq4.OptionSubscribe, "t")
			}
			ps[0].send(nil, []byte("m"))
		}
		done <- true
	}()
	if ev == 9 {
		vYield()
	}
	if s.Close() == nil {
		closed++
	}
	<-done
	vExplore(0)
	vAssert(closed == 1, "exactly one close succeeds")
	vQuiesce()
	vAssert(time.Since(before) == 0, "close and what it interrupts return at once")
	if raw != nil {
		raw.Close()
	}
	afterClose(s, ps)
	vReach("done")
}

// H_C15_listen closes a socket while it starts listening or never did anything.
//
//verif:prop C15
//verif:reach done
//verif:sched
//verif:bounds all 12 socket types, closed at once, or while listening starts (on a free, taken, malformed or unknown endpoint) in another goroutine; schedules with up to 3 delays (thorough 4)
//verif:budget 60 300
func H_C15_listen() {
	simStart()
	vDeadlockLabel("close never returns")
	t := sockTypes[vChoose("type", len(sockTypes))]
	s := newSocketOf(t)
	var raw *simListener
	eps := []string{"", "sim://a", "sim://r", "sim:/", "what://a"}
	ep := eps[vChoose("ep", len(eps))]
	if ep == "sim://r" {
		raw = acceptRaw("r")
	}
	vExplore(vParam("delays", 3, 4))
	done := make(chan bool, 1)
	go func() {
		if ep != "" {
			s.Listen(ep)
		}
		done <- true
	}()
	vYield()
	vAssert(s.Close() == nil, "close succeeds")
	<-done
	vExplore(0)
	vQuiesce()
	if raw != nil {
		raw.Close()
	}
	afterClose(s, nil)
	vReach("done")
}

// H_C15_file closes sockets with endpoints on the file system.
//
//verif:prop C15
//verif:native off
//verif:reach own none
//verif:bounds one socket of 4 types that listens on an ipc or tcp endpoint or not at all, before or after dialling an ipc endpoint or not, and possibly fails to listen on another
func H_C15_file() {
	acceptRaw("peer")
	simOnConn = func(cli, srv *end) { srv.Write(peerHello("NULL", true, "PULL", "")) }
	s := []func() zmq4.Socket{
		func() zmq4.Socket { return zmq4.NewPush(context.Background()) },
		func() zmq4.Socket { return zmq4.NewDealer(context.Background()) },
		func() zmq4.Socket { return zmq4.NewPair(context.Background()) },
		func() zmq4.Socket { return zmq4.NewPub(context.Background()) },
	}[vChoose("type", 4)]()
	simOnConn = func(cli, srv *end) {
		typ := "PULL"
		switch s.Type() {
		case zmq4.Dealer:
			typ = "ROUTER"
		case zmq4.Pair:
			typ = "PAIR"
		case zmq4.Pub:
			typ = "SUB"
		}
		srv.Write(peerHello("NULL", true, typ, ""))
	}
	listens := vChoose("listens", 3)
	dials := vChoose("dials", 3) // no, before listening, after listening
	again := vChoose("again", 4) // no, a taken name before, a free name after, a taken name after
	if dials == 1 {
		mustDial(s, "ipc://peer")
	}
	if again == 1 {
		vAssert(s.Listen("ipc://peer") != nil, "a taken name is refused")
	}
	switch listens {
	case 1:
		mustListen(s, "ipc://own")
	case 2:
		mustListen(s, "tcp://127.0.0.1:5000")
	}
	if listens > 0 && again == 2 {
		vAssert(s.Listen("ipc://free") != nil, "a second listener is refused")
	}
	if again == 3 {
		vAssert(s.Listen("ipc://peer") != nil, "a taken name is refused")
	}
	if dials == 2 {
		mustDial(s, "ipc://peer")
	}
	vQuiesce()
	vAssert(len(simRemoved) == 0, "no file is removed while the socket is open")
	vAssert(s.Close() == nil, "close succeeds")
	for _, f := range simRemoved {
		vAssert(listens == 1 && f == "own", "closing removes no other file")
	}
	if listens == 1 {
		vAssert(len(simRemoved) > 0, "closing removes the file it listens on")
		vReach("own")
	} else {
		vReach("none")
	}
}

// H_C15_fails closes a socket some of whose connections, or whose listener, report an error when they are closed.
//
//verif:prop C15
//verif:reach failed
//verif:sched
//verif:bounds all 12 socket types with a listener, 0-2 accepted and 0-1 dialled connections, each of which, and the listener, may report an error when closed (they are closed all the same); a receiver is blocked or not; schedules with up to 1 delay
//verif:budget 60 300
func H_C15_fails() {
	simStart()
	vDeadlockLabel("close or a blocked call never returns")
	t := sockTypes[vChoose("type", len(sockTypes))]
	s := newSocketOf(t, zmq4.WithAutomaticReconnect(false))
	mustListen(s, "sim://a")
	bad := fmt.Errorf("could not flush")
	var ps []*rawPeer
	ids := []string{"p", "q"}
	fails := 0
	for i, n := 0, vChoose("accepted", 3); i < n; i++ {
		ps = append(ps, rawDial("a", string(partner(t)), ids[i]))
		if vChoose("fails", 2) == 1 {
			simAccepted[i].closeErr = bad
			fails++
		}
	}
	if t != zmq4.Stream && vChoose("dialled", 2) == 1 {
		ps = append(ps, dialToRaw(s, acceptRaw("b"), string(partner(t)), "r"))
		if vChoose("fails", 2) == 1 {
			simDialed[len(simDialed)-1].closeErr = bad
			fails++
		}
	}
	if vChoose("listenerfails", 2) == 1 {
		simListeners["a"].clsErr = bad
	}
	recvd := make(chan error, 1)
	recv := vChoose("receiver", 2) == 1
	if recv {
		go func() {
			_, err := s.Recv()
			recvd <- err
		}()
	}
	vQuiesce()
	vExplore(vParam("delays", 1, 1))
	err := s.Close()
	if recv {
		vAssert(<-recvd != nil || t == zmq4.Stream, "a blocked receive fails") // STREAM received the hello
	}
	vExplore(0)
	if fails > 0 && err != nil {
		vReach("failed")
	}
	if t != zmq4.Stream {
		delete(simListeners, "b") // the raw peer's
	}
	afterClose(s, ps)
}
