package zzverif

import (
	"time"

	zmq4 "github.com/luxfi/zmq/v4"
)

var mergeTypes = []zmq4.SocketType{zmq4.Pull, zmq4.Dealer, zmq4.Pair, zmq4.Sub, zmq4.XSub, zmq4.Router, zmq4.XPub, zmq4.Rep}

// received strips what the socket type adds and returns the frames the peer sent.
func received(t zmq4.SocketType, m zmq4.Msg) [][]byte {
	switch t {
	case zmq4.Router:
		vAssert(len(m.Frames) > 0, "label present")
		return m.Frames[1:]
	}
	return m.Frames
}

// wire adds what the socket type strips.
func wire(t zmq4.SocketType, fs [][]byte) [][]byte {
	if t == zmq4.Rep {
		return concatFrames([][]byte{nil}, fs)
	}
	return fs
}

// H_C13_merge receives from two peers that send at the same time.
//
//verif:prop C13
//verif:reach all
//verif:sched
//verif:bounds PULL, DEALER, PAIR, SUB, XSUB, ROUTER, XPUB, REP with 2 peers sending 2 messages each of 1-2 frames with symbolic contents while the socket receives; every schedule with up to 1 delay (thorough 2); the sockets with a shared reader with up to 2 (thorough 3)
//verif:budget 90 500
func H_C13_merge() {
	simStart()
	t := mergeTypes[vChoose("type", len(mergeTypes))]
	s := newSocketOf(t)
	mustListen(s, "sim://a")
	ps := []*rawPeer{rawDial("a", string(partner(t)), "p"), rawDial("a", string(partner(t)), "q")}
	const each = 2
	var sent [2][][][]byte
	nf := 1 + vChoose("nframes", 2)
	for i := range ps {
		for j := 0; j < each; j++ {
			fs := [][]byte{{byte(2 + i), byte(j), vByte("x")}} // not a subscription
			if nf == 2 {
				fs = append(fs, vBytes("y", 1))
			}
			sent[i] = append(sent[i], fs)
		}
	}
	d := vParam("delays", 1, 2)
	if t == zmq4.Pull {
		d = vParam("pulldelays", 2, 3)
	}
	vExplore(d)
	for i := range ps {
		go func() {
			for _, fs := range sent[i] {
				ps[i].send(wire(t, fs)...)
			}
		}()
	}
	next := [2]int{}
	for n := 0; n < 2*each; n++ {
		m, err := s.Recv()
		vAssert(err == nil, "message received")
		fs := received(t, m)
		vAssert(len(fs) > 0 && len(fs[0]) == 3 && (fs[0][0] == 2 || fs[0][0] == 3), "a whole message that was sent")
		i := int(fs[0][0]) - 2
		vAssert(next[i] < each, "no message twice")
		sameFrames(fs, sent[i][next[i]], "messages of one peer in order")
		next[i]++
	}
	_, more := tryRecv(recvAsync(s))
	vAssert(!more, "nothing invented")
	vReach("all")
	s.Close()
}

// H_C13_backlog receives after a backlog has built up and the peers have left.
//
//verif:prop C13
//verif:reach all beyond left wrote
//verif:bounds PULL, DEALER, PAIR, SUB, XSUB, ROUTER, XPUB, REP; 0-14 messages from one peer (the internal queue holds 10) and 2 from another sent before the first receive, symbolic contents; each peer then stays or closes, and the socket possibly sends to both; all of it received afterwards
//verif:budget 60 300
func H_C13_backlog() {
	simStart()
	t := mergeTypes[vChoose("type", len(mergeTypes))]
	s := newSocketOf(t, zmq4.WithAutomaticReconnect(false))
	mustListen(s, "sim://a")
	ps := []*rawPeer{rawDial("a", string(partner(t)), "p"), rawDial("a", string(partner(t)), "q")}
	if t == zmq4.XPub {
		subscribeAll(ps[0])
		subscribeAll(ps[1])
	}
	counts := []int{[]int{0, 3, 9, 10, 11, 12, 14}[vChoose("count", 7)], 2}
	if counts[0] > 10 {
		vReach("beyond")
	}
	var sent [2][][][]byte
	for i := range ps {
		for j := 0; j < counts[i]; j++ {
			sent[i] = append(sent[i], [][]byte{{byte(2 + i), byte(j), vByte("x")}})
		}
	}
	first := vChoose("first", 2)
	ends := 0
	for k := range ps {
		i := k ^ first
		for _, fs := range sent[i] {
			ps[i].send(wire(t, fs)...)
		}
		if vChoose("quiet", 2) == 1 {
			vQuiesce()
		}
		if vChoose("leave", 2) == 1 {
			ps[i].Close()
			ends++
			vReach("left")
		}
	}
	vQuiesce()
	if ends > 0 && t != zmq4.Pull && t != zmq4.Sub && t != zmq4.Rep && vChoose("send", 2) == 1 {
		// writing to a peer that has left does not lose what it sent
		s.Send(zmq4.NewMsgFrom([]byte("p"), []byte("x")))
		s.Send(zmq4.NewMsgFrom([]byte("q"), []byte("x")))
		vQuiesce()
		vReach("wrote")
	}
	next := [2]int{}
	errs := 0
	c := recvAsync(s)
	for {
		r, ok := tryRecv(c)
		if !ok {
			break
		}
		c = recvAsync(s)
		if r.err != nil {
			errs++
			vAssert(errs <= ends, "one report per connection that ended")
			continue
		}
		fs := received(t, r.msg)
		vAssert(len(fs) == 1 && len(fs[0]) == 3 && (fs[0][0] == 2 || fs[0][0] == 3), "a whole message that was sent")
		i := int(fs[0][0]) - 2
		vAssert(next[i] < counts[i], "no message twice")
		sameFrames(fs, sent[i][next[i]], "messages of one peer in order")
		next[i]++
	}
	for i := range ps {
		vAssert(next[i] == counts[i], "every message that arrived is delivered")
	}
	vReach("all")
	s.Close()
}

// H_C13_stop stops receiving for a while between peers of different speed.
//
//verif:prop C13 C08
//verif:reach all
//verif:bounds PULL with 2 peers of which one has 12 messages waiting while the other's message arrives late; receives interleaved with arrivals at every point
//verif:budget 40 200
func H_C13_stop() {
	simStart()
	s := newSocketOf(zmq4.Pull)
	mustListen(s, "sim://a")
	ps := []*rawPeer{rawDial("a", "PUSH", "p"), rawDial("a", "PUSH", "q")}
	const n = 12
	late := vChoose("late", n+1)
	pause := vChoose("pause", 2) == 1
	next := [2]int{}
	sentB := 0
	take := func(m zmq4.Msg, err error) {
		vAssert(err == nil && len(m.Frames) == 1 && len(m.Frames[0]) == 2, "a whole message")
		i := int(m.Frames[0][0])
		vAssert(int(m.Frames[0][1]) == next[i], "in order, once")
		next[i]++
	}
	for j := 0; j < n; j++ {
		if j == late {
			ps[1].send([]byte{1, 0})
			sentB++
		}
		ps[0].send([]byte{0, byte(j)})
		if pause && j%3 == 2 {
			m, err := s.Recv()
			take(m, err)
		}
	}
	for next[0]+next[1] < n+sentB {
		m, err := s.Recv()
		take(m, err)
	}
	vAssert(next[0] == n && next[1] == sentB, "everything delivered")
	vReach("all")
	s.Close()
}

var _ = time.Second
