package zzverif

import (
	"time"

	zmq4 "github.com/luxfi/zmq/v4"
)

// H_C14_senders sends from several goroutines on one socket.
//
//verif:prop C14
//verif:reach all
//verif:sched
//verif:bounds PUSH, DEALER, PAIR, XSUB, PUB, XPUB, ROUTER, REQ, REP with 1-2 connections; 2 goroutines each sending 2 messages of 2 frames with symbolic contents, each by Send or SendMulti; every schedule with up to 1 delay (thorough 2)
//verif:budget 90 600
func H_C14_senders() {
	simStart()
	types := []zmq4.SocketType{zmq4.Push, zmq4.Dealer, zmq4.Pair, zmq4.XSub, zmq4.Pub, zmq4.XPub, zmq4.Router, zmq4.Req, zmq4.Rep}
	t := types[vChoose("type", len(types))]
	s := newSocketOf(t)
	mustListen(s, "sim://a")
	ids := []string{"p", "q"}
	np := 1 + vChoose("peers", 2)
	var ps []*rawPeer
	for i := 0; i < np; i++ {
		ps = append(ps, rawDial("a", string(partner(t)), ids[i]))
	}
	switch t {
	case zmq4.Pub, zmq4.XPub:
		for _, p := range ps {
			subscribeAll(p)
		}
	case zmq4.Rep:
		ps[0].send(nil, []byte("ask"))
		_, err := s.Recv()
		vAssert(err == nil, "request received")
	}
	const each = 2
	multi := vChoose("multi", 3)
	var sent [2][][][]byte
	for g := range sent {
		for j := 0; j < each; j++ {
			sent[g] = append(sent[g], [][]byte{{byte(g), byte(j)}, vBytes("body", 1+j)})
		}
	}
	vExplore(vParam("delays", 1, 2))
	done := make(chan bool, 2)
	for g := range sent {
		go func() {
			for j, fs := range sent[g] {
				out := fs
				if t == zmq4.Router {
					out = concatFrames([][]byte{[]byte(ids[j%np])}, fs)
				}
				m := zmq4.NewMsgFrom(out...)
				var err error
				if multi == 1 || multi == 2 && g == 0 {
					err = s.SendMulti(m)
				} else {
					err = s.Send(m)
				}
				vAssert(err == nil, "send succeeds")
			}
			done <- true
		}()
	}
	<-done
	<-done
	vQuiesce()
	var seen [2][each]int
	for i, p := range ps {
		var next [2]int
		for _, m := range p.msgs("every message is contiguous") {
			switch t {
			case zmq4.Req, zmq4.Rep:
				vAssert(len(m) == 3 && len(m[0]) == 0, "delimiter")
				m = m[1:]
			}
			vAssert(len(m) == 2 && len(m[0]) == 2, "every message is whole")
			g, j := int(m[0][0]), int(m[0][1])
			vAssert(g < 2 && j < each, "a message that was sent")
			sameFrames(m, sent[g][j], "every message is unaltered")
			vAssert(j >= next[g], "messages of one sender in order")
			next[g] = j + 1
			seen[g][j]++
			if t == zmq4.Router {
				vAssert(i == j%np, "routed to the addressed peer")
			}
		}
	}
	for g := range seen {
		for j := range seen[g] {
			want := np
			switch t {
			case zmq4.Router, zmq4.Req, zmq4.Rep:
				want = 1
			}
			vAssert(seen[g][j] == want, "exactly once per connection it is delivered to")
		}
	}
	vReach("all")
	s.Close()
}

// H_C14_conn writes to one connection from several goroutines while PINGs are answered.
//
//verif:prop C14 C01
//verif:reach all
//verif:sched
//verif:bounds one connection under NULL or PLAIN; one goroutine sending messages of 2 frames by single-part or multi-part send, one sending a command, one receiving 2 PINGs which are answered; every schedule with up to 3 delays (thorough 4)
//verif:budget 60 400
func H_C14_conn() {
	mech := []string{"NULL", "PLAIN"}[vChoose("mech", 2)]
	c, p := openWith(mech, zmq4.Pair, zmq4.Pair, true)
	fs := [][]byte{vBytes("a", 1), vBytes("b", 2)}
	vExplore(vParam("delays", 3, 4))
	done := make(chan bool, 3)
	go func() {
		vAssert(c.SendMsg(zmq4.NewMsgFrom(fs...)) == nil, "send succeeds")
		vAssert(c.SendMsg(zmq4.NewMsgFrom(fs...)) == nil, "send succeeds")
		done <- true
	}()
	go func() {
		vAssert(c.SendCmd("TEST", []byte("x")) == nil, "command is sent")
		done <- true
	}()
	go func() {
		for i := 0; i < 2; i++ {
			_, err := c.RecvMsg()
			vAssert(err == nil, "PING is received")
		}
		done <- true
	}()
	p.Write(cmdBytes("PING", nil))
	p.Write(cmdBytes("PING", nil))
	for i := 0; i < 3; i++ {
		<-done
	}
	fr, rest := parseWire(p.drain())
	vAssert(len(rest) == 0 && len(fr) == 7, "every frame is whole")
	msgs, cmds, pongs, open := 0, 0, 0, 0
	for _, f := range fr {
		if f.flags == 4 {
			vAssert(open == 0, "no command inside a message")
			switch string(f.body) {
			case "\x04PONG":
				pongs++
			case "\x04TESTx":
				cmds++
			default:
				vFail("unknown command on the wire")
			}
			continue
		}
		vAssertSame(f.body, fs[open], "frame content")
		vAssert(f.flags == byte(1-open), "MORE flag")
		open++
		if open == 2 {
			open = 0
			msgs++
		}
	}
	vAssert(msgs == 2 && cmds == 1 && pongs == 2, "everything appears exactly once")
	vReach("all")
}

// H_C14_deadline lets a send give up at its deadline in any position and then goes on.
//
//verif:prop C14 C24
//verif:reach timedout later stuck recovered
//verif:sched
//verif:bounds PUSH, DEALER, PAIR, ROUTER with 1-2 connections, one of which stalls at any of the writes of a message of 3 frames (by Send or SendMulti); the send gives up after its timeout, any of 1 ns to 5 s, unless the peer recovers before, at any moment up to 10 s; 0-1 further sends while stalled; then the peer recovers or is reset, and 2 more messages are sent
//verif:budget 60 300
func H_C14_deadline() {
	simStart()
	types := []zmq4.SocketType{zmq4.Push, zmq4.Dealer, zmq4.Pair, zmq4.Router}
	t := types[vChoose("type", len(types))]
	to := vDur("timeout", 1, 5*time.Second)
	s := newSocketOf(t, zmq4.WithTimeout(to), zmq4.WithAutomaticReconnect(false))
	mustListen(s, "sim://a")
	np := 1
	if t != zmq4.Router {
		np += vChoose("peers", 2)
	}
	ids := []string{"p", "q"}
	var ps []*rawPeer
	for i := 0; i < np; i++ {
		ps = append(ps, rawDial("a", string(partner(t)), ids[i]))
	}
	out := simAccepted[0]
	multi := vChoose("multi", 2) == 1
	send := func(n byte) error {
		fs := [][]byte{{n}, {n, n}, {n, n, n}}
		if t == zmq4.Router {
			fs = concatFrames([][]byte{[]byte("p")}, fs)
		}
		if multi {
			return s.SendMulti(zmq4.NewMsgFrom(fs...))
		}
		return s.Send(zmq4.NewMsgFrom(fs...))
	}
	vAssert(send(1) == nil, "send succeeds")
	out.wr.mu.Lock()
	out.wr.after = out.nwrite + 1 + vChoose("at", 6)
	out.wr.mu.Unlock()
	ok := map[byte]bool{1: true}
	before := time.Now()
	recovers := vChoose("recovers", 2) == 1
	var recoverAt time.Duration
	if recovers {
		recoverAt = vDur("recoverat", 0, 10*time.Second)
		time.AfterFunc(recoverAt, func() { out.stallWrites(false) })
	}
	err := send(2)
	took := time.Since(before)
	ok[2] = err == nil
	vAssert(took <= to, "a send keeps its deadline")
	if err != nil {
		vReach("timedout")
		vAssert(took == to, "and does not give up before it")
		vAssert(vOr(!recovers, to <= recoverAt), "nor when the peer recovers in time")
	} else if took > 0 {
		vAssert(recovers && took == recoverAt, "and succeeds when the peer recovers")
		vReach("recovered")
	}
	last := byte(2)
	n := 0
	if !recovers {
		n = vChoose("stuck", 2)
	}
	if !vSymbolic() {
		n = 0 // a goroutine waiting for a mutex keeps the replay's virtual clock from advancing
	}
	for i := 0; i < n; i++ {
		last++
		before = time.Now()
		ok[last] = send(last) == nil
		vAssert(time.Since(before) <= to, "a send behind a stalled one keeps its deadline")
		vReach("stuck")
	}
	dead := !recovers && vChoose("dead", 2) == 1
	unreported := dead // no send has failed yet
	for i := byte(2); i <= last; i++ {
		unreported = unreported && ok[i]
	}
	if dead {
		ps[0].breakNow()
	} else {
		out.stallWrites(false)
	}
	vQuiesce()
	for i := 0; i < 2; i++ {
		last++
		if !dead {
			vAssert(send(last) == nil, "the socket is usable after the stall")
			ok[last] = true
			vReach("later")
		} else if np == 2 {
			ok[last] = send(last) == nil
			vAssert(ok[last] || unreported, "the socket is usable with the remaining peer")
			unreported = false
		}
	}
	vQuiesce()
	for i, p := range ps {
		if dead && i == 0 {
			continue
		}
		seen := map[byte]int{}
		for _, m := range p.msgs("every message is contiguous") {
			vAssert(len(m) == 3 && len(m[0]) == 1, "every message is whole")
			n := m[0][0]
			sameFrames(m, [][]byte{{n}, {n, n}, {n, n, n}}, "every message is unaltered")
			seen[n]++
		}
		for n := byte(1); n <= last; n++ {
			vAssert(seen[n] <= 1, "no message twice")
			if ok[n] {
				vAssert(seen[n] == 1, "a message whose send succeeded is delivered")
			}
		}
	}
	s.Close()
}
