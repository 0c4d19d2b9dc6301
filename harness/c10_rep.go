package zzverif

import (
	"time"

	zmq4 "github.com/luxfi/zmq/v4"
)

// symFrames returns n symbolic frames whose lengths are chosen from 0..maxLen.
func symFrames(label string, n, maxLen int) [][]byte {
	fs := [][]byte{}
	for i := 0; i < n; i++ {
		fs = append(fs, vBytes(label, vChoose(label+"len", maxLen+1)))
	}
	return fs
}

// sendVia sends m by Send or SendMulti.
func sendVia(s zmq4.Socket, m zmq4.Msg) error {
	if vChoose("multi", 2) == 1 {
		return s.SendMulti(m)
	}
	return s.Send(m)
}

// splitEnvelope is the reference: everything up to and including the first empty frame.
func splitEnvelope(fs [][]byte) (env, body [][]byte, ok bool) {
	for i, f := range fs {
		if len(f) == 0 {
			return fs[:i+1], fs[i+1:], true
		}
	}
	return nil, nil, false
}

// expectReply checks that the only message p has received is env followed by reply.
func expectReply(p *rawPeer, env, reply [][]byte) {
	ms := p.msgs("replies")
	vAssert(len(ms) == 1, "exactly one reply to the asking peer")
	sameFrames(ms[0], concatFrames(env, reply), "reply with its envelope")
}

func concatFrames(a, b [][]byte) [][]byte {
	return append(append([][]byte{}, a...), b...)
}

func expectNothing(p *rawPeer, label string) {
	vAssert(len(p.msgs(label)) == 0, label)
}

// H_C10_envelope sends one request of any shape, and then another, and replies to them.
//
//verif:prop C10
//verif:reach valid malformed emptybody
//verif:bounds two peers; a request of 1-4 frames (thorough 1-5) of length 0-1 (thorough 0-2) with symbolic contents from the first, one of 1-3 frames from the second, replies of 1-2 frames of length 0-1, by Send or SendMulti
//verif:budget 60 400
func H_C10_envelope() {
	simStart()
	s := newSocketOf(zmq4.Rep, zmq4.WithTimeout(time.Second))
	mustListen(s, "sim://a")
	p := rawDial("a", "REQ", "p")
	q := rawDial("a", "DEALER", "q")
	var asker *rawPeer
	var askerEnv [][]byte
	peers := []*rawPeer{p, q}
	var kept, keptBody [][]byte // a request the application holds on to
	sizes := []int{vParam("frames", 4, 5), 3}
	for i, from := range peers {
		maxLen := 1
		if i == 0 {
			maxLen = vParam("len", 1, 2)
		}
		fs := symFrames("req", 1+vChoose("nreq", sizes[i]), maxLen)
		from.send(fs...)
		vQuiesce()
		m, err := s.Recv()
		env, body, ok := splitEnvelope(fs)
		if ok {
			vReach("valid")
			if len(body) == 0 {
				vReach("emptybody")
			}
			vAssert(err == nil, "a request with a delimiter is received")
			sameFrames(m.Frames, body, "request body")
			kept, keptBody = m.Frames, body
			asker, askerEnv = from, env
		} else {
			vReach("malformed")
			vAssert(err != nil, "a request without a delimiter is an error")
		}
		if asker == nil {
			continue
		}
		reply := symFrames("rep", 1+vChoose("nrep", 2-i), 1)
		err = sendVia(s, zmq4.NewMsgFrom(reply...))
		vAssert(err == nil, "reply is accepted")
		vQuiesce()
		sameFrames(kept, keptBody, "the request stays intact when it is answered")
		expectReply(asker, askerEnv, reply)
		for _, o := range peers {
			if o != asker {
				expectNothing(o, "no other peer gets the reply")
			}
		}
	}
	s.Close()
}

// H_C10_interleaved lets two peers ask at the same time.
//
//verif:prop C10
//verif:reach answered
//verif:sched
//verif:bounds two peers sending two requests each with symbolic bodies and envelopes of 0-1 addresses; every schedule with up to 2 delays (thorough 3); the application answers each request before it takes the next
//verif:budget 60 400
func H_C10_interleaved() {
	simStart()
	s := newSocketOf(zmq4.Rep)
	mustListen(s, "sim://a")
	ps := []*rawPeer{rawDial("a", "REQ", "p"), rawDial("a", "DEALER", "q")}
	const each = 2
	var reqs, bodies [2][][][]byte
	for i := range ps {
		for j := 0; j < each; j++ {
			tag := byte(i*each + j)
			body := [][]byte{{tag}, vBytes("body", 1)}
			var fs [][]byte
			if i == 1 {
				fs = append(fs, append([]byte{tag}, vBytes("addr", 1)...))
			}
			fs = append(fs, nil)
			reqs[i] = append(reqs[i], append(fs, body...))
			bodies[i] = append(bodies[i], body)
		}
	}
	vExplore(vParam("delays", 2, 3))
	for i := range ps {
		go func() {
			for j := 0; j < each; j++ {
				ps[i].send(reqs[i][j]...)
			}
		}()
	}
	next := [2]int{}
	var want [2][][][]byte
	for n := 0; n < 2*each; n++ {
		m, err := s.Recv()
		vAssert(err == nil, "request received")
		vAssert(len(m.Frames) == 2 && len(m.Frames[0]) == 1, "request frames")
		i := int(m.Frames[0][0]) / each
		vAssert(i < 2 && next[i] < each, "a request that was sent and not yet received")
		sameFrames(m.Frames, bodies[i][next[i]], "requests of one peer in order")
		reply := [][]byte{{byte(100 + n)}}
		vAssert(s.Send(zmq4.NewMsgFrom(reply...)) == nil, "reply accepted")
		env, _, _ := splitEnvelope(reqs[i][next[i]])
		want[i] = append(want[i], concatFrames(env, reply))
		next[i]++
	}
	vQuiesce()
	for i, p := range ps {
		got := p.msgs("replies")
		vAssert(len(got) == len(want[i]), "one reply per request to its asker")
		for j := range got {
			sameFrames(got[j], want[i][j], "reply")
		}
	}
	vReach("answered")
	s.Close()
}

// H_C10_gone answers a peer that has left.
//
//verif:prop C10 C17
//verif:reach gone
//verif:sched
//verif:bounds two peers; the first asks, then leaves or is reset before the reply; the second asks before or after; every schedule with up to 2 delays
//verif:budget 60 300
func H_C10_gone() {
	simStart()
	s := newSocketOf(zmq4.Rep, zmq4.WithTimeout(time.Second))
	mustListen(s, "sim://a")
	p := rawDial("a", "REQ", "p")
	q := rawDial("a", "REQ", "q")
	reqP := [][]byte{nil, vBytes("bodyP", 1)}
	reqQ := [][]byte{nil, vBytes("bodyQ", 1)}
	p.send(reqP...)
	m, err := s.Recv()
	vAssert(err == nil, "request received")
	sameFrames(m.Frames, reqP[1:], "request body")
	early := vChoose("early", 2) == 1
	brk := vChoose("reset", 2) == 1
	vExplore(vParam("delays", 2, 3))
	if early {
		q.send(reqQ...)
	}
	if brk {
		p.breakNow()
	} else {
		p.Close()
	}
	s.Send(zmq4.NewMsg([]byte("to p")))
	vQuiesce()
	expectNothing(q, "the reply to a departed peer goes to nobody else")
	if !early {
		q.send(reqQ...)
	}
	m, err = s.Recv()
	vAssert(err == nil, "the other peer's request is received")
	sameFrames(m.Frames, reqQ[1:], "the other peer's request body")
	vAssert(s.Send(zmq4.NewMsg([]byte("to q"))) == nil, "reply accepted")
	vQuiesce()
	expectReply(q, [][]byte{nil}, [][]byte{[]byte("to q")})
	vReach("gone")
	s.Close()
}
