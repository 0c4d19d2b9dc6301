package zzverif

import (
	"time"

	zmq4 "github.com/luxfi/zmq/v4"
)

// H_C11_failover sends requests over peers some of which fail.
//
//verif:prop C11
//verif:reach failover none stripped
//verif:bounds REQ with 1-3 peers, any subset of which fails at the first write from any one of the requests on; 3 requests (thorough 4), one of the first two (thorough: any) of 1-2 frames of length 0-1 with symbolic contents and a reply of 1-2 such frames, by Send or SendMulti
//verif:budget 60 400
func H_C11_failover() {
	simStart()
	s := newSocketOf(zmq4.Req, zmq4.WithAutomaticReconnect(false), zmq4.WithTimeout(time.Second))
	np := 1 + vChoose("peers", 3)
	nreq := vParam("requests", 3, 4)
	shaped := vChoose("shaped", vParam("shapes", 2, 4))
	var ps []*rawPeer
	var out []*end // the socket's end of each connection
	var failFrom []int
	for i := 0; i < np; i++ {
		l := acceptRaw(string(rune('a' + i)))
		p := dialToRaw(s, l, "REP", "")
		ps = append(ps, p)
		out = append(out, simDialed[len(simDialed)-1])
		failFrom = append(failFrom, vChoose("failfrom", nreq+1))
	}
	live := make([]bool, np)
	for i := range live {
		live[i] = true
	}
	last := -1
	for r := 0; r < nreq; r++ {
		nlive := 0
		for i := range ps {
			if failFrom[i] == r {
				out[i].failWrite = 1
				live[i] = false
			}
			if live[i] {
				nlive++
			}
		}
		req := [][]byte{{byte(r)}}
		var err error
		if r == shaped {
			req = symFrames("req", 1+vChoose("nreq", 2), 1)
			err = sendVia(s, zmq4.NewMsgFrom(req...))
		} else {
			err = s.Send(zmq4.NewMsgFrom(req...))
		}
		vQuiesce()
		if nlive == 0 {
			vReach("none")
			vAssert(err != nil, "an error when no peer accepts the request")
			_, err = s.Recv()
			vAssert(err != nil, "receiving without an outstanding peer is an error")
			continue
		}
		vAssert(err == nil, "a live peer accepts the request")
		to := -1
		for i, p := range ps {
			ms := p.msgs("requests")
			if len(ms) == 0 {
				continue
			}
			vAssert(to < 0 && len(ms) == 1, "the request goes to exactly one peer")
			vAssert(live[i], "to a live one")
			sameFrames(ms[0], concatFrames([][]byte{nil}, req), "delimiter and request")
			to = i
		}
		vAssert(to >= 0, "the request reaches a peer")
		if last >= 0 {
			// the next live one in turn
			k := last
			for {
				k = (k + 1) % np
				if live[k] {
					break
				}
			}
			if nlive < np && np > 1 {
				vReach("failover")
			}
			vAssert(to == k, "consecutive requests take turns over the live peers")
		}
		last = to
		// the others send something too, which must not be taken for the answer
		for i, p := range ps {
			if i != to && live[i] && r+1 == nreq {
				p.send(nil, []byte("stray"))
			}
		}
		rep := [][]byte{{byte(r)}}
		if r == shaped {
			rep = symFrames("rep", 1+vChoose("nrep", 2), 1)
		}
		ps[to].send(concatFrames([][]byte{nil}, rep)...)
		m, err := s.Recv()
		vAssert(err == nil, "reply received")
		sameFrames(m.Frames, rep, "reply with the delimiter stripped")
		vReach("stripped")
	}
	s.Close()
}

// H_C11_lost loses the peer that holds the request before it answers.
//
//verif:prop C11 C17
//verif:reach lost early none other before
//verif:sched
//verif:bounds REQ with 1-2 peers; the peer that got the request closes, resets, or closes in the middle of its answer (or it is another peer that closes or resets), before or after the receive starts; every schedule with up to 2 delays (thorough 3); then another request and its answer
//verif:budget 60 300
func H_C11_lost() {
	simStart()
	s := newSocketOf(zmq4.Req, zmq4.WithAutomaticReconnect(false), zmq4.WithTimeout(time.Second))
	_, err := s.Recv()
	vAssert(err != nil, "receiving before any request is an error")
	vReach("early")
	np := 1 + vChoose("peers", 2)
	var ps []*rawPeer
	for i := 0; i < np; i++ {
		ps = append(ps, dialToRaw(s, acceptRaw(string(rune('a'+i))), "REP", ""))
	}
	if np == 2 && vChoose("before", 2) == 1 { // the peer whose turn it is has left already
		vExplore(vParam("delays", 2, 3))
		ps[0].breakNow()
		vAssert(s.Send(zmq4.NewMsg(vBytes("req", 1))) == nil, "the request goes to the peer that is there")
		ps[1].send(nil, []byte("answer"))
		if vChoose("settle", 2) == 1 {
			vQuiesce()
		}
		vDeadlockLabel("the answer never arrives")
		m, err := s.Recv()
		vAssert(err == nil, "the answer of the peer that got the request is received")
		sameFrames(m.Frames, [][]byte{[]byte("answer")}, "answer")
		vReach("before")
		s.Close()
		return
	}
	vAssert(s.Send(zmq4.NewMsg(vBytes("req", 1))) == nil, "request accepted")
	vQuiesce()
	holder := -1
	for i, p := range ps {
		if len(p.msgs("requests")) > 0 {
			holder = i
		}
	}
	vAssert(holder >= 0, "the request reaches a peer")
	if np == 2 && vChoose("other", 2) == 1 { // it is the other peer that leaves
		vExplore(vParam("delays", 2, 3))
		if vChoose("reset", 2) == 1 {
			ps[1-holder].breakNow()
		} else {
			ps[1-holder].Close()
		}
		if vChoose("settle", 2) == 1 {
			vQuiesce()
		}
		ans := vBytes("answer", 1)
		ps[holder].send(nil, ans)
		vDeadlockLabel("the answer never arrives")
		m, err := s.Recv()
		vAssert(err == nil, "the answer arrives although another peer has left")
		sameFrames(m.Frames, [][]byte{ans}, "answer")
		vReach("other")
		s.Close()
		return
	}
	how := vChoose("how", 3)
	vExplore(vParam("delays", 2, 3))
	c := recvAsync(s)
	switch how {
	case 0:
		ps[holder].Close()
	case 1:
		ps[holder].breakNow()
	case 2:
		ps[holder].Write([]byte{1, 0, 0, 5, 'x'})
		ps[holder].Close()
	}
	vDeadlockLabel("receive ends when the peer that got the request leaves")
	r := <-c
	vAssert(r.err != nil, "no reply is invented")
	vReach("lost")
	vQuiesce()
	req := vBytes("req2", 1)
	err = s.Send(zmq4.NewMsg(req))
	if np == 1 {
		vReach("none")
		vAssert(err != nil, "an error when no peer is left")
		_, err = s.Recv()
		vAssert(err != nil, "receiving without an outstanding peer is an error")
		return
	}
	vAssert(err == nil, "the remaining peer accepts the request")
	vQuiesce()
	o := ps[1-holder]
	ms := o.msgs("requests")
	vAssert(len(ms) == 1, "the remaining peer gets the request")
	sameFrames(ms[0], [][]byte{nil, req}, "delimiter and request")
	o.send(nil, []byte("answer"))
	m, err := s.Recv()
	vAssert(err == nil, "its answer is received")
	sameFrames(m.Frames, [][]byte{[]byte("answer")}, "answer")
	s.Close()
}
