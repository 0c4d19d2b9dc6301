package zzverif

import (
	"bytes"
	"time"

	zmq4 "github.com/luxfi/zmq/v4"
)

// pickID announces an identity of 0-2 bytes; the first byte of a generated identity of a
// nameless peer cannot be predicted, so the peer is then known by what the socket reports.
func pickID(label string) string {
	return vString(label, vChoose(label+"len", 3))
}

// H_C12_address sends messages to identities of connected peers and to other identities.
//
//verif:prop C12
//verif:reach hit miss prefix nobody
//verif:bounds ROUTER with 1-3 peers (DEALER, REQ, ROUTER) whose identities are any distinct strings of 1-2 bytes; a message addressed to any string of 0-3 bytes with 0-2 further symbolic frames of length 0-1, by Send or SendMulti
//verif:budget 60 400
func H_C12_address() {
	simStart()
	s := newSocketOf(zmq4.Router, zmq4.WithTimeout(time.Second))
	mustListen(s, "sim://a")
	np := 1 + vChoose("peers", 3)
	types := []string{"DEALER", "REQ", "ROUTER"}
	var ps []*rawPeer
	var ids []string
	for i := 0; i < np; i++ {
		id := vString("id", 1+vChoose("idlen", 2))
		for _, o := range ids {
			vAssume(o != id)
		}
		ids = append(ids, id)
		ps = append(ps, rawDial("a", types[i], id))
	}
	to := vBytes("to", vChoose("tolen", 4))
	rest := symFrames("rest", vChoose("nrest", 3), 1)
	err := sendVia(s, zmq4.NewMsgFrom(concatFrames([][]byte{to}, rest)...))
	vQuiesce()
	hits := 0
	for i, p := range ps {
		ms := p.msgs("delivered")
		if ids[i] == string(to) {
			hits++
			vReach("hit")
			vAssert(err == nil, "addressed message is sent")
			if len(rest) == 0 {
				continue // a message without frames has no encoding
			}
			vAssert(len(ms) == 1, "the addressed peer gets the message once")
			sameFrames(ms[0], rest, "message without the address")
		} else {
			vReach("miss")
			if bytes.HasPrefix([]byte(ids[i]), to) {
				vReach("prefix")
			}
			vAssert(len(ms) == 0, "no other peer gets the message")
		}
	}
	if hits == 0 {
		vReach("nobody")
	}
	s.Close()
}

// H_C12_label receives from named and nameless peers and answers them by their label.
//
//verif:prop C12
//verif:reach named nameless
//verif:bounds ROUTER with 2 peers whose identities are any distinct strings of 0-2 bytes or both empty; a message of 1-2 symbolic frames of length 0-1 from each, in either order, answered under the label received; a third peer replaces one of them
//verif:budget 60 400
func H_C12_label() {
	simStart()
	s := newSocketOf(zmq4.Router, zmq4.WithTimeout(time.Second))
	mustListen(s, "sim://a")
	var ps []*rawPeer
	var ids []string
	var labels [][]byte
	n := vParam("peers", 2, 3)
	for i := 0; i < n; i++ {
		id := pickID("id")
		for _, o := range ids {
			vAssume(id == "" || o != id)
		}
		ids = append(ids, id)
		ps = append(ps, rawDial("a", []string{"DEALER", "REQ", "DEALER"}[i], id))
	}
	order := vChoose("order", 2)
	for k := range ps {
		i := k
		if order == 1 {
			i = n - 1 - k
		}
		fs := symFrames("body", 1+vChoose("nbody", 2), 1)
		ps[i].send(fs...)
		m, err := s.Recv()
		vAssert(err == nil, "message received")
		vAssert(len(m.Frames) == len(fs)+1, "label and frames")
		lab := m.Frames[0]
		sameFrames(m.Frames[1:], fs, "labelled message")
		if ids[i] != "" {
			vReach("named")
			vAssertSame(lab, []byte(ids[i]), "label is the announced identity")
		} else {
			vReach("nameless")
			vAssert(len(lab) > 0, "a nameless peer gets an identity")
		}
		for j := range labels {
			vAssert(!bytes.Equal(labels[j], lab), "labels are unique to a connection")
		}
		labels = append(labels, append([]byte(nil), lab...))
		reply := [][]byte{vBytes("reply", 1)}
		vAssert(s.Send(zmq4.NewMsgFrom(concatFrames([][]byte{lab}, reply)...)) == nil, "answer is sent")
		vQuiesce()
		for j, p := range ps {
			ms := p.msgs("answers")
			if j == i {
				vAssert(len(ms) == 1, "sending back reaches the sender")
				sameFrames(ms[0], reply, "answer")
			} else {
				vAssert(len(ms) == 0, "and nobody else")
			}
		}
	}
	s.Close()
}

// H_C12_interleaved receives from two peers at once.
//
//verif:prop C12 C13
//verif:reach all
//verif:sched
//verif:bounds ROUTER with 2 peers sending 2 messages each at the same time; every schedule with up to 2 delays (thorough 3); each message answered at once
//verif:budget 60 400
func H_C12_interleaved() {
	simStart()
	s := newSocketOf(zmq4.Router, zmq4.WithTimeout(time.Second))
	mustListen(s, "sim://a")
	ids := []string{"p", "pq"}
	ps := []*rawPeer{rawDial("a", "DEALER", ids[0]), rawDial("a", "REQ", ids[1])}
	var sent [2][][][]byte
	for i := range ps {
		for j := 0; j < 2; j++ {
			sent[i] = append(sent[i], [][]byte{{byte(i), byte(j)}, vBytes("body", 1)})
		}
	}
	vExplore(vParam("delays", 2, 3))
	for i := range ps {
		go func() {
			for _, m := range sent[i] {
				ps[i].send(m...)
			}
		}()
	}
	next := [2]int{}
	for n := 0; n < 4; n++ {
		m, err := s.Recv()
		vAssert(err == nil, "message received")
		vAssert(len(m.Frames) == 3 && len(m.Frames[1]) == 2, "label and frames")
		i := int(m.Frames[1][0])
		vAssert(next[i] < 2, "no message twice")
		vAssertSame(m.Frames[0], []byte(ids[i]), "labelled with its sender")
		sameFrames(m.Frames[1:], sent[i][next[i]], "messages of one peer in order")
		next[i]++
		vAssert(s.Send(zmq4.NewMsgFrom(m.Frames[0], m.Frames[1])) == nil, "answer is sent")
	}
	vQuiesce()
	for i, p := range ps {
		ms := p.msgs("answers")
		vAssert(len(ms) == 2, "one answer per message")
		for j := range ms {
			sameFrames(ms[j], sent[i][j][:1], "answer")
		}
	}
	vReach("all")
	s.Close()
}

// H_C12_arrival receives from a peer that starts to talk before its connection is set up.
//
//verif:prop C12
//verif:reach named nameless
//verif:sched
//verif:bounds ROUTER with 2 peers, the second with or without an identity and with a message of 1 symbolic byte sent along with its handshake; every schedule of its arrival with up to 2 delays (thorough 3)
//verif:budget 60 300
func H_C12_arrival() {
	simStart()
	vDeadlockLabel("the message never arrives")
	s := newSocketOf(zmq4.Router, zmq4.WithTimeout(time.Second))
	mustListen(s, "sim://a")
	p := rawDial("a", "DEALER", "p")
	p.send(nil)
	m, err := s.Recv()
	vAssert(err == nil && len(m.Frames) == 2 && string(m.Frames[0]) == "p", "message of the first peer")
	id := []string{"", "q"}[vChoose("id", 2)]
	body := vBytes("body", 1)
	vExplore(vParam("delays", 2, 3))
	c, err := simDial("sim", "a")
	vAssert(err == nil, "connected")
	q := &rawPeer{end: c.(*end)}
	q.Write(peerHello("NULL", false, "DEALER", id))
	q.send(body)
	m, err = s.Recv()
	vAssert(err == nil && len(m.Frames) == 2, "message of the second peer")
	lab := m.Frames[0]
	sameFrames(m.Frames[1:], [][]byte{body}, "body")
	if id != "" {
		vAssert(string(lab) == id, "label is the announced identity")
		vReach("named")
	} else {
		vAssert(len(lab) > 0 && string(lab) != "p", "a nameless peer gets an identity of its own")
		vReach("nameless")
	}
	vQuiesce()
	vAssert(s.Send(zmq4.NewMsgFrom(lab, body)) == nil, "answer is sent")
	vQuiesce()
	q.got = skipHello(q.drain())
	ms := q.msgs("answers")
	vAssert(len(ms) == 1, "sending back reaches the sender")
	sameFrames(ms[0], [][]byte{body}, "answer")
	vAssert(len(p.msgs("answers")) == 0, "and nobody else")
	s.Close()
}
