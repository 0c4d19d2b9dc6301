package zzverif

import (
	"bytes"
	"time"

	zmq4 "github.com/luxfi/zmq/v4"
)

// topicSet is the reference: the set of subscriptions of one subscriber.
type topicSet [][]byte

func (t topicSet) has(k []byte) bool {
	for _, x := range t {
		if bytes.Equal(x, k) {
			return true
		}
	}
	return false
}

func (t topicSet) add(k []byte) topicSet {
	if t.has(k) {
		return t
	}
	return append(append(topicSet{}, t...), k)
}

func (t topicSet) del(k []byte) topicSet {
	var r topicSet
	for _, x := range t {
		if !bytes.Equal(x, k) {
			r = append(r, x)
		}
	}
	return r
}

func (t topicSet) matches(frame []byte) bool {
	for _, x := range t {
		if bytes.HasPrefix(frame, x) {
			return true
		}
	}
	return false
}

// checkTopics compares the reported topics with the sorted union of the sets.
func checkTopics(got []string, sets ...topicSet) {
	var u topicSet
	for _, s := range sets {
		for _, x := range s {
			u = u.add(x)
		}
	}
	vAssert(len(got) == len(u), "number of topics reported")
	for i, g := range got {
		vAssert(u.has([]byte(g)), "reported topic is subscribed")
		if i > 0 {
			vAssert(got[i-1] < g, "topics are sorted without duplicates")
		}
	}
}

func pubOf(k int, opts ...zmq4.Option) zmq4.Socket {
	if k == 0 {
		return newSocketOf(zmq4.Pub, opts...)
	}
	return newSocketOf(zmq4.XPub, opts...)
}

// H_C07_history runs a history of subscriptions and publications.
//
//verif:prop C07
//verif:reach delivered withheld unsubscribed
//verif:bounds PUB or XPUB with one subscriber; 4 operations (thorough 5), each subscribing to or unsubscribing from any topic of 0-1 bytes (thorough 0-2) or publishing a message with a first frame of 0-2 bytes and 0-1 further frames, by Send or SendMulti
//verif:budget 60 500
func H_C07_history() {
	simStart()
	s := pubOf(vChoose("xpub", 2), zmq4.WithTimeout(time.Second))
	mustListen(s, "sim://a")
	p := rawDial("a", "SUB", "")
	var set topicSet
	tl := vParam("topiclen", 1, 2)
	multi := vChoose("multi", 2) == 1
	for k, n := 0, vParam("ops", 4, 5); k < n; k++ {
		switch vChoose("op", 3) {
		case 0:
			t := vBytes("sub", vChoose("sublen", tl+1))
			p.send(append([]byte{1}, t...))
			set = set.add(t)
		case 1:
			vAssume(k > 0)
			t := vBytes("unsub", vChoose("unsublen", tl+1))
			if set.has(t) {
				vReach("unsubscribed")
			}
			p.send(append([]byte{0}, t...))
			set = set.del(t)
		case 2:
			fs := [][]byte{vBytes("first", vChoose("firstlen", tl+2))}
			if multi {
				fs = append(fs, vBytes("more", 1))
			}
			var err error
			if multi {
				err = s.SendMulti(zmq4.NewMsgFrom(fs...))
			} else {
				err = s.Send(zmq4.NewMsgFrom(fs...))
			}
			vAssert(err == nil, "publishing succeeds")
			vQuiesce()
			ms := p.msgs("publications")
			if set.matches(fs[0]) {
				vReach("delivered")
				vAssert(len(ms) == 1, "a matching message is delivered exactly once")
				sameFrames(ms[0], fs, "published message")
			} else {
				vReach("withheld")
				vAssert(len(ms) == 0, "a message that does not match is withheld")
			}
			continue
		}
		vQuiesce()
		checkTopics(s.(zmq4.Topics).Topics(), set)
		for i, x := range s.(zmq4.Topics).Topics() {
			vObsInt("topiclen", len(x)+100*i)
		}
	}
	s.Close()
}

// H_C07_several has two subscribers with overlapping topics, one of which leaves.
//
//verif:prop C07
//verif:reach both one left
//verif:bounds PUB or XPUB with two subscribers (SUB, XSUB), each subscribing to 1-2 and unsubscribing from 0-1 topics of 0-1 bytes; one may leave; 2 publications of 1-2 bytes; topics reported at every step
//verif:budget 60 400
func H_C07_several() {
	simStart()
	s := pubOf(vChoose("xpub", 2), zmq4.WithTimeout(time.Second))
	mustListen(s, "sim://a")
	ps := []*rawPeer{rawDial("a", "SUB", ""), rawDial("a", "XSUB", "")}
	var sets [2]topicSet
	for i, p := range ps {
		for j, n := 0, 1+vChoose("nsub", 2); j < n; j++ {
			t := vBytes("sub", vChoose("sublen", 2))
			p.send(append([]byte{1}, t...))
			sets[i] = sets[i].add(t)
		}
		if i == 0 && vChoose("unsub", 2) == 1 {
			t := vBytes("unsub", vChoose("unsublen", 2))
			p.send(append([]byte{0}, t...))
			sets[i] = sets[i].del(t)
		}
	}
	vQuiesce()
	checkTopics(s.(zmq4.Topics).Topics(), sets[:]...)
	gone := -1
	for k := 0; k < 2; k++ {
		msg := vBytes("msg", 1+k)
		vAssert(s.Send(zmq4.NewMsg(msg)) == nil, "publishing succeeds")
		vQuiesce()
		n := 0
		for i, p := range ps {
			if i == gone {
				continue
			}
			ms := p.msgs("publications")
			if sets[i].matches(msg) {
				n++
				vAssert(len(ms) == 1, "a matching message is delivered exactly once")
				sameFrames(ms[0], [][]byte{msg}, "published message")
			} else {
				vAssert(len(ms) == 0, "a message that does not match is withheld")
			}
		}
		if n == 2 {
			vReach("both")
		} else if n == 1 {
			vReach("one")
		}
		if k == 0 && vChoose("leave", 2) == 1 {
			gone = vChoose("who", 2)
			ps[gone].Close()
			sets[gone] = nil
			vQuiesce()
			vReach("left")
			checkTopics(s.(zmq4.Topics).Topics(), sets[:]...)
		}
	}
	s.Close()
}

// H_C07_junk mixes other traffic from the subscriber with its subscriptions.
//
//verif:prop C07 C03
//verif:reach delivered xpub
//verif:bounds PUB or XPUB whose application does not receive (PUB) or receives (XPUB); 0-13 messages that are no subscriptions (empty, two-frame, other first byte) before a subscription, then a publication
//verif:budget 40 200
func H_C07_junk() {
	simStart()
	x := vChoose("xpub", 2)
	s := pubOf(x, zmq4.WithTimeout(time.Second))
	mustListen(s, "sim://a")
	p := rawDial("a", "SUB", "")
	n := []int{0, 1, 10, 11, 13}[vChoose("count", 5)]
	kind := vChoose("kind", 3)
	var junk [][]byte
	switch kind {
	case 0:
		junk = [][]byte{nil}
	case 1:
		junk = [][]byte{{1, 'a'}, vBytes("second", 1)}
	case 2:
		b := vBytes("other", 2)
		vAssume(b[0] > 1)
		junk = [][]byte{b}
	}
	for i := 0; i < n; i++ {
		p.send(junk...)
		if x == 1 {
			m, err := s.Recv()
			vAssert(err == nil, "XPUB hands over other messages")
			sameFrames(m.Frames, junk, "other message")
			vReach("xpub")
		}
	}
	t := vBytes("topic", 1)
	p.send(append([]byte{1}, t...))
	vQuiesce()
	checkTopics(s.(zmq4.Topics).Topics(), topicSet{t})
	msg := vBytes("msg", 2)
	vAssert(s.Send(zmq4.NewMsg(msg)) == nil, "publishing succeeds")
	vQuiesce()
	ms := p.msgs("publications")
	if msg[0] == t[0] {
		vReach("delivered")
		vAssert(len(ms) == 1, "a matching message is delivered exactly once")
	} else {
		vAssert(len(ms) == 0, "a message that does not match is withheld")
	}
	s.Close()
}

// H_C07_endtoend publishes to a SUB socket that subscribes through its options.
//
//verif:prop C07 C09
//verif:reach delivered withheld
//verif:bounds PUB or XPUB and one SUB socket; subscribe to 1-2 topics and unsubscribe from 0-1 (0-1 bytes each) before or after dialling; one publication of 0-2 bytes
//verif:budget 60 300
func H_C07_endtoend() {
	simStart()
	s := pubOf(vChoose("xpub", 2), zmq4.WithTimeout(time.Second))
	mustListen(s, "sim://a")
	sub := newSocketOf(zmq4.Sub)
	var set topicSet
	when := vChoose("dial", 3)
	step := func(k int) {
		if when == k {
			mustDial(sub, "sim://a")
			vQuiesce()
		}
	}
	step(0)
	t := vBytes("sub", vChoose("sublen", 2))
	vAssert(sub.SetOption(zmq4.OptionSubscribe, string(t)) == nil, "subscribe")
	set = set.add(t)
	step(1)
	if vChoose("second", 2) == 1 {
		t := vBytes("sub2", vChoose("sub2len", 2))
		vAssert(sub.SetOption(zmq4.OptionSubscribe, string(t)) == nil, "subscribe")
		set = set.add(t)
	}
	if vChoose("unsub", 2) == 1 {
		t := vBytes("unsub", vChoose("unsublen", 2))
		vAssert(sub.SetOption(zmq4.OptionUnsubscribe, string(t)) == nil, "unsubscribe")
		set = set.del(t)
	}
	step(2)
	vQuiesce()
	checkTopics(sub.(zmq4.Topics).Topics(), set)
	checkTopics(s.(zmq4.Topics).Topics(), set)
	msg := vBytes("msg", vChoose("msglen", 3))
	vAssert(s.Send(zmq4.NewMsg(msg)) == nil, "publishing succeeds")
	r, ok := tryRecv(recvAsync(sub))
	if set.matches(msg) {
		vReach("delivered")
		vAssert(ok && r.err == nil, "a matching message is received")
		sameFrames(r.msg.Frames, [][]byte{msg}, "published message")
	} else {
		vReach("withheld")
		vAssert(!ok, "a message that does not match is withheld")
	}
	sub.Close()
	s.Close()
}
