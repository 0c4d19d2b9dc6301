package zzverif

import (
	"context"
	"time"

	zmq4 "github.com/luxfi/zmq/v4"
)

// pubPeer is a publisher played by the harness.
type pubPeer struct {
	*rawPeer
	set topicSet
}

// update applies the subscription messages received so far.
func (p *pubPeer) update() {
	for _, m := range p.msgs("subscriptions") {
		vAssert(len(m) == 1 && len(m[0]) >= 1, "a subscription message is one frame")
		switch m[0][0] {
		case 1:
			p.set = p.set.add(m[0][1:])
		case 0:
			p.set = p.set.del(m[0][1:])
		default:
			vFail("a SUB socket sends only subscription messages")
		}
	}
}

func sameSet(a, b topicSet, label string) {
	for _, x := range a {
		vAssert(b.has(x), label+" (nothing left over)")
	}
	for _, x := range b {
		vAssert(a.has(x), label+" (nothing missing)")
	}
}

// greetAll makes every publisher accept whoever dials it.
func greetAll() {
	simOnConn = func(cli, srv *end) { srv.Write(peerHello("NULL", true, "PUB", "")) }
}

// lastPub returns the publisher end of the n-th connection, past its handshake.
func pubConn(n int) *pubPeer {
	vQuiesce()
	e := simAccepted[n]
	b := e.drain()
	fs, _ := parseWire(b[64:])
	vAssert(len(fs) > 0 && fs[0].flags == 4, "READY command")
	p := &pubPeer{rawPeer: &rawPeer{end: e}}
	p.got = b[64+2+len(fs[0].body):]
	return p
}

// H_C09_order runs any order of subscriptions and connections.
//
//verif:prop C09
//verif:reach subscribed unsubscribed second reconnected
//verif:bounds SUB; 4 operations (thorough 5) out of subscribe, unsubscribe (topics of 0-1 bytes, thorough 0-2), dial another publisher, accept another publisher, lose and re-establish a dialled connection; at most 3 publishers; the publishers' view compared after every operation
//verif:budget 60 500
func H_C09_order() {
	simStart()
	s := newSocketOf(zmq4.Sub, zmq4.WithTimeout(time.Second))
	mustListen(s, "sim://sub")
	greetAll()
	acceptRaw("p")
	var set topicSet
	var pubs []*pubPeer
	var dialled []bool
	tl := vParam("topiclen", 1, 2)
	for k, n := 0, vParam("ops", 4, 5); k < n; k++ {
		switch vChoose("op", 5) {
		case 0:
			t := vBytes("sub", vChoose("sublen", tl+1))
			vAssert(s.SetOption(zmq4.OptionSubscribe, string(t)) == nil, "subscribing succeeds")
			set = set.add(t)
			vReach("subscribed")
		case 1:
			vAssume(k > 0)
			t := vBytes("unsub", vChoose("unsublen", tl+1))
			vAssert(s.SetOption(zmq4.OptionUnsubscribe, string(t)) == nil, "unsubscribing succeeds")
			if set.has(t) {
				vReach("unsubscribed")
			}
			set = set.del(t)
		case 2:
			vAssume(len(pubs) < 3)
			i := len(simAccepted)
			mustDial(s, "sim://p")
			pubs = append(pubs, pubConn(i))
			dialled = append(dialled, true)
			if len(pubs) == 2 {
				vReach("second")
			}
		case 3:
			vAssume(len(pubs) < 3)
			simOnConn = nil
			p := &pubPeer{}
			c, err := simDial("sim", "sub")
			vAssert(err == nil, "raw dial")
			e := c.(*end)
			e.Write(peerHello("NULL", false, "XPUB", ""))
			vQuiesce()
			greetAll()
			b := e.drain()
			fs, _ := parseWire(b[64:])
			vAssert(len(fs) > 0 && fs[0].flags == 4, "READY command")
			p.rawPeer = &rawPeer{end: e}
			p.got = b[64+2+len(fs[0].body):]
			pubs = append(pubs, p)
			dialled = append(dialled, false)
		case 4:
			i := -1
			for j := range pubs {
				if dialled[j] {
					i = j
				}
			}
			vAssume(i >= 0)
			c := len(simAccepted)
			pubs[i].Close()
			vQuiesce()
			vAssert(len(simAccepted) == c+1, "the dialled connection is re-established once")
			pubs[i] = pubConn(c)
			vReach("reconnected")
		}
		vQuiesce()
		for _, p := range pubs {
			p.update()
			sameSet(p.set, set, "the publisher's view of the subscriptions")
		}
		checkTopics(s.(zmq4.Topics).Topics(), set)
	}
	s.Close()
}

// H_C09_race subscribes and unsubscribes while publishers connect.
//
//verif:prop C09
//verif:reach done
//verif:sched
//verif:bounds SUB with one topic subscribed; one goroutine subscribes to, unsubscribes from or re-subscribes to topics (3 operations) while another dials a publisher and a third is connected already and may send traffic; every schedule with up to 2 delays (thorough 3)
//verif:budget 90 600
func H_C09_race() {
	simStart()
	s := newSocketOf(zmq4.Sub, zmq4.WithTimeout(time.Second))
	greetAll()
	acceptRaw("p")
	var set topicSet
	set = set.add([]byte("a"))
	vAssert(s.SetOption(zmq4.OptionSubscribe, "a") == nil, "subscribing succeeds")
	mustDial(s, "sim://p")
	old := pubConn(0)
	plan := vChoose("plan", 3)
	traffic := vChoose("traffic", 2) == 1
	vExplore(vParam("delays", 2, 3))
	done := make(chan bool, 2)
	go func() {
		step := func(sub bool, t string) {
			name := zmq4.OptionUnsubscribe
			if sub {
				name = zmq4.OptionSubscribe
			}
			vAssert(s.SetOption(name, t) == nil, "changing subscriptions succeeds")
		}
		switch plan {
		case 0:
			step(false, "a")
			step(true, "b")
		case 1:
			step(true, "b")
			step(false, "a")
			step(false, "b")
		case 2:
			step(false, "a")
			step(true, "a")
		}
		done <- true
	}()
	go func() {
		vAssert(s.Dial("sim://p") == nil, "dial succeeds")
		done <- true
	}()
	if traffic {
		old.send([]byte("a1"))
	}
	vDeadlockLabel("subscribing and connecting do not block each other")
	<-done
	<-done
	switch plan {
	case 0:
		set = topicSet{[]byte("b")}
	case 1:
		set = nil
	}
	fresh := pubConn(1)
	for _, p := range []*pubPeer{old, fresh} {
		p.update()
		sameSet(p.set, set, "the publisher's view of the subscriptions")
	}
	checkTopics(s.(zmq4.Topics).Topics(), set)
	if traffic {
		r, ok := tryRecv(recvAsync(s))
		vAssert(ok && r.err == nil, "traffic is received")
		sameFrames(r.msg.Frames, [][]byte{[]byte("a1")}, "traffic")
	}
	vReach("done")
	s.Close()
}

// H_C09_value sets options with unsuitable names and values.
//
//verif:prop C09
//verif:reach refused
//verif:bounds a SUB socket connected to a publisher, subscribed to one topic or none; an option of 3 names with a value of 5 types
func H_C09_value() {
	simStart()
	l := acceptRaw("pub")
	sub := zmq4.NewSub(context.Background())
	p := dialToRaw(sub, l, "PUB", "")
	topics := 0
	if vChoose("before", 2) == 1 {
		vAssert(sub.SetOption(zmq4.OptionSubscribe, "t") == nil, "subscribes")
		topics = 1
	}
	vQuiesce()
	p.msgs("subscription")
	name := []string{zmq4.OptionSubscribe, zmq4.OptionUnsubscribe, "other"}[vChoose("name", 3)]
	value := []any{nil, 1, []byte("t"), true, 1.5, "t"}[vChoose("value", 6)]
	if _, ok := value.(string); ok && name != "other" {
		return
	}
	err := sub.SetOption(name, value)
	vQuiesce()
	vAssert(err != nil, "an unsuitable option is refused")
	vAssert(len(p.msgs("nothing")) == 0, "and nothing is announced")
	vAssert(len(sub.(zmq4.Topics).Topics()) == topics, "and the topics are as before")
	vReach("refused")
	sub.Close()
}
