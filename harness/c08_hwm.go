package zzverif

import (
	"time"

	zmq4 "github.com/luxfi/zmq/v4"
)

func subscribeAll(p *rawPeer) {
	p.send([]byte{1})
	vQuiesce()
}

// publish sends one numbered message and checks that nothing was waited for.
func publish(s zmq4.Socket, n int, extra ...[]byte) {
	before := time.Now()
	err := s.Send(zmq4.NewMsgFrom(append([][]byte{{'m', byte(n)}}, extra...)...))
	vAssert(err == nil, "publishing succeeds")
	vAssert(time.Now().Equal(before), "publishing waits for nobody")
}

// sequence checks that ms are numbered messages in increasing order and returns the numbers.
func sequence(ms [][][]byte, label string) []int {
	var ns []int
	for _, m := range ms {
		vAssert(len(m) > 0 && len(m[0]) == 2 && m[0][0] == 'm', label+": a published message")
		k := int(m[0][1])
		vAssert(len(ns) == 0 || ns[len(ns)-1] < k, label+": in publication order without duplicates")
		ns = append(ns, k)
	}
	return ns
}

// H_C08_hwm publishes past the high-water mark of a stalled subscriber.
//
//verif:prop C08
//verif:reach lost kept vanished
//verif:bounds PUB with a high-water mark of 0-4 or the default of 1000, one stalled and one responsive subscriber arriving in either order; 0 to 9 messages while stalled; then the stalled one recovers, leaves or is reset; then 2 more messages; one-frame and two-frame messages
//verif:budget 40 200
func H_C08_hwm() {
	simStart()
	s := newSocketOf(zmq4.Pub, zmq4.WithAutomaticReconnect(false))
	hwm := []int{0, 1, 2, 3, 4, 1000}[vChoose("hwm", 6)]
	if hwm != 1000 {
		vAssert(s.SetOption(zmq4.OptionHWM, hwm) == nil, "high-water mark set")
	}
	mustListen(s, "sim://a")
	firstSlow := vChoose("order", 2) == 0
	a := rawDial("a", "SUB", "a")
	b := rawDial("a", "SUB", "b")
	slow, fast := a, b
	slowEnd := simAccepted[0]
	if !firstSlow {
		slow, fast = b, a
		slowEnd = simAccepted[1]
	}
	subscribeAll(a)
	subscribeAll(b)
	slowEnd.stallWrites(true)
	var extra [][]byte
	if vChoose("frames", 2) == 1 {
		extra = [][]byte{vBytes("extra", 1)}
	}
	n := vChoose("count", 10)
	for i := 0; i < n; i++ {
		publish(s, i, extra...)
		vQuiesce()
		// a responsive subscriber is within any mark of at least 1
		ms := fast.msgs("responsive subscriber")
		if hwm > 0 {
			vAssert(len(ms) == 1, "the responsive subscriber misses nothing")
		}
		for _, m := range ms {
			vAssert(len(m[0]) == 2 && int(m[0][1]) == i, "the responsive subscriber gets the current message")
			sameFrames(m[1:], extra, "further frames")
		}
	}
	switch vChoose("then", 3) {
	case 0:
		slowEnd.stallWrites(false)
		vQuiesce()
		got := sequence(slow.msgs("stalled subscriber"), "stalled subscriber")
		for i := 0; i < n && i < hwm; i++ {
			vAssert(i < len(got) && got[i] == i, "messages within the high-water mark are kept")
		}
		if n <= hwm {
			vReach("kept")
		} else if len(got) < n {
			vReach("lost")
		}
		vAssert(hwm == 1000 || len(got) <= 2*hwm+2, "the high-water mark is in force")
	case 1:
		slow.Close()
		vReach("vanished")
	case 2:
		slow.breakNow()
	}
	vQuiesce()
	for i := 0; i < 2; i++ {
		publish(s, 50+i)
		vQuiesce()
		ms := fast.msgs("responsive subscriber")
		vAssert(hwm == 0 || len(ms) == 1, "the responsive subscriber misses nothing afterwards")
	}
	s.Close()
}

// H_C08_schedules publishes while subscribers come and go.
//
//verif:prop C08 C07
//verif:reach done
//verif:sched
//verif:bounds PUB (quick) or PUB and XPUB (thorough) with one subscriber that stays, one that leaves or is reset while 3 messages are published, and one that arrives and subscribes meanwhile; every schedule with up to 2 delays (thorough 3)
//verif:budget 90 500
func H_C08_schedules() {
	simStart()
	s := pubOf(vChoose("xpub", vParam("types", 1, 2)), zmq4.WithAutomaticReconnect(false))
	mustListen(s, "sim://a")
	stay := rawDial("a", "SUB", "stay")
	leave := rawDial("a", "SUB", "leave")
	subscribeAll(stay)
	subscribeAll(leave)
	how := vChoose("how", 4)
	vExplore(vParam("delays", 2, 3))
	done := make(chan *end, 1)
	go func() {
		switch how {
		case 0:
			leave.Close()
		case 1:
			leave.breakNow()
		case 2:
			leave.send([]byte{0})
		case 3:
			c, err := simDial("sim", "a")
			vAssert(err == nil, "raw dial")
			c.Write(peerHello("NULL", false, "SUB", "new"))
			c.Write(msgBytes([]byte{1}))
			done <- c.(*end)
			return
		}
		done <- nil
	}()
	vDeadlockLabel("publishing is never blocked by subscribers")
	for i := 0; i < 3; i++ {
		publish(s, i)
	}
	e := <-done
	vQuiesce()
	got := sequence(stay.msgs("staying subscriber"), "staying subscriber")
	vAssert(len(got) == 3, "the staying subscriber misses nothing")
	if how == 2 {
		sequence(leave.msgs("unsubscribed"), "subscriber that unsubscribed")
	}
	if e != nil {
		fs, rest := parseWire(e.drain()[64:])
		vAssert(len(rest) == 0 && len(fs) > 0, "whole messages at the new subscriber")
		var ms [][][]byte
		for _, f := range fs[1:] {
			ms = append(ms, [][]byte{f.body})
		}
		seen := sequence(ms, "new subscriber")
		publish(s, 9)
		vQuiesce()
		ns := sequence((&rawPeer{end: e}).msgs("new subscriber"), "new subscriber")
		vAssert(len(ns) == 1, "the new subscriber gets what follows its subscription")
		_ = seen
	} else {
		publish(s, 9)
		vQuiesce()
	}
	ns := sequence(stay.msgs("staying subscriber"), "staying subscriber")
	vAssert(len(ns) == 1, "the staying subscriber goes on")
	vReach("done")
	s.Close()
}

// H_C08_burst publishes a burst within the mark before any of it is delivered.
//
//verif:prop C08
//verif:reach done
//verif:sched
//verif:bounds PUB with a high-water mark of 2-3 (quick 2) and two subscribers; a burst of as many messages as the mark; every schedule with up to 2 delays (thorough 3)
//verif:budget 60 400
func H_C08_burst() {
	simStart()
	s := newSocketOf(zmq4.Pub)
	hwm := 2 + vChoose("hwm", vParam("marks", 1, 2))
	vAssert(s.SetOption(zmq4.OptionHWM, hwm) == nil, "high-water mark set")
	mustListen(s, "sim://a")
	ps := []*rawPeer{rawDial("a", "SUB", "a"), rawDial("a", "SUB", "b")}
	subscribeAll(ps[0])
	subscribeAll(ps[1])
	vExplore(vParam("delays", 2, 3))
	for i := 0; i < hwm; i++ {
		publish(s, i)
	}
	vQuiesce()
	for _, p := range ps {
		got := sequence(p.msgs("subscriber"), "subscriber")
		vAssert(len(got) == hwm, "a subscriber within its high-water mark misses nothing")
	}
	vReach("done")
	s.Close()
}

// H_C08_window publishes to a subscriber that reads a message now and then.
//
//verif:prop C08
//verif:reach lost kept
//verif:bounds PUB with a high-water mark of 1-3 and a subscriber to whom one message fits on the way; every sequence of 9 (thorough 12) steps, each publishing a message or reading one; another subscriber reads all
//verif:budget 60 400
func H_C08_window() {
	simStart()
	s := newSocketOf(zmq4.Pub)
	hwm := 1 + vChoose("hwm", 3)
	vAssert(s.SetOption(zmq4.OptionHWM, hwm) == nil, "high-water mark set")
	mustListen(s, "sim://a")
	slow := rawDial("a", "SUB", "a")
	fast := rawDial("a", "SUB", "b")
	subscribeAll(slow)
	subscribeAll(fast)
	w := simAccepted[0].wr
	w.mu.Lock()
	w.window = 4 // one message
	w.mu.Unlock()
	var got []int    // what the slow subscriber read
	var readAt []int // how many it had read when each message was published
	read := func() {
		got = append(got, sequence(slow.msgs("slow subscriber"), "slow subscriber")...)
		w.mu.Lock()
		w.cond.Broadcast()
		w.mu.Unlock()
		vQuiesce()
	}
	for i, n := 0, vParam("steps", 9, 12); i < n; i++ {
		if vChoose("step", 2) == 1 {
			read()
			continue
		}
		readAt = append(readAt, len(got))
		publish(s, len(readAt)-1)
		vQuiesce()
		vAssert(len(fast.msgs("fast subscriber")) == 1, "the fast subscriber misses nothing")
	}
	for n := -1; n < len(got); {
		n = len(got)
		read()
	}
	next := 0
	for i, r := range readAt {
		if next < len(got) && got[next] == i {
			next++
			vReach("kept")
			continue
		}
		// lost: of those kept before it, r had been read and one was on the way
		vAssert(next-r-1 >= hwm, "a message within the high-water mark is kept")
		vReach("lost")
	}
	vAssert(next == len(got), "only what was published arrives")
	s.Close()
}
