package zzverif

import (
	"time"

	zmq4 "github.com/luxfi/zmq/v4"
)

// H_C30_value builds messages and looks at them, their bytes and their clones.
//
//verif:prop C30
//verif:reach clone bytes strings
//verif:bounds messages of 0-3 frames of 0-3 symbolic bytes (also nil frames) made by each constructor, user messages and commands; one octet of the original, of the clone or of the joined bytes changed, at every position, to any value
//verif:budget 60 300
func H_C30_value() {
	n := vChoose("frames", 4)
	src := make([][]byte, n)
	for i := range src {
		src[i] = vBytes("frame", vChoose("len", 4))
		if len(src[i]) == 0 && vChoose("nil", 2) == 1 {
			src[i] = nil
		}
	}
	want := copyFrames(src)
	var m zmq4.Msg
	switch k := vChoose("constructor", 4); {
	case k == 0 && n == 1:
		m = zmq4.NewMsg(src[0])
	case k == 1 && n == 1:
		m = zmq4.NewMsgString(string(src[0]))
	case k == 2:
		var strs []string
		for _, f := range src {
			strs = append(strs, string(f))
		}
		m = zmq4.NewMsgFromString(strs)
		vReach("strings")
	default:
		m = zmq4.NewMsgFrom(src...)
	}
	vAssert(m.Err() == nil, "a message made by the application carries no error")
	vAssert(m.Type == zmq4.UsrMsg, "a message made by the application is a user message")
	sameFrames(m.Frames, want, "a message has the frames it was made of")
	if vChoose("command", 2) == 1 {
		m.Type = zmq4.CmdMsg
	}
	joined := m.Bytes()
	all := concat(want...)
	vAssert(len(joined) == len(all), "bytes joins the frames (length)")
	vAssertSame(joined, all, "bytes joins the frames")
	_ = m.String()
	sameFrames(m.Frames, want, "looking at a message does not change it")
	c := m.Clone()
	sameFrames(c.Frames, want, "a clone has the frames of its original")
	vAssert(c.Type == m.Type, "a clone is of the kind of its original")
	x := vByte("x")
	change := func(fs [][]byte) {
		if n == 0 {
			return
		}
		i := vChoose("which", n)
		switch {
		case vChoose("slot", 2) == 1:
			fs[i] = []byte{x}
		case len(fs[i]) > 0:
			fs[i][vChoose("at", len(fs[i]))] = x
		}
		for j := range fs {
			fs[j] = append(fs[j], x)
		}
	}
	switch vChoose("change", 3) {
	case 0:
		change(m.Frames)
		sameFrames(c.Frames, want, "a clone does not change with its original")
	case 1:
		change(c.Frames)
		sameFrames(m.Frames, want, "a message does not change with its clone")
	case 2:
		for i := range joined {
			joined[i] = x
		}
		sameFrames(m.Frames, want, "the joined bytes are not the message's")
		vReach("bytes")
	}
	vReach("clone")
}

func copyFrames(fs [][]byte) [][]byte {
	out := make([][]byte, len(fs))
	for i, f := range fs {
		out[i] = append([]byte(nil), f...)
	}
	return out
}

// spare is a message with room behind its frames and behind each frame's bytes.
type spare struct {
	all    [][]byte // the frames and what lies behind them
	backs  [][]byte // each frame and what lies behind it
	frames [][]byte
	want   [][]byte
}

const canary = 0xA5

func newSpare(fs [][]byte) *spare {
	s := &spare{want: copyFrames(fs)}
	for _, f := range fs {
		back := append(append([]byte(nil), f...), canary, canary, canary)
		s.backs = append(s.backs, back)
		s.all = append(s.all, back[:len(f)])
	}
	for i := 0; i < 3; i++ {
		s.all = append(s.all, []byte{canary})
	}
	s.frames = s.all[:len(fs)]
	return s
}

// check tells whether the message is as it was made.
func (s *spare) check(label string) {
	sameFrames(s.frames, s.want, label)
	for i, back := range s.backs {
		n := len(s.want[i])
		for _, b := range back[n:] {
			vAssert(b == canary, label+" (room behind a frame)")
		}
		vAssert(n == 0 || &back[0] == &s.frames[i][0], label+" (same frame)")
	}
	for _, f := range s.all[len(s.want):] {
		vAssert(len(f) == 1 && f[0] == canary, label+" (room behind the frames)")
	}
}

var senders = []zmq4.SocketType{zmq4.Pair, zmq4.Dealer, zmq4.Push, zmq4.Pub, zmq4.XPub, zmq4.XSub, zmq4.Router, zmq4.Rep, zmq4.Req}

// H_C30_sent sends messages that have room behind their frames and looks at them afterwards.
//
//verif:prop C30
//verif:reach sent nopeer timedout
//verif:bounds all 9 sending socket types with 0-2 peers, NULL and PLAIN peers alike; 2 messages of 1-3 frames of 0-2 symbolic bytes, each with spare room behind the frames and behind each frame's bytes, by Send or SendMulti; the second is the first one again or another one; the peer stalls or not
//verif:budget 60 300
func H_C30_sent() {
	simStart()
	t := senders[vChoose("type", len(senders))]
	s := newSocketOf(t, zmq4.WithTimeout(shortTime), zmq4.WithAutomaticReconnect(false))
	mustListen(s, "sim://a")
	ids := []string{"p", "q"}
	var ps []*rawPeer
	for i, n := 0, vChoose("peers", 3); i < n; i++ {
		ps = append(ps, rawDial("a", string(partner(t)), ids[i]))
		if t == zmq4.Pub || t == zmq4.XPub {
			subscribeAll(ps[i])
		}
	}
	stall := len(ps) > 0 && vChoose("stall", 2) == 1
	if stall {
		simAccepted[0].stallWrites(true)
		vReach("timedout")
	}
	var msgs []*spare
	nf := 1 + vChoose("frames", 3)
	again := vChoose("again", 2) == 1
	for i := 0; i < 2; i++ {
		if i == 1 && stall && !vSymbolic() {
			break // a goroutine waiting for a mutex keeps the replay's virtual clock from advancing
		}
		if i == 0 || !again {
			var fs [][]byte
			for k := 0; k < nf; k++ {
				fs = append(fs, vBytes("frame", (i+k+nf)%3))
			}
			if t == zmq4.Router && i == 0 {
				fs[0] = []byte("p")
			}
			msgs = append(msgs, newSpare(fs))
		}
		m := zmq4.NewMsgFrom(msgs[len(msgs)-1].frames...)
		m.Frames = msgs[len(msgs)-1].frames
		if t == zmq4.Rep && len(ps) > 0 {
			ps[0].send([]byte("e"), nil, []byte("x"))
			_, err := s.Recv()
			vAssert(err == nil, "request arrives")
		}
		var err error
		if vChoose("multi", 2) == 1 {
			err = s.SendMulti(m)
		} else {
			err = s.Send(m)
		}
		if err == nil {
			vReach("sent")
		} else if len(ps) == 0 {
			vReach("nopeer")
		}
		vQuiesce()
		for _, sp := range msgs {
			sp.check("sending leaves a message as it was")
		}
	}
	s.Close()
	vQuiesce()
	for _, sp := range msgs {
		sp.check("closing leaves a sent message as it was")
	}
}

var receivers = []zmq4.SocketType{zmq4.Pair, zmq4.Dealer, zmq4.Pull, zmq4.Sub, zmq4.XSub, zmq4.XPub, zmq4.Router, zmq4.Rep, zmq4.Req}

// H_C30_received keeps received messages while others arrive, and changes one of them.
//
//verif:prop C30
//verif:reach kept changed answered
//verif:bounds all 9 receiving socket types with 1-2 peers; 3 messages of 1-3 frames of 0-2 symbolic bytes (or of 300 bytes); the first, second or third is extended and overwritten by the application when it has received it (a request before it is answered); NULL and PLAIN
//verif:budget 60 300
func H_C30_received() {
	simStart()
	t := receivers[vChoose("type", len(receivers))]
	s := newSocketOf(t, zmq4.WithTimeout(shortTime), zmq4.WithAutomaticReconnect(false), zmq4.WithID(zmq4.SocketIdentity("s")))
	mustListen(s, "sim://a")
	if t == zmq4.Sub {
		s.SetOption(zmq4.OptionSubscribe, "")
	}
	ids := []string{"p", "q"}
	var ps []*rawPeer
	for i, n := 0, 1+vChoose("peers", 2); i < n; i++ {
		ps = append(ps, rawDial("a", string(partner(t)), ids[i]))
	}
	nf := 1 + vChoose("frames", 3)
	long := vChoose("long", 2) == 1
	changed := vChoose("changed", 4) // 0: none
	var got []zmq4.Msg
	var want [][][]byte
	for i := 0; i < 3; i++ {
		var fs [][]byte
		for k := 0; k < nf; k++ {
			n := (i + k + nf) % 3
			if long && k == i {
				n = 300
			}
			fs = append(fs, symBytes("frame", n))
		}
		if t == zmq4.XPub { // not a subscription
			fs[0] = append([]byte("m"), fs[0]...)
		}
		p := ps[i%len(ps)]
		w := fs
		switch t {
		case zmq4.Req:
			vAssert(s.Send(zmq4.NewMsg([]byte("ask"))) == nil, "request is sent")
			vQuiesce()
			for _, q := range ps {
				if len(q.msgs("request")) > 0 {
					p = q
				}
			}
			p.send(concatFrames([][]byte{nil}, fs)...)
		case zmq4.Rep:
			p.send(concatFrames([][]byte{{'e', byte(i)}, nil}, fs)...)
		case zmq4.Router:
			w = concatFrames([][]byte{[]byte(ids[i%len(ps)])}, fs)
			p.send(fs...)
		default:
			p.send(fs...)
		}
		r, ok := tryRecv(recvAsync(s))
		vAssert(ok && r.err == nil, "the message arrives")
		got, want = append(got, r.msg), append(want, copyFrames(w))
		if changed == i+1 {
			scribble(got[i])
			vReach("changed")
		}
		for j := range got {
			if changed != j+1 {
				sameFrames(got[j].Frames, want[j], "a received message stays as it was sent")
			}
		}
		if t == zmq4.Rep {
			vAssert(s.Send(zmq4.NewMsg([]byte{'r', byte(i)})) == nil, "reply is sent")
			vQuiesce()
			ms := p.msgs("reply")
			vAssert(len(ms) == 1, "one reply")
			sameFrames(ms[0], [][]byte{{'e', byte(i)}, nil, {'r', byte(i)}}, "the envelope is not the application's")
			vReach("answered")
		}
		if t == zmq4.Router {
			vAssert(s.Send(zmq4.NewMsgFrom([]byte(ids[i%len(ps)]), []byte("y"))) == nil, "an answer is sent")
			vQuiesce()
			ms := p.msgs("answer")
			vAssert(len(ms) == 1, "the peer is still addressed by its identity")
		}
	}
	vReach("kept")
}

// scribble overwrites and extends a message as its owner may, frame by frame:
// no frame shares memory with another one.
func scribble(m zmq4.Msg) {
	want := copyFrames(m.Frames)
	for i := range m.Frames {
		_ = append(m.Frames[i], 0x5a, 0x5a)
		sameFrames(m.Frames, want, "extending a frame changes no other frame")
	}
	for i := range m.Frames {
		for k := range m.Frames[i] {
			m.Frames[i][k] ^= 0x5a
			want[i][k] ^= 0x5a
		}
		sameFrames(m.Frames, want, "changing a frame changes no other frame")
	}
	for i := range m.Frames {
		m.Frames[i] = nil
	}
	_ = append(m.Frames[:0], []byte("z"), []byte("z"))
}

// H_C30_fanout lets one message reach several receivers over the in-process transport.
//
//verif:prop C30
//verif:reach fanout
//verif:bounds PUB, XPUB, DEALER, PAIR with 2 receivers over inproc; 2 messages of 1-2 frames of 1, 2 or 300 symbolic bytes; either receiver overwrites its first message when it has it, or the sender its message when both have it
//verif:budget 60 300
func H_C30_fanout() {
	t := []zmq4.SocketType{zmq4.Pub, zmq4.XPub, zmq4.Dealer, zmq4.Pair}[vChoose("type", 4)]
	rt := zmq4.Dealer
	switch t {
	case zmq4.Pair:
		rt = zmq4.Pair
	case zmq4.Pub, zmq4.XPub:
		rt = zmq4.Sub
	}
	s := newSocketOf(t, zmq4.WithTimeout(shortTime))
	mustListen(s, "inproc://fan")
	var rs []zmq4.Socket
	for i := 0; i < 2; i++ {
		r := newSocketOf(rt, zmq4.WithAutomaticReconnect(false))
		mustDial(r, "inproc://fan")
		if rt == zmq4.Sub {
			vAssert(r.SetOption(zmq4.OptionSubscribe, "") == nil, "subscribes")
		}
		rs = append(rs, r)
	}
	vQuiesce()
	who := vChoose("who", 4) // who overwrites: a receiver, the sender, nobody
	multi := vChoose("multi", 2) == 1
	var got [2][]zmq4.Msg
	var want [][][]byte
	for i := 0; i < 2; i++ {
		var fs [][]byte
		for k, n := 0, 1+vChoose("frames", 2); k < n; k++ {
			fs = append(fs, symBytes("frame", []int{1, 2, 300}[(i+k+n)%3]))
		}
		want = append(want, copyFrames(fs))
		m := zmq4.NewMsgFrom(fs...)
		var err error
		if multi {
			err = s.SendMulti(m)
		} else {
			err = s.Send(m)
		}
		vAssert(err == nil, "send works")
		for k, r := range rs {
			res, ok := tryRecv(recvAsync(r))
			vAssert(ok && res.err == nil, "the message arrives")
			got[k] = append(got[k], res.msg)
		}
		if i == 0 {
			if who < 2 {
				scribble(got[who][0])
				sameFrames(fs, want[0], "the sender's message is its own")
			} else if who == 2 {
				scribble(m)
			}
		}
		for k := range rs {
			for j := range got[k] {
				if k != who || j != 0 {
					sameFrames(got[k][j].Frames, want[j], "each receiver has its own message")
				}
			}
		}
	}
	vReach("fanout")
	s.Close()
	for _, r := range rs {
		r.Close()
	}
	time.Sleep(time.Millisecond)
}
