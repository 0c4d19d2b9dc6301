package zzverif

import (
	"context"
	"errors"
	"net"
	"time"

	zmq4 "github.com/luxfi/zmq/v4"
)

// fakeSocket hands out scripted messages and records what is sent on it.
type fakeSocket struct {
	in     chan zmq4.Msg
	fail   chan error // receiving fails with this
	sent   [][][]byte
	multi  int
	failAt int // n-th send fails (1-based); 0 never
	err    error
	slow   time.Duration // every send takes this long
	busy   bool
}

func newFake(n int) *fakeSocket {
	return &fakeSocket{in: make(chan zmq4.Msg, n), fail: make(chan error, 1)}
}

func (f *fakeSocket) Close() error { return nil }
func (f *fakeSocket) Send(msg zmq4.Msg) error {
	vAssert(!f.busy, "one send at a time on a socket")
	if f.slow > 0 {
		f.busy = true
		time.Sleep(f.slow)
		f.busy = false
	}
	if f.failAt == len(f.sent)+1 {
		return f.err
	}
	var fs [][]byte
	for _, b := range msg.Frames {
		fs = append(fs, append([]byte(nil), b...))
	}
	f.sent = append(f.sent, fs)
	return nil
}
func (f *fakeSocket) SendMulti(msg zmq4.Msg) error { return f.Send(msg) }
func (f *fakeSocket) Recv() (zmq4.Msg, error) {
	select {
	case m := <-f.in:
		return m, nil
	default:
	}
	select {
	case m := <-f.in:
		return m, nil
	case err := <-f.fail:
		return zmq4.Msg{}, err
	}
}
func (f *fakeSocket) Listen(ep string) error                         { return nil }
func (f *fakeSocket) Dial(ep string) error                           { return nil }
func (f *fakeSocket) Type() zmq4.SocketType                          { return zmq4.Dealer }
func (f *fakeSocket) Addr() net.Addr                                 { return nil }
func (f *fakeSocket) GetOption(name string) (interface{}, error)     { return nil, nil }
func (f *fakeSocket) SetOption(name string, value interface{}) error { return nil }

// proxyMsg makes a message of 0-3 symbolic frames of 0-2 bytes.
func proxyMsg() [][]byte {
	fs := [][]byte{}
	for i, n := 0, vChoose("frames", 4); i < n; i++ {
		fs = append(fs, vBytes("frame", (i+n)%3))
	}
	return fs
}

// H_C19_forward runs a proxy between two scripted sockets.
//
//verif:prop C19
//verif:reach forwarded recvfail sendfail slow
//verif:sched
//verif:bounds 0-3 messages in each direction (of 0-3 symbolic frames), present at the start or arriving one by one; then nothing, a failing receive or a failing send on either side; one side possibly slow to send; schedules with up to 2 delays (thorough 3)
//verif:budget 90 400
func H_C19_forward() {
	vDeadlockLabel("the proxy hangs")
	ends := [2]*fakeSocket{newFake(8), newFake(8)}
	var msgs [2][][][]byte
	for i := range msgs {
		for j, n := 0, vChoose("count", 4); j < n; j++ {
			if j == 0 && i == 0 {
				msgs[i] = append(msgs[i], proxyMsg())
			} else {
				msgs[i] = append(msgs[i], [][]byte{{byte(i), byte(j)}, vBytes("body", 1)})
			}
		}
	}
	for i := range ends {
		ends[i].err = attemptError(10 + i)
	}
	fault := vChoose("fault", 5) // 0 none; 1, 2 receive fails on a side; 3, 4 send fails on a side
	if fault >= 3 {
		i := fault - 3
		ends[i].failAt = 1 + vChoose("failat", 3)
		vAssume(ends[i].failAt <= len(msgs[1-i]))
	}
	if vChoose("slow", 2) == 1 {
		ends[1].slow = time.Second
		vReach("slow")
	}
	late := vChoose("late", 2) == 1
	put := func() {
		for j := 0; j < 3; j++ {
			for i := range ends {
				if j < len(msgs[i]) {
					ends[i].in <- zmq4.NewMsgFrom(msgs[i][j]...)
				}
			}
			if late {
				vQuiesce()
			}
		}
	}
	if !late {
		put()
	}
	vExplore(vParam("delays", 2, 3))
	ret := make(chan error, 1)
	go func() { ret <- zmq4.Proxy(ends[0], ends[1]) }()
	if late {
		put()
	}
	vQuiesce()
	vExplore(0)
	vAdvance(10 * time.Second)
	check := func(i, want int) {
		vAssert(len(ends[1-i].sent) == want, "every message is forwarded exactly once")
		for j, fs := range ends[1-i].sent {
			sameFrames(fs, msgs[i][j], "forwarded unchanged and in order")
		}
	}
	running := func() bool {
		select {
		case err := <-ret:
			ret <- err
			return false
		default:
			return true
		}
	}
	switch {
	case fault == 0:
		check(0, len(msgs[0]))
		check(1, len(msgs[1]))
		vAssert(running(), "the proxy keeps running")
		vReach("forwarded")
	case fault <= 2:
		check(0, len(msgs[0]))
		check(1, len(msgs[1]))
		vAssert(running(), "the proxy keeps running")
		i := fault - 1
		ends[i].fail <- attemptError(i)
		vQuiesce()
		vAssert(!running(), "the proxy ends with the first error")
		vAssert(errors.Is(<-ret, attemptError(i)), "the error of the side that failed")
		vReach("recvfail")
	default:
		i := fault - 3
		check(1-i, ends[i].failAt-1)
		check(i, len(msgs[i]))
		vAssert(!running(), "the proxy ends with the first error")
		vAssert(errors.Is(<-ret, attemptError(10+i)), "the error of the side that failed")
		vReach("sendfail")
	}
}

// H_C19_missing starts proxies with missing sockets.
//
//verif:prop C19
//verif:reach done
//verif:bounds all combinations of missing sockets
func H_C19_missing() {
	var a, b zmq4.Socket
	k := vChoose("which", 3)
	if k == 1 {
		a = newFake(1)
	}
	if k == 2 {
		b = newFake(1)
	}
	vAssert(zmq4.Proxy(a, b) != nil, "missing sockets are rejected")
	vQuiesce()
	vAssert(vLiveGoroutines() == 0, "and nothing is started")
	vReach("done")
}

// H_C19_sockets runs a proxy between two real sockets.
//
//verif:prop C19
//verif:reach roundtrip pubsub
//verif:bounds ROUTER-DEALER between 1-2 raw clients and a raw server (0-2 requests each with symbolic contents and 1-3 frames; replies sent back), and XSUB-XPUB between a raw publisher and a raw subscriber; then either side is closed
//verif:budget 60 300
func H_C19_sockets() {
	simStart()
	vDeadlockLabel("the proxy hangs")
	ctx := context.Background()
	ret := make(chan error, 1)
	var front, back zmq4.Socket
	if vChoose("kind", 2) == 0 {
		front, back = zmq4.NewRouter(ctx), zmq4.NewDealer(ctx)
		mustListen(front, "sim://f")
		mustListen(back, "sim://b")
		go func() { ret <- zmq4.Proxy(front, back) }()
		server := rawDial("b", "ROUTER", "server")
		names := []string{"c0", "c1"}
		var clients []*rawPeer
		for i, n := 0, 1+vChoose("clients", 2); i < n; i++ {
			clients = append(clients, rawDial("f", "REQ", names[i]))
		}
		for j := 0; j < 2; j++ {
			for i, c := range clients {
				if vChoose("ask", 2) == 0 {
					continue
				}
				body := [][]byte{vBytes("b", 2), nil, {byte(j)}}[:1+(i+j)%3]
				c.send(concatFrames([][]byte{nil}, body)...)
				vQuiesce()
				ms := server.msgs("request")
				vAssert(len(ms) == 1, "the request is forwarded once")
				sameFrames(ms[0], concatFrames([][]byte{[]byte(names[i]), nil}, body), "request unchanged behind its sender's identity")
				server.send([]byte(names[i]), nil, []byte{byte(i), byte(j)}, vBytes("r", 1))
				vQuiesce()
				for k, d := range clients {
					ms := d.msgs("reply")
					if k != i {
						vAssert(len(ms) == 0, "the reply goes to the client that asked")
						continue
					}
					vAssert(len(ms) == 1 && len(ms[0]) == 3 && len(ms[0][0]) == 0, "the reply is forwarded once")
					vAssertSame(ms[0][1], []byte{byte(i), byte(j)}, "the reply is unchanged")
				}
			}
		}
		vReach("roundtrip")
	} else {
		front, back = zmq4.NewXSub(ctx), zmq4.NewXPub(ctx)
		mustListen(front, "sim://f")
		mustListen(back, "sim://b")
		go func() { ret <- zmq4.Proxy(front, back) }()
		pub := rawDial("f", "XPUB", "p")
		sub := rawDial("b", "XSUB", "s")
		subscribeAll(sub)
		for j := 0; j < 3; j++ {
			body := [][]byte{vBytes("b", 2), nil, {byte(j)}}[:1+j]
			pub.send(body...)
			vQuiesce()
			ms := sub.msgs("publication")
			vAssert(len(ms) == 1, "the publication is forwarded once")
			sameFrames(ms[0], body, "publication unchanged")
		}
		sub.send([]byte{7}, []byte("up"))
		vQuiesce()
		ms := pub.msgs("upstream")
		vAssert(len(ms) == 1, "an upstream message is forwarded once")
		sameFrames(ms[0], [][]byte{{7}, []byte("up")}, "upstream message unchanged")
		vReach("pubsub")
	}
	if vChoose("side", 2) == 0 {
		front.Close()
	} else {
		back.Close()
	}
	vQuiesce()
	vAssert(<-ret != nil, "the proxy ends when a side is closed")
	front.Close()
	back.Close()
	vQuiesce()
	vAssert(vLiveGoroutines() == 0, "goroutines end")
}
