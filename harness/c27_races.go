package zzverif

import (
	"context"
	"net"
	"sync"
	"time"

	zmq4 "github.com/luxfi/zmq/v4"
	"github.com/luxfi/zmq/v4/internal/errgroup"
	"github.com/luxfi/zmq/v4/internal/inproc"
	"github.com/luxfi/zmq/v4/networking"
)

// H_C27_socket uses one socket from two goroutines at once, while peers come and go.
//
//verif:prop C27
//verif:native off
//verif:sched
//verif:reach done
//verif:bounds all 12 socket types, not listening, or listening with 1-2 peers, REQ and REP also with a request outstanding; two goroutines each performing one of the operations: send, multi-part send, receive, listen, dial, close, subscribe, unsubscribe, address and topics, or all peers leave, a peer leaves before a send, a peer arrives, or sends a subscription and a message; every schedule with up to 1 delay (thorough 2)
//verif:budget 120 600
func H_C27_socket() {
	simStart()
	vRaceCheck()
	t := sockTypes[vChoose("type", len(sockTypes))]
	s := newSocketOf(t)
	acceptRaw("b")
	peer := string(partner(t))
	if peer == "" {
		peer = "STREAM"
	}
	k0, k1 := vChoose("op", 13), vChoose("op", 13)
	if k0 > k1 {
		return
	}
	var ps []*rawPeer
	if np := vChoose("peers", 3); np > 0 {
		mustListen(s, "sim://a")
		ids := []string{"p", "q"}
		for i := 0; i < np; i++ {
			ps = append(ps, rawDial("a", peer, ids[i]))
		}
		if t == zmq4.Pub || t == zmq4.XPub {
			subscribeAll(ps[0])
		}
	}
	if len(ps) > 0 && (t == zmq4.Rep || t == zmq4.Req) && vChoose("asked", 2) == 1 {
		if t == zmq4.Rep {
			ps[0].send(nil, []byte("ask"))
			s.Recv()
		} else {
			s.Send(anyMsg())
		}
	}
	simOnConn = func(cli, srv *end) {
		if srv.local == "b" {
			srv.Write(peerHello("NULL", true, peer, "b"))
		}
	}
	op := func(k, n int) {
		switch k {
		case 12: // its turn comes first
			if len(ps) > 0 {
				ps[0].breakNow()
			}
			s.Send(anyMsg())
		case 0:
			s.Send(anyMsg())
		case 1:
			s.SendMulti(anyMsg())
		case 2:
			s.Recv()
		case 3:
			s.Listen([]string{"sim://c", "sim://d"}[n])
		case 4:
			s.Dial("sim://b")
		case 5:
			s.Close()
		case 6:
			s.SetOption(zmq4.OptionSubscribe, "t")
		case 7:
			s.SetOption(zmq4.OptionUnsubscribe, "t")
		case 8:
			s.Addr()
			s.Type()
			s.GetOption(zmq4.OptionHWM)
			if t, ok := s.(zmq4.Topics); ok {
				t.Topics()
			}
		case 9:
			for _, p := range ps {
				p.breakNow()
			}
		case 10:
			if n = min(n, len(ps)-1); n >= 0 {
				ps[n].send([]byte{1, 't'})
				ps[n].send(nil, []byte("x"))
				ps[n].send([]byte{0, 't'})
			}
		case 11:
			if len(simListeners) > 1 {
				if e, err := simDial("sim", "a"); err == nil {
					e.Write(peerHello("NULL", false, peer, "late"))
				}
			}
		}
	}
	vExplore(vParam("delays", 1, 2))
	go func() {
		vYield()
		op(k0, 0)
	}()
	go op(k1, 1)
	vQuiesce()
	vExplore(0)
	s.Close()
	vQuiesce()
	vReach("done")
}

// H_C27_conn uses one connection from two goroutines at once.
//
//verif:prop C27
//verif:native off
//verif:sched
//verif:reach done
//verif:bounds a PUB or DEALER connection, NULL or PLAIN; two goroutines each sending a one-part, multi-part or command frame, receiving a message or command, writing, closing, or the peer sends a subscription or message, sends part of a frame, or leaves; every schedule with up to 1 delay (thorough 2)
//verif:budget 60 300
func H_C27_conn() {
	vRaceCheck()
	t := []zmq4.SocketType{zmq4.Pub, zmq4.Dealer}[vChoose("type", 2)]
	a, b := newPipe()
	mech := []string{"NULL", "PLAIN"}[vChoose("mech", 2)]
	b.Write(peerHello(mech, false, string(partner(t)), "peer"))
	c, err := zmq4.Open(a, secOf(mech), t, zmq4.SocketIdentity("me"), true, func(*zmq4.Conn) {})
	vAssert(err == nil, "open succeeds")
	k0, k1 := vChoose("op", 9), vChoose("op", 9)
	if k0 > k1 {
		return
	}
	op := func(k int) {
		switch k {
		case 0:
			c.SendMsg(zmq4.NewMsg([]byte("x")))
		case 1:
			c.SendMsg(zmq4.NewMsgFrom([]byte("x"), []byte("y")))
		case 2:
			c.SendCmd("PING", []byte("x"))
		case 3:
			c.RecvMsg()
		case 4:
			c.RecvCmd()
		case 5:
			c.Closed()
			c.Close()
		case 6:
			b.Write(msgBytes([]byte{1, 't'}))
		case 7:
			b.Write([]byte{1, 0, 0, 5, 'x'})
		case 8:
			b.breakNow()
		}
	}
	vExplore(vParam("delays", 1, 2))
	go func() {
		vYield()
		op(k0)
	}()
	go op(k1)
	vQuiesce()
	vExplore(0)
	c.Close()
	b.Close()
	vQuiesce()
	vReach("done")
}

// H_C27_shared opens two connections at once with the same security mechanism, and uses two sockets over them.
//
//verif:prop C27
//verif:native off
//verif:sched
//verif:reach done
//verif:bounds a listening socket of 11 types with NULL or PLAIN whose 2 peers shake hands at the same time, while another socket with the same mechanism object dials a third peer; then one message through each; transports are registered and listed meanwhile; every schedule with up to 1 delay
//verif:budget 60 300
func H_C27_shared() {
	simStart()
	vRaceCheck()
	t := sockTypes[vChoose("type", 11)]
	mech := []string{"NULL", "PLAIN"}[vChoose("mech", 2)]
	sec := secOf(mech)
	s := newSocketOf(t, zmq4.WithSecurity(sec))
	o := newSocketOf(t, zmq4.WithSecurity(sec))
	mustListen(s, "sim://a")
	acceptRaw("b")
	peer := string(partner(t))
	simOnConn = func(cli, srv *end) {
		if srv.local == "b" {
			srv.Write(peerHello(mech, true, peer, "b"))
		} else {
			cli.Write(peerHello(mech, false, peer, string([]byte{'p', byte('0' + len(simAccepted))})))
		}
	}
	vExplore(1)
	go o.Dial("sim://b")
	go zmq4.RegisterTransport("other", simTransport{})
	go zmq4.Transports()
	simDial("sim", "a")
	vYield()
	simDial("sim", "a")
	go s.Send(anyMsg())
	go o.Send(anyMsg())
	vQuiesce()
	vExplore(0)
	s.Close()
	o.Close()
	vQuiesce()
	vReach("done")
}

// H_C27_inproc uses the in-process transport from several goroutines at once.
//
//verif:prop C27
//verif:native off
//verif:sched
//verif:reach done
//verif:bounds a listener and a joined pair of ends; two goroutines each performing one of: dial, accept, listen elsewhere, close the listener, read, write, set a deadline, close an end, addresses; every schedule with up to 1 (thorough 2) delays
//verif:budget 60 300
func H_C27_inproc() {
	vRaceCheck()
	l, err := inproc.Listen("x")
	vAssert(err == nil, "listens")
	var cli net.Conn
	go func() { cli, _ = inproc.Dial("x") }()
	srv, err := l.Accept()
	vQuiesce()
	k0, k1 := vChoose("op", 12), vChoose("op", 12)
	if k0 > k1 {
		return
	}
	op := func(k int) {
		switch k {
		case 0:
			if c, err := inproc.Dial("x"); err == nil {
				c.Close()
			}
		case 1:
			if c, err := l.Accept(); err == nil {
				c.Close()
			}
		case 2:
			if l, err := inproc.Listen("y"); err == nil {
				l.Close()
			}
		case 3:
			l.Close()
		case 4:
			cli.Read(make([]byte, 2))
		case 5:
			cli.Write([]byte("abc"))
		case 6:
			srv.Read(make([]byte, 2))
		case 7:
			srv.Write([]byte("abc"))
		case 8:
			cli.SetDeadline(time.Now().Add(time.Second))
		case 9:
			srv.SetReadDeadline(time.Now())
			srv.SetWriteDeadline(time.Now())
		case 10:
			cli.Close()
		case 11:
			srv.Close()
		}
	}
	vExplore(vParam("delays", 1, 2))
	go func() {
		vYield()
		op(k0)
	}()
	go op(k1)
	vQuiesce()
	vExplore(0)
	cli.Close()
	srv.Close()
	l.Close()
	vAdvance(2 * time.Second)
	vReach("done")
}

// H_C27_node uses a node of package networking from two goroutines at once.
//
//verif:prop C27
//verif:native off
//verif:sched
//verif:reach done
//verif:bounds a node with 1 peer connected or none; two goroutines each performing one of: connect, disconnect, send, broadcast, send again, register, unregister, list peers and counters, stop, or a message arrives over either socket; every schedule with up to 1 (thorough 2) delays
//verif:budget 90 400
func H_C27_node() {
	simStart()
	vRaceCheck()
	t := startNode("a", 5000)
	b := newRawNode(5100)
	if vChoose("before", 2) == 1 {
		vAssert(connectRaw(t, "b", b, 5100) == nil, "connects")
	}
	t.RegisterHandler("t", func(m *networking.Message) {})
	direct := rawDial(nodeAddr(6000), "DEALER", "b")
	simOnConn = func(cli, srv *end) {
		typ := "PUB"
		if srv.local == b.router.addr {
			typ = "ROUTER"
		}
		srv.Write(peerHello("NULL", true, typ, ""))
	}
	k0, k1 := vChoose("op", 11), vChoose("op", 11)
	if k0 > k1 {
		return
	}
	op := func(k int) {
		switch k {
		case 0:
			t.ConnectPeer("b", 5100)
		case 1:
			t.DisconnectPeer("b")
		case 2:
			t.Send("b", &networking.Message{Type: "u"})
		case 3:
			t.Broadcast(&networking.Message{Type: "u"})
		case 4:
			t.SendWithRetry("b", &networking.Message{Type: "u"})
		case 5:
			t.RegisterHandler("t", func(m *networking.Message) {})
		case 6:
			t.UnregisterHandler("t")
		case 7:
			t.GetPeers()
			t.GetMetrics()
			t.GetNodeID()
		case 8:
			t.Stop()
		case 9:
			direct.send(jsonOf(networking.Message{Type: "t", From: "b"}))
		case 10:
			for _, e := range simAccepted {
				if e.local == b.pub.addr {
					e.Write(msgBytes(jsonOf(networking.Message{Type: "t", From: "b"})))
				}
			}
		}
	}
	vExplore(vParam("delays", 1, 2))
	go func() {
		vYield()
		op(k0)
	}()
	go op(k1)
	vQuiesce()
	vExplore(0)
	vAdvance(10 * time.Second)
	t.Stop()
	vAdvance(10 * time.Second)
	vReach("done")
}

// H_C27_group runs the operations of a task group from several goroutines.
//
//verif:prop C27
//verif:native off
//verif:sched
//verif:reach done
//verif:bounds 2 tasks which return nil or an error, started from two goroutines, with a cancellation and two waits at the same time; every schedule with up to 2 (thorough 3) delays
//verif:budget 60 300
func H_C27_group() {
	vRaceCheck()
	parent, cancel := context.WithCancel(context.Background())
	grp, _ := errgroup.WithContext(parent)
	k0, k1 := vChoose("kind", 2), vChoose("kind", 2)
	kill := vChoose("cancel", 2) == 1
	task := func(k int) func() error {
		return func() error {
			if k == 1 {
				return attemptError(k)
			}
			return nil
		}
	}
	vExplore(vParam("delays", 2, 3))
	var wg sync.WaitGroup
	wg.Add(1)
	go func() {
		grp.Go(task(k0))
		wg.Done()
	}()
	grp.Go(task(k1))
	if kill {
		go cancel()
	}
	wg.Wait()
	go grp.Wait()
	grp.Wait()
	vQuiesce()
	vExplore(0)
	cancel()
	vReach("done")
}
