package zzverif

import (
	"context"
	"encoding/json"
	"fmt"
	"time"

	"github.com/luxfi/zmq/v4/networking"
)

func nodeAddr(port int) string { return fmt.Sprintf("127.0.0.1:%d", port) }

// startNode starts a node named id at port.
func startNode(id string, port int) *networking.Transport {
	t := networking.New(context.Background(), networking.DefaultConfig(id, port))
	vAssert(t.Start() == nil, "the node starts")
	return t
}

// rawNode is a node played by the harness: a publisher and a router.
type rawNode struct {
	pub, router *simListener
	subs        []*rawPeer // connections accepted so far, in order
	dealers     []*rawPeer
}

func newRawNode(port int) *rawNode {
	return &rawNode{pub: acceptRaw(nodeAddr(port)), router: acceptRaw(nodeAddr(port + 1000))}
}

// connectRaw makes t connect to a node played by the harness.
func connectRaw(t *networking.Transport, id string, n *rawNode, port int) error {
	was := len(simAccepted)
	simOnConn = func(cli, srv *end) {
		typ := "PUB"
		if srv.local == n.router.addr {
			typ = "ROUTER"
		}
		srv.Write(peerHello("NULL", true, typ, ""))
	}
	err := t.ConnectPeer(id, port)
	simOnConn = nil
	vQuiesce()
	for _, e := range simAccepted[was:] {
		p := &rawPeer{end: e}
		if e.local == n.pub.addr {
			p.got = skipHello(e.drain())
			n.subs = append(n.subs, p)
		} else {
			p.got = skipHello(e.drain())
			n.dealers = append(n.dealers, p)
		}
	}
	return err
}

// jsonOf returns the message as a node puts it on the wire.
func jsonOf(m networking.Message) []byte {
	b, err := json.Marshal(m)
	vAssert(err == nil, "marshal")
	return b
}

type handed struct {
	handler int
	msg     networking.Message
}

// H_C21_dispatch registers handlers while messages arrive.
//
//verif:prop C21
//verif:native off
//verif:reach handed own unhandled malformed busy
//verif:bounds one node with a peer; 3 (thorough 4) events, each registering or unregistering a type, or a message arriving on either channel, well-formed (1-byte type and sender, recipient of 0 or 1 bytes, session, height, round and timestamp symbolic) or malformed (7 shapes); handlers that return at once or never
//verif:budget 90 600
func H_C21_dispatch() {
	t := startNode("a", 5000)
	b := newRawNode(5100)
	vAssert(connectRaw(t, "b", b, 5100) == nil, "connects")
	direct := rawDial(nodeAddr(6000), "DEALER", "b")
	var got []handed
	block := make(chan bool)
	var types []string // registered, and by whom
	var by []int
	received, dropped := 0, 0
	n := vParam("events", 3, 4)
	for i := 0; i < n; i++ {
		switch vChoose("event", 4) {
		case 0:
			typ := vString("type", 1)
			blocks := vChoose("blocks", 2) == 1
			t.RegisterHandler(typ, func(m *networking.Message) {
				got = append(got, handed{i, *m})
				if blocks {
					vReach("busy")
					<-block
				}
			})
			types, by = append(types, typ), append(by, i)
		case 1:
			typ := vString("type", 1)
			t.UnregisterHandler(typ)
			types, by = append(types, typ), append(by, -1)
		case 2:
			m := networking.Message{Type: vString("type", 1), From: vString("from", 1), To: vString("to", vChoose("tolen", 2)),
				SessionID: vBytes("session", 2), Height: vU64("height"), Round: vU32("round"), Timestamp: int64(vU64("stamp"))}
			if vChoose("chan", 2) == 0 {
				b.subs[0].send(jsonOf(m))
			} else {
				direct.send(jsonOf(m))
			}
			vQuiesce()
			if m.From == "a" && m.To == "" {
				vAssert(len(got) == 0, "the node's own broadcast is not handed out")
				vReach("own")
				break
			}
			received++
			who := -1
			for j := range types {
				if types[j] == m.Type {
					who = by[j]
				}
			}
			if who < 0 {
				vAssert(len(got) == 0, "a message nobody registered for is handed to nobody")
				vReach("unhandled")
				break
			}
			vReach("handed")
			vAssert(len(got) == 1, "a message is handed out exactly once")
			vAssert(got[0].handler == who, "to the handler registered for its type")
			g := got[0].msg
			got = nil
			vAssert(g.Type == m.Type && g.From == m.From && g.To == m.To && g.Height == m.Height && g.Round == m.Round && g.Timestamp == m.Timestamp, "unchanged")
			vAssertSame(g.SessionID, m.SessionID, "with its session")
		case 3:
			bad := []string{"", "{", "[1]", "\"x\"", `{"type":1}`, `{"type":"t","height":-1}`, `{"type":"t"}}`}[vChoose("bad", 7)]
			if vChoose("chan", 2) == 0 {
				b.subs[0].send([]byte(bad))
			} else {
				direct.send([]byte(bad))
			}
			vQuiesce()
			vAssert(len(got) == 0, "a malformed message is handed to nobody")
			dropped++
			vReach("malformed")
		}
		s, r, d := t.GetMetrics()
		vAssert(s == 0 && r == uint64(received) && d == uint64(dropped), "the counters count what arrived")
	}
	close(block)
	t.Stop()
	vQuiesce()
	vAssert(vLiveGoroutines() == 0, "stopping ends the node's goroutines")
}

// H_C21_peers connects and disconnects peers.
//
//verif:prop C21
//verif:native off
//verif:reach connected twice refused halfway gone unknown sent broadcast heard
//verif:bounds a node and two peers, one of which may be unreachable on either channel; 3 (thorough 4) operations in any order: connect to either, disconnect from either or from an unknown peer, send to either, with and without retries, be broadcast to by the first, broadcast
//verif:budget 90 600
func H_C21_peers() {
	vDeadlockLabel("an operation never returns")
	t := startNode("a", 5000)
	names := []string{"b", "c"}
	ports := []int{5100, 5200}
	nodes := []*rawNode{newRawNode(5100), newRawNode(5200)}
	missing := vChoose("missing", 3) // of c: nothing, publisher, router
	switch missing {
	case 1:
		nodes[1].pub.Close()
	case 2:
		nodes[1].router.Close()
	}
	var heard int
	t.RegisterHandler("t", func(m *networking.Message) {
		vAssert(m.From == "b", "from the peer")
		heard++
	})
	listen := rawDial(nodeAddr(5000), "SUB", "")
	listen.send([]byte("\x01"))
	vQuiesce()
	var peers []string
	at := func(id string) int {
		for i, p := range peers {
			if p == id {
				return i
			}
		}
		return -1
	}
	sent, received := 0, 0
	n := vParam("ops", 3, 4)
	for i := 0; i < n; i++ {
		op := vChoose("op", 7)
		k := 0
		if op < 4 {
			k = vChoose("peer", 2)
		}
		was := at(names[k])
		m := &networking.Message{Type: "t", Height: vU64("height")}
		switch op {
		case 0:
			conns := len(simAccepted)
			err := connectRaw(t, names[k], nodes[k], ports[k])
			switch {
			case was >= 0:
				vAssert(err == nil && len(simAccepted) == conns, "connecting again changes nothing")
				vReach("twice")
			case k == 1 && missing > 0:
				vAssert(err != nil, "connecting to an absent peer fails")
				for _, e := range simAccepted[conns:] {
					vAssert(e.rd.eof, "a failed connection leaves nothing behind")
					vReach("halfway")
				}
				vReach("refused")
			default:
				vAssert(err == nil, "connects")
				peers = append(peers, names[k])
				vReach("connected")
				nd := nodes[k]
				vAssert(len(nd.subs) > 0 && len(nd.dealers) > 0, "on both channels")
				ms := nd.subs[len(nd.subs)-1].msgs("subscription")
				vAssert(len(ms) == 1 && len(ms[0]) == 1 && string(ms[0][0]) == "\x01", "and subscribes to everything")
			}
		case 1:
			t.DisconnectPeer(names[k])
			vQuiesce()
			if was >= 0 {
				peers = append(peers[:was], peers[was+1:]...)
				vReach("gone")
			}
			for _, p := range append(append([]*rawPeer{}, nodes[k].subs...), nodes[k].dealers...) {
				vAssert(p.rd.eof, "disconnecting closes the connections")
			}
		case 2, 3:
			start := time.Now()
			var err error
			if op == 2 {
				err = t.Send(names[k], m)
				vAssert(time.Now() == start, "at once")
			} else {
				err = t.SendWithRetry(names[k], m)
			}
			vQuiesce()
			if was < 0 {
				vAssert(err != nil, "sending to a peer that is not connected fails")
				vAssert(op == 2 || time.Since(start) == 300*time.Millisecond, "after the retries")
				for _, p := range nodes[k].dealers {
					vAssert(len(p.msgs("none")) == 0, "and nothing is sent")
				}
				break
			}
			vAssert(err == nil, "sends to a connected peer")
			sent++
			vReach("sent")
			for j, p := range nodes[k].dealers {
				ms := p.msgs("sent")
				if j < len(nodes[k].dealers)-1 {
					vAssert(len(ms) == 0, "nothing on an old connection")
					continue
				}
				vAssert(len(ms) == 1 && len(ms[0]) == 1, "exactly once")
				var g networking.Message
				vAssert(json.Unmarshal(ms[0][0], &g) == nil, "well-formed")
				vAssert(g.Type == "t" && g.From == "a" && g.To == names[k] && g.Height == m.Height, "with sender and recipient")
			}
		case 4:
			before := heard
			for _, p := range nodes[0].subs {
				p.send(jsonOf(networking.Message{Type: "t", From: "b"}))
			}
			vQuiesce()
			if at("b") >= 0 {
				vAssert(heard == before+1, "a connected peer's broadcast is handed out exactly once")
				received++
				vReach("heard")
			} else {
				vAssert(heard == before, "a disconnected peer's broadcast is not handed out")
			}
		case 5:
			var err error
			if vChoose("retry", 2) == 1 {
				err = t.BroadcastWithRetry(m)
			} else {
				err = t.Broadcast(m)
			}
			vQuiesce()
			vAssert(err == nil, "broadcasts")
			sent++
			ms := listen.msgs("broadcast")
			vAssert(len(ms) == 1 && len(ms[0]) == 1, "exactly once")
			var g networking.Message
			vAssert(json.Unmarshal(ms[0][0], &g) == nil, "well-formed")
			vAssert(g.Type == "t" && g.From == "a" && g.To == "" && g.Height == m.Height, "with its sender")
			for _, nd := range nodes {
				for _, p := range nd.dealers {
					vAssert(len(p.msgs("none")) == 0, "a broadcast is not sent directly")
				}
			}
			vReach("broadcast")
		case 6:
			t.DisconnectPeer("z")
			vReach("unknown")
		}
		ps := t.GetPeers()
		vAssert(len(ps) == len(peers), "the peer list has the connected peers")
		for j := range ps {
			vAssert(ps[j] == peers[j], "the peer list is the connected peers")
			ps[j] = "x" // the caller's copy
		}
		s, r, d := t.GetMetrics()
		vAssert(s == uint64(sent), "the messages sent are counted")
		vAssert(r == uint64(received) && d == 0, "the messages received are counted")
	}
	t.Stop()
	t.Stop()
	vQuiesce()
	vAssert(t.ConnectPeer("b", 5100) != nil || at("b") >= 0, "no connection after stopping")
	vAssert(t.Send("b", &networking.Message{}) != nil, "no message after stopping")
	vAssert(t.Broadcast(&networking.Message{}) != nil, "no broadcast after stopping")
	vAdvance(10 * time.Second)
	vAssert(vLiveGoroutines() == 0, "stopping ends the node's goroutines")
}

// H_C21_race runs the operations of a node against each other.
//
//verif:prop C21
//verif:native off
//verif:sched
//verif:reach connected alone stopped
//verif:bounds a node whose two goroutines each connect to, disconnect from, send to the same peer, or stop the node, while a message arrives; schedules with up to 2 delays (thorough 3)
//verif:budget 120 600
func H_C21_race() {
	vDeadlockLabel("an operation never returns")
	t := startNode("a", 5000)
	b := newRawNode(5100)
	heard := 0
	t.RegisterHandler("t", func(m *networking.Message) { heard++ })
	k0, k1 := vChoose("op", 4), vChoose("op", 4)
	if k0 > k1 {
		return
	}
	if k0 > 0 || vChoose("before", 2) == 1 {
		vAssert(connectRaw(t, "b", b, 5100) == nil, "connects")
	}
	direct := rawDial(nodeAddr(6000), "DEALER", "b")
	simOnConn = func(cli, srv *end) {
		typ := "PUB"
		if srv.local == b.router.addr {
			typ = "ROUTER"
		}
		srv.Write(peerHello("NULL", true, typ, ""))
	}
	stopped := false
	connects, disconnects := 0, 0
	op := func(k int) {
		switch k {
		case 0:
			if t.ConnectPeer("b", 5100) == nil {
				connects++
			}
		case 1:
			t.DisconnectPeer("b")
			disconnects++
		case 2:
			t.Send("b", &networking.Message{Type: "u"})
		case 3:
			stopped = true
			t.Stop()
		}
	}
	vExplore(vParam("delays", 2, 3))
	done := make(chan bool, 1)
	go func() {
		vYield()
		op(k0)
		done <- true
	}()
	direct.send(jsonOf(networking.Message{Type: "t", From: "b"}))
	op(k1)
	<-done
	vQuiesce()
	vExplore(0)
	ps := t.GetPeers()
	vAssert(len(ps) <= 1, "no duplicate peers")
	if !stopped {
		vAssert(heard == 1, "the message is handed out exactly once")
		switch {
		case disconnects == 0 && connects > 0:
			vAssert(len(ps) == 1, "connected")
		case disconnects > 0 && connects == 0:
			vAssert(len(ps) == 0, "disconnected")
		}
		live := 0
		for _, e := range simAccepted {
			if e.local == b.pub.addr && !e.rd.eof {
				live++
			}
		}
		vAssert(live == len(ps), "as many subscriptions as peers")
		if live == 1 {
			vReach("connected")
		} else {
			vReach("alone")
		}
		t.Stop()
	} else {
		vReach("stopped")
	}
	vQuiesce()
	vAdvance(10 * time.Second)
	vAssert(vLiveGoroutines() == 0, "stopping ends the node's goroutines")
}
