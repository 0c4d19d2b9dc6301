package zzverif

import (
	"context"

	zmq4 "github.com/luxfi/zmq/v4"
)

func pickLen(label string) int {
	ls := []int{0, 1, 2, 255, 256, 300}
	return ls[vChoose(label, len(ls))]
}

// H_C01_conn sends messages over an opened connection, the bytes split arbitrarily in transit.
//
//verif:prop C01
//verif:reach plain long empty
//verif:bounds 2 messages of 1-2 frames (thorough: up to 3 frames), frame lengths in {0,1,2,255,256,300}, contents symbolic, NULL and PLAIN, each of the first 3 reads split after 1 byte, all but 1 byte or not at all
//verif:budget 60 300
func H_C01_conn() {
	mech := []string{"NULL", "PLAIN"}[vChoose("mech", 2)]
	ca, cb, _, eb := openPair(mech, zmq4.Push, zmq4.Pull)
	splits := 0
	eb.split = func(avail, want int) int {
		if splits >= 3 {
			return avail
		}
		splits++
		switch vChoose("split", 3) {
		case 1:
			return 1
		case 2:
			if avail > 1 {
				return avail - 1
			}
		}
		return avail
	}
	maxF := vParam("frames", 2, 3)
	var sent [][][]byte
	for m := 0; m < 2; m++ {
		nf := 1 + vChoose("nframes", maxF)
		var fs [][]byte
		for i := 0; i < nf; i++ {
			n := 1
			if m == 0 {
				n = pickLen("len")
			}
			if n > 255 {
				vReach("long")
			}
			if n == 0 {
				vReach("empty")
			}
			fs = append(fs, symBytes("frame", n))
		}
		sent = append(sent, fs)
		err := ca.SendMsg(zmq4.NewMsgFrom(fs...))
		vAssert(err == nil, "send succeeds")
	}
	if mech == "PLAIN" {
		vReach("plain")
	}
	for m := range sent {
		msg, err := cb.RecvMsg()
		vAssert(err == nil, "receive succeeds")
		vAssert(msg.Type == zmq4.UsrMsg, "message kind")
		sameFrames(msg.Frames, sent[m], "received message")
		for _, f := range msg.Frames {
			vObsInt("len", len(f))
		}
	}
	vAssert(len(eb.unread()) == 0, "nothing left over")
}

// H_C01_sockets sends messages from socket to socket by Send and SendMulti.
//
//verif:prop C01
//verif:reach single multi plain long
//verif:bounds 2 messages of 1-2 frames between two sockets (PUSH-PULL, PAIR-PAIR, DEALER-DEALER, PUB-SUB) over an in-memory transport, frame lengths in {0,1,2,255,256,300}, contents symbolic, NULL and PLAIN, each message by Send or SendMulti
//verif:budget 60 300
func H_C01_sockets() {
	simStart()
	ctx := context.Background()
	mech := []string{"NULL", "PLAIN"}[vChoose("mech", 2)]
	opt := zmq4.WithSecurity(secOf(mech))
	opt2 := zmq4.WithSecurity(secOf(mech))
	var tx, rx zmq4.Socket
	switch vChoose("pattern", 4) {
	case 0:
		tx, rx = zmq4.NewPush(ctx, opt), zmq4.NewPull(ctx, opt2)
	case 1:
		tx, rx = zmq4.NewPair(ctx, opt), zmq4.NewPair(ctx, opt2)
	case 2:
		tx, rx = zmq4.NewDealer(ctx, opt), zmq4.NewDealer(ctx, opt2)
	case 3:
		tx, rx = zmq4.NewPub(ctx, opt), zmq4.NewSub(ctx, opt2)
		vAssert(rx.SetOption(zmq4.OptionSubscribe, "") == nil, "subscribe")
	}
	if vChoose("dialler", 2) == 0 {
		mustListen(tx, "sim://a")
		mustDial(rx, "sim://a")
	} else {
		mustListen(rx, "sim://a")
		mustDial(tx, "sim://a")
	}
	vQuiesce()
	maxF := vParam("frames", 2, 3)
	var sent [][][]byte
	for m := 0; m < 2; m++ {
		nf := 1 + vChoose("nframes", maxF)
		var fs [][]byte
		for i := 0; i < nf; i++ {
			n := 1
			if m == 0 && i < 2 {
				n = pickLen("len")
			}
			if n > 255 {
				vReach("long")
			}
			fs = append(fs, symBytes("frame", n))
		}
		sent = append(sent, fs)
		var err error
		if vChoose("multi", 2) == 1 {
			err = tx.SendMulti(zmq4.NewMsgFrom(fs...))
			vReach("multi")
		} else {
			err = tx.Send(zmq4.NewMsgFrom(fs...))
			vReach("single")
		}
		vAssert(err == nil, "send succeeds")
	}
	if mech == "PLAIN" {
		vReach("plain")
	}
	for m := range sent {
		msg, err := rx.Recv()
		vAssert(err == nil, "receive succeeds")
		vAssert(msg.Type == zmq4.UsrMsg, "message kind")
		sameFrames(msg.Frames, sent[m], "received message")
		for _, f := range msg.Frames {
			vObsInt("len", len(f))
		}
	}
	tx.Close()
	rx.Close()
}
