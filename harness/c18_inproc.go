package zzverif

import (
	"errors"
	"io"
	"net"
	"os"
	"time"

	zmq4 "github.com/luxfi/zmq/v4"
	"github.com/luxfi/zmq/v4/internal/inproc"
)

func inprocPair() (l *inproc.Listener, srv, cli net.Conn) {
	l, err := inproc.Listen("x")
	vAssert(err == nil, "listen succeeds")
	acc := make(chan net.Conn, 1)
	go func() {
		c, err := l.Accept()
		vAssert(err == nil, "accept succeeds")
		acc <- c
	}()
	cli, err = inproc.Dial("x")
	vAssert(err == nil, "dial succeeds")
	return l, <-acc, cli
}

// H_C18_stream writes chunks at one end and reads them with buffers of other sizes at the other.
//
//verif:prop C18
//verif:reach all eof split
//verif:sched
//verif:bounds 3 writes of 0-3 symbolic bytes (quick 2), either end writing, the buffer overwritten after each write; reads into buffers of 0-4 bytes until the end of the stream; every schedule with up to 2 delays
//verif:budget 60 400
func H_C18_stream() {
	l, srv, cli := inprocPair()
	w, r := cli, srv
	if vChoose("dir", 2) == 1 {
		w, r = srv, cli
	}
	nw := vParam("writes", 2, 3)
	var chunks [][]byte
	var want []byte
	for i := 0; i < nw; i++ {
		b := vBytes("chunk", vChoose("len", 4))
		chunks = append(chunks, b)
		want = append(want, b...)
	}
	size := 1 + vChoose("bufsize", 4)
	closes := vChoose("close", 2) == 1
	vExplore(vParam("delays", 2, 2))
	done := make(chan bool, 1)
	go func() {
		for _, b := range chunks {
			buf := append([]byte(nil), b...)
			n, err := w.Write(buf)
			vAssert(err == nil && n == len(buf), "write succeeds")
			for i := range buf {
				buf[i] = ^buf[i]
			}
		}
		if closes {
			w.Close()
		}
		done <- true
	}()
	var got []byte
	buf := make([]byte, size)
	for len(got) < len(want) {
		n, err := r.Read(buf)
		vAssert(err == nil, "bytes already written are readable")
		vAssert(n >= 0 && n <= size, "read count")
		if n < size && len(got)+n < len(want) {
			vReach("split")
		}
		got = append(got, buf[:n]...)
		vAssert(len(got) <= len(want), "no invented bytes")
	}
	vAssertSame(got, want, "bytes in order, each once")
	vReach("all")
	<-done
	if closes {
		vReach("eof")
		for i := 0; i < 2; i++ {
			n, err := r.Read(buf)
			vAssert(n == 0 && err == io.EOF, "end of stream after the last byte")
		}
		_, err := r.Write([]byte("x"))
		vAssert(err != nil, "writing to a closed peer fails")
	} else {
		vAssert(r.SetReadDeadline(time.Now().Add(-time.Second)) == nil, "deadline set")
		n, err := r.Read(buf)
		vAssert(n == 0 && isTimeout(err), "nothing left to read")
	}
	vExplore(0)
	w.Close()
	r.Close()
	l.Close()
}

func isTimeout(err error) bool {
	var e net.Error
	return errors.As(err, &e) && e.Timeout() || errors.Is(err, os.ErrDeadlineExceeded)
}

// H_C18_duplex writes in both directions at the same time.
//
//verif:prop C18
//verif:reach both
//verif:sched
//verif:bounds 9 (thorough 10) writes of one symbolic byte in each direction (beyond the internal buffering of 8), both ends reading concurrently; every schedule with 1 (thorough 2) delays
//verif:budget 60 300
func H_C18_duplex() {
	l, srv, cli := inprocPair()
	n := vParam("n", 9, 10)
	x, y := vBytes("x", n), vBytes("y", n)
	vExplore(vParam("delays", 1, 2))
	done := make(chan bool, 2)
	wr := func(c net.Conn, b []byte) {
		for i := range b {
			_, err := c.Write(b[i : i+1])
			vAssert(err == nil, "write succeeds")
		}
		done <- true
	}
	go wr(srv, x)
	go wr(cli, y)
	gx, gy := make([]byte, n), make([]byte, n)
	go func() {
		_, err := io.ReadFull(srv, gy)
		vAssert(err == nil, "read succeeds")
		done <- true
	}()
	_, err := io.ReadFull(cli, gx)
	vAssert(err == nil, "read succeeds")
	for i := 0; i < 3; i++ {
		<-done
	}
	vAssertSame(gx, x, "server to client")
	vAssertSame(gy, y, "client to server")
	vReach("both")
	srv.Close()
	cli.Close()
	l.Close()
}

// H_C18_close closes an end while operations are pending on either end.
//
//verif:prop C18
//verif:reach read write renewed
//verif:sched
//verif:bounds a pending read or a pending write (internal buffering full) on one end, which then closes itself, is closed by its peer, or reaches a deadline, any of 1 s past to 5 s ahead, set before or during the operation, then cleared or renewed (1 ns to 5 s) and reached again; 2 closes of each end; every schedule with up to 2 (thorough 3) delays
//verif:budget 60 300
func H_C18_close() {
	vDeadlockLabel("pending operation not unblocked")
	l, srv, cli := inprocPair()
	a, b := srv, cli
	if vChoose("end", 2) == 1 {
		a, b = cli, srv
	}
	how := vChoose("how", 4)
	read := vChoose("op", 2) == 0
	start := time.Now()
	to := time.Duration(0)
	if how >= 2 {
		to = vDur("deadline", -time.Second, 5*time.Second)
	}
	vExplore(vParam("delays", 2, 3))
	if how == 3 {
		a.SetDeadline(time.Now().Add(to))
	}
	type res struct {
		n   int
		err error
	}
	done := make(chan res, 1)
	go func() {
		if read {
			n, err := a.Read(make([]byte, 4))
			done <- res{n, err}
			return
		}
		for {
			n, err := a.Write([]byte("zz"))
			if err != nil {
				done <- res{n, err}
				return
			}
		}
	}()
	if vChoose("wait", 2) == 1 {
		vQuiesce()
	}
	switch how {
	case 0:
		vAssert(a.Close() == nil, "close succeeds")
	case 1:
		vAssert(b.Close() == nil, "close succeeds")
	case 2:
		a.SetDeadline(time.Now().Add(to))
	}
	r := <-done
	vAssert(r.err != nil && r.n == 0, "pending operation ends with an error")
	vAssert(time.Since(start) == vMax(to, 0), "as soon as that")
	if how >= 2 {
		vAssert(isTimeout(r.err), "deadline reported as a timeout")
		if read && vChoose("renew", 2) == 1 { // a later deadline instead
			start = time.Now()
			to2 := vDur("later", 1, 5*time.Second)
			vAssert(a.SetDeadline(start.Add(to2)) == nil, "deadline renewed")
			if vChoose("idle", 2) == 1 {
				n, err := a.Read(make([]byte, 4))
				vAssert(n == 0 && isTimeout(err), "the new deadline is reported as a timeout")
				vAssert(time.Since(start) == to2, "and not before it")
				vReach("renewed")
			}
			vAssert(a.SetDeadline(time.Now().Add(time.Second)) == nil, "deadline renewed")
		} else {
			vAssert(a.SetDeadline(time.Time{}) == nil, "deadline cleared")
		}
		if read {
			b.Write([]byte("ok"))
			buf := make([]byte, 4)
			n, err := a.Read(buf)
			vAssert(n == 2 && err == nil, "usable again after clearing or renewing the deadline")
		}
	} else if read && how == 1 {
		vAssert(r.err == io.EOF, "end of stream")
	}
	if read {
		vReach("read")
	} else {
		vReach("write")
	}
	a.Close()
	b.Close()
	a.Close()
	_, err := a.Read(make([]byte, 1))
	vAssert(err != nil, "read on a closed end fails")
	_, err = a.Write([]byte("x"))
	vAssert(err != nil, "write on a closed end fails")
	l.Close()
}

// H_C18_rendezvous checks listening, dialling and refusing.
//
//verif:prop C18
//verif:reach refused taken reuse waiting
//verif:sched
//verif:bounds two addresses, up to 3 connections dialled before or after being accepted, a dial waiting while the listener closes; every schedule with up to 2 (thorough 3) delays
//verif:budget 60 300
func H_C18_rendezvous() {
	vDeadlockLabel("dial or accept never returns")
	vExplore(vParam("delays", 2, 3))
	_, err := inproc.Dial("x")
	vAssert(err != nil, "dialling an address nobody listens on is refused")
	l, err := inproc.Listen("x")
	vAssert(err == nil, "listen succeeds")
	_, err = inproc.Listen("x")
	vAssert(err != nil, "an address has one listener")
	_, err = inproc.Dial("y")
	vAssert(err != nil, "dialling an address nobody listens on is refused")
	l2, err := inproc.Listen("y")
	vAssert(err == nil, "another address may be listened on")
	vReach("taken")
	n := vChoose("conns", 3)
	type dres struct {
		c   net.Conn
		err error
	}
	dials := make(chan dres, 4)
	accs := make(chan net.Conn, 4)
	order := vChoose("order", 2)
	dial := func() {
		for i := 0; i < n; i++ {
			go func() {
				c, err := inproc.Dial("x")
				dials <- dres{c, err}
			}()
		}
	}
	accept := func() {
		go func() {
			for i := 0; i < n; i++ {
				c, err := l.Accept()
				vAssert(err == nil, "accept succeeds")
				accs <- c
			}
		}()
	}
	if order == 0 {
		dial()
		accept()
	} else {
		accept()
		dial()
	}
	var cs, ss []net.Conn
	for i := 0; i < n; i++ {
		d := <-dials
		vAssert(d.err == nil, "dial succeeds")
		cs = append(cs, d.c)
		ss = append(ss, <-accs)
	}
	// every dialled connection is joined with exactly one accepted connection
	for i, c := range cs {
		_, err := c.Write([]byte{byte(i + 1)})
		vAssert(err == nil, "write succeeds")
	}
	var seen int
	for _, s := range ss {
		b := make([]byte, 2)
		k, err := s.Read(b)
		vAssert(k == 1 && err == nil, "each accepted connection has its own peer")
		seen |= 1 << b[0]
	}
	vAssert(seen == map[int]int{0: 0, 1: 2, 2: 6}[n], "connections joined one to one")
	// a dial that waits for an accept is refused when the listener closes
	go func() {
		c, err := inproc.Dial("x")
		dials <- dres{c, err}
	}()
	if vChoose("settle", 2) == 1 {
		vQuiesce()
	}
	vAssert(l.Close() == nil, "listener closes")
	d := <-dials
	vAssert(d.err != nil, "a dial pending at a closed listener is refused")
	vReach("waiting")
	_, err = inproc.Dial("x")
	vAssert(err != nil, "a closed address is refused")
	vReach("refused")
	_, err = l.Accept()
	vAssert(err != nil, "accepting on a closed listener fails")
	l3, err := inproc.Listen("x")
	vAssert(err == nil, "a closed address may be listened on again")
	vReach("reuse")
	l.Close()
	_, err = inproc.Listen("x")
	vAssert(err != nil, "closing the old listener twice leaves the new one")
	l3.Close()
	l2.Close()
	for _, c := range append(cs, ss...) {
		c.Close()
	}
}

// H_C18_frames carries long messages between sockets over the in-process transport.
//
//verif:prop C18 C01
//verif:reach long
//verif:bounds PAIR sockets over inproc, one message of 1-2 frames of length 0, 1, 255, 256 or 300 each way, NULL and PLAIN, contents symbolic
func H_C18_frames() {
	mech := []string{"NULL", "PLAIN"}[vChoose("mech", 2)]
	a := newSocketOf(zmq4.Pair, zmq4.WithSecurity(secOf(mech)))
	b := newSocketOf(zmq4.Pair, zmq4.WithSecurity(secOf(mech)))
	mustListen(a, "inproc://f")
	mustDial(b, "inproc://f")
	vQuiesce()
	lens := []int{0, 1, 255, 256, 300}
	tx, rx := a, b
	for dir := 0; dir < 2; dir++ {
		var fs [][]byte
		for i, n := 0, 1+vChoose("nframes", 2-dir); i < n; i++ {
			k := lens[vChoose("len", len(lens))]
			if k > 255 {
				vReach("long")
			}
			fs = append(fs, symBytes("frame", k))
		}
		m := zmq4.NewMsgFrom(fs...)
		var err error
		if vChoose("multi", 2) == 1 {
			err = tx.SendMulti(m)
		} else {
			err = tx.Send(m)
		}
		vAssert(err == nil, "send succeeds")
		got, err := rx.Recv()
		vAssert(err == nil, "receive succeeds")
		sameFrames(got.Frames, fs, "message over inproc")
		tx, rx = rx, tx
	}
	a.Close()
	b.Close()
}

// H_C18_setters sets the deadline of one direction, or of both, and uses both.
//
//verif:prop C18
//verif:reach read write both cleared
//verif:bounds one of the three ways to set a deadline on either end, any deadline of 1 s past to 5 s ahead, set before or while a read and a write (internal buffering full) wait; the direction with a deadline times out then, the other one waits on for 10 s and is then served; afterwards the deadline is cleared or not
//verif:budget 60 300
func H_C18_setters() {
	vDeadlockLabel("a pending operation ends")
	l, srv, cli := inprocPair()
	a, b := srv, cli
	if vChoose("end", 2) == 1 {
		a, b = cli, srv
	}
	which := vChoose("which", 3)
	set := []func(time.Time) error{a.SetDeadline, a.SetReadDeadline, a.SetWriteDeadline}[which]
	vAssert(a.LocalAddr() != nil && a.RemoteAddr() != nil, "a connection has addresses")
	to := vDur("deadline", -time.Second, 5*time.Second)
	start := time.Now()
	early := vChoose("early", 2) == 1
	if early {
		vAssert(set(start.Add(to)) == nil, "deadline set")
	}
	type res struct {
		n    int
		err  error
		when time.Duration
	}
	rd, wr := make(chan res, 1), make(chan res, 1)
	sent := 0
	go func() {
		n, err := a.Read(make([]byte, 4))
		rd <- res{n, err, time.Since(start)}
	}()
	go func() {
		for {
			n, err := a.Write([]byte{byte(sent)})
			if err != nil || time.Since(start) >= 10*time.Second {
				wr <- res{n, err, time.Since(start)}
				return
			}
			sent++
		}
	}()
	vQuiesce()
	if !early {
		vAssert(set(start.Add(to)) == nil, "deadline set")
	}
	vAdvance(10*time.Second - time.Since(start))
	b.Write([]byte("ok"))
	buf := make([]byte, 100)
	got := 0
	for got < sent {
		n, err := b.Read(buf)
		vAssert(err == nil && n > 0, "what was written arrives")
		for i := 0; i < n; i++ {
			vAssert(buf[i] == byte(got), "what was written arrives in order")
			got++
		}
	}
	vQuiesce()
	r, w := <-rd, <-wr
	if which != 2 {
		vAssert(isTimeout(r.err) && r.n == 0 && r.when == vMax(to, 0), "the read times out at its deadline")
		vReach("read")
	} else {
		vAssert(r.err == nil && r.n == 2 && r.when == 10*time.Second, "the read has no deadline")
	}
	if which != 1 {
		vAssert(isTimeout(w.err) && w.n == 0 && w.when == vMax(to, 0), "the write times out at its deadline")
		vReach("write")
	} else {
		vAssert(w.err == nil && w.n == 1 && w.when == 10*time.Second, "the write has no deadline")
	}
	if which == 0 {
		vReach("both")
	}
	if vChoose("clear", 2) == 1 {
		vAssert(set(time.Time{}) == nil, "deadline cleared")
		if which != 2 {
			n, err := a.Read(make([]byte, 4))
			vAssert(err == nil && n == 2, "reads again")
		}
		n, err := a.Write([]byte("x"))
		vAssert(err == nil && n == 1, "writes again")
		vReach("cleared")
	} else if which != 1 {
		n, err := a.Write([]byte("x"))
		vAssert(n == 0 && isTimeout(err), "the deadline stays in force for writing")
	} else {
		n, err := a.Read(make([]byte, 1))
		vAssert(n == 0 && isTimeout(err), "the deadline stays in force for reading")
	}
	a.Close()
	b.Close()
	vAssert(set(time.Now()) != nil, "no deadline on a closed connection")
	l.Close()
}
