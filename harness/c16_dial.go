package zzverif

import (
	"context"
	"errors"
	"fmt"
	"net"
	"time"

	zmq4 "github.com/luxfi/zmq/v4"
	"github.com/luxfi/zmq/v4/transport"
)

// scriptTransport fails its first dials as told.
type scriptTransport struct {
	fails   int // attempts that fail
	hang    int // attempt that hangs until its context ends (1-based); 0 none
	at      []time.Time
	lerr    error
	listens int
}

type attemptError int

func (e attemptError) Error() string { return fmt.Sprint("attempt ", int(e)) }

func (t *scriptTransport) Dial(ctx context.Context, d transport.Dialer, addr string) (net.Conn, error) {
	t.at = append(t.at, time.Now())
	n := len(t.at)
	if n == t.hang {
		<-ctx.Done()
		return nil, ctx.Err()
	}
	if n <= t.fails {
		return nil, attemptError(n)
	}
	a, b := newPipe()
	b.Write(peerHello("NULL", true, "PULL", "x"))
	return a, nil
}
func (t *scriptTransport) Listen(ctx context.Context, addr string) (net.Listener, error) {
	t.listens++
	if t.lerr != nil {
		return nil, t.lerr
	}
	return simListen("script", addr)
}
func (t *scriptTransport) Addr(ep string) (string, error) { return ep, nil }

// H_C16_retry dials an endpoint whose first attempts fail.
//
//verif:prop C16
//verif:reach success exhausted closed hang default again
//verif:bounds every retry limit from -1 to 5 (thorough 12) and the default, any retry delay of 0-3 s and the default, 0-7 (thorough 14) failing attempts; the socket possibly closed at any moment up to 20 s (thorough 60 s), or while an attempt hangs; possibly a second dial with 0-2 failing attempts
//verif:budget 60 300
func H_C16_retry() {
	vDeadlockLabel("dialling never returns")
	tr := &scriptTransport{}
	vAssert(zmq4.RegisterTransport("script", tr) == nil, "registered")
	top := vParam("limit", 5, 12)
	limit := vInt("limit", -2, top)
	delay := 250 * time.Millisecond // the default
	custom := vChoose("custom", 2) == 1
	var opts []zmq4.Option
	if limit == -2 {
		limit = 10 // the default
		vReach("default")
	} else {
		opts = append(opts, zmq4.WithDialerMaxRetries(limit))
	}
	if custom {
		delay = vDur("delay", 0, 3*time.Second)
		opts = append(opts, zmq4.WithDialerRetry(delay))
	}
	s := newSocketOf(zmq4.Push, opts...)
	tr.fails = vChoose("fails", top+3)
	start := time.Now()
	closes := false
	var closeAt time.Duration
	switch vChoose("close", 3) {
	case 1:
		closes, closeAt = true, vDur("closeat", 1, time.Duration(vParam("closeby", 20, 60))*time.Second)
	case 2: // while an attempt hangs
		tr.hang = 1 + vChoose("hang", 3)
		closes, closeAt = true, time.Minute
	}
	if closes {
		go func() {
			time.Sleep(closeAt)
			s.Close()
		}()
	}
	err := s.Dial("script://x")
	took := time.Since(start)
	n := len(tr.at)
	for i, t := range tr.at {
		vAssert(t.Sub(start) == delay*time.Duration(i), "attempts are the configured delay apart")
	}
	want := tr.fails + 1 // attempts an unlimited dial makes
	if limit >= 0 && tr.fails > limit {
		want = limit + 1
	}
	last := delay * time.Duration(want-1)
	hung := tr.hang > 0 && tr.hang <= want
	switch {
	case hung:
		vAssert(err != nil && n == tr.hang && took == closeAt, "closing ends a hanging attempt and the retries")
		vReach("hang")
	case closes && closeAt < last:
		vAssert(err != nil, "a dial fails when its socket is closed")
		vAssert(took == closeAt, "closing ends the retries at once")
		// an attempt at that very moment may or may not have been made
		vAssert(delay*time.Duration(n-1) <= closeAt, "no attempt after the socket is closed")
		vAssert(n == want || closeAt <= delay*time.Duration(n), "every attempt before the socket is closed")
		vReach("closed")
	case closes && closeAt == last:
		vAssert(n == want || n == want-1, "no attempt after the socket is closed")
		vAssert(took == last, "dialling takes its retries")
	default:
		vAssert(n == want, "as many attempts as configured")
		vAssert(took == last, "dialling takes its retries")
		if tr.fails < want {
			vAssert(err == nil, "succeeds as soon as one attempt does")
			vReach("success")
		} else {
			var ae attemptError
			vAssert(errors.As(err, &ae) && int(ae) == n, "the last error is returned")
			vReach("exhausted")
		}
	}
	if !closes && vChoose("again", 2) == 1 { // a second dial starts over
		start, tr.at = time.Now(), nil
		tr.fails = vChoose("fails2", 3)
		want = tr.fails + 1
		if limit >= 0 && tr.fails > limit {
			want = limit + 1
		}
		err = s.Dial("script://y")
		n = len(tr.at)
		for i, t := range tr.at {
			vAssert(t.Sub(start) == delay*time.Duration(i), "attempts are the configured delay apart")
		}
		vAssert(n == want, "as many attempts as configured, on every dial")
		vAssert((err == nil) == (tr.fails < want), "succeeds as soon as one attempt does")
		vReach("again")
	}
	s.Close()
	vQuiesce()
	vAdvance(time.Minute)
	vAssert(len(tr.at) == n, "no attempt after dialling has returned")
	vAssert(vLiveGoroutines() == 0, "goroutines end")
}

// H_C16_listen listens several times.
//
//verif:prop C16
//verif:reach second retry
//verif:bounds 3 listens on one socket, each on a fresh, taken, malformed, unknown or refused endpoint
func H_C16_listen() {
	simStart()
	tr := &scriptTransport{lerr: errRefused}
	vAssert(zmq4.RegisterTransport("script", tr) == nil, "registered")
	acceptRaw("taken")
	s := newSocketOf([]zmq4.SocketType{zmq4.Push, zmq4.Sub, zmq4.Router}[vChoose("type", 3)])
	done := ""
	eps := []string{"sim://a", "sim://b", "sim://taken", "sim:a", "nope://a", "script://a", "sim://"}
	for i := 0; i < 3; i++ {
		k := vChoose("ep", len(eps))
		err := s.Listen(eps[k])
		if done == "" && k < 2 {
			vAssert(err == nil, "a socket that is not listening can listen")
			done = eps[k][6:]
			if i > 0 {
				vReach("retry")
			}
		} else {
			vAssert(err != nil, "a socket listens at most once, and on good endpoints only")
			if done != "" {
				vReach("second")
			}
		}
		if done == "" {
			vAssert(s.Addr() == nil, "no address until the socket listens")
		} else {
			vAssert(s.Addr() != nil && s.Addr().String() == done, "the address is the listener's")
		}
	}
	n := 1
	if done != "" {
		n = 2
		p := rawDial(done, string(partner(s.Type())), "p")
		vAssert(!p.rd.eof, "the listener accepts")
	}
	vAssert(len(simListeners) == n, "at most one listener")
	s.Close()
	vQuiesce()
	vAssert(len(simListeners) == 1, "the listener is closed with its socket")
}

// H_C16_race listens from two goroutines at once.
//
//verif:prop C16
//verif:reach done
//verif:sched
//verif:bounds two concurrent listens on different addresses, followed by a close; every schedule with up to 4 delays (thorough 6)
//verif:budget 60 300
func H_C16_race() {
	simStart()
	s := newSocketOf(zmq4.Pull)
	vExplore(vParam("delays", 4, 6))
	errs := make(chan error, 2)
	for _, ep := range []string{"sim://a", "sim://b"} {
		go func() { errs <- s.Listen(ep) }()
	}
	e1, e2 := <-errs, <-errs
	vExplore(0)
	vQuiesce()
	vAssert((e1 == nil) != (e2 == nil), "exactly one of two listens succeeds")
	vAssert(len(simListeners) == 1, "one listener")
	vAssert(simListeners[s.Addr().String()] != nil, "the address is the listener's")
	s.Close()
	vQuiesce()
	vAssert(len(simListeners) == 0, "the listener is closed with its socket")
	vReach("done")
}
