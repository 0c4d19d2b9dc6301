package zzverif

import (
	"errors"
	"time"

	zmq4 "github.com/luxfi/zmq/v4"
	"github.com/luxfi/zmq/v4/security/plain"
)

// announcedBy returns what a socket announces to a peer that connects to it: its mechanism and identity.
func announcedBy(s zmq4.Socket, addr string) (mech, id string) {
	c, err := simDial("sim", addr)
	vAssert(err == nil, "connects")
	e := c.(*end)
	hello := peerHello("NULL", false, string(partner(s.Type())), "x")
	e.Write(hello[:64])
	vQuiesce()
	b := e.drain()
	vAssert(len(b) >= 64, "the socket answers")
	mech = "NULL"
	if b[12] == 'P' {
		mech = "PLAIN"
		e.Close()
		c, err = simDial("sim", addr)
		vAssert(err == nil, "connects")
		e = c.(*end)
		e.Write(peerHello("PLAIN", false, string(partner(s.Type())), "x"))
		vQuiesce()
		b = e.drain()
	} else {
		e.Write(hello[64:])
		vQuiesce()
		b = append(b, e.drain()...)
	}
	names, bodies := splitCmds(b[64:], "handshake")
	last := len(names) - 1
	vAssert(last >= 0 && names[last] == "READY", "the socket completes the handshake")
	meta := bodies[last]
	for len(meta) > 0 {
		n := int(meta[0])
		name := string(meta[1 : 1+n])
		k := int(meta[3+n])<<8 | int(meta[4+n])
		if name == "Identity" {
			id = string(meta[5+n : 5+n+k])
		} else {
			vAssert(name == "Socket-Type" && string(meta[5+n:5+n+k]) == string(s.Type()), "the socket announces its type")
		}
		meta = meta[5+n+k:]
	}
	e.Close()
	vQuiesce()
	return mech, id
}

// config is what a socket is to be configured with.
type config struct {
	id      string
	mech    string
	timeout time.Duration
	retry   time.Duration
	max     int
	auto    bool
}

// check finds the configuration of s out by what s does.
func (c config) check(s zmq4.Socket, addr string) {
	t := s.Type()
	// dialling where nobody listens
	n := simAttempts
	start := time.Now()
	refused := s.Dial("sim://nobody")
	vAssert(refused != nil && errors.Is(refused, errRefused), "dialling nobody fails")
	vAssert(simAttempts-n == 1+c.max, "the number of retries is the configured one")
	vAssert(time.Since(start) == time.Duration(c.max)*c.retry, "the retry delay is the configured one")
	// sending while there is no peer
	for _, a := range awaitTypes {
		if t == a && t != zmq4.Router {
			start = time.Now()
			err := s.Send(anyMsg())
			vAssert(err != nil, "no success without a peer")
			vAssert(time.Since(start) == c.timeout, "the timeout is the configured one")
		}
	}
	mech, id := announcedBy(s, addr)
	vAssert(mech == c.mech, "the mechanism is the configured one")
	if c.id != "" {
		vAssert(len(id) == len(c.id), "the identity is the configured one (length)")
		vAssertSame([]byte(id), []byte(c.id), "the identity is the configured one")
	} else {
		vAssert(len(id) > 0, "a socket without an identity makes one")
	}
	// losing a peer it dialled
	l := acceptRaw("raw" + addr)
	old := simOnConn
	simOnConn = func(cli, srv *end) { srv.Write(peerHello(c.mech, true, string(partner(t)), "r")) }
	vAssert(s.Dial("sim://raw"+addr) == nil, "dials")
	vQuiesce()
	n = simAttempts
	l.mu.Lock()
	first := l.queue[0]
	l.queue = nil
	l.mu.Unlock()
	first.Close()
	vQuiesce()
	if t == zmq4.Push || t == zmq4.Req { // notice a lost peer when they use it
		s.Send(anyMsg())
		recvAsync(s)
		vQuiesce()
	}
	if c.auto {
		vAssert(simAttempts-n == 1, "a lost peer is dialled again")
	} else {
		vAssert(simAttempts == n, "a lost peer is not dialled again")
	}
	simOnConn = old
}

// H_C29_options creates sockets with options in any order and finds out what they do.
//
//verif:prop C29
//verif:reach configured default
//verif:bounds all 11 ZMTP socket types; identity of 0-2 symbolic bytes or none given, NULL, PLAIN or nil mechanism or none given, any timeout of 1 ns to 10 s, any retry delay of 1 ns to 3 s, 0-2 retries, automatic reconnection on or off; 4 orders of the options, each given once or (last one counts) twice; another socket of the same type with other options or none, created before or after
//verif:budget 90 300
func H_C29_options() {
	simStart()
	t := zmtpTypes[vChoose("type", len(zmtpTypes))]
	c := config{mech: "NULL", timeout: vDur("timeout", 1, 10*time.Second), retry: vDur("retry", 1, 3*time.Second),
		max: vChoose("max", 3), auto: vChoose("auto", 2) == 1}
	opts := []zmq4.Option{
		zmq4.WithTimeout(c.timeout),
		zmq4.WithDialerRetry(c.retry),
		zmq4.WithDialerMaxRetries(c.max),
		zmq4.WithAutomaticReconnect(c.auto),
	}
	if k := vChoose("id", 4); k < 3 {
		c.id = string(vBytes("identity", k))
		opts = append(opts, zmq4.WithID(zmq4.SocketIdentity(c.id)))
	}
	switch vChoose("mech", 4) {
	case 0:
		c.mech = "PLAIN"
		opts = append(opts, zmq4.WithSecurity(plain.Security("user", "pass")))
	case 1:
		opts = append(opts, zmq4.WithSecurity(secOf("NULL")))
	case 2:
		opts = append(opts, zmq4.WithSecurity(nil))
	}
	order := vChoose("order", 4)
	if order&1 == 1 {
		for i, j := 0, len(opts)-1; i < j; i, j = i+1, j-1 {
			opts[i], opts[j] = opts[j], opts[i]
		}
	}
	if order&2 == 2 {
		opts = append([]zmq4.Option{zmq4.WithTimeout(time.Hour), zmq4.WithDialerRetry(time.Hour), zmq4.WithDialerMaxRetries(-1),
			zmq4.WithAutomaticReconnect(!c.auto), zmq4.WithLogger(nil)}, opts...)
	}
	var other zmq4.Socket
	if order < 2 {
		other = newSocketOf(t, zmq4.WithDialerMaxRetries(1), zmq4.WithDialerRetry(time.Minute))
	}
	s := newSocketOf(t, opts...)
	if order >= 2 {
		other = newSocketOf(t, zmq4.WithDialerMaxRetries(1), zmq4.WithDialerRetry(time.Minute))
	}
	mustListen(s, "sim://a")
	mustListen(other, "sim://b")
	c.check(s, "a")
	vReach("configured")
	d := config{mech: "NULL", timeout: 5 * time.Minute, retry: time.Minute, max: 1, auto: true}
	d.check(other, "b")
	_, id := announcedBy(other, "b")
	_, id2 := announcedBy(s, "a")
	vAssert(id != id2, "a generated identity is the socket's own")
	vReach("default")
	vAssert(s.Close() == nil, "close works")
	vAssert(other.Close() == nil, "close works")
	vQuiesce()
	vAssert(vLiveGoroutines() == 0, "no goroutine is left")
}

// H_C29_setget sets options on a socket and reads them back.
//
//verif:prop C29
//verif:reach stored refused unset
//verif:bounds all 12 socket types; two settings of any of: subscribe and unsubscribe with a string of up to 2 symbolic bytes, high-water mark of -2 to 5, identity, a name of 3 symbolic bytes, with values of the right or of another kind; each read back from the socket and from another one
//verif:budget 60 300
func H_C29_setget() {
	simStart()
	types := append([]zmq4.SocketType{zmq4.Stream}, zmtpTypes...)
	t := types[vChoose("type", len(types))]
	s, other := newSocketOf(t), newSocketOf(t)
	own := string(vBytes("own", 3))
	vAssume(own != zmq4.OptionHWM)
	names := []string{zmq4.OptionSubscribe, zmq4.OptionUnsubscribe, zmq4.OptionHWM, zmq4.OptionIdentity, own}
	stored := map[string]interface{}{}
	topics := topicSet{}
	for i := 0; i < 2; i++ {
		k := vChoose("name", len(names))
		var v interface{}
		switch vChoose("kind", 3) {
		case 0:
			v = vInt("int", -2, 5)
		case 1:
			v = string(vBytes("string", vChoose("len", 3)))
		case 2:
			v = []byte("bytes")
		}
		ok := true
		switch t {
		case zmq4.Pub:
			n, is := v.(int)
			ok = k == 2 && is && n >= 0
		case zmq4.Sub:
			_, is := v.(string)
			ok = k < 2 && is
		}
		err := s.SetOption(names[k], v)
		vAssert((err == nil) == ok, "an option is accepted exactly when the socket has it and the value fits")
		if ok {
			stored[names[k]] = v
			vReach("stored")
			if t == zmq4.Sub {
				if k == 0 {
					topics = topics.add([]byte(v.(string)))
				} else {
					topics = topics.del([]byte(v.(string)))
				}
			}
		} else {
			vReach("refused")
		}
		for _, name := range names {
			got, err := s.GetOption(name)
			want, set := stored[name]
			vAssert((err == nil) == set, "an option can be read exactly when it has been set")
			if set {
				sameValue(got, want, "an option is what it was set to last")
			} else {
				vAssert(got == nil, "an option that was not set has no value")
				vReach("unset")
			}
			_, err = other.GetOption(name)
			vAssert(err != nil, "another socket's options are its own")
		}
		if t == zmq4.Sub {
			checkTopics(s.(zmq4.Topics).Topics(), topics)
			vAssert(len(other.(zmq4.Topics).Topics()) == 0, "another socket's subscriptions are its own")
		}
	}
	s.Close()
	other.Close()
}

func sameValue(a, b interface{}, label string) {
	switch a := a.(type) {
	case int:
		bi, ok := b.(int)
		vAssert(ok && a == bi, label)
	case string:
		bs, ok := b.(string)
		vAssert(ok && len(a) == len(bs), label)
		vAssertSame([]byte(a), []byte(bs), label)
	case []byte:
		bb, ok := b.([]byte)
		vAssert(ok && string(a) == string(bb), label)
	default:
		vFail(label)
	}
}

// H_C29_hwm sets the high-water mark of a publisher and counts what a stalled subscriber gets.
//
//verif:prop C29
//verif:reach marked
//verif:bounds PUB; the mark set twice, to any of -1, 1, 2, 3 or a value of another kind, before a subscriber connects, between two subscribers, or never (default); 6 messages published while both are stalled, which then recover
//verif:budget 60 300
func H_C29_hwm() {
	simStart()
	s := newSocketOf(zmq4.Pub)
	mustListen(s, "sim://a")
	hwm := zmq4.DefaultSendHwm
	var marks []int
	var ps []*rawPeer
	for i := 0; i < 2; i++ {
		switch v := vChoose("mark", 6); v {
		case 0:
			vAssert(s.SetOption(zmq4.OptionHWM, -1) != nil, "a negative mark is refused")
		case 1, 2, 3:
			vAssert(s.SetOption(zmq4.OptionHWM, v) == nil, "a mark is accepted")
			hwm = v
		case 4:
			vAssert(s.SetOption(zmq4.OptionHWM, "1") != nil, "a mark that is no number is refused")
		}
		marks = append(marks, hwm)
		p := rawDial("a", "SUB", string([]byte{'s', byte('0' + i)}))
		subscribeAll(p)
		simAccepted[i].stallWrites(true)
		ps = append(ps, p)
	}
	const n = 6
	for i := 0; i < n; i++ {
		publish(s, i)
		vQuiesce()
	}
	for i, p := range ps {
		simAccepted[i].stallWrites(false)
		vQuiesce()
		ns := sequence(p.msgs("subscriber"), "subscriber")
		// one or two may be on their way when the queue fills
		vAssert(len(ns) >= min(n, marks[i]), "a subscriber misses nothing within its mark")
		vAssert(len(ns) <= marks[i]+2, "a subscriber gets nothing beyond its mark")
		for j, k := range ns {
			vAssert(j == k, "and gets what was published first")
		}
	}
	vReach("marked")
	s.Close()
}
