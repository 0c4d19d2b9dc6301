package zzverif

import (
	"context"
	"errors"
	"net"
	"strings"

	zmq4 "github.com/luxfi/zmq/v4"
	"github.com/luxfi/zmq/v4/transport"
)

// recTransport records what it is asked to do.
type recTransport struct {
	id     int
	addrs  []string
	dials  []string
	lists  []string
	refuse string
}

var errRec = errors.New("recorded")
var errRecAddr = errors.New("bad address")

func (t *recTransport) Dial(ctx context.Context, d transport.Dialer, addr string) (net.Conn, error) {
	t.dials = append(t.dials, addr)
	return nil, errRec
}
func (t *recTransport) Listen(ctx context.Context, addr string) (net.Listener, error) {
	t.lists = append(t.lists, addr)
	return nil, errRec
}
func (t *recTransport) Addr(ep string) (string, error) {
	t.addrs = append(t.addrs, ep)
	if ep == t.refuse {
		return "", errRecAddr
	}
	return "<" + ep + ">", nil
}

// H_C22_split dials and listens on arbitrary endpoints.
//
//verif:prop C22 C16
//verif:reach accepted malformed unknown badaddr
//verif:bounds endpoints of 0-4 arbitrary bytes, and of up to 2 arbitrary bytes (or "r", a registered name), "://" and up to 4 arbitrary bytes with a second separator possible; Dial and Listen, PUSH and SUB sockets
//verif:budget 60 300
func H_C22_split() {
	rec := &recTransport{refuse: "no"}
	vAssert(zmq4.RegisterTransport("r", rec) == nil, "registered")
	s := newSocketOf([]zmq4.SocketType{zmq4.Push, zmq4.Sub}[vChoose("type", 2)], zmq4.WithDialerMaxRetries(0))
	var name, rest, ep string
	malformed := false
	switch vChoose("shape", 3) {
	case 0:
		ep = string(vBytes("ep", vChoose("len", 5)))
		malformed = !strings.Contains(ep, "://")
		if !malformed {
			i := strings.Index(ep, "://")
			name, rest = ep[:i], ep[i+3:]
		}
	case 1:
		name = string(vBytes("name", vChoose("nlen", 3)))
		rest = string(vBytes("rest", vChoose("rlen", 5)))
		ep = name + "://" + rest
	case 2:
		name = "r"
		rest = string(vBytes("rest", vChoose("rlen", 5)))
		ep = name + "://" + rest
	}
	if !malformed && (strings.Contains(rest, "://") || strings.Contains(name, "://")) {
		malformed = true
	}
	if strings.Contains(ep, ":://") || strings.Contains(ep, "://:") {
		// overlapping readings such as "a:://b" have one separator each: keep them
	}
	var err error
	listen := vChoose("listen", 2) == 1
	if listen {
		err = s.Listen(ep)
	} else {
		err = s.Dial(ep)
	}
	vAssert(err != nil, "the recording transport never connects")
	used := append(append([]string(nil), rec.dials...), rec.lists...)
	switch {
	case malformed:
		vReach("malformed")
		vAssert(len(used) == 0, "no attempt on a malformed endpoint")
	case name != "r":
		vReach("unknown")
		vAssert(len(used) == 0 && len(rec.addrs) == 0, "no attempt on an unknown transport")
	case rest == "no":
		vReach("badaddr")
		vAssert(len(used) == 0, "no attempt on a refused address")
		vAssert(errors.Is(err, errRecAddr), "address error reported")
	default:
		vReach("accepted")
		vAssert(len(used) == 1 && used[0] == "<"+rest+">", "transport gets the normalised address")
		vAssert(listen == (len(rec.lists) == 1), "listen listens, dial dials")
		vAssert(errors.Is(err, errRec), "transport error reported")
	}
	s.Close()
}

// H_C22_addr normalises TCP and UDP addresses.
//
//verif:prop C22
//verif:reach wildcard kept v6 refused
//verif:bounds hosts of 0-3 and ports of 0-2 arbitrary bytes without colons and brackets, bracketed hosts of 1-3 arbitrary bytes with at least one colon, tcp and udp
//verif:budget 60 300
func H_C22_addr() {
	tr := transport.New([]string{"tcp", "udp"}[vChoose("net", 2)])
	port := vBytes("port", vChoose("plen", 3))
	for _, c := range port {
		vAssume(c != ':' && c != '[' && c != ']')
	}
	wantPort := string(port)
	if wantPort == "" || wantPort == "*" {
		wantPort = "0"
		vReach("wildcard")
	}
	host := vBytes("host", vChoose("hlen", 4))
	switch vChoose("shape", 3) {
	case 0:
		for _, c := range host {
			vAssume(c != ':' && c != '[' && c != ']' && c != '%')
		}
		wantHost := string(host)
		if wantHost == "" || wantHost == "*" {
			wantHost = "0.0.0.0"
		} else {
			vReach("kept")
		}
		got, err := tr.Addr(string(host) + ":" + string(port))
		vAssert(err == nil, "accepted")
		vAssert(got == wantHost+":"+wantPort, "host and port normalised")
	case 1:
		colon := false
		for _, c := range host {
			vAssume(c != '[' && c != ']' && c != '%')
			if c == ':' {
				colon = true
			}
		}
		vAssume(colon)
		got, err := tr.Addr("[" + string(host) + "]:" + string(port))
		vAssert(err == nil, "accepted")
		vAssert(got == "["+string(host)+"]:"+wantPort, "bracketed host kept")
		vReach("v6")
		_, err = tr.Addr(string(host) + ":" + string(port))
		vAssert(err != nil, "a host with colons needs brackets")
	case 2:
		for _, c := range host {
			vAssume(c != ':')
		}
		_, err := tr.Addr(string(host))
		vAssert(err != nil, "a missing port is refused")
		vReach("refused")
	}
}

// H_C22_other checks that path-like addresses pass unchanged.
//
//verif:prop C22
//verif:reach unix unknown
//verif:bounds addresses of 0-6 arbitrary bytes
func H_C22_other() {
	a := string(vBytes("a", vChoose("len", 7)))
	got, err := transport.New("unix").Addr(a)
	vAssert(err == nil && got == a, "paths are kept")
	vReach("unix")
	_, err = transport.New(string(vBytes("net", 3)) + "z").Addr(a)
	vAssert(err != nil, "unknown network refused")
	vReach("unknown")
}

// H_C22_registry registers transports under arbitrary names.
//
//verif:prop C22
//verif:reach taken free builtin
//verif:bounds 3 registrations under names of 0-2 arbitrary bytes (thorough 4 registrations) or a built-in name, in every combination
//verif:budget 60 300
func H_C22_registry() {
	model := map[string]int{"ipc": -1, "tcp": -1, "udp": -1, "inproc": -1}
	names := []string{"ipc", "tcp", "udp", "inproc"}
	n := vParam("regs", 3, 4)
	recs := make([]*recTransport, n)
	for i := 0; i < n; i++ {
		recs[i] = &recTransport{id: i}
		var name string
		if vChoose("builtin", 2) == 1 {
			name = names[vChoose("which", 4)]
		} else {
			name = string(vBytes("name", vChoose("len", 3)))
		}
		taken := false
		for _, x := range names {
			if x == name {
				taken = true
			}
		}
		err := zmq4.RegisterTransport(name, recs[i])
		vAssert((err != nil) == taken, "refused exactly when the name is taken")
		if taken {
			vReach("taken")
			if model[name] == -1 {
				vReach("builtin")
			}
		} else {
			vReach("free")
			names = append(names, name)
			model[name] = i
		}
	}
	got := zmq4.Transports()
	vAssert(len(got) == len(names), "as many names as registered transports")
	for i := 1; i < len(got); i++ {
		vAssert(got[i-1] < got[i], "names sorted and unique")
	}
	for _, x := range names {
		found := false
		for _, g := range got {
			if g == x {
				found = true
			}
		}
		vAssert(found, "every registered name reported")
	}
	// the transport reached under a name is the first one registered
	for name, i := range model {
		if i < 0 || strings.Contains(name, "://") {
			continue
		}
		s := newSocketOf(zmq4.Push, zmq4.WithDialerMaxRetries(0))
		err := s.Dial(name + "://q")
		vAssert(err != nil, "dial reported")
		for j, r := range recs {
			want := 0
			if j == i {
				want = 1
			}
			vAssert(len(r.dials) == want, "the first registration stays in place")
			r.dials = nil
		}
		s.Close()
	}
}
