package zzverif

import (
	"bytes"
	"io"
	"net"
	"time"

	zmq4 "github.com/luxfi/zmq/v4"
	"github.com/luxfi/zmq/v4/security/null"
	"github.com/luxfi/zmq/v4/security/plain"
)

// ---- an independent ZMTP 3.0 codec (RFC 23), used as the oracle and to play the peer

func greetingBytes(mech string, server bool) []byte {
	g := make([]byte, 64)
	g[0], g[9], g[10] = 0xFF, 0x7F, 3
	copy(g[12:32], mech)
	if server {
		g[32] = 1
	}
	return g
}

func propBytes(name, val string) []byte {
	b := []byte{byte(len(name))}
	b = append(b, name...)
	n := len(val)
	b = append(b, byte(n>>24), byte(n>>16), byte(n>>8), byte(n))
	return append(b, val...)
}

func frameBytes(flags byte, body []byte) []byte {
	n := len(body)
	var b []byte
	if n > 255 {
		b = append(b, flags|2, 0, 0, 0, 0, byte(n>>24), byte(n>>16), byte(n>>8), byte(n))
	} else {
		b = append(b, flags, byte(n))
	}
	return append(b, body...)
}

func longFrameBytes(flags byte, body []byte) []byte {
	n := len(body)
	b := []byte{flags | 2, 0, 0, 0, 0, byte(n >> 24), byte(n >> 16), byte(n >> 8), byte(n)}
	return append(b, body...)
}

func cmdBytes(name string, body []byte) []byte {
	b := append([]byte{byte(len(name))}, name...)
	return frameBytes(4, append(b, body...))
}

func msgBytes(frames ...[]byte) []byte {
	var b []byte
	for i, f := range frames {
		var fl byte
		if i+1 < len(frames) {
			fl = 1
		}
		b = append(b, frameBytes(fl, f)...)
	}
	return b
}

type wireFrame struct {
	flags byte
	body  []byte
}

// parseWire splits a byte stream into frames; rest is what is left of an incomplete one.
func parseWire(b []byte) (fs []wireFrame, rest []byte) {
	for len(b) >= 2 {
		fl := b[0]
		var n, h int
		if fl&2 != 0 {
			if len(b) < 9 {
				return fs, b
			}
			for _, x := range b[1:9] {
				n = n<<8 | int(x)
			}
			h = 9
		} else {
			n, h = int(b[1]), 2
		}
		if n < 0 || len(b)-h < n {
			return fs, b
		}
		fs = append(fs, wireFrame{fl, b[h : h+n]})
		b = b[h+n:]
	}
	return fs, b
}

// parseMsgs groups frames into messages (command frames are skipped).
func parseMsgs(b []byte) (ms [][][]byte, rest []byte) {
	fs, rest := parseWire(b)
	var cur [][]byte
	for _, f := range fs {
		if f.flags&4 != 0 {
			continue
		}
		cur = append(cur, f.body)
		if f.flags&1 == 0 {
			ms = append(ms, cur)
			cur = nil
		}
	}
	if cur != nil {
		rest = append([]byte("open message"), rest...)
	}
	return ms, rest
}

// ---- connections

func secOf(mech string) zmq4.Security {
	if mech == "PLAIN" {
		return plain.Security("user", "pass")
	}
	return null.Security()
}

// peerHello is everything a well-behaved client peer sends to open a connection.
func peerHello(mech string, asServer bool, typ, id string) []byte {
	meta := append(propBytes("Socket-Type", typ), propBytes("Identity", id)...)
	b := greetingBytes(mech, asServer)
	if mech == "PLAIN" {
		if asServer {
			b = append(b, cmdBytes("WELCOME", nil)...)
			return append(b, cmdBytes("READY", meta)...)
		}
		b = append(b, cmdBytes("HELLO", []byte("\x04user\x04pass"))...)
		return append(b, cmdBytes("INITIATE", meta)...)
	}
	return append(b, cmdBytes("READY", meta)...)
}

// openWith opens a connection whose peer is the raw end returned, handshake bytes consumed.
func openWith(mech string, typ, peer zmq4.SocketType, server bool) (*zmq4.Conn, *end) {
	a, b := newPipe()
	b.Write(peerHello(mech, !server, string(peer), "peer"))
	c, err := zmq4.Open(a, secOf(mech), typ, zmq4.SocketIdentity("me"), server, nil)
	vAssert(err == nil, "open succeeds")
	b.drain()
	return c, b
}

func openRaw(typ, peer zmq4.SocketType) (*zmq4.Conn, *end) { return openWith("NULL", typ, peer, true) }

// drain discards and returns what has arrived at e.
func (e *end) drain() []byte {
	e.rd.mu.Lock()
	defer e.rd.mu.Unlock()
	b := e.rd.buf
	e.rd.buf = nil
	return b
}

// openPair opens both ends of a stream.
func openPair(mech string, ta, tb zmq4.SocketType) (ca, cb *zmq4.Conn, ea, eb *end) {
	ea, eb = newPipe()
	done := make(chan error, 1)
	go func() {
		var err error
		cb, err = zmq4.Open(eb, secOf(mech), tb, zmq4.SocketIdentity("b"), true, nil)
		done <- err
	}()
	ca, err := zmq4.Open(ea, secOf(mech), ta, zmq4.SocketIdentity("a"), false, nil)
	vAssert(err == nil, "client opens")
	vAssert(<-done == nil, "server opens")
	return ca, cb, ea, eb
}

func sameFrames(a, b [][]byte, label string) {
	vAssert(len(a) == len(b), label+" (number of frames)")
	for i := range a {
		vAssert(len(a[i]) == len(b[i]), label+" (frame length)")
		vAssertSame(a[i], b[i], label+" (frame content)")
	}
}

func isNetClosed(err error) bool { return err == net.ErrClosed || err == io.EOF }

func concat(bs ...[]byte) []byte { return bytes.Join(bs, nil) }

// symBytes returns n bytes of which the first and last few are symbolic.
func symBytes(label string, n int) []byte {
	if n <= 40 {
		return vBytes(label, n)
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i * 7)
	}
	copy(b, vBytes(label, 8))
	copy(b[n-8:], vBytes(label+".tail", 8))
	return b
}

// vDur gives any duration within the bounds, to the nanosecond.
func vDur(label string, lo, hi time.Duration) time.Duration {
	return time.Duration(vInt(label, int(lo), int(hi)))
}
