package zzverif

import (
	"strings"

	zmq4 "github.com/luxfi/zmq/v4"
)

type prop struct{ name, val string }

// parseProps is an independent decoder of the ZMTP metadata encoding.
func parseProps(p []byte) (out []prop, ok bool) {
	for len(p) > 0 {
		kl := int(p[0])
		p = p[1:]
		if len(p) < kl+4 {
			return nil, false
		}
		k := string(p[:kl])
		p = p[kl:]
		vl := int(p[0])<<24 | int(p[1])<<16 | int(p[2])<<8 | int(p[3])
		p = p[4:]
		if len(p) < vl {
			return nil, false
		}
		out = append(out, prop{k, string(p[:vl])})
		p = p[vl:]
	}
	return out, true
}

func lookupFold(md zmq4.Metadata, name string) (n int, val string) {
	for k, v := range md {
		if strings.EqualFold(k, name) {
			n++
			val = v
		}
	}
	return n, val
}

// H_C05_decode decodes arbitrary bytes as connection metadata.
//
//verif:prop C05 C03
//verif:reach decoded refused two
//verif:bounds every byte string of up to 15 (thorough 20) bytes; property names in ASCII
//verif:budget 60 400
func H_C05_decode() {
	p := vBlob("p", 0, vParam("len", 15, 20))
	q := append([]byte(nil), p...)
	md := zmq4.Metadata{}
	err := md.UnmarshalZMTP(p)
	want, ok := parseProps(q)
	vAssert((err == nil) == ok, "accepts exactly the well-formed encodings")
	vAssertSame(p, q, "input not modified")
	if !ok {
		vReach("refused")
		return
	}
	vReach("decoded")
	if len(want) > 1 {
		vReach("two")
	}
	for i, w := range want {
		n, v := lookupFold(md, w.name)
		vAssert(n == 1, "every announced property is reported once")
		last := true
		for _, x := range want[i+1:] {
			if strings.EqualFold(x.name, w.name) {
				last = false
			}
		}
		if last {
			vAssert(v == w.val, "property value")
		}
	}
	for k := range md {
		n := 0
		for _, w := range want {
			if strings.EqualFold(k, w.name) {
				n++
			}
		}
		vAssert(n > 0, "no invented property")
	}
}

// H_C05_roundtrip encodes metadata and decodes it with the library and with an independent decoder.
//
//verif:prop C05
//verif:reach encoded duplicate empty
//verif:bounds system properties plus 2 application properties, names of 0-2 (thorough 3) and values of 0-2 arbitrary bytes (names in ASCII), every map iteration order
//verif:budget 60 400
func H_C05_roundtrip() {
	md := zmq4.Metadata{}
	if vBool("sys") {
		md["Socket-Type"] = "PUB"
		md["Identity"] = string(vBlob("id", 0, 2))
	}
	n := vParam("name", 2, 3)
	k1 := string(vBlob("k1", 0, n))
	k2 := string(vBlob("k2", 0, n))
	md[k1] = string(vBlob("v1", 0, 2))
	md[k2] = string(vBlob("v2", 0, 2))
	vMapOrder(true)
	raw, err := md.MarshalZMTP()
	vMapOrder(false)
	dup := k1 != k2 && strings.EqualFold(k1, k2)
	if len(k1) == 0 || len(k2) == 0 {
		vAssert(err != nil, "empty name refused")
		vReach("empty")
		return
	}
	if dup {
		vAssert(err != nil, "names equal up to case refused")
		vReach("duplicate")
		return
	}
	vAssert(err == nil, "metadata encoded")
	vReach("encoded")
	got, ok := parseProps(raw)
	vAssert(ok && len(got) == len(md), "encoding well formed and complete")
	back := zmq4.Metadata{}
	vAssert(back.UnmarshalZMTP(raw) == nil, "own encoding decodes")
	vAssert(len(back) == len(md), "same number of properties")
	for k, v := range md {
		pub := "X-" + k
		if k == "Socket-Type" || k == "Identity" {
			pub = k
		}
		c, w := lookupFold(back, pub)
		vAssert(c == 1 && w == v, "property round-trips")
		c = 0
		for _, g := range got {
			if strings.EqualFold(g.name, pub) {
				c++
				vAssert(g.val == v, "encoded value")
			}
		}
		vAssert(c == 1, "property encoded under its public name")
	}
}

// H_C05_limits encodes names and values around their length fields.
//
//verif:prop C05
//verif:reach fits refused bigvalue
//verif:bounds one application property, name of 252..257 or 300 bytes, value of 0, 1, 255, 256, 32500, 33000 or 66000 bytes
//verif:budget 40 100
func H_C05_limits() {
	kl := []int{1, 252, 253, 254, 255, 256, 257, 300}[vChoose("klen", 8)]
	vl := []int{0, 1, 255, 256, 32500, 33000, 66000}[vChoose("vlen", 7)]
	c := vByte("c")
	vAssume(c >= 'a' && c <= 'z')
	k := strings.Repeat("a", kl-1) + string([]byte{c})
	v := string(symBytes("v", vl))
	md := zmq4.Metadata{k: v}
	raw, err := md.MarshalZMTP()
	if kl+2 > 255 {
		vAssert(err != nil, "name that does not fit its length field refused")
		vReach("refused")
		return
	}
	vAssert(err == nil, "encoded")
	if vl > 32768 {
		vReach("bigvalue")
	}
	got, ok := parseProps(raw)
	vAssert(ok && len(got) == 1, "encoding well formed")
	vAssert(strings.EqualFold(got[0].name, "X-"+k), "name kept")
	vAssert(got[0].val == v, "value kept")
	back := zmq4.Metadata{}
	vAssert(back.UnmarshalZMTP(raw) == nil && len(back) == 1, "own encoding decodes")
	n, w := lookupFold(back, "X-"+k)
	vAssert(n == 1 && w == v, "round-trips")
	vReach("fits")
}

// H_C05_property drives the property codec directly.
//
//verif:prop C05
//verif:reach wrote refused
//verif:bounds every byte string of up to 9 bytes decoded as one property; every property with a name and value of up to 3 bytes encoded into buffers of every length up to 16
func H_C05_property() {
	if vBool("decode") {
		p := vBlob("p", 0, 9)
		var kv zmq4.Property
		n, err := kv.Write(p)
		ok := false
		if len(p) > 0 {
			kl := int(p[0])
			if len(p) >= 1+kl+4 {
				vl := int(p[1+kl])<<24 | int(p[2+kl])<<16 | int(p[3+kl])<<8 | int(p[4+kl])
				if vl <= len(p)-5-kl {
					ok = true
					vAssert(err == nil && n == 5+kl+vl, "whole property consumed")
					vAssert(strings.EqualFold(kv.K, string(p[1:1+kl])), "name")
					vAssert(kv.V == string(p[5+kl:5+kl+vl]), "value")
					vReach("wrote")
				}
			}
		}
		if !ok {
			vAssert(err != nil, "truncated property refused")
			vReach("refused")
		}
		return
	}
	k, v := string(vBlob("k", 1, 3)), string(vBlob("v", 0, 3))
	buf := make([]byte, vChoose("room", 16))
	n, err := zmq4.Property{K: k, V: v}.Read(buf)
	need := 5 + len(k) + len(v)
	if len(buf) < need {
		vAssert(err != nil && err.Error() != "EOF", "buffer too small refused")
		vReach("refused")
		return
	}
	vAssert(n == need, "size")
	ps, ok := parseProps(buf[:n])
	vAssert(ok && len(ps) == 1 && strings.EqualFold(ps[0].name, k) && ps[0].val == v, "encoding")
	vReach("wrote")
}

// H_C05_commands checks command framing in both directions on a connection.
//
//verif:prop C05
//verif:reach decoded refused toolong sent
//verif:bounds received: one command frame with every body of up to 6 (thorough 9) bytes, or two command frames, or a message frame instead; sent: names of 0-3 symbolic, 254, 255, 256 and 300 bytes, bodies of 0-3, 255 and 300 bytes
//verif:budget 60 200
func H_C05_commands() {
	c, peer := openRaw(zmq4.Push, zmq4.Pull)
	if vBool("recv") {
		body := vBlob("body", 0, vParam("len", 6, 9))
		switch vChoose("kind", 3) {
		case 0:
			peer.Write(frameBytes(4, body))
			cmd, err := c.RecvCmd()
			if len(body) == 0 || int(body[0]) > len(body)-1 {
				vAssert(err != nil, "malformed command refused")
				vReach("refused")
				return
			}
			vAssert(err == nil, "well-formed command accepted")
			n := int(body[0])
			vAssert(cmd.Name == string(body[1:1+n]), "command name")
			vAssertSame(cmd.Body, body[1+n:], "command body")
			vAssert(len(cmd.Body) == len(body)-1-n, "command body length")
			vReach("decoded")
		case 1:
			peer.Write(frameBytes(5, body))
			peer.Write(frameBytes(4, body))
			_, err := c.RecvCmd()
			vAssert(err != nil, "command of several frames refused")
			vReach("refused")
		case 2:
			peer.Write(frameBytes(0, body))
			_, err := c.RecvCmd()
			vAssert(err != nil, "message is not a command")
			vReach("refused")
		}
		return
	}
	nl := []int{0, 1, 3, 254, 255, 256, 300}[vChoose("namelen", 7)]
	bl := []int{0, 1, 3, 255, 300}[vChoose("bodylen", 5)]
	name, body := string(symBytes("name", nl)), symBytes("body", bl)
	err := c.SendCmd(name, body)
	got := peer.drain()
	if nl > 255 {
		vAssert(err != nil && len(got) == 0, "overlong name refused, nothing sent")
		vReach("toolong")
		return
	}
	vAssert(err == nil, "command sent")
	payload := append(append([]byte{byte(nl)}, name...), body...)
	vAssertSame(got, frameBytes(4, payload), "command bytes")
	vReach("sent")
}

// H_C05_casedup encodes metadata some of whose names are equal up to case.
//
//verif:prop C05
//verif:reach duplicate distinct
//verif:bounds a system or an application property and an application property whose name differs from it in the case of any of its letters or in one letter; every map iteration order
//verif:budget 30 60
func H_C05_casedup() {
	base := []string{"Identity", "Socket-Type", "abc"}[vChoose("base", 3)]
	b := []byte(base)
	for i := range b {
		if b[i] >= 'a' && b[i] <= 'z' || b[i] >= 'A' && b[i] <= 'Z' {
			if vBool("case") {
				b[i] ^= 0x20
			}
		}
	}
	other := vChoose("other", 2) == 1
	if other {
		b[len(b)-1] ^= 1
	}
	name := string(b)
	md := zmq4.Metadata{base: "v", name: "w"}
	vMapOrder(true)
	raw, err := md.MarshalZMTP()
	vMapOrder(false)
	switch {
	case name == base:
		vAssert(err == nil, "one property encoded")
	case other:
		vAssert(err == nil, "different names encoded")
		ps, ok := parseProps(raw)
		vAssert(ok && len(ps) == 2, "both properties encoded")
		vReach("distinct")
	default:
		vAssert(err != nil, "names equal up to case refused")
		vReach("duplicate")
	}
}
