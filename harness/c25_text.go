package zzverif

import (
	zmq4 "github.com/luxfi/zmq/v4"
)

// H_C25_encode encodes arbitrary bytes and decodes the text.
//
//verif:prop C25
//verif:reach roundtrip
//verif:bounds every byte string of 0-6 (thorough 40) bytes
//verif:budget 60 300
func H_C25_encode() {
	n := vParam("n", 6, 40)
	b := vBytes("data", vChoose("len", n+1))
	in := append([]byte(nil), b...)
	t := zmq4.Z85encode(b)
	vAssertSame(b, in, "input not modified")
	d, err := zmq4.Z85decode(t)
	vAssert(err == nil, "own encoding decodes")
	vAssert(len(d) == len(b), "decoded length")
	vAssertSame(d, b, "round trip")
	vReach("roundtrip")
	vObsStr("text", t)
	// the encoding is injective
	c := append([]byte(nil), b...)
	if len(c) > 0 {
		x := vByte("diff")
		vAssume(x != 0)
		c[vChoose("at", len(c))] ^= x
		vAssert(zmq4.Z85encode(c) != t, "different data, different text")
	}
}

func lower(b byte) byte {
	if b >= 'A' && b <= 'Z' {
		return b + 32
	}
	return b
}

// H_C25_decode decodes arbitrary text.
//
//verif:prop C25
//verif:reach accepted refused odd
//verif:bounds every text of 0-5 (thorough 8) arbitrary bytes, decoded as text and as a secret key
//verif:budget 60 300
func H_C25_decode() {
	n := vChoose("len", vParam("n", 5, 8)+1)
	t := vBytes("text", n)
	d, err := zmq4.Z85decode(string(t))
	p, perr := zmq4.AuthCurvePublic(string(t))
	vObsBool("err", err != nil)
	if n%2 == 1 {
		vReach("odd")
		vAssert(err != nil, "odd length refused")
	}
	vAssert((perr == nil) == (err == nil), "key text accepted exactly when it decodes")
	if err != nil {
		vReach("refused")
		return
	}
	vReach("accepted")
	e := zmq4.Z85encode(d)
	vAssert(len(e) == n, "re-encoded length")
	for i := range t {
		vAssert(lower(e[i]) == lower(t[i]), "re-encoded text up to letter case")
	}
	pd, err := zmq4.Z85decode(p)
	vAssert(err == nil, "public key decodes")
	vAssertSame(pd, d, "public key of this key")
}

// H_C25_keys generates key pairs.
//
//verif:prop C25
//verif:reach pair
//verif:native plain
//verif:bounds one key pair from arbitrary random bytes
func H_C25_keys() {
	pub, sec, err := zmq4.NewCurveKeypair()
	vAssert(err == nil, "key pair generated")
	a, err := zmq4.Z85decode(pub)
	vAssert(err == nil && len(a) == 32, "public key is the text of 32 bytes")
	b, err := zmq4.Z85decode(sec)
	vAssert(err == nil && len(b) == 32, "secret key is the text of 32 bytes")
	vAssert(zmq4.Z85encode(a) == pub && zmq4.Z85encode(b) == sec, "key text round-trips")
	p, err := zmq4.AuthCurvePublic(sec)
	vAssert(err == nil && p == pub, "public key derived from the secret key")
	vReach("pair")
}
