package zzverif

import (
	zmq4 "github.com/luxfi/zmq/v4"
)

var allTypes = []string{"PAIR", "PUB", "SUB", "REQ", "REP", "DEALER", "ROUTER", "PULL", "PUSH", "XPUB", "XSUB", "STREAM"}

// compatTable is the ZMTP 3.0 socket-type table (RFC 23), written independently.
var compatTable = map[string][]string{
	"PAIR":   {"PAIR"},
	"PUB":    {"SUB", "XSUB"},
	"XPUB":   {"SUB", "XSUB"},
	"SUB":    {"PUB", "XPUB"},
	"XSUB":   {"PUB", "XPUB"},
	"REQ":    {"REP", "ROUTER"},
	"REP":    {"REQ", "DEALER"},
	"DEALER": {"REP", "DEALER", "ROUTER"},
	"ROUTER": {"REQ", "DEALER", "ROUTER"},
	"PUSH":   {"PULL"},
	"PULL":   {"PUSH"},
	"STREAM": {"STREAM"},
}

func compatRef(a, b string) bool {
	for _, t := range allTypes {
		if a != t {
			continue
		}
		for _, p := range compatTable[t] {
			if b == p {
				return true
			}
		}
	}
	return false
}

// H_C06_table decides the table for every pair of names up to 7 bytes.
//
//verif:prop C06
//verif:reach compatible incompatible unknown
//verif:bounds every pair of names of 0 to 7 arbitrary bytes (covers all twelve type names)
//verif:budget 60 200
func H_C06_table() {
	a := string(vBlob("a", 0, 7))
	b := string(vBlob("b", 0, 7))
	got := zmq4.SocketType(a).IsCompatible(zmq4.SocketType(b))
	rev := zmq4.SocketType(b).IsCompatible(zmq4.SocketType(a))
	want := compatRef(a, b)
	vAssert(got == rev, "symmetric")
	vAssert(got == want, "matches the ZMTP table")
	vObsBool("got", got)
	if want {
		vReach("compatible")
	} else {
		vReach("incompatible")
		known := false
		for _, t := range allTypes {
			if a == t {
				known = true
			}
		}
		if !known {
			vReach("unknown")
		}
	}
}
