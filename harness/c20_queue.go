package zzverif

import (
	zmq4 "github.com/luxfi/zmq/v4"
)

// H_C20_ops compares the queue with a slice for every sequence of operations.
//
//verif:prop C20
//verif:reach checked popped reset crossed
//verif:bounds every sequence of N operations (push, pop, peek, reset) from a queue pre-filled with 0, 511 or 1023 messages of which 0, 511 or 1022 were popped; message contents symbolic
func H_C20_ops() {
	q := zmq4.NewQueue()
	var ref [][]byte
	base := 0
	switch vChoose("fill", 3) {
	case 1:
		base = 511
	case 2:
		base = 1023
	}
	for i := 0; i < base; i++ {
		b := []byte{byte(i), byte(i >> 8)}
		q.Push(zmq4.NewMsg(b))
		ref = append(ref, b)
	}
	pops := 0
	if base > 0 {
		switch vChoose("drop", 3) {
		case 1:
			pops = 511
		case 2:
			pops = base - 1
		}
	}
	for i := 0; i < pops; i++ {
		q.Pop()
		ref = ref[1:]
	}
	n := vParam("ops", 5, 7)
	for i := 0; i < n; i++ {
		switch vChoose("op", 4) {
		case 0:
			b := vBytes("payload", 1)
			q.Push(zmq4.NewMsg(b))
			ref = append(ref, b)
		case 1:
			vAssume(len(ref) > 0)
			q.Pop()
			ref = ref[1:]
			vReach("popped")
		case 2:
			// observation below
		case 3:
			q.Init()
			ref = nil
			vReach("reset")
		}
		vAssert(q.Len() == len(ref), "length")
		vObsInt("len", q.Len())
		m, ok := q.Peek()
		vAssert(ok == (len(ref) > 0), "emptiness")
		if ok {
			vAssert(len(m.Frames) == 1, "front shape")
			vAssertSame(m.Frames[0], ref[0], "front element")
		}
		if len(ref) > 512 {
			vReach("crossed")
		}
	}
	// drain a few elements: order must be that of insertion
	for i := 0; i < 3 && len(ref) > 0; i++ {
		m, ok := q.Peek()
		vAssert(ok, "drain emptiness")
		vAssertSame(m.Frames[0], ref[0], "drain order")
		q.Pop()
		ref = ref[1:]
		vAssert(q.Len() == len(ref), "drain length")
	}
	vReach("checked")
}

// H_C20_long fills across two block boundaries and drains everything.
//
//verif:prop C20
//verif:reach done
//verif:bounds push a+b messages with c pops in between, a in {510..514}, b in {0, 1, 512, 514}, c in {0, 1, a-1, a}; complete drain
func H_C20_long() {
	q := zmq4.NewQueue()
	a := 510 + vChoose("a", 5)
	b := []int{0, 1, 512, 514}[vChoose("b", 4)]
	c := []int{0, 1, a - 1, a}[vChoose("c", 4)]
	tag := vBytes("tag", 2)
	next, first := 0, 0
	push := func(n int) {
		for i := 0; i < n; i++ {
			q.Push(zmq4.NewMsgFrom([]byte{byte(next), byte(next >> 8)}, tag))
			next++
		}
	}
	pop := func(n int) {
		for i := 0; i < n; i++ {
			m, ok := q.Peek()
			vAssert(ok && len(m.Frames) == 2, "front present")
			f := m.Frames[0]
			vAssert(len(f) == 2 && int(f[0])|int(f[1])<<8 == first, "fifo order")
			vAssertSame(m.Frames[1], tag, "content kept")
			q.Pop()
			first++
			vAssert(q.Len() == next-first, "length")
		}
	}
	push(a)
	pop(c)
	push(b)
	pop(next - first)
	_, ok := q.Peek()
	vAssert(!ok && q.Len() == 0, "empty at the end")
	push(1)
	pop(1)
	vReach("done")
}
