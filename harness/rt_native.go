//go:build !verifengine

package zzverif

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"runtime"
	"strings"
	"sync"
	"testing/synctest"
	"time"
)

// Native implementation of the harness run time: replays recorded inputs on the real code.

type inputVal struct {
	Name  string `json:"name"`
	Kind  string `json:"kind"`
	N     uint64 `json:"n"`
	Bytes []int  `json:"bytes"`
}

type obsVal struct {
	Label string `json:"label"`
	Val   string `json:"val"`
}

type nativeState struct {
	mu      sync.Mutex
	inputs  map[string]inputVal
	count   map[string]int
	obs     []obsVal
	reached []string
	tier    string
	bubble  bool
	fails   []string
	logs    []string
}

var nat = &nativeState{}

type assumeFailed struct{}
type assertFailed struct{ label string }

func (n *nativeState) get(label string) inputVal {
	n.mu.Lock()
	defer n.mu.Unlock()
	n.count[label]++
	name := label
	if c := n.count[label]; c > 1 {
		name = fmt.Sprintf("%s#%d", label, c)
	}
	return n.inputs[name]
}

func (v inputVal) raw() []byte {
	b := make([]byte, len(v.Bytes))
	for i, x := range v.Bytes {
		b[i] = byte(x)
	}
	return b
}

func vByte(label string) byte  { return byte(nat.get(label).N) }
func vBool(label string) bool  { return nat.get(label).N != 0 }
func vU16(label string) uint16 { return uint16(nat.get(label).N) }
func vU32(label string) uint32 { return uint32(nat.get(label).N) }
func vU64(label string) uint64 { return nat.get(label).N }
func vInt(label string, lo, hi int) int {
	v := nat.get(label)
	if v.Kind == "" {
		return lo
	}
	return int(v.N)
}
func vAnd(a, b bool) bool { return a && b }
func vOr(a, b bool) bool  { return a || b }
func vMin(a, b time.Duration) time.Duration {
	if a < b {
		return a
	}
	return b
}
func vMax(a, b time.Duration) time.Duration {
	if a < b {
		return b
	}
	return a
}
func vChoose(label string, n int) int { return int(nat.get(label).N) }
func vBytes(label string, n int) []byte {
	b := nat.get(label).raw()
	for len(b) < n {
		b = append(b, 0)
	}
	return b[:n:n]
}
func vString(label string, n int) string { return string(vBytes(label, n)) }
func vBlob(label string, lo, hi int) []byte {
	v := nat.get(label)
	b := v.raw()
	n := int(v.N)
	if n < lo {
		n = lo
	}
	for len(b) < n {
		b = append(b, 0)
	}
	return b[:n:n]
}
func vConcrete(n int) int { return n }
func vAssume(c bool) {
	if !c {
		panic(assumeFailed{})
	}
}
func vAssert(c bool, label string) {
	if !c {
		vFail(label)
	}
}
func vFail(label string) {
	nat.mu.Lock()
	nat.fails = append(nat.fails, label)
	nat.mu.Unlock()
	panic(assertFailed{label})
}
func vAssertSame(a, b []byte, label string) { vAssert(bytes.Equal(a, b), label) }
func vReach(tag string) {
	nat.mu.Lock()
	nat.reached = append(nat.reached, tag)
	nat.mu.Unlock()
}
func addObs(l, v string) {
	nat.mu.Lock()
	nat.obs = append(nat.obs, obsVal{l, v})
	nat.mu.Unlock()
}
func vObsBytes(label string, b []byte) {
	if len(b) > 4096 {
		b = b[:4096]
	}
	addObs(label, hex.EncodeToString(b))
}
func vObsInt(label string, n int)    { addObs(label, fmt.Sprint(n)) }
func vObsStr(label string, s string) { addObs(label, hex.EncodeToString([]byte(s))) }
func vObsBool(label string, b bool)  { addObs(label, fmt.Sprint(b)) }
func vQuiesce() {
	if nat.bubble {
		synctest.Wait()
		return
	}
	for i := 0; i < 20; i++ {
		runtime.Gosched()
		time.Sleep(2 * time.Millisecond)
	}
}
func vAdvance(d time.Duration) {
	time.Sleep(d)
	vQuiesce()
}
func vExplore(k int)    {}
func vRaceCheck()       {}
func vMapOrder(on bool) {}
func vYield()           {}
func vPause()           { runtime.Gosched() }
func vParam(name string, quick, thorough int) int {
	if nat.tier == "quick" {
		return quick
	}
	return thorough
}

var allocMark = totalAlloc()

func totalAlloc() uint64 {
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return m.TotalAlloc
}

// vMaxAlloc natively bounds everything allocated since the process started or the last call.
func vMaxAlloc(n int, label string) {
	d := totalAlloc() - allocMark
	vAssert(d <= uint64(n)*4+64<<20, label)
	allocMark = totalAlloc()
}
func vSymbolic() bool             { return false }
func vDeadlockLabel(label string) {}
func vLog(s string) {
	nat.mu.Lock()
	nat.logs = append(nat.logs, s)
	nat.mu.Unlock()
}
func vLiveGoroutines() int {
	buf := make([]byte, 1<<20)
	buf = buf[:runtime.Stack(buf, true)]
	n := 0
	for i, s := range strings.Split(string(buf), "\n\n") {
		if i == 0 {
			continue
		}
		for _, l := range strings.Split(s, "\n") {
			if strings.HasPrefix(l, "github.com/luxfi/zmq/v4") && !strings.Contains(l, "zzverif") {
				n++
				break
			}
		}
	}
	return n
}
