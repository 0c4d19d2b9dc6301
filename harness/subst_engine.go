//go:build verifengine

package zzverif

import (
	"context"
	"errors"
	"net"
	"sync"
	"time"
	"unsafe"
)

// Replacements, used by the engine only, for library functions whose bodies need
// reflection or the operating system.

type rtError string

func (e rtError) Error() string { return string(e) }
func (e rtError) RuntimeError() {}

func sErrorsIs(err, target error) bool {
	if err == nil || target == nil {
		return err == target
	}
	return sIs(err, target, vComparable(target))
}

func sIs(err, target error, cmp bool) bool {
	for {
		if cmp && vComparable(err) && err == target {
			return true
		}
		if x, ok := err.(interface{ Is(error) bool }); ok && x.Is(target) {
			return true
		}
		switch x := err.(type) {
		case interface{ Unwrap() error }:
			err = x.Unwrap()
			if err == nil {
				return false
			}
		case interface{ Unwrap() []error }:
			for _, e := range x.Unwrap() {
				if sIs(e, target, cmp) {
					return true
				}
			}
			return false
		default:
			return false
		}
	}
}

func sErrorsAs(err error, target any) bool {
	if err == nil {
		return false
	}
	for {
		if vAsAssign(err, target) {
			return true
		}
		if x, ok := err.(interface{ As(any) bool }); ok && x.As(target) {
			return true
		}
		switch x := err.(type) {
		case interface{ Unwrap() error }:
			err = x.Unwrap()
			if err == nil {
				return false
			}
		case interface{ Unwrap() []error }:
			for _, e := range x.Unwrap() {
				if e != nil && sErrorsAs(e, target) {
					return true
				}
			}
			return false
		default:
			return false
		}
	}
}

func sCondWait(c *sync.Cond) {
	vCondAdd(c)
	c.L.Unlock()
	vCondPark()
	c.L.Lock()
}

func sPoolGet(p *sync.Pool) any {
	if p.New != nil {
		return p.New()
	}
	return nil
}

// smap stands in for the contents of a sync.Map.
type smap struct {
	mu sync.Mutex
	m  map[any]any
}

var smaps = map[*sync.Map]*smap{}

func smapOf(p *sync.Map) *smap {
	s := smaps[p]
	if s == nil {
		s = &smap{m: map[any]any{}}
		smaps[p] = s
	}
	return s
}

func sMapLoad(p *sync.Map, k any) (any, bool) {
	s := smapOf(p)
	s.mu.Lock()
	defer s.mu.Unlock()
	v, ok := s.m[k]
	return v, ok
}

func sMapStore(p *sync.Map, k, v any) {
	s := smapOf(p)
	s.mu.Lock()
	defer s.mu.Unlock()
	s.m[k] = v
}

func sMapLoadOrStore(p *sync.Map, k, v any) (any, bool) {
	s := smapOf(p)
	s.mu.Lock()
	defer s.mu.Unlock()
	if w, ok := s.m[k]; ok {
		return w, true
	}
	s.m[k] = v
	return v, false
}

func sMapLoadAndDelete(p *sync.Map, k any) (any, bool) {
	s := smapOf(p)
	s.mu.Lock()
	defer s.mu.Unlock()
	v, ok := s.m[k]
	delete(s.m, k)
	return v, ok
}

func sMapDelete(p *sync.Map, k any) { sMapLoadAndDelete(p, k) }

func sMapSwap(p *sync.Map, k, v any) (any, bool) {
	s := smapOf(p)
	s.mu.Lock()
	defer s.mu.Unlock()
	w, ok := s.m[k]
	s.m[k] = v
	return w, ok
}

func sMapCompareAndSwap(p *sync.Map, k, old, v any) bool {
	s := smapOf(p)
	s.mu.Lock()
	defer s.mu.Unlock()
	if w, ok := s.m[k]; !ok || w != old {
		return false
	}
	s.m[k] = v
	return true
}

func sMapCompareAndDelete(p *sync.Map, k, old any) bool {
	s := smapOf(p)
	s.mu.Lock()
	defer s.mu.Unlock()
	if w, ok := s.m[k]; !ok || w != old {
		return false
	}
	delete(s.m, k)
	return true
}

func sMapClear(p *sync.Map) {
	s := smapOf(p)
	s.mu.Lock()
	defer s.mu.Unlock()
	clear(s.m)
}

func sMapRange(p *sync.Map, f func(k, v any) bool) {
	s := smapOf(p)
	s.mu.Lock()
	var ks []any
	for k := range s.m {
		ks = append(ks, k)
	}
	s.mu.Unlock()
	for _, k := range ks {
		if v, ok := sMapLoad(p, k); ok && !f(k, v) {
			return
		}
	}
}

func sSortSlice(x any, less func(i, j int) bool) {
	n := vSliceLen(x)
	for i := 1; i < n; i++ {
		for j := i; j > 0 && less(j, j-1); j-- {
			vSliceSwap(x, j, j-1)
		}
	}
}

func sNetListen(network, addr string) (net.Listener, error) { return simListen(network, addr) }
func sNetListenConfig(lc *net.ListenConfig, ctx context.Context, network, addr string) (net.Listener, error) {
	return simListen(network, addr)
}
func sNetDialContext(d *net.Dialer, ctx context.Context, network, addr string) (net.Conn, error) {
	if ctx.Err() != nil {
		return nil, ctx.Err()
	}
	return simDial(network, addr)
}
func sNetDial(network, addr string) (net.Conn, error) { return simDial(network, addr) }
func sNetDialTimeout(network, addr string, d time.Duration) (net.Conn, error) {
	return simDial(network, addr)
}
func sNetResolveTCPAddr(network, addr string) (*net.TCPAddr, error) {
	return nil, errors.New("not modelled")
}

func sOsRemove(name string) error { simRemoved = append(simRemoved, name); return nil }

var _ = unsafe.Pointer(nil)
