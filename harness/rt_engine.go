//go:build verifengine

package zzverif

import (
	"sync"
	"time"
)

// The functions below are executed by the symbolic engine itself (engine/rt.go).

func vByte(label string) byte                     { panic("engine") }
func vBool(label string) bool                     { panic("engine") }
func vU16(label string) uint16                    { panic("engine") }
func vU32(label string) uint32                    { panic("engine") }
func vU64(label string) uint64                    { panic("engine") }
func vInt(label string, lo, hi int) int           { panic("engine") }
func vAnd(a, b bool) bool                         { panic("engine") }
func vOr(a, b bool) bool                          { panic("engine") }
func vMin(a, b time.Duration) time.Duration       { panic("engine") }
func vMax(a, b time.Duration) time.Duration       { panic("engine") }
func vChoose(label string, n int) int             { panic("engine") }
func vBytes(label string, n int) []byte           { panic("engine") }
func vString(label string, n int) string          { panic("engine") }
func vBlob(label string, lo, hi int) []byte       { panic("engine") }
func vConcrete(n int) int                         { panic("engine") }
func vAssume(c bool)                              { panic("engine") }
func vAssert(c bool, label string)                { panic("engine") }
func vFail(label string)                          { panic("engine") }
func vAssertSame(a, b []byte, label string)       { panic("engine") }
func vReach(tag string)                           { panic("engine") }
func vObsBytes(label string, b []byte)            { panic("engine") }
func vObsInt(label string, n int)                 { panic("engine") }
func vObsStr(label string, s string)              { panic("engine") }
func vObsBool(label string, b bool)               { panic("engine") }
func vQuiesce()                                   { panic("engine") }
func vAdvance(d time.Duration)                    { panic("engine") }
func vExplore(k int)                              { panic("engine") }
func vRaceCheck()                                 { panic("engine") }
func vMapOrder(on bool)                           { panic("engine") }
func vYield()                                     { panic("engine") }
func vPause()                                     { panic("engine") }
func vParam(name string, quick, thorough int) int { panic("engine") }
func vMaxAlloc(n int, label string)               { panic("engine") }
func vSymbolic() bool                             { panic("engine") }
func vDeadlockLabel(label string)                 { panic("engine") }
func vLog(s string)                               { panic("engine") }
func vLiveGoroutines() int                        { panic("engine") }

func vCondAdd(c *sync.Cond)           { panic("engine") }
func vCondPark()                      { panic("engine") }
func vAsAssign(err error, t any) bool { panic("engine") }
func vComparable(x any) bool          { panic("engine") }
func vSliceLen(x any) int             { panic("engine") }
func vSliceSwap(x any, i, j int)      { panic("engine") }
