package zzverif

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime/debug"
	"strings"
	"testing"
	"testing/synctest"
	"time"
)

type replayReq struct {
	Harness string     `json:"harness"`
	Tier    string     `json:"tier"`
	Bubble  bool       `json:"bubble"`
	Inputs  []inputVal `json:"inputs"`
}

type replayRes struct {
	Outcome string   `json:"outcome"` // ok, assume, fail, panic, hang
	Label   string   `json:"label"`
	Text    string   `json:"text"`
	Obs     []obsVal `json:"obs"`
}

var out *os.File

func emit(r replayRes) {
	nat.mu.Lock()
	r.Obs = nat.obs
	nat.mu.Unlock()
	b, _ := json.Marshal(r)
	fmt.Fprintf(out, "%s\n", b)
	out.Sync()
	os.Exit(0)
}

func runOne(f func()) {
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case assumeFailed:
				emit(replayRes{Outcome: "assume"})
			case assertFailed:
				emit(replayRes{Outcome: "fail", Label: x.label})
			default:
				emit(replayRes{Outcome: "panic", Text: fmt.Sprint(r) + "\n" + string(debug.Stack())})
			}
		}
		emit(replayRes{Outcome: "ok"})
	}()
	f()
}

func TestReplay(t *testing.T) {
	b, err := os.ReadFile(os.Getenv("ZZVERIF_REQ"))
	if err != nil {
		t.Skip("no request")
	}
	var req replayReq
	if err := json.Unmarshal(b, &req); err != nil {
		t.Fatal(err)
	}
	out, err = os.Create(os.Getenv("ZZVERIF_RES"))
	if err != nil {
		t.Fatal(err)
	}
	nat.tier, nat.inputs, nat.count, nat.bubble = req.Tier, map[string]inputVal{}, map[string]int{}, req.Bubble
	for _, i := range req.Inputs {
		nat.inputs[i.Name] = i
	}
	name := req.Harness
	if i := strings.LastIndex(name, "."); i >= 0 {
		name = name[i+1:]
	}
	f := harnesses[name]
	if f == nil {
		t.Fatalf("unknown harness %s", name)
	}
	if req.Bubble {
		synctest.Test(t, func(t *testing.T) { runOne(f) })
		return
	}
	go func() {
		time.Sleep(20 * time.Second)
		emit(replayRes{Outcome: "hang"})
	}()
	runOne(f)
}
