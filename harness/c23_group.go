package zzverif

import (
	"context"
	"errors"
	"time"

	"github.com/luxfi/zmq/v4/internal/errgroup"
)

// H_C23_wait runs groups of tasks under a context that may be cancelled.
//
//verif:prop C23
//verif:reach nil failed cancelled unstarted plain limited refused pending
//verif:bounds groups with and without a context, 0-2 (thorough 3) tasks started a symbolic time of 0-4 s apart, by Go or TryGo, each returning nil or an error after a symbolic 0-4 s or never (until told); no limit or a limit of 1 or 2; the parent cancelled never or at a symbolic moment of 0-4 s, by cancel or by deadline; all times to the nanosecond
//verif:budget 90 600
func H_C23_wait() {
	const most = 4 * time.Second
	vDeadlockLabel("waiting never returns")
	var grp *errgroup.Group
	parent := context.Background()
	var child context.Context
	cancels := false
	var cancelAt time.Duration
	withCtx := vChoose("ctx", 2) == 1
	if withCtx {
		var cancel context.CancelFunc
		switch vChoose("cancel", 3) {
		case 0:
			parent, cancel = context.WithCancel(parent)
		case 1:
			cancels, cancelAt = true, vDur("cancelat", 0, most)
			parent, cancel = context.WithCancel(parent)
			time.AfterFunc(cancelAt, cancel)
			vQuiesce()
		case 2:
			cancels, cancelAt = true, vDur("cancelat", 0, most)
			parent, cancel = context.WithTimeout(parent, cancelAt)
		}
		defer cancel()
		grp, child = errgroup.WithContext(parent)
	} else {
		grp = &errgroup.Group{}
		vReach("plain")
	}
	limit := 0
	var apart time.Duration
	try := false
	n := vChoose("tasks", vParam("tasks", 2, 3)+1)
	if n > 1 {
		limit = vChoose("limit", 3)
		if limit > 0 {
			grp.SetLimit(limit)
			vReach("limited")
		}
		apart = vDur("apart", 0, most)
		try = vChoose("try", 2) == 1
	}
	start := time.Now()
	now := func() time.Duration { return time.Since(start) }
	release := make(chan bool)
	var ran, refused, returned [4]bool
	var begun, ended [4]time.Duration
	var fails [4]bool
	for i := 0; i < n; i++ {
		endless := cancels && vChoose("endless", 2) == 1
		d := time.Duration(0)
		if !endless {
			d = vDur("dur", 0, most)
			fails[i] = vChoose("fails", 2) == 1
		}
		task := func() error {
			ran[i] = true
			begun[i] = now()
			if endless {
				<-release
				return attemptError(i)
			}
			time.Sleep(d)
			ended[i] = now()
			returned[i] = true
			if fails[i] {
				return attemptError(i)
			}
			return nil
		}
		at := now()
		if try {
			refused[i] = !grp.TryGo(task)
			vAssert(now() == at, "TryGo does not wait")
		} else {
			grp.Go(task)
		}
		vQuiesce()
		if i < n-1 {
			time.Sleep(apart)
		}
	}
	waitAt := now()
	err := grp.Wait()
	took := now()
	var ae attemptError
	isTask := errors.As(err, &ae)
	isCancel := err != nil && !isTask
	if isCancel {
		vAssert(cancels && errors.Is(err, parent.Err()), "no other error but the cancellation")
		vAssert(cancelAt <= took, "no cancellation before its time")
		vReach("cancelled")
	}
	if isTask {
		vAssert(ran[ae] && returned[ae] && fails[ae], "the error of a task")
		vAssert(vOr(!cancels, ended[ae] <= cancelAt), "no task's error after the cancellation")
		vReach("failed")
	}
	if err == nil {
		vReach("nil")
	}
	last := waitAt
	for i := 0; i < n; i++ {
		if refused[i] {
			vAssert(limit > 0 && !ran[i], "a task is refused only at the limit")
			vReach("refused")
			continue
		}
		if !ran[i] {
			vAssert(cancels && err != nil, "every task runs unless the context is cancelled")
			vAssert(cancelAt <= took, "every task runs until the context is cancelled")
			vReach("unstarted")
			continue
		}
		vAssert(vOr(!cancels, begun[i] <= cancelAt), "no task starts after the cancellation")
		if !returned[i] {
			vAssert(cancels && err != nil, "no success while a task has not returned")
			vAssert(cancelAt <= took, "waiting lasts until the cancellation")
			vReach("pending")
			last = vMax(last, cancelAt)
			continue
		}
		end := ended[i]
		if cancels {
			end = vMin(end, cancelAt)
		}
		vAssert(end <= took, "waiting lasts until every task has returned or the parent is cancelled")
		last = vMax(last, end)
		if err == nil {
			vAssert(!fails[i], "no success when a task fails")
			vAssert(vOr(!cancels, ended[i] <= cancelAt), "no success when a task was not waited for")
		}
		if fails[i] && isTask {
			vAssert(ended[ae] <= ended[i], "the first error")
		}
		if fails[i] && isCancel {
			vAssert(cancelAt <= ended[i], "an error before the cancellation comes first")
		}
	}
	vAssert(took <= last, "waiting lasts no longer")
	if child != nil {
		vAssert(child.Err() != nil, "the group's context ends with the wait")
		if !cancels {
			vAssert(parent.Err() == nil, "the parent is left alone")
		}
	}
	close(release)
	vQuiesce()
	vAdvance(10 * time.Second)
	vAssert(vLiveGoroutines() == 0, "no helper goroutine stays blocked")
}

// H_C23_race cancels while tasks start and return.
//
//verif:prop C23
//verif:reach ok cancelled failed
//verif:sched
//verif:bounds 2 tasks, each returning nil or an error at once or never (until the end); the parent is cancelled concurrently; schedules with up to 4 delays (thorough 5)
//verif:budget 90 600
func H_C23_race() {
	vDeadlockLabel("waiting never returns")
	parent, cancel := context.WithCancel(context.Background())
	grp, child := errgroup.WithContext(parent)
	release := make(chan bool)
	var ran, after [2]bool
	kinds := []int{vChoose("kind", 3), vChoose("kind", 3)}
	isDone := false
	vExplore(vParam("delays", 4, 5))
	go func() {
		vYield()
		cancel()
		isDone = true
	}()
	for i, k := range kinds {
		was := isDone
		grp.Go(func() error {
			ran[i] = true
			after[i] = was
			switch k {
			case 1:
				return attemptError(i)
			case 2:
				<-release
			}
			return nil
		})
	}
	err := grp.Wait()
	vExplore(0)
	vAssert(child.Err() != nil, "the group's context ends with the wait")
	var ae attemptError
	switch {
	case err == nil:
		for i, k := range kinds {
			vAssert(ran[i] && k == 0, "no success unless every task was run and returned nil")
		}
		vReach("ok")
	case errors.As(err, &ae):
		vAssert(kinds[ae] == 1 && ran[ae], "the error of a task")
		vReach("failed")
	default:
		vAssert(errors.Is(err, context.Canceled) && parent.Err() != nil, "the cancellation")
		vReach("cancelled")
	}
	for i := range after {
		vAssert(!after[i], "a task is not run after the cancellation")
	}
	close(release)
	cancel()
	vQuiesce()
	vAssert(vLiveGoroutines() == 0, "no helper goroutine stays blocked")
}
