package main

import (
	"fmt"
	"runtime"
	"testing/synctest"
	"time"

	"verif.local/sim/simkit"
	"verif.local/sim/simrt"
)

const stepLimit = 6_000_000

// runResult of one simulated execution.
type runResult struct {
	simrt.Result
	over   bool
	draws  uint64
	panics []string
}

// simulate runs the task functions under the schedule in a bubble with a fake
// clock, the runtime's randomness fixed by seed. advance moves the clock
// before the start.
func simulate(fns []func(), sched Sched, seed uint64, advance time.Duration, limit int64) runResult {
	done := make(chan runResult)
	never := make(chan struct{})
	go func() {
		var rr runResult
		synctest.SimRun(func() {
			time.Sleep(advance)
			runtime.SimRand(1, seed)
			wrapped := make([]func(), len(fns))
			over := make([]bool, len(fns))
			for i, f := range fns {
				i, f := i, f
				wrapped[i] = func() {
					defer func() {
						if r := recover(); r != nil {
							if _, ok := r.(simrt.StepLimit); ok {
								over[i] = true
								return
							}
							panic(r)
						}
					}()
					f()
				}
			}
			rr.Result = simrt.Run(wrapped, sched.policy(), limit)
			rr.draws = runtime.SimDraws()
			runtime.SimRand(0, 0)
			if rr.Hung {
				done <- rr
				<-never
			}
			for _, o := range over {
				rr.over = rr.over || o
			}
		})
		done <- rr
	}()
	return <-done
}

// exec runs all tasks of the world's scenario.
func (w *world) exec(sched Sched, seed uint64, advance time.Duration) runResult {
	fns := make([]func(), len(w.s.Tasks))
	for t := range w.s.Tasks {
		t := t
		fns[t] = func() {
			for i := range w.s.Tasks[t] {
				w.vals[t][i] = w.run(t, i)
				if w.after != nil {
					w.after(t, i)
				}
			}
		}
	}
	return simulate(fns, sched, seed, advance, stepLimit)
}

// progress turns hangs and endless loops into failures; false if there was one.
func progress(o *simkit.Outcome, rr runResult, prefix string) bool {
	o.Steps += rr.Steps
	if rr.Hung {
		o.Poison = true
		o.Failf(prefix+"deadlock", "calls block one another for ever: %v", rr.Blocked)
		return false
	}
	if rr.over {
		o.Failf(prefix+"no-progress", "a call did not return within %d statements", stepLimit)
		return false
	}
	return true
}

func slicesHash(s []simrt.Slice) uint64 {
	h := uint64(len(s))
	for _, x := range s {
		h = simkit.Mix(h, uint64(x.T), uint64(x.N))
	}
	return h
}

func opName(s *Scen, t, i int) string {
	op := s.Tasks[t][i]
	return fmt.Sprintf("task %d op %d %s(doc %d res %d comp %d own %v from %d)", t, i, op.K, op.D, op.R, op.C, op.Own, op.From)
}
