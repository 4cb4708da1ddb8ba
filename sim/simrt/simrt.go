// Package simrt is the seeded cooperative scheduler of the library rig.
//
// Every statement of the (instrumented) repository calls Y. While a run is
// active exactly one task goroutine executes; at each Y the scheduler may
// take the processor away and give it to any other task. The root goroutine
// of a testing/synctest bubble is the scheduler: it only decides when every
// other goroutine of the bubble is durably blocked, so goroutines the code
// under test starts itself are scheduled the same way.
//
// The hand-over is hidden from the race detector (RaceDisable), so in a -race
// build two accesses are still reported as racing when nothing but the
// simulator ordered them.
package simrt

import (
	"fmt"
	"runtime"
	"testing/synctest"
	"time"
)

// State of a task.
const (
	parked = iota
	running
	blocked
	awaiting
	finished
)

type task struct {
	id    int
	goid  uint64
	ch    chan struct{}
	state int
	on    interface{}
	top   bool // started by the harness
}

// Slice is one scheduling decision: task T ran N scheduling points.
type Slice struct {
	T int `json:"t"`
	N int `json:"n"`
}

// Policy chooses the next task and its quantum. runnable is never empty.
type Policy interface {
	Next(runnable []int) (t int, quantum int)
}

// StepLimit is panicked in a task that exceeds the step limit.
type StepLimit struct{}

func (StepLimit) Error() string { return "simrt: step limit exceeded" }

var (
	active  bool
	cur     uint64
	budget  int64
	used    int64
	steps   int64
	limit   int64
	tasks   []*task
	pend    bool
	traceOn bool
)

// Active reports whether a run is in progress.
//
//go:norace
func Active() bool { return active }

// Steps returns the number of scheduling points passed in this run.
//
//go:norace
func Steps() int64 { return steps }

// Y is a scheduling point.
//
//go:norace
func Y() {
	if !active {
		return
	}
	g := runtime.SimGoid()
	if g == cur {
		steps++
		used++
		budget--
		if steps > limit {
			overrun()
		}
		if budget > 0 {
			return
		}
	}
	yield(g, parked, nil)
}

func overrun() {
	panic(StepLimit{})
}

// Force is a scheduling point at which the running task always offers the
// processor.
//
//go:norace
func Force() {
	if !active {
		return
	}
	g := runtime.SimGoid()
	if g == cur {
		steps++
		used++
	}
	yield(g, parked, nil)
}

// Spawned is called right after a go statement: the parent parks so that the
// child reaches its first scheduling point before anything else runs.
func Spawned() { Force() }

// Block parks the task until Wake(on) is called for the same object.
//
//go:norace
func Block(on interface{}) {
	if !active {
		runtime.Gosched()
		return
	}
	yield(runtime.SimGoid(), blocked, on)
}

// Await parks the task until every other task of the run has finished or is
// awaiting, too: a callback that takes longer than anything else.
//
//go:norace
func Await() {
	if !active {
		return
	}
	yield(runtime.SimGoid(), awaiting, nil)
}

// Wake makes the tasks blocked on the object runnable.
//
//go:norace
func Wake(on interface{}) {
	for _, t := range tasks {
		if t.state == blocked && t.on == on {
			t.state = parked
			t.on = nil
		}
	}
}

//go:norace
func find(g uint64) *task {
	for _, t := range tasks {
		if t.goid == g {
			return t
		}
	}
	return nil
}

//go:norace
func yield(g uint64, state int, on interface{}) {
	raceDisable()
	t := find(g)
	if t == nil {
		t = &task{id: len(tasks), goid: g, ch: make(chan struct{})}
		tasks = append(tasks, t)
	}
	t.state = state
	t.on = on
	<-t.ch
	raceEnable()
}

// Result of a run.
type Result struct {
	Slices   []Slice
	Steps    int64
	Switches int
	Spawned  int
	Hung     bool
	Blocked  []string
}

// Run executes the task functions under the policy, in a synctest bubble that
// must already be active (the caller is its root). stepLimit bounds the number
// of scheduling points.
func Run(fns []func(), p Policy, stepLimit int64) Result {
	begin(stepLimit)
	done := make(chan int, len(fns))
	for i, fn := range fns {
		i, fn := i, fn
		go func() {
			enter(i)
			defer func() {
				leave()
				done <- i
			}()
			fn()
		}()
	}
	res := loop(p, len(fns))
	if res.Hung {
		return res
	}
	for range fns {
		<-done
	}
	return res
}

//go:norace
func begin(stepLimit int64) {
	active, steps, limit, used, budget, cur = true, 0, stepLimit, 0, 0, 0
	tasks = tasks[:0]
}

// enter registers task i and parks it.
//
//go:norace
func enter(i int) {
	raceDisable()
	t := &task{id: -1, goid: runtime.SimGoid(), ch: make(chan struct{}), top: true, state: parked}
	t.id = i
	tasks = append(tasks, t)
	<-t.ch
	raceEnable()
}

//go:norace
func leave() {
	if t := find(runtime.SimGoid()); t != nil {
		t.state = finished
	}
	cur = 0
}

//go:norace
func loop(p Policy, n int) Result {
	raceDisable()
	defer raceEnable()
	var res Result
	idle := 0
	runnable := make([]int, 0, 8)
	for {
		synctest.Wait()
		runnable = runnable[:0]
		tops, live := 0, 0
		for i, t := range tasks {
			if t.top && t.state == finished {
				tops++
			}
			if t.state == parked {
				runnable = append(runnable, i)
			}
			if t.state != finished {
				live++
			}
		}
		if len(runnable) == 0 {
			if tops == n {
				break
			}
			waiting := 0
			for _, t := range tasks {
				if t.top && t.state == awaiting {
					waiting++
				}
			}
			if waiting > 0 && waiting+tops == n {
				for _, t := range tasks {
					if t.state == awaiting {
						t.state = parked
					}
				}
				continue
			}
			idle++
			if idle > 40 {
				res.Hung = true
				for _, t := range tasks {
					if t.state != finished {
						if t.state == awaiting {
							res.Blocked = append(res.Blocked, fmt.Sprintf("task %d in a callback that waits for the others", t.id))
							continue
						}
						res.Blocked = append(res.Blocked, fmt.Sprintf("task %d blocked on %T", t.id, t.on))
					}
				}
				break
			}
			// let simulated time pass: a task may be in a timer
			time.Sleep(time.Millisecond << uint(idle))
			continue
		}
		idle = 0
		// order by task id, so that a schedule means the same in every process
		for i := 1; i < len(runnable); i++ {
			for j := i; j > 0 && tasks[runnable[j]].id < tasks[runnable[j-1]].id; j-- {
				runnable[j], runnable[j-1] = runnable[j-1], runnable[j]
			}
		}
		ids := make([]int, len(runnable))
		for i, r := range runnable {
			ids[i] = tasks[r].id
		}
		pick, q := p.Next(ids)
		var t *task
		for _, r := range runnable {
			if tasks[r].id == pick {
				t = tasks[r]
			}
		}
		if t == nil {
			t = tasks[runnable[0]]
		}
		if q < 1 {
			q = 1
		}
		cur, budget, used = t.goid, int64(q), 0
		t.state = running
		t.ch <- struct{}{}
		synctest.Wait()
		if t.state == running {
			// blocked on something the simulator does not own (a channel,
			// a timer): it will park by itself when it wakes up
			cur = 0
		}
		if k := len(res.Slices); k > 0 && res.Slices[k-1].T == t.id {
			res.Slices[k-1].N += int(used)
		} else {
			res.Slices = append(res.Slices, Slice{T: t.id, N: int(used)})
			res.Switches++
		}
	}
	active = false
	res.Steps = steps
	for _, t := range tasks {
		if !t.top {
			res.Spawned++
		}
	}
	return res
}
