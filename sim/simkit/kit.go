// Package simkit drives simulation campaigns: seeds, workers, evidence,
// minimisation and replay.
package simkit

import (
	"bufio"
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"time"
)

// Failure is a violated property. Class is its stable identity.
type Failure struct {
	Class  string `json:"class"`
	Detail string `json:"detail"`
}

// Outcome of one simulated run.
type Outcome struct {
	Fail   *Failure        `json:"fail,omitempty"`
	Err    string          `json:"err,omitempty"` // harness trouble: never a violation
	Digest uint64          `json:"digest"`
	Faults map[string]int  `json:"faults,omitempty"`
	Probes map[string]int  `json:"probes,omitempty"`
	State  uint64          `json:"state,omitempty"` // identity of the interleaving / fault history
	Triv   bool            `json:"triv,omitempty"`
	SimMs  int64           `json:"sim_ms,omitempty"`
	Steps  int64           `json:"steps,omitempty"`
	Log    []string        `json:"log,omitempty"`
	Fixed  json.RawMessage `json:"fixed,omitempty"` // scenario with the schedule made explicit
	Poison bool            `json:"poison,omitempty"`
	Res    []string        `json:"res,omitempty"` // results for Compare
}

// Fault counts an injected fault.
func (o *Outcome) Fault(k string, n int) {
	if n == 0 {
		return
	}
	if o.Faults == nil {
		o.Faults = map[string]int{}
	}
	o.Faults[k] += n
}

// Probe counts a rare condition.
func (o *Outcome) Probe(k string) {
	if o.Probes == nil {
		o.Probes = map[string]int{}
	}
	o.Probes[k]++
}

// Failf records the first violation.
func (o *Outcome) Failf(class, f string, a ...interface{}) {
	if o.Fail == nil {
		d := fmt.Sprintf(f, a...)
		if len(d) > 4000 {
			d = d[:4000] + "..."
		}
		o.Fail = &Failure{Class: class, Detail: d}
	}
}

// Prop is one checked property.
type Prop struct {
	ID    string
	Rule  string // how cases are made and what makes one non-trivial
	State string // what Outcome.State identifies
	// Gen makes the scenario of a seed. It must be a pure function of the seed.
	Gen func(r *Rng, thorough bool) interface{}
	// Run executes a scenario in this process. proc is 0 unless Procs > 1.
	Run func(raw json.RawMessage, proc int) Outcome
	// Procs > 0: every run uses that many fresh processes (proc 0..Procs-1),
	// whose outcomes Compare then merges (nil: the first failure wins).
	Procs   int
	Compare func(raw json.RawMessage, outs []Outcome) Outcome
	// Runs is the number of runs of a quick check, and the cap in seconds.
	Runs int
	Secs int
	// ThoroughX multiplies both (default 12).
	ThoroughX int
	Real      []string
	Stub      []string
	Assume    []string
	NoShrink  bool
}

// Config of a rig.
type Config struct {
	Rig     string
	Props   []*Prop
	Env     []string // environment of workers
	Workers int
	// Init runs once per worker process.
	Init func() error
}

var cfg Config

func dieErr(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "simkit: "+f+"\n", a...)
	os.Exit(2)
}

func findProp(id string) *Prop {
	for _, p := range cfg.Props {
		if p.ID == id {
			return p
		}
	}
	dieErr("unknown property %q in rig %s", id, cfg.Rig)
	return nil
}

// Main is the entry point of every rig.
func Main(c Config) {
	cfg = c
	if len(os.Args) < 2 {
		dieErr("usage: %s check|worker|one|replay|digests|gen ...", os.Args[0])
	}
	cmd := os.Args[1]
	fs := flag.NewFlagSet(cmd, flag.ExitOnError)
	prop := fs.String("prop", "", "property id")
	seed := fs.Int64("seed", envSeed(), "campaign seed")
	tier := fs.String("tier", envTier(), "quick or thorough")
	start := fs.Int("start", 0, "first run index")
	stride := fs.Int("stride", 1, "index stride")
	count := fs.Int("n", 0, "number of runs")
	secs := fs.Int("secs", 0, "wall-clock cap")
	workers := fs.Int("workers", c.Workers, "worker processes")
	root := fs.String("root", "/verif", "verification root")
	file := fs.String("file", "", "replay file")
	proc := fs.Int("proc", 0, "process number within a run")
	fs.Parse(os.Args[2:])
	if *workers == 0 {
		*workers = 8
	}
	thorough := *tier == "thorough"
	switch cmd {
	case "check":
		os.Exit(check(findProp(*prop), *seed, *tier, *count, *secs, *workers, *root))
	case "worker":
		initRig()
		worker(findProp(*prop), *seed, thorough, *start, *stride, *count, *secs)
	case "one":
		initRig()
		raw := readAll(os.Stdin)
		var h hist
		if json.Unmarshal(raw, &h) == nil && h.Scen != nil {
			for _, x := range h.Hist {
				findProp(*prop).Run(x, *proc)
			}
			raw = h.Scen
		}
		o := findProp(*prop).Run(raw, *proc)
		emit(o)
	case "gen":
		p := findProp(*prop)
		b, _ := json.MarshalIndent(p.Gen(NewRng(runSeed(*seed, p.ID, *start)), thorough), "", " ")
		fmt.Println(string(b))
	case "shrink":
		initRig()
		shrinkMain(findProp(*prop), readAll(os.Stdin), *secs)
	case "replay":
		os.Exit(replay(*file))
	default:
		dieErr("unknown command %s", cmd)
	}
}

func initRig() {
	if cfg.Init != nil {
		if err := cfg.Init(); err != nil {
			dieErr("init: %v", err)
		}
	}
}

func readAll(f *os.File) []byte {
	var b bytes.Buffer
	if _, err := b.ReadFrom(f); err != nil {
		dieErr("%v", err)
	}
	return b.Bytes()
}

func envSeed() int64 {
	if v := os.Getenv("VERIF_SEED"); v != "" {
		n, err := strconv.ParseInt(v, 10, 64)
		if err != nil {
			dieErr("VERIF_SEED: %v", err)
		}
		return n
	}
	return 1
}

func envTier() string {
	if v := os.Getenv("VERIF_TIER"); v == "thorough" {
		return v
	}
	return "quick"
}

func runSeed(seed int64, prop string, i int) uint64 {
	return Mix(uint64(seed), HashStr(0, prop), uint64(i))
}

type msg struct {
	I     int             `json:"i"`
	Start bool            `json:"start,omitempty"`
	Out   *Outcome        `json:"out,omitempty"`
	Hash  uint64          `json:"hash,omitempty"`
	End   bool            `json:"end,omitempty"`
	Scen  json.RawMessage `json:"scen,omitempty"`
}

var stdout = bufio.NewWriter(os.Stdout)

func emit(v interface{}) {
	b, err := json.Marshal(v)
	if err != nil {
		dieErr("%v", err)
	}
	stdout.Write(b)
	stdout.WriteByte('\n')
	stdout.Flush()
}

func scenario(p *Prop, seed int64, thorough bool, i int) json.RawMessage {
	b, err := json.Marshal(p.Gen(NewRng(runSeed(seed, p.ID, i)), thorough))
	if err != nil {
		dieErr("marshal scenario: %v", err)
	}
	return b
}

// worker runs indices start, start+stride, ... and reports every outcome.
func worker(p *Prop, seed int64, thorough bool, start, stride, n, secs int) {
	t0 := time.Now()
	for k, i := 0, start; k < n; k, i = k+1, i+stride {
		if secs > 0 && time.Since(t0) > time.Duration(secs)*time.Second {
			break
		}
		raw := scenario(p, seed, thorough, i)
		fmt.Fprintf(stdout, "S%d\n", i)
		stdout.Flush()
		o := execute(p, raw)
		m := msg{I: i, Out: &o, Hash: HashStr(0, string(raw))}
		if k < 3 && start < 2 || o.Fail != nil || o.Err != "" {
			m.Scen = raw
		}
		if o.Fail == nil && o.Err == "" {
			o.Log = nil
			o.Fixed = nil
		}
		emit(m)
		if o.Poison {
			os.Exit(3)
		}
	}
	emit(msg{End: true})
}

type tally struct {
	runs, nontriv int
	steps, simMs  int64
	faults        map[string]int
	probes        map[string]int
	states        map[uint64]bool
	distinct      map[uint64]bool
	digests       map[int]uint64
	samples       []json.RawMessage
	fails         map[int]msg
	crashes       map[int]string
	known         map[string]int
	errs          []string
	mism          []string
	restarts      int
}

func (t *tally) add(m msg) {
	o := m.Out
	if d, ok := t.digests[m.I]; ok {
		if d != o.Digest {
			t.mism = append(t.mism, fmt.Sprintf("run %d is not deterministic: digest %x then %x", m.I, d, o.Digest))
		}
		t.probes["rerun-compared"]++
		return
	}
	t.digests[m.I] = o.Digest
	t.runs++
	t.steps += o.Steps
	t.simMs += o.SimMs
	for k, v := range o.Faults {
		t.faults[k] += v
	}
	for k, v := range o.Probes {
		t.probes[k] += v
	}
	if o.State != 0 {
		t.states[o.State] = true
	}
	if !o.Triv {
		k := Mix(m.Hash, o.State)
		if !t.distinct[k] {
			t.distinct[k] = true
			t.nontriv++
		}
	}
	if m.Scen != nil && o.Fail == nil && len(t.samples) < 3 && !o.Triv {
		t.samples = append(t.samples, m.Scen)
	}
	if o.Err != "" {
		t.errs = append(t.errs, fmt.Sprintf("run %d: %s", m.I, o.Err))
	}
	if o.Fail != nil {
		t.fails[m.I] = m
	}
}

func selfCmd(args ...string) *exec.Cmd {
	exe, err := os.Executable()
	if err != nil {
		dieErr("%v", err)
	}
	c := exec.Command(exe, args...)
	c.Env = append(os.Environ(), cfg.Env...)
	c.Stderr = os.Stderr
	return c
}

// spawn runs one worker to its end and feeds messages to ch. Stops early when
// stop is closed.
func spawn(p *Prop, seed int64, tier string, start, stride, n, secs int, ch chan<- interface{}) {
	type crash struct {
		i   int
		why string
	}
	deadline := time.Now().Add(time.Duration(secs) * time.Second)
	for n > 0 {
		left := int(time.Until(deadline).Seconds()) + 1
		if time.Now().After(deadline) {
			return
		}
		c := selfCmd("worker", "-prop", p.ID, "-seed", fmt.Sprint(seed), "-tier", tier, "-start", fmt.Sprint(start), "-stride", fmt.Sprint(stride), "-n", fmt.Sprint(n), "-secs", fmt.Sprint(left))
		var errb bytes.Buffer
		c.Stderr = &errb
		out, err := c.StdoutPipe()
		if err != nil {
			ch <- fmt.Errorf("%v", err)
			return
		}
		if err := c.Start(); err != nil {
			ch <- fmt.Errorf("%v", err)
			return
		}
		// watchdog: no run takes anywhere near this long
		lines := make(chan []byte, 64)
		go func() {
			sc := bufio.NewScanner(out)
			sc.Buffer(make([]byte, 1<<20), 1<<28)
			for sc.Scan() {
				lines <- append([]byte(nil), sc.Bytes()...)
			}
			close(lines)
		}()
		cur, ended, poison, timedOut := -1, false, false, false
		last := start - stride
	loop:
		for {
			select {
			case l, ok := <-lines:
				if !ok {
					break loop
				}
				if len(l) > 0 && l[0] == 'S' {
					cur, _ = strconv.Atoi(string(l[1:]))
					continue
				}
				var m msg
				if err := json.Unmarshal(l, &m); err != nil {
					ch <- fmt.Errorf("worker output: %v: %.200s", err, l)
					c.Process.Kill()
					break loop
				}
				if m.End {
					ended = true
					continue
				}
				last = m.I
				cur = -1
				if m.Out.Poison {
					poison = true
				}
				ch <- m
			case <-time.After(100 * time.Second):
				timedOut = true
				c.Process.Kill()
				break loop
			}
		}
		werr := c.Wait()
		if ended {
			return
		}
		done := (last-start)/stride + 1
		switch {
		case timedOut:
			ch <- fmt.Errorf("worker stalled in run %d", cur)
			return
		case poison:
			// restart after the poisoned run
		case cur >= 0:
			ch <- crashMsg{cur, fmt.Sprintf("%v: %s", werr, head(errb.String(), 3000))}
			done++
		default:
			ch <- fmt.Errorf("worker ended unexpectedly (%v): %s", werr, head(errb.String(), 2000))
			return
		}
		start += done * stride
		n -= done
	}
}

type crashMsg struct {
	i   int
	why string
}

func head(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

// Known is one line of known_findings.txt.
type Known struct{ Prop, Class, What, Scenario string }

func loadKnown(root, prop string) (ks []Known) {
	b, err := os.ReadFile(filepath.Join(root, "known_findings.txt"))
	if err != nil {
		return nil
	}
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		var k Known
		rest := strings.TrimPrefix(l, "known: ")
		for _, f := range strings.Fields(rest) {
			switch {
			case strings.HasPrefix(f, "property="):
				k.Prop = f[9:]
			case strings.HasPrefix(f, "class="):
				k.Class = f[6:]
			case strings.HasPrefix(f, "scenario="):
				k.Scenario = f[9:]
			}
		}
		if i := strings.Index(rest, "what="); i >= 0 {
			k.What = rest[i+5:]
		}
		if k.Prop == prop {
			ks = append(ks, k)
		}
	}
	return ks
}

// hist is a scenario preceded by others in the same process.
type hist struct {
	Hist []json.RawMessage `json:"_hist"`
	Scen json.RawMessage   `json:"_scen"`
}

// execute performs a run: in this process, or in fresh ones.
func execute(p *Prop, raw json.RawMessage) Outcome {
	if p.Procs == 0 {
		return p.Run(raw, 0)
	}
	o, err := runOne(p, raw)
	if err != nil {
		o = Outcome{Err: err.Error()}
	}
	return o
}

// runOne executes a scenario in fresh processes.
func runOne(p *Prop, raw json.RawMessage) (Outcome, error) {
	n := p.Procs
	if n == 0 {
		n = 1
	}
	var outs []Outcome
	for i := 0; i < n; i++ {
		o, err := runProc(p, raw, i)
		if err != nil || o.Err != "" || o.Fail != nil && p.Compare == nil {
			return o, err
		}
		outs = append(outs, o)
	}
	var o Outcome
	if p.Compare != nil {
		o = p.Compare(raw, outs)
	} else {
		o = Merge(outs)
	}
	o.Res = nil
	return o, nil
}

// Merge adds up the outcomes of the processes of one run.
func Merge(outs []Outcome) Outcome {
	o := outs[0]
	for _, x := range outs[1:] {
		o.Digest = Mix(o.Digest, x.Digest)
		for k, v := range x.Faults {
			o.Fault(k, v)
		}
		for k, v := range x.Probes {
			if o.Probes == nil {
				o.Probes = map[string]int{}
			}
			o.Probes[k] += v
		}
		o.Steps += x.Steps
		o.SimMs += x.SimMs
		o.State = Mix(o.State, x.State)
		if o.Fail == nil {
			o.Fail = x.Fail
		}
		if o.Err == "" {
			o.Err = x.Err
		}
	}
	return o
}

func runProc(p *Prop, raw json.RawMessage, proc int) (Outcome, error) {
	c := selfCmd("one", "-prop", p.ID, "-proc", strconv.Itoa(proc))
	c.Stdin = bytes.NewReader(raw)
	var out, errb bytes.Buffer
	c.Stdout, c.Stderr = &out, &errb
	if err := c.Start(); err != nil {
		return Outcome{}, err
	}
	t := time.AfterFunc(100*time.Second, func() { c.Process.Kill() })
	err := c.Wait()
	stopped := t.Stop()
	var o Outcome
	if out.Len() > 0 {
		if e := json.Unmarshal(bytes.TrimSpace(out.Bytes()), &o); e == nil {
			return o, nil
		}
	}
	if !stopped {
		return o, fmt.Errorf("run stalled")
	}
	if err == nil || !libraryCrash(errb.String()) {
		return o, fmt.Errorf("no outcome (%v): %s", err, head(errb.String(), 1000))
	}
	o.Fail = &Failure{Class: crashClass(errb.String()), Detail: head(errb.String(), 3000)}
	return o, nil
}

// libraryCrash tells a death caused by the code under test from trouble in
// the harness: a frame of the repository must be in the trace.
func libraryCrash(s string) bool {
	if strings.HasPrefix(s, "simkit: ") {
		return false
	}
	return (strings.Contains(s, "fatal error: ") || strings.Contains(s, "panic: ") || strings.Contains(s, "goroutine stack exceeds")) &&
		strings.Contains(s, "github.com/drone/drone-yaml")
}

// crashClass names a process death by its first fatal line.
func crashClass(s string) string {
	for _, l := range strings.Split(s, "\n") {
		if strings.HasPrefix(l, "fatal error: ") || strings.HasPrefix(l, "panic: ") || strings.HasPrefix(l, "runtime: goroutine stack exceeds") {
			if strings.HasPrefix(l, "runtime: goroutine stack") {
				return "process-crash:stack-overflow"
			}
			l = strings.TrimSuffix(l, " [recovered]")
			return "process-crash:" + strings.ReplaceAll(head(l, 60), " ", "_")
		}
	}
	return "process-crash"
}

func check(p *Prop, seed int64, tier string, count, secs, workers int, root string) int {
	t0 := time.Now()
	x := 1
	if tier == "thorough" {
		x = p.ThoroughX
		if x == 0 {
			x = 12
		}
	}
	if count == 0 {
		count = p.Runs * x
	}
	if secs == 0 {
		secs = p.Secs * x
	}
	fmt.Printf("simkit: property=%s rig=%s seed=%d tier=%s runs<=%d cap=%ds workers=%d\n", p.ID, cfg.Rig, seed, tier, count, secs, workers)
	t := &tally{faults: map[string]int{}, probes: map[string]int{}, states: map[uint64]bool{}, distinct: map[uint64]bool{}, digests: map[int]uint64{}, fails: map[int]msg{}, crashes: map[int]string{}, known: map[string]int{}}
	knowns := loadKnown(root, p.ID)
	isKnown := map[string]bool{}
	for _, k := range knowns {
		isKnown[k.Class] = true
	}

	ch := make(chan interface{}, 1024)
	run := func(f func(w int)) {
		done := make(chan bool)
		for w := 0; w < workers; w++ {
			w := w
			go func() { f(w); done <- true }()
		}
		for left := workers; left > 0; {
			select {
			case <-done:
				left--
			case m := <-ch:
				t.take(m)
			}
		}
		for {
			select {
			case m := <-ch:
				t.take(m)
				continue
			default:
			}
			break
		}
	}
	per := (count + workers - 1) / workers
	run(func(w int) { spawn(p, seed, tier, w, workers, per, secs, ch) })
	ran := t.runs
	// determinism: the first runs again, in other processes, at another
	// worker count and in another order
	rw := workers/2 + 1
	nre := ran / 20
	if nre < 24 {
		nre = 24
	}
	if nre > 400 {
		nre = 400
	}
	if nre > ran {
		nre = ran
	}
	if len(t.errs) == 0 && len(t.crashes) == 0 {
		saved := workers
		workers = rw
		run(func(w int) {
			spawn(p, seed, tier, w, rw, (nre+rw-1)/rw, secs/3+5, ch)
		})
		workers = saved
	}

	// known findings: replay their committed scenario
	for _, k := range knowns {
		raw, err := os.ReadFile(filepath.Join(root, k.Scenario))
		if err != nil {
			t.errs = append(t.errs, fmt.Sprintf("known finding %s: %v", k.Class, err))
			continue
		}
		var rf ReplayFile
		if err := json.Unmarshal(raw, &rf); err != nil {
			t.errs = append(t.errs, fmt.Sprintf("known finding %s: %v", k.Class, err))
			continue
		}
		o, err := runOne(p, rf.Scenario)
		if err == nil && o.Fail != nil && o.Fail.Class == k.Class {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", p.ID, k.What)
		}
	}

	violations := 0
	code := 0
	var idx []int
	for i, m := range t.fails {
		if isKnown[m.Out.Fail.Class] {
			t.known[m.Out.Fail.Class]++
			continue
		}
		idx = append(idx, i)
	}
	for i := range t.crashes {
		idx = append(idx, i)
	}
	sort.Ints(idx)
	violations = len(idx)
	reported := map[string]bool{}
	for _, i := range idx {
		if len(reported) >= 2 {
			break
		}
		var raw json.RawMessage
		class := ""
		if m, ok := t.fails[i]; ok {
			class = m.Out.Fail.Class
			raw = m.Scen
			if m.Out.Fixed != nil {
				raw = m.Out.Fixed
			}
			if reported[class] {
				continue
			}
			// must reproduce in a fresh process
			if !reproduces(p, raw, class) {
				raw = m.Scen
				if !reproduces(p, raw, class) {
					raw = history(p, seed, tier == "thorough", i, workers, class)
				}
				if raw == nil {
					t.errs = append(t.errs, fmt.Sprintf("run %d: violation %s does not reproduce in a fresh process: %s", i, class, m.Out.Fail.Detail))
					continue
				}
			}
		} else {
			raw = scenario(p, seed, tier == "thorough", i)
			o1, err1 := runOne(p, raw)
			o2, err2 := runOne(p, raw)
			if err1 != nil || err2 != nil || o1.Fail == nil || o2.Fail == nil || o1.Fail.Class != o2.Fail.Class {
				t.errs = append(t.errs, fmt.Sprintf("run %d crashed the worker but does not reproduce: %s", i, t.crashes[i]))
				continue
			}
			class = o1.Fail.Class
		}
		if reported[class] {
			continue
		}
		reported[class] = true
		raw = minimise(p, raw, class, 20)
		o, err := runOne(p, raw)
		if err != nil || o.Fail == nil || o.Fail.Class != class {
			t.errs = append(t.errs, fmt.Sprintf("minimised scenario lost the violation %s", class))
			continue
		}
		path := filepath.Join(root, "replays", fmt.Sprintf("%s-%016x.json", p.ID, HashStr(0, string(raw))))
		rf := ReplayFile{Property: p.ID, Rig: cfg.Rig, Seed: seed, Run: i, Class: class, Detail: o.Fail.Detail, Scenario: raw, Log: o.Log}
		b, _ := json.MarshalIndent(rf, "", " ")
		os.MkdirAll(filepath.Dir(path), 0755)
		if err := os.WriteFile(path, append(b, '\n'), 0644); err != nil {
			t.errs = append(t.errs, err.Error())
			continue
		}
		fmt.Printf("simkit: run %d (run seed %#x) violates %s: class=%s\n%s\n", i, runSeed(seed, p.ID, i), p.ID, class, indent(o.Fail.Detail))
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
		code = 1
	}
	// A repetition that differs is a gap in the control of the environment. A
	// rare one costs nothing, since every failure is reproduced in a fresh
	// process before it is reported; beyond that nothing is believed.
	for k, e := range t.mism {
		if len(t.mism) > 2 && len(t.mism)*20 > t.probes["rerun-compared"] {
			t.errs = append(t.errs, e)
		} else if k < 5 {
			fmt.Fprintf(os.Stderr, "simkit: warning: %s\n", e)
		}
	}
	if code == 0 && len(t.errs) > 0 {
		code = 2
	}
	for k, e := range t.errs {
		if k < 5 {
			fmt.Fprintf(os.Stderr, "simkit: error: %s\n", e)
		}
	}
	if ran == 0 && code == 0 {
		fmt.Fprintln(os.Stderr, "simkit: no run completed")
		code = 2
	}
	wall := time.Since(t0).Seconds()
	writeEvidence(p, t, root, tier, seed, ran, wall, violations, nre, workers, rw)
	fmt.Printf("simkit: property=%s runs=%d nontrivial=%d states=%d steps=%d faults=%v wall=%.1fs violations=%d known=%v\n", p.ID, ran, t.nontriv, len(t.states), t.steps, t.faults, wall, violations, t.known)
	return code
}

func reproduces(p *Prop, raw json.RawMessage, class string) bool {
	o, err := runOne(p, raw)
	return err == nil && o.Fail != nil && o.Fail.Class == class
}

// history reproduces a failure that needs what the same process did before:
// the scenarios its worker ran, reduced as far as possible.
func history(p *Prop, seed int64, thorough bool, i, stride int, class string) json.RawMessage {
	if p.Procs != 0 {
		return nil
	}
	var hs []json.RawMessage
	for k := i % stride; k < i; k += stride {
		hs = append(hs, scenario(p, seed, thorough, k))
	}
	if len(hs) > 3000 {
		hs = hs[len(hs)-3000:]
	}
	scen := scenario(p, seed, thorough, i)
	pack := func(l []json.RawMessage) json.RawMessage {
		b, _ := json.Marshal(hist{Hist: l, Scen: scen})
		return b
	}
	bad := func(l []json.RawMessage) bool {
		o, err := runOne(p, pack(l))
		return err == nil && o.Fail != nil && o.Fail.Class == class
	}
	if len(hs) == 0 || !bad(hs) {
		return nil
	}
	deadline := time.Now().Add(30 * time.Second)
	for size := len(hs) / 2; size >= 1; size /= 2 {
		for k := 0; k+size <= len(hs) && time.Now().Before(deadline); {
			c := append(append([]json.RawMessage{}, hs[:k]...), hs[k+size:]...)
			if len(c) > 0 && bad(c) {
				hs = c
			} else {
				k += size
			}
		}
	}
	return pack(hs)
}

func indent(s string) string { return "    " + strings.ReplaceAll(s, "\n", "\n    ") }

func (t *tally) take(m interface{}) {
	switch m := m.(type) {
	case msg:
		t.add(m)
	case crashMsg:
		t.crashes[m.i] = m.why
	case error:
		t.errs = append(t.errs, m.Error())
	}
}

// ReplayFile is what a violation leaves behind.
type ReplayFile struct {
	Property string          `json:"property"`
	Rig      string          `json:"rig"`
	Seed     int64           `json:"seed"`
	Run      int             `json:"run"`
	Class    string          `json:"class"`
	Detail   string          `json:"detail"`
	Scenario json.RawMessage `json:"scenario"`
	Log      []string        `json:"log,omitempty"`
}

func replay(file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		dieErr("%v", err)
	}
	var rf ReplayFile
	if err := json.Unmarshal(b, &rf); err != nil {
		dieErr("%v", err)
	}
	p := findProp(rf.Property)
	o, err := runOne(p, rf.Scenario)
	if err != nil {
		dieErr("%v", err)
	}
	for _, l := range o.Log {
		fmt.Println("  | " + l)
	}
	if o.Err != "" {
		dieErr("%s", o.Err)
	}
	if o.Fail == nil {
		fmt.Printf("simkit: property=%s holds on %s\n", rf.Property, file)
		return 0
	}
	fmt.Printf("simkit: class=%s (recorded %s)\n%s\n", o.Fail.Class, rf.Class, indent(o.Fail.Detail))
	fmt.Printf("VIOLATION property=%s replay=%s\n", rf.Property, file)
	return 1
}

func writeEvidence(p *Prop, t *tally, root, tier string, seed int64, ran int, wall float64, violations, nre, workers, rw int) {
	type m = map[string]interface{}
	samples := []interface{}{}
	for _, s := range t.samples {
		var v interface{}
		json.Unmarshal(s, &v)
		samples = append(samples, clip(v))
	}
	cov := m{
		"evaluations":         ran,
		"distinct_nontrivial": t.nontriv,
		"rule":                p.Rule,
		"samples":             samples,
		"runs_per_hour":       int(float64(ran) / wall * 3600),
		"seeds_per_hour":      int(float64(ran) / wall * 3600),
		"simulated_steps":     t.steps,
		"simulated_time_s":    float64(t.simMs) / 1000,
		"faults_injected":     t.faults,
		"probes":              t.probes,
		"distinct_states":     len(t.states),
		"state_measure":       p.State,
		"components_real":     p.Real,
		"components_stub":     p.Stub,
		"determinism":         m{"runs_repeated_in_other_processes": t.probes["rerun-compared"], "worker_counts": []int{workers, rw}, "digest_mismatches": len(t.mism)},
		"known_findings_hit":  t.known,
		"first_seed":          fmt.Sprintf("%#x", runSeed(seed, p.ID, 0)),
		"go":                  runtime.Version(),
	}
	delete(t.probes, "rerun-compared")
	ev := m{"property": p.ID, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov, "assumptions": p.Assume, "wall_s": wall, "violations": violations}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		dieErr("%v", err)
	}
	os.MkdirAll(filepath.Join(root, "evidence"), 0755)
	if err := os.WriteFile(filepath.Join(root, "evidence", p.ID+".json"), append(b, '\n'), 0644); err != nil {
		dieErr("%v", err)
	}
}

// clip shortens long strings in samples.
func clip(v interface{}) interface{} {
	switch v := v.(type) {
	case string:
		if len(v) > 600 {
			return v[:600] + fmt.Sprintf("...(%d bytes)", len(v))
		}
		return v
	case []interface{}:
		if len(v) > 40 {
			v = v[:40]
		}
		for i := range v {
			v[i] = clip(v[i])
		}
		return v
	case map[string]interface{}:
		for k := range v {
			v[k] = clip(v[k])
		}
		return v
	}
	return v
}
