package main

import (
	"context"
	"crypto/rand"
	"encoding/json"
	"errors"
	"fmt"
	"runtime"
	"sort"
	"strings"
	"testing/synctest"
	"time"

	"github.com/drone/drone-runtime/engine"
	druntime "github.com/drone/drone-runtime/runtime"
	"github.com/drone/drone-yaml/yaml"
	"github.com/drone/drone-yaml/yaml/compiler"
	"github.com/drone/drone-yaml/yaml/linter"

	"io"
	"verif.local/sim/simkit"
)

// GScen is a configuration of several pipelines that a server hands out to
// agents on several hosts, which crash, reboot or cannot be reached.
type GScen struct {
	Pipes   []GPipe  `json:"pipes"`
	S       Settings `json:"s"`
	Trusted bool     `json:"trusted,omitempty"`
	Extra   int      `json:"extra,omitempty"` // other documents between
	Hosts   int      `json:"hosts"`
	Cap     int      `json:"cap"`             // attempts an agent runs at a time
	JSON    bool     `json:"json,omitempty"`  // agents get the JSON form
	Share   bool     `json:"share,omitempty"` // one compiler per agent
	Crashes []Crash  `json:"crashes,omitempty"`
	Loss    int      `json:"loss,omitempty"` // percent of the messages
	Lat     uint64   `json:"lat"`
	Slow    int      `json:"slow"`
	MapSeed uint64   `json:"map_seed"`
	Ent     uint64   `json:"ent"`
}

// GPipe is one pipeline with the faults of its containers.
type GPipe struct {
	P      Pipe    `json:"p"`
	Faults []Fault `json:"faults,omitempty"`
}

// Crash of one host.
type Crash struct {
	Host int    `json:"host"`
	At   int    `json:"at"` // ms
	Kind string `json:"kind"`
	Dur  int    `json:"dur"` // ms
}

func (s *GScen) text() string {
	var b strings.Builder
	for i := range s.Pipes {
		if s.Extra>>uint(i)&1 != 0 {
			fmt.Fprintf(&b, "---\nkind: %s\n", []string{"secret\nname: s1\ndata: abc", "cron\nname: nightly\nspec:\n  schedule: \"0 * * * *\"\n  branch: master", "signature\nhmac: abc"}[i%3])
		}
		t := Tenant{P: s.Pipes[i].P}
		b.WriteString(t.Text())
	}
	return b.String()
}

// gstage is what the server knows about a pipeline.
type gstage struct {
	idx    int
	name   string
	p      *yaml.Pipeline
	state  string // pending, running, done, skipped
	failed bool   // it or something it depends on failed
	token  int    // attempt that owns it
	lease  time.Duration
	tries  int
	end    time.Duration
	done   int // completions recorded
	by     *gbuild
	why    string
}

// gbuild is one attempt.
type gbuild struct {
	*build
	stage  int // index at the server
	pidx   int // the pipeline of the scenario it should run
	host   int
	token  int
	dead   bool // its agent crashed
	stale  bool // the server gave the stage to another attempt
	begin  time.Duration
	ended  bool
	failed bool
}

type ghost struct {
	w    *world // host, builds
	comp *compiler.Compiler
	b0   *build // secrets of the shared compiler
	down time.Duration
	cut  time.Duration
	load int
	runs []*gbuild
}

type gworld struct {
	s       *GScen
	sc      *Scen
	hosts   []*ghost
	stages  []*gstage
	all     []*gbuild
	t0      time.Time
	msgs    uint64
	log     []string
	err     error // parse
	lint    error
	bad     []string // violations seen while running
	kinds   []string
	hung    bool
	dur     time.Duration
	lastBad time.Duration
	payload []byte
	panics  string
	harness string
	faults  map[string]int
}

const (
	gpoll  = 2 * time.Second
	glease = 60 * time.Second
)

func (g *gworld) now() time.Duration { return time.Since(g.t0) }

func (g *gworld) logf(f string, a ...interface{}) {
	g.log = append(g.log, fmt.Sprintf("%12.6fs ", g.now().Seconds())+fmt.Sprintf(f, a...))
}

func (g *gworld) fail(kind, f string, a ...interface{}) {
	g.kinds = append(g.kinds, kind)
	g.bad = append(g.bad, fmt.Sprintf(f, a...))
}

// message takes the time of a message and reports whether it arrives.
func (g *gworld) message(h *ghost) bool {
	g.msgs++
	x := simkit.Mix(g.s.Lat, 77, g.msgs)
	time.Sleep(time.Millisecond + time.Duration(x%uint64(300*time.Millisecond)))
	if h.cut > g.now() {
		g.faults["message-cut"]++
		return false
	}
	if int(x>>33)%100 < g.s.Loss {
		g.faults["message-lost"]++
		return false
	}
	return true
}

// deadEngine is the engine of an agent that may crash: what the agent does
// after its crash has no effect; what docker was doing goes on.
type deadEngine struct {
	e *eng
	b *gbuild
}

var errDead = errors.New("agent crashed")

func (d *deadEngine) Setup(ctx context.Context, spec *engine.Spec) error {
	if d.b.dead {
		return errDead
	}
	err := d.e.Setup(ctx, spec)
	if d.b.dead {
		return errDead
	}
	return err
}

func (d *deadEngine) Create(ctx context.Context, spec *engine.Spec, step *engine.Step) error {
	if d.b.dead {
		return errDead
	}
	err := d.e.Create(ctx, spec, step)
	if d.b.dead {
		return errDead
	}
	return err
}

func (d *deadEngine) Start(ctx context.Context, spec *engine.Spec, step *engine.Step) error {
	if d.b.dead {
		return errDead
	}
	err := d.e.Start(ctx, spec, step)
	if d.b.dead {
		return errDead
	}
	return err
}

func (d *deadEngine) Wait(ctx context.Context, spec *engine.Spec, step *engine.Step) (*engine.State, error) {
	if d.b.dead {
		return nil, errDead
	}
	s, err := d.e.Wait(ctx, spec, step)
	if d.b.dead {
		return nil, errDead
	}
	return s, err
}

func (d *deadEngine) Tail(ctx context.Context, spec *engine.Spec, step *engine.Step) (io.ReadCloser, error) {
	if d.b.dead {
		return nil, errDead
	}
	return d.e.Tail(ctx, spec, step)
}

func (d *deadEngine) Destroy(ctx context.Context, spec *engine.Spec) error {
	if d.b.dead {
		return errDead
	}
	return d.e.Destroy(ctx, spec)
}

func gplay(s *GScen) *gworld {
	g := &gworld{s: s, sc: &Scen{Lat: s.Lat, Slow: s.Slow, MapSeed: s.MapSeed, Ent: s.Ent}, faults: map[string]int{}}
	done := make(chan bool)
	block := make(chan struct{})
	rand.Reader = &entropy{simkit.NewRng(s.Ent)}
	pools = map[int]map[string]*engine.Secret{}
	go func() {
		synctest.SimRun(func() {
			runtime.SimRand(1, s.MapSeed)
			g.t0 = time.Now()
			g.server()
			runtime.SimRand(0, 0)
			if g.hung {
				done <- true
				<-block
			}
		})
		done <- true
	}()
	<-done
	return g
}

// accept is what the server does with a new build.
func (g *gworld) accept() bool {
	var m *yaml.Manifest
	b := &build{}
	guard(b, "parse", func() { m, g.err = yaml.ParseString(g.s.text()) })
	if g.err != nil || g.panicked(b) {
		return false
	}
	guard(b, "lint", func() {
		g.lint = linter.Manifest(m, g.s.Trusted)
		for _, r := range m.Resources {
			if p, ok := r.(*yaml.Pipeline); ok && g.lint == nil {
				g.lint = linter.Lint(p, g.s.Trusted)
			}
		}
	})
	if g.lint != nil || g.panicked(b) {
		return false
	}
	if g.s.JSON {
		guard(b, "encode", func() {
			var err error
			if g.payload, err = json.Marshal(m); err != nil {
				g.fail("not-encodable", "the accepted configuration cannot be encoded: %v", err)
				return
			}
			n := new(yaml.Manifest)
			if err := json.Unmarshal(g.payload, n); err != nil {
				g.fail("not-decodable", "the JSON form of the accepted configuration cannot be decoded: %v", err)
				return
			}
			for i, r := range m.Resources {
				p, ok := r.(*yaml.Pipeline)
				if !ok {
					continue
				}
				var q *yaml.Pipeline
				if i < len(n.Resources) {
					q, _ = n.Resources[i].(*yaml.Pipeline)
				}
				if q == nil {
					g.fail("json-differs", "resource %d is a pipeline, but not in the JSON form", i)
					return
				}
				if x, y := g.plain(p), g.plain(q); x != y {
					k := 0
					for k < len(x) && k < len(y) && x[k] == y[k] {
						k++
					}
					k = max(0, k-60)
					g.fail("json-differs", "pipeline %q is executed as ...%.160s from the file and as ...%.160s from its JSON form", p.Name, x[k:], y[min(k, len(y)):])
				}
			}
		})
		if len(g.bad) > 0 || g.panicked(b) {
			return false
		}
	}
	for _, r := range m.Resources {
		if p, ok := r.(*yaml.Pipeline); ok {
			g.stages = append(g.stages, &gstage{idx: len(g.stages), name: p.Name, p: p, state: "pending"})
		}
	}
	if len(g.stages) != len(g.s.Pipes) {
		g.fail("pipeline-lost", "the configuration has %d pipelines, %d were found", len(g.s.Pipes), len(g.stages))
		return false
	}
	return true
}

// plain renders what a compiler without settings makes of a pipeline.
func (g *gworld) plain(p *yaml.Pipeline) string {
	old := rand.Reader
	defer func() { rand.Reader = old }()
	rand.Reader = &entropy{simkit.NewRng(99)}
	c := &compiler.Compiler{}
	b, err := json.Marshal(c.Compile(p))
	if err != nil {
		return err.Error()
	}
	var v interface{}
	json.Unmarshal(b, &v)
	t, _ := json.Marshal([]interface{}{bare(v), p.Name, bare(jsonOf(p.DependsOn)), bare(jsonOf(p.Trigger))})
	return string(t)
}

func jsonOf(v interface{}) (o interface{}) {
	b, _ := json.Marshal(v)
	json.Unmarshal(b, &o)
	return
}

// bare drops empty values.
func bare(v interface{}) interface{} {
	switch v := v.(type) {
	case []interface{}:
		for i := range v {
			v[i] = bare(v[i])
		}
		if len(v) == 0 {
			return nil
		}
	case map[string]interface{}:
		for k, x := range v {
			if v[k] = bare(x); v[k] == nil {
				delete(v, k)
			}
		}
		if len(v) == 0 {
			return nil
		}
	}
	return v
}

func (g *gworld) panicked(b *build) bool {
	if b.panicked == "" {
		return false
	}
	if harness(b) {
		g.harness = b.panicked
	}
	g.fail("panics", "%s", b.panicked)
	return true
}

// advance decides about stages that wait.
func (g *gworld) advance() {
	for again := true; again; {
		again = false
		for _, st := range g.stages {
			if st.state != "pending" || st.tries > 0 {
				continue
			}
			ready, failed := g.ready(st)
			if !ready {
				continue
			}
			tr := &st.p.Trigger
			match := true
			for _, k := range whenKeys {
				v := g.s.S.Build[k]
				c := map[string]*yaml.Condition{"branch": &tr.Branch, "cron": &tr.Cron, "event": &tr.Event, "instance": &tr.Instance, "ref": &tr.Ref, "repo": &tr.Repo, "target": &tr.Target, "action": &tr.Action}[k]
				match = match && c.Match(v)
			}
			onOK := tr.Status.Match("success")
			onFail := len(tr.Status.Include)+len(tr.Status.Exclude) > 0 && tr.Status.Match("failure")
			switch {
			case !match:
				st.why = "trigger"
			case failed && !onFail || !failed && !onOK:
				st.why = "status"
			default:
				continue
			}
			st.state, st.failed, st.end = "skipped", failed, g.now()
			g.logf("server: %s (pipeline %d) is skipped: %s", st.name, st.idx, st.why)
			again = true
		}
	}
}

// ready reports whether everything the stage depends on is over.
func (g *gworld) ready(st *gstage) (ready, failed bool) {
	for _, d := range st.p.DependsOn {
		found := false
		for _, o := range g.stages {
			if o.name != d {
				continue
			}
			if found = o.state == "done" || o.state == "skipped"; !found {
				return false, false
			}
			failed = failed || o.failed
		}
		if !found {
			return false, false
		}
	}
	return true, failed
}

// over reports whether nothing is left to do.
func (g *gworld) over() bool {
	for _, st := range g.stages {
		if st.state != "done" && st.state != "skipped" {
			return false
		}
	}
	return true
}

// request is an agent asking for work.
func (g *gworld) request() *gstage {
	for _, st := range g.stages {
		if st.state == "running" && st.lease < g.now() {
			st.state = "pending"
			st.by.stale = true
			g.faults["lease-expired"]++
			g.logf("server: attempt %d of %s is given up", st.token, st.name)
		}
	}
	g.advance()
	for _, st := range g.stages {
		if st.state != "pending" {
			continue
		}
		if ok, _ := g.ready(st); ok || st.tries > 0 {
			st.state = "running"
			st.tries++
			st.token++
			st.lease = g.now() + glease
			st.by = &gbuild{stage: st.idx, token: st.token}
			return st
		}
	}
	return nil
}

func (g *gworld) server() {
	if !g.accept() {
		return
	}
	for i := 0; i < g.s.Hosts; i++ {
		h := &ghost{}
		h.w = &world{s: g.sc, h: newHost(g.sc)}
		h.w.h.t0 = g.t0
		g.hosts = append(g.hosts, h)
	}
	for i := range g.s.Crashes {
		c := g.s.Crashes[i]
		go g.crash(c, i)
	}
	fin := make(chan int)
	for i := range g.hosts {
		go func() {
			g.agent(i)
			fin <- 1
		}()
	}
	all := make(chan bool)
	go func() {
		for range g.hosts {
			<-fin
		}
		close(all)
	}()
	select {
	case <-all:
		g.dur = g.now()
	case <-time.After(20 * horizon):
		g.hung = true
		g.dur = g.now()
	}
	for k := 0; k < 2; k++ {
		time.Sleep(horizon)
		for _, h := range g.hosts {
			h.w.h.restart()
		}
	}
	time.Sleep(horizon)
	for _, b := range g.all {
		if !b.done {
			g.hung = true
		}
	}
}

func (g *gworld) crash(c Crash, i int) {
	time.Sleep(time.Duration(c.At)*ms + time.Duration(i*7+13)*time.Nanosecond)
	if c.Host >= len(g.hosts) || g.over() {
		return
	}
	h := g.hosts[c.Host]
	g.faults[c.Kind]++
	g.logf("host %d: %s for %d ms", c.Host, c.Kind, c.Dur)
	until := g.now() + time.Duration(c.Dur)*ms
	if until > g.lastBad {
		g.lastBad = until
	}
	switch c.Kind {
	case "partition":
		h.cut = max(h.cut, until)
	default:
		h.down = max(h.down, until)
		h.load = 0
		for _, b := range h.runs {
			if !b.ended {
				b.dead = true
				g.faults["attempt-killed"]++
			}
		}
		h.comp = nil // a new process
		if c.Kind == "reboot" {
			h.w.h.restart()
		}
	}
}

func (g *gworld) agent(i int) {
	h := g.hosts[i]
	wait := gpoll + time.Duration(i*1013+1)*time.Nanosecond
	for n := 0; ; n++ {
		time.Sleep(wait + time.Duration(simkit.Mix(g.s.Lat, 5, uint64(i), uint64(n))%uint64(time.Second)))
		if g.over() {
			return
		}
		if g.now() > 10*horizon {
			return // never gets to the end
		}
		// the longer nothing happens, the less often it asks
		if wait < 24*time.Hour && n > 2000 {
			wait *= 2
		}
		if h.down > g.now() || h.load >= g.s.Cap {
			continue
		}
		if !g.message(h) {
			continue
		}
		st := g.request()
		if st == nil {
			continue
		}
		wait = gpoll + time.Duration(i*1013+1)*time.Nanosecond
		n = n % 1000
		b := st.by
		b.host = i
		g.logf("server: attempt %d of %s (pipeline %d) goes to host %d", st.token, st.name, st.idx, i)
		if !g.message(h) || h.down > g.now() {
			continue // the agent never learns about it
		}
		h.load++
		h.runs = append(h.runs, b)
		g.all = append(g.all, b)
		down := h.down
		go func() {
			g.attempt(h, st, b)
			b.ended = true
			if h.down == down && !b.dead {
				h.load--
			}
		}()
	}
}

// attempt runs one stage on an agent.
func (g *gworld) attempt(h *ghost, st *gstage, b *gbuild) {
	gp := &g.s.Pipes[b.stage]
	t := &Tenant{P: gp.P, S: g.s.S, Trusted: g.s.Trusted, Faults: gp.Faults}
	b.build = &build{ten: len(g.sc.Tenants), t: t, set: &t.S, pipe: &t.P}
	g.sc.Tenants = append(g.sc.Tenants, *t)
	h.w.runs = append(h.w.runs, b.build)
	b.plan = makePlan(t, &t.P, &t.S)
	b.begin = g.now()
	var m *yaml.Manifest
	guard(b.build, "parse", func() {
		if g.s.JSON {
			m = new(yaml.Manifest)
			b.perr = json.Unmarshal(g.payload, m)
		} else {
			m, b.perr = yaml.ParseString(g.s.text())
		}
	})
	if b.perr != nil {
		g.fail("not-decodable", "host %d cannot read the accepted configuration: %v", b.host, b.perr)
	}
	if b.perr != nil || g.panicked(b.build) {
		g.report(h, st, b, true)
		return
	}
	for _, r := range m.Resources {
		if p, ok := r.(*yaml.Pipeline); ok && p.Name == st.name {
			b.parsed = p
			break
		}
	}
	if b.parsed == nil {
		g.fail("pipeline-lost", "host %d does not find pipeline %q", b.host, st.name)
		g.report(h, st, b, true)
		return
	}
	if g.s.Share && h.comp != nil {
		b.comp, b.secrets, b.shared = h.comp, h.b0.secrets, true
	} else {
		b.comp = h.w.setup(b.build)
		if g.s.Share {
			h.comp, h.b0 = b.comp, b.build
		}
	}
	stop := make(chan bool)
	go g.heartbeat(h, st, b, stop)
	guard(b.build, "compile", func() { b.spec = b.comp.Compile(b.parsed) })
	if g.panicked(b.build) {
		close(stop)
		g.report(h, st, b, true)
		return
	}
	b.compiled = g.now()
	b.result = druntime.New(druntime.WithEngine(&deadEngine{&eng{h.w.h, b.ten, b.plan}, b}), druntime.WithConfig(b.spec)).Run(context.Background())
	b.done = true
	b.resultAt = g.now()
	b.failed = b.result != nil
	close(stop)
	g.report(h, st, b, b.failed)
}

// heartbeat keeps the lease.
func (g *gworld) heartbeat(h *ghost, st *gstage, b *gbuild, stop chan bool) {
	beat := glease / 4
	for n := 0; ; n++ {
		if n > 40 {
			beat += beat / 2 // long attempts need fewer signs of life
		}
		select {
		case <-stop:
			return
		case <-time.After(beat + time.Duration(b.ten+3)*time.Nanosecond):
		}
		if b.dead {
			return
		}
		if !g.message(h) {
			continue
		}
		if st.token == b.token && st.state == "running" && !b.dead {
			st.lease = g.now() + 6*beat
		} else {
			return
		}
		if g.now() > 5*horizon {
			return
		}
	}
}

// report tells the server the result until it is acknowledged.
func (g *gworld) report(h *ghost, st *gstage, b *gbuild, failed bool) {
	for k := 0; k < 100000; k++ {
		if b.dead {
			return
		}
		if g.message(h) {
			if st.token == b.token && st.state == "running" {
				st.state, st.failed, st.end, st.done, st.by = "done", failed, g.now(), st.done+1, b
				g.logf("server: attempt %d of %s (pipeline %d) ended, failed=%v", b.token, st.name, st.idx, failed)
				g.advance()
			} else if st.done > 0 && st.by == b {
				g.faults["report-repeated"]++
			}
			if g.message(h) {
				return
			}
		}
		time.Sleep(3 * time.Second)
	}
}

// --- judging

func (g *gworld) judge(o *simkit.Outcome) {
	for i, k := range g.kinds {
		o.Failf(k, "%s", g.bad[i])
	}
	if len(g.stages) != len(g.s.Pipes) || len(g.kinds) > 0 {
		return
	}
	s := g.s
	// every pipeline to its end
	for _, st := range g.stages {
		if st.state != "done" && st.state != "skipped" {
			o.Failf("never-ends", "pipeline %d %q was accepted but never ends: %s after %d attempts (depends on %s)", st.idx, s.Pipes[st.idx].P.Name, st.state, st.tries, js(s.Pipes[st.idx].P.PDeps))
		}
	}
	if o.Fail != nil {
		return
	}
	index := map[string]int{}
	for i := range s.Pipes {
		if _, ok := index[s.Pipes[i].P.Name]; !ok {
			index[s.Pipes[i].P.Name] = i
		}
	}
	// what had to run
	for i := range s.Pipes {
		p := &s.Pipes[i].P
		st := g.stages[i]
		failed := false
		for _, d := range p.PDeps {
			k, ok := index[d]
			if !ok {
				o.Failf("before-dependency", "pipeline %d %q depends on %q, which does not exist, and was executed", i, p.Name, d)
				return
			}
			ds := g.stages[k]
			failed = failed || ds.failed
			for _, b := range g.all {
				if b.stage == i && b.begin < ds.end {
					o.Failf("before-dependency", "pipeline %d %q began at %v although %q, on which it depends, ended at %v", i, p.Name, b.begin, d, ds.end)
				}
			}
			if st.state == "skipped" && st.end < ds.end {
				o.Failf("before-dependency", "pipeline %d %q was decided before %q", i, p.Name, d)
			}
		}
		match := true
		for _, k := range whenKeys {
			if c, ok := p.Trig[k]; ok && !c.match(s.S.Build[k]) {
				match = false
			}
		}
		c := p.Trig["status"]
		run := match && (!failed && c.match("success") || failed && len(c.Inc)+len(c.Exc) > 0 && c.match("failure"))
		if run && st.state == "skipped" {
			o.Failf("wrongly-skipped", "pipeline %d %q (trigger %s) must run for build %s, failed=%v", i, p.Name, js(p.Trig), js(s.S.Build), failed)
		}
		if !run && st.state == "done" {
			o.Failf("wrongly-run", "pipeline %d %q (trigger %s) must not run for build %s, failed=%v", i, p.Name, js(p.Trig), js(s.S.Build), failed)
		}
	}
	// every attempt
	for _, h := range g.hosts {
		for _, b := range h.runs {
			if b.build == nil || !b.accepted() {
				continue
			}
			for i := range h.w.h.obs {
				ob := &h.w.h.obs[i]
				if ob.Ten != b.ten {
					continue
				}
				for _, m := range ran(ob.B) {
					if !strings.HasPrefix(m, b.pipe.Pre) {
						o.Failf("wrong-pipeline", "host %d: an attempt of pipeline %d %q executes %s of another pipeline", b.host, b.stage, b.pipe.Name, m)
					}
				}
			}
			a := h.w.account(b.build)
			checkIsolation(h.w, a, o)
			for _, r := range a.runs {
				if strings.HasPrefix(r.createErr, "conflict") {
					o.Failf("identifier-shared", "host %d: attempt %d of pipeline %d: %s: %s", b.host, b.token, b.stage, r, r.createErr)
				}
			}
			if !b.dead && b.comparable() {
				checkComplete(h.w, a, o)
				checkPolicy(h.w, a, o)
			}
		}
	}
	o.Triv = false
}

func (g *gworld) digests() (state, digest uint64) {
	for _, l := range g.log {
		state = simkit.HashStr(state, l[14:])
		digest = simkit.HashStr(digest, l)
	}
	for _, h := range g.hosts {
		a, b := h.w.digests()
		state, digest = simkit.Mix(state, a), simkit.Mix(digest, b)
	}
	digest = simkit.HashStr(digest, fmt.Sprint(g.err, g.lint, g.kinds))
	return
}

func runGraph(raw json.RawMessage, _ int) (o simkit.Outcome) {
	var s GScen
	if err := json.Unmarshal(raw, &s); err != nil {
		o.Err = err.Error()
		return
	}
	o.Triv = true
	if len(s.Pipes) == 0 || s.Hosts < 1 || s.Cap < 1 {
		return
	}
	for i := range s.Pipes {
		s.Pipes[i].P.Pre = fmt.Sprintf("p%d.", i)
	}
	g := gplay(&s)
	if g.harness != "" {
		o.Err = g.harness
		return
	}
	o.Poison = g.hung
	o.SimMs = int64(g.dur / time.Millisecond)
	for k, n := range g.faults {
		o.Fault(k, n)
	}
	for _, h := range g.hosts {
		o.Steps += int64(len(h.w.h.events))
		for k, n := range h.w.h.faults {
			o.Fault(k, n)
		}
	}
	switch {
	case g.err != nil:
		o.Probe("not-parsed")
	case g.lint != nil:
		o.Probe("rejected")
		o.Probe("rejected: " + g.lint.Error())
	default:
		g.judge(&o)
		re, conc := false, false
		for _, st := range g.stages {
			re = re || st.tries > 1
			conc = conc || st.state == "skipped"
		}
		if re {
			o.Probe("attempt-repeated")
		}
		if conc {
			o.Probe("pipeline-skipped")
		}
		if s.JSON {
			o.Probe("json-form")
		}
	}
	o.State, o.Digest = g.digests()
	if o.Fail != nil {
		o.Log = append(g.log, "")
		for i, h := range g.hosts {
			o.Log = append(o.Log, fmt.Sprintf("host %d:", i))
			o.Log = append(o.Log, h.w.trace()...)
		}
		if g.lint != nil {
			o.Log = append(o.Log, "rejected: "+g.lint.Error())
		}
	}
	return
}

var graphWeights = weights{graph: .4, svc: .3, detach: .15, fail: .2, faults: .15, odd: 0, skip: 0, sel: 0, secrets: .2, vols: .3, build: .25, win: .05, ops: .3, status: .2, tenants: 1, steps: 3}

var pipeNames = []string{"build", "test", "deploy", "Build", "1", "notify", "a b", "after"}

func genGraph(r *simkit.Rng, thorough bool) interface{} {
	s := &GScen{Lat: r.U64(), MapSeed: r.U64(), Ent: r.U64(), Hosts: r.Range(1, 3), Cap: r.Range(1, 3), JSON: r.P(.35), Share: r.P(.3), Trusted: r.P(.3)}
	if r.P(.3) {
		s.Slow = r.Range(2, 12)
	}
	if r.P(.4) {
		s.Loss = r.Range(1, 40)
	}
	if r.P(.3) {
		s.Extra = r.Intn(16)
	}
	w := graphWeights
	n := r.Range(1, 5)
	if thorough && r.P(.3) {
		n += r.Intn(5)
		w.steps += 3
	}
	names := append([]string(nil), pipeNames...)
	for len(names) < n {
		names = append(names, fmt.Sprint("p", len(names)))
	}
	if r.P(.5) {
		for i := range names {
			j := r.Intn(i + 1)
			names[i], names[j] = names[j], names[i]
		}
	}
	for i := 0; i < n; i++ {
		t := Tenant{Trusted: s.Trusted}
		g := &gener{r: r, w: w, t: &t, p: &t.P}
		g.settings()
		if i == 0 {
			s.S = t.S
			if r.P(.5) && !s.S.Skip {
				s.S.Build = map[string]string{"branch": r.Pick("master", "develop", "feature/a"), "event": r.Pick("push", "pull_request", "tag"), "instance": "drone.company.com", "ref": r.Pick("refs/heads/master", "refs/tags/v1"), "repo": "octocat/hello-world"}
				s.S.Skip = r.P(.5)
			}
		}
		t.S = s.S
		g.pipe()
		g.faults()
		var fs []Fault
		for _, f := range t.Faults {
			if f.Op != "setup" {
				fs = append(fs, f)
			}
		}
		t.P.Name = names[i]
		for k := 0; k < i; k++ {
			if r.P(.4) {
				t.P.PDeps = append(t.P.PDeps, names[k])
			}
		}
		if r.P(.35) {
			t.P.Trig = g.when()
			if r.P(.5) && s.S.Build != nil {
				if t.P.Trig == nil {
					t.P.Trig = map[string]Cond{}
				}
				k := whenKeys[r.Intn(len(whenKeys))]
				t.P.Trig[k] = g.cond(k)
			}
		}
		if r.P(.2) {
			t.P.Type = "docker"
		}
		s.Pipes = append(s.Pipes, GPipe{t.P, fs})
	}
	if r.P(.3) { // odd
		p := &s.Pipes[r.Intn(n)].P
		q := &s.Pipes[r.Intn(n)].P
		switch r.Intn(6) {
		case 0:
			p.Name = q.Name
		case 1:
			p.PDeps = append(p.PDeps, r.Pick("nothing", "", "BUILD", "clone"))
		case 2:
			p.PDeps = append(p.PDeps, p.Name)
		case 3:
			p.PDeps = append(p.PDeps, q.Name)
		case 4:
			p.PDeps = append(p.PDeps, q.Name)
			q.PDeps = append(q.PDeps, p.Name)
		case 5:
			p.Name = ""
		}
	}
	if r.P(.7) {
		for k := r.Range(1, 4); k > 0; k-- {
			c := Crash{Host: r.Intn(s.Hosts), At: r.Intn(1200000), Kind: r.Pick("agent-crash", "agent-crash", "reboot", "partition"), Dur: r.Range(1, 300000)}
			if r.P(.4) {
				c.At = r.Intn(60000)
			}
			s.Crashes = append(s.Crashes, c)
		}
	}
	sort.Slice(s.Crashes, func(i, j int) bool { return s.Crashes[i].At < s.Crashes[j].At })
	return s
}
