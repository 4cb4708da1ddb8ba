package main

import (
	"context"
	"crypto/rand"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"strings"
	"testing/synctest"
	"time"

	"github.com/drone/drone-runtime/engine"
	druntime "github.com/drone/drone-runtime/runtime"
	"github.com/drone/drone-yaml/yaml"
	"github.com/drone/drone-yaml/yaml/compiler"
	"github.com/drone/drone-yaml/yaml/compiler/transform"
	"github.com/drone/drone-yaml/yaml/linter"

	"verif.local/sim/simkit"
)

// world is a scenario and everything that was observed.
type world struct {
	s    *Scen
	h    *host
	runs []*build
	hung bool
	dur  time.Duration
}

// build is one tenant's build.
type build struct {
	ten      int
	t        *Tenant
	set      *Settings
	pipe     *Pipe // what it runs (of another tenant when Same)
	plan     *plan
	perr     error
	parsed   *yaml.Pipeline
	lint     error
	panicked string
	cause    string // where: parse, lint, compile
	spec     *engine.Spec
	comp     *compiler.Compiler
	calls    []string // requests to the secret provider
	secrets  map[string]string
	compiled time.Duration
	done     bool
	result   error
	resultAt time.Duration
	canceled time.Duration
	shared   bool // the compiler is used by several builds
	shared0  bool // the parsed pipeline is another tenant's
	text     string
}

// accepted reports whether the pipeline was linted and compiled.
func (b *build) accepted() bool {
	return b.perr == nil && b.lint == nil && b.panicked == "" && b.spec != nil
}

func secretValue(org int, name string) string { return fmt.Sprintf("S3C-%d-%s-S3C", org, name) }

type entropy struct{ r *simkit.Rng }

func (e *entropy) Read(p []byte) (int, error) {
	for i := range p {
		p[i] = byte(e.r.U64() >> 32)
	}
	return len(p), nil
}

func cloneMap(m map[string]string) map[string]string {
	if m == nil {
		return nil
	}
	o := map[string]string{}
	for k, v := range m {
		o[k] = v
	}
	return o
}

func cred(org int, what string) string { return fmt.Sprintf("CR3D-%d-%s-CR3D", org, what) }

// setup makes the compiler of a build.
func (w *world) setup(b *build) *compiler.Compiler {
	s := b.set
	org := b.t.Org
	c := &compiler.Compiler{}
	if s.Creds {
		c.GitCredentialsFunc = func() []byte { return []byte("https://u:" + cred(org, "git") + "@git") }
	}
	if len(s.Dind) > 0 {
		c.PrivilegedFunc = compiler.DindFunc(append([]string(nil), s.Dind...))
	}
	if s.Skip {
		m := s.Build
		c.SkipFunc = compiler.SkipFunc(compiler.SkipData{Branch: m["branch"], Cron: m["cron"], Event: m["event"], Instance: m["instance"], Ref: m["ref"], Repo: m["repo"], Target: m["target"], Action: m["action"]})
	}
	if s.Host != "" {
		c.WorkspaceFunc = compiler.CreateHostWorkspace(s.Host)
		c.WorkspaceMountFunc = compiler.MountHostWorkspace
	}
	type tf struct {
		late bool
		f    func(*engine.Spec)
	}
	var fns []tf
	add := func(f func(*engine.Spec)) { fns = append(fns, tf{f: f}) }
	if len(s.Include) > 0 {
		add(transform.Include(append([]string(nil), s.Include...)))
	}
	if len(s.Exclude) > 0 {
		add(transform.Exclude(append([]string(nil), s.Exclude...)))
	}
	if s.Resume != "" {
		add(transform.ResumeAt(s.Resume))
	}
	if s.Env != nil {
		add(transform.WithEnviron(cloneMap(s.Env)))
	}
	if s.Labels != nil {
		add(transform.WithLables(cloneMap(s.Labels)))
	}
	if s.Mem != 0 {
		add(transform.WithLimits(s.Mem, 0))
	}
	if len(s.Networks) > 0 {
		add(transform.WithNetworks(append([]string(nil), s.Networks...)))
	}
	if s.Netrc {
		add(transform.WithNetrc("git", "u", cred(org, "netrc")))
	}
	var auths []*engine.DockerAuth
	for _, a := range s.Auths {
		auths = append(auths, &engine.DockerAuth{Address: a, Username: "u", Password: cred(org, "auth:"+a)})
	}
	if s.AuthFunc {
		add(transform.WithAuthsFunc(func() []*engine.DockerAuth { return auths }))
	} else if len(auths) > 0 {
		add(transform.WithAuths(auths))
	}
	if len(s.Volumes) > 0 {
		if s.VolSlice {
			var l []string
			for _, k := range sorted(s.Volumes) {
				l = append(l, k+":"+s.Volumes[k])
			}
			add(transform.WithVolumeSlice(l))
		} else {
			add(transform.WithVolumes(cloneMap(s.Volumes)))
		}
	}
	add(transform.WithProxy())
	b.secrets = map[string]string{}
	unknown := map[string]bool{}
	for _, n := range s.Unknown {
		unknown[n] = true
	}
	for _, n := range secretNames {
		if !unknown[n] && s.Secrets != "" {
			b.secrets[n] = secretValue(org, n)
		}
	}
	switch s.Secrets {
	case "map":
		fns = append(fns, tf{true, transform.WithSecrets(cloneMap(b.secrets))})
	case "fresh", "shared":
		pool := w.pool(org)
		fns = append(fns, tf{true, transform.WithSecretFunc(func(name string) *engine.Secret {
			b.calls = append(b.calls, name)
			if s.ProvLat > 0 {
				w.h.faults["slow-provider"]++
				w.h.lat(b.ten, name, "provider", ms, time.Duration(s.ProvLat)*ms+2*ms)
			}
			v, ok := b.secrets[name]
			if !ok {
				w.h.faults["unknown-secret"]++
				return nil
			}
			if s.Secrets == "shared" {
				if pool[name] == nil {
					pool[name] = &engine.Secret{Metadata: engine.Metadata{Name: name}, Data: v}
				}
				return pool[name]
			}
			return &engine.Secret{Metadata: engine.Metadata{Name: name}, Data: v}
		})})
	}
	// any order, secrets after the selection
	r := simkit.NewRng(s.Perm)
	for i := len(fns) - 1; i > 0; i-- {
		j := r.Intn(i + 1)
		fns[i], fns[j] = fns[j], fns[i]
	}
	var list []func(*engine.Spec)
	for _, late := range []bool{false, true} {
		for _, f := range fns {
			if f.late == late {
				list = append(list, f.f)
			}
		}
	}
	if len(list) > 0 {
		c.TransformFunc = transform.Combine(list...)
	}
	return c
}

var pools map[int]map[string]*engine.Secret

func (w *world) pool(org int) map[string]*engine.Secret {
	if pools[org] == nil {
		pools[org] = map[string]*engine.Secret{}
	}
	return pools[org]
}

func guard(b *build, where string, f func()) {
	defer func() {
		if r := recover(); r != nil {
			b.panicked = fmt.Sprintf("%s: %v\n%s", where, r, debug.Stack())
			b.cause = where
		}
	}()
	f()
}

// play executes the scenario.
func play(s *Scen) *world {
	w := &world{s: s}
	done := make(chan bool)
	block := make(chan struct{})
	rand.Reader = &entropy{simkit.NewRng(s.Ent)}
	pools = map[int]map[string]*engine.Secret{}
	go func() {
		synctest.SimRun(func() {
			runtime.SimRand(1, s.MapSeed)
			w.h = newHost(s)
			for i := range s.Tenants {
				t := &s.Tenants[i]
				b := &build{ten: i, t: t, set: &t.S, pipe: &t.P}
				w.runs = append(w.runs, b)
				if k := t.Same - 1; k >= 0 && k < i {
					o := w.runs[k]
					b.pipe, b.parsed, b.perr = o.pipe, o.parsed, o.perr
					b.shared0 = true
				} else {
					guard(b, "parse", func() { b.parsed, b.text, b.perr = parse(t, s.form) })
				}
				b.plan = makePlan(t, b.pipe, &t.S)
				if b.panicked == "" && b.perr == nil {
					if k := t.Same - 1; t.Comp && k >= 0 && k < i && w.runs[k].comp != nil && s.Tenants[k].Org == t.Org {
						b.comp = w.runs[k].comp
						b.set = w.runs[k].set
						b.plan = makePlan(t, b.pipe, b.set)
						b.secrets = w.runs[k].secrets
						b.shared, w.runs[k].shared = true, true
					} else {
						b.comp = w.setup(b)
					}
				}
			}
			fin := make(chan int, len(s.Tenants))
			for i := range w.runs {
				b := w.runs[i]
				go func() {
					w.tenant(b)
					fin <- 1
				}()
			}
			if s.Restart > 0 {
				go func() {
					time.Sleep(time.Duration(s.Restart)*ms + 137*time.Nanosecond)
					w.h.restart()
				}()
			}
			all := make(chan bool)
			go func() {
				for range w.runs {
					<-fin
				}
				close(all)
			}()
			select {
			case <-all:
				w.dur = w.h.now()
				// let stray containers, streams and timers end
				time.Sleep(horizon)
				w.h.restart()
				time.Sleep(horizon)
			case <-time.After(20 * horizon):
				w.hung = true
				w.dur = w.h.now()
			}
			runtime.SimRand(0, 0)
			if w.hung {
				done <- true
				<-block
			}
		})
		done <- true
	}()
	<-done
	return w
}

const horizon = 365 * 24 * time.Hour

func parse(t *Tenant, form []string) (*yaml.Pipeline, string, error) {
	if t.Src != nil {
		return t.Src.convert(t)
	}
	m, text, err := reform(t.Text(), form)
	if err != nil {
		return nil, text, err
	}
	for _, r := range m.Resources {
		if p, ok := r.(*yaml.Pipeline); ok && p.Name == t.P.Name {
			return p, text, nil
		}
	}
	return nil, text, fmt.Errorf("pipeline %q not found", t.P.Name)
}

func (w *world) tenant(b *build) {
	if b.perr != nil || b.panicked != "" {
		return
	}
	time.Sleep(time.Duration(b.t.Start)*ms + w.h.dur(b.ten, "", "begin", 1, 1000000))
	guard(b, "lint", func() { b.lint = linter.Lint(b.parsed, b.t.Trusted) })
	if b.lint != nil || b.panicked != "" {
		return
	}
	guard(b, "compile", func() { b.spec = b.comp.Compile(b.parsed) })
	if b.panicked != "" {
		return
	}
	b.compiled = w.h.now()
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	if b.t.Cancel > 0 && !b.plan.serial {
		go func() {
			time.Sleep(time.Duration(b.t.Cancel)*ms + 11*time.Nanosecond)
			if !b.done {
				b.canceled = w.h.now()
				w.h.faults["cancel"]++
			}
			cancel()
		}()
	}
	w.h.log(event{Ten: b.ten, Kind: "run"})
	b.result = druntime.New(druntime.WithEngine(&eng{w.h, b.ten, b.plan}), druntime.WithConfig(b.spec)).Run(ctx)
	b.done = true
	b.resultAt = w.h.now()
	ev := event{Ten: b.ten, Kind: "run", Ret: true}
	if b.result != nil {
		ev.Err = b.result.Error()
	}
	w.h.log(ev)
}

// trace renders the history.
func (w *world) trace() []string {
	var l []string
	for _, e := range w.h.events {
		s := fmt.Sprintf("%12.6fs pipeline %d %-10s", e.T.Seconds(), e.Ten, e.Name)
		if e.Ret {
			s += " " + e.Kind + " returned"
		} else {
			s += " " + e.Kind
		}
		if e.Err != "" {
			s += " error=" + e.Err
		}
		if e.Kind == "exit" || e.Kind == "wait" && e.Ret {
			s += fmt.Sprintf(" code=%d", e.Code)
		}
		if e.OOM {
			s += " oom"
		}
		l = append(l, s)
	}
	for _, b := range w.runs {
		if b.lint != nil {
			l = append(l, fmt.Sprintf("pipeline %d rejected: %v", b.ten, b.lint))
		}
		if b.perr != nil {
			l = append(l, fmt.Sprintf("pipeline %d not parsed: %v", b.ten, b.perr))
		}
	}
	if len(l) > 400 {
		l = append(l[:400], "...")
	}
	return l
}

func harness(b *build) bool {
	return b.panicked != "" && !strings.Contains(b.panicked, "github.com/drone/drone-yaml")
}

func init() {
	os.Unsetenv("DRONE_FEATURE_VOLUME_SET")
}
