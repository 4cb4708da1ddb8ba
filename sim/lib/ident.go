package main

import (
	"encoding/json"
	"fmt"
	"runtime"
	"strings"

	"github.com/drone/drone-runtime/engine"
	"github.com/drone/drone-yaml/yaml"

	"verif.local/sim/simkit"
	"verif.local/sim/simrt"
)

func isStep(x interface{}) bool { _, ok := x.(simrt.StepLimit); return ok }

// Ident is a scenario of C11.
type Ident struct {
	Tasks   []int    `json:"tasks"` // compilations per concurrent task
	Steps   int      `json:"steps"`
	Vols    int      `json:"vols"`
	Comp    Comp     `json:"comp"`
	Sched   Sched    `json:"sched"`
	Seed    uint64   `json:"seed"`
	Ent     Entropy  `json:"entropy"`
	Other   uint64   `json:"other"` // seed of a second entropy stream, everything else unchanged
	Windows bool     `json:"windows,omitempty"`
	_       struct{} `json:"-"`
}

func genC11(r *simkit.Rng, thorough bool) interface{} {
	s := &Ident{Seed: r.U64(), Ent: genEntropy(r), Other: r.U64(), Comp: genComp(r), Sched: genSched(r), Windows: r.P(0.15)}
	s.Comp.Provider = r.Pick("", "fresh", "shared")
	if r.P(0.12) {
		// short enough that two identifiers cannot become equal
		s.Ent.Run = r.Range(2, 10)
	}
	n := r.Range(1, 4)
	for i := 0; i < n; i++ {
		s.Tasks = append(s.Tasks, r.Range(1, 4))
	}
	s.Steps, s.Vols = r.Range(1, 12), r.Range(0, 6)
	if r.P(0.06) {
		// enough characters to see a bias
		s.Tasks = []int{r.Range(8, 12)}
		s.Steps, s.Vols = 150, 250
		s.Sched = Sched{Mode: "serial"}
		s.Ent.Run = 0
	}
	return s
}

func (s *Ident) pipeline() *yaml.Pipeline {
	p := &yaml.Pipeline{Kind: "pipeline", Name: "p"}
	if s.Windows {
		p.Platform.OS = "windows"
	}
	for i := 0; i < s.Vols && i < 2000; i++ {
		p.Volumes = append(p.Volumes, &yaml.Volume{Name: fmt.Sprintf("v%d", i), EmptyDir: &yaml.VolumeEmptyDir{}})
	}
	for i := 0; i < s.Steps && i < 2000; i++ {
		c := &yaml.Container{Name: fmt.Sprintf("s%d", i), Image: "alpine"}
		switch i % 4 {
		case 0:
			c.Commands = []string{"echo"}
		case 1:
			c.Build = &yaml.Build{Image: fmt.Sprintf("acme/i%d", i)}
		case 2:
			c.Environment = map[string]*yaml.Variable{"A": {Secret: fmt.Sprintf("s%d", i%7)}}
		}
		p.Steps = append(p.Steps, c)
	}
	p.Services = append(p.Services, &yaml.Container{Name: "db", Image: "redis"})
	return p
}

// ids lists every generated identifier: what it names and the identifier.
func ids(spec *engine.Spec, vols int) (out [][2]string, alias [][2]string) {
	add := func(k, id string) { out = append(out, [2]string{k, id}) }
	add("pipeline", spec.Metadata.UID)
	for i, v := range spec.Docker.Volumes {
		add("volume "+v.Metadata.Name, v.Metadata.UID)
		if v.HostPath != nil && strings.HasPrefix(v.HostPath.Path, "/host/") {
			add(fmt.Sprintf("name of volume %d", i), v.Metadata.Name)
		}
	}
	for _, s := range spec.Steps {
		add("step "+s.Metadata.Name, s.Metadata.UID)
		if a := s.Envs["DOCKER_BUILD_IMAGE_ALIAS"]; a != "" {
			alias = append(alias, [2]string{"build alias of " + s.Metadata.Name, a[strings.LastIndex(a, ":")+1:]})
		}
	}
	for _, f := range spec.Files {
		add("file "+f.Metadata.Name, f.Metadata.UID)
	}
	for _, x := range spec.Secrets {
		add("secret "+x.Metadata.Name, x.Metadata.UID)
	}
	return
}

func (s *Ident) exec(ent Entropy, o *simkit.Outcome) (all [][2]string, alias [][2]string, rr runResult, e *entropy) {
	e = ent.install()
	runtime.SimRand(2, s.Seed^0x5eed)
	c := s.Comp.build(true)
	specs := make([][]*engine.Spec, len(s.Tasks))
	fns := make([]func(), len(s.Tasks))
	shared := s.pipeline()
	runtime.SimRand(0, 0)
	for t, n := range s.Tasks {
		t, n := t, n
		fns[t] = func() {
			for i := 0; i < n && i < 50; i++ {
				specs[t] = append(specs[t], c.c.Compile(shared))
			}
		}
	}
	rr = simulate(fns, s.Sched, s.Seed, 0, 200_000_000)
	for t := range specs {
		for k, sp := range specs[t] {
			a, b := ids(sp, len(s.Comp.Volumes))
			for _, x := range a {
				all = append(all, [2]string{fmt.Sprintf("%s (task %d compilation %d)", x[0], t, k), x[1]})
			}
			for _, x := range b {
				alias = append(alias, [2]string{fmt.Sprintf("%s (task %d compilation %d)", x[0], t, k), x[1]})
			}
		}
	}
	return
}

func wellFormed(id string) bool {
	if len(id) != 32 {
		return false
	}
	for i := 0; i < 32; i++ {
		if !idChar(id[i]) {
			return false
		}
	}
	return true
}

func runC11(raw json.RawMessage, proc int) (o simkit.Outcome) {
	s := new(Ident)
	if err := json.Unmarshal(raw, s); err != nil {
		o.Err = err.Error()
		return
	}
	all, alias, rr, e := s.exec(s.Ent, &o)
	if !progress(&o, rr, "") {
		return
	}
	fix := *s
	fix.Sched = Sched{Slices: rr.Slices}
	o.Fixed, _ = json.Marshal(fix)
	o.Fault("entropy-short-read", int(e.short))
	o.Fault("entropy-rejected-byte", int(e.rej))
	o.Fault("entropy-empty-read", int(e.zeros))
	o.Fault("context-switch", rr.Switches)
	o.State = simkit.Mix(slicesHash(rr.Slices), s.Ent.Seed)
	seen := map[string]string{}
	h := uint64(0)
	check := func(list [][2]string, what string) bool {
		mine := map[string]string{}
		for _, x := range list {
			h = simkit.HashStr(h, x[1])
			if !wellFormed(x[1]) {
				o.Failf("malformed", "%s has identifier %q", x[0], x[1])
				return false
			}
			if p, ok := mine[x[1]]; ok {
				o.Failf("shared", "%s and %s share the identifier %q", p, x[0], x[1])
				return false
			}
			mine[x[1]] = x[0]
			seen[x[1]] = x[0]
		}
		return true
	}
	if !check(all, "id") || !check(alias, "alias") {
		return
	}
	o.Digest = h
	// uniform: every symbol equally often, overall and per position
	if s.Ent.Run == 0 {
		var tot [36]int
		var pos [32][36]int
		n := 0
		for _, x := range all {
			for i := 0; i < 32; i++ {
				c := sym(x[1][i])
				tot[c]++
				pos[i][c]++
				n++
			}
		}
		if n >= 1000 {
			if c := chi2(tot[:], n); c > 150 {
				o.Failf("biased", "symbols of %d identifiers are not uniformly distributed: chi-square %.0f with 35 degrees of freedom (%v)", n/32, c, tot)
				return
			}
		}
		if n/32 >= 700 {
			o.Probe("bias-tested")
			for i := range pos {
				if c := chi2(pos[i][:], n/32); c > 150 {
					o.Failf("biased", "symbol %d of %d identifiers is not uniformly distributed: chi-square %.0f with 35 degrees of freedom (%v)", i, n/32, c, pos[i])
					return
				}
			}
		}
	}
	// fresh: another entropy stream, everything else the same
	e2 := s.Ent
	e2.Seed = s.Other
	if e2.Seed == s.Ent.Seed {
		e2.Seed++
	}
	again, _, rr2, _ := s.exec(e2, &o)
	if !progress(&o, rr2, "again-") {
		return
	}
	for _, x := range again {
		if p, ok := seen[x[1]]; ok {
			o.Failf("not-from-entropy", "identifier %q of %s appears again (%s) although the entropy source delivered other bytes", x[1], p, x[0])
			return
		}
	}
	o.Triv = len(all) < 5
	return
}

func sym(c byte) int {
	if c >= 'a' {
		return int(c - 'a')
	}
	return 26 + int(c-'0')
}

func chi2(cnt []int, n int) float64 {
	e := float64(n) / float64(len(cnt))
	x := 0.0
	for _, c := range cnt {
		x += (float64(c) - e) * (float64(c) - e) / e
	}
	return x
}
