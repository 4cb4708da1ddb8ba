package main

import (
	"encoding/json"
	"fmt"
	"strings"
	"time"

	"verif.local/sim/simkit"
	"verif.local/sim/simrt"
	"verif.local/sim/yamlgen"
)

// ---- generation ----

func genDoc(g *yamlgen.G, kind string) Doc {
	r := g.R
	d := Doc{Kind: kind}
	switch kind {
	case "gitlab":
		d.Text = Text(g.Gitlab())
	case "bitbucket":
		t, ref := g.Bitbucket()
		d.Text, d.Ref = Text(t), ref
	case "legacy":
		d.Text = Text(g.Legacy())
		d.URL = r.Pick("", "https://github.com/octocat/hello-world.git", "https://gitlab.company.com/a/b/c")
	default:
		d.Kind = "yaml"
		t := g.Valid()
		if r.P(0.5) {
			t = g.Manifest()
		}
		if r.P(0.06) {
			t = g.Broken(t)
		}
		d.Text = Text(t)
	}
	return d
}

func smap(r *simkit.Rng, n int, k, v string) map[string]string {
	m := map[string]string{}
	for i := 0; i < n; i++ {
		m[fmt.Sprintf(k, r.Intn(30))] = fmt.Sprintf(v, i)
	}
	return m
}

func genComp(r *simkit.Rng) Comp {
	var c Comp
	if r.P(0.3) {
		c.Auths = r.Range(1, 3)
		c.AuthsFunc = r.P(0.5)
		if r.P(0.4) {
			c.AuthsMore = r.Range(1, 2)
		}
	}
	if r.P(0.4) {
		c.Env = smap(r, r.Range(1, 8), "ENV_%d", "e%d")
	}
	if r.P(0.4) {
		c.Labels = smap(r, r.Range(1, 8), "label.%d", "l%d")
	}
	if r.P(0.4) {
		c.Volumes = smap(r, r.Range(1, 6), "/host/%d", "/container/%d")
	}
	if r.P(0.15) {
		c.VolSlice = []string{"/a:/b", "bad", "/c:/d", "/e:/f", "/a:/z"}
	}
	if r.P(0.3) {
		c.Networks = []string{"n1", "n2", "n0"}[:r.Range(1, 3)]
	}
	if r.P(0.4) {
		c.Secrets = smap(r, r.Range(1, 7), "sec%d", "data%d")
	}
	if r.P(0.5) {
		c.Provider = r.Pick("fresh", "shared", "some")
	}
	if r.P(0.3) {
		c.Mem, c.CPU = int64(r.Intn(3))*1000, int64(r.Intn(3))
	}
	c.Netrc = r.P(0.3)
	if r.P(0.3) {
		c.Creds = "https://u:p@github.com\n"
	}
	if r.P(0.3) {
		c.Dind = []string{"plugins/docker", "plugins/*", "octocat/hello-world"}[:r.Range(1, 3)]
	}
	if r.P(0.4) {
		c.Skip = map[string]string{"branch": r.Pick("master", "develop", "feature/x"), "event": r.Pick("push", "tag", "pull_request"), "ref": "refs/heads/master", "repo": "octocat/hello"}
	}
	if r.P(0.1) {
		c.Include = []string{"build-0", "test-1"}
	}
	if r.P(0.1) {
		c.Exclude = []string{"test-0", "build-1"}
	}
	if r.P(0.1) {
		c.Resume = r.Pick("test-1", "build-1", "zzz")
	}
	if r.P(0.1) {
		c.Host = "/home/me"
	}
	c.Proxy = r.P(0.1)
	c.NoTrans = r.P(0.07)
	c.Wait = r.P(0.2)
	c.Nest = r.P(0.12)
	return c
}

func genEntropy(r *simkit.Rng) Entropy {
	e := Entropy{Seed: r.U64()}
	if r.P(0.3) {
		e.Short = r.Range(1, 40)
	}
	if r.P(0.3) {
		e.Reject = r.Range(1, 90)
	}
	if r.P(0.2) {
		e.Zero = r.Range(2, 9)
	}
	return e
}

var opKinds = []string{"parse", "parseraw", "parsestring", "lint", "lint", "lintall", "compile", "compile", "compile", "compile", "print", "print", "json", "unjson", "encode", "goyaml", "sign", "signupdate", "verify", "writeto", "convert", "convertstring"}

func genOp(r *simkit.Rng, kinds []string, docs []Doc, comps, i int, from bool) Op {
	op := Op{K: kinds[r.Intn(len(kinds))], D: r.Intn(len(docs)), R: r.Intn(3), Key: r.Intn(len(keys)), Trust: r.P(0.5)}
	if comps > 0 {
		op.C = r.Intn(comps)
	}
	if docs[op.D].Kind != "yaml" && r.P(0.85) {
		if op.K == "compile" || op.K == "print" || op.K == "lint" || op.K == "goyaml" {
			op.K = "convert"
		}
	}
	op.Own = r.P(0.3)
	if from && i > 0 && r.P(0.2) {
		op.From = 1 + r.Intn(i)
		op.R = 0
	}
	return op
}

func docKind(r *simkit.Rng) string {
	return r.Pick("yaml", "yaml", "yaml", "yaml", "yaml", "gitlab", "bitbucket", "legacy")
}

func genShared(r *simkit.Rng, tasks, maxOps int, kinds []string, from bool) *Scen {
	g := &yamlgen.G{R: r}
	s := &Scen{MapSeed: r.U64(), Ent: genEntropy(r)}
	for i, n := 0, r.Range(1, 3); i < n; i++ {
		s.Docs = append(s.Docs, genDoc(g, docKind(r)))
	}
	for i, n := 0, r.Range(1, 2); i < n; i++ {
		s.Comps = append(s.Comps, genComp(r))
	}
	for t := 0; t < tasks; t++ {
		var ops []Op
		for i, n := 0, r.Range(1, maxOps); i < n; i++ {
			ops = append(ops, genOp(r, kinds, s.Docs, len(s.Comps), i, from))
		}
		s.Tasks = append(s.Tasks, ops)
	}
	s.Sched = genSched(r)
	return s
}

func decode(raw json.RawMessage, o *simkit.Outcome) *Scen {
	s := new(Scen)
	if err := json.Unmarshal(raw, s); err != nil {
		o.Err = "scenario: " + err.Error()
		return nil
	}
	for i := range s.Docs {
		if len(s.Docs[i].Text) > 1<<22 {
			o.Err = "document too long"
			return nil
		}
	}
	return s
}

// ---- C05, C06, C07: determinism ----

func genDet(kind string) func(r *simkit.Rng, thorough bool) interface{} {
	return func(r *simkit.Rng, thorough bool) interface{} {
		g := &yamlgen.G{R: r}
		s := &Scen{MapSeed: r.U64(), Ent: genEntropy(r)}
		nd := r.Range(1, 4)
		var kinds []string
		switch kind {
		case "C05":
			for i := 0; i < nd; i++ {
				s.Docs = append(s.Docs, genDoc(g, r.Pick("gitlab", "bitbucket", "legacy", "legacy", "yaml")))
			}
			kinds = []string{"convert", "convert", "convertstring"}
		case "C06":
			for i := 0; i < nd; i++ {
				s.Docs = append(s.Docs, genDoc(g, "yaml"))
			}
			for i, n := 0, r.Range(1, 3); i < n; i++ {
				s.Comps = append(s.Comps, genComp(r))
			}
			kinds = []string{"compile"}
		default:
			for i := 0; i < nd; i++ {
				s.Docs = append(s.Docs, genDoc(g, "yaml"))
			}
			kinds = []string{"print", "json", "encode", "goyaml", "lint", "lintall", "sign", "signupdate", "verify", "writeto", "unjson"}
		}
		var ops []Op
		for i, n := 0, r.Range(2, 7); i < n; i++ {
			op := genOp(r, kinds, s.Docs, len(s.Comps), i, false)
			op.Own = r.P(0.5)
			if kind == "C05" {
				op.K = kinds[r.Intn(len(kinds))]
			}
			ops = append(ops, op)
		}
		s.Tasks = [][]Op{ops}
		for i := 0; i < 4; i++ {
			s.Seeds = append(s.Seeds, r.U64())
		}
		s.Sched = Sched{Mode: "random", Seed: r.U64(), Q: 50}
		return s
	}
}

// runDet executes the ops several times in this process, under different map
// seeds, orders, entropy streams and clocks, and compares op by op.
func runDet(what string) func(raw json.RawMessage, proc int) simkit.Outcome {
	return func(raw json.RawMessage, proc int) (o simkit.Outcome) {
		s := decode(raw, &o)
		if s == nil || len(s.Tasks) == 0 {
			return
		}
		n := len(s.Tasks[0])
		first := make([]string, n)
		from := make([]string, n)
		seeds := append([]uint64{s.MapSeed}, s.Seeds...)
		for k, seed := range seeds {
			rev := (k+proc)%2 == 1
			v := *s
			v.Sched.Seed ^= uint64(k) * 7919
			perm := make([]int, n)
			ops := make([]Op, n)
			for i := range perm {
				j := i
				if rev {
					j = n - 1 - i
				}
				perm[i] = j
				ops[i] = s.Tasks[0][j]
			}
			v.Tasks = [][]Op{ops}
			if proc == 1 {
				seed ^= 0x5555555555555555
			}
			e := s.Ent
			e.Seed += uint64(k) + 1000*uint64(proc)
			ent := e.install()
			w := newWorld(&v, false)
			rr := w.exec(v.Sched, seed, time.Duration(k*7+proc*31+1)*37*time.Hour)
			if !progress(&o, rr, what+"-") {
				return
			}
			o.Fault("map-order-draws", int(rr.draws))
			o.Fault("clock-jump", 1)
			o.Fault("entropy-short-read", int(ent.short))
			if rev {
				o.Fault("order-reversed", 1)
			}
			tag := fmt.Sprintf("process %d execution %d (map seed %#x, order %s, clock +%dh)", proc, k, seed, map[bool]string{true: "reversed", false: "given"}[rev], (k*7+proc*31+1)*37)
			for i, j := range perm {
				t := w.vals[0][i].text
				if from[j] == "" {
					first[j], from[j] = t, tag
					continue
				}
				if t != first[j] {
					o.Failf(what+"-varies", "%s gives different results.\nA: %s\nB: %s\n%s", opName(s, 0, j), from[j], tag, diffAt(first[j], t))
					return
				}
			}
		}
		h := uint64(0)
		good := 0
		for i, t := range first {
			h = simkit.HashStr(h, t)
			if !strings.Contains(t, "err=") {
				good++
				o.Probe("ok:" + s.Tasks[0][i].K)
			}
		}
		o.Triv = good == 0
		o.Digest = h
		o.State = h
		o.Res = first
		return
	}
}

func compareDet(what string) func(raw json.RawMessage, outs []simkit.Outcome) simkit.Outcome {
	return func(raw json.RawMessage, outs []simkit.Outcome) simkit.Outcome {
		o := simkit.Merge(outs)
		if o.Fail != nil {
			return o
		}
		o.State = outs[0].State
		for p := 1; p < len(outs); p++ {
			for i := range outs[0].Res {
				if i < len(outs[p].Res) && outs[0].Res[i] != outs[p].Res[i] {
					var s Scen
					json.Unmarshal(raw, &s)
					o.Failf(what+"-varies-between-processes", "%s gives another result in another process, where the calls were made in another order.\n%s", opName(&s, 0, i), diffAt(outs[0].Res[i], outs[p].Res[i]))
					return o
				}
			}
		}
		return o
	}
}

// ---- C08: concurrency ----

func genC08(r *simkit.Rng, thorough bool) interface{} {
	t := 2
	if r.P(0.35) {
		t = r.Range(3, 4)
	}
	s := genShared(r, t, 3, opKinds, true)
	s.Spare = r.P(0.3)
	return s
}

func runC08(raw json.RawMessage, proc int) (o simkit.Outcome) {
	s := decode(raw, &o)
	if s == nil {
		return
	}
	s.Ent.install()
	w := newWorld(s, true)
	before := simrt.RaceErrors()
	rr := w.exec(s.Sched, s.MapSeed, 0)
	if !progress(&o, rr, "") {
		return
	}
	fix := *s
	fix.Sched = Sched{Slices: rr.Slices}
	o.Fixed, _ = json.Marshal(fix)
	o.Fault("context-switch", rr.Switches)
	o.State = slicesHash(rr.Slices)
	o.Triv = rr.Switches < 2*len(s.Tasks)
	if rr.Spawned > 0 {
		o.Probe("library-goroutine")
	}
	if n := simrt.RaceErrors() - before; n > 0 {
		o.Failf("data-race", "%d data race(s) between concurrent calls", n)
		return
	}
	h := uint64(0)
	// every op alone, on fresh inputs, afterwards
	memo := map[string]string{}
	for t := range s.Tasks {
		for i := range s.Tasks[t] {
			op := s.Tasks[t][i]
			k := fmt.Sprintf("%+v", op)
			var want string
			if m, ok := memo[k]; ok && op.From == 0 {
				want = m
			} else {
				alone := *s
				// a task's earlier ops are part of the call if it uses their bytes
				alone.Tasks = [][]Op{{op}}
				base := 0
				if op.From > 0 {
					alone.Tasks = [][]Op{s.Tasks[t][:i+1]}
					base = i
				}
				a := newWorld(&alone, false)
				ar := a.exec(Sched{Mode: "serial"}, s.MapSeed, 0)
				if !progress(&o, ar, "alone-") {
					return
				}
				want = a.vals[0][base].text
				memo[k] = want
			}
			got := w.vals[t][i].text
			if got != want {
				o.Failf("concurrent-result", "%s returned another result than when run alone.\n%s", opName(s, t, i), diffAt(want, got))
				return
			}
			h = simkit.HashStr(h, got)
			o.Probe("op:" + op.K)
		}
	}
	o.Digest = simkit.Mix(h, o.State)
	return
}

// ---- C09: inputs unmodified ----

func genC09(r *simkit.Rng, thorough bool) interface{} {
	s := genShared(r, 1, 7, opKinds, true)
	s.Spare = r.P(0.6)
	s.Sched = Sched{Mode: "serial"}
	// a caller may apply its transforms itself, or once more
	for i := range s.Tasks[0] {
		if i > 0 && r.P(0.15) {
			s.Tasks[0][i] = Op{K: "transform", I: r.Intn(i), C: r.Intn(len(s.Comps))}
		}
	}
	if r.P(0.3) {
		s.Tasks = append(s.Tasks, genShared(r, 1, 4, opKinds, true).Tasks[0])
		s.Sched = genSched(r)
	}
	return s
}

func runC09(raw json.RawMessage, proc int) (o simkit.Outcome) {
	s := decode(raw, &o)
	if s == nil {
		return
	}
	s.Ent.install()
	w := newWorld(s, true)
	want := w.inputs()
	bad := ""
	w.after = func(t, i int) {
		if bad != "" {
			return
		}
		got := w.inputs()
		for k := range want {
			if got[k] != want[k] {
				what := "compiler configuration / callback value"
				if k < 2*len(w.docs) {
					what = []string{"byte slice", "parsed resources"}[k%2] + fmt.Sprintf(" of document %d", k/2)
				}
				bad = fmt.Sprintf("%s changed its input (%s).\n%s", opName(s, t, i), what, diffAt(want[k], got[k]))
				return
			}
		}
	}
	rr := w.exec(s.Sched, s.MapSeed, 0)
	if !progress(&o, rr, "") {
		return
	}
	if len(s.Tasks) > 1 {
		fix := *s
		fix.Sched = Sched{Slices: rr.Slices}
		o.Fixed, _ = json.Marshal(fix)
	}
	o.State = slicesHash(rr.Slices)
	if bad != "" {
		o.Failf("input-modified", "%s", bad)
		return
	}
	o.Fault("context-switch", rr.Switches)
	h := uint64(0)
	// the same calls again, on the very same inputs
	again := &world{s: s, docs: w.docs, mans: w.mans, errs: w.errs, comps: w.comps}
	for _, t := range s.Tasks {
		again.vals = append(again.vals, make([]*Value, len(t)))
	}
	ar := again.exec(Sched{Mode: "serial"}, s.MapSeed+1, time.Hour)
	if !progress(&o, ar, "again-") {
		return
	}
	for t := range s.Tasks {
		for i := range s.Tasks[t] {
			a, b := w.vals[t][i].text, again.vals[t][i].text
			if a != b {
				o.Failf("repeat-differs", "%s repeated on the same input gives another result.\n%s", opName(s, t, i), diffAt(a, b))
				return
			}
			h = simkit.HashStr(h, a)
			if !strings.Contains(a, "err=") {
				o.Probe("ok:" + s.Tasks[t][i].K)
			}
		}
	}
	o.Digest = simkit.Mix(h, o.State)
	return
}

// ---- C10: results stay stable ----

func genC10(r *simkit.Rng, thorough bool) interface{} {
	n := 1
	if r.P(0.35) {
		n = r.Range(2, 3)
	}
	s := genShared(r, n, 8, opKinds, true)
	s.Spare = r.P(0.3)
	// some later calls on earlier results
	for t := range s.Tasks {
		for i := range s.Tasks[t] {
			if i > 0 && r.P(0.25) {
				s.Tasks[t][i] = Op{K: "transform", T: t, I: r.Intn(i), C: r.Intn(len(s.Comps))}
			} else if r.P(0.3) {
				s.Tasks[t][i].K = "compile"
				s.Tasks[t][i].From = 0
			}
		}
	}
	return s
}

func runC10(raw json.RawMessage, proc int) (o simkit.Outcome) {
	s := decode(raw, &o)
	if s == nil {
		return
	}
	s.Ent.install()
	w := newWorld(s, true)
	bad := ""
	mans := make([]string, len(w.mans))
	for i, m := range w.mans {
		mans[i] = Dump(m)
	}
	w.after = func(t, i int) {
		if bad != "" {
			return
		}
		for t2 := range w.vals {
			for i2, v := range w.vals[t2] {
				if v == nil || v.note != "" || v.busy {
					continue
				}
				if got := Canon(v.dump()); got != v.text {
					bad = fmt.Sprintf("the result of %s changed by the time of %s.\n%s", opName(s, t2, i2), opName(s, t, i), diffAt(v.text, got))
					return
				}
			}
		}
		for k, m := range w.mans {
			if got := Dump(m); got != mans[k] {
				bad = fmt.Sprintf("the parsed document %d changed by the time of %s.\n%s", k, opName(s, t, i), diffAt(mans[k], got))
				return
			}
		}
	}
	rr := w.exec(s.Sched, s.MapSeed, 0)
	if !progress(&o, rr, "") {
		return
	}
	if len(s.Tasks) > 1 {
		fix := *s
		fix.Sched = Sched{Slices: rr.Slices}
		o.Fixed, _ = json.Marshal(fix)
	}
	o.State = slicesHash(rr.Slices)
	if bad != "" {
		o.Failf("result-changed", "%s", bad)
		return
	}
	o.Fault("context-switch", rr.Switches)
	h := uint64(0)
	for t := range s.Tasks {
		for i := range s.Tasks[t] {
			h = simkit.HashStr(h, w.vals[t][i].text)
			o.Probe("op:" + s.Tasks[t][i].K)
		}
	}
	o.Digest = simkit.Mix(h, o.State)
	return
}
