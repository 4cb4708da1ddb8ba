package main

import (
	"encoding/base64"
	"encoding/json"
	"fmt"
	"path"
	"sort"
	"strings"
	"time"

	"verif.local/sim/simkit"
)

const never = time.Duration(-1) // did not happen

// nodeRun is what happened to one container of the plan.
type nodeRun struct {
	n         *node
	creates   int
	starts    int // start calls
	started   int
	createSeq int
	createT   time.Duration
	createErr string
	createInj bool
	startSeq  int
	startRet  bool
	startErr  string
	exitSeq   int
	exitCode  int
	exited    bool
	oom       bool
	done      time.Duration // the runtime has finished with it
	doneSeq   int
	fail      bool
	intr      bool
	dec       time.Duration // when the runtime decides about it
	decKnown  bool
	should    string // yes, no, maybe
	visiting  bool
}

// account is the history of one build, set against its plan.
type account struct {
	b        *build
	w        *world
	runs     []*nodeRun
	setupT   time.Duration
	setupErr bool
	destroyT time.Duration
	destroy  int
	unknown  []string
	lastT    time.Duration
}

func (w *world) account(b *build) *account {
	a := &account{b: b, w: w, setupT: never, destroyT: never}
	by := map[string]*nodeRun{}
	for _, n := range b.plan.nodes {
		r := &nodeRun{n: n, done: never}
		a.runs = append(a.runs, r)
		by[n.Name] = r
	}
	stream := map[string]time.Duration{}
	streamSeq := map[string]int{}
	waits := map[string]event{}
	for _, e := range w.h.events {
		if e.Ten != b.ten {
			continue
		}
		switch e.Kind {
		case "setup":
			if e.Ret {
				a.setupT = e.T
				a.setupErr = e.Err != ""
			}
			continue
		case "destroy":
			if !e.Ret {
				a.destroyT = e.T
				a.destroy++
			}
			continue
		case "run":
			continue
		}
		r := by[e.Name]
		if r == nil {
			a.unknown = append(a.unknown, fmt.Sprintf("%s %q", e.Kind, e.Name))
			continue
		}
		switch e.Kind {
		case "create":
			if !e.Ret {
				r.creates++
				if r.creates == 1 {
					r.createSeq, r.createT = e.Seq, e.T
				}
			} else if e.Err != "" {
				r.createErr, r.createInj = e.Err, e.Inj
				r.finish(e, true)
			}
		case "start":
			if !e.Ret {
				r.starts++
				if r.starts == 1 {
					r.startSeq = e.Seq
				}
			} else {
				r.startRet = true
				if e.Err != "" {
					r.startErr = e.Err
					r.finish(e, true)
				}
			}
		case "started":
			r.started++
		case "exit":
			r.exited, r.exitSeq, r.exitCode, r.oom = true, e.Seq, e.Code, e.OOM
		case "tail":
			if e.Ret && e.Err != "" {
				r.finish(e, true)
			} else if e.Ret && r.n.detach {
				r.finish(e, false)
			}
		case "stream":
			stream[e.Name], streamSeq[e.Name] = e.T, e.Seq
		case "wait":
			if e.Ret {
				waits[e.Name] = e
			}
		}
	}
	for _, r := range a.runs {
		e, ok := waits[r.n.Name]
		st, ok2 := stream[r.n.Name]
		if !ok || !ok2 || r.done != never {
			continue
		}
		if st > e.T {
			e.T, e.Seq = st, streamSeq[r.n.Name]
		}
		bad := e.Err != "" || (e.OOM || e.Code != 0) && !r.n.ignore
		r.finish(e, bad)
		r.intr = bad && e.Err == "" && !e.OOM && e.Code == 78
	}
	for _, r := range a.runs {
		a.decide(r)
	}
	a.judge()
	return a
}

func (r *nodeRun) finish(e event, fail bool) {
	if r.done == never {
		r.done, r.doneSeq, r.fail = e.T, e.Seq, fail
	}
}

// decide computes when the runtime decides about a node: when everything it
// waits for is over. It reports false if that never happens.
func (a *account) decide(r *nodeRun) bool {
	if r.decKnown {
		return r.dec != never
	}
	if r.visiting {
		return false
	}
	r.visiting = true
	r.dec = a.setupT
	for _, i := range r.n.all {
		d := a.runs[i]
		ok := a.decide(d)
		end := d.done
		if d.creates == 0 {
			end = d.dec
			if !ok {
				end = never
			}
		}
		if end == never {
			r.dec = never
			break
		}
		if end > r.dec {
			r.dec = end
		}
	}
	r.visiting = false
	r.decKnown = true
	return r.dec != never
}

// judge computes which nodes should have been started.
func (a *account) judge() {
	for _, r := range a.runs {
		r.should = a.verdict(r)
	}
}

func (a *account) verdict(r *nodeRun) string {
	if r.n.never() || a.setupErr {
		return "no"
	}
	if r.dec == never {
		return "maybe" // what it waits for did not end
	}
	if a.b.canceled > 0 && r.dec >= a.b.canceled {
		return "maybe"
	}
	var last *nodeRun
	tie := false
	for _, f := range a.runs {
		if !f.fail || f == r {
			continue
		}
		if f.done == r.dec && !r.n.anc[f.n.idx] {
			tie = true
		}
		if f.done < r.dec || f.done == r.dec && r.n.anc[f.n.idx] {
			if last == nil || f.done > last.done {
				last = f
			} else if f.done == last.done {
				tie = true
			}
		}
	}
	if tie {
		return "maybe"
	}
	yes := r.n.onOK
	if last != nil {
		yes = r.n.onFail
		if last.intr {
			return "no"
		}
	}
	if yes {
		return "yes"
	}
	return "no"
}

// failed reports whether an unignored failure happened.
func (a *account) failed() bool {
	for _, r := range a.runs {
		if r.fail {
			return true
		}
	}
	return false
}

func (r *nodeRun) String() string { return fmt.Sprintf("%s %q", r.n.kind, r.n.Name) }

// comparable reports whether the plan can be compared with the history at all.
func (b *build) comparable() bool {
	return b.accepted() && !b.plan.dup && !b.plan.cyclic() && !b.missing()
}

func (b *build) missing() bool {
	for _, n := range b.plan.nodes {
		if n.missing {
			return true
		}
	}
	return false
}

type check func(w *world, a *account, o *simkit.Outcome)

// C19: no container starts before the clone has finished.
func checkClone(w *world, a *account, o *simkit.Outcome) {
	if a.setupErr {
		return
	}
	if a.b.pipe.NoCl {
		for _, u := range a.unknown {
			if strings.Contains(u, `"clone"`) {
				o.Failf("clone-although-disabled", "pipeline %d disables the clone, but: %s", a.b.ten, u)
			}
		}
		for _, ob := range w.h.obs {
			if n := a.b.plan.byName["clone"]; ob.Ten == a.b.ten && ob.Name == "clone" && (n == nil || n.Build == "" && fmt.Sprint(ran(ob.B)) != fmt.Sprint([]string{n.id})) {
				o.Failf("clone-although-disabled", "pipeline %d disables the clone, but a clone container ran", a.b.ten)
			}
		}
		return
	}
	c := a.runs[0]
	if c.creates > 1 || c.started > 1 {
		o.Failf("clone-twice", "pipeline %d: the clone ran %d times", a.b.ten, c.creates)
	}
	if c.creates == 0 && !a.canceledBefore(a.setupT) {
		o.Failf("no-clone", "pipeline %d: the clone never ran", a.b.ten)
	} else if c.createErr != "" && !a.expectedCreateErr(c) {
		o.Failf("no-clone", "pipeline %d: the clone could not run: %s", a.b.ten, c.createErr)
	}
	for _, r := range a.runs[1:] {
		if r.starts > 0 && (c.done == never || r.startSeq < c.doneSeq) {
			o.Failf("start-before-clone", "pipeline %d: %s started before the clone had ended", a.b.ten, r)
		}
	}
}

func (a *account) canceledBefore(t time.Duration) bool {
	return a.b.canceled > 0 && a.b.canceled <= t
}

// C20: dependencies.
func checkDepends(w *world, a *account, o *simkit.Outcome) {
	if a.b.plan.serial || a.setupErr {
		return
	}
	for _, r := range a.runs {
		if r.creates == 0 {
			continue
		}
		for _, i := range r.n.deps {
			d := a.runs[i]
			if d.creates > 0 && (d.done == never || d.doneSeq > r.createSeq) {
				o.Failf("before-dependency", "pipeline %d: %s started before %s, on which it depends, had ended", a.b.ten, r, d)
			}
			if d.exited && !d.n.detach && d.startErr == "" && d.exitSeq > r.createSeq && d.doneSeq > r.createSeq {
				o.Failf("before-dependency", "pipeline %d: %s started while %s, on which it depends, was running", a.b.ten, r, d)
			}
			if d.creates == 0 && d.dec > r.createT {
				o.Failf("before-dependency", "pipeline %d: %s started before it was decided to skip %s", a.b.ten, r, d)
			}
		}
		if r.dec != never && r.createT > r.dec {
			o.Failf("waits-for-unrelated", "pipeline %d: %s was ready at %v but started at %v", a.b.ten, r, r.dec, r.createT)
		}
		if r.dec == never {
			o.Failf("before-dependency", "pipeline %d: %s started although what it depends on never ended", a.b.ten, r)
		}
	}
}

// C21: document order.
func checkSerial(w *world, a *account, o *simkit.Outcome) {
	if !a.b.plan.serial || a.setupErr {
		return
	}
	var prev *nodeRun
	for _, r := range a.runs {
		if r.n.kind != "step" || r.n.detach || r.creates == 0 {
			continue
		}
		if r.creates > 1 {
			o.Failf("twice", "pipeline %d: %s was started %d times", a.b.ten, r, r.creates)
		}
		if prev != nil && r.createSeq < prev.createSeq {
			o.Failf("out-of-order", "pipeline %d: %s started before %s", a.b.ten, r, prev)
		} else if prev != nil && (prev.done == never || prev.doneSeq > r.createSeq) {
			o.Failf("overlap", "pipeline %d: %s started before %s had ended", a.b.ten, r, prev)
		}
		prev = r
	}
}

// C22: failure policies.
func checkPolicy(w *world, a *account, o *simkit.Outcome) {
	for _, r := range a.runs {
		if r.n.cond || r.n.filt {
			continue
		}
		if r.should == "no" && r.creates > 0 {
			o.Failf("started-against-policy", "pipeline %d: %s (when.status %s) must not start, failed=%v", a.b.ten, r, js(r.n.When["status"]), a.failed())
		}
		if r.should == "yes" && r.creates == 0 {
			o.Failf("not-started-against-policy", "pipeline %d: %s (when.status %s) must start, failed=%v", a.b.ten, r, js(r.n.When["status"]), a.failed())
		}
	}
	a.checkResult(o)
}

func (a *account) checkResult(o *simkit.Outcome) {
	if !a.b.done || a.b.canceled > 0 || a.setupErr {
		return
	}
	if a.failed() && a.b.result == nil {
		o.Failf("failure-not-reported", "pipeline %d: a step failed, but the result is success", a.b.ten)
	}
	if !a.failed() && a.b.result != nil {
		o.Failf("failure-reported", "pipeline %d: no step failed, but the result is: %v", a.b.ten, a.b.result)
	}
}

// expectedCreateErr reports whether the configuration itself explains why a
// container could not be created.
func (a *account) expectedCreateErr(r *nodeRun) bool {
	n := r.n
	switch e := r.createErr; {
	case r.createInj:
		return true
	case e == "unauthorized":
		return n.Image != "" && len(a.b.set.Auths) == 0
	case e == "image missing":
		if n.kind == "clone" || n.Build != "" || n.Image == "" {
			return false
		}
		if strings.EqualFold(n.Pull, "never") || strings.EqualFold(n.Pull, "always") {
			return true
		}
		b, ok := a.b.plan.builder(n)
		if !ok {
			return true
		}
		if b == nil {
			repo, tag := canon(n.Image)
			return !registry[repo] || len(tag) >= 32 && !strings.HasPrefix(tag, "@")
		}
		br := a.runs[b.idx]
		// built in time?
		return !(br.exited && br.exitCode == 0 && !br.oom && br.exitSeq < r.createSeq)
	case strings.HasPrefix(e, "duplicate mount"):
		seen := map[string]bool{}
		x := &box{windows: a.b.pipe.OS == "windows"}
		for _, p := range a.targets(n) {
			p = x.norm(p)
			if seen[p] {
				return true
			}
			seen[p] = true
		}
		return false
	case strings.HasPrefix(e, "invalid mount"):
		x := &box{windows: a.b.pipe.OS == "windows"}
		for _, p := range append(a.targets(n), x.norm(a.b.pipe.Base)) {
			if p != "" && !strings.HasPrefix(x.norm(p), "/") {
				return true
			}
		}
		for _, m := range n.Vols {
			if m.Path == "" {
				return true
			}
		}
		return false
	}
	return false
}

// targets lists the mount points the configuration and the operator ask for.
func (a *account) targets(n *node) []string {
	var l []string
	for _, m := range n.Vols {
		for _, v := range a.b.pipe.Vols {
			if v.Name == m.Name {
				l = append(l, m.Path)
				break
			}
		}
	}
	for _, v := range a.b.set.Volumes {
		l = append(l, v)
	}
	base := a.b.pipe.Base
	if base == "" {
		base = "/drone/src"
	}
	l = append(l, base)
	if a.b.set.Host != "" && path.Clean(base) != a.b.pipe.wsFull() {
		l = append(l, a.b.pipe.wsFull())
	}
	return l
}

// ran lists the marks found in what a container executes.
func ran(b *box) []string {
	set := map[string]bool{}
	find := func(s string) {
		for {
			i := strings.Index(s, "mark<")
			if i < 0 {
				return
			}
			s = s[i+5:]
			if j := strings.IndexByte(s, '>'); j >= 0 {
				set[s[:j]] = true
			}
		}
	}
	for _, v := range b.files {
		find(v)
	}
	if v, err := base64.StdEncoding.DecodeString(b.env["CI_SCRIPT"]); err == nil {
		find(string(v))
	}
	find(b.env["SIM_ID"])
	find(b.env["PLUGIN_SIM_MARK"])
	var l []string
	for k := range set {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

// C23: completion, exactly once.
func checkComplete(w *world, a *account, o *simkit.Outcome) {
	if a.setupErr {
		return
	}
	if !a.b.done {
		o.Failf("never-ends", "pipeline %d did not end within %v of simulated time", a.b.ten, w.dur)
	}
	for _, u := range a.unknown {
		o.Failf("unknown-step", "pipeline %d: %s is not part of the configuration", a.b.ten, u)
	}
	for _, r := range a.runs {
		switch {
		case r.creates > 1 || r.starts > 1:
			o.Failf("twice", "pipeline %d: %s was started %d times", a.b.ten, r, r.creates)
		case r.should == "yes" && r.creates == 0:
			o.Failf("not-started", "pipeline %d: %s is eligible but was never started (result: %v)", a.b.ten, r, a.b.result)
		case r.should == "yes" && r.createErr != "" && !a.expectedCreateErr(r):
			o.Failf("cannot-start", "pipeline %d: %s is eligible but cannot be started: %s", a.b.ten, r, r.createErr)
		case r.should == "yes" && r.createErr == "" && r.starts == 0 && a.b.done:
			o.Failf("not-started", "pipeline %d: %s was created but never started", a.b.ten, r)
		case r.should == "no" && r.creates > 0:
			o.Failf("ineligible-started", "pipeline %d: %s is not eligible but was started", a.b.ten, r)
		}
	}
	if a.b.done && a.b.result != nil && !a.failed() && a.b.canceled == 0 {
		o.Failf("not-executable", "pipeline %d was accepted but the runtime reports: %v", a.b.ten, a.b.result)
	}
	for _, ob := range w.h.obs {
		if ob.Ten != a.b.ten {
			continue
		}
		n := a.b.plan.byName[ob.Name]
		if n == nil {
			continue
		}
		got := ran(ob.B)
		want := []string{n.id}
		if n.kind == "clone" || n.Build != "" || n.NoID && n.Kind != "cmd" {
			want = nil
		}
		if fmt.Sprint(got) != fmt.Sprint(want) {
			o.Failf("wrong-step", "pipeline %d: the container of %s %q executes %v instead of %v", a.b.ten, n.kind, n.Name, got, want)
		}
		if n.Kind == "cmd" && len(ob.B.step.Docker.Command) == 0 {
			o.Failf("wrong-step", "pipeline %d: the commands of %q are not executed", a.b.ten, n.Name)
		}
	}
}

// checkOdd handles accepted pipelines that have no consistent plan.
func checkOdd(w *world, b *build, o *simkit.Outcome) {
	if !b.done && w.hung {
		o.Failf("never-ends", "pipeline %d did not end within %v of simulated time", b.ten, w.dur)
		return
	}
	if len(b.t.Faults) > 0 || w.s.Restart > 0 || b.canceled > 0 {
		return
	}
	counts := map[string]int{}
	for _, ob := range w.h.obs {
		if ob.Ten == b.ten {
			for _, m := range ran(ob.B) {
				counts[m]++
			}
		}
	}
	for _, n := range b.plan.nodes {
		if n.never() || !n.onOK || n.kind == "clone" || n.Build != "" {
			continue
		}
		if counts[n.id] != 1 {
			if counts[n.id] == 0 && n.Image != "" {
				// its image may be missing
				repo, _ := canon(n.Image)
				if _, ok := b.plan.builder(n); !registry[repo] || repo[:strings.Index(repo, "/")] == privateDomain || !ok || n.Pull != "" {
					return
				}
			}
			why := ""
			switch {
			case n.Image == "":
				why = "a container has no image"
			case b.plan.dup:
				why = "names are not unique"
			case b.missing():
				why = "a dependency does not exist"
			case b.plan.cyclic():
				why = "the dependencies are cyclic"
			}
			o.Failf("accepted-not-executable", "pipeline %d was accepted although %s: %s %q (%s) was started %d times, result: %v", b.ten, why, n.kind, n.Name, n.id, counts[n.id], b.result)
		}
	}
}

func under(p, dir string) bool {
	return p == dir || strings.HasPrefix(p, strings.TrimSuffix(dir, "/")+"/")
}

// C24: shared workspace and volumes.
func checkVolumes(w *world, a *account, o *simkit.Outcome) {
	pipe := a.b.pipe
	x := &box{windows: pipe.OS == "windows"}
	base := pipe.Base
	if base == "" {
		base = "/drone/src"
	}
	base = x.norm(base)
	full := x.norm(pipe.wsFull())
	if !under(full, base) {
		return // the workspace is not in the workspace volume
	}
	shadow := func(n *node) bool {
		ps := []string{}
		for _, m := range n.Vols {
			ps = append(ps, m.Path)
		}
		for _, v := range a.b.set.Volumes {
			ps = append(ps, v)
		}
		for _, p := range ps {
			p = x.norm(p)
			if p == "" || under(full, p) && !(under(base, p) && p != base) {
				return true
			}
		}
		return false
	}
	kinds := map[string]string{}
	for _, v := range pipe.Vols {
		if _, ok := kinds[v.Name]; ok {
			kinds[v.Name] = "dup"
		} else {
			kinds[v.Name] = v.Kind
		}
	}
	for _, e := range w.h.events {
		for name, k := range kinds {
			if e.Ten == a.b.ten && !e.Inj && (k == "temp" || k == "memory") && e.Err == fmt.Sprintf("invalid mount %q", name) {
				o.Failf("not-mountable", "pipeline %d: %q is not created since its volume %q, declared as temporary, is of no kind", a.b.ten, e.Name, name)
			}
		}
	}
	temp := func(n *node) map[string][]string {
		m := map[string][]string{}
		for _, v := range n.Vols {
			if k, ok := kinds[v.Name]; ok && k == "temp" {
				m[v.Name] = append(m[v.Name], x.norm(v.Path))
			}
		}
		return m
	}
	var mine []*obs
	for i := range w.h.obs {
		if w.h.obs[i].Ten == a.b.ten && a.b.plan.byName[w.h.obs[i].Name] != nil {
			mine = append(mine, &w.h.obs[i])
		}
	}
	has := func(l []string, tok string) bool {
		for _, s := range l {
			if s == tok {
				return true
			}
		}
		return false
	}
	for i, s := range mine {
		sn := a.b.plan.byName[s.Name]
		if sn.Kind == "cmd" {
			if wd := s.B.norm(s.B.step.WorkingDir); wd == "" || wd != s.B.norm(s.B.env["DRONE_WORKSPACE"]) {
				o.Failf("not-in-workspace", "pipeline %d: %q has commands but starts in %q, workspace %q", a.b.ten, s.Name, s.B.step.WorkingDir, s.B.env["DRONE_WORKSPACE"])
			}
		}
		sv := temp(sn)
		for _, d := range mine[:i] {
			dn := a.b.plan.byName[d.Name]
			phases := []string{"begin"}
			dr := a.runs[dn.idx]
			if dr.exited && dr.exitSeq < s.Seq {
				phases = append(phases, "end")
			}
			for _, ph := range phases {
				if sn.kind == "step" && dn.kind != "service" && !shadow(sn) && !shadow(dn) {
					wheres := []string{"ws", "ci"}
					if dn.kind == "clone" || dn.Kind == "cmd" {
						wheres = append(wheres, "cwd")
					}
					for _, wh := range wheres {
						if !has(s.WS, token(a.b.ten, d.Name, ph, wh)) {
							o.Failf("workspace-lost", "pipeline %d: %q does not find in its workspace (%q) what %q wrote before (%s, workspace %q, directory %q)", a.b.ten, s.Name, s.B.env["DRONE_WORKSPACE"], d.Name, wh, d.B.env["DRONE_WORKSPACE"], d.B.step.WorkingDir)
						}
					}
				}
				for name, ps := range temp(dn) {
					for _, p := range ps {
						tok := token(a.b.ten, d.Name, ph, "mnt:"+p)
						if qs, ok := sv[name]; ok {
							for _, q := range qs {
								if !has(s.Mounts[q], tok) {
									o.Failf("volume-lost", "pipeline %d: volume %q: %q does not find at %q what %q wrote at %q", a.b.ten, name, s.Name, q, d.Name, p)
								}
							}
						} else if has(s.All, tok) {
							o.Failf("volume-leak", "pipeline %d: %q does not mount volume %q but sees what %q wrote to it", a.b.ten, s.Name, name, d.Name)
						}
					}
				}
			}
		}
	}
}

// C25: isolation, over all tenants.
func checkIsolation(w *world, a *account, o *simkit.Outcome) {
	b := a.b
	if a.b.ten == firstAccepted(w) && len(w.h.uidBad) > 0 {
		o.Failf("identifier-shared", "%s", w.h.uidBad[0])
	}
	org := b.t.Org
	foreign := func(s string) bool {
		for _, pre := range []string{"S3C-", "CR3D-"} {
			for rest := s; ; {
				i := strings.Index(rest, pre)
				if i < 0 {
					break
				}
				rest = rest[i+len(pre):]
				if !strings.HasPrefix(rest, fmt.Sprintf("%d-", org)) {
					return true
				}
			}
		}
		return false
	}
	for _, p := range w.h.pulls {
		if p.ten == b.ten && foreign(p.auth) {
			o.Failf("credential-leak", "pipeline %d pulled %s with credentials of another organisation", b.ten, p.image)
		}
	}
	for i := range w.h.obs {
		ob := &w.h.obs[i]
		if ob.Ten != b.ten {
			continue
		}
		n := b.plan.byName[ob.Name]
		for _, t := range ob.All {
			if !strings.HasPrefix(t, fmt.Sprintf("%d/", b.ten)) && !ob.viaHost(t, w) {
				o.Failf("data-leak", "pipeline %d: %q sees data of another pipeline: %s", b.ten, ob.Name, t)
			}
		}
		for _, k := range sorted(ob.B.env) {
			if foreign(ob.B.env[k]) {
				o.Failf("secret-leak", "pipeline %d: %q gets in %s a value of another organisation: %s", b.ten, ob.Name, k, ob.B.env[k])
			}
		}
		for _, k := range sorted(ob.B.files) {
			if foreign(ob.B.files[k]) {
				o.Failf("secret-leak", "pipeline %d: %q gets in file %s a value of another organisation", b.ten, ob.Name, k)
			}
		}
		if ob.B.image.built && ob.B.image.ten != b.ten {
			o.Failf("image-leak", "pipeline %d: %q runs image %s, which pipeline %d built", b.ten, ob.Name, ob.B.imgRef, ob.B.image.ten)
		}
		if bn, ok := (*node)(nil), true; n != nil {
			bn, ok = b.plan.builder(n)
			if ok && bn == nil && ob.B.image.built {
				o.Failf("image-leak", "pipeline %d: %q runs a locally built image (%s, by pipeline %d step %q)", b.ten, ob.Name, ob.B.imgRef, ob.B.image.ten, ob.B.image.step)
			}
		}
		if b.t.Trusted {
			continue
		}
		if ob.B.step.Docker.Network != "" {
			o.Failf("host-network", "untrusted pipeline %d: %q runs in network %q", b.ten, ob.Name, ob.B.step.Docker.Network)
		}
		if len(ob.B.step.Devices) > 0 {
			o.Failf("device", "untrusted pipeline %d: %q gets devices", b.ten, ob.Name)
		}
		for _, p := range ob.B.step.Docker.Ports {
			if p.Host != 0 {
				o.Failf("host-port", "untrusted pipeline %d: %q maps host port %d", b.ten, ob.Name, p.Host)
			}
		}
		for _, m := range ob.B.mounts {
			if m.ro == "" {
				continue
			}
			_, oper := b.set.Volumes[m.ro]
			switch {
			case oper || m.ro == b.set.Host && b.set.Host != "":
			case m.ro == "/var/run/docker.sock" && n != nil && n.Build != "":
				if m.target != "/var/run/docker.sock" {
					o.Failf("docker-socket", "untrusted pipeline %d: %q mounts the docker socket at %s", b.ten, ob.Name, m.target)
				}
			case m.ro == "/var/run/docker.sock":
				o.Failf("docker-socket", "untrusted pipeline %d: %q mounts the docker socket", b.ten, ob.Name)
			default:
				o.Failf("host-path", "untrusted pipeline %d: %q mounts host path %s", b.ten, ob.Name, m.ro)
			}
		}
		if n != nil && n.Build != "" {
			if repo, _ := canon(ob.B.step.Docker.Image); repo != "docker.io/drone/docker" || ob.B.image.built {
				o.Failf("docker-socket", "untrusted pipeline %d: the build step %q runs %s with the docker socket", b.ten, ob.Name, ob.B.imgRef)
			}
		}
		if ob.B.step.Docker.Privileged {
			ok := false
			if n != nil && n.Build == "" && n.kind != "clone" && len(n.Entry) == 0 && len(n.Args) == 0 && n.Kind != "cmd" && !ob.B.image.built {
				repo, _ := canon(n.Image)
				for _, d := range b.set.Dind {
					if dr, _ := canon(d); dr == repo {
						ok = true
					}
				}
			}
			if !ok {
				o.Failf("privileged", "untrusted pipeline %d: %q runs %s in privileged mode", b.ten, ob.Name, ob.B.imgRef)
			}
		}
	}
}

func firstAccepted(w *world) int {
	for _, b := range w.runs {
		if b.accepted() {
			return b.ten
		}
	}
	return -1
}

// viaHost reports whether the token may be visible because both containers
// were given the same host path.
func (ob *obs) viaHost(tok string, w *world) bool {
	for _, m := range ob.B.mounts {
		if m.ro == "" {
			continue
		}
		for k, l := range w.h.fs {
			if strings.HasPrefix(k, "host:") && under(strings.TrimSuffix(k, "|"), "host:"+path.Clean(m.ro)) {
				for _, t := range l {
					if t == tok {
						return true
					}
				}
			}
		}
	}
	return false
}

// C26: secrets.
func checkSecrets(w *world, a *account, o *simkit.Outcome) {
	b := a.b
	want := map[string]bool{}
	for _, n := range b.plan.nodes {
		if n.never() {
			continue
		}
		for _, s := range n.EnvSec {
			want[s] = true
		}
		for _, s := range n.SetSec {
			want[s] = true
		}
	}
	if (b.set.Secrets == "fresh" || b.set.Secrets == "shared") && !b.shared {
		got := map[string]int{}
		for _, c := range b.calls {
			got[c]++
		}
		for c, k := range got {
			if !want[c] {
				o.Failf("requested-needlessly", "pipeline %d: secret %q was requested, but no step that can run declares it", b.ten, c)
			} else if k > 1 {
				o.Failf("requested-twice", "pipeline %d: secret %q was requested %d times", b.ten, c, k)
			}
		}
		for c := range want {
			if got[c] == 0 {
				o.Failf("not-requested", "pipeline %d: secret %q was never requested", b.ten, c)
			}
		}
	}
	for i := range w.h.obs {
		ob := &w.h.obs[i]
		n := b.plan.byName[ob.Name]
		if ob.Ten != b.ten || n == nil {
			continue
		}
		declared := map[string]string{}
		for v, s := range n.EnvSec {
			declared[v] = s
		}
		for k, s := range n.SetSec {
			declared["PLUGIN_"+strings.ToUpper(k)] = s
		}
		for _, v := range sorted(declared) {
			val, known := b.secrets[declared[v]]
			got, ok := ob.B.env[v]
			if known && got != val {
				o.Failf("not-delivered", "pipeline %d: %q declares %s from secret %q but gets %q", b.ten, ob.Name, v, declared[v], got)
			}
			if !known && ok && strings.Contains(got, "S3C-") {
				o.Failf("wrong-secret", "pipeline %d: %q gets in %s the value %q for the unknown secret %q", b.ten, ob.Name, v, got, declared[v])
			}
		}
		for _, k := range sorted(ob.B.env) {
			if strings.Contains(ob.B.env[k], "S3C-") {
				if s, ok := declared[k]; !ok || b.secrets[s] != ob.B.env[k] {
					o.Failf("undeclared-secret", "pipeline %d: %q gets in %s a secret it does not declare: %s", b.ten, ob.Name, k, ob.B.env[k])
				}
			}
		}
		js := js([]interface{}{ob.B.step.Docker, ob.B.step.Metadata, ob.B.files})
		if strings.Contains(js, "S3C-") {
			o.Failf("undeclared-secret", "pipeline %d: a secret appears outside the environment of %q", b.ten, ob.Name)
		}
		for k, v := range n.Env {
			if ob.B.env[k] != v {
				if _, over := b.set.Env[k]; !over {
					o.Failf("environment-changed", "pipeline %d: %q: %s is %q instead of %q", b.ten, ob.Name, k, ob.B.env[k], v)
				}
			}
		}
	}
}

// C27: skipped steps.
func checkSkip(w *world, a *account, o *simkit.Outcome) {
	if a.setupErr {
		return
	}
	some := false
	for _, r := range a.runs {
		if r.n.cond || r.n.filt {
			some = true
			why := "its conditions do not match"
			if r.n.filt {
				why = "it is not selected"
			}
			if r.creates > 0 {
				o.Failf("skipped-started", "pipeline %d: %s was started although %s", a.b.ten, r, why)
			}
		}
	}
	if !some && a.b.set.Resume == "" && len(a.b.set.Exclude) == 0 && len(a.b.set.Include) == 0 && !a.b.set.Skip {
		return
	}
	for _, r := range a.runs {
		if r.n.cond || r.n.filt {
			continue
		}
		if r.should == "yes" && r.creates != 1 {
			o.Failf("others-affected", "pipeline %d: %s must run once in spite of the selection, but was started %d times (result %v)", a.b.ten, r, r.creates, a.b.result)
		}
		if r.should == "no" && r.creates > 0 {
			o.Failf("others-affected", "pipeline %d: %s must not run", a.b.ten, r)
		}
	}
	a.checkResult(o)
}

// C28: services.
func checkServices(w *world, a *account, o *simkit.Outcome) {
	if !a.b.done {
		o.Failf("held-up", "pipeline %d never ends: its services or detached steps hold it up", a.b.ten)
		return
	}
	if a.setupErr {
		return
	}
	last := a.setupT
	for _, r := range a.runs {
		if r.done > last {
			last = r.done
		}
		if r.creates == 0 && r.dec > last {
			last = r.dec
		}
	}
	if a.destroyT > last {
		o.Failf("held-up", "pipeline %d was over at %v but ended at %v", a.b.ten, last, a.destroyT)
	}
	a.checkResult(o)
	var first *nodeRun
	for _, r := range a.runs {
		if r.n.kind == "step" && r.starts > 0 && (first == nil || r.startSeq < first.startSeq) {
			first = r
		}
	}
	for _, r := range a.runs {
		if !r.n.detach || r.started == 0 {
			continue
		}
		// it must not be stopped by its own pipeline before the end
		for i := range w.h.obs {
			ob := &w.h.obs[i]
			if ob.Ten == a.b.ten && ob.Name == r.n.Name && ob.B.killer == a.b.ten && r.exited {
				for _, e := range w.h.events {
					if e.Ten == a.b.ten && e.Kind == "exit" && e.Name == r.n.Name && e.T < a.destroyT {
						o.Failf("stopped-early", "pipeline %d: %s was stopped before the pipeline ended", a.b.ten, r)
					}
				}
			}
		}
	}
	if a.destroyT < last {
		o.Failf("stopped-early", "pipeline %d was destroyed at %v, before it was over at %v", a.b.ten, a.destroyT, last)
	}
	if !a.b.plan.serial || first == nil {
		return
	}
	for _, r := range a.runs {
		if r.n.kind != "service" || r.should != "yes" || r.createErr != "" || r.startErr != "" {
			continue
		}
		seq := 0
		for _, e := range w.h.events {
			if e.Ten == a.b.ten && e.Name == r.n.Name && e.Kind == "started" {
				seq = e.Seq
			}
		}
		if seq == 0 || seq > first.startSeq {
			o.Failf("service-late", "pipeline %d: %s had not been started when %s started", a.b.ten, r, first)
		}
	}
}

var checkers = map[string]check{
	"C33": checkDeclared,
	"C19": checkClone, "C20": checkDepends, "C21": checkSerial, "C22": checkPolicy, "C23": checkComplete,
	"C24": checkVolumes, "C25": checkIsolation, "C26": checkSecrets, "C27": checkSkip, "C28": checkServices,
}

func init() { checkers["C35"] = checkConverted }

// runProp returns the Run function of a property.
func runProp(id string) func(json.RawMessage, int) simkit.Outcome {
	return func(raw json.RawMessage, _ int) (o simkit.Outcome) {
		var s Scen
		if err := json.Unmarshal(raw, &s); err != nil {
			o.Err = err.Error()
			return
		}
		if len(s.Tenants) == 0 {
			o.Triv = true
			return
		}
		for i := range s.Tenants {
			if id == "C35" && !s.Tenants[i].sane() {
				o.Triv = true
				return
			}
		}
		w := play(&s)
		o.Poison = w.hung
		o.SimMs = int64(w.dur / time.Millisecond)
		o.Steps = int64(len(w.h.events))
		for k, n := range w.h.faults {
			o.Fault(k, n)
		}
		o.Triv = true
		for _, b := range w.runs {
			if harness(b) {
				o.Err = b.panicked
				return
			}
			switch {
			case id == "C35" && b.perr != nil && b.t.Src != nil && !b.shared0:
				o.Failf("not-converted", "pipeline %d: the file %v\n%s", b.ten, b.perr, b.text)
			case id == "C35" && b.lint != nil && b.t.Src != nil && !b.shared0 && b.t.native():
				o.Failf("not-accepted", "pipeline %d: the converted file is rejected: %v\n%s", b.ten, b.lint, b.text)
			case b.perr != nil:
				o.Probe("not-parsed")
			case b.lint != nil:
				o.Probe("rejected")
			case b.panicked != "":
				o.Probe("panicked")
				if id == "C23" && b.cause == "compile" {
					o.Failf("compile-panics", "pipeline %d: %s", b.ten, b.panicked)
				}
			case b.comparable():
				a := w.account(b)
				checkers[id](w, a, &o)
				if id == "C25" || id == "C23" {
					o.Triv = false
				} else {
					o.Triv = o.Triv && !a.relevant(id)
				}
				a.probes(&o)
			default:
				o.Probe("odd-accepted")
				if id == "C23" {
					checkOdd(w, b, &o)
				}
				if id == "C25" {
					checkIsolation(w, w.account(b), &o)
				}
			}
		}
		o.State, o.Digest = w.digests()
		if o.Fail != nil {
			o.Log = w.trace()
		}
		return
	}
}

// relevant reports whether the build exercises the property.
func (a *account) relevant(id string) bool {
	p := a.b.plan
	switch id {
	case "C20":
		return !p.serial
	case "C21":
		return p.serial && len(a.b.pipe.Steps) > 1
	case "C22":
		return a.failed()
	case "C24":
		return len(a.b.pipe.Steps) > 1
	case "C26":
		for _, n := range p.nodes {
			if len(n.EnvSec)+len(n.SetSec) > 0 {
				return true
			}
		}
		return false
	case "C27":
		for _, n := range p.nodes {
			if n.cond || n.filt {
				return true
			}
		}
		return false
	case "C28":
		for _, n := range p.nodes {
			if n.detach {
				return true
			}
		}
		return false
	}
	return true
}

func (a *account) probes(o *simkit.Outcome) {
	p := a.b.plan
	if p.serial {
		o.Probe("serial-pipeline")
	} else {
		o.Probe("graph-pipeline")
	}
	for _, r := range a.runs {
		if r.should == "maybe" {
			o.Probe("ambiguous-step")
		}
		if r.intr {
			o.Probe("interrupted")
		}
		if a.failed() && r.started > 0 && r.n.onFail && r.n.kind == "step" {
			o.Probe("step-after-failure")
		}
		if r.createErr == "image missing" {
			o.Probe("image-missing")
		}
	}
	if !a.b.done {
		o.Probe("not-done")
	}
}

func (w *world) digests() (state, digest uint64) {
	evs := append([]event(nil), w.h.events...)
	sort.SliceStable(evs, func(i, j int) bool {
		a, b := evs[i], evs[j]
		if a.T != b.T {
			return a.T < b.T
		}
		if a.Ten != b.Ten {
			return a.Ten < b.Ten
		}
		return a.Name < b.Name
	})
	for _, e := range evs {
		s := fmt.Sprint(e.Ten, e.Name, e.Kind, e.Ret, e.Err != "")
		state = simkit.HashStr(state, s)
		digest = simkit.HashStr(digest, s+fmt.Sprint(int64(e.T), e.Err, e.Code, e.OOM))
	}
	for _, b := range w.runs {
		digest = simkit.HashStr(digest, fmt.Sprint(b.lint, b.perr, b.result, b.calls, b.resultAt))
	}
	for _, o := range w.h.obs {
		ks := sorted(o.B.env)
		for _, k := range ks {
			digest += simkit.HashStr(1, o.Name+k+o.B.env[k]+fmt.Sprint(o.T))
		}
	}
	return
}
