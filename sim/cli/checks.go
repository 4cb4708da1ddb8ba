package main

import (
	"encoding/json"
	"fmt"
	"sort"
	"strings"

	"github.com/drone/drone-yaml/yaml"
	"github.com/drone/drone-yaml/yaml/signer"
	"verif.local/sim/simkit"
)

func runCli(id string) func(raw json.RawMessage, proc int) simkit.Outcome {
	return func(raw json.RawMessage, proc int) simkit.Outcome {
		var o simkit.Outcome
		var sc Scen
		if err := json.Unmarshal(raw, &sc); err != nil {
			o.Err = err.Error()
			return o
		}
		d := sc.disk()
		s := newSim(&sc, d, &o)
		s.log = true
		switch id {
		case "C04":
			checkC04(s)
		case "C13":
			checkC13(s)
		case "C14":
			checkC14(s)
		case "C15":
			checkC15(s)
		case "C16":
			checkC16(s)
		case "C17":
			checkC17(s)
		case "C18":
			checkC18(s)
		}
		o.State = o.Digest
		o.Triv = s.steps == 0
		return o
	}
}

func cmdline(p *sproc) string {
	return fmt.Sprintf("process %d (%s)", p.i, strings.Join(p.spec.args(), " "))
}

func (p *sproc) status() string {
	if p.killed {
		return "killed"
	}
	return fmt.Sprintf("exit status %d", p.code)
}

func show(s string) string { return quote([]byte(s)) }

// C04: descriptors of the parse functions.
func checkC04(s *sim) {
	p := s.procs[0]
	call := ""
	closed := map[string]bool{}
	s.after = func(p *sproc, q *req, r rsp) {
		if p.kp.ebadf != "" {
			s.o.Failf("closed-descriptor", "%s: %s acts on a descriptor that is not open", call, p.kp.ebadf)
		}
		if q.trap != 1 || int32(q.a[0]) != 1 {
			return
		}
		m := strings.TrimSpace(string(q.in[0]))
		switch {
		case strings.HasPrefix(m, "begin "):
			var i int
			fmt.Sscan(m[6:], &i)
			call = "parsing " + p.spec.Extra[i]
		case strings.HasPrefix(m, "end "):
			if l := p.kp.open(3); len(l) > 0 {
				s.o.Failf("leak", "%s returned with %d open descriptor(s)", call, len(l))
			}
			call = ""
		case call != "":
			closed[m] = true
			s.o.Probe("parse-" + m)
		}
	}
	s.run()
	if s.o.Fail == nil && s.o.Err == "" && p.code != 0 {
		s.o.Err = "client: " + p.status() + " " + p.panic
	}
}

// C13: a crash at any instant.
func checkC13(s *sim) {
	p := s.procs[0]
	path := abs(p.spec.Path)
	old, have := s.d.get(path)
	if !have {
		s.o.Err = "no file"
		return
	}
	want := expect(p.spec, old)
	state := func(d *disk) string {
		t, have := d.get(path)
		switch {
		case !have:
			return "missing"
		case t == old, want.ok && t == want.text:
			return ""
		case t == "":
			return "empty"
		case strings.HasPrefix(old, t), want.ok && strings.HasPrefix(want.text, t):
			return "truncated"
		}
		return "mixed"
	}
	muts := -1
	look := func(d *disk, what string, q *req) {
		if bad := state(d); bad != "" {
			t, _ := d.get(path)
			s.o.Failf(what+"-"+bad, "after a %s %s of %s the file is %s: %s (before: %s, complete result: %s)", map[string]string{"kill": "process kill", "power": "power loss"}[what], q, cmdline(p), bad, show(t), show(old), show(want.text))
		}
	}
	s.mid = func(p *sproc, half *disk) {
		s.o.Fault("kill", 1)
		look(half, "kill", p.q)
	}
	s.after = func(p *sproc, q *req, r rsp) {
		if s.d.muts == muts && classOf(q.trap) != "fsync" {
			return
		}
		if muts >= 0 {
			s.o.Fault("kill", 1)
			look(s.d, "kill", q)
		}
		muts = s.d.muts
		for i := 0; i < 4 && s.o.Fail == nil; i++ {
			s.o.Fault("power-loss", 1)
			c := s.d.clone()
			c.power(s.pow)
			look(c, "power", q)
		}
	}
	s.run()
	if p.state == 2 && p.code == 0 && muts > 0 {
		s.o.Probe("saved")
	}
}

// strays lists what a command left behind or changed beside the file.
func diff(a, b string) string {
	in := map[string]bool{}
	for _, l := range strings.Split(a, "\n") {
		in[l] = true
	}
	var out []string
	for _, l := range strings.Split(b, "\n") {
		if !in[l] {
			out = append(out, "+"+l)
		}
		delete(in, l)
	}
	for l := range in {
		out = append(out, "-"+l)
	}
	sort.Strings(out)
	return strings.Join(out, "; ")
}

// resolved is the path of the file behind links.
func (s *sim) resolved(path string) (string, *inode) {
	_, _, n, _ := s.d.walk(nil, path, true)
	if n == nil {
		return "", nil
	}
	var find func(p string, d *inode) string
	find = func(p string, d *inode) string {
		for k, v := range d.ents {
			if v == n {
				return p + "/" + k
			}
			if v.kind == 'd' {
				if r := find(p+"/"+k, v); r != "" {
					return r
				}
			}
		}
		return ""
	}
	return find("", s.d.root), n
}

func (p *sproc) did(class string) bool {
	for k := range p.injured {
		if strings.HasSuffix(k, ":"+class) {
			return true
		}
	}
	return false
}

// without removes the lines of one path from a dump.
func without(dump, path string) string {
	var l []string
	for _, x := range strings.Split(dump, "\n") {
		if !strings.HasPrefix(x, path+" ") {
			l = append(l, x)
		}
	}
	return strings.Join(l, "\n")
}

// C14: failing commands.
func checkC14(s *sim) {
	p := s.procs[0]
	path := abs(p.spec.Path)
	old, have := s.d.get(path)
	real, n := s.resolved(path)
	if n != nil && n.kind != 'f' {
		have = false
	}
	before := s.d.dump()
	var want result
	if have {
		want = expect(p.spec, old)
	}
	if p.spec.Op == "compile" && have {
		u, _, e := undisturbed(s.sc, 0, s.sc.Files)
		if e != "" {
			s.o.Err = e
			return
		}
		want.ok = u.code == 0
	}
	s.run()
	if s.o.Fail != nil || s.o.Err != "" {
		return
	}
	now, there := s.d.get(path)
	after := s.d.dump()
	if p.code != 0 {
		s.o.Probe("failed")
		if have && (!there || now != old) {
			s.o.Failf("changed", "%s failed (%s) but the file changed from %s to %s (there: %v)", cmdline(p), p.status(), show(old), show(now), there)
			return
		}
		if before != after && !(p.did("unlink")) {
			s.o.Failf("changed-other", "%s failed (%s) but left the file system changed: %s", cmdline(p), p.status(), diff(before, after))
		}
		return
	}
	if !have || !want.ok {
		s.o.Failf("success-on-failure", "%s exits with status 0 although it cannot do its work on %s", cmdline(p), show(old))
		return
	}
	if !p.spec.Save {
		if before != after {
			s.o.Failf("changed", "%s changed the file system: %s", cmdline(p), diff(before, after))
		}
		return
	}
	s.o.Probe("saved")
	if !there || now != want.text {
		s.o.Failf("success-on-failure", "%s exits with status 0 but the file is %s instead of %s", cmdline(p), show(now), show(want.text))
		return
	}
	if a, b := without(before, real), without(after, real); a != b && !p.did("unlink") {
		s.o.Failf("changed-other", "%s changed other files: %s", cmdline(p), diff(a, b))
	}
}

// C15: status zero and the output.
func checkC15(s *sim) {
	p := s.procs[0]
	path := abs(p.spec.Path)
	old, have := s.d.get(path)
	u, ud, e := undisturbed(s.sc, 0, s.sc.Files)
	if e != "" {
		s.o.Err = "undisturbed run: " + e
		return
	}
	utext, _ := ud.get(path)
	if want := expect(p.spec, old); p.spec.Op != "compile" {
		if !have {
			want = result{}
		}
		if (u.code == 0) != want.ok {
			s.o.Failf("undisturbed", "without any fault %s ends with %s, the library says ok=%v", cmdline(p), u.status(), want.ok)
			return
		}
		if want.ok && (string(u.kp.outs[1]) != want.outs[1] || string(u.kp.outs[2]) != want.outs[2]) {
			s.o.Failf("undisturbed", "without any fault %s prints %s / %s, the library result is %s / %s", cmdline(p), quote(u.kp.outs[1]), quote(u.kp.outs[2]), show(want.outs[1]), show(want.outs[2]))
			return
		}
		if want.ok && p.spec.Save && utext != want.text {
			s.o.Failf("undisturbed", "without any fault %s stores %s, the library result is %s", cmdline(p), show(utext), show(want.text))
			return
		}
	}
	s.run()
	if s.o.Fail != nil || s.o.Err != "" {
		return
	}
	now, _ := s.d.get(path)
	if p.code == 0 {
		s.o.Probe("status-0")
		if p.hard > 0 {
			s.o.Probe("status-0-after-error")
		}
		if u.code != 0 {
			s.o.Failf("status", "%s exits with status 0, undisturbed with %d", cmdline(p), u.code)
			return
		}
		for i := 1; i <= 2; i++ {
			if string(p.kp.outs[i]) != string(u.kp.outs[i]) {
				s.o.Failf("output", "%s exits with status 0 but delivered %s on descriptor %d instead of %s", cmdline(p), quote(p.kp.outs[i]), i, quote(u.kp.outs[i]))
				return
			}
		}
		if now != utext {
			s.o.Failf("output", "%s exits with status 0 but the file is %s instead of %s", cmdline(p), show(now), show(utext))
		}
		return
	}
	if p.hard > 0 || s.k.faults["disk-full"] > 0 || s.k.faults["enospc"] > 0 {
		return
	}
	if p.code != u.code {
		s.o.Failf("disturbed", "%s is only interrupted (%v) but ends with %s instead of %d: %s", cmdline(p), keysOf(p.injured), p.status(), u.code, quote(p.kp.outs[2]))
		return
	}
	for i := 1; i <= 2; i++ {
		if string(p.kp.outs[i]) != string(u.kp.outs[i]) {
			s.o.Failf("disturbed", "%s is only interrupted (%v) but prints %s on descriptor %d instead of %s", cmdline(p), keysOf(p.injured), quote(p.kp.outs[i]), i, quote(u.kp.outs[i]))
			return
		}
	}
}

func keysOf(m map[string]int) (l []string) {
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return
}

// C16: concurrent commands without faults.
func checkC16(s *sim) {
	path := abs(s.procs[0].spec.Path)
	cur, have := s.d.get(path)
	if !have {
		s.o.Err = "no file"
		return
	}
	versions := []string{cur}
	var by []int = []int{-1}
	started := map[int]bool{}
	first := cur
	muts := s.d.muts
	s.after = func(p *sproc, q *req, r rsp) {
		if !started[p.i] {
			started[p.i] = true
			p.began = len(versions) - 1
		}
		if s.d.muts == muts {
			return
		}
		muts = s.d.muts
		now, have := s.d.get(path)
		if !have {
			s.o.Failf("missing", "after %s of %s the file does not exist", q, cmdline(p))
			return
		}
		if now == cur {
			return
		}
		ok := false
		if p.spec.Save {
			for _, v := range versions[p.began:] {
				w := expect(p.spec, v)
				ok = ok || w.ok && w.text == now
			}
		}
		if !ok {
			s.o.Failf("incomplete", "after %s of %s others see %s, which is not its complete result on any version that existed while it ran", q, cmdline(p), show(now))
			return
		}
		cur = now
		versions = append(versions, now)
		by = append(by, p.i)
		s.o.Probe("replaced")
	}
	s.ended = func(p *sproc) {
		if s.o.Fail != nil {
			return
		}
		for _, v := range versions[p.began:] {
			w := expect(p.spec, v)
			if w.ok != (p.code == 0) {
				continue
			}
			if !w.ok || w.outs[1] == string(p.kp.outs[1]) && w.outs[2] == string(p.kp.outs[2]) {
				return
			}
		}
		s.o.Failf("outcome", "%s ends with %s and prints %s / %s, which is not what it does on any of the %d versions of the file that existed while it ran", cmdline(p), p.status(), quote(p.kp.outs[1]), quote(p.kp.outs[2]), len(versions)-p.began)
	}
	s.run()
	if s.o.Fail != nil || s.o.Err != "" {
		return
	}
	now, _ := s.d.get(path)
	any, okay := false, false
	for _, p := range s.procs {
		if !p.spec.Save || p.code != 0 {
			continue
		}
		any = true
		for _, v := range versions {
			w := expect(p.spec, v)
			okay = okay || w.ok && w.text == now
		}
	}
	if !any {
		okay = now == first
	}
	if !okay {
		s.o.Failf("final", "at the end the file is %s, which is not the complete result of a command that succeeded", show(now))
	}
	if len(versions) > 2 {
		s.o.Probe("several-versions")
	}
}

// C17: histories.
func checkC17(s *sim) {
	path := abs(s.procs[0].spec.Path)
	cur, have := s.d.get(path)
	if !have {
		s.o.Err = "no file"
		return
	}
	_, n := s.resolved(path)
	mode, uid := n.mode, n.uid
	_, _, top, _ := s.d.walk(nil, path, false)
	kind, link := top.kind, top.link
	// contents a power loss may bring back
	durable := map[string]bool{cur: true}
	vague := map[string]bool{}
	verdicts := func(p *sproc, now string, after string) {
		_, n := s.resolved(path)
		if n != nil && (n.mode != mode || n.uid != uid) {
			s.o.Failf("permissions", "after %s the file has mode %o and owner %d instead of %o and %d", after, n.mode, n.uid, mode, uid)
		}
		_, _, top, _ := s.d.walk(nil, path, false)
		if top == nil || top.kind != kind || top.link != link {
			s.o.Failf("link", "after %s the symbolic link has been replaced", after)
		}
	}
	s.ended = func(p *sproc) {
		if s.o.Fail != nil {
			return
		}
		after := cmdline(p) + ": " + p.status()
		now, have := s.d.get(path)
		if p.spec.Op == "edit" {
			cur = now
			durable = map[string]bool{cur: true}
			vague = map[string]bool{}
			return
		}
		want := expect(p.spec, cur)
		took := p.spec.Save && want.ok
		if p.lost {
			// power loss: anything that was not durable may be gone
			if !have {
				s.o.Failf("history", "after %s the file is missing", after)
				return
			}
			may := map[string]bool{}
			for k := range durable {
				may[k] = true
			}
			for k := range vague {
				may[k] = true
			}
			if took {
				may[want.text] = true
			}
			if !may[now] {
				cl := "history"
				if len(vague) == 0 && now != cur {
					cl = "lost"
				}
				s.o.Failf(cl, "after %s (power loss) the file is %s, neither the last acknowledged content %s nor the complete result of the command", after, show(now), show(cur))
				return
			}
			cur = now
			durable = map[string]bool{now: true}
			vague = map[string]bool{}
			verdicts(p, now, after)
			return
		}
		if !have {
			s.o.Failf("history", "after %s the file is missing", after)
			return
		}
		switch {
		case p.killed:
			if now != cur && !(took && now == want.text) {
				s.o.Failf("history", "after %s the file is %s, neither the previous content %s nor the complete result", after, show(now), show(cur))
				return
			}
			if now != cur {
				vague[now] = true
			}
		case p.code == 0 && p.spec.Save:
			if !want.ok {
				s.o.Failf("history", "%s although the command cannot succeed on %s", after, show(cur))
				return
			}
			if now != want.text {
				s.o.Failf("history", "after %s the file is %s instead of the complete result %s", after, show(now), show(want.text))
				return
			}
			if p.did("fsync") || p.did("open") {
				vague[now] = true
			} else {
				durable = map[string]bool{now: true}
				vague = map[string]bool{}
			}
			if p.spec.Op == "sign" {
				signed(s, p, now)
			}
		default:
			if now != cur {
				s.o.Failf("history", "after %s the file changed from %s to %s", after, show(cur), show(now))
				return
			}
			if p.spec.Op == "verify" && p.hard == 0 && (p.code == 0) != want.ok {
				s.o.Failf("verify", "%s, but the signature is valid: %v", after, want.ok)
			}
		}
		cur = now
		verdicts(p, now, after)
	}
	s.cut = func() {}
	s.run()
	if s.o.Fail != nil || s.o.Err != "" {
		return
	}
	// a last power loss after everything has ended
	s.powerLoss()
	s.o.Fault("power-loss", 1)
	now, have := s.d.get(path)
	switch {
	case !have:
		s.o.Failf("history", "after a final power loss the file is missing")
	case !durable[now] && !vague[now]:
		s.o.Failf("lost", "after a final power loss the file is %s, not the last acknowledged content %s", show(now), show(cur))
	}
}

// signed checks the result of an acknowledged signing.
func signed(s *sim, p *sproc, now string) {
	s.o.Probe("signed")
	ok, err := signer.Verify([]byte(now), signer.KeyString(p.spec.Key))
	if err != nil || !ok {
		s.o.Failf("signature", "after %s the signature does not verify with the key: %v %v", cmdline(p), ok, err)
		return
	}
	for _, k := range keys[:3] {
		if k == p.spec.Key {
			continue
		}
		if ok, err := signer.Verify([]byte(now), signer.KeyString(k)); err == nil && ok {
			s.o.Failf("signature", "after %s the signature also verifies with another key", cmdline(p))
			return
		}
	}
	raw, err := yaml.ParseRawString(now)
	n := 0
	for _, r := range raw {
		if r.Kind == "signature" {
			n++
		}
	}
	if err != nil || n != 1 {
		s.o.Failf("signature", "after %s the file carries %d signatures (%v)", cmdline(p), n, err)
	}
}

// C18: commands that do not save.
func checkC18(s *sim) {
	before := s.d.dump()
	s.after = func(p *sproc, q *req, r rsp) {
		if s.d.muts != 0 {
			s.o.Failf("mutation", "%s changes the file system: %s (%s)", cmdline(p), q, s.d.lastMut)
		}
	}
	s.run()
	if s.o.Fail != nil || s.o.Err != "" {
		return
	}
	for _, p := range s.procs {
		if p.injured["power"] > 0 {
			s.o.Probe("power-loss")
		}
	}
	if after := s.d.dump(); before != after {
		s.o.Failf("mutation", "the file system changed: %s", diff(before, after))
	}
}
