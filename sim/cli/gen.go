package main

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/drone/drone-yaml/yaml"
	"github.com/drone/drone-yaml/yaml/pretty"
	"github.com/drone/drone-yaml/yaml/signer"
	"verif.local/sim/simkit"
	"verif.local/sim/yamlgen"
)

var keys = []string{"0123456789abcdef0123456789abcdef", "another-key-another-key-another-key!", "fedcba9876543210fedcba9876543210", "short"}

func pkey(r *simkit.Rng) string {
	if r.P(.06) {
		return keys[3]
	}
	return keys[[]int{0, 0, 0, 1, 1, 2}[r.Intn(6)]]
}

// text makes a configuration and the file name that goes with it.
func text(r *simkit.Rng, foreign bool) (s, name string) {
	g := &yamlgen.G{R: r}
	defer func() {
		if recover() != nil {
			s = "kind: pipeline\nname: default\n"
		}
	}()
	switch x := r.Intn(100); {
	case x < 34:
		s = g.Valid()
	case x < 44:
		s = g.Manifest()
	case x < 54:
		s = g.Valid()
		if m, err := yaml.ParseString(s); err == nil {
			var b bytes.Buffer
			pretty.Print(&b, m)
			s = b.String()
		}
	case x < 66:
		s = g.Valid()
		if b, err := signer.SignUpdate([]byte(s), signer.KeyString(pkey(r))); err == nil {
			s = string(b)
			if r.P(.15) {
				s += "---\nkind: signature\nhmac: 00ff\n"
			}
			if r.P(.15) {
				s = g.Broken(s)
			}
		}
	case x < 76:
		s = g.Broken(g.Valid())
	case x < 86:
		s = r.Pick("", "\n", "kind: pipeline\nname: default\n", "---\n...\n", "kind: signature\nhmac: abc\n", "kind: pipeline\nname: a\n---\nkind: pipeline\nname: b\n", "kind: cron\nname: nightly\nspec:\n  branch: master\n  schedule: 1h\n", "# only a comment\n", "kind: pipeline\nname: x\nsteps:\n- name: a\n  image: alpine\n  commands: [ls]")
	case x < 90:
		s = g.Legacy()
	default:
		if foreign {
			if r.P(.5) {
				return g.Gitlab(), ".gitlab-ci.yml"
			}
			s, _ = g.Bitbucket()
			return s, "bitbucket-pipelines.yml"
		}
		s = g.Valid()
	}
	if r.P(.06) {
		// beyond the sizes of buffers
		size := []int{9000, 9000, 9000, 9000, 9000, 9000, 9000, 33000, 33000, 33000, 66000, 66000, 140000, 270000, 540000, 1100000}[r.Intn(16)]
		for u := s + "\n---\n" + g.Valid(); len(s) < size || r.P(.5) && len(s) < 200000; {
			if size > 100000 && len(u) < 9000 {
				u += "\n---\n" + g.Valid()
			}
			s += "\n---\n" + u
		}
	}
	if r.P(.04) {
		s = strings.Replace(s, "\n", "\r\n", -1)
	}
	return s, ""
}

func noise(r *simkit.Rng, op string) (l []string) {
	switch op {
	case "fmt", "lint":
		if r.P(.3) {
			l = append(l, "--privileged")
		}
	case "convert":
		if r.P(.3) {
			l = append(l, "--addr=https://github.com/octocat/hello-world.git")
		}
	case "compile":
		for _, a := range []string{"--clone", "--trusted", "--name=p0", "--git-branch=master", "--event=push", "--label=a=b", "--env=X=y", "--secret=token=s3cret", "--network=net1", "--volume=/a=/b", "--netrc-machine=github.com", "--git-ref=refs/tags/v1"} {
			if r.P(.2) {
				l = append(l, a)
			}
		}
	}
	return
}

func proc(r *simkit.Rng, ops []string, save float64) Proc {
	p := Proc{Op: ops[r.Intn(len(ops))]}
	switch p.Op {
	case "fmt", "convert", "sign":
		p.Save = r.P(save)
	}
	if p.Op == "sign" || p.Op == "verify" {
		p.Key = pkey(r)
	}
	p.Extra = noise(r, p.Op)
	return p
}

var hardFaults = []Fault{
	{Call: "open", Kind: "eacces"}, {Call: "open", Kind: "emfile"}, {Call: "open", Kind: "eio"}, {Call: "open", Kind: "enospc"},
	{Call: "read", Kind: "eio"}, {Call: "read", Kind: "eio"}, {Call: "write", Kind: "eio"}, {Call: "write", Kind: "enospc"}, {Call: "write", Kind: "enospc"}, {Call: "write", Kind: "epipe"},
	{Call: "close", Kind: "eio"}, {Call: "close", Kind: "enospc"}, {Call: "fsync", Kind: "eio"}, {Call: "fsync", Kind: "enospc"},
	{Call: "rename", Kind: "eio"}, {Call: "rename", Kind: "eacces"}, {Call: "rename", Kind: "enospc"}, {Call: "chmod", Kind: "eacces"}, {Call: "unlink", Kind: "eio"}, {Call: "truncate", Kind: "eio"}, {Call: "stat", Kind: "eio"}, {Call: "stat", Kind: "eacces"},
}

var softFaults = []Fault{
	{Call: "open", Kind: "eintr"}, {Call: "read", Kind: "eintr"}, {Call: "write", Kind: "eintr"}, {Call: "fsync", Kind: "eintr"},
	{Call: "read", Kind: "short"}, {Call: "read", Kind: "short"}, {Call: "write", Kind: "short"}, {Call: "write", Kind: "short"},
}

func addr(r *simkit.Rng, l []Fault, p int) Fault {
	f := l[r.Intn(len(l))]
	f.P = p
	f.Arg = r.Intn(100000)
	switch {
	case f.Call == "read" || f.Call == "write":
		f.N = 1 + r.Intn(3)*r.Intn(2)
	case f.Call == "open" || f.Call == "close" || f.Call == "chmod":
		f.N = r.Range(1, 3)
	case f.Call == "stat":
		f.N = r.Range(1, 12)
	default:
		f.N = r.Range(1, 2)
	}
	if f.Kind != "eintr" && f.Kind != "eio" && r.P(.25) || f.Kind == "eio" && r.P(.1) {
		f.Stay = true
	}
	return f
}

func crash(r *simkit.Rng, p int) Fault {
	f := Fault{P: p, Kind: r.Pick("kill", "power"), N: r.Range(1, 34), Arg: r.Intn(2)}
	if r.P(.35) {
		f.Call = r.Pick("write", "fsync", "rename", "close", "chmod", "open")
		f.N = r.Range(1, 3)
		if f.Call == "write" && f.Kind == "kill" {
			f.Arg = r.Intn(100000)
		}
	}
	return f
}

// place decides where the file is and how the commands address it.
func place(r *simkit.Rng, sc *Scen, s, name string) {
	path := name
	if path == "" {
		path = r.Pick("", "", "", ".drone.yml", "./.drone.yml", "/w/.drone.yml", "ci.yml", "sub/../.drone.yml", "sub/.drone.yml")
		if strings.Contains(path, "sub/") {
			sc.Files = append(sc.Files, File{Path: "/w/sub", Kind: "d"})
		}
	}
	real := abs(path)
	if strings.Contains(real, "sub/../") {
		real = "/w/.drone.yml"
	}
	real = strings.Replace(real, "/./", "/", 1)
	f := File{Path: real, Kind: "f", Text: s, Mode: []uint32{0644, 0644, 0644, 0600, 0664, 0640, 0755, 0400}[r.Intn(8)]}
	if r.P(.3) {
		link := real
		switch r.Intn(4) {
		case 0:
			f.Path = "/w/conf/real.yml"
			sc.Files = append(sc.Files, File{Path: link, Kind: "l", Text: f.Path})
		case 1:
			f.Path = "/tmp/real.yml"
			sc.Files = append(sc.Files, File{Path: link, Kind: "l", Text: f.Path})
		case 2:
			f.Path = "/w/conf/real.yml"
			sc.Files = append(sc.Files, File{Path: "/w/middle", Kind: "l", Text: "conf"}, File{Path: link, Kind: "l", Text: "/w/middle/real.yml"})
		default:
			f.Path = link[:strings.LastIndex(link, "/")] + "/real.yml"
			sc.Files = append(sc.Files, File{Path: link, Kind: "l", Text: "real.yml"})
		}
	}
	sc.Files = append(sc.Files, f)
	if r.P(.2) {
		sc.Files = append(sc.Files, File{Path: r.Pick("/w/other.txt", "/w/.drone.yml.tmp", "/w/.drone.yml~", "/tmp/x"), Kind: "f", Text: "unrelated\n"})
	}
	for i := range sc.Procs {
		sc.Procs[i].Path = path
	}
}

func base(r *simkit.Rng) *Scen {
	return &Scen{Sched: r.U64(), Style: r.Intn(3), Power: r.U64(), Seed: r.U64() >> 2}
}

func genC04(r *simkit.Rng, thorough bool) interface{} {
	sc := base(r)
	n := r.Range(1, 6)
	max := 12
	if thorough {
		max = 40
	}
	p := Proc{Op: "client"}
	for i := 0; i < n; i++ {
		s, _ := text(r, false)
		sc.Files = append(sc.Files, File{Path: "/w/" + string(rune('a'+i)) + ".yml", Kind: "f", Text: s})
	}
	sc.Files = append(sc.Files, File{Path: "/w/dir", Kind: "d"})
	for i, m := 0, r.Range(1, max); i < m; i++ {
		f := string(rune('a'+r.Intn(n))) + ".yml"
		if r.P(.12) {
			f = r.Pick("missing.yml", "dir", "a.yml/x", "")
		}
		p.Extra = append(p.Extra, r.Pick("F:", "R:")+f)
	}
	sc.Procs = []Proc{p}
	l := []Fault{{Call: "open", Kind: "eacces"}, {Call: "open", Kind: "emfile"}, {Call: "open", Kind: "eio"}, {Call: "open", Kind: "eintr"}, {Call: "read", Kind: "eio"}, {Call: "read", Kind: "eintr"}, {Call: "read", Kind: "short"}, {Call: "close", Kind: "eio"}, {Call: "close", Kind: "eio"}, {Call: "close", Kind: "eintr"}, {Call: "stat", Kind: "eio"}}
	for i, m := 0, r.Intn(5); i < m; i++ {
		f := addr(r, l, 0)
		f.N = r.Range(1, 2*len(p.Extra))
		sc.Faults = append(sc.Faults, f)
	}
	return sc
}

var saving = []string{"fmt", "fmt", "convert", "sign", "sign"}
var all = []string{"fmt", "convert", "sign", "lint", "verify", "compile"}

func genC13(r *simkit.Rng, thorough bool) interface{} {
	sc := base(r)
	sc.Procs = []Proc{proc(r, saving, 1)}
	s, name := text(r, sc.Procs[0].Op == "convert")
	place(r, sc, s, name)
	if r.P(.4) {
		for i, n := 0, r.Range(1, 2); i < n; i++ {
			l := hardFaults
			if r.P(.4) {
				l = softFaults
			}
			sc.Faults = append(sc.Faults, addr(r, l, 0))
		}
	}
	if r.P(.1) {
		sc.Procs[0].Free = 1 + r.Intn(400)
	}
	return sc
}

func genC14(r *simkit.Rng, thorough bool) interface{} {
	sc := base(r)
	sc.Procs = []Proc{proc(r, all, .75)}
	s, name := text(r, sc.Procs[0].Op == "convert")
	if r.P(.2) {
		s = (&yamlgen.G{R: r}).Broken(s)
	}
	place(r, sc, s, name)
	switch r.Intn(10) {
	case 0, 1:
		sc.Procs[0].Free = 1 + r.Intn(600)
	case 2:
		sc.Uid = 1000
		for i := range sc.Files {
			f := &sc.Files[i]
			if r.P(.7) {
				f.Uid = 1000
			}
			if f.Kind == "f" && r.P(.4) {
				f.Mode = []uint32{1, 0400, 0200, 0444, 0622, 0606}[r.Intn(6)]
			}
		}
		if r.P(.4) {
			sc.Files = append(sc.Files, File{Path: "/w", Kind: "d", Mode: 0555, Uid: 1000})
		}
	case 3:
		for i := range sc.Files {
			if f := &sc.Files[i]; f.Kind == "f" && r.P(.7) {
				f.Path += ".gone"
			}
		}
	}
	for i, n := 0, r.Intn(4); i < n; i++ {
		l := hardFaults
		if r.P(.15) {
			l = softFaults
		}
		sc.Faults = append(sc.Faults, addr(r, l, 0))
	}
	return sc
}

func genC15(r *simkit.Rng, thorough bool) interface{} {
	sc := base(r)
	sc.Procs = []Proc{proc(r, all, .35)}
	s, name := text(r, sc.Procs[0].Op == "convert")
	if sc.Procs[0].Op == "verify" && r.P(.5) {
		if b, err := signer.SignUpdate([]byte(s), signer.KeyString(sc.Procs[0].Key)); err == nil {
			s = string(b)
		}
	}
	if op := sc.Procs[0].Op; name == "" && (op == "fmt" && r.P(.15) || op == "compile" && r.P(.05) || op == "convert" && r.P(.05)) {
		// a result beyond the sizes of buffers
		var b strings.Builder
		b.WriteString("kind: pipeline\nname: default\nsteps:\n- name: a\n  image: golang\n  commands:\n")
		for i, n := 0, []int{2000, 2000, 4500, 9000, 18000, 36000, 72000}[r.Intn(7)]; i < n; i++ {
			fmt.Fprintf(&b, "  - echo %d\n", i)
		}
		s = b.String()
	}
	place(r, sc, s, name)
	soft := r.P(.5)
	for i, n := 0, r.Range(1, 4); i < n; i++ {
		l := softFaults
		if !soft && r.P(.6) {
			l = hardFaults
			if r.P(.4) {
				l = []Fault{{Call: "write", Kind: "epipe"}, {Call: "write", Kind: "enospc"}, {Call: "write", Kind: "eio"}, {Call: "read", Kind: "eio"}}
			}
		}
		sc.Faults = append(sc.Faults, addr(r, l, 0))
	}
	if !soft && r.P(.15) {
		sc.Procs[0].Free = 1 + r.Intn(600)
	}
	return sc
}

func genC16(r *simkit.Rng, thorough bool) interface{} {
	sc := base(r)
	n := 2 + r.Intn(3)
	if thorough && r.P(.3) {
		n = 5
	}
	ops := []string{"fmt", "fmt", "sign", "sign", "convert", "verify", "lint", "fmt"}
	foreign := r.P(.1)
	if foreign {
		ops = []string{"convert", "convert", "convert", "lint"}
	}
	for i := 0; i < n; i++ {
		p := proc(r, ops, .75)
		if r.P(.2) {
			p.Phase = r.Intn(2)
		}
		sc.Procs = append(sc.Procs, p)
	}
	var s, name string
	for i := 0; i < 6; i++ {
		s, name = text(r, foreign)
		if expect(&Proc{Op: "fmt"}, s).ok || foreign && name != "" {
			break
		}
	}
	place(r, sc, s, name)
	for i := range sc.Files {
		if sc.Files[i].Kind == "f" {
			sc.Files[i].Mode = 0644
		}
	}
	return sc
}

func genC17(r *simkit.Rng, thorough bool) interface{} {
	sc := base(r)
	n := r.Range(2, 6)
	if thorough {
		n = r.Range(2, 14)
	}
	ops := []string{"sign", "sign", "fmt", "fmt", "convert", "verify", "edit"}
	for i := 0; i < n; i++ {
		p := proc(r, ops, .85)
		p.Phase = i
		if p.Op == "edit" {
			p.Text, _ = text(r, false)
		}
		if r.P(.08) {
			p.Free = 1 + r.Intn(600)
		}
		sc.Procs = append(sc.Procs, p)
		if p.Op == "edit" {
			continue
		}
		switch {
		case r.P(.25):
			sc.Faults = append(sc.Faults, crash(r, i))
		case r.P(.25):
			sc.Faults = append(sc.Faults, addr(r, hardFaults, i))
			if r.P(.3) {
				sc.Faults = append(sc.Faults, crash(r, i))
			}
		case r.P(.1):
			sc.Faults = append(sc.Faults, addr(r, softFaults, i))
		}
	}
	var s, name string
	for i := 0; i < 3; i++ {
		s, name = text(r, false)
		if expect(&Proc{Op: "fmt"}, s).ok {
			break
		}
	}
	place(r, sc, s, name)
	return sc
}

func genC18(r *simkit.Rng, thorough bool) interface{} {
	sc := base(r)
	n := r.Range(1, 3)
	for i := 0; i < n; i++ {
		p := proc(r, all, 0)
		p.Phase = r.Intn(2)
		sc.Procs = append(sc.Procs, p)
		for j, m := 0, r.Intn(3); j < m; j++ {
			l := hardFaults
			if r.P(.4) {
				l = softFaults
			}
			sc.Faults = append(sc.Faults, addr(r, l, i))
		}
		if r.P(.1) {
			sc.Faults = append(sc.Faults, crash(r, i))
		}
	}
	s, name := text(r, true)
	place(r, sc, s, name)
	if r.P(.1) {
		for i := range sc.Files {
			if f := &sc.Files[i]; f.Kind == "f" {
				f.Path += ".gone"
			}
		}
	}
	return sc
}
