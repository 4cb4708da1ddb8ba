package main

import (
	"fmt"
	"strings"

	"verif.local/sim/simkit"
)

var secretNames = []string{"s1", "s2", "password", "token", "docker_auth", "key", "Token", "S1", "my.secret-1"}

// images that exist in a registry.
var imageList = []string{
	"golang", "golang:1.11", "golang:1.12", "alpine", "node:10", "docker.io/library/golang:1.11", "index.docker.io/library/alpine:3",
	"library/redis:5", "redis", "postgres:9", "acme/tool", "acme/tool:v1", "quay.io/acme/x:2", "gcr.io/p/img", "localhost:5000/a/b:1",
	"golang@sha256:0123456789012345678901234567890123456789012345678901234567890123", "microsoft/nanoserver:1809",
}

// plugins; some of them are whitelisted.
var pluginList = []string{
	"plugins/docker", "plugins/docker:18", "docker.io/plugins/docker", "plugins/slack", "plugins/ecr:latest", "plugins/gcr", "index.docker.io/plugins/docker:17",
	"acme/plugin", "quay.io/acme/plugin:1",
}

// lookalikes of whitelisted plugins.
var lookalikes = []string{
	"plugins/docker-evil", "evil.example/plugins/docker", "quay.io/plugins/docker", "evilplugins/docker", "plugins/dockerx:18", "plugins/docker/sub", "library/docker", "docker.io/library/docker", "gcr.io/plugins/docker:latest",
	"localhost:5000/plugins/docker", "plugins/gcrx", "docker",
}

// names of images that steps build.
var buildList = []string{"acme/app", "acme/app:v1", "acme/other", "quay.io/acme/app:2", "reg.example.com/team/app", "plugins/docker", "plugins/docker:18", "golang", "golang:1.11", "redis", "drone/git", "drone/docker", "plugins/slack", "docker.io/acme/app"}

func init() {
	for _, l := range [][]string{imageList, pluginList, lookalikes, {"drone/git", "drone/docker", "reg.example.com/team/app", "reg.example.com/team/base"}} {
		for _, i := range l {
			r, _ := canon(i)
			registry[r] = true
		}
	}
}

// weights are the probabilities of features.
type weights struct {
	graph, svc, detach, fail, faults, hostile, odd, skip, sel, secrets, vols, build, host, cancel, win, ops, status, restart, same float64
	tenants, steps                                                                                                                 int
}

var weigh = map[string]weights{
	"C19": {graph: .6, svc: .7, detach: .2, fail: .2, faults: .3, skip: .2, sel: .2, secrets: .1, vols: .2, build: .15, host: .1, cancel: .03, win: .1, ops: .2, status: .2, restart: .03, same: .1, tenants: 2, steps: 5},
	"C20": {graph: 1, svc: .4, detach: .2, fail: .3, faults: .4, skip: .3, sel: .2, secrets: .1, vols: .1, build: .1, host: .05, cancel: .05, win: .05, ops: .1, status: .4, restart: .03, same: .1, tenants: 2, steps: 8},
	"C21": {graph: 0, svc: .5, detach: .25, fail: .3, faults: .4, skip: .3, sel: .2, secrets: .1, vols: .1, build: .2, host: .1, win: .1, ops: .2, status: .3, restart: .03, same: .1, tenants: 2, steps: 8},
	"C22": {graph: .5, svc: .3, detach: .2, fail: .6, faults: .9, skip: .15, sel: .1, secrets: .1, vols: .1, build: .1, host: .05, cancel: .02, win: .05, ops: .1, status: .7, restart: .06, same: .1, tenants: 2, steps: 7},
	"C23": {graph: .6, svc: .5, detach: .2, fail: .3, faults: .3, odd: .35, skip: .2, sel: .2, secrets: .2, vols: .3, build: .3, host: .1, cancel: .05, win: .1, ops: .4, status: .3, restart: .03, same: .15, tenants: 2, steps: 6},
	"C24": {graph: .4, svc: .4, detach: .2, fail: .2, faults: .2, skip: .1, sel: .15, secrets: .1, vols: .95, build: .1, host: .25, win: .2, ops: .3, status: .2, restart: .02, same: .15, tenants: 2, steps: 5},
	"C25": {graph: .4, svc: .4, detach: .2, fail: .2, faults: .2, hostile: .7, odd: .1, skip: .1, sel: .1, secrets: .5, vols: .5, build: .4, host: .1, cancel: .03, win: .1, ops: .5, status: .2, restart: .02, same: .35, tenants: 4, steps: 4},
	"C26": {graph: .4, svc: .4, detach: .2, fail: .2, faults: .2, skip: .4, sel: .4, secrets: 1, vols: .1, build: .1, win: .05, ops: .3, status: .3, restart: .02, same: .3, tenants: 3, steps: 6},
	"C27": {graph: .5, svc: .4, detach: .2, fail: .3, faults: .4, skip: .7, sel: .7, secrets: .3, vols: .1, build: .1, host: .05, win: .05, ops: .2, status: .4, restart: .02, same: .15, tenants: 2, steps: 7},
	"C28": {graph: .4, svc: .9, detach: .5, fail: .3, faults: .5, skip: .2, sel: .15, secrets: .1, vols: .2, build: .1, host: .05, cancel: .05, win: .05, ops: .2, status: .3, restart: .1, same: .1, tenants: 2, steps: 5},
}

type gener struct {
	r *simkit.Rng
	w weights
	p *Pipe
	t *Tenant
	// hostile: this tenant tries to break out
	hostile bool
	odd     bool
}

func genProp(id string) func(r *simkit.Rng, thorough bool) interface{} {
	return func(r *simkit.Rng, thorough bool) interface{} {
		w := weigh[id]
		if thorough && r.P(.3) {
			w.steps *= 2
			w.tenants += 2
		}
		s := &Scen{Lat: r.U64(), MapSeed: r.U64(), Ent: r.U64()}
		if r.P(.4) {
			s.Slow = r.Range(2, 12)
		}
		n := r.Range(1, w.tenants)
		if r.P(.3) {
			n = 1
		}
		if id == "C25" && n == 1 && r.P(.6) {
			n = 2
		}
		for i := 0; i < n; i++ {
			s.Tenants = append(s.Tenants, genTenant(r, w, s, i))
		}
		if r.P(w.restart) {
			s.Restart = r.Range(1, 900000)
		}
		return s
	}
}

func genTenant(r *simkit.Rng, w weights, s *Scen, i int) Tenant {
	t := Tenant{Org: i, Start: r.Intn(3) * r.Intn(200000)}
	if i > 0 && r.P(.3) {
		t.Org = s.Tenants[r.Intn(i)].Org
	}
	g := &gener{r: r, w: w, t: &t, p: &t.P, hostile: r.P(w.hostile), odd: r.P(w.odd)}
	t.Trusted = r.P(.35)
	if g.hostile {
		t.Trusted = r.P(.08)
	}
	if r.P(.3) {
		t.Extra = r.Intn(8)
	}
	g.settings()
	if i > 0 && r.P(w.same) {
		k := r.Intn(i)
		for s.Tenants[k].Same > 0 {
			k = s.Tenants[k].Same - 1
		}
		t.Same = k + 1
		t.P = s.Tenants[k].P
		t.Trusted = s.Tenants[k].Trusted
		if r.P(.4) {
			t.Org, t.Comp = s.Tenants[k].Org, true
			t.S = s.Tenants[k].S
		}
	} else {
		g.pipe()
	}
	g.faults()
	if r.P(w.cancel) {
		t.Cancel = r.Range(1, 500000)
	}
	return t
}

func (g *gener) settings() {
	r, s := g.r, &g.t.S
	s.Perm = r.U64()
	if r.P(.4 * g.w.ops) {
		s.Env = map[string]string{"OPER": "yes", "DRONE_BRANCH": "master"}
		if r.P(.3) {
			s.Env["FOO"] = "operator"
		}
	}
	if r.P(.4 * g.w.ops) {
		s.Labels = map[string]string{"io.drone": "1"}
		if r.P(.5) {
			s.Labels["io.drone.repo"], s.Labels["zone"] = "octocat/x", "b"
		}
	}
	if r.P(.25 * g.w.ops) {
		s.Volumes = map[string]string{r.Pick("/var/cache", "/srv/data"): r.Pick("/cache", "/data")}
		s.VolSlice = r.P(.5)
	}
	if r.P(.2 * g.w.ops) {
		s.Networks = []string{"extra"}
		if r.P(.5) {
			s.Networks = []string{"extra", "another"}
		}
	}
	if r.P(.5*g.w.ops) || r.P(.1) {
		s.Auths = []string{"reg.example.com"}
		if r.P(.3) {
			s.Auths = append(s.Auths, "docker.io")
		}
		s.AuthFunc = r.P(.4)
	}
	if r.P(.2 * g.w.ops) {
		s.Mem = 1 << 29
	}
	s.Netrc = r.P(.4 * g.w.ops)
	s.Creds = r.P(.4 * g.w.ops)
	if r.P(.6*g.w.ops) || g.w.hostile > 0 && r.P(.85) {
		s.Dind = [][]string{{"plugins/docker", "plugins/ecr", "plugins/gcr"}, {"plugins/docker"}, {"docker.io/plugins/docker", "acme/plugin"}, {"plugins/docker:18", "plugins/ecr"}, {"plugins/slack"}}[r.Intn(5)]
	}
	if r.P(g.w.host) {
		s.Host = r.Pick("/home/u/src", "/home/u/src", "/tmp/checkout")
	}
	if r.P(g.w.secrets) || r.P(.05) {
		s.Secrets = r.Pick("map", "fresh", "shared", "shared")
		for _, n := range secretNames {
			if r.P(.12) {
				s.Unknown = append(s.Unknown, n)
			}
		}
		if r.P(.6) {
			s.ProvLat = r.Range(1, 30000)
		}
	}
	if r.P(g.w.skip) {
		s.Skip = true
		s.Build = map[string]string{
			"branch": r.Pick("master", "develop", "feature/a", "feature/a/b"), "event": r.Pick("push", "pull_request", "tag", "promote"),
			"instance": "drone.company.com", "ref": r.Pick("refs/heads/master", "refs/tags/v1.0.0", "refs/pull/42/head"), "repo": r.Pick("octocat/hello-world", "spaceghost/x"),
		}
		if r.P(.3) {
			s.Build["cron"] = r.Pick("nightly", "hourly")
		}
		if r.P(.3) {
			s.Build["target"] = r.Pick("production", "staging")
		}
		if r.P(.3) {
			s.Build["action"] = r.Pick("opened", "sync")
		}
	}
}

var stepNames = []string{"build", "test", "deploy", "notify", "lint", "publish", "a b", "Build", "1", "step-x", "pkg_y", "ünicode", "zz", "y1", "y2", "y3", "y4", "y5", "y6", "y7", ".git-credentials", ".netrc", "workspace", "_workspace"}
var svcNames = []string{"redis", "db", "cache", "Redis", "svc 4"}

func (g *gener) pipe() {
	r, p := g.r, g.p
	p.Name = r.Pick("default", "main", "pipe-x")
	graph := r.P(g.w.graph)
	p.NoCl = r.P(.2)
	if r.P(.2) {
		p.Depth = r.Range(1, 50)
	}
	if r.P(.3) {
		p.OS, p.Arch = "linux", r.Pick("amd64", "arm", "arm64", "")
	}
	if r.P(g.w.win) {
		p.OS, p.Arch = "windows", "amd64"
	}
	if r.P(.35) {
		p.Base = r.Pick("/go", "/drone/src", "/work", "/a/b", "/go/", "/a//b", "/a/./b")
	}
	if r.P(.35) {
		p.Path = r.Pick("src/x", "src/github.com/o/r", "y", ".", "../up", "/src/app", "/src/app/", "src/", "./z", "/", "a//b")
		if p.Path == "../up" && !(p.Base == "/a/b") {
			p.Path = "sub/../y"
		}
	}
	p.Flavor = r.Intn(3)
	g.volumes()
	ns := r.Range(1, g.w.steps)
	names := append([]string(nil), stepNames...)
	if r.P(.5) {
		for i := range names {
			j := r.Intn(i + 1)
			names[i], names[j] = names[j], names[i]
		}
	}
	if p.NoCl && r.P(.15) {
		names[r.Intn(ns)] = "clone"
	}
	nv := 0
	if r.P(g.w.svc) {
		nv = r.Range(1, 3)
	}
	for i := 0; i < nv; i++ {
		p.Svcs = append(p.Svcs, g.ctr(svcNames[i], true))
	}
	var builds []int
	for i := 0; i < ns; i++ {
		c := g.ctr(names[i], false)
		if c.Kind == "build" {
			builds = append(builds, i)
		} else if len(builds) > 0 && r.P(.4) && c.Pull == "" {
			// uses what was built
			c.Image = p.Steps[builds[r.Intn(len(builds))]].Build
			c.Pull = ""
		}
		p.Steps = append(p.Steps, c)
	}
	if len(builds) == 0 {
		for i := range p.Steps {
			_ = i
		}
	}
	if graph {
		g.graph()
	}
	g.selection()
	if g.odd {
		for k := r.Range(1, 2); k > 0; k-- {
			g.break1()
		}
	}
}

// graph declares dependencies.
func (g *gener) graph() {
	r, p := g.r, g.p
	dens := r.Pick("chain", "fan", "random", "random", "sparse")
	some := false
	for i := range p.Steps {
		c := &p.Steps[i]
		for k := 0; k < i; k++ {
			q := 0.0
			switch dens {
			case "chain":
				if k == i-1 {
					q = .85
				}
			case "fan":
				if k == 0 || i == len(p.Steps)-1 {
					q = .8
				}
			case "random":
				q = .35
			case "sparse":
				q = .12
			}
			if r.P(q) {
				c.Deps = append(c.Deps, p.Steps[k].Name)
				some = true
			}
		}
		if !p.NoCl && r.P(.1) {
			c.Deps = append(c.Deps, "clone")
			some = true
		}
		if len(c.Deps) > 1 && r.P(.3) {
			c.Deps[0], c.Deps[len(c.Deps)-1] = c.Deps[len(c.Deps)-1], c.Deps[0]
		}
		if len(c.Deps) > 0 && r.P(.04) {
			c.Deps = append(c.Deps, c.Deps[0])
		}
	}
	for i := range p.Svcs {
		if !r.P(.35) {
			continue
		}
		c := &p.Svcs[i]
		switch {
		case i > 0 && r.P(.5):
			c.Deps = append(c.Deps, p.Svcs[r.Intn(i)].Name)
		case !p.NoCl && r.P(.4):
			c.Deps = append(c.Deps, "clone")
		default:
			c.Deps = append(c.Deps, p.Steps[r.Intn(len(p.Steps))].Name)
		}
		some = true
	}
	if !some && len(p.Steps) > 1 {
		p.Steps[len(p.Steps)-1].Deps = []string{p.Steps[0].Name}
	}
}

func (g *gener) volumes() {
	r, p := g.r, g.p
	if !r.P(g.w.vols) {
		return
	}
	names := []string{"cache", "data", "v3", "Cache"}
	if r.P(.3) {
		names[r.Intn(len(names))] = r.Pick("host", "docker", "_workspace2", "workspaces", "tmp")
	}
	for i := 0; i < r.Range(1, 3); i++ {
		v := Vol{Name: names[i], Kind: "temp"}
		switch {
		case (g.t.Trusted || g.hostile && r.P(.15)) && r.P(.3):
			v.Kind, v.Path = "host", r.Pick("/var/lib/x", "/etc", "/", "/var/run/docker.sock", "/dev/xvda")
			if r.P(.2) {
				v.Kind = "both"
			}
		case (g.t.Trusted || g.hostile && r.P(.15)) && r.P(.25):
			v.Kind = "memory"
		case r.P(.1):
			v.Medium = r.Pick("disk", "ssd", "Memory", "hugepages")
		}
		if v.Kind != "host" && r.P(.15) {
			v.Size = r.Pick("1GiB", "512MiB", "100", "0", "64k")
		}
		p.Vols = append(p.Vols, v)
	}
	if r.P(.03) {
		p.Vols = append(p.Vols, p.Vols[0])
	}
	if g.hostile && r.P(.1) {
		p.Vols[0].Name = r.Pick("_docker_socket", "workspace", "_workspace")
	}
}

func (g *gener) image() string {
	l := imageList
	return l[g.r.Intn(len(l))]
}

func (g *gener) ctr(name string, svc bool) Ctr {
	r := g.r
	c := Ctr{Name: name, Kind: "cmd"}
	switch {
	case svc:
		c.Kind = "bare"
		c.Image = r.Pick("redis", "postgres:9", "acme/tool:v1")
		if r.P(.2) {
			c.Kind = "cmd"
		}
		if r.P(.15) {
			c.Detach = r.P(.5)
		}
		if r.P(.04) || g.hostile && r.P(.25) {
			c.SBuild, c.BForm = buildList[r.Intn(len(buildList))], r.Intn(2)
		}
	case r.P(g.w.build):
		c.Kind = "build"
		c.Build = buildList[r.Intn(len(buildList))]
		if !g.hostile && r.P(.6) {
			c.Build = buildList[r.Intn(5)]
		}
		c.BForm = r.Intn(2)
		if g.hostile && r.P(.3) {
			c.Image = pluginList[r.Intn(3)]
		}
	case r.P(.3):
		c.Kind = "plugin"
		c.Image = pluginList[r.Intn(len(pluginList))]
	case r.P(.1):
		c.Kind = "bare"
		c.Image = g.image()
	default:
		c.Image = g.image()
	}
	if !svc && c.Kind != "build" && r.P(.04) {
		c.Image = r.Pick("reg.example.com/team/app", "reg.example.com/team/base:2")
		if len(g.t.S.Auths) == 0 && r.P(.7) {
			c.Image = "golang:1.11"
		}
	}
	if c.Kind == "build" {
		c.When = g.when()
		c.Fail = g.failure()
		if r.P(.1) {
			c.Mem = r.Pick("1GiB", "100MiB")
		}
		c.Detach = r.P(.03)
		return c
	}
	if !svc && r.P(g.w.detach) {
		c.Detach = true
	}
	if c.Kind == "cmd" {
		for k := r.Intn(3); k > 0; k-- {
			c.Cmds = append(c.Cmds, r.Pick("go build", "echo $FOO", "echo \"a'b\"", "make -j4 > out", "", "echo line\necho two", "ls -l *"))
		}
	}
	if r.P(.35) {
		c.Env = map[string]string{}
		for k := r.Range(1, 3); k > 0; k-- {
			c.Env[r.Pick("FOO", "GOOS", "A_B", "lower", "X1")] = r.Pick("bar", "linux", "", "a b", "x=y", "true", "1.0")
		}
	}
	if r.P(.6*g.w.secrets) && (g.t.S.Secrets != "" || r.P(.1)) {
		c.EnvSec = map[string]string{}
		for k := r.Range(1, 2); k > 0; k-- {
			c.EnvSec[r.Pick("SECRET", "TOKEN", "password", "KEY2")] = secretNames[r.Intn(len(secretNames))]
		}
	}
	if c.Kind == "plugin" {
		if r.P(.5) {
			c.Set = map[string]string{r.Pick("repo", "tag", "some_Key"): r.Pick("octocat/x", "latest", "a,b")}
		}
		if r.P(.25) {
			for k := r.Range(1, 3); k > 0; k-- {
				c.Any = append(c.Any, r.Intn(len(anyValues)))
			}
		}
		if r.P(.5 * g.w.secrets) {
			c.SetSec = map[string]string{r.Pick("password", "auth", "Token_x"): secretNames[r.Intn(len(secretNames))]}
		}
	}
	if r.P(.06) {
		c.Null = r.Range(1, 2)
	}
	used := map[string]bool{}
	for k, v := range g.p.Vols {
		if r.P(.5) {
			m := Mnt{v.Name, r.Pick("/cache", "/var/lib/data", "/mnt/"+v.Name, "/root/.m2", "/vol", fmt.Sprint("/v", k))}
			if r.P(.13) {
				base := g.p.Base
				if base == "" {
					base = "/drone/src"
				}
				m.Path = base + "/vendor"
				// next to the workspace and above it
				switch k := r.Intn(5); {
				case k == 0:
					m.Path = base + r.Pick("2", "x", "-cache")
				case k == 1 && len(base) > 3:
					m.Path = base[:len(base)-1]
				case k == 2 && strings.Count(base, "/") > 1:
					m.Path = base[:strings.LastIndex(base, "/")]
				}
			}
			if g.p.OS == "windows" && r.P(.5) {
				m.Path = "c:\\" + fmt.Sprint("v", k)
			}
			for _, o := range g.t.S.Volumes {
				used[o] = true
			}
			if used[m.Path] && r.P(.95) {
				continue
			}
			used[m.Path] = true
			c.Vols = append(c.Vols, m)
		}
	}
	if r.P(.02) {
		c.Vols = append(c.Vols, Mnt{"undeclared", "/undeclared"})
	}
	c.NoDeps = r.P(.05)
	c.When = g.when()
	c.Fail = g.failure()
	if r.P(.15) {
		c.Pull = r.Pick("always", "if-not-exists")
	}
	if r.P(.1) {
		c.User = r.Pick("root", "1000")
	}
	if r.P(.06) && c.Kind == "bare" {
		c.Entry = []string{"/bin/server"}
	}
	if r.P(.06) && c.Kind == "bare" {
		c.Args = []string{"--verbose"}
	}
	if r.P(.15) && svc || r.P(.02) {
		c.Port = r.Range(80, 9000)
		if r.P(.3) {
			g.ports(&c)
		}
	}
	if r.P(.08) {
		c.Mem = r.Pick("1GiB", "100MiB", "52428800")
	}
	if r.P(.08) {
		c.Cwd = r.Pick("/tmp", "/drone")
	}
	if g.t.Trusted && r.P(.2) || g.hostile && r.P(.12) {
		g.escape(&c)
	}
	if g.hostile {
		g.trick(&c, svc)
	}
	return c
}

// ports adds further ports, which need no trust.
func (g *gener) ports(c *Ctr) {
	r := g.r
	for k := r.Intn(4); k > 0; k-- {
		p := Prt{Port: r.Range(80, 9000), Short: r.P(.5)}
		if r.P(.4) {
			p.Proto = r.Pick("tcp", "udp", "TCP")
		}
		c.Ports = append(c.Ports, p)
	}
	if len(c.Ports) > 0 && c.HPort != 0 && r.P(.5) {
		// the host port anywhere in the list
		p := &c.Ports[r.Intn(len(c.Ports))]
		p.Host, c.HPort = c.HPort, 0
	}
}

// escape asks for something that only trusted pipelines may have.
func (g *gener) escape(c *Ctr) {
	r := g.r
	switch r.Intn(6) {
	case 0:
		c.Priv = true
	case 1:
		c.Dev = true
	case 2:
		c.DNS = true
		c.DNSF = r.Intn(8)
	case 3:
		c.Net = r.Pick("host", "bridge", "container:abc")
	case 4:
		c.Port, c.HPort = 80, r.Range(1, 9999)
		g.ports(c)
	case 5:
		c.Vols = append(c.Vols, Mnt{r.Pick("_docker_socket", "workspace", "_workspace", "host", "docker_socket"), r.Pick("/var/run/docker.sock", "/x")})
	}
}

// trick tries to get more by combining what is allowed.
func (g *gener) trick(c *Ctr, svc bool) {
	r := g.r
	switch r.Intn(9) {
	case 0: // whitelisted plugin with something of one's own to run
		if c.Kind == "plugin" || c.Kind == "bare" {
			c.Image = pluginList[r.Intn(3)]
			switch r.Intn(3) {
			case 0:
				c.Entry = []string{"/bin/sh", "-c", "id"}
			case 1:
				c.Args = []string{"id"}
			case 2:
				c.Kind = "cmd"
			}
		}
	case 1:
		c.Image = lookalikes[r.Intn(len(lookalikes))]
		if r.P(.5) {
			c.Entry, c.Args = nil, nil
			c.Kind = "plugin"
		}
	case 2:
		if !svc {
			c.Kind, c.Image = "plugin", pluginList[r.Intn(3)]
			c.Entry, c.Args = nil, nil
		}
	case 3:
		c.Vols = append(c.Vols, Mnt{r.Pick("_docker_socket", "host", "undeclared"), r.Pick("/var/run/docker.sock", "/host")})
	case 4:
		if svc {
			c.Image = pluginList[r.Intn(3)]
		}
	case 5:
		c.Env = map[string]string{"DOCKER_BUILD_IMAGE_ALIAS": r.Pick("golang:1.11", "plugins/docker"), "DRONE_WORKSPACE": "/etc"}
	}
}

func (g *gener) failure() string {
	if g.r.P(.2 * (g.w.fail + .2)) {
		return g.r.Pick("ignore", "ignore", "Ignore", "IGNORE", "fail", "always")
	}
	return ""
}

func (g *gener) when() map[string]Cond {
	r := g.r
	m := map[string]Cond{}
	if r.P(g.w.status) {
		m["status"] = []Cond{
			{Inc: []string{"failure"}}, {Inc: []string{"failure"}}, {Inc: []string{"success", "failure"}}, {Inc: []string{"success"}}, {Inc: []string{"failure", "success"}, Form: 1},
			{Exc: []string{"success"}}, {Exc: []string{"failure"}}, {Inc: []string{"failure"}, Exc: []string{"success"}}, {Inc: []string{"success", "failure"}, Form: 2},
			{Inc: []string{"failure"}, Form: 2}, {Inc: []string{"f*"}}, {Inc: []string{"*"}}, {Inc: []string{"killed"}},
			{Inc: []string{"success", "failure"}, Exc: []string{"failure"}}, {Inc: []string{"failure"}, Exc: []string{"failure"}}, {Inc: []string{"success"}, Exc: []string{"success"}},
			{Inc: []string{"success", "failure"}, Exc: []string{"success"}}, {Inc: []string{"success"}, Exc: []string{"failure"}}, {Exc: []string{"success", "failure"}},
		}[r.Intn(19)]
	}
	if g.t.S.Skip && r.P(.45) || r.P(.05) {
		for k := r.Range(1, 2); k > 0; k-- {
			key := whenKeys[r.Intn(len(whenKeys))]
			m[key] = g.cond(key)
		}
	}
	if len(m) == 0 {
		return nil
	}
	return m
}

var condVals = map[string][]string{
	"branch": {"master", "develop", "feature/*", "feature/**", "*", "feature/a", "release-*"}, "event": {"push", "pull_request", "tag", "promote", "p*"},
	"instance": {"drone.company.com", "*.company.com", "other.com"}, "ref": {"refs/heads/master", "refs/heads/*", "refs/tags/*", "refs/**", "refs/pull/*/head"},
	"repo": {"octocat/hello-world", "octocat/*", "spaceghost/*", "*/x"}, "cron": {"nightly", "hourly"}, "target": {"production", "staging"}, "action": {"opened", "sync"},
}

func (g *gener) cond(key string) Cond {
	r := g.r
	pick := func() []string {
		l := condVals[key]
		o := []string{l[r.Intn(len(l))]}
		if r.P(.3) {
			o = append(o, l[r.Intn(len(l))])
		}
		return o
	}
	c := Cond{Form: r.Intn(3)}
	switch r.Intn(4) {
	case 0:
		c.Exc = pick()
	case 1:
		c.Inc, c.Exc = pick(), pick()
	default:
		c.Inc = pick()
	}
	return c
}

// selection of the operator.
func (g *gener) selection() {
	r, s := g.r, &g.t.S
	if !r.P(g.w.sel) {
		return
	}
	var all []string
	for _, c := range g.p.Svcs {
		all = append(all, c.Name)
	}
	for _, c := range g.p.Steps {
		all = append(all, c.Name)
	}
	sub := func() []string {
		var l []string
		for _, n := range all {
			if r.P(.45) {
				l = append(l, n)
			}
		}
		if r.P(.15) {
			l = append(l, r.Pick("clone", "nothing", "BUILD"))
		}
		return l
	}
	switch r.Intn(4) {
	case 0:
		s.Include = sub()
	case 1:
		s.Exclude = sub()
	case 2:
		s.Resume = all[r.Intn(len(all))]
		if r.P(.1) {
			s.Resume = r.Pick("clone", "nothing")
		}
	case 3:
		s.Include, s.Exclude = sub(), sub()
		if r.P(.3) {
			s.Resume = all[r.Intn(len(all))]
		}
	}
}

// break1 makes the configuration odd in one way.
func (g *gener) break1() {
	r, p := g.r, g.p
	all := []*Ctr{}
	for i := range p.Steps {
		all = append(all, &p.Steps[i])
	}
	nsteps := len(all)
	for i := range p.Svcs {
		all = append(all, &p.Svcs[i])
	}
	any := func() *Ctr { return all[r.Intn(len(all))] }
	step := func() *Ctr { return all[r.Intn(nsteps)] }
	switch r.Intn(11) {
	case 0: // cycle, perhaps of length one
		a, b := any(), any()
		a.Deps = append(a.Deps, b.Name)
		if r.P(.6) {
			b.Deps = append(b.Deps, a.Name)
		}
	case 1: // unknown
		c := any()
		c.Deps = append(c.Deps, r.Pick("nothing", "", "BUILD", "clone"))
	case 2: // duplicate
		any().Name = any().Name
	case 3: // a step named like the clone
		any().Name = "clone"
	case 4: // forward reference
		i := r.Intn(nsteps)
		all[i].Deps = append(all[i].Deps, all[r.Range(i, nsteps-1)].Name)
	case 5: // step depends on service
		if len(p.Svcs) > 0 {
			c := step()
			c.Deps = append(c.Deps, p.Svcs[r.Intn(len(p.Svcs))].Name)
		}
	case 6: // service depends on anything
		if len(p.Svcs) > 0 {
			c := &p.Svcs[r.Intn(len(p.Svcs))]
			c.Deps = append(c.Deps, r.Pick(any().Name, "nothing", c.Name, "clone"))
		}
	case 7:
		any().Name = ""
	case 8:
		c := any()
		if len(p.Svcs) > 0 && r.P(.4) {
			c = &p.Svcs[r.Intn(len(p.Svcs))]
			c.SBuild = r.Pick("", "acme/svc", "redis:custom")
		}
		c.Image = ""
		if c.Kind == "build" {
			c.Kind, c.Build = "bare", ""
		}
	case 9:
		p.OS = r.Pick("plan9", "Linux", "linux")
	case 10:
		if len(p.Vols) > 0 {
			p.Vols[0].Name = r.Pick("workspace", "_workspace", "_docker_socket")
		}
	}
}

func (g *gener) faults() {
	r := g.r
	if !r.P(g.w.faults) && !r.P(g.w.fail*.5) {
		return
	}
	var names []string
	p := g.p
	if !p.NoCl {
		names = append(names, "clone")
	}
	for _, c := range p.Steps {
		names = append(names, c.Name, c.Name, c.Name)
	}
	for _, c := range p.Svcs {
		names = append(names, c.Name)
	}
	for k := r.Range(1, 3); k > 0; k-- {
		f := Fault{Step: names[r.Intn(len(names))]}
		switch x := r.Intn(20); {
		case x < 10:
			f.Op = "exit"
			f.Code = []int{1, 1, 2, 137, 255, 78, 0, 1}[r.Intn(8)]
		case x < 12:
			f.Op = "create"
		case x < 14:
			f.Op = "start"
		case x == 14:
			f.Op = "tail"
		case x == 15:
			f.Op = "wait"
		case x < 18:
			f.Op = "oom"
			f.Code = []int{137, 0, 1}[r.Intn(3)]
		case x == 18:
			f.Op = "lag"
		default:
			f.Op = "setup"
			f.Step = ""
			if r.P(.7) {
				f.Op, f.Step = "exit", names[r.Intn(len(names))]
				f.Code = 1
			}
		}
		g.t.Faults = append(g.t.Faults, f)
	}
}
