// Package yamlgen generates configuration texts from a seed.
package yamlgen

import (
	"fmt"
	"strings"

	"verif.local/sim/simkit"
)

// G generates texts.
type G struct {
	R *simkit.Rng
	// Names from which steps, secrets etc. are drawn; small on purpose.
	n int
}

var words = []string{"build", "test", "deploy", "lint", "notify", "cache", "e2e", "db", "redis", "publish", "Zeta", "alpha", "fmt", "ünïcode"}
var images = []string{"golang:1.11", "golang", "node:10", "alpine", "plugins/docker", "plugins/slack:1", "redis:5", "octocat/hello-world", "octocat/hello-world:latest", "gcr.io/acme/app:v1", "docker.io/library/alpine:latest", "index.docker.io/foo/bar"}
var branches = []string{"master", "develop", "feature/*", "release/**", "v1"}
var events = []string{"push", "pull_request", "tag", "promote"}

// Word returns a name.
func (g *G) Word() string { return words[g.R.Intn(len(words))] }

// Image returns an image reference.
func (g *G) Image() string { return images[g.R.Intn(len(images))] }

func (g *G) scalar() string {
	switch g.R.Intn(12) {
	case 0:
		return fmt.Sprint(g.R.Intn(100))
	case 1:
		return "true"
	case 2:
		return "1.5"
	case 3:
		return `"a b # c"`
	case 4:
		return "'it''s'"
	case 5:
		return "${FOO}"
	case 6:
		return `"line1\nline2"`
	case 7:
		return "~"
	case 8:
		return "über"
	default:
		return "v" + fmt.Sprint(g.R.Intn(1000))
	}
}

type w struct{ b strings.Builder }

func (w *w) p(ind int, f string, a ...interface{}) {
	w.b.WriteString(strings.Repeat(" ", ind))
	fmt.Fprintf(&w.b, f, a...)
	w.b.WriteByte('\n')
}

func (g *G) list(w *w, ind int, key string, pool []string, max int) {
	n := g.R.Range(1, max)
	w.p(ind, "%s:", key)
	for i := 0; i < n; i++ {
		w.p(ind, "- %s", pool[g.R.Intn(len(pool))])
	}
}

func (g *G) cond(w *w, ind int) {
	any := false
	for _, k := range []string{"branch", "event", "ref", "repo", "instance", "cron", "target", "action", "status"} {
		if !g.R.P(0.16) {
			continue
		}
		any = true
		pool := branches
		switch k {
		case "event":
			pool = events
		case "status":
			pool = []string{"success", "failure", "changed"}
		}
		switch g.R.Intn(4) {
		case 0:
			w.p(ind, "%s: %s", k, pool[g.R.Intn(len(pool))])
		case 1:
			w.p(ind, "%s: [ %s, %s ]", k, pool[g.R.Intn(len(pool))], pool[g.R.Intn(len(pool))])
		case 2:
			w.p(ind, "%s:", k)
			g.list(w, ind+2, "include", pool, 2)
		default:
			w.p(ind, "%s:", k)
			g.list(w, ind+2, "exclude", pool, 2)
		}
	}
	if !any {
		w.p(ind, "branch: master")
	}
}

func (g *G) envmap(w *w, ind int, key string, n int, setting bool) {
	w.p(ind, "%s:", key)
	seen := map[string]bool{}
	for i := 0; i < n; i++ {
		k := fmt.Sprintf("%s_%d", g.R.Pick("KEY", "var", "Mixed", "foo", "FOO"), g.R.Intn(6))
		if seen[k] {
			continue
		}
		seen[k] = true
		switch {
		case g.R.P(0.35):
			w.p(ind+2, "%s:", k)
			w.p(ind+4, "from_secret: %s", g.R.Pick("token", "password", "docker_user", "SSH", "s1", "s2", "s3"))
		case setting && g.R.P(0.2):
			w.p(ind+2, "%s: [ a, b, %d ]", k, g.R.Intn(9))
		case setting && g.R.P(0.12):
			w.p(ind+2, "%s: { %s }", k, g.R.Pick("Key: 1, key: 2, KEY: 3, kEY: 4", "b: 1, B: 2, a: 3, A: 4", "2: a, 10: b, 1: c", "true: a, false: b, \"true\": c", "x_1: 1, X-1: 2, x1: 3", "é: 1, e: 2, É: 3", "1: a, \"1\": b, 1.0: c"))
		case setting && g.R.P(0.2):
			w.p(ind+2, "%s:", k)
			w.p(ind+4, "zeta: 1")
			w.p(ind+4, "alpha: [ x, { q: 1, a: 2 } ]")
			w.p(ind+4, "mid: { c: d, b: %s }", g.scalar())
		default:
			w.p(ind+2, "%s: %s", k, g.scalar())
		}
	}
}

// Container writes one step or service.
func (g *G) Container(w *w, ind int, name string, deps []string, vols []string, svc bool) {
	r := g.R
	w.p(ind, "- name: %s", name)
	ind += 2
	if !svc && r.P(0.12) {
		if r.P(0.5) {
			w.p(ind, "build: %s", g.Image())
		} else {
			w.p(ind, "build:")
			w.p(ind+2, "image: %s", g.Image())
			if r.P(0.5) {
				w.p(ind+2, "context: dir")
				w.p(ind+2, "args: { z: 1, a: 2, m: 3 }")
				w.p(ind+2, "cache_from: [ a, b ]")
				w.p(ind+2, "labels: { q: r, b: c }")
			}
		}
	} else {
		w.p(ind, "image: %s", g.Image())
	}
	if r.P(0.1) {
		w.p(ind, "pull: %s", r.Pick("always", "never", "if-not-exists"))
	}
	if r.P(0.6) {
		w.p(ind, "commands:")
		for i, n := 0, r.Range(1, 4); i < n; i++ {
			w.p(ind, "- %s", r.Pick("go build", "go test ./...", `echo "hi $USER"`, "make", "|-\n"+strings.Repeat(" ", ind+2)+"multi\n"+strings.Repeat(" ", ind+2)+"line"))
		}
	}
	if r.P(0.1) {
		w.p(ind, "command: [ run, --fast ]")
	}
	if r.P(0.1) {
		w.p(ind, "entrypoint: [ /bin/app ]")
	}
	if r.P(0.08) {
		w.p(ind, "detach: true")
	}
	if r.P(0.1) {
		w.p(ind, "failure: ignore")
	}
	if r.P(0.5) {
		g.envmap(w, ind, "environment", r.Range(1, 12), false)
	}
	if r.P(0.4) {
		g.envmap(w, ind, "settings", r.Range(1, 10), true)
	}
	if len(deps) > 0 && r.P(0.4) {
		g.list(w, ind, "depends_on", deps, 3)
	}
	if len(vols) > 0 && r.P(0.5) {
		w.p(ind, "volumes:")
		for i, n := 0, r.Range(1, 2); i < n; i++ {
			w.p(ind, "- name: %s", vols[r.Intn(len(vols))])
			w.p(ind, "  path: /mnt/%d", i)
		}
	}
	if r.P(0.1) {
		w.p(ind, "ports: [ 80, \"8080:80/udp\" ]")
	}
	if r.P(0.07) {
		w.p(ind, "privileged: true")
	}
	if r.P(0.07) {
		w.p(ind, "dns: [ 1.1.1.1, 8.8.8.8 ]")
	}
	if r.P(0.06) {
		w.p(ind, "extra_hosts: [ \"a:1.1.1.1\" ]")
	}
	if r.P(0.06) {
		w.p(ind, "network_mode: host")
	}
	if r.P(0.06) {
		w.p(ind, "user: %d", r.Intn(1000))
	}
	if r.P(0.06) {
		w.p(ind, "working_dir: /work")
	}
	if r.P(0.1) {
		w.p(ind, "resources:")
		w.p(ind+2, "limits: { cpu: 1.5, memory: 1GiB }")
		w.p(ind+2, "requests: { cpu: 0.5, memory: 512MiB }")
	}
	if r.P(0.3) {
		w.p(ind, "when:")
		g.cond(w, ind+2)
	}
}

// Pipeline returns one pipeline document.
func (g *G) Pipeline(name string) string {
	r := g.R
	w := &w{}
	if r.P(0.95) {
		w.p(0, "kind: pipeline")
	}
	if r.P(0.2) {
		w.p(0, "type: docker")
	}
	w.p(0, "name: %s", name)
	w.p(0, "")
	if r.P(0.25) {
		w.p(0, "platform:")
		w.p(2, "os: %s", r.Pick("linux", "windows", "linux", "plan9"))
		w.p(2, "arch: %s", r.Pick("amd64", "arm64", "arm"))
	}
	if r.P(0.25) {
		w.p(0, "clone:")
		switch r.Intn(3) {
		case 0:
			w.p(2, "disable: true")
		default:
			w.p(2, "depth: %d", r.Intn(60))
			w.p(2, "skip_verify: true")
		}
	}
	if r.P(0.2) {
		w.p(0, "workspace:")
		w.p(2, "base: %s", r.Pick("/go", "/data/w", "/x"))
		w.p(2, "path: %s", r.Pick("src/github.com/octocat/hello", "y", "."))
	}
	if r.P(0.15) {
		w.p(0, "concurrency: { limit: %d }", r.Intn(5))
	}
	if r.P(0.2) {
		w.p(0, "node: { zone: a, disk: ssd, arch: arm, cpu: big, m1: x, m2: y, m3: z, m4: q, m5: w, m6: e }")
	}
	if r.P(0.2) {
		g.list(w, 0, "image_pull_secrets", []string{"dockerconfig", "acr"}, 2)
	}
	var vols []string
	if r.P(0.4) {
		w.p(0, "volumes:")
		for i, n := 0, r.Range(1, 3); i < n; i++ {
			v := fmt.Sprintf("vol%d", i)
			vols = append(vols, v)
			w.p(0, "- name: %s", v)
			switch r.Intn(4) {
			case 0:
				w.p(2, "host:")
				w.p(4, "path: /var/lib/%s", v)
			case 1:
				w.p(2, "temp:")
				w.p(4, "medium: memory")
				w.p(4, "size_limit: 1GiB")
			default:
				w.p(2, "temp: {}")
			}
		}
	}
	steps := r.Range(1, 5)
	var names []string
	w.p(0, "steps:")
	graph := r.P(0.5)
	for i := 0; i < steps; i++ {
		n := fmt.Sprintf("%s-%d", g.Word(), i)
		if r.P(0.04) {
			n = "clone"
		}
		deps := names
		if !graph {
			deps = nil
		}
		g.Container(w, 0, n, deps, vols, false)
		names = append(names, n)
	}
	if r.P(0.35) {
		w.p(0, "")
		w.p(0, "services:")
		for i, n := 0, r.Range(1, 2); i < n; i++ {
			d := []string{}
			if r.P(0.3) {
				d = names
			}
			g.Container(w, 0, fmt.Sprintf("svc-%d", i), d, vols, true)
		}
	}
	if r.P(0.3) {
		w.p(0, "trigger:")
		g.cond(w, 2)
	}
	if r.P(0.2) {
		g.list(w, 0, "depends_on", []string{"p0", "p1", "other"}, 2)
	}
	return w.b.String()
}

// Other returns a non-pipeline document.
func (g *G) Other() string {
	r := g.R
	w := &w{}
	switch r.Intn(4) {
	case 0:
		w.p(0, "kind: secret")
		w.p(0, "name: %s", g.Word())
		if r.P(0.5) {
			w.p(0, "data: %s", strings.Repeat("YWJjZGVm", r.Range(1, 12)))
		} else {
			w.p(0, "get: { path: secret/data/x, name: y }")
		}
	case 1:
		w.p(0, "kind: cron")
		w.p(0, "name: nightly")
		w.p(0, "spec:")
		w.p(2, "schedule: \"1 * * * *\"")
		w.p(2, "branch: master")
	case 2:
		w.p(0, "kind: registry")
		w.p(0, "data: %s", strings.Repeat("eyJh", r.Range(1, 9)))
	default:
		w.p(0, "kind: signature")
		w.p(0, "hmac: %s", strings.Repeat("a1b2", 16))
	}
	return w.b.String()
}

// Manifest returns a multi-document configuration.
func (g *G) Manifest() string {
	r := g.R
	var b strings.Builder
	n := r.Range(1, 3)
	if r.P(0.1) {
		n += 3
	}
	for i := 0; i < n; i++ {
		if i > 0 || r.P(0.7) {
			b.WriteString(r.Pick("---\n", "---\n", "--- # next\n", "---\n# comment\n"))
		}
		if i == 0 || r.P(0.6) {
			b.WriteString(g.Pipeline(fmt.Sprintf("p%d", i)))
		} else {
			b.WriteString(g.Other())
		}
		if r.P(0.2) {
			b.WriteString("\n")
		}
	}
	if r.P(0.2) {
		b.WriteString("...\n")
		if r.P(0.3) {
			b.WriteString("trailing: junk\n")
		}
	}
	s := b.String()
	if r.P(0.1) {
		s = strings.ReplaceAll(s, "\n", "\r\n")
	}
	if r.P(0.04) {
		l := strings.SplitAfter(s, "\n")
		for i := range l {
			if strings.HasSuffix(l[i], "\n") && r.P(0.2) {
				l[i] = strings.TrimSuffix(l[i], "\n") + r.Pick("\r\n", "\r\r\n", "\r\r\r\n")
			}
		}
		s = strings.Join(l, "")
	}
	if r.P(0.1) {
		s = strings.TrimSuffix(s, "\n")
	}
	return s
}

// Valid returns a manifest without deliberate oddities.
func (g *G) Valid() string {
	var b strings.Builder
	for i, n := 0, g.R.Range(1, 2); i < n; i++ {
		b.WriteString("---\n")
		b.WriteString("kind: pipeline\n" + strings.TrimPrefix(g.Pipeline(fmt.Sprintf("p%d", i)), "kind: pipeline\n"))
		b.WriteString("\n")
	}
	return b.String()
}

// Broken damages a text.
func (g *G) Broken(s string) string {
	r := g.R
	for i, n := 0, r.Range(1, 3); i < n && len(s) > 0; i++ {
		p := r.Intn(len(s))
		switch r.Intn(6) {
		case 0:
			s = s[:p] + "\t" + s[p:]
		case 1:
			s = s[:p] + r.Pick(":", "- ", "[", "{", "'", "&a ", "*a", "\n---\n", "\n...\n") + s[p:]
		case 2:
			s = s[:p]
		case 3:
			q := p + r.Intn(len(s)-p)
			s = s[:p] + s[q:]
		case 4:
			s = s[:p] + string(rune(r.Intn(0x300))) + s[p:]
		default:
			b := []byte(s)
			b[p] = byte(r.Intn(256))
			s = string(b)
		}
	}
	return s
}

// Gitlab returns a .gitlab-ci.yml.
func (g *G) Gitlab() string {
	r := g.R
	w := &w{}
	if r.P(0.7) {
		w.p(0, "image: %s", g.Image())
	}
	if r.P(0.3) {
		w.p(0, "before_script:\n- echo before")
	}
	if r.P(0.3) {
		w.p(0, "after_script: [ echo after ]")
	}
	if r.P(0.3) {
		w.p(0, "variables: { A: b, C: d }")
	}
	if r.P(0.3) {
		w.p(0, "services:\n- redis:latest\n- name: postgres\n  alias: db")
	}
	stages := []string{}
	if r.P(0.5) {
		w.p(0, "stages:")
		for i, n := 0, r.Range(1, 3); i < n; i++ {
			s := []string{"prepare", "build", "zdeploy", "test"}[i]
			stages = append(stages, s)
			w.p(0, "- %s", s)
		}
	}
	for i, n := 0, r.Range(2, 12); i < n; i++ {
		w.p(0, "%s %d:", g.Word(), r.Intn(40))
		if len(stages) > 0 {
			w.p(2, "stage: %s", stages[r.Intn(len(stages))])
		}
		if r.P(0.4) {
			w.p(2, "image: %s", g.Image())
		}
		w.p(2, "script:")
		w.p(2, "- run %d", i)
		if r.P(0.2) {
			w.p(2, "before_script: [ echo b%d ]", i)
		}
	}
	return dedupTop(w.b.String())
}

// dedupTop drops repeated top-level keys (yaml rejects or merges them).
func dedupTop(s string) string {
	seen := map[string]bool{}
	var out []string
	skip := false
	for _, l := range strings.Split(s, "\n") {
		if l != "" && l[0] != ' ' && l[0] != '-' {
			k := strings.SplitN(l, ":", 2)[0]
			skip = seen[k]
			seen[k] = true
		}
		if !skip {
			out = append(out, l)
		}
	}
	return strings.Join(out, "\n")
}

// Bitbucket returns a bitbucket-pipelines.yml and a ref.
func (g *G) Bitbucket() (string, string) {
	r := g.R
	w := &w{}
	if r.P(0.7) {
		w.p(0, "image: %s", g.Image())
	}
	if r.P(0.3) {
		w.p(0, "clone:\n  depth: %d", r.Intn(9))
	}
	w.p(0, "pipelines:")
	stage := func(ind int, tag string) {
		for i, n := 0, r.Range(1, 2); i < n; i++ {
			w.p(ind, "- step:")
			if r.P(0.5) {
				w.p(ind+4, "name: %s-%d", tag, i)
			}
			if r.P(0.4) {
				w.p(ind+4, "image: %s", g.Image())
			}
			w.p(ind+4, "script:")
			w.p(ind+4, "- run %s %d", tag, i)
		}
	}
	w.p(2, "default:")
	stage(2, "default")
	pats := []string{"*", "feature/*", "feature/a*", "*/abc", "master", "m*", "release-*", "r*", "**", "v?.*", "[a-z]*", "feature/abc"}
	for _, k := range []string{"branches", "tags"} {
		if r.P(0.8) {
			w.p(2, "%s:", k)
			seen := map[string]bool{}
			for i, n := 0, r.Range(2, 10); i < n; i++ {
				p := pats[r.Intn(len(pats))]
				if seen[p] {
					continue
				}
				seen[p] = true
				w.p(4, "%q:", p)
				stage(4, fmt.Sprintf("%s%d", k, i))
			}
		}
	}
	if r.P(0.6) {
		w.p(0, "definitions:")
		w.p(2, "services:")
		for i, n := 0, r.Range(1, 11); i < n; i++ {
			w.p(4, "%s%d:", []string{"redis", "pg", "mysql"}[i%3], i)
			w.p(6, "image: %s", g.Image())
		}
	}
	ref := r.Pick("refs/heads/master", "refs/heads/feature/abc", "refs/tags/v1.0", "refs/heads/release-1", "refs/heads/zzz", "")
	return w.b.String(), ref
}

// Legacy returns a pre-1.0 .drone.yml.
func (g *G) Legacy() string {
	r := g.R
	w := &w{}
	if r.P(0.3) {
		w.p(0, "workspace:\n  base: /go\n  path: src/x")
	}
	anchors := r.P(0.15)
	if anchors {
		w.p(0, "defaults: &defaults\n  image: golang\n  environment:\n  - A=b")
	}
	if r.P(0.2) {
		w.p(0, "clone:\n  git:\n    image: plugins/git\n    depth: 50")
	}
	whole := r.P(0.12)
	if whole {
		w.p(0, "common: &common")
		for i, n := 0, r.Range(1, 6); i < n; i++ {
			w.p(2, "%s-%d:\n    image: %s\n    commands: [ echo common ]", g.Word(), r.Intn(3), g.Image())
		}
	}
	w.p(0, "pipeline:")
	for i, n := 0, r.Range(1, 4); i < n; i++ {
		if whole && r.P(0.5) {
			w.p(2, "<<: *common")
			whole = false
		}
		w.p(2, "%s-%d:", g.Word(), i)
		if anchors && r.P(0.5) {
			w.p(4, "<<: *defaults")
		} else {
			w.p(4, "image: %s", r.Pick(g.Image(), "golang:${GO_VERSION}", "node:${NODE}"))
		}
		if r.P(0.6) {
			w.p(4, "commands:\n    - go test\n    - echo ${GO_VERSION} ${DB} ${NODE}")
		}
		if r.P(0.4) {
			w.p(4, "environment:\n    - Z=1\n    - A=${DB}\n    - M=x\n    - q=1\n    - b=2\n    - c=3\n    - d=4\n    - e=5\n    - f=6\n    - g=7")
		}
		if r.P(0.3) {
			w.p(4, "secrets: [ token, password ]")
		}
		if r.P(0.3) {
			w.p(4, "repo: octocat/x\n    tags: [ latest, v1 ]\n    zopt: 1\n    aopt: { %s }", r.Pick("k: v, b: c", "k: v, b: c", "1: a, \"1\": b, 1.0: c", "Key: 1, key: 2, KEY: 3"))
		}
		if r.P(0.2) {
			w.p(4, "volumes:\n    - /var/run:/var/run\n    - /tmp/a:/a")
		}
		if r.P(0.4) {
			w.p(4, "when:")
			switch r.Intn(3) {
			case 0:
				w.p(6, "branch: [ master, develop ]")
			case 1:
				w.p(6, "event: deployment")
			default:
				w.p(6, "matrix: { DB: mysql, GO_VERSION: 1.11 }")
			}
		}
	}
	if r.P(0.4) {
		w.p(0, "services:\n  database:\n    image: ${DB}:latest\n  redis:\n    image: redis")
	}
	if r.P(0.3) {
		w.p(0, "branches: [ master, release/* ]")
	}
	if r.P(0.3) {
		w.p(0, "secrets:\n  zeta: { vault: a/b }\n  alpha: { path: c/d }\n  mid: { driver: vault, driver_opts: { path: x, key: y } }")
	}
	if r.P(0.7) {
		w.p(0, "matrix:")
		if r.P(0.25) {
			w.p(2, "include:")
			for i, n := 0, r.Range(1, 3); i < n; i++ {
				w.p(2, "- GO_VERSION: \"1.%d\"\n    DB: %s\n    NODE: ${DB}%d", i, r.Pick("mysql", "pg"), i)
			}
		} else {
			axes := []string{"GO_VERSION", "DB", "NODE", "ZED", "ARCH"}
			for i, n := 0, r.Range(1, 4); i < n; i++ {
				w.p(2, "%s:", axes[i])
				for j, m := 0, r.Range(1, 3); j < m; j++ {
					w.p(2, "- %s", r.Pick(fmt.Sprintf("\"1.%d\"", j+10), fmt.Sprintf("db%d", j), fmt.Sprintf("${DB}-%d", j), fmt.Sprintf("${GO_VERSION}%d", j)))
				}
			}
		}
	}
	return w.b.String()
}
