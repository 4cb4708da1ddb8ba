package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"regexp"
	"runtime"
	"strings"
	"time"

	goyaml "github.com/buildkite/yaml"

	"verif.local/sim/simkit"
	"verif.local/sim/yamlgen"
)

// ---- C39: hostile and damaged content ----

// Hostile scenario: a server handles the configurations of several owners,
// some of which arrive damaged.
type Hostile struct {
	Scen
	Bytes int `json:"bytes,omitempty"` // damaged bytes, counted by the generator
	Nodes int `json:"nodes,omitempty"` // replaced values
	Cuts  int `json:"cuts,omitempty"`
}

var keysKnown = strings.Fields(`kind type name version platform os arch variant clone depth disable skip_verify
 concurrency limit workspace base path steps services volumes temp medium size_limit host image_pull_secrets node
 trigger when depends_on branch event ref repo status instance target cron paths action include exclude matrix
 image build push args cache_from context dockerfile labels pull detach user shell entrypoint command commands dns
 dns_search extra_hosts network_mode settings environment from_secret failure privileged working_dir devices ports
 port protocol resources limits requests cpu memory data get key external external_data hmac spec schedule deploy deployment
 pipeline branches secrets source driver driver_opts vault local
 stages stage script before_script after_script variables alias allow_failure only except default
 pipelines step definitions tags caches`)

type mutator struct {
	r     *simkit.Rng
	nodes []interface{}
	left  int
	done  int
	at    int
	seen  int
}

// count visits all values below v.
func (m *mutator) collect(v interface{}) {
	m.nodes = append(m.nodes, v)
	switch v := v.(type) {
	case goyaml.MapSlice:
		for _, e := range v {
			m.collect(e.Value)
		}
	case []interface{}:
		for _, e := range v {
			m.collect(e)
		}
	}
}

// value returns something that may stand in the place of old.
func (m *mutator) value(old interface{}) interface{} {
	r := m.r
	switch r.Intn(16) {
	case 0, 1, 2, 3:
		return nil
	case 4:
		return r.Pick("", "~", "x", "0", ":", "a:b", "a:b:c:d", "=", "$${x}", "refs/**", "[", "{{ .x }}", "\n", "\x00", "/", "http://[::1", "1g", "-1", "default", "null", "0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef", "sha256:0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef", "A/B:c", "a@sha256:0")
	case 5:
		return []interface{}{0, -1, 1, 1 << 40, -(1 << 62), uint64(1<<64 - 1), 0.5, 1e300, -1e-300}[r.Intn(9)]
	case 6:
		return r.P(0.5)
	case 7:
		return []interface{}{}
	case 8:
		return goyaml.MapSlice{}
	case 9:
		return []interface{}{nil}
	case 10:
		return goyaml.MapSlice{{Key: keysKnown[r.Intn(len(keysKnown))], Value: nil}}
	case 11:
		return []interface{}{old}
	case 12:
		return goyaml.MapSlice{{Key: keysKnown[r.Intn(len(keysKnown))], Value: old}}
	case 13:
		return []interface{}{old, nil, old}
	case 14:
		v := old
		for i, n := 0, r.Range(1, 60); i < n; i++ {
			v = []interface{}{v}
		}
		return v
	default:
		if len(m.nodes) == 0 {
			return nil
		}
		return m.nodes[r.Intn(len(m.nodes))]
	}
}

// change returns v with its k-th value (in order of visits) changed.
func (m *mutator) change(v interface{}, depth int) interface{} {
	m.seen++
	if m.seen == m.at {
		m.done++
		r := m.r
		switch v := v.(type) {
		case goyaml.MapSlice:
			n := append(goyaml.MapSlice{}, v...)
			switch r.Intn(7) {
			case 3, 4:
				// an entry of another mapping
				for try := 0; try < 8; try++ {
					o, ok := m.nodes[r.Intn(len(m.nodes))].(goyaml.MapSlice)
					if !ok || len(o) == 0 {
						continue
					}
					e := o[r.Intn(len(o))]
					for i := range n {
						if n[i].Key == e.Key {
							n[i].Value = e.Value
							return n
						}
					}
					return append(n, e)
				}
			case 0:
				return append(n, goyaml.MapItem{Key: keysKnown[r.Intn(len(keysKnown))], Value: m.value(v)})
			case 1:
				if len(n) > 0 {
					i := r.Intn(len(n))
					return append(n[:i], n[i+1:]...)
				}
			case 2:
				if len(n) > 0 {
					n[r.Intn(len(n))].Key = []interface{}{nil, 1, true, "", "<<", ".x", 1.5, "-"}[r.Intn(8)]
					return n
				}
			}
		case []interface{}:
			n := append([]interface{}{}, v...)
			switch r.Intn(4) {
			case 0, 1:
				i := r.Intn(len(n) + 1)
				n = append(n, nil)
				copy(n[i+1:], n[i:])
				n[i] = nil
				if r.P(0.4) {
					n[i] = m.value(v)
				}
				return n
			case 2:
				if len(n) > 0 {
					i := r.Intn(len(n))
					return append(n[:i], n[i+1:]...)
				}
			}
		}
		return m.value(v)
	}
	switch v := v.(type) {
	case goyaml.MapSlice:
		n := append(goyaml.MapSlice{}, v...)
		for i := range n {
			n[i].Value = m.change(n[i].Value, depth+1)
		}
		return n
	case []interface{}:
		n := append([]interface{}{}, v...)
		for i := range n {
			n[i] = m.change(n[i], depth+1)
		}
		return n
	}
	return v
}

// mutate replaces some values of the documents in text.
func mutate(r *simkit.Rng, text string) (string, int) {
	parts := strings.Split(text, "\n---\n")
	which := r.Intn(len(parts))
	var tree goyaml.MapSlice
	body := strings.TrimPrefix(parts[which], "---\n")
	if err := goyaml.Unmarshal([]byte(body), &tree); err != nil || len(tree) == 0 {
		return text, 0
	}
	done := 0
	var v interface{} = tree
	for i, n := 0, r.Range(1, 3); i < n; i++ {
		m := &mutator{r: r}
		m.collect(v)
		m.at = 1 + r.Intn(len(m.nodes))
		if m.at == 1 && r.P(0.7) {
			m.at = 1 + r.Intn(len(m.nodes))
		}
		v = m.change(v, 0)
		done += m.done
	}
	out, err := goyaml.Marshal(v)
	if err != nil || len(out) > 1<<17 {
		return text, 0
	}
	parts[which] = strings.TrimSuffix(string(out), "\n")
	if which == 0 && strings.HasPrefix(text, "---\n") {
		parts[0] = "---\n" + parts[0]
	}
	return strings.Join(parts, "\n---\n") + "\n", done
}

// full is a pipeline that uses every part of the syntax.
const full = `kind: pipeline
type: docker
name: full
platform: { os: linux, arch: arm, variant: v7, version: 1809 }
clone: { depth: 50, disable: false, skip_verify: true }
concurrency: { limit: 2 }
workspace: { base: /drone, path: src }
node: { disk: ssd }
image_pull_secrets: [ dockerconfig ]
steps:
- name: one
  image: golang:1.11
  pull: always
  user: root
  entrypoint: [ /bin/sh ]
  command: [ -c ]
  dns: [ 8.8.8.8 ]
  dns_search: [ example.com ]
  extra_hosts: [ "a:127.0.0.1" ]
  network_mode: host
  environment: { A: b, C: { from_secret: c } }
  settings: { repo: x, tags: [ a, b ], map: { a: b }, password: { from_secret: p } }
  privileged: true
  working_dir: /x
  failure: ignore
  devices: [ { name: d, path: /dev/d } ]
  ports: [ 80, { port: 90, host: 91, protocol: udp } ]
  resources: { limits: { cpu: 1.5, memory: 1g }, requests: { cpu: 1, memory: 5 } }
  volumes: [ { name: v, path: /v } ]
  when: { branch: [ master ], event: { include: [ push ], exclude: [ tag ] }, status: [ success, failure ], paths: [ a ], matrix: { A: b } }
- name: two
  build: { image: a/b, args: { a: b }, cache_from: [ c ], context: ., dockerfile: D, labels: { l: m } }
  push: { image: a/b }
  detach: true
  depends_on: [ one ]
- name: three
  image: alpine
  shell: bash
  commands: [ echo a, echo b ]
  depends_on: [ one, clone ]
services:
- name: db
  image: mysql
  ports: [ 3306 ]
  environment: { MYSQL_ROOT_PASSWORD: x }
volumes:
- { name: v, temp: { medium: memory, size_limit: 1m } }
- { name: h, host: { path: /var } }
trigger: { branch: [ master ], cron: { exclude: [ nightly ] } }
depends_on: [ other ]
`

const fullGitlab = `image: { name: golang, entrypoint: [ /bin/sh ] }
services: [ redis, { name: postgres, alias: db, command: [ a ], entrypoint: [ b ] } ]
variables: { A: b }
before_script: [ echo a ]
after_script: echo z
stages: [ build, test ]
job one:
  stage: build
  image: node
  script: [ a, b ]
  services: [ x ]
  before_script: c
  only: [ master ]
  allow_failure: true
job two:
  stage: test
  script: x
.hidden: &tpl
  script: y
`

const fullBitbucket = `image: node
clone: { depth: 5 }
definitions:
  services:
    redis: { image: redis, variables: { A: b } }
  caches: { a: b }
pipelines:
  default:
  - step: { name: a, image: golang, script: [ x, y ], variables: { A: b }, artifacts: [ d ] }
  - step: { script: [ z ] }
  tags:
    "v*": [ step: { script: [ t ] } ]
  branches:
    master: [ step: { script: [ m ] } ]
    "feature/*": [ step: { script: [ f ] } ]
`

const fullLegacy = `workspace: { base: /go, path: src }
clone: { git: { image: plugins/git, depth: 50 } }
pipeline:
  build:
    image: golang:${GO}
    commands: [ go build, echo ${DB} ]
    environment: [ A=b, C=${DB} ]
    secrets: [ token, { source: a, target: b } ]
    volumes: [ /a:/b, "/c:/d:ro" ]
    dns: 8.8.8.8
    extra_hosts: [ "a:1.2.3.4" ]
    privileged: true
    pull: true
    when: { branch: master, event: [ push, deployment ], matrix: { GO: 1.11 }, status: [ changed, failure ] }
  publish:
    image: plugins/docker
    repo: a/b
    tags: [ a, b ]
    opts: { a: { b: c } }
    when: { event: { include: [ tag ], exclude: push } }
services:
  db: { image: "mysql:${DB}", environment: { A: b }, entrypoint: [ x ], command: y }
matrix:
  GO: [ 1.11, 1.12 ]
  DB: [ 5.6, 5.7 ]
branches: { include: [ master, release/* ], exclude: [ x ] }
secrets:
  s: { driver: vault, driver_opts: { path: a, key: b } }
  t: { path: x }
  u: { vault: y }
`

func genC39(r *simkit.Rng, thorough bool) interface{} {
	g := &yamlgen.G{R: r}
	s := &Hostile{Scen: Scen{MapSeed: r.U64(), Ent: genEntropy(r)}}
	for i, n := 0, r.Range(2, 6); i < n; i++ {
		kind := r.Pick("yaml", "yaml", "yaml", "gitlab", "bitbucket", "legacy", "legacy")
		d := genDoc(g, kind)
		if r.P(0.6) {
			switch kind {
			case "yaml":
				d.Text = full
				if r.P(0.2) {
					d.Text = Text("---\n" + full + "---\n" + g.Other())
				}
			case "gitlab":
				d.Text = fullGitlab
			case "bitbucket":
				d.Text = fullBitbucket
			case "legacy":
				d.Text = fullLegacy
			}
		}
		if i > 0 && r.P(0.3) {
			s.Docs = append(s.Docs, d) // an innocent one
			continue
		}
		if r.P(0.85) {
			t, k := mutate(r, string(d.Text))
			d.Text = Text(t)
			s.Nodes += k
		}
		if r.P(0.15) {
			d.Text = Text(g.Broken(string(d.Text)))
			s.Bytes++
		}
		if len(d.Text) > 0 && r.P(0.08) {
			d.Text = d.Text[:r.Intn(len(d.Text))]
			s.Cuts++
		}
		if r.P(0.1) {
			d.URL = r.Pick("http://[::1", "%", ":", "//", "a b", "http://", "https://u:p@h:x/", "git@github.com:a/b.git", "\x7f")
			s.Bytes++
		}
		if r.P(0.1) {
			d.Ref = r.Pick("", "refs", "refs/tags/", "refs/heads/[", "refs/heads/\\", "[-]")
			s.Bytes++
		}
		if r.P(0.03) {
			d.Kind = r.Pick("yaml", "gitlab", "bitbucket", "legacy")
		}
		s.Docs = append(s.Docs, d)
	}
	for i, n := 0, r.Range(1, 2); i < n; i++ {
		c := genComp(r)
		c.Wait, c.Nest = false, false
		s.Comps = append(s.Comps, c)
	}
	next := 0
	for t, n := 0, r.Range(1, 3); t < n; t++ {
		var ops []Op
		for i, k := 0, r.Range(1, 3); i < k; i++ {
			d := next % len(s.Docs)
			next++
			op := Op{K: "admit", D: d, C: r.Intn(len(s.Comps)), Trust: r.P(0.7), Key: r.Intn(len(keys))}
			if r.P(0.3) {
				op.K = r.Pick("lintall", "print", "json", "unjson", "encode", "sign", "signupdate", "verify", "writeto", "convert", "parseraw")
				op.Own = true
			}
			ops = append(ops, op)
		}
		s.Tasks = append(s.Tasks, ops)
	}
	s.Sched = genSched(r)
	return s
}

var frameName = regexp.MustCompile(`(?m)^github\.com/drone/drone-yaml/([^\s(]*(?:\([^)]*\)[^\s(]*)?)\(`)

// panicSite names the innermost function of the repository on the stack.
func panicSite() string {
	buf := make([]byte, 1<<16)
	st := string(buf[:runtime.Stack(buf, false)])
	if i := strings.LastIndex(st, "\npanic("); i >= 0 {
		st = st[i:]
	}
	if m := frameName.FindStringSubmatch(st); m != nil {
		return m[1]
	}
	return "?"
}

func runC39(raw json.RawMessage, proc int) (o simkit.Outcome) {
	s := new(Hostile)
	if err := json.Unmarshal(raw, s); err != nil {
		o.Err = "scenario: " + err.Error()
		return
	}
	for _, d := range s.Docs {
		if len(d.Text) > 1<<18 {
			o.Err = "document too long"
			return
		}
		// expansion of nested aliases happens in the yaml package alone
		if bytes.Count([]byte(d.Text), []byte("*")) > 40 {
			o.Triv = true
		}
	}
	s.Ent.install()
	w := newWorld(&s.Scen, true)
	rr := w.exec(s.Sched, s.MapSeed, 0)
	if !progress(&o, rr, "") {
		return
	}
	if len(s.Tasks) > 1 {
		fix := *s
		fix.Sched = Sched{Slices: rr.Slices}
		o.Fixed, _ = json.Marshal(fix)
	}
	o.Fault("context-switch", rr.Switches)
	o.Fault("damaged-bytes", s.Bytes)
	o.Fault("replaced-values", s.Nodes)
	o.Fault("cut-short", s.Cuts)
	o.State = slicesHash(rr.Slices)
	o.Triv = o.Triv || s.Bytes+s.Nodes+s.Cuts == 0
	h := uint64(0)
	for t := range s.Tasks {
		for i, op := range s.Tasks[t] {
			v := w.vals[t][i]
			if v.site != "" {
				o.Failf("panic:"+v.site, "%s: the process dies of: %s (in %s)\ninput:\n%s", opName(&s.Scen, t, i), v.note, v.site, s.Docs[op.D%len(s.Docs)].Text)
				return
			}
			h = simkit.HashStr(h, v.text)
			switch {
			case v.err != nil:
				o.Probe("refused:" + op.K)
			case op.K == "admit":
				o.Probe("admitted")
			}
		}
	}
	// what the others get does not depend on the hostile ones
	for t := range s.Tasks {
		for i, op := range s.Tasks[t] {
			alone := s.Scen
			alone.Tasks = [][]Op{{op}}
			a := newWorld(&alone, false)
			ar := a.exec(Sched{Mode: "serial"}, s.MapSeed, time.Hour)
			if !progress(&o, ar, "alone-") {
				return
			}
			if got, want := w.vals[t][i].text, a.vals[0][0].text; got != want {
				// a result that varies by itself was not influenced (see C05, C07)
				varies := false
				for k := uint64(1); k <= 8 && !varies; k++ {
					x := newWorld(&alone, false)
					xr := x.exec(Sched{Mode: "serial"}, s.MapSeed^k<<20, time.Hour)
					if !progress(&o, xr, "alone-") {
						return
					}
					varies = x.vals[0][0].text != want
				}
				if varies {
					o.Probe("varies-alone")
					continue
				}
				o.Failf("other-result", "%s returned another result than when handled alone.\n%s", opName(&s.Scen, t, i), diffAt(want, got))
				return
			}
		}
	}
	o.Digest = simkit.Mix(h, o.State)
	return
}

// admit is what a server does with a configuration: convert it, parse it,
// check it, and use what was accepted in every way.
func (w *world) admit(t, i int, op Op, v *Value) {
	d := op.D % len(w.docs)
	src := w.s.Docs[d]
	b, err := convertDoc(w.docs[d], src)
	if err != nil {
		v.err = err
		return
	}
	m, err := parseDoc(b)
	if err != nil {
		v.err = err
		return
	}
	res := []string{string(b)}
	res = append(res, formatAll(b, m, w.key(op))...)
	c := w.comps[op.C%len(w.comps)]
	if op.Own && len(w.s.Comps) > 0 {
		c = w.s.Comps[op.C%len(w.comps)].build(w.park)
	}
	n := 0
	for _, r := range m.Resources {
		if err := lintOne(r, op.Trust); err != nil {
			res = append(res, "refused: "+err.Error())
			v.err = fmt.Errorf("refused: %v", err)
			continue
		}
		if p := pipelineOf(r); p != nil {
			res = append(res, Canon(Dump(c.c.Compile(p))))
			n++
		}
	}
	v.v = append(res, fmt.Sprint(n))
}
