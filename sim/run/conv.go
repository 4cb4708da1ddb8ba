package main

import (
	"encoding/base64"
	"encoding/json"
	"fmt"
	"os"
	"path"
	"sort"
	"strconv"
	"strings"

	"verif.local/sim/simkit"

	"github.com/drone/drone-yaml/yaml"
	"github.com/drone/drone-yaml/yaml/converter"
	"github.com/drone/drone-yaml/yaml/linter"
)

// Src says how a pipeline is written in the format of another system.
type Src struct {
	Kind  string `json:"kind"` // legacy, bitbucket, gitlab
	URL   string `json:"url,omitempty"`
	Image string `json:"image,omitempty"` // image of all steps without one
	Bits  uint64 `json:"bits,omitempty"`  // choices between equivalent ways of writing
	Clone int    `json:"clone,omitempty"` // legacy: steps of the clone section
	Dup   int    `json:"dup,omitempty"`   // legacy: this step has the name of the first of the clone section
	// legacy: the environment asks for an explicit clone step (the first of
	// the steps, which the configuration does not have) and for the secret
	// with the credentials of the registries
	OldClone bool   `json:"old_clone,omitempty"`
	PullSec  bool   `json:"pull_sec,omitempty"`
	Merge    bool   `json:"merge,omitempty"` // legacy: with merge keys
	RawB     string `json:"raw_b,omitempty"` // legacy: workspace base and path as written
	RawP     string `json:"raw_p,omitempty"`
	Branch   *Cond  `json:"branch,omitempty"`
	// legacy: the matrix, the combination that is meant, and conditions on it
	Axes    map[string][]string          `json:"axes,omitempty"`
	Incl    []map[string]string          `json:"incl,omitempty"`
	Pick    map[string]string            `json:"pick,omitempty"`
	Matrix  map[string]map[string]string `json:"matrix,omitempty"` // by id of the step or service
	Others  []map[string]string          `json:"others,omitempty"` // conditions of steps of other combinations
	Secrets []string                     `json:"secrets,omitempty"`
	// bitbucket: where the pipeline stands and the reference that is built
	Under   string `json:"under,omitempty"` // default, branches, tags
	Pattern string `json:"pattern,omitempty"`
	Ref     string `json:"ref,omitempty"`
	// gitlab: the stages, of which one is the pipeline
	Stages []string `json:"stages,omitempty"`
	Before []string `json:"before,omitempty"`
	After  []string `json:"after,omitempty"`
}

func (s *Src) bit(what string, n int) int {
	return int(simkit.HashStr(s.Bits, what) % uint64(n))
}

// commands of a container.
func (t *Tenant) commands(c *Ctr, id string) []string {
	if c.Kind != "cmd" {
		return nil
	}
	l := append([]string{"echo " + mark(id)}, c.Cmds...)
	if t.Src != nil && t.Src.Kind == "gitlab" && strings.HasPrefix(id, t.P.Pre+"s") {
		l = append(append(append([]string(nil), t.Src.Before...), l...), t.Src.After...)
	}
	return l
}

// text of the configuration in the other format.
func (s *Src) text(t *Tenant) (file, text string) {
	switch s.Kind {
	case "bitbucket":
		return "bitbucket-pipelines.yml", s.bitbucket(t)
	case "gitlab":
		return ".gitlab-ci.yml", s.gitlab(t)
	}
	return ".drone.yml", s.legacy(t)
}

func (s *Src) strings(what string, l []string) interface{} {
	if len(l) == 1 && s.bit(what, 2) == 0 {
		return l[0]
	}
	return l
}

func (s *Src) legacy(t *Tenant) string {
	var b strings.Builder
	p := &t.P
	ctr := func(c *Ctr, id string) {
		o := c.yaml(id)
		delete(o, "name")
		delete(o, "depends_on")
		delete(o, "settings")
		for k, v := range c.Set {
			o[k] = v
		}
		for i, k := range c.Any {
			o[fmt.Sprint("any", i)] = json.RawMessage(anyValues[k%len(anyValues)])
		}
		if c.Kind == "plugin" {
			o["sim_mark"] = mark(id)
		}
		if env, ok := o["environment"].(obj); ok {
			var list []string
			simple := true
			var secs []obj
			var short, shadowed []string
			for k, v := range env {
				if m, ok := v.(obj); ok {
					delete(env, k)
					n := m["from_secret"].(string)
					if s.bit(id+"shadow"+k, 8) == 0 {
						shadowed = append(shadowed, k)
					}
					tgt := k
					if s.bit(id+"low"+k, 2) == 0 {
						tgt = strings.ToLower(k)
					}
					if strings.ToUpper(n) == k {
						short = append(short, n)
					} else {
						secs = append(secs, obj{"source": n, "target": tgt})
					}
					continue
				}
				list = append(list, k+"="+v.(string))
				simple = simple && !strings.Contains(k, "=")
			}
			// a secret replaces the variable of the same name
			for _, k := range shadowed {
				env[k] = "shadowed"
				list = append(list, k+"=shadowed")
			}
			sort.Strings(list)
			sort.Strings(short)
			sort.Slice(secs, func(i, j int) bool { return js(secs[i]) < js(secs[j]) })
			if len(secs) == 0 && len(short) > 0 {
				o["secrets"] = short
			} else if len(secs) > 0 {
				for _, n := range short {
					secs = append(secs, obj{"source": n, "target": n})
				}
				o["secrets"] = secs
			}
			if len(list) > 0 && simple && s.bit(id+"list", 2) == 0 {
				o["environment"] = list
			}
			for k, v := range env {
				// numbers and booleans need no quotes
				if k == "COMBINATION" || k == "AXIS" {
					continue
				}
				if n, err := strconv.Atoi(fmt.Sprint(v)); v == "true" || v == "false" || err == nil && strconv.Itoa(n) == v {
					if s.bit(id+"plain"+k, 2) == 0 {
						env[k] = json.RawMessage(v.(string))
					}
				}
			}
			if len(env) == 0 {
				delete(o, "environment")
			}
		}
		var vols []string
		for _, m := range c.Vols {
			vols = append(vols, s.source(m.Name)+":"+m.Path)
		}
		if len(vols) > 0 {
			o["volumes"] = vols
		}
		if c.Pull == "always" {
			o["pull"] = true
		} else {
			delete(o, "pull")
			if s.bit(id+"pull", 4) == 0 {
				o["pull"] = false
			}
		}
		for _, k := range []string{"commands", "dns", "dns_search", "entrypoint", "command"} {
			if l, ok := o[k].([]string); ok {
				o[k] = s.strings(id+k, l)
			}
		}
		if w, ok := o["when"].(obj); ok {
			if v, ok := w["target"]; ok {
				delete(w, "target")
				w["environment"] = v
			}
			if e, ok := c.When["event"]; ok {
				old := func(l []string) (m []string) {
					for _, x := range l {
						if x == "promote" {
							x = []string{"promote", "deployment", "deploy"}[s.bit(id+"event", 3)]
						}
						m = append(m, x)
					}
					return
				}
				w["event"] = Cond{Inc: old(e.Inc), Exc: old(e.Exc), Form: e.Form}.yaml()
			}
		}
		if m, ok := s.Matrix[id]; ok {
			w, _ := o["when"].(obj)
			if w == nil {
				w = obj{}
				o["when"] = w
			}
			w["matrix"] = m
		}
		s.substitute(o, id)
		text := js(o)
		name := c.Name
		if s.Dup > 0 && s.Dup < len(p.Steps) && c == &p.Steps[s.Dup] {
			name = p.Steps[0].Name
		}
		fmt.Fprintf(&b, "  %s:\n", js(name))
		if s.Merge && s.bit(id+"merge", 2) == 0 {
			b.WriteString("    <<: *common\n")
			if s.bit(id+"image", 2) == 0 && c.Image == s.Image {
				delete(o, "image")
			}
		}
		var m map[string]json.RawMessage
		json.Unmarshal([]byte(text), &m)
		var keys []string
		for k := range m {
			if _, ok := o[k]; ok {
				keys = append(keys, k)
			}
		}
		sort.Strings(keys)
		for _, k := range keys {
			q := js(k)
			if known[k] {
				q = k
			}
			fmt.Fprintf(&b, "    %s: %s\n", q, m[k])
		}
	}
	if s.Merge {
		fmt.Fprintf(&b, "common: &common\n  image: %s\n\n", js(s.Image))
	}
	if s.RawB != "" || s.RawP != "" {
		b.WriteString("workspace:\n")
		if s.RawB != "" {
			fmt.Fprintf(&b, "  base: %s\n", js(s.RawB))
		}
		if s.RawP != "" {
			fmt.Fprintf(&b, "  path: %s\n", js(s.RawP))
		}
	}
	if s.Branch != nil {
		fmt.Fprintf(&b, "branches: %s\n", js(s.Branch.yaml()))
	}
	services := func() {
		if len(p.Svcs) > 0 {
			b.WriteString("services:\n")
			for i := range p.Svcs {
				ctr(&p.Svcs[i], p.Pre+fmt.Sprint("v", i))
			}
		}
	}
	if s.Clone > 0 {
		b.WriteString("clone:\n")
		for i := 0; i < s.Clone; i++ {
			ctr(&p.Steps[i], p.Pre+fmt.Sprint("s", i))
		}
	}
	first := s.bit("services", 2) == 0
	if first {
		services()
	}
	b.WriteString("pipeline:\n")
	start := s.Clone
	if s.OldClone {
		start = 1
	}
	for i := start; i < len(p.Steps); i++ {
		ctr(&p.Steps[i], p.Pre+fmt.Sprint("s", i))
		if i-start < len(s.Others) {
			fmt.Fprintf(&b, "  \"other %d\":\n    image: golang\n    commands: [\"echo other\"]\n    when: %s\n", i, js(obj{"matrix": s.Others[i-start]}))
		}
	}
	if !first {
		services()
	}
	if len(s.Secrets) > 0 {
		b.WriteString("secrets:\n")
		for i, n := range s.Secrets {
			switch i % 3 {
			case 0:
				fmt.Fprintf(&b, "  %s:\n    path: secret/data/%s\n", js(n), n)
			case 1:
				fmt.Fprintf(&b, "  %s:\n    vault: secret/data/%s\n", js(n), n)
			default:
				fmt.Fprintf(&b, "  %s:\n    driver: vault\n    driver_opts: {path: secret/data/%s, key: k-%s}\n", js(n), n, n)
			}
		}
	}
	if len(s.Incl) > 0 {
		fmt.Fprintf(&b, "matrix:\n  include: %s\n", js(s.Incl))
	} else if len(s.Axes) > 0 {
		fmt.Fprintf(&b, "matrix: %s\n", js(s.Axes))
	}
	return b.String()
}

// substitute names the axes where their values stand.
func (s *Src) substitute(o obj, id string) {
	if len(s.Pick) == 0 {
		return
	}
	var env obj
	switch e := o["environment"].(type) {
	case obj:
		env = e
	case []string:
		for i, kv := range e {
			if k := strings.SplitN(kv, "=", 2); k[0] == "COMBINATION" || k[0] == "AXIS" {
				e[i] = k[0] + "=" + s.named(k[1])
			}
		}
	}
	for _, k := range []string{"COMBINATION", "AXIS"} {
		if v, ok := env[k].(string); ok {
			env[k] = s.named(v)
		}
	}
	if v, ok := o["image"].(string); ok && strings.HasPrefix(v, "golang:") && s.bit(id+"axis", 3) > 0 {
		o["image"] = "golang:" + s.named(v[7:])
	}
	l, ok := o["commands"].([]string)
	for i := range l {
		if ok && strings.HasPrefix(l[i], "make VERSION=") {
			l[i] = "make VERSION=" + s.named(l[i][13:])
		}
	}
	if v, ok := o["commands"].(string); ok && strings.HasPrefix(v, "make VERSION=") {
		o["commands"] = "make VERSION=" + s.named(v[13:])
	}
}

func (s *Src) named(v string) string {
	if v == s.combination() {
		var l []string
		for _, k := range sorted(s.Pick) {
			l = append(l, "${"+k+"}")
		}
		return strings.Join(l, "/")
	}
	for _, k := range sorted(s.Pick) {
		if s.Pick[k] == v {
			return "${" + k + "}"
		}
	}
	return v
}

var known = map[string]bool{"image": true, "commands": true, "environment": true, "when": true, "secrets": true, "volumes": true, "detach": true}

// source is the path on the host a volume of a legacy file stands for.
func (s *Src) source(name string) string {
	var l []byte
	fmt.Sscanf(name, "%x", &l)
	return string(l)
}

func (s *Src) bitbucket(t *Tenant) string {
	p := &t.P
	var steps []obj
	variables := func(o obj, c *Ctr, id string) {
		env := obj{"SIM_ID": mark(id)}
		for k, v := range c.Env {
			env[k] = v
		}
		o["variables"] = env
	}
	for i := range p.Steps {
		c := &p.Steps[i]
		id := p.Pre + fmt.Sprint("s", i)
		o := obj{"script": t.commands(c, id)}
		if c.Name != fmt.Sprint("step_", i) || s.bit(id, 2) == 0 {
			o["name"] = c.Name
		}
		if c.Image != s.Image {
			o["image"] = c.Image
		}
		if s.bit(id+"caches", 3) == 0 {
			o["caches"] = []string{"node"}
			o["artifacts"] = []string{"dist/**"}
		}
		variables(o, c, id)
		steps = append(steps, obj{"step": o})
	}
	other := []obj{{"step": obj{"name": "other", "image": "golang", "script": []string{"echo other"}}}}
	pl := obj{"default": other, "branches": obj{"other": other, "x-*": other, "x/*": other}, "tags": obj{"other": other, "x-*": other}}
	if s.Under == "default" {
		pl["default"] = steps
	} else {
		pl[s.Under].(obj)[s.Pattern] = steps
	}
	if s.bit("less", 3) == 0 {
		for _, k := range []string{"default", "branches", "tags"} {
			if k != s.Under {
				delete(pl, k)
			}
		}
	}
	o := obj{"pipelines": pl}
	if s.Image != "" {
		o["image"] = s.Image
	}
	if p.Depth > 0 {
		o["clone"] = obj{"depth": p.Depth}
	}
	svcs := obj{}
	for i := range p.Svcs {
		c := &p.Svcs[i]
		x := obj{"image": c.Image}
		variables(x, c, p.Pre+fmt.Sprint("v", i))
		if c.Kind == "cmd" {
			x["script"] = t.commands(c, p.Pre+fmt.Sprint("v", i))
		}
		svcs[c.Name] = x
	}
	if len(svcs) > 0 {
		o["definitions"] = obj{"services": svcs, "caches": obj{"node": "node_modules"}}
	}
	return js(o) + "\n"
}

func (s *Src) gitlab(t *Tenant) string {
	var b strings.Builder
	p := &t.P
	put := func(k string, v interface{}) { fmt.Fprintf(&b, "%s: %s\n", js(k), js(v)) }
	if s.Image != "" {
		if s.bit("image", 3) == 0 {
			put("image", obj{"name": s.Image})
		} else {
			put("image", s.Image)
		}
	}
	put("stages", s.Stages)
	if len(s.Before) > 0 {
		put("before_script", s.strings("before", s.Before))
	}
	if len(s.After) > 0 {
		put("after_script", s.strings("after", s.After))
	}
	var svcs []obj
	for i := range p.Svcs {
		c := &p.Svcs[i]
		o := obj{"name": c.Image, "alias": c.Name}
		if len(c.Entry) > 0 {
			o["entrypoint"] = s.strings("e"+c.Name, c.Entry)
		}
		if len(c.Args) > 0 {
			o["command"] = s.strings("c"+c.Name, c.Args)
		}
		svcs = append(svcs, o)
	}
	if len(svcs) > 0 {
		put("services", svcs)
	}
	var order []int
	for i := range p.Steps {
		order = append(order, i)
	}
	sort.Slice(order, func(i, j int) bool {
		return s.bit(fmt.Sprint("o", order[i]), 1000) < s.bit(fmt.Sprint("o", order[j]), 1000)
	})
	for k, st := range s.Stages {
		if st != p.Name && s.bit(st, 4) > 0 {
			put(fmt.Sprintf("other %d", k), obj{"stage": st, "image": "golang", "script": "echo other"})
		}
	}
	for _, i := range order {
		c := &p.Steps[i]
		id := p.Pre + fmt.Sprint("s", i)
		o := obj{"stage": p.Name}
		if c.Image != s.Image {
			o["image"] = c.Image
			if s.bit(id+"image", 3) == 0 {
				o["image"] = obj{"name": c.Image, "entrypoint": []string{"/bin/sh", "-c"}}
			}
		}
		l := append([]string{"echo " + mark(id)}, c.Cmds...)
		a, z := s.bit(id+"a", len(l)), 0
		if s.bit(id+"b", 2) == 0 {
			a = 0
		}
		z = a + 1 + s.bit(id+"z", len(l)-a)
		if a > 0 {
			o["before_script"] = s.strings(id+"bs", l[:a])
		}
		o["script"] = s.strings(id+"s", l[a:z])
		if z < len(l) {
			o["after_script"] = s.strings(id+"as", l[z:])
		}
		if c.Fail == "ignore" {
			o["allow_failure"] = true
		} else if s.bit(id+"af", 4) == 0 {
			o["allow_failure"] = false
		}
		put(c.Name, o)
	}
	if s.bit("hidden", 2) == 0 {
		put(".hidden", obj{"stage": p.Name, "image": "golang", "script": "echo hidden"})
	}
	return b.String()
}

// convert converts the file of a tenant and finds the pipeline that is meant.
func (s *Src) convert(t *Tenant) (*yaml.Pipeline, string, error) {
	file, text := s.text(t)
	// json leaves it as it is, yaml does not accept that
	text = strings.NewReplacer("\u007f", "\\u007f", "\u0085", "\\u0085", "\ufeff", "\\ufeff").Replace(text)
	for k, v := range map[string]bool{"DRONE_CONVERT_YAML_LEGACY_CLONE": s.OldClone || s.Clone > 0 && s.bit("env", 3) == 0, "DRONE_CONVERT_YAML_DEFAULT_PULL_SECRETS": s.PullSec} {
		os.Unsetenv(k)
		switch {
		case v:
			os.Setenv(k, "true")
		case s.bit("env", 3) == 1:
			os.Setenv(k, "false")
		}
		defer os.Unsetenv(k)
	}
	out, err := converter.ConvertString(text, converter.Metadata{Filename: file, URL: s.URL, Ref: s.Ref})
	both := text + "\n---- converted to ----\n" + out
	if err != nil {
		return nil, text, fmt.Errorf("is not converted: %v", err)
	}
	m, err := yaml.ParseString(out)
	if err != nil {
		return nil, both, fmt.Errorf("is converted to something else than a configuration: %v", err)
	}
	var pls []*yaml.Pipeline
	var secs []string
	for _, r := range m.Resources {
		switch r := r.(type) {
		case *yaml.Pipeline:
			pls = append(pls, r)
		case *yaml.Secret:
			secs = append(secs, fmt.Sprintf("%s %s %s", r.Name, r.Get.Path, r.Get.Name))
		}
	}
	var want []string
	for i, n := range s.Secrets {
		k := ""
		if i%3 == 2 {
			k = "k-" + n
		}
		want = append(want, fmt.Sprintf("%s secret/data/%s %s", n, n, k))
	}
	sort.Strings(want)
	sort.Strings(secs)
	if strings.Join(want, "\n") != strings.Join(secs, "\n") {
		return nil, both, fmt.Errorf("declares the secrets %q, but they become %q", want, secs)
	}
	names := map[string]bool{}
	for _, p := range pls {
		if names[p.Name] {
			return nil, both, fmt.Errorf("gives two pipelines named %q", p.Name)
		}
		names[p.Name] = true
	}
	var p *yaml.Pipeline
	switch {
	case s.Kind == "gitlab":
		if len(pls) != len(s.Stages) {
			return nil, both, fmt.Errorf("has %d stages, but gives %d pipelines", len(s.Stages), len(pls))
		}
		for i, q := range pls {
			var deps []string
			if i > 0 {
				deps = s.Stages[i-1 : i]
			}
			if q.Name != s.Stages[i] || strings.Join(q.DependsOn, ",") != strings.Join(deps, ",") {
				return nil, both, fmt.Errorf("has the stages %q, but the pipeline %q waits for %q", s.Stages, q.Name, q.DependsOn)
			}
			if q.Name == t.P.Name {
				p = q
			}
		}
	case len(s.Pick) > 0:
		n := len(s.Incl)
		if n == 0 {
			n = 1
			for _, l := range s.Axes {
				n *= len(l)
			}
		}
		if len(pls) != n {
			return nil, both, fmt.Errorf("has a matrix of %d combinations, but gives %d pipelines", n, len(pls))
		}
		key := s.combination()
		for _, q := range pls {
			for _, c := range q.Steps {
				if v := c.Environment["COMBINATION"]; v != nil && v.Value == key {
					if p != nil {
						return nil, both, fmt.Errorf("gives two pipelines for %s", key)
					}
					p = q
				}
			}
		}
		if p == nil {
			return nil, both, fmt.Errorf("gives no pipeline for %s", key)
		}
	default:
		if len(pls) != 1 {
			return nil, both, fmt.Errorf("gives %d pipelines instead of one", len(pls))
		}
		p = pls[0]
	}
	var pull []string
	if s.PullSec {
		pull = []string{".dockerconfigjson"}
	}
	if s.Kind == "legacy" && strings.Join(p.PullSecrets, "\n") != strings.Join(pull, "\n") {
		return nil, both, fmt.Errorf("is to use the pull secrets %q, but has %q", pull, p.PullSecrets)
	}
	if s.Branch != nil {
		for _, br := range []string{"master", "develop", "feature/a", "release-1", "main"} {
			w := p.Trigger
			got := w.Branch.Match(br) && w.Ref.Match("refs/heads/"+br)
			if got != s.Branch.match(br) {
				return nil, both, fmt.Errorf("has the branches %s, but a push to %s is built: %v", js(s.Branch), br, got)
			}
		}
	}
	if s.Branch != nil && len(s.Branch.Exc) == 0 {
		// the branches never keep tags from the steps that are for tags
		for i := range t.P.Steps {
			for _, e := range t.P.Steps[i].When["event"].Inc {
				if e == "tag" && !(p.Trigger.Branch.Match("none") && p.Trigger.Ref.Match("refs/tags/v1")) {
					return nil, both, fmt.Errorf("has a step for tags, but is not executed for tags")
				}
			}
		}
	}
	return p, both, nil
}

// native reports whether the same pipeline would be accepted in the own format.
func (t Tenant) native() bool {
	t.Src = nil
	p, _, err := parse(&t, nil)
	return err == nil && linter.Lint(p, t.Trusted) == nil
}

// sane reports whether the scenario (of a minimised replay) means something.
func (t *Tenant) sane() bool {
	s := t.Src
	if s == nil {
		return t.Same > 0
	}
	if s.OldClone && (s.Kind != "legacy" || s.Clone > 0 || s.Dup > 0 || !t.P.NoCl || len(t.P.Steps) < 2 || js(t.P.Steps[0]) != js(oldClone)) || s.PullSec && s.Kind != "legacy" {
		return false
	}
	if s.Clone > len(t.P.Steps) || len(t.P.Steps) == 0 {
		return false
	}
	for i := range t.P.Steps {
		if t.P.Steps[i].Name == "<<" && s.Merge {
			return false
		}
	}
	if s.Dup > 0 && (s.Clone != 1 || len(s.Others) > 0 || s.Dup >= len(t.P.Steps) || t.P.Steps[s.Dup].Name != fmt.Sprintf("%s_%d", t.P.Steps[0].Name, s.Dup)) {
		return false
	}
	if s.Kind == "gitlab" {
		ok := false
		for _, st := range s.Stages {
			ok = ok || st == t.P.Name
		}
		return ok
	}
	if len(s.Pick) == 0 {
		return len(s.Axes) == 0 && len(s.Incl) == 0
	}
	found := len(s.Incl) == 0 && len(s.Axes) == len(s.Pick)
	for _, m := range s.Incl {
		found = found || js(m) == js(s.Pick) && len(s.Axes) == len(s.Pick)
	}
	size := 1
	for k := range s.Axes {
		size *= len(s.Axes[k])
		ok, v := false, s.Pick[k]
		for _, x := range s.Axes[k] {
			ok = ok || x == v && v != ""
		}
		found = found && ok && len(s.Axes) == len(s.Pick)
	}
	for i := range t.P.Steps {
		if found && size <= 25 && t.P.Steps[i].Env["COMBINATION"] == s.combination() {
			return true
		}
	}
	return false
}

// combination names the combination of a matrix that is meant.
func (s *Src) combination() string {
	var l []string
	for _, k := range sorted(s.Pick) {
		l = append(l, s.Pick[k])
	}
	return strings.Join(l, "/")
}

// genConv makes scenarios of pipelines in other formats.
func genConv(r *simkit.Rng, thorough bool) interface{} {
	w := weights{svc: .5, detach: .2, fail: .3, faults: .5, skip: .4, sel: .05, secrets: .4, ops: .4, status: .35, restart: .02, same: .15, tenants: 2, steps: 5}
	if thorough && r.P(.3) {
		w.steps *= 2
		w.tenants += 2
	}
	s := &Scen{Lat: r.U64(), MapSeed: r.U64(), Ent: r.U64()}
	if r.P(.3) {
		s.Slow = r.Range(2, 12)
	}
	for i, n := 0, r.Range(1, w.tenants); i < n; i++ {
		t := genTenant(r, w, s, i)
		if t.Same == 0 {
			t.P = t.P.copy()
			g := &gener{r: r, w: w, t: &t, p: &t.P}
			if r.P(.5) {
				g.rich()
			}
			g.foreign()
		}
		s.Tenants = append(s.Tenants, t)
	}
	if r.P(w.restart) {
		s.Restart = r.Range(1, 900000)
	}
	return s
}

func (p Pipe) copy() (q Pipe) {
	if err := json.Unmarshal([]byte(js(p)), &q); err != nil {
		panic(err)
	}
	return
}

// oldClone is the clone step that is added when the environment asks for it.
var oldClone = Ctr{Name: "clone", Kind: "plugin", Image: "plugins/git", Pull: "if-not-exists", NoID: true}

// foreign restricts a pipeline to what another format can express.
func (g *gener) foreign() {
	r, t, p := g.r, g.t, g.p
	s := &Src{Kind: r.Pick("legacy", "legacy", "legacy", "bitbucket", "gitlab"), Bits: r.U64()}
	t.Src = s
	t.Extra = 0
	*p = Pipe{Name: "default", NoCl: p.NoCl, Depth: p.Depth, Svcs: p.Svcs, Steps: p.Steps}
	all := func(f func(c *Ctr, id string, svc bool)) {
		for i := range p.Svcs {
			f(&p.Svcs[i], p.Pre+fmt.Sprint("v", i), true)
		}
		for i := range p.Steps {
			f(&p.Steps[i], p.Pre+fmt.Sprint("s", i), false)
		}
	}
	if r.P(.5) {
		s.Image = r.Pick("golang:1.11", "node:10", "alpine")
	}
	all(func(c *Ctr, id string, svc bool) {
		// what none of them has
		if c.Kind == "build" {
			c.Kind = "cmd"
		}
		if c.Image == "" || !svc && s.Image != "" && c.Kind == "cmd" && r.P(.4) {
			c.Image = r.Pick("golang", "alpine:3.9")
			if s.Image != "" {
				c.Image = s.Image
			}
		}
		*c = Ctr{Name: c.Name, Kind: c.Kind, Image: c.Image, Detach: c.Detach, Cmds: c.Cmds, Entry: c.Entry, Args: c.Args, Env: c.Env, EnvSec: c.EnvSec, Set: c.Set, Any: c.Any, When: c.When, Fail: c.Fail, Pull: c.Pull, Priv: c.Priv, DNS: c.DNS, DNSF: c.DNSF}
	})
	switch s.Kind {
	case "legacy":
		p.Depth = 0
		g.foreignLegacy(all)
	case "bitbucket":
		p.NoCl = false
		all(func(c *Ctr, id string, svc bool) {
			*c = Ctr{Name: c.Name, Kind: c.Kind, Image: c.Image, Cmds: c.Cmds, Env: c.Env}
			if !svc {
				c.Kind = "cmd"
			}
		})
		sort.Slice(p.Svcs, func(i, j int) bool { return p.Svcs[i].Name < p.Svcs[j].Name })
		for i := range p.Steps {
			if r.P(.15) {
				p.Steps[i].Name = fmt.Sprint("step_", i)
			}
		}
		s.Under, s.Ref = "default", r.Pick("refs/heads/master", "refs/tags/v1", "", "refs/pull/1/head", "refs/heads/feature/a/b", "refs/tags/y/1")
		switch r.Intn(4) {
		case 0:
			s.Under, s.Ref = "branches", "refs/heads/"+r.Pick("master", "feature/a", "release-1.0")
			s.Pattern = map[string][]string{"master": {"master", "mas*", "m?ster", "[m]aster", "{master}"[:0] + "*"}, "feature/a": {"feature/a", "feature/*", "*/a", "*/*"}, "release-1.0": {"release-*", "release-1.0", "*-1.?", "*"}}[s.Ref[11:]][r.Intn(4)]
		case 1:
			s.Under, s.Ref = "tags", "refs/tags/"+r.Pick("v1", "release/1.0")
			s.Pattern = map[string][]string{"v1": {"v1", "v*", "*", "v[0-9]"}, "release/1.0": {"release/1.0", "release/*", "*/1.0", "release/1.*"}}[s.Ref[10:]][r.Intn(4)]
		}
		if ok, _ := path.Match("x-*", s.Pattern); ok {
			panic("pattern")
		}
	case "gitlab":
		p.NoCl, p.Depth = false, 0
		p.Name = r.Pick("build", "test", "deploy", "stage x")
		for _, st := range []string{"prepare", p.Name, "verify", "z"} {
			if st == p.Name || r.P(.5) {
				s.Stages = append(s.Stages, st)
			}
		}
		if r.P(.4) {
			s.Before = [][]string{{"echo before"}, {"echo before", "export A=b"}, {"set -x", "echo \"a b\"", ""}}[r.Intn(3)]
		}
		if r.P(.4) {
			s.After = [][]string{{"echo after"}, {"echo after", "rm -rf ./x"}}[r.Intn(2)]
		}
		all(func(c *Ctr, id string, svc bool) {
			*c = Ctr{Name: c.Name, Kind: c.Kind, Image: c.Image, Cmds: c.Cmds, Entry: c.Entry, Args: c.Args, Fail: c.Fail, NoID: true}
			if c.Fail != "ignore" {
				c.Fail = ""
			}
			if svc {
				c.Kind, c.Cmds, c.Fail = "bare", nil, ""
				return
			}
			c.Kind, c.Entry, c.Args = "cmd", nil, nil
			switch c.Name {
			case "image", "services", "stages", "types", "variables", "cache", "before_script", "after_script", "default", "include", "workflow", "pages":
				c.Name += " job"
			}
			if strings.HasPrefix(c.Name, ".") || c.Name == "<<" {
				c.Name = "job " + c.Name
			}
		})
		sort.Slice(p.Steps, func(i, j int) bool { return p.Steps[i].Name < p.Steps[j].Name })
	}
}

func (g *gener) foreignLegacy(all func(func(*Ctr, string, bool))) {
	r, t, p, s := g.r, g.t, g.p, g.t.Src
	// workspace
	if r.P(.4) {
		s.URL = r.Pick("https://github.com/octocat/hello-world", "https://git.example.com:8443/team/x", "http://h/a/b/", "not a url", "git@github.com:a/b")
	}
	if r.P(.4) {
		s.RawB = r.Pick("/go", "/work", "/a/b")
	}
	if r.P(.4) {
		s.RawP = r.Pick("src/x", "src/github.com/o/r", ".", "y")
	}
	p.Base, p.Path = s.RawB, s.RawP
	if p.Path == "." {
		p.Path = ""
	}
	if s.URL != "" {
		if p.Base == "" {
			p.Base = "/drone"
		}
		if p.Path == "" {
			p.Path = map[string]string{"https://github.com/octocat/hello-world": "src/github.com/octocat/hello-world", "https://git.example.com:8443/team/x": "src/git.example.com/team/x", "http://h/a/b/": "src/h/a/b", "not a url": "src", "git@github.com:a/b": "src"}[s.URL]
		}
	}
	reserved := map[string]bool{"image": true, "when": true, "name": true, "pull": true}
	p.NoCl = false
	if r.P(.25) {
		p.NoCl = true
		s.Clone = 1
		if len(p.Steps) > 1 && r.P(.3) {
			s.Clone = 2
		}
	}
	s.PullSec = r.P(.2)
	if s.Clone == 0 && r.P(.2) {
		ok := true
		all(func(c *Ctr, id string, svc bool) { ok = ok && c.Name != "clone" })
		if ok {
			s.OldClone, p.NoCl = true, true
			p.Steps = append([]Ctr{oldClone}, p.Steps...)
			every := all
			all = func(f func(*Ctr, string, bool)) {
				every(func(c *Ctr, id string, svc bool) {
					if id != p.Pre+"s0" {
						f(c, id, svc)
					}
				})
			}
		}
	}
	sources := []string{"/var/lib/x", "/tmp/cache", "/srv/cache", "/var/run/docker.sock", "/tmp"}
	used := map[string]bool{}
	all(func(c *Ctr, id string, svc bool) {
		c.Fail = ""
		delete(c.When, "action")
		delete(c.When, "cron")
		if c.Pull != "always" {
			c.Pull = "if-not-exists"
		}
		if c.Priv {
			t.Trusted = true
		}
		up := map[string]string{}
		for _, k := range sorted(c.EnvSec) {
			if u := strings.ToUpper(k); c.Env[u] == "" {
				up[u] = c.EnvSec[k]
			}
		}
		if c.EnvSec = up; len(up) == 0 {
			c.EnvSec = nil
		}
		for k := range c.Set {
			if reserved[k] {
				delete(c.Set, k)
			}
		}
		if r.P(.15) {
			for k := r.Range(1, 2); k > 0; k-- {
				src := sources[r.Intn(len(sources))]
				name := fmt.Sprintf("%x", src)
				m := r.Pick("/cache", "/vol", "/v"+fmt.Sprint(k))
				for _, x := range c.Vols {
					if x.Path == m {
						m = ""
					}
				}
				for _, x := range t.S.Volumes {
					if x == m {
						m = ""
					}
				}
				if m == "" {
					continue
				}
				c.Vols = append(c.Vols, Mnt{name, m})
				if !used[name] {
					p.Vols = append(p.Vols, Vol{Name: name, Kind: "host", Path: src})
				}
				used[name] = true
				t.Trusted = true
			}
		}
	})
	if s.Clone == 1 && len(p.Steps) > 1 && r.P(.3) {
		d := r.Range(1, len(p.Steps)-1)
		n := fmt.Sprintf("%s_%d", p.Steps[0].Name, d)
		ok := !strings.HasPrefix(n, "!") && !strings.HasPrefix(n, "&")
		all(func(c *Ctr, id string, svc bool) { ok = ok && c.Name != n })
		if ok {
			s.Dup, p.Steps[d].Name = d, n
		}
	}
	delete(t.S.Env, "COMBINATION")
	if r.P(.25) {
		s.Merge = s.Image != ""
	}
	if r.P(.3) {
		s.Branch = &[]Cond{{Inc: []string{"master"}}, {Inc: []string{"master", "develop"}}, {Inc: []string{"feature/*"}, Form: 2}, {Exc: []string{"master"}}, {Exc: []string{"release-*", "main"}}, {Inc: []string{"*"}, Exc: []string{"develop"}}, {Inc: []string{"release-*", "m*"}}}[r.Intn(7)]
	}
	if r.P(.25) {
		s.Secrets = []string{"sec-a", "sec-b", "sec-c", "sec-d"}[:r.Range(1, 4)]
	}
	if !r.P(.4) {
		return
	}
	// a matrix
	vals := map[string][]string{"GO": {"1.10", "1.11", "1.9"}, "DB": {"redis", "postgres:9", "mysql"}, "Flag": {"true", "x y"}, "n": {"0", "é"}, "A_B": {"only"}}
	s.Axes, s.Pick = map[string][]string{}, map[string]string{}
	for _, k := range []string{"GO", "DB", "Flag", "A_B", "n"} {
		if r.P(.5) || k == "A_B" && len(s.Axes) == 0 {
			l := append([]string(nil), vals[k]...)
			l = l[:r.Range(1, len(l))]
			s.Axes[k] = l
			s.Pick[k] = l[r.Intn(len(l))]
		}
	}
	if r.P(.3) {
		// some of the combinations
		n := r.Range(1, 3)
		at := r.Intn(n)
		seen := map[string]bool{js(s.Pick): true}
		for i := 0; i < n; i++ {
			if i == at {
				s.Incl = append(s.Incl, s.Pick)
				continue
			}
			m := map[string]string{}
			for _, k := range sorted(s.Pick) {
				m[k] = s.Axes[k][r.Intn(len(s.Axes[k]))]
			}
			if !seen[js(m)] {
				seen[js(m)] = true
				s.Incl = append(s.Incl, m)
			}
		}
	}
	keys := sorted(s.Pick)
	s.Matrix = map[string]map[string]string{}
	first := true
	all(func(c *Ctr, id string, svc bool) {
		if r.P(.3) {
			// for this combination
			m := map[string]string{}
			for _, k := range keys {
				if r.P(.6) {
					m[k] = s.Pick[k]
				}
			}
			if len(m) > 0 {
				s.Matrix[id] = m
			}
		}
		if svc {
			return
		}
		if c.Env == nil {
			c.Env = map[string]string{}
		}
		if _, cond := s.Matrix[id]; !cond && first {
			first = false
			c.Env["COMBINATION"] = s.combination()
		}
		if r.P(.5) {
			k := keys[r.Intn(len(keys))]
			c.Env["AXIS"] = s.Pick[k]
			if k == "GO" && r.P(.5) && c.Kind == "cmd" {
				c.Image = "golang:" + s.Pick[k]
			}
			if c.Kind == "cmd" {
				c.Cmds = append(c.Cmds, "make VERSION="+s.Pick[k])
			}
		}
	})
	if first {
		i := 0
		if s.OldClone {
			i = 1
		}
		delete(s.Matrix, fmt.Sprint(p.Pre, "s", i))
		p.Steps[i].Env["COMBINATION"] = s.combination()
	}
	for k := r.Intn(3); k > 0 && s.Dup == 0; k-- {
		// steps of other combinations: at least one key differs
		m := map[string]string{}
		for _, k := range keys {
			if r.P(.6) {
				m[k] = s.Pick[k]
			}
		}
		m[keys[r.Intn(len(keys))]] = "another"
		s.Others = append(s.Others, m)
	}
}

// checkConverted (C35): a converted configuration is executed as the one it
// was converted from.
func checkConverted(w *world, a *account, o *simkit.Outcome) {
	for _, id := range []string{"C33", "C19", "C21", "C22", "C23", "C24", "C26", "C27", "C28"} {
		if o.Fail == nil && (id != "C21" || a.relevant(id)) {
			checkers[id](w, a, o)
		}
	}
	for _, x := range w.h.made {
		n := a.b.plan.byName[x.name]
		if x.ten != a.b.ten || n == nil || o.Fail != nil || n.Kind != "cmd" || n.kind == "clone" {
			continue
		}
		t := a.b.t
		for i := range w.s.Tenants {
			if a.b.pipe == &w.s.Tenants[i].P {
				t = &w.s.Tenants[i]
			}
		}
		want := t.commands(n.Ctr, n.id)
		script := ""
		for _, v := range x.files {
			if strings.Contains(v, mark(n.id)) {
				script = v
			}
		}
		if script == "" {
			b, _ := base64.StdEncoding.DecodeString(x.step.Envs["DRONE_SCRIPT"])
			script = string(b)
		}
		rest, ok := script, true
		for _, c := range want {
			i := strings.Index(rest, "\n"+c+"\n")
			if ok = ok && i >= 0; ok {
				rest = rest[i+len(c)+1:]
			}
		}
		if got := strings.Count(script, "\necho + "); !ok || got != len(want) {
			o.Failf("commands", "pipeline %d: %q executes %d commands instead of %q\n%s", a.b.ten, x.name, got, want, script)
		}
	}
	if o.Fail != nil {
		o.Fail.Detail += "\n" + a.b.text
	}
}
