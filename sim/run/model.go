package main

import (
	"encoding/json"
	"fmt"
	"path"
	"sort"
	"strings"
)

// Scen is a scenario: tenants that compile and run their pipelines on one
// simulated docker host.
type Scen struct {
	Tenants []Tenant `json:"tenants"`
	Lat     uint64   `json:"lat"`  // seed of every latency
	Slow    int      `json:"slow"` // one operation in Slow takes very long (0: none)
	MapSeed uint64   `json:"map_seed"`
	Ent     uint64   `json:"ent"`
	Restart int      `json:"restart,omitempty"` // ms: the docker daemon kills every container
	stagger bool     // a restart kills one container after the other
	form    []string // the configurations go through these forms first
}

// Tenant owns one build.
type Tenant struct {
	P       Pipe     `json:"p"`
	Same    int      `json:"same,omitempty"` // 1+index of the tenant whose parsed pipeline it runs again
	Comp    bool     `json:"comp,omitempty"` // also shares that tenant's compiler
	Org     int      `json:"org,omitempty"`  // secrets and credentials belong to the organisation
	Trusted bool     `json:"trusted,omitempty"`
	Extra   int      `json:"extra,omitempty"` // other documents around the pipeline
	Start   int      `json:"start,omitempty"` // ms
	S       Settings `json:"s"`
	Faults  []Fault  `json:"faults,omitempty"`
	Src     *Src     `json:"src,omitempty"`    // written in another format
	Cancel  int      `json:"cancel,omitempty"` // ms, dependency-driven pipelines only
}

// Fault of one step (or of Setup).
type Fault struct {
	Step string `json:"step"`
	Op   string `json:"op"` // setup create start tail wait exit oom lag
	Code int    `json:"code,omitempty"`
}

// Settings of the operator.
type Settings struct {
	Include  []string          `json:"include,omitempty"`
	Exclude  []string          `json:"exclude,omitempty"`
	Resume   string            `json:"resume,omitempty"`
	Env      map[string]string `json:"env,omitempty"`
	Labels   map[string]string `json:"labels,omitempty"`
	Volumes  map[string]string `json:"volumes,omitempty"`
	VolSlice bool              `json:"vol_slice,omitempty"`
	Networks []string          `json:"networks,omitempty"`
	Auths    []string          `json:"auths,omitempty"`
	AuthFunc bool              `json:"auth_func,omitempty"`
	Mem      int64             `json:"mem,omitempty"`
	Netrc    bool              `json:"netrc,omitempty"`
	Creds    bool              `json:"creds,omitempty"`
	Dind     []string          `json:"dind,omitempty"`
	Host     string            `json:"host,omitempty"`
	Secrets  string            `json:"secrets,omitempty"` // "", map, fresh, shared
	Unknown  []string          `json:"unknown,omitempty"` // secrets the provider does not know
	ProvLat  int               `json:"prov_lat,omitempty"`
	Perm     uint64            `json:"perm,omitempty"` // order of the transforms
	Skip     bool              `json:"skip,omitempty"`
	Build    map[string]string `json:"build,omitempty"` // branch, event, ... of the build
}

// Pipe is a pipeline.
type Pipe struct {
	Name   string `json:"name"`
	OS     string `json:"os,omitempty"`
	Arch   string `json:"arch,omitempty"`
	NoCl   bool   `json:"nocl,omitempty"`
	Depth  int    `json:"depth,omitempty"`
	Base   string `json:"base,omitempty"`
	Path   string `json:"path,omitempty"`
	Vols   []Vol  `json:"vols,omitempty"`
	Svcs   []Ctr  `json:"svcs,omitempty"`
	Steps  []Ctr  `json:"steps"`
	Flavor int    `json:"flavor,omitempty"`
	// of a configuration with several pipelines
	Pre   string          `json:"pre,omitempty"` // prefix of the marks
	PDeps []string        `json:"pdeps,omitempty"`
	Trig  map[string]Cond `json:"trig,omitempty"`
	Type  string          `json:"type,omitempty"`
	// fields that only matter for C31
	Node    map[string]string `json:"node,omitempty"`
	PullSec []string          `json:"pull_sec,omitempty"`
	Limit   int               `json:"limit,omitempty"`
	Variant string            `json:"variant,omitempty"`
	Version string            `json:"version,omitempty"`
	SkipV   bool              `json:"skip_v,omitempty"`
}

// Vol is a declared volume.
type Vol struct {
	Name string `json:"name"`
	Kind string `json:"kind"` // temp, memory, host, both
	Path string `json:"path,omitempty"`
	Size string `json:"size,omitempty"`
	// of a temporary volume, other than memory
	Medium string `json:"medium,omitempty"`
}

// Mnt mounts a volume.
type Mnt struct {
	Name string `json:"name"`
	Path string `json:"path"`
}

// Cond is a condition.
type Cond struct {
	Inc  []string `json:"inc,omitempty"`
	Exc  []string `json:"exc,omitempty"`
	Form int      `json:"form,omitempty"`
}

// Prt is a port.
type Prt struct {
	Port  int    `json:"port"`
	Host  int    `json:"host,omitempty"`
	Proto string `json:"proto,omitempty"`
	Short bool   `json:"short,omitempty"`
}

// Ctr is a step or service.
type Ctr struct {
	Name   string            `json:"name"`
	Kind   string            `json:"kind"` // cmd, plugin, bare, build
	Image  string            `json:"image,omitempty"`
	Build  string            `json:"build,omitempty"`
	BForm  int               `json:"bform,omitempty"`
	SBuild string            `json:"sbuild,omitempty"` // a build section where it has no meaning (services)
	Detach bool              `json:"detach,omitempty"`
	Deps   []string          `json:"deps,omitempty"`
	NoDeps bool              `json:"no_deps,omitempty"` // depends_on: []
	Cmds   []string          `json:"cmds,omitempty"`
	Entry  []string          `json:"entry,omitempty"`
	Args   []string          `json:"args,omitempty"`
	Env    map[string]string `json:"env,omitempty"`
	EnvSec map[string]string `json:"env_sec,omitempty"`
	Set    map[string]string `json:"set,omitempty"`
	SetSec map[string]string `json:"set_sec,omitempty"`
	Any    []int             `json:"any,omitempty"`  // settings of other types
	Null   int               `json:"null,omitempty"` // 1: null variable, 2: null setting
	Vols   []Mnt             `json:"vols,omitempty"`
	When   map[string]Cond   `json:"when,omitempty"`
	Fail   string            `json:"fail,omitempty"`
	Pull   string            `json:"pull,omitempty"`
	Priv   bool              `json:"priv,omitempty"`
	Net    string            `json:"net,omitempty"`
	Dev    bool              `json:"dev,omitempty"`
	DNS    bool              `json:"dns,omitempty"`
	Port   int               `json:"port,omitempty"`
	HPort  int               `json:"hport,omitempty"`
	Ports  []Prt             `json:"ports,omitempty"` // further ports, before the one above
	DNSF   int               `json:"dnsf,omitempty"`  // bits: which of the dns settings (0: all)
	User   string            `json:"user,omitempty"`
	Cwd    string            `json:"cwd,omitempty"`
	Mem    string            `json:"mem,omitempty"`
	CPU    float64           `json:"cpu,omitempty"`
	ReqM   string            `json:"req_m,omitempty"`
	Raw    []int             `json:"raw,omitempty"`   // settings that json cannot express
	BArgs  map[string]string `json:"bargs,omitempty"` // build arguments and labels
	BBits  int               `json:"bbits,omitempty"` // which fields the build section has
	Shell  string            `json:"shell,omitempty"`
	NoID   bool              `json:"no_id,omitempty"` // the format has no environment
}

func js(v interface{}) string {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return string(b)
}

type obj = map[string]interface{}

func (c Cond) yaml() interface{} {
	switch {
	case len(c.Exc) == 0 && len(c.Inc) == 1 && c.Form == 0:
		return c.Inc[0]
	case len(c.Exc) == 0 && c.Form < 2:
		return c.Inc
	}
	o := obj{}
	if len(c.Inc) > 0 {
		o["include"] = c.Inc
	}
	if len(c.Exc) > 0 {
		o["exclude"] = c.Exc
	}
	return o
}

// anyValues are settings of all types.
var anyValues = []string{"1", "1000000", "9007199254740993", "-5", "1e6", "1.5", "1.0", "0.0000001", "true", "false", `""`, `["a","b"]`, `[1,2,1000000]`, `["a",1.5,true]`, `{"a":"b"}`, `{"a":{"b":1000000,"A":2},"c":[1,"x"]}`,
	`[{"a":1},{"b":[true]}]`, `{"x":1.5,"y":1e7}`, `[]`, `{}`, `null`, `[["a"],["b"]]`, `"1000000"`, `18446744073709551615`, `{"from":"x"}`}

func mark(id string) string { return "mark<" + id + ">" }

func (c *Ctr) yaml(id string) obj {
	o := obj{"name": c.Name}
	put := func(k string, v interface{}, ok bool) {
		if ok {
			o[k] = v
		}
	}
	put("image", c.Image, c.Image != "")
	put("detach", true, c.Detach)
	put("depends_on", c.Deps, len(c.Deps) > 0)
	put("depends_on", []string{}, c.NoDeps && len(c.Deps) == 0)
	if c.Build != "" {
		if c.BForm == 0 {
			o["build"] = c.Build
		} else {
			o["build"] = obj{"image": c.Build, "context": ".", "dockerfile": "Dockerfile", "cache_from": []string{"x"}}
		}
	}
	if c.SBuild != "" {
		o["build"] = obj{"image": c.SBuild, "context": "."}
		if c.BForm != 0 {
			o["build"] = c.SBuild
		}
	}
	env := obj{}
	for k, v := range c.Env {
		env[k] = v
	}
	for k, v := range c.EnvSec {
		env[k] = obj{"from_secret": v}
	}
	if c.Kind != "build" && !c.NoID {
		env["SIM_ID"] = mark(id)
	}
	if c.Null == 1 {
		env["NOTHING"] = nil
	}
	put("environment", env, len(env) > 0)
	set := obj{}
	for k, v := range c.Set {
		set[k] = v
	}
	for k, v := range c.SetSec {
		set[k] = obj{"from_secret": v}
	}
	for i, k := range c.Any {
		set[fmt.Sprint("any", i)] = json.RawMessage(anyValues[k%len(anyValues)])
	}
	for i, k := range c.Raw {
		set[fmt.Sprint("raw", i)] = fmt.Sprintf("@@RAW%d@@", k)
	}
	if c.Kind == "plugin" {
		set["sim_mark"] = mark(id)
	}
	if c.Null == 2 {
		set["nothing"] = nil
	}
	put("settings", set, len(set) > 0)
	if c.Kind == "cmd" {
		o["commands"] = append([]string{"echo " + mark(id)}, c.Cmds...)
	}
	put("entrypoint", c.Entry, len(c.Entry) > 0)
	put("command", c.Args, len(c.Args) > 0)
	var ms []obj
	for _, m := range c.Vols {
		ms = append(ms, obj{"name": m.Name, "path": m.Path})
	}
	put("volumes", ms, len(ms) > 0)
	when := obj{}
	for k, v := range c.When {
		when[k] = v.yaml()
	}
	put("when", when, len(when) > 0)
	put("failure", c.Fail, c.Fail != "")
	put("pull", c.Pull, c.Pull != "")
	put("privileged", true, c.Priv)
	put("network_mode", c.Net, c.Net != "")
	if c.Dev {
		o["devices"] = []obj{{"name": "dev", "path": "/dev/xvda"}}
	}
	if c.DNS {
		put("dns", []string{"8.8.8.8", "1.1.1.1"}, c.DNSF == 0 || c.DNSF&1 != 0)
		put("dns_search", []string{"example.com", "corp.example.com"}, c.DNSF == 0 || c.DNSF&2 != 0)
		put("extra_hosts", []string{"b:1.2.3.5", "a:1.2.3.4"}, c.DNSF == 0 || c.DNSF&4 != 0)
	}
	var ports []interface{}
	for _, p := range append(append([]Prt(nil), c.Ports...), Prt{Port: c.Port, Host: c.HPort, Short: c.HPort == 0}) {
		x := obj{"port": p.Port}
		if p.Host != 0 {
			x["host"] = p.Host
		}
		if p.Proto != "" {
			x["protocol"] = p.Proto
		}
		switch {
		case p.Port == 0:
		case p.Short && p.Host == 0 && p.Proto == "":
			ports = append(ports, p.Port)
		default:
			ports = append(ports, x)
		}
	}
	put("ports", ports, len(ports) > 0)
	put("user", c.User, c.User != "")
	put("working_dir", c.Cwd, c.Cwd != "")
	if c.Mem != "" {
		cpu := c.CPU
		if cpu == 0 {
			cpu = 1.5
		}
		o["resources"] = obj{"limits": obj{"memory": c.Mem, "cpu": cpu}}
	}
	if c.ReqM != "" {
		res, _ := o["resources"].(obj)
		if res == nil {
			res = obj{}
		}
		res["requests"] = obj{"memory": c.ReqM}
		o["resources"] = res
	}
	if c.BBits != 0 && c.Build != "" {
		b := obj{"image": c.Build}
		for i, k := range []string{"context", "dockerfile", "args", "labels", "cache_from"} {
			if c.BBits&(1<<i) != 0 {
				b[k] = []interface{}{"docker", "docker/Dockerfile", c.BArgs, c.BArgs, []string{"x", "y:1"}}[i]
			}
		}
		o["build"] = b
	}
	put("shell", c.Shell, c.Shell != "")
	return o
}

// Text renders the configuration file.
func (t *Tenant) Text() string {
	var b strings.Builder
	p := &t.P
	other := func(n string) {
		fmt.Fprintf(&b, "---\nkind: pipeline\nname: %s\n\nsteps:\n- name: build\n  image: golang\n  commands:\n  - go test\n", n)
	}
	if t.Extra&1 != 0 {
		b.WriteString("---\nkind: secret\nname: s1\n\ndata: abc\n")
	}
	if t.Extra&2 != 0 {
		other("before")
	}
	b.WriteString("---\nkind: pipeline\n")
	line := func(k string, v interface{}) {
		if p.Flavor == 1 {
			fmt.Fprintf(&b, "%q: %s\n", k, js(v))
		} else {
			fmt.Fprintf(&b, "%s: %s\n", k, js(v))
		}
	}
	line("name", p.Name)
	if p.Type != "" {
		line("type", p.Type)
	}
	if len(p.PDeps) > 0 {
		line("depends_on", p.PDeps)
	}
	if len(p.Trig) > 0 {
		o := obj{}
		for k, v := range p.Trig {
			o[k] = v.yaml()
		}
		line("trigger", o)
	}
	if p.OS != "" || p.Arch != "" || p.Version != "" {
		o := obj{}
		if p.OS != "" {
			o["os"] = p.OS
		}
		if p.Arch != "" {
			o["arch"] = p.Arch
		}
		if p.Variant != "" {
			o["variant"] = p.Variant
			o["version"] = p.Variant + "03"
		}
		if p.Version != "" {
			o["version"] = p.Version
		}
		line("platform", o)
	}
	if len(p.Node) > 0 {
		line("node", p.Node)
	}
	if len(p.PullSec) > 0 {
		line("image_pull_secrets", p.PullSec)
	}
	if p.Limit > 0 {
		line("concurrency", obj{"limit": p.Limit})
	}
	if p.NoCl || p.Depth > 0 || p.SkipV {
		o := obj{}
		if p.SkipV {
			o["skip_verify"] = true
		}
		if p.NoCl {
			o["disable"] = true
		}
		if p.Depth > 0 {
			o["depth"] = p.Depth
		}
		line("clone", o)
	}
	if p.Base != "" || p.Path != "" {
		o := obj{}
		if p.Base != "" {
			o["base"] = p.Base
		}
		if p.Path != "" {
			o["path"] = p.Path
		}
		line("workspace", o)
	}
	if len(p.Vols) > 0 {
		var vs []obj
		for _, v := range p.Vols {
			o := obj{"name": v.Name}
			switch v.Kind {
			case "memory":
				o["temp"] = obj{"medium": "memory"}
			case "host":
				o["host"] = obj{"path": v.Path}
			case "both":
				o["host"] = obj{"path": v.Path}
				o["temp"] = obj{}
			default:
				o["temp"] = obj{}
			}
			if v.Medium != "" && v.Kind == "temp" {
				o["temp"].(obj)["medium"] = v.Medium
			}
			if v.Size != "" && o["temp"] != nil {
				o["temp"].(obj)["size_limit"] = v.Size
			}
			vs = append(vs, o)
		}
		line("volumes", vs)
	}
	ctrs := func(k, pre string, cs []Ctr) {
		if len(cs) == 0 {
			return
		}
		fmt.Fprintf(&b, "%s:\n", k)
		for i := range cs {
			b.WriteString("- " + js(cs[i].yaml(p.Pre+fmt.Sprint(pre, i))) + "\n")
		}
	}
	if p.Flavor == 2 {
		ctrs("steps", "s", p.Steps)
		ctrs("services", "v", p.Svcs)
	} else {
		ctrs("services", "v", p.Svcs)
		ctrs("steps", "s", p.Steps)
	}
	if t.Extra&4 != 0 {
		other("after")
	}
	text := b.String()
	for i := range rawValues {
		text = strings.ReplaceAll(text, fmt.Sprintf("\"@@RAW%d@@\"", i), rawValues[i])
	}
	// json leaves them as they are, yaml does not accept that
	return strings.NewReplacer("\u007f", "\\u007f", "\u0085", "\\u0085", "\ufeff", "\\ufeff").Replace(text)
}

// glob is an independent matcher for the patterns the generator uses:
// literals, '*' within a path segment, '**' across segments.
func glob(pat, s string) bool {
	switch {
	case pat == "":
		return s == ""
	case strings.HasPrefix(pat, "**"):
		rest := strings.TrimPrefix(strings.TrimPrefix(pat, "**"), "/")
		if rest == "" {
			return true
		}
		for {
			if glob(rest, s) {
				return true
			}
			i := strings.IndexByte(s, '/')
			if i < 0 {
				return false
			}
			s = s[i+1:]
		}
	case pat[0] == '*':
		for i := 0; i <= len(s); i++ {
			if glob(pat[1:], s[i:]) {
				return true
			}
			if i < len(s) && s[i] == '/' {
				return false
			}
		}
		return false
	}
	return s != "" && s[0] == pat[0] && glob(pat[1:], s[1:])
}

func (c Cond) match(v string) bool {
	for _, p := range c.Exc {
		if glob(p, v) {
			return false
		}
	}
	for _, p := range c.Inc {
		if glob(p, v) {
			return true
		}
	}
	return len(c.Inc) == 0
}

var whenKeys = []string{"branch", "cron", "event", "instance", "ref", "repo", "target", "action"}

// canon gives repository and tag of an image reference.
func canon(img string) (repo, tag string) {
	repo = img
	if i := strings.Index(repo, "@"); i >= 0 {
		repo, tag = repo[:i], repo[i:]
	} else if i := strings.LastIndex(repo, ":"); i > strings.LastIndex(repo, "/") {
		repo, tag = repo[:i], repo[i+1:]
	} else {
		tag = "latest"
	}
	first := repo
	if i := strings.Index(repo, "/"); i >= 0 {
		first = repo[:i]
	} else {
		first = ""
	}
	switch {
	case first == "":
		repo = "docker.io/library/" + repo
	case first == "index.docker.io":
		repo = "docker.io" + strings.TrimPrefix(repo, first)
	case !strings.ContainsAny(first, ".:") && first != "localhost":
		repo = "docker.io/" + repo
	}
	if strings.HasPrefix(repo, "docker.io/") && strings.Count(repo, "/") == 1 {
		repo = "docker.io/library/" + repo[len("docker.io/"):]
	}
	return repo, tag
}

// node is a container of the model, in execution order.
type node struct {
	*Ctr
	id      string
	idx     int
	kind    string // clone, service, step
	detach  bool
	deps    []int // declared
	all     []int // declared and implied
	anc     map[int]bool
	cond    bool // skipped by its conditions
	filt    bool // removed by the selection
	onOK    bool
	onFail  bool
	ignore  bool
	missing bool // declares a dependency that does not exist
}

// plan is what the configuration means.
type plan struct {
	t      *Tenant
	nodes  []*node
	byName map[string]*node
	serial bool
	dup    bool
}

func makePlan(t *Tenant, p *Pipe, s *Settings) *plan {
	pl := &plan{t: t, byName: map[string]*node{}, serial: true}
	add := func(c *Ctr, id, kind string) {
		n := &node{Ctr: c, id: id, idx: len(pl.nodes), kind: kind, anc: map[int]bool{}}
		n.detach = c.Detach || kind == "service"
		st := c.When["status"]
		n.onFail = len(st.Inc) > 0 && st.match("failure")
		n.onOK = st.match("success")
		n.ignore = strings.EqualFold(c.Fail, "ignore")
		if s.Skip && kind != "clone" {
			for _, k := range whenKeys {
				if cd, ok := c.When[k]; ok && !cd.match(s.Build[k]) {
					n.cond = true
				}
			}
		}
		if _, ok := pl.byName[c.Name]; ok {
			pl.dup = true
		}
		pl.byName[c.Name] = n
		pl.nodes = append(pl.nodes, n)
	}
	if !p.NoCl {
		add(&Ctr{Name: "clone", Kind: "clone"}, "c", "clone")
	}
	for i := range p.Svcs {
		add(&p.Svcs[i], p.Pre+fmt.Sprint("v", i), "service")
		if len(p.Svcs[i].Deps) > 0 {
			pl.serial = false
		}
	}
	for i := range p.Steps {
		add(&p.Steps[i], p.Pre+fmt.Sprint("s", i), "step")
		if len(p.Steps[i].Deps) > 0 {
			pl.serial = false
		}
	}
	has := func(l []string, n string) bool {
		for _, x := range l {
			if x == n {
				return true
			}
		}
		return false
	}
	resumed := s.Resume == ""
	for _, n := range pl.nodes {
		for _, d := range n.Deps {
			if m, ok := pl.byName[d]; ok {
				n.deps = append(n.deps, m.idx)
			} else {
				n.missing = true
			}
		}
		n.all = append([]int(nil), n.deps...)
		if !p.NoCl && n.kind != "clone" {
			n.all = append(n.all, 0)
		}
		if n.Name == s.Resume {
			resumed = true
		}
		if n.Name == "clone" {
			continue
		}
		n.filt = len(s.Include) > 0 && !has(s.Include, n.Name) || has(s.Exclude, n.Name) || !resumed
	}
	if pl.serial {
		for i, n := range pl.nodes {
			n.all = nil
			for k := 0; k < i; k++ {
				n.all = append(n.all, k)
			}
		}
	}
	var up func(n *node, i int)
	up = func(n *node, i int) {
		for _, d := range pl.nodes[i].all {
			if !n.anc[d] {
				n.anc[d] = true
				up(n, d)
			}
		}
	}
	for _, n := range pl.nodes {
		up(n, n.idx)
	}
	return pl
}

// never reports whether the node can under no circumstances run.
func (n *node) never() bool { return n.cond || n.filt || !n.onOK && !n.onFail }

// cyclic reports whether the dependencies contain a cycle.
func (pl *plan) cyclic() bool {
	for _, n := range pl.nodes {
		if n.anc[n.idx] {
			return true
		}
	}
	return false
}

// builder returns the build step whose product the node's image names: the
// nearest one before it in the document. ok is false if the configuration
// leaves it open (a service).
func (pl *plan) builder(n *node) (b *node, ok bool) {
	if n.kind == "clone" || n.Build != "" {
		return nil, true
	}
	r, tg := canon(n.Image)
	ok = true
	for _, m := range pl.nodes {
		if m.kind != "step" || m.Build == "" {
			continue
		}
		br, bt := canon(m.Build)
		if br != r || bt != tg {
			continue
		}
		if n.kind == "service" {
			b, ok = m, false
		} else if m.idx < n.idx {
			b = m
		}
	}
	return b, ok
}

// wsFull is the path of the workspace.
func (p *Pipe) wsFull() string {
	base := p.Base
	if base == "" {
		base = "/drone/src"
	}
	return path.Join(base, p.Path)
}

func sorted(m map[string]string) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}
