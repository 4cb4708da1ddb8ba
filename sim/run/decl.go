package main

import (
	"encoding/json"
	"fmt"
	"math/big"
	"path"
	"sort"
	"strconv"
	"strings"

	"github.com/drone/drone-runtime/engine"

	"verif.local/sim/simkit"
)

// what C33 expects of the settings of other types: how the value reaches the
// plugin. "=" an exact text, "#" a number, "," a list (elements by the same
// rules), "{" a JSON document, "-" no variable at all.
var anyWant = []string{"#1", "#1000000", "#9007199254740993", "#-5", "#1e6", "#1.5", "#1.0", "#0.0000001", "=true", "=false", "=", ",=a|=b", ",#1|#2|#1000000", ",=a|#1.5|=true", `{{"a":"b"}`, `{{"a":{"b":1000000,"A":2},"c":[1,"x"]}`,
	`{[{"a":1},{"b":[true]}]`, `{{"x":1.5,"y":"1e7"}`, "=", "{{}", "-", `{[["a"],["b"]]`, "=1000000", "#18446744073709551615", `{{"from":"x"}`}

// rawWant is the same for settings that are written as YAML.
var rawWant = map[string]string{
	`[""]`: "=", `0`: "#0", `false`: "=false", `""`: "=", `0.0`: "#0", `9223372036854775807`: "#9223372036854775807", `9223372036854775808`: "#9223372036854775808", `-9223372036854775808`: "#-9223372036854775808", `123456789.123`: "#123456789.123",
	`[[1, [2, {a: [b]}]], {}]`: `{[[1,[2,{"a":["b"]}]],{}]`, `[[], [[]], {a: []}]`: `{[[],[[]],{"a":[]}]`, `{a: [], b: {}, c: "", d: 0, e: false, f: ~}`: `{{"a":[],"b":{},"c":"","d":0,"e":false,"f":null}`,
	`"2001-01-01"`: "=2001-01-01", `[{a: 1, b: 2}, {c: [{d: e}]}]`: `{[{"a":1,"b":2},{"c":[{"d":"e"}]}]`, `{a: {b: {c: {d: [1, {e: f}]}}}}`: `{{"a":{"b":{"c":{"d":[1,{"e":"f"}]}}}}`,
	`{z: 1, a: 2, "1": 3}`: `{{"z":1,"a":2,"1":3}`, `{"a b": "c: d", "#x": "- y", "true": "true"}`: `{{"a b":"c: d","#x":"- y","true":"true"}`, `[{"x": "a\nb"}, ["- c"]]`: `{[{"x":"a\nb"},["- c"]]`,
	`["1.0", "true", "~", "0777"]`: ",=1.0|=true|=~|=0777", `[[[["deep"]]]]`: `{[[[["deep"]]]]`, `{a: [[b]]}`: `{{"a":[["b"]]}`, `[{}]`: `{[{}]`, `"9007199254740993"`: "=9007199254740993", `{from_secret: s1, other: x}`: "-",
}

// fits compares a variable with what is expected.
func fits(want, got string) bool {
	if want == "" {
		return true
	}
	switch want[0] {
	case '=':
		return got == want[1:]
	case '#':
		return sameNumber(want[1:], got)
	case ',':
		ws, gs := strings.Split(want[1:], "|"), strings.Split(got, ",")
		if len(ws) != len(gs) {
			return false
		}
		for i := range ws {
			if !fits(ws[i], gs[i]) {
				return false
			}
		}
		return true
	case '{':
		a, ok := decode(want[1:])
		b, ok2 := decode(got)
		return ok && ok2 && sameJSON(a, b)
	}
	return false
}

func sameNumber(a, b string) bool {
	x, ok := new(big.Rat).SetString(a)
	y, ok2 := new(big.Rat).SetString(b)
	return ok && ok2 && x.Cmp(y) == 0 && strings.Trim(b, "0123456789+-.eE") == ""
}

func decode(s string) (v interface{}, ok bool) {
	d := json.NewDecoder(strings.NewReader(s))
	d.UseNumber()
	if d.Decode(&v) != nil {
		return nil, false
	}
	return v, !d.More()
}

func sameJSON(a, b interface{}) bool {
	switch a := a.(type) {
	case json.Number:
		b, ok := b.(json.Number)
		return ok && sameNumber(a.String(), b.String())
	case []interface{}:
		b, ok := b.([]interface{})
		if !ok || len(a) != len(b) {
			return false
		}
		for i := range a {
			if !sameJSON(a[i], b[i]) {
				return false
			}
		}
		return true
	case map[string]interface{}:
		b, ok := b.(map[string]interface{})
		if !ok || len(a) != len(b) {
			return false
		}
		for k := range a {
			x, ok := b[k]
			if !ok || !sameJSON(a[k], x) {
				return false
			}
		}
		return true
	}
	return a == b
}

// sizeOf reads a memory size; units are binary.
func sizeOf(s string) int64 {
	if s == "" {
		return 0
	}
	i := strings.IndexFunc(s, func(r rune) bool { return !(r >= '0' && r <= '9' || r == '.') })
	unit := 0
	if i >= 0 {
		unit = 10 * (1 + strings.Index("kmgt", strings.ToLower(s[i:i+1])))
		s = s[:i]
	}
	f, _ := new(big.Rat).SetString(s)
	f.Mul(f, new(big.Rat).SetInt(new(big.Int).Lsh(big.NewInt(1), uint(unit))))
	return new(big.Int).Quo(f.Num(), f.Denom()).Int64()
}

// fullName is the complete image reference.
func fullName(img string) string {
	repo, tag := canon(img)
	if strings.HasPrefix(tag, "@") {
		return repo + tag
	}
	return repo + ":" + tag
}

// wantEnv lists for each variable the values it may have.
type wantEnv map[string][]string

// plainEnv is what the step declares.
func (a *account) wantEnv(n *node) wantEnv {
	b, p := a.b, a.b.pipe
	plain, sec := wantEnv{}, wantEnv{}
	put := func(m wantEnv, k, v string) { m[k] = append(m[k], v) }
	switch {
	case n.kind == "clone":
		if p.Depth > 0 {
			put(plain, "PLUGIN_DEPTH", "="+strconv.Itoa(p.Depth))
		}
		if p.SkipV {
			put(plain, "PLUGIN_SKIP_VERIFY", "=true")
			put(plain, "GIT_SSL_NO_VERIFY", "=true")
		}
	case n.Build != "":
		bits := n.BBits
		if bits == 0 && n.BForm != 0 {
			put(plain, "DOCKER_BUILD_CONTEXT", "=.")
			put(plain, "DOCKER_BUILD_DOCKERFILE", "=Dockerfile")
			put(plain, "DOCKER_BUILD_CACHE_FROM", "=x")
		}
		if bits&1 != 0 {
			put(plain, "DOCKER_BUILD_CONTEXT", "=docker")
		}
		if bits&2 != 0 {
			put(plain, "DOCKER_BUILD_DOCKERFILE", "=docker/Dockerfile")
		}
		if bits&16 != 0 {
			put(plain, "DOCKER_BUILD_CACHE_FROM", "=x,y:1")
		}
		put(plain, "DOCKER_BUILD_IMAGE", "="+fullName(n.Build))
		put(plain, "DOCKER_BUILD_IMAGE_ALIAS", "")
	default:
		for k, v := range n.Env {
			put(plain, k, "="+v)
		}
		if !n.NoID {
			plain["SIM_ID"] = []string{"=" + mark(n.id)}
		}
		set := func(k, v string) {
			if v != "-" {
				put(plain, "PLUGIN_"+strings.ToUpper(k), v)
			}
		}
		for k, v := range n.Set {
			set(k, "="+v)
		}
		for i, k := range n.Any {
			set(fmt.Sprint("any", i), anyWant[k%len(anyWant)])
		}
		for i, k := range n.Raw {
			raw := rawValues[k]
			w, known := rawWant[raw]
			if raw == `{from_secret: s1, other: x}` {
				if v, ok := b.secrets["s1"]; ok {
					put(sec, fmt.Sprint("PLUGIN_RAW", i), "="+v)
				}
				continue
			}
			if !known {
				w = "" // any value
			}
			set(fmt.Sprint("raw", i), w)
		}
		if n.Kind == "plugin" {
			set("sim_mark", "="+mark(n.id))
		}
		for k, s := range n.EnvSec {
			if v, ok := b.secrets[s]; ok {
				put(sec, k, "="+v)
			}
		}
		for k, s := range n.SetSec {
			if v, ok := b.secrets[s]; ok {
				put(sec, "PLUGIN_"+strings.ToUpper(k), "="+v)
			}
		}
	}
	// of the pipeline
	base := p.Base
	if base == "" {
		base = "/drone/src"
	}
	sub, full := p.Path, path.Join(base, p.Path)
	if p.OS == "windows" {
		bs := func(s string) string { return strings.ReplaceAll(s, "/", "\\") }
		base, sub, full = "c:"+bs(base), bs(sub), "c:"+bs(full)
		if n.Kind == "cmd" {
			plain["CI_SCRIPT"] = []string{""}
			plain["SHELL"] = []string{""}
		}
	}
	for _, pre := range []string{"DRONE_", "CI_"} {
		plain[pre+"WORKSPACE_BASE"] = []string{"=" + base}
		plain[pre+"WORKSPACE_PATH"] = []string{"=" + sub}
		plain[pre+"WORKSPACE"] = []string{"=" + full}
	}
	// of the operator
	for k, v := range b.set.Env {
		plain[k] = []string{"=" + v}
	}
	for _, k := range []string{"http_proxy", "HTTP_PROXY"} {
		plain[k] = []string{"=http://proxy.example.com"}
	}
	for _, k := range []string{"no_proxy", "NO_PROXY"} {
		plain[k] = []string{"=localhost"}
	}
	if b.set.Netrc {
		for _, pre := range []string{"DRONE_", "CI_"} {
			plain[pre+"NETRC_MACHINE"] = []string{"=git"}
			plain[pre+"NETRC_USERNAME"] = []string{"=u"}
			plain[pre+"NETRC_PASSWORD"] = []string{"=" + cred(b.t.Org, "netrc")}
		}
	}
	for k, v := range sec {
		plain[k] = v
	}
	return plain
}

// imageWanted is the image of a container; ok is false if it is not
// determined.
func (a *account) imageWanted(n *node) (img string, ok bool) {
	p := a.b.pipe
	switch {
	case n.kind == "clone" && p.OS == "windows":
		if p.Variant != "" && p.Version == "" {
			return "", false
		}
		switch p.Version {
		case "1709", "1803", "1903":
			return "docker.io/drone/git:windows-" + p.Version + "-amd64", true
		case "", "1809":
			return "docker.io/drone/git:windows-1809-amd64", true
		}
		return "", false
	case n.kind == "clone":
		if p.OS == "linux" && (p.Arch == "arm" || p.Arch == "arm64") {
			return "docker.io/drone/git:linux-" + p.Arch, true
		}
		return "docker.io/drone/git:latest", true
	case n.Build != "":
		return "docker.io/drone/docker:latest", true
	}
	m, ok := a.b.plan.builder(n)
	if !ok {
		return "", false
	}
	if m == nil {
		return fullName(n.Image), true
	}
	for _, s := range a.b.spec.Steps {
		if s.Metadata.Name == m.Name {
			return s.Envs["DOCKER_BUILD_IMAGE_ALIAS"], true
		}
	}
	return "", false
}

// mountsWanted lists the mounts, ok is false if they are not determined.
func (a *account) mountsWanted(n *node) (l []string, ok bool) {
	p, s := a.b.pipe, a.b.set
	x := &box{windows: p.OS == "windows"}
	base := p.Base
	if base == "" {
		base = "/drone/src"
	}
	full := x.norm(p.wsFull())
	base = x.norm(base)
	if s.Host != "" {
		l = append(l, full+" host:"+s.Host)
		if base != full {
			l = append(l, base+" workspace")
		}
		if base != full && p.Path == "" {
			return nil, false
		}
	} else {
		l = append(l, base+" workspace")
	}
	if n.Build != "" {
		l = append(l, "/var/run/docker.sock host:/var/run/docker.sock")
	} else {
		for _, m := range n.Vols {
			var v *Vol
			for i := range p.Vols {
				if p.Vols[i].Name == m.Name {
					v = &p.Vols[i]
					break
				}
			}
			switch {
			case v == nil:
				continue // not declared
			case v.Kind == "both" || strings.HasPrefix(m.Name, "_") || m.Name == "workspace":
				return nil, false
			case v.Kind == "host":
				l = append(l, x.norm(m.Path)+" host:"+v.Path)
			case v.Kind == "memory":
				l = append(l, fmt.Sprintf("%s memory of %q size %d", x.norm(m.Path), v.Name, sizeOf(v.Size)))
			case v.Kind == "temp" && v.Medium != "":
				l = append(l, fmt.Sprintf("%s temp on %q of %q size %d", x.norm(m.Path), v.Medium, v.Name, sizeOf(v.Size)))
			default:
				l = append(l, fmt.Sprintf("%s temp of %q size %d", x.norm(m.Path), v.Name, sizeOf(v.Size)))
			}
		}
	}
	for k, v := range s.Volumes {
		l = append(l, x.norm(v)+" host:"+k)
	}
	sort.Strings(l)
	return l, true
}

// mountsFound lists the mounts a container was created with.
func (b *box) mountsFound() (l []string) {
	for _, m := range b.step.Volumes {
		v, ok := engine.LookupVolume(b.spec, m.Name)
		if !ok {
			continue
		}
		t := b.norm(m.Path)
		switch {
		case v.EmptyDir == nil && v.HostPath != nil:
			t += " host:" + v.HostPath.Path
		case v.EmptyDir == nil:
			t += " nothing"
		case m.Name == "workspace" && v.EmptyDir.Medium == "":
			t += " workspace"
		case v.EmptyDir.Medium == "memory":
			t += fmt.Sprintf(" memory of %q size %d", m.Name, v.EmptyDir.SizeLimit)
		case v.EmptyDir.Medium == "":
			t += fmt.Sprintf(" temp of %q size %d", m.Name, v.EmptyDir.SizeLimit)
		default:
			t += fmt.Sprintf(" temp on %q of %q size %d", v.EmptyDir.Medium, m.Name, v.EmptyDir.SizeLimit)
		}
		l = append(l, t)
	}
	sort.Strings(l)
	return
}

// checkDeclared (C33): every container is created as it is declared.
func checkDeclared(w *world, a *account, o *simkit.Outcome) {
	b, p := a.b, a.b.pipe
	for _, x := range w.h.made {
		n := b.plan.byName[x.name]
		if x.ten != b.ten || n == nil || o.Fail != nil {
			continue
		}
		who := fmt.Sprintf("pipeline %d: %q", b.ten, x.name)
		d := x.step.Docker
		bad := func(class string, got, want interface{}) {
			o.Failf(class, "%s is created with %s %s instead of %s", who, class, js(got), js(want))
		}
		if img, ok := a.imageWanted(n); ok && fullName(d.Image) != img {
			bad("image", d.Image, img)
		}
		// an unknown policy is the default one
		pull, ok := map[string]engine.PullPolicy{"always": engine.PullAlways, "if-not-exists": engine.PullIfNotExists, "never": engine.PullNever}[strings.ToLower(n.Pull)]
		if !ok {
			pull = engine.PullDefault
		}
		if n.kind == "clone" || n.Build != "" {
			pull = engine.PullIfNotExists
		}
		if d.PullPolicy != pull {
			bad("pull-policy", d.PullPolicy, pull)
		}
		list := func(class string, got, want []string) {
			if len(got) == 0 && len(want) == 0 {
				return
			}
			if js(got) != js(want) {
				bad(class, got, want)
			}
		}
		switch {
		case n.Build != "":
			list("arguments", d.Args, []string{"--build"})
			list("entrypoint", d.Command, nil)
		case n.Kind != "cmd":
			list("arguments", d.Args, n.Args)
			list("entrypoint", d.Command, n.Entry)
		}
		var dns, search, hosts []string
		if n.DNS {
			if n.DNSF == 0 || n.DNSF&1 != 0 {
				dns = []string{"8.8.8.8", "1.1.1.1"}
			}
			if n.DNSF == 0 || n.DNSF&2 != 0 {
				search = []string{"example.com", "corp.example.com"}
			}
			if n.DNSF == 0 || n.DNSF&4 != 0 {
				hosts = []string{"b:1.2.3.5", "a:1.2.3.4"}
			}
		}
		if n.Build == "" {
			list("dns", d.DNS, dns)
			list("dns-search", d.DNSSearch, search)
			list("extra-hosts", d.ExtraHosts, hosts)
			if d.Network != n.Net {
				bad("network", d.Network, n.Net)
			}
			if d.User != n.User {
				bad("user", d.User, n.User)
			}
			var got, want []string
			for _, q := range append(append([]Prt(nil), n.Ports...), Prt{Port: n.Port, Host: n.HPort}) {
				if q.Port != 0 {
					want = append(want, fmt.Sprintf("%d:%d/%s", q.Host, q.Port, q.Proto))
				}
			}
			for _, q := range d.Ports {
				got = append(got, fmt.Sprintf("%d:%d/%s", q.Host, q.Port, q.Protocol))
			}
			list("ports", got, want)
		}
		list("networks", d.Networks, b.set.Networks)
		priv := n.Priv
		if n.kind != "clone" && n.Build == "" && len(n.Entry) == 0 && len(n.Args) == 0 && n.Kind != "cmd" {
			if m, ok := b.plan.builder(n); ok && m == nil {
				repo, _ := canon(n.Image)
				for _, i := range b.set.Dind {
					if r, _ := canon(i); r == repo {
						priv = true
					}
				}
			} else if !ok {
				priv = d.Privileged
			}
		}
		if d.Privileged != priv {
			bad("privileged", d.Privileged, priv)
		}
		// environment
		we := a.wantEnv(n)
		for _, k := range sortedEnv(we) {
			got, ok := x.env[k]
			if !ok {
				o.Failf("environment", "%s is created without the variable %s (%s)", who, k, we[k])
				continue
			}
			match := false
			for _, v := range we[k] {
				match = match || fits(v, got)
			}
			if !match {
				o.Failf("environment", "%s is created with %s=%q, but declares %q", who, k, got, we[k])
			}
		}
		for _, k := range sorted(x.env) {
			if _, ok := we[k]; !ok && k != "DOCKER_NETWORK_ID" && k != "DRONE_DOCKER_NETWORK_ID" {
				o.Failf("environment", "%s is created with %s=%q, which nobody declares", who, k, x.env[k])
			}
		}
		// limits
		res := func(r *engine.ResourceObject) [2]int64 {
			if r == nil {
				return [2]int64{}
			}
			return [2]int64{r.CPU, r.Memory}
		}
		var lim, req [2]int64
		if r := x.step.Resources; r != nil {
			lim, req = res(r.Limits), res(r.Requests)
		}
		var wlim, wreq [2]int64
		wreq[1] = sizeOf(n.ReqM)
		if n.Mem != "" {
			cpu := n.CPU
			if cpu == 0 {
				cpu = 1.5
			}
			wlim = [2]int64{int64(cpu*1000 + 1e-6), sizeOf(n.Mem)}
			if cpu > 1e12 {
				wlim[0] = lim[0]
			}
		}
		if b.set.Mem != 0 {
			wlim = [2]int64{0, b.set.Mem}
		}
		if lim != wlim {
			bad("limits", lim, wlim)
		}
		if req != wreq {
			bad("requests", req, wreq)
		}
		// labels
		labels := map[string]string{"io.drone.step.name": n.Name}
		for k, v := range b.set.Labels {
			labels[k] = v
		}
		list("labels", pairs(x.step.Metadata.Labels), pairs(labels))
		if m, ok := a.mountsWanted(n); ok {
			list("mounts", x.mountsFound(), m)
		}
		dir := x.norm(p.wsFull())
		if n.detach && n.Kind != "cmd" {
			dir = n.Cwd
		}
		if x.norm(x.step.WorkingDir) != x.norm(dir) && !(n.detach && n.Build != "") {
			bad("working-directory", x.step.WorkingDir, dir)
		}
		// files
		files := map[string]string{}
		for k, v := range x.files {
			if n.Kind == "cmd" && strings.Contains(v, mark(n.id)) {
				continue // the script, see C38
			}
			files[k] = v
		}
		want := map[string]string{}
		if n.kind == "clone" && b.set.Creds {
			want["/root/.git-credentials"] = "https://u:" + cred(b.t.Org, "git") + "@git"
		}
		list("files", pairs(files), pairs(want))
	}
	auths := map[string]bool{}
	for _, d := range b.set.Auths {
		auths[d] = true
	}
	for _, q := range w.h.pulls {
		if q.ten != b.ten {
			continue
		}
		repo, _ := canon(q.image)
		dom := repo[:strings.Index(repo, "/")]
		want := ""
		if auths[dom] {
			want = cred(b.t.Org, "auth:"+dom)
		}
		if q.auth != want {
			o.Failf("credentials", "pipeline %d: %s is pulled with the credentials %q instead of %q", b.ten, q.image, q.auth, want)
		}
	}
}

func sortedEnv(m wantEnv) (l []string) {
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return
}

// genDeclared makes scenarios in which the containers are declared in every
// detail.
func genDeclared(r *simkit.Rng, thorough bool) interface{} {
	w := weights{graph: .4, svc: .5, detach: .25, fail: .2, faults: .3, skip: .15, sel: .1, secrets: .4, vols: .5, build: .2, host: .15, cancel: .03, win: .12, ops: .6, status: .2, restart: .04, same: .3, tenants: 3, steps: 5}
	if thorough && r.P(.3) {
		w.steps *= 2
		w.tenants += 2
	}
	s := &Scen{Lat: r.U64(), MapSeed: r.U64(), Ent: r.U64()}
	if r.P(.3) {
		s.Slow = r.Range(2, 12)
	}
	for i, n := 0, r.Range(1, w.tenants); i < n; i++ {
		t := genTenant(r, w, s, i)
		if t.Same == 0 && r.P(.7) {
			(&gener{r: r, w: w, t: &t, p: &t.P}).rich()
		}
		for _, l := range [][]Ctr{t.P.Steps, t.P.Svcs} {
			for i := range l {
				if t.Same == 0 && r.P(.08) {
					l[i].Pull = r.Pick("never", "Always", "IF-NOT-EXISTS", "always", "sometimes")
				}
				if t.Same == 0 && l[i].Kind != "build" && r.P(.05) {
					l[i].Env = cloneMap(l[i].Env)
					if l[i].Env == nil {
						l[i].Env = map[string]string{}
					}
					l[i].Env[r.Pick("PLUGIN_REPO", "PLUGIN_DEPTH", "DRONE_WORKSPACE_PATH", "http_proxy", "HOME", "PATH", "OPER")] = "own"
				}
			}
		}
		s.Tenants = append(s.Tenants, t)
	}
	if r.P(w.restart) {
		s.Restart = r.Range(1, 900000)
	}
	return s
}
