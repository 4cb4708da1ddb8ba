package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"regexp"
	"sort"
	"strings"
	"time"

	"github.com/drone/drone-yaml/yaml"
	"github.com/drone/drone-yaml/yaml/converter"
	"github.com/drone/drone-yaml/yaml/pretty"
	"github.com/drone/drone-yaml/yaml/signer"

	"verif.local/sim/simkit"
)

// FScen is a scenario that is executed twice: as it was written and after the
// configuration went through the steps of Form.
type FScen struct {
	Form []string `json:"form"` // fmt sign json yaml convert
	Scen
}

// reform brings a configuration file into another form. Every step yields the
// text of a configuration file, except json as the last one.
func reform(text string, form []string) (m *yaml.Manifest, out string, err error) {
	for _, f := range form {
		if m, err = yaml.ParseString(text); err != nil {
			return nil, text, err
		}
		switch f {
		case "fmt":
			var b bytes.Buffer
			pretty.Print(&b, m)
			text = b.String()
		case "sign":
			b, err := signer.SignUpdate([]byte(text), signer.KeyString("589396cd-2e5f-4d3b-9ab0-32byteke"))
			if err != nil {
				return nil, text, err
			}
			text = string(b)
		case "yaml":
			b, err := m.Encode()
			if err != nil {
				return nil, text, err
			}
			text = string(b)
		case "json", "jsonfmt":
			b, err := json.Marshal(m)
			if err != nil {
				return nil, text, err
			}
			m = &yaml.Manifest{}
			if err := json.Unmarshal(b, m); err != nil {
				return nil, string(b), err
			}
			if f == "json" {
				return m, string(b), nil
			}
			var o bytes.Buffer
			pretty.Print(&o, m)
			text = o.String()
		case "convert":
			b, err := converter.ConvertString(text, converter.Metadata{Filename: ".drone.yml"})
			if err != nil {
				return nil, text, err
			}
			text = b
		}
	}
	m, err = yaml.ParseString(text)
	return m, text, err
}

func formProp() func(json.RawMessage, int) simkit.Outcome {
	return func(raw json.RawMessage, _ int) (o simkit.Outcome) {
		var s FScen
		if err := json.Unmarshal(raw, &s); err != nil {
			o.Err = err.Error()
			return
		}
		if len(s.Tenants) == 0 || len(s.Form) == 0 {
			o.Triv = true
			return
		}
		s.Scen.stagger = true
		w := play(&s.Scen)
		o.Poison = w.hung
		s.Scen.form = s.Form
		v := play(&s.Scen)
		o.Poison = o.Poison || v.hung
		o.SimMs = int64((w.dur + v.dur) / time.Millisecond)
		o.Steps = int64(len(w.h.events) + len(v.h.events))
		for k, n := range v.h.faults {
			o.Fault(k, n)
		}
		for _, f := range s.Form {
			o.Probe("form-" + f)
		}
		o.Triv = true
		a, b := w.observe(), v.observe()
		for i, x := range w.runs {
			y := v.runs[i]
			if harness(x) || harness(y) {
				o.Err = x.panicked + y.panicked
				return
			}
			switch {
			case x.perr != nil:
				o.Probe("not-parsed")
				continue
			case y.cause == "parse":
				o.Failf("form-panics", "pipeline %d cannot be stored as %v: %s", i, s.Form, y.panicked)
			case y.perr != nil:
				o.Failf("form-not-accepted", "pipeline %d stored as %v is not accepted any more: %v\n%s", i, s.Form, y.perr, y.text)
			case x.lint != nil:
				o.Probe("rejected")
			case x.panicked != "":
				o.Probe("panicked")
			default:
				o.Triv = false
				if x.spec != nil && w.ambiguous(x) {
					// two things happen at the same instant and
					// either may be the first
					o.Probe("schedule-tie")
					continue
				}
			}
			if o.Fail == nil {
				if d := differ(a[i], b[i]); d != "" {
					o.Failf("runs-differently", "pipeline %d stored as %v runs differently: %s\nas written:\n%s\nstored:\n%s", i, s.Form, d, x.text, y.text)
				}
			}
			if o.Fail == nil && x.perr == nil && y.text != "" && !x.shared0 {
				once, e1 := idem(y.text, &o)
				if e1 == nil {
					twice, e2 := idem(once, &o)
					if e2 != nil {
						o.Failf("formatted-not-accepted", "the formatted file is not accepted: %v\n%s", e2, once)
					} else if once != twice {
						o.Failf("not-idempotent", "formatting the formatted file of pipeline %d changes it:\n%s\nbecomes\n%s", i, once, twice)
					}
				}
			}
		}
		st, d := w.digests()
		_, d2 := v.digests()
		o.State, o.Digest = st, d^d2*31
		if o.Fail != nil {
			for _, t := range s.Tenants {
				if tagLike.MatchString(t.Text()) {
					o.Fail.Class = "unquoted-tag" // recorded, never generated
				}
			}
			o.Log = v.trace()
		}
		return
	}
}

// ambiguous reports whether the outcome of the build depends on the order of
// events at the same instant.
func (w *world) ambiguous(b *build) bool {
	if !b.comparable() {
		return false
	}
	for _, r := range w.account(b).runs {
		if r.should == "maybe" {
			return true
		}
	}
	return false
}

// tagLike finds strings that the formatter is meant to leave unquoted although
// they are tags or anchors then.
var tagLike = regexp.MustCompile(`"(!|&|\\u0026)\w+"`)

// idem formats a file.
func idem(text string, o *simkit.Outcome) (string, error) {
	if strings.HasPrefix(text, "[") {
		return "", fmt.Errorf("json")
	}
	m, err := yaml.ParseString(text)
	if err != nil {
		return "", err
	}
	var b bytes.Buffer
	pretty.Print(&b, m)
	return b.String(), nil
}

func differ(a, b []string) string {
	for i := 0; i < len(a) || i < len(b); i++ {
		x, y := "nothing", "nothing"
		if i < len(a) {
			x = a[i]
		}
		if i < len(b) {
			y = b[i]
		}
		if x != y {
			// only the lines that differ
			xl, yl := strings.Split(x, "\n"), strings.Split(y, "\n")
			if len(xl) == len(yl) && len(xl) > 1 && xl[0] == yl[0] {
				x, y = xl[0], yl[0]
				for k := range xl {
					if xl[k] != yl[k] {
						x, y = x+" "+xl[k], y+" "+yl[k]
						break
					}
				}
			}
			return fmt.Sprintf("as written: %s\n    stored: %s", x, y)
		}
	}
	return ""
}

// observe lists, for every build, what could be observed from outside.
func (w *world) observe() [][]string {
	out := make([][]string, len(w.runs))
	uids := map[string]string{}
	for _, b := range w.runs {
		if b.spec == nil {
			continue
		}
		add := func(uid, n string) {
			if uid != "" {
				uids[uid] = fmt.Sprintf("uid-%d-%s", b.ten, n)
			}
		}
		add(b.spec.Metadata.UID, "spec")
		for i, s := range b.spec.Steps {
			add(s.Metadata.UID, fmt.Sprint("step", i))
		}
		if b.spec.Docker != nil {
			for i, v := range b.spec.Docker.Volumes {
				add(v.Metadata.UID, fmt.Sprint("vol", i))
			}
		}
		for i, f := range b.spec.Files {
			add(f.Metadata.UID, fmt.Sprint("file", i))
		}
		for i, s := range b.spec.Secrets {
			add(s.Metadata.UID, fmt.Sprint("secret", i))
		}
	}
	norm := func(s string) string {
		for k, v := range uids {
			s = strings.ReplaceAll(s, k, v)
		}
		return s
	}
	for i, b := range w.runs {
		l := []string{}
		switch {
		case b.lint != nil:
			l = append(l, "rejected: "+b.lint.Error())
		case b.panicked != "":
			l = append(l, "panics: "+strings.SplitN(b.panicked, "\n", 2)[0])
		}
		l = append(l, decisions(b.parsed, b.set)...)
		evs := append([]event(nil), w.h.events...)
		sort.SliceStable(evs, func(i, j int) bool {
			a, b := evs[i], evs[j]
			return a.T < b.T || a.T == b.T && a.Name < b.Name
		})
		for _, e := range evs {
			if e.Ten == i {
				l = append(l, norm(fmt.Sprintf("%v %s %s ret=%v err=%s code=%d oom=%v inj=%v", e.T, e.Name, e.Kind, e.Ret, e.Err, e.Code, e.OOM, e.Inj)))
			}
		}
		var boxes []string
		for _, x := range w.h.made {
			if x.ten == i {
				boxes = append(boxes, norm(x.dump()))
			}
		}
		sort.Strings(boxes)
		l = append(l, boxes...)
		l = append(l, fmt.Sprint("secrets asked for: ", b.calls))
		l = append(l, fmt.Sprint("result: ", b.done, b.result, b.resultAt))
		out[i] = l
	}
	return out
}

// dump shows everything a container was created with.
func (b *box) dump() string {
	st := *b.step
	d, _ := json.Marshal(st)
	var x interface{}
	json.Unmarshal(d, &x)
	d, _ = json.Marshal(prune(x))
	var ms []string
	for _, m := range b.mounts {
		ms = append(ms, fmt.Sprint(m))
	}
	sort.Strings(ms)
	l := []string{b.name, "image " + b.imgRef, fmt.Sprintf("built %v", b.image), fmt.Sprint("env ", pairs(b.env)), fmt.Sprint("files ", pairs(b.files)), fmt.Sprint("mounts ", ms), fmt.Sprint("net ", b.net, " privileged ", b.priv, " windows ", b.windows), "spec " + string(d)}
	return strings.Join(l, "\n      ")
}

// prune removes sections that say nothing.
func prune(v interface{}) interface{} {
	switch v := v.(type) {
	case map[string]interface{}:
		for k, x := range v {
			if x = prune(x); x == nil {
				delete(v, k)
			} else {
				v[k] = x
			}
		}
		if len(v) == 0 {
			return nil
		}
	case []interface{}:
		for i := range v {
			v[i] = prune(v[i])
		}
		if len(v) == 0 {
			return nil
		}
	}
	return v
}

func pairs(m map[string]string) (l []string) {
	for _, k := range sorted(m) {
		l = append(l, k+"="+fmt.Sprintf("%q", m[k]))
	}
	return
}

// decisions lists what a server decides by before it hands the pipeline to an
// agent.
func decisions(p *yaml.Pipeline, s *Settings) (l []string) {
	if p == nil {
		return
	}
	l = append(l, fmt.Sprintf("server: type %q depends on %q limit %d pull secrets %q", p.Type, p.DependsOn, p.Concurrency.Limit, p.PullSecrets))
	l = append(l, fmt.Sprint("server: node ", pairs(p.Node)))
	// the runner is chosen by the platform, linux on amd64 by default
	if pf := p.Platform; pf == (yaml.Platform{}) {
		l = append(l, `server: platform "linux" "amd64" "" ""`)
	} else {
		l = append(l, fmt.Sprintf("server: platform %q %q %q %q", pf.OS, pf.Arch, pf.Variant, pf.Version))
	}
	for i, c := range []yaml.Condition{p.Trigger.Action, p.Trigger.Branch, p.Trigger.Cron, p.Trigger.Event, p.Trigger.Instance, p.Trigger.Ref, p.Trigger.Repo, p.Trigger.Status, p.Trigger.Target, p.Trigger.Paths} {
		t := ""
		for _, v := range triggerVals {
			if c.Match(v) {
				t += "1"
			} else {
				t += "0"
			}
		}
		l = append(l, fmt.Sprintf("server: trigger %d %s", i, t))
	}
	return
}

var triggerVals = []string{"master", "develop", "feature/a", "feature/a/b", "push", "pull_request", "tag", "promote", "drone.company.com", "refs/heads/master", "refs/tags/v1.0.0", "refs/pull/42/head", "octocat/hello-world", "spaceghost/x", "nightly", "hourly", "production", "staging", "opened", "sync", "success", "failure", "", "1.0", "true", "!x", "1"}

// oddText are strings that need care when they are written down.
var oddText = []string{"true", "false", "yes", "no", "on", "off", "y", "Null", "1", "0", "-1", "1.0", "1.10", "0777", "0x1f", "1_000", "1:30", "1e3", "12e03", ".5", ".inf", ".nan", "2001-01-01", "2001-12-14t21:59:43.10-05:00", "",
	" lead", "trail ", "\tx", "a\tb", "a\nb", "a\n", "\n", "a: b", "a:b", "key:", ":x", ": x", ":", "a #b", "#c", "a#b", "- a", "-a", "-", "--", "---", "--- x", "...", "? a", "?", "?x", "!a/b", "! x", "!", "!!str x", "& a", "&& make", "&", "*a", "*", "@x", "`x`", "|", "|-", "| x", ">", "> x", ">x", "&a-b", "!{x}",
	"%d", "%", "{a}", "{", "}", "[a]", "[", "]", "a]", "a, b", ",", "'q'", "'", "\"dq\"", "\"", "it's", "a\"b", "back\\slash", "\\", "\\n", "<<", "=", "é", "日本", "😀", "\u00a0x", "a\u0085b", "a\u2028b", "\ufeffx", "a\u007fb", "a\u0001b", "a\r\nb", "a\x1bb", "\u00ff", "${FOO}", "$$", "a  b", "x-y_z", "0o7", "0b1", "+1", "+.5", "1.", "._", "_", "_1", "1__0", "685_230.15", "190:20:30",
	"echo ${DRONE_TAG##v} | tee -a x.log", "if [ -f a ]; then echo \"b: c\"; fi", "awk '{ print $1 }' > \"o u t\" # done", strings.Repeat("long ", 60), strings.Repeat("x", 200), "- - a", "a:\tb", "a\t#b", "a :b", "a\\\nb", "%YAML 1.1"}

// rawValues are settings in yaml.
var rawValues = []string{`{1: a, 2: {x: 1}}`, `{true: a, false: b}`, `{1.5: a}`, `[~, 1, "1"]`, `{a: ~}`, `{"": a}`, `[""]`, `[[1, [2, {a: [b]}]], {}]`, `[[], [[]], {a: []}]`, `{a: [], b: {}, c: "", d: 0, e: false, f: ~}`, `[0, false, "", 0.0]`, `0`, `false`, `""`, `0.0`, `1e100`, `.inf`, `-.inf`, `.nan`, `0777`, `0x1F`, `9223372036854775807`, `9223372036854775808`, `-9223372036854775808`, `123456789.123`,
	`2001-01-01`, `!!str 1`, `!!binary aGVsbG8=`, `"2001-01-01"`, `{a: 2001-01-01}`, `[{a: 1, b: 2}, {c: [{d: e}]}]`, `{a: {b: {c: {d: [1, {e: f}]}}}}`, `{z: 1, a: 2, "1": 3}`, `{"a b": "c: d", "#x": "- y", "true": "true"}`, `[{"x": "a\nb"}, ["- c"]]`, `&anc [a, b]`, `{from_secret: ""}`, `{from_secret: s1, other: x}`, `{<<: {a: b}, c: d}`, `[-1, 1.0, 1.10]`, `["1.0", "true", "~", "0777"]`, `{"a": {"~": "null"}}`, `[{}]`, `{a: [[b]]}`, `[[[["deep"]]]]`, `[~]`, `!!float 1.0`, `"9007199254740993"`, `1.7976931348623157e308`, `[{a: [], b: {}}, ~, [~]]`}

var oddSizes = []string{"1500MiB", "1537KiB", "123456789", "1", "999", "1023", "1025", "1.5GiB", "1048577", "3GiB", "10m", "2G", "0", "1099511627777", "512k", "1234567890123"}

// rich adds everything the format knows.
func (g *gener) rich() {
	r, p := g.r, g.p
	odd := func() string {
		if r.P(.15) {
			return r.Pick("a", "x y", "go test ./...", "1.2.3")
		}
		return oddText[r.Intn(len(oddText))]
	}
	key := func() string {
		return r.Pick("K", "1", "true", "null", "A.b", "x-y", "yes", "é", "0777", "a b", "~", "#k", "1.0")
	}
	for i := range p.Steps {
		if r.P(.15) && p.Steps[i].Name != "clone" {
			n := odd()
			if strings.TrimSpace(n) == "" || strings.ContainsAny(n, "\r\n") {
				continue
			}
			ok := true
			for k := range p.Steps {
				ok = ok && p.Steps[k].Name != n
			}
			for k := range p.Svcs {
				ok = ok && p.Svcs[k].Name != n
			}
			if !ok {
				continue
			}
			o := p.Steps[i].Name
			p.Steps[i].Name = n
			for k := range g.t.Faults {
				if g.t.Faults[k].Step == o {
					g.t.Faults[k].Step = n
				}
			}
			for _, l := range [][]string{g.t.S.Include, g.t.S.Exclude} {
				for k := range l {
					if l[k] == o {
						l[k] = n
					}
				}
			}
			if g.t.S.Resume == o {
				g.t.S.Resume = n
			}
			for _, l := range [][]Ctr{p.Steps, p.Svcs} {
				for k := range l {
					for d := range l[k].Deps {
						if l[k].Deps[d] == o {
							l[k].Deps[d] = n
						}
					}
				}
			}
		}
	}
	for _, l := range [][]Ctr{p.Steps, p.Svcs} {
		for i := range l {
			c := &l[i]
			if c.Kind == "cmd" && r.P(.5) {
				for k := r.Range(1, 3); k > 0; k-- {
					c.Cmds = append(c.Cmds, odd())
				}
			}
			if c.Kind != "build" && r.P(.5) {
				if c.Env == nil {
					c.Env = map[string]string{}
				} else {
					c.Env = cloneMap(c.Env)
				}
				for k := r.Range(1, 3); k > 0; k-- {
					c.Env[key()] = odd()
				}
			}
			if c.Kind == "plugin" || r.P(.1) && c.Kind == "bare" {
				if r.P(.4) {
					if c.Set == nil {
						c.Set = map[string]string{}
					} else {
						c.Set = cloneMap(c.Set)
					}
					for k := r.Range(1, 3); k > 0; k-- {
						c.Set[key()] = odd()
					}
				}
				for r.P(.5) {
					c.Raw = append(c.Raw, r.Intn(len(rawValues)))
				}
			}
			if r.P(.15) {
				c.Mem = oddSizes[r.Intn(len(oddSizes))]
				c.CPU = []float64{0, 1, .5, 1.25, 1e-3, 100, 1e21, 2.03, 8.11, 1.001, 0.7}[r.Intn(11)]
			}
			if r.P(.08) {
				c.ReqM = oddSizes[r.Intn(len(oddSizes))]
			}
			if r.P(.06) {
				c.User = odd()
			}
			if r.P(.06) {
				c.Cwd = "/" + odd()
			}
			if r.P(.06) && c.Kind == "bare" {
				c.Entry = []string{odd(), odd()}
			}
			if r.P(.06) && c.Kind == "bare" {
				c.Args = []string{odd(), odd()}
			}
			if r.P(.1) {
				for k := r.Range(1, 4); k > 0; k-- {
					c.Ports = append(c.Ports, Prt{Port: r.Range(1, 9000), Proto: r.Pick("", "tcp", "udp"), Short: r.P(.5)})
				}
			}
			if c.Kind == "build" && r.P(.6) {
				c.BBits = r.Intn(32)
				if r.P(.4) {
					c.BBits = 1 << r.Intn(5)
				}
				c.BArgs = map[string]string{key(): odd(), "B": odd()}
			}
			if r.P(.05) {
				c.Shell = r.Pick("bash", "sh", "powershell")
			}
			if r.P(.1) {
				if c.When == nil {
					c.When = map[string]Cond{}
				}
				c.When[r.Pick("branch", "paths", "ref", "event", "target", "repo")] = Cond{Inc: []string{odd()}, Exc: [][]string{nil, {odd()}}[r.Intn(2)], Form: r.Intn(3)}
			}
		}
	}
	if r.P(.2) {
		p.Node = map[string]string{key(): odd(), "disk": odd()}
	}
	if r.P(.1) {
		p.PullSec = []string{"s1", odd()}
	}
	if r.P(.1) {
		p.Limit = r.Range(1, 9)
	}
	if r.P(.15) {
		p.PDeps = []string{odd(), "x"}
	}
	if r.P(.2) {
		p.Trig = map[string]Cond{}
		for k := r.Range(1, 3); k > 0; k-- {
			k := whenKeys[r.Intn(len(whenKeys))]
			p.Trig[k] = g.cond(k)
			if r.P(.2) {
				p.Trig[k] = Cond{Inc: []string{odd()}}
			}
		}
	}
	if r.P(.2) && len(p.Vols) > 0 {
		v := &p.Vols[r.Intn(len(p.Vols))]
		if v.Kind == "temp" || v.Kind == "memory" {
			v.Size = oddSizes[r.Intn(len(oddSizes))]
		}
	}
	if r.P(.1) {
		p.Name = odd()
		if strings.TrimSpace(p.Name) == "" {
			p.Name = "default"
		}
	}
	if r.P(.1) {
		p.Variant = r.Pick("v7", "v8")
	}
	if r.P(.06) {
		p.Version = r.Pick("1709", "1803", "1809", "1903")
		if r.P(.5) && p.OS != "windows" {
			p.OS, p.Arch, p.Variant = "", "", ""
		}
	}
	if r.P(.05) {
		p.SkipV = true
	}
}

var formList = [][]string{{"fmt"}, {"fmt"}, {"fmt"}, {"fmt", "sign"}, {"sign"}, {"sign", "fmt"}, {"json"}, {"json"}, {"jsonfmt"}, {"fmt", "json"}, {"yaml"}, {"yaml"}, {"yaml", "fmt"}, {"convert"}, {"convert", "fmt", "sign", "json"}, {"sign", "yaml", "json"}, {"fmt", "fmt"}}

func genForm(r *simkit.Rng, thorough bool) interface{} {
	w := weights{graph: .4, svc: .4, detach: .2, fail: .3, faults: .35, skip: .3, sel: .15, secrets: .4, vols: .3, build: .2, host: .1, cancel: .05, win: .1, ops: .3, status: .3, restart: .05, same: 0, odd: .08, hostile: .1, tenants: 2, steps: 4}
	if thorough && r.P(.3) {
		w.steps *= 2
		w.tenants += 2
	}
	s := &FScen{Form: formList[r.Intn(len(formList))]}
	s.Lat, s.MapSeed, s.Ent = r.U64(), r.U64(), r.U64()
	if r.P(.3) {
		s.Slow = r.Range(2, 12)
	}
	n := r.Range(1, w.tenants)
	for i := 0; i < n; i++ {
		rt := w
		t := genTenant(r, rt, &s.Scen, i)
		if t.Same == 0 {
			g := &gener{r: r, w: rt, t: &t, p: &t.P}
			if r.P(.8) {
				g.rich()
			}
		}
		if strings.Contains(strings.Join(s.Form, " "), "json") {
			// json has no infinities
			for _, l := range [][]Ctr{t.P.Steps, t.P.Svcs} {
				for i := range l {
					var raw []int
					for _, k := range l[i].Raw {
						if !strings.Contains(rawValues[k], ".inf") && !strings.Contains(rawValues[k], ".nan") {
							raw = append(raw, k)
						}
					}
					l[i].Raw = raw
				}
			}
		}
		s.Tenants = append(s.Tenants, t)
	}
	if r.P(w.restart) {
		s.Restart = r.Range(1, 900000)
	}
	return s
}
