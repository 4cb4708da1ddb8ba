package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"reflect"
	"runtime"
	"sort"
	"strings"
	"unicode/utf8"

	"encoding/base64"

	goyaml "github.com/buildkite/yaml"
	"github.com/drone/drone-runtime/engine"
	"github.com/drone/drone-yaml/yaml"
	"github.com/drone/drone-yaml/yaml/compiler"
	"github.com/drone/drone-yaml/yaml/compiler/transform"
	"github.com/drone/drone-yaml/yaml/converter"
	"github.com/drone/drone-yaml/yaml/linter"
	"github.com/drone/drone-yaml/yaml/pretty"
	"github.com/drone/drone-yaml/yaml/signer"

	"verif.local/sim/simrt"
)

// Text is a byte string that survives JSON whatever it contains.
type Text string

func (t Text) MarshalJSON() ([]byte, error) {
	s := string(t)
	if utf8.ValidString(s) && !strings.HasPrefix(s, "b64:") && !strings.Contains(s, "\ufffd") {
		return json.Marshal(s)
	}
	return json.Marshal("b64:" + base64.StdEncoding.EncodeToString([]byte(s)))
}

func (t *Text) UnmarshalJSON(b []byte) error {
	var s string
	if err := json.Unmarshal(b, &s); err != nil {
		return err
	}
	if strings.HasPrefix(s, "b64:") {
		d, err := base64.StdEncoding.DecodeString(s[4:])
		if err != nil {
			*t = Text(s)
			return nil
		}
		s = string(d)
	}
	*t = Text(s)
	return nil
}

// Doc is one input text.
type Doc struct {
	Kind string `json:"kind"` // yaml, gitlab, bitbucket, legacy
	Text Text   `json:"text"`
	Ref  string `json:"ref,omitempty"`
	URL  string `json:"url,omitempty"`
}

// Comp is one compiler configuration.
type Comp struct {
	Auths     int               `json:"auths,omitempty"`
	AuthsFunc bool              `json:"auths_func,omitempty"`
	AuthsMore int               `json:"auths_more,omitempty"` // credentials from a second source, 1 before, 2 after the others
	Env       map[string]string `json:"env,omitempty"`
	Labels    map[string]string `json:"labels,omitempty"`
	Volumes   map[string]string `json:"volumes,omitempty"`
	VolSlice  []string          `json:"vol_slice,omitempty"`
	Networks  []string          `json:"networks,omitempty"`
	Secrets   map[string]string `json:"secrets,omitempty"`
	Provider  string            `json:"provider,omitempty"` // "", fresh, shared, some
	Mem       int64             `json:"mem,omitempty"`
	CPU       int64             `json:"cpu,omitempty"`
	Netrc     bool              `json:"netrc,omitempty"`
	Creds     string            `json:"creds,omitempty"`
	Dind      []string          `json:"dind,omitempty"`
	Skip      map[string]string `json:"skip,omitempty"`
	Include   []string          `json:"include,omitempty"`
	Exclude   []string          `json:"exclude,omitempty"`
	Resume    string            `json:"resume,omitempty"`
	Host      string            `json:"host,omitempty"`
	Proxy     bool              `json:"proxy,omitempty"`
	NoTrans   bool              `json:"no_trans,omitempty"`
	Wait      bool              `json:"wait,omitempty"` // callbacks return only after everything else has ended
	Nest      bool              `json:"nest,omitempty"` // callbacks call the library themselves
}

// Op is one library call.
type Op struct {
	K     string `json:"k"`
	D     int    `json:"d,omitempty"`     // document
	R     int    `json:"r,omitempty"`     // resource
	C     int    `json:"c,omitempty"`     // compiler configuration
	Own   bool   `json:"own,omitempty"`   // use a private parsed copy / private compiler
	Key   int    `json:"key,omitempty"`   // signing key
	Trust bool   `json:"trust,omitempty"` // linter trust
	From  int    `json:"from,omitempty"`  // 1+index of an earlier byte result of the task, used as document
	T     int    `json:"t,omitempty"`     // task of the result to transform
	I     int    `json:"i,omitempty"`     // index of the result to transform
}

// Scen is a scenario of the shared-library properties.
type Scen struct {
	Docs    []Doc    `json:"docs"`
	Comps   []Comp   `json:"comps,omitempty"`
	Tasks   [][]Op   `json:"tasks"`
	Sched   Sched    `json:"sched"`
	MapSeed uint64   `json:"map_seed"`
	Ent     Entropy  `json:"entropy"`
	Seeds   []uint64 `json:"seeds,omitempty"` // further map seeds to compare
	Spare   bool     `json:"spare,omitempty"`
}

// comp is an instantiated compiler with everything the caller owns.
type comp struct {
	c      *compiler.Compiler
	trans  func(*engine.Spec)
	owned  []interface{}
	secret map[string]*engine.Secret
	calls  []string
}

func (s *Comp) build(park bool) *comp {
	o := &comp{secret: map[string]*engine.Secret{}}
	own := func(v interface{}) { o.owned = append(o.owned, v) }
	c := &compiler.Compiler{}
	callback := func() {
		if park {
			simrt.Force()
			if s.Wait {
				simrt.Await()
			}
		}
		if s.Nest {
			nested()
		}
	}
	var fns []func(*engine.Spec)
	var auths []*engine.DockerAuth
	for i := 0; i < s.Auths; i++ {
		auths = append(auths, &engine.DockerAuth{Address: fmt.Sprintf("r%d.example.com", i), Username: "u", Password: fmt.Sprintf("p%d", i)})
	}
	auths = append(auths, make([]*engine.DockerAuth, 3)...)[:len(auths)]
	own(&auths)
	cp := func(m map[string]string) map[string]string {
		if m == nil {
			return nil
		}
		// filled in sorted order: the order of insertion is not a variable
		keys := make([]string, 0, len(m))
		for k := range m {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		n := map[string]string{}
		for _, k := range keys {
			n[k] = m[k]
		}
		own(n)
		return n
	}
	cl := func(l []string) []string {
		if l == nil {
			return nil
		}
		n := make([]string, len(l), len(l)+3)
		copy(n, l)
		for i := len(l); i < cap(n); i++ {
			n[:cap(n)][i] = "CANARY"
		}
		own(&n)
		return n
	}
	more := func(n int) {
		if s.AuthsMore == n {
			l := append(make([]*engine.DockerAuth, 0, 4), &engine.DockerAuth{Address: "more.example.com", Username: "m", Password: "pm"})
			own(&l)
			if !s.AuthsFunc {
				fns = append(fns, transform.WithAuthsFunc(func() []*engine.DockerAuth { callback(); return l }))
			} else {
				fns = append(fns, transform.WithAuths(l))
			}
		}
	}
	more(1)
	if s.Auths > 0 {
		if s.AuthsFunc {
			fns = append(fns, transform.WithAuthsFunc(func() []*engine.DockerAuth { callback(); return auths }))
		} else {
			fns = append(fns, transform.WithAuths(auths))
		}
	}
	more(2)
	if s.Env != nil {
		fns = append(fns, transform.WithEnviron(cp(s.Env)))
	}
	if s.Labels != nil {
		fns = append(fns, transform.WithLables(cp(s.Labels)))
	}
	if s.Mem != 0 || s.CPU != 0 {
		fns = append(fns, transform.WithLimits(s.Mem, s.CPU))
	}
	if s.Netrc {
		fns = append(fns, transform.WithNetrc("github.com", "octocat", "pass"))
	}
	if s.Networks != nil {
		fns = append(fns, transform.WithNetworks(cl(s.Networks)))
	}
	if s.Proxy {
		fns = append(fns, transform.WithProxy())
	}
	if s.Include != nil {
		fns = append(fns, transform.Include(cl(s.Include)))
	}
	if s.Exclude != nil {
		fns = append(fns, transform.Exclude(cl(s.Exclude)))
	}
	if s.Resume != "" {
		fns = append(fns, transform.ResumeAt(s.Resume))
	}
	if s.Secrets != nil {
		fns = append(fns, transform.WithSecrets(cp(s.Secrets)))
	}
	switch s.Provider {
	case "shared", "some":
		for i, n := range []string{"token", "password", "docker_user", "SSH", "s1", "s2", "s3"} {
			if s.Provider == "some" && i%2 == 1 {
				continue
			}
			o.secret[n] = &engine.Secret{Metadata: engine.Metadata{Name: n}, Data: "data-" + n}
		}
		own(o.secret)
		fns = append(fns, transform.WithSecretFunc(func(n string) *engine.Secret {
			callback()
			return o.secret[n]
		}))
	case "fresh":
		fns = append(fns, transform.WithSecretFunc(func(n string) *engine.Secret {
			callback()
			return &engine.Secret{Metadata: engine.Metadata{Name: n}, Data: "data-" + n}
		}))
	}
	if s.Volumes != nil {
		fns = append(fns, transform.WithVolumes(cp(s.Volumes)))
	}
	if s.VolSlice != nil {
		fns = append(fns, transform.WithVolumeSlice(cl(s.VolSlice)))
	}
	if s.Creds != "" {
		b := make([]byte, 0, len(s.Creds)+4)
		b = append(b, s.Creds...)
		own(&b)
		c.GitCredentialsFunc = func() []byte { callback(); return b }
	}
	if s.Dind != nil {
		dind := compiler.DindFunc(cl(s.Dind))
		c.PrivilegedFunc = func(x *yaml.Container) bool { callback(); return dind(x) }
	}
	if s.Skip != nil {
		skip := compiler.SkipFunc(compiler.SkipData{
			Branch: s.Skip["branch"], Cron: s.Skip["cron"], Event: s.Skip["event"], Instance: s.Skip["instance"],
			Ref: s.Skip["ref"], Repo: s.Skip["repo"], Target: s.Skip["target"], Action: s.Skip["action"],
		})
		c.SkipFunc = func(x *yaml.Container) bool { callback(); return skip(x) }
	}
	if s.Host != "" {
		c.WorkspaceFunc = compiler.CreateHostWorkspace(s.Host)
		c.WorkspaceMountFunc = compiler.MountHostWorkspace
	}
	o.trans = transform.Combine(fns...)
	if !s.NoTrans {
		c.TransformFunc = o.trans
	}
	o.c = c
	return o
}

const nestedDoc = `---
kind: pipeline
name: inner
steps:
- name: a
  image: golang
  commands: [ go test ]
  environment:
    T: { from_secret: t }
  when: { branch: [ master ] }
- name: b
  image: plugins/docker
  settings: { repo: a/b, password: { from_secret: p } }
services:
- name: r
  image: redis
---
kind: secret
name: t
data: x
`

// nested performs one call of every kind on inputs of its own.
func nested() {
	m, err := yaml.ParseString(nestedDoc)
	if err != nil {
		panic("nested: " + err.Error())
	}
	if err := linter.Manifest(m, false); err != nil {
		panic("nested: " + err.Error())
	}
	c := &compiler.Compiler{PrivilegedFunc: compiler.DindFunc([]string{"plugins/docker"}), SkipFunc: compiler.SkipFunc(compiler.SkipData{Branch: "master"})}
	c.TransformFunc = transform.Combine(
		transform.WithEnviron(map[string]string{"A": "b"}),
		transform.WithAuthsFunc(func() []*engine.DockerAuth { return nil }),
		transform.WithSecretFunc(func(n string) *engine.Secret {
			return &engine.Secret{Metadata: engine.Metadata{Name: n}, Data: "data-" + n}
		}),
		transform.WithVolumes(map[string]string{"/a": "/b"}),
	)
	spec := c.Compile(m.Resources[0].(*yaml.Pipeline))
	if len(spec.Steps) != 4 {
		panic(fmt.Sprintf("nested: %d steps", len(spec.Steps)))
	}
	var buf bytes.Buffer
	pretty.Print(&buf, m)
	k := signer.KeyString(keys[0])
	signed, err := signer.SignUpdate([]byte(nestedDoc), k)
	if err != nil {
		panic("nested: " + err.Error())
	}
	if ok, err := signer.Verify(signed, k); !ok || err != nil {
		panic("nested: signature does not verify")
	}
	if _, err := converter.ConvertString("image: golang\ntest:\n  script: [ go test ]\n", converter.Metadata{Filename: ".gitlab-ci.yml"}); err != nil {
		panic("nested: " + err.Error())
	}
}

func (o *comp) dump() string {
	var b strings.Builder
	for _, v := range o.owned {
		b.WriteString(DumpSpare(v))
		b.WriteByte('\n')
	}
	return b.String()
}

var keys = []string{
	"0123456789abcdef0123456789abcdef", "ffffffffffffffffffffffffffffffff0", "short", "0123456789abcdef0123456789abcdefX", "0123456789abcdef0123456789abcdefY", "0123456789abcdef0123456789abcdeX", "K-\x00-ey/with+odd=bytes and more than 32 characters",
}

// Value is the live result of an op.
type Value struct {
	v    interface{}
	err  error
	text string // canonical dump right after the call
	note string
	site string // where it panicked
	busy bool // being transformed by its owner
}

func (v *Value) dump() string {
	if v.note != "" {
		return v.note
	}
	e := ""
	if v.err != nil {
		e = " err=" + reflect.TypeOf(v.err).String() + ":" + v.err.Error()
	}
	return Dump(v.v) + e
}

// world is the shared state of one execution of a scenario.
type world struct {
	s     *Scen
	docs  [][]byte
	mans  []*yaml.Manifest
	errs  []error
	comps []*comp
	park  bool
	vals  [][]*Value
	after func(t, i int) // called after every op, in its task
}

func withSpare(b []byte) []byte {
	n := make([]byte, len(b)+16)
	copy(n, b)
	for i := len(b); i < len(n); i++ {
		n[i] = 0xA5
	}
	return n[:len(b)]
}

// newWorld prepares the inputs. It runs outside any simulated task.
func newWorld(s *Scen, park bool) *world {
	// maps made here are iterated by the calls: their seeds belong to the run
	runtime.SimRand(2, s.MapSeed^0x5eed)
	defer runtime.SimRand(0, 0)
	w := &world{s: s, park: park}
	// documents are parsed in advance only if a call shares them, so that
	// the first use of a package can happen inside the concurrent part
	need := map[int]bool{}
	for _, t := range s.Tasks {
		for _, op := range t {
			switch op.K {
			case "lint", "lintall", "print", "json", "unjson", "encode", "goyaml", "compile":
				if !op.Own && op.From == 0 && len(s.Docs) > 0 {
					need[op.D%len(s.Docs)] = true
				}
			}
		}
	}
	for i, d := range s.Docs {
		w.docs = append(w.docs, withSpare([]byte(d.Text)))
		if !need[i] {
			w.mans = append(w.mans, nil)
			w.errs = append(w.errs, nil)
			continue
		}
		m, err := safeParse([]byte(d.Text))
		if m != nil && s.Spare {
			addSpare(reflect.ValueOf(m), 0)
		}
		w.mans = append(w.mans, m)
		w.errs = append(w.errs, err)
	}
	for i := range s.Comps {
		w.comps = append(w.comps, s.Comps[i].build(park))
	}
	if len(w.comps) == 0 {
		w.comps = append(w.comps, (&Comp{}).build(park))
	}
	for _, t := range s.Tasks {
		w.vals = append(w.vals, make([]*Value, len(t)))
	}
	return w
}

func safeParse(b []byte) (m *yaml.Manifest, err error) {
	defer func() {
		if r := recover(); r != nil {
			m, err = nil, fmt.Errorf("panic: %v", r)
		}
	}()
	return yaml.ParseBytes(b)
}

// run performs op i of task t.
func (w *world) run(t, i int) *Value {
	op := w.s.Tasks[t][i]
	v := &Value{}
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(simrt.StepLimit); ok {
					panic(r)
				}
				if os.Getenv("SIM_TRACE") != "" {
					buf := make([]byte, 4000)
					fmt.Fprintf(os.Stderr, "op %+v panics: %v\n%s\n", op, r, buf[:runtime.Stack(buf, false)])
				}
				v.note = "panic: " + panicText(r)
				v.site = panicSite()
			}
		}()
		w.do(t, i, op, v)
	}()
	v.text = Canon(v.dump())
	return v
}

// panicText drops addresses.
func panicText(r interface{}) string {
	if e, ok := r.(runtime.Error); ok {
		return e.Error()
	}
	return fmt.Sprint(r)
}

func (w *world) doc(t, i int, op Op) ([]byte, Doc) {
	if op.From > 0 && op.From-1 < i {
		if p := w.vals[t][op.From-1]; p != nil {
			if b, ok := p.v.([]byte); ok && p.err == nil {
				return b, Doc{Kind: "yaml"}
			}
		}
	}
	if len(w.docs) == 0 {
		return nil, Doc{}
	}
	d := op.D % len(w.docs)
	return w.docs[d], w.s.Docs[d]
}

func (w *world) manifest(t, i int, op Op) (*yaml.Manifest, error) {
	if len(w.docs) == 0 {
		return nil, errors.New("no document")
	}
	if op.From > 0 {
		b, _ := w.doc(t, i, op)
		return yaml.ParseBytes(b)
	}
	d := op.D % len(w.docs)
	if op.Own {
		return yaml.ParseBytes(w.docs[d])
	}
	return w.mans[d], w.errs[d]
}

func (w *world) resource(t, i int, op Op) (yaml.Resource, error) {
	m, err := w.manifest(t, i, op)
	if err != nil || m == nil {
		return nil, err
	}
	if len(m.Resources) == 0 {
		return nil, errors.New("no resource")
	}
	return m.Resources[op.R%len(m.Resources)], nil
}

func (w *world) key(op Op) signer.Key { return signer.KeyString(keys[op.Key%len(keys)]) }

func (w *world) do(t, i int, op Op, v *Value) {
	switch op.K {
	case "parse":
		b, _ := w.doc(t, i, op)
		v.v, v.err = yaml.ParseBytes(b)
	case "parseraw":
		b, _ := w.doc(t, i, op)
		v.v, v.err = yaml.ParseRawBytes(b)
	case "parsestring":
		b, _ := w.doc(t, i, op)
		v.v, v.err = yaml.ParseString(string(b))
	case "convert":
		b, d := w.doc(t, i, op)
		m := converter.Metadata{Filename: filename(d.Kind), URL: d.URL, Ref: d.Ref}
		v.v, v.err = converter.Convert(b, m)
	case "convertstring":
		b, d := w.doc(t, i, op)
		m := converter.Metadata{Filename: filename(d.Kind), URL: d.URL, Ref: d.Ref}
		v.v, v.err = converter.ConvertString(string(b), m)
	case "sign":
		b, _ := w.doc(t, i, op)
		v.v, v.err = signer.Sign(b, w.key(op))
	case "signupdate":
		b, _ := w.doc(t, i, op)
		v.v, v.err = signer.SignUpdate(b, w.key(op))
	case "verify":
		b, _ := w.doc(t, i, op)
		v.v, v.err = signer.Verify(b, w.key(op))
	case "writeto":
		b, _ := w.doc(t, i, op)
		v.v, v.err = signer.WriteTo(b, strings.Repeat("0f", 32))
	case "lint":
		r, err := w.resource(t, i, op)
		if err != nil || r == nil {
			v.err = err
			return
		}
		v.err = linter.Lint(r, op.Trust)
	case "lintall":
		m, err := w.manifest(t, i, op)
		if err != nil || m == nil {
			v.err = err
			return
		}
		v.err = linter.Manifest(m, op.Trust)
	case "print":
		m, err := w.manifest(t, i, op)
		if err != nil || m == nil {
			v.err = err
			return
		}
		var buf bytes.Buffer
		pretty.Print(&buf, m)
		v.v = buf.Bytes()
	case "json":
		m, err := w.manifest(t, i, op)
		if err != nil || m == nil {
			v.err = err
			return
		}
		v.v, v.err = json.Marshal(m)
	case "unjson":
		m, err := w.manifest(t, i, op)
		if err != nil || m == nil {
			v.err = err
			return
		}
		b, err := json.Marshal(m)
		if err != nil {
			v.err = err
			return
		}
		n := new(yaml.Manifest)
		v.err = json.Unmarshal(b, n)
		v.v = n
	case "encode":
		m, err := w.manifest(t, i, op)
		if err != nil || m == nil {
			v.err = err
			return
		}
		v.v, v.err = m.Encode()
	case "goyaml":
		r, err := w.resource(t, i, op)
		if err != nil || r == nil {
			v.err = err
			return
		}
		v.v, v.err = goyaml.Marshal(r)
	case "compile":
		r, err := w.resource(t, i, op)
		if err != nil || r == nil {
			v.err = err
			return
		}
		p, ok := r.(*yaml.Pipeline)
		if !ok {
			v.note = "not a pipeline"
			return
		}
		c := w.comps[op.C%len(w.comps)]
		if op.Own && len(w.s.Comps) > 0 {
			c = w.s.Comps[op.C%len(w.comps)].build(w.park)
		}
		v.v = c.c.Compile(p)
	case "admit":
		w.admit(t, i, op, v)
	case "transform":
		// a later library call on an earlier result
		if op.T >= len(w.vals) || op.I >= len(w.vals[op.T]) {
			return
		}
		p := w.vals[op.T][op.I]
		if p == nil {
			return
		}
		spec, ok := p.v.(*engine.Spec)
		if !ok || spec == nil {
			return
		}
		p.busy = true
		w.comps[op.C%len(w.comps)].trans(spec)
		p.busy = false
		p.text = Canon(p.dump()) // this one may change
	default:
		panic("unknown op " + op.K)
	}
}

func convertDoc(b []byte, d Doc) ([]byte, error) {
	return converter.Convert(b, converter.Metadata{Filename: filename(d.Kind), URL: d.URL, Ref: d.Ref})
}

func parseDoc(b []byte) (*yaml.Manifest, error) { return yaml.ParseBytes(b) }

func lintOne(r yaml.Resource, trust bool) error { return linter.Lint(r, trust) }

func pipelineOf(r yaml.Resource) *yaml.Pipeline {
	p, _ := r.(*yaml.Pipeline)
	return p
}

// formatAll writes m in every way there is.
func formatAll(b []byte, m *yaml.Manifest, key signer.Key) (out []string) {
	add := func(b []byte, err error) {
		if err != nil {
			b = []byte("err=" + err.Error())
		}
		out = append(out, string(b))
	}
	var buf bytes.Buffer
	pretty.Print(&buf, m)
	add(buf.Bytes(), nil)
	add(json.Marshal(m))
	add(m.Encode())
	signed, err := signer.SignUpdate(b, key)
	add(signed, err)
	if err == nil {
		ok, err := signer.Verify(signed, key)
		out = append(out, fmt.Sprint(ok, err))
	}
	return
}

func filename(kind string) string {
	switch kind {
	case "gitlab":
		return ".gitlab-ci.yml"
	case "bitbucket":
		return "bitbucket-pipelines.yml"
	}
	return ".drone.yml"
}

// inputs renders everything the caller owns.
func (w *world) inputs() []string {
	var out []string
	for i := range w.docs {
		out = append(out, DumpSpare(&w.docs[i]), DumpSpare(w.mans[i]))
	}
	for _, c := range w.comps {
		out = append(out, c.dump())
	}
	return out
}
