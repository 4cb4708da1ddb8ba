package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"path"
	"sort"
	"strings"
	"time"

	"github.com/drone/drone-runtime/engine"

	"verif.local/sim/simkit"
)

// event is one entry of the recorded history.
type event struct {
	Seq  int
	T    time.Duration
	Ten  int
	Name string // step name
	Kind string // setup create start tail wait stream destroy exit kill done ...
	Err  string
	Ret  bool // the operation returned (otherwise: it was called)
	Code int
	OOM  bool
	Inj  bool // the outcome was injected
}

// prov is where an image comes from.
type prov struct {
	built bool
	ten   int
	step  string
}

type mnt struct {
	target  string
	backing string // vol:UID host:PATH tmp:UID:target
	ro      string // bind source for host mounts
	device  bool
}

// box is a container.
type box struct {
	ten     int
	name    string
	uid     string
	spec    *engine.Spec
	step    *engine.Step
	env     map[string]string
	files   map[string]string
	mounts  []mnt
	windows bool
	image   prov
	imgRef  string
	net     string
	priv    bool
	created bool
	running bool
	exited  bool
	code    int
	oom     bool
	kill    chan int
	over    chan struct{}
	logEnd  chan struct{}
	killer  int
	auth    string
}

// obs is what a container finds when it starts.
type obs struct {
	Seq    int
	T      time.Duration
	Ten    int
	Name   string
	B      *box
	WS     []string // tokens in $DRONE_WORKSPACE
	Mounts map[string][]string
	All    []string // every token it can reach
}

type host struct {
	s      *Scen
	t0     time.Time
	seq    int
	events []event
	obs    []obs
	boxes  map[string]*box
	made   []*box
	vols   map[string]int // docker volume -> tenant that created it
	nets   map[string]int
	images map[string]prov
	fs     map[string][]string
	faults map[string]int
	uidBad []string
	pulls  []pull
}

type pull struct {
	ten   int
	image string
	auth  string
}

func newHost(s *Scen) *host {
	return &host{s: s, t0: time.Now(), boxes: map[string]*box{}, vols: map[string]int{}, nets: map[string]int{}, images: map[string]prov{}, fs: map[string][]string{}, faults: map[string]int{}}
}

func (h *host) now() time.Duration { return time.Since(h.t0) }

func (h *host) log(e event) int {
	h.seq++
	e.Seq = h.seq
	e.T = h.now()
	h.events = append(h.events, e)
	return h.seq
}

// lat sleeps for the seeded duration of an operation.
func (h *host) lat(ten int, name, op string, lo, hi time.Duration) {
	time.Sleep(h.dur(ten, name, op, lo, hi))
}

func (h *host) dur(ten int, name, op string, lo, hi time.Duration) time.Duration {
	x := simkit.Mix(h.s.Lat, uint64(ten), simkit.HashStr(0, name), simkit.HashStr(0, op))
	d := lo + time.Duration(x%uint64(hi-lo))
	if h.s.Slow > 0 && simkit.Mix(x, 7)%uint64(h.s.Slow) == 0 {
		d = d*997 + time.Duration(x>>40)
		h.faults["slow-"+op]++
	}
	return d
}

const ms = time.Millisecond

// eng is the engine of one tenant; it follows engine/docker of the runtime.
type eng struct {
	h    *host
	ten  int
	plan *plan
}

func (e *eng) fault(name, op string) *Fault {
	fs := e.h.s.Tenants[e.ten].Faults
	for i := range fs {
		if fs[i].Step == name && fs[i].Op == op {
			return &fs[i]
		}
	}
	return nil
}

var errInjected = errors.New("injected")

func (e *eng) Setup(ctx context.Context, spec *engine.Spec) error {
	h := e.h
	h.log(event{Ten: e.ten, Kind: "setup"})
	h.lat(e.ten, "", "setup", 20*ms, 400*ms)
	if e.fault("", "setup") != nil {
		h.faults["setup-error"]++
		h.log(event{Ten: e.ten, Kind: "setup", Ret: true, Err: "injected", Inj: true})
		return errInjected
	}
	if spec.Docker != nil {
		for _, v := range spec.Docker.Volumes {
			if v.EmptyDir == nil {
				continue
			}
			h.claim("volume", h.vols, v.Metadata.UID, e.ten)
		}
	}
	h.claim("network", h.nets, spec.Metadata.UID, e.ten)
	h.log(event{Ten: e.ten, Kind: "setup", Ret: true})
	return nil
}

// claim creates a named docker object; docker gives an existing one away.
func (h *host) claim(kind string, m map[string]int, id string, ten int) {
	if o, ok := m[id]; ok && o != ten {
		h.uidBad = append(h.uidBad, fmt.Sprintf("%s %q of pipeline %d is used by pipeline %d", kind, id, o, ten))
		return
	}
	m[id] = ten
}

// registry lists the repositories that can be pulled.
var registry = map[string]bool{}

const privateDomain = "reg.example.com"

func (e *eng) pullImage(step *engine.Step, spec *engine.Spec, n string) error {
	h := e.h
	h.lat(e.ten, step.Metadata.Name, "pull"+n, 100*ms, 20000*ms)
	repo, tag := canon(step.Docker.Image)
	domain := repo[:strings.Index(repo, "/")]
	auth := ""
	if a, ok := engine.LookupAuth(spec, domain); ok {
		auth = a.Password
	}
	h.pulls = append(h.pulls, pull{e.ten, step.Docker.Image, auth})
	if domain == privateDomain && auth == "" {
		return errors.New("unauthorized")
	}
	if !registry[repo] || len(tag) >= 32 && !strings.HasPrefix(tag, "@") {
		return errors.New("image missing")
	}
	h.images[repo+":"+tag] = prov{}
	return nil
}

func (e *eng) Create(ctx context.Context, spec *engine.Spec, step *engine.Step) error {
	h := e.h
	h.log(event{Ten: e.ten, Name: step.Metadata.Name, Kind: "create"})
	err, inj := e.create(spec, step)
	ev := event{Ten: e.ten, Name: step.Metadata.Name, Kind: "create", Ret: true, Inj: inj}
	if err != nil {
		ev.Err = err.Error()
	}
	h.log(ev)
	return err
}

func (e *eng) create(spec *engine.Spec, step *engine.Step) (error, bool) {
	h := e.h
	name := step.Metadata.Name
	h.lat(e.ten, name, "create", 20*ms, 500*ms)
	if e.fault(name, "create") != nil {
		h.faults["create-error"]++
		return errInjected, true
	}
	if step.Docker == nil {
		return errors.New("missing docker configuration"), false
	}
	repo, tag := canon(step.Docker.Image)
	ref := repo + ":" + tag
	if step.Docker.PullPolicy == engine.PullAlways || step.Docker.PullPolicy == engine.PullDefault && tag == "latest" {
		if err := e.pullImage(step, spec, "1"); err != nil {
			return err, false
		}
	}
	if _, ok := h.images[ref]; !ok {
		if step.Docker.PullPolicy == engine.PullNever {
			return errors.New("image missing"), false
		}
		if err := e.pullImage(step, spec, "2"); err != nil {
			return err, false
		}
	}
	b := &box{ten: e.ten, name: name, uid: step.Metadata.UID, spec: spec, step: step, created: true, killer: -1,
		windows: spec.Platform.OS == "windows", image: h.images[ref], imgRef: ref, kill: make(chan int, 64), over: make(chan struct{}), logEnd: make(chan struct{}),
		env: map[string]string{}, files: map[string]string{}}
	if o, ok := h.boxes[b.uid]; ok {
		if o.ten != e.ten {
			h.uidBad = append(h.uidBad, fmt.Sprintf("container %q of pipeline %d is used by pipeline %d", b.uid, o.ten, e.ten))
		}
		return fmt.Errorf("conflict: container name %q in use", b.uid), false
	}
	for k, v := range step.Envs {
		b.env[k] = v
	}
	for _, sv := range step.Secrets {
		if sec, ok := engine.LookupSecret(spec, sv); ok {
			b.env[sv.Env] = sec.Data
		}
	}
	b.env["DOCKER_NETWORK_ID"] = spec.Metadata.UID
	b.env["DRONE_DOCKER_NETWORK_ID"] = spec.Metadata.UID
	b.priv = step.Docker.Privileged && !b.windows
	b.net = step.Docker.Network
	if b.net == "" {
		b.net = spec.Metadata.UID
	}
	seen := map[string]bool{}
	for _, m := range step.Volumes {
		v, ok := engine.LookupVolume(spec, m.Name)
		if !ok {
			continue
		}
		x := mnt{target: b.norm(m.Path)}
		switch {
		case v.EmptyDir != nil && v.EmptyDir.Medium != "memory":
			x.backing = "vol:" + v.Metadata.UID
			if _, ok := h.vols[v.Metadata.UID]; !ok {
				h.vols[v.Metadata.UID] = e.ten // docker creates it on the fly
			} else if h.vols[v.Metadata.UID] != e.ten {
				h.uidBad = append(h.uidBad, fmt.Sprintf("volume %q of pipeline %d is mounted by pipeline %d", v.Metadata.UID, h.vols[v.Metadata.UID], e.ten))
			}
		case v.EmptyDir != nil:
			x.backing = "tmp:" + b.uid + ":" + x.target
		case v.HostPath != nil && v.HostPath.Path != "":
			x.ro = v.HostPath.Path
			x.backing = "host:" + path.Clean(v.HostPath.Path)
			x.device = strings.HasPrefix(v.HostPath.Path, "/dev/")
		default:
			return fmt.Errorf("invalid mount %q", m.Name), false
		}
		if !strings.HasPrefix(x.target, "/") {
			return fmt.Errorf("invalid mount path %q", m.Path), false
		}
		if seen[x.target] {
			return fmt.Errorf("duplicate mount point %q", m.Path), false
		}
		seen[x.target] = true
		b.mounts = append(b.mounts, x)
	}
	for _, f := range step.Files {
		if file, ok := engine.LookupFile(spec, f.Name); ok {
			b.files[b.norm(f.Path)] = string(file.Data)
		}
	}
	h.boxes[b.uid] = b
	h.made = append(h.made, b)
	return nil, false
}

// norm brings a container path into one form.
func (b *box) norm(p string) string {
	if b.windows {
		p = strings.ReplaceAll(p, "\\", "/")
		if strings.HasPrefix(strings.ToLower(p), "c:") {
			p = p[2:]
		}
	}
	if p == "" {
		return ""
	}
	return path.Clean(p)
}

// at finds the storage behind a path of the container.
func (b *box) at(p string) string {
	p = b.norm(p)
	best := mnt{}
	for _, m := range b.mounts {
		if (p == m.target || strings.HasPrefix(p, m.target+"/") || m.target == "/") && len(m.target) > len(best.target) {
			best = m
		}
	}
	if best.target == "" {
		return "root:" + b.uid + "|" + p
	}
	rel := strings.TrimPrefix(strings.TrimPrefix(p, best.target), "/")
	if best.ro != "" {
		return "host:" + path.Join(best.ro, rel) + "|"
	}
	return best.backing + "|" + rel
}

func (h *host) write(b *box, p, tok string) {
	if b.norm(p) == "" {
		return
	}
	k := b.at(p)
	h.fs[k] = append(h.fs[k], tok)
}

func (h *host) read(b *box, p string) []string {
	if b.norm(p) == "" {
		return nil
	}
	return append([]string(nil), h.fs[b.at(p)]...)
}

// reach lists every token the container can see.
func (h *host) reach(b *box) []string {
	var keys []string
	for k := range h.fs {
		ok := strings.HasPrefix(k, "root:"+b.uid+"|")
		for _, m := range b.mounts {
			if strings.HasPrefix(m.backing, "host:") {
				ok = ok || strings.HasPrefix(k, m.backing+"|") || strings.HasPrefix(k, strings.TrimSuffix(m.backing, "/")+"/")
			} else {
				ok = ok || strings.HasPrefix(k, m.backing+"|")
			}
		}
		if ok {
			keys = append(keys, k)
		}
	}
	sort.Strings(keys)
	var out []string
	for _, k := range keys {
		out = append(out, h.fs[k]...)
	}
	return out
}

func token(ten int, name, phase, where string) string {
	return fmt.Sprintf("%d/%s/%s/%s", ten, name, phase, where)
}

// mark leaves the container's tokens everywhere it can write.
func (h *host) mark(b *box, phase string) {
	h.write(b, b.env["DRONE_WORKSPACE"], token(b.ten, b.name, phase, "ws"))
	h.write(b, b.env["CI_WORKSPACE"], token(b.ten, b.name, phase, "ci"))
	h.write(b, b.step.WorkingDir, token(b.ten, b.name, phase, "cwd"))
	for _, m := range b.mounts {
		h.write(b, m.target, token(b.ten, b.name, phase, "mnt:"+m.target))
	}
}

func (e *eng) Start(ctx context.Context, spec *engine.Spec, step *engine.Step) error {
	h := e.h
	name := step.Metadata.Name
	h.log(event{Ten: e.ten, Name: name, Kind: "start"})
	h.lat(e.ten, name, "start", 5*ms, 200*ms)
	if e.fault(name, "start") != nil {
		h.faults["start-error"]++
		h.log(event{Ten: e.ten, Name: name, Kind: "start", Ret: true, Err: "injected", Inj: true})
		return errInjected
	}
	b := h.boxes[step.Metadata.UID]
	if b == nil || b.running || b.exited {
		h.log(event{Ten: e.ten, Name: name, Kind: "start", Ret: true, Err: "no such container"})
		return errors.New("no such container")
	}
	seq := h.log(event{Ten: e.ten, Name: name, Kind: "started"})
	o := obs{Seq: seq, T: h.now(), Ten: e.ten, Name: name, B: b, Mounts: map[string][]string{}}
	o.WS = h.read(b, b.env["DRONE_WORKSPACE"])
	for _, m := range b.mounts {
		o.Mounts[m.target] = h.read(b, m.target)
	}
	o.All = h.reach(b)
	h.obs = append(h.obs, o)
	h.mark(b, "begin")
	b.running = true
	// the life of the container
	life := h.dur(e.ten, name, "run", 300*ms, 600000*ms)
	// what runs in it does not depend on how it was compiled
	forever := step.Detach
	if n := e.plan.byName[name]; n != nil {
		forever = n.detach
	}
	code, oom, inj := 0, false, false
	if f := e.fault(name, "exit"); f != nil {
		code, forever, inj = f.Code, false, true
		h.faults[fmt.Sprintf("exit-%s", exitKind(f.Code))]++
	}
	if f := e.fault(name, "oom"); f != nil {
		code, oom, forever, inj = f.Code, true, false, true
		h.faults["oom-kill"]++
	}
	lag := h.dur(e.ten, name, "log", 1*ms, 50*ms)
	if e.fault(name, "lag") != nil {
		h.faults["log-lag"]++
		lag = lag * 5000
	}
	go func() {
		if forever {
			code = <-b.kill
			inj = true
		} else {
			select {
			case <-time.After(life):
				if code == 0 && !oom {
					code = h.build(b)
				}
			case code = <-b.kill:
				inj = true
				oom = false
			}
		}
		h.mark(b, "end")
		b.running, b.exited, b.code, b.oom = false, true, code, oom
		h.log(event{Ten: e.ten, Name: name, Kind: "exit", Code: code, OOM: oom, Inj: inj})
		close(b.over)
		time.Sleep(lag)
		close(b.logEnd)
	}()
	h.log(event{Ten: e.ten, Name: name, Kind: "start", Ret: true})
	return nil
}

func exitKind(c int) string {
	switch c {
	case 0:
		return "zero"
	case 78:
		return "78"
	}
	return "nonzero"
}

// build does what the docker plugin does in a build step.
func (h *host) build(b *box) int {
	repo, _ := canon(b.step.Docker.Image)
	if repo != "docker.io/drone/docker" || b.image.built {
		return 0
	}
	alias := b.env["DOCKER_BUILD_IMAGE_ALIAS"]
	if alias == "" {
		return 0
	}
	for _, m := range b.mounts {
		if m.target == "/var/run/docker.sock" && m.ro == "/var/run/docker.sock" {
			r, t := canon(alias)
			h.images[r+":"+t] = prov{built: true, ten: b.ten, step: b.name}
			return 0
		}
	}
	return 1
}

func (e *eng) Tail(ctx context.Context, spec *engine.Spec, step *engine.Step) (io.ReadCloser, error) {
	h := e.h
	name := step.Metadata.Name
	h.log(event{Ten: e.ten, Name: name, Kind: "tail"})
	h.lat(e.ten, name, "tail", 1*ms, 60*ms)
	b := h.boxes[step.Metadata.UID]
	if e.fault(name, "tail") != nil || b == nil {
		h.faults["tail-error"]++
		h.log(event{Ten: e.ten, Name: name, Kind: "tail", Ret: true, Err: "injected", Inj: true})
		return nil, errInjected
	}
	rc, wc := io.Pipe()
	go func() {
		fmt.Fprintf(wc, "+ %s\n", name)
		<-b.logEnd
		fmt.Fprintf(wc, "done\npartial")
		wc.Close()
		h.log(event{Ten: e.ten, Name: name, Kind: "stream", Ret: true})
	}()
	h.log(event{Ten: e.ten, Name: name, Kind: "tail", Ret: true})
	return rc, nil
}

func (e *eng) Wait(ctx context.Context, spec *engine.Spec, step *engine.Step) (*engine.State, error) {
	h := e.h
	name := step.Metadata.Name
	h.log(event{Ten: e.ten, Name: name, Kind: "wait"})
	b := h.boxes[step.Metadata.UID]
	if b == nil {
		h.log(event{Ten: e.ten, Name: name, Kind: "wait", Ret: true, Err: "no such container"})
		return nil, errors.New("no such container")
	}
	<-b.over
	h.lat(e.ten, name, "inspect", 1*ms, 30*ms)
	if e.fault(name, "wait") != nil {
		h.faults["wait-error"]++
		h.log(event{Ten: e.ten, Name: name, Kind: "wait", Ret: true, Err: "injected", Inj: true})
		return nil, errInjected
	}
	h.log(event{Ten: e.ten, Name: name, Kind: "wait", Ret: true, Code: b.code, OOM: b.oom})
	return &engine.State{Exited: true, ExitCode: b.code, OOMKilled: b.oom}, nil
}

func (e *eng) Destroy(ctx context.Context, spec *engine.Spec) error {
	h := e.h
	h.log(event{Ten: e.ten, Kind: "destroy"})
	for _, s := range spec.Steps {
		if b := h.boxes[s.Metadata.UID]; b != nil && b.running {
			b.killer = e.ten
			b.kill <- 137
			if b.ten != e.ten {
				h.uidBad = append(h.uidBad, fmt.Sprintf("pipeline %d killed container %s of pipeline %d", e.ten, b.name, b.ten))
			}
		}
	}
	h.lat(e.ten, "", "destroy", 20*ms, 900*ms)
	for _, s := range spec.Steps {
		delete(h.boxes, s.Metadata.UID)
	}
	if spec.Docker != nil {
		for _, v := range spec.Docker.Volumes {
			if v.EmptyDir == nil || v.EmptyDir.Medium == "memory" {
				continue
			}
			delete(h.vols, v.Metadata.UID)
			for k := range h.fs {
				if strings.HasPrefix(k, "vol:"+v.Metadata.UID+"|") {
					delete(h.fs, k)
				}
			}
		}
	}
	delete(h.nets, spec.Metadata.UID)
	h.log(event{Ten: e.ten, Kind: "destroy", Ret: true})
	return nil
}

// restart is a restart of the docker daemon: every container dies.
func (h *host) restart() {
	var ids []string
	for id := range h.boxes {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	for _, id := range ids {
		if h.s.stagger {
			time.Sleep(1)
		}
		if b := h.boxes[id]; b != nil && b.running {
			h.faults["daemon-restart-kill"]++
			b.kill <- 137
		}
	}
}
