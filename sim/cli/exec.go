package main

import (
	"fmt"
	"io"
	"strings"
	"syscall"

	"verif.local/sim/simkit"
)

// File of the initial disk.
type File struct {
	Path string `json:"path"`
	Kind string `json:"kind"` // f d l
	Mode uint32 `json:"mode,omitempty"`
	Uid  int    `json:"uid,omitempty"`
	Text string `json:"text"`
}

// Fault is addressed to the n-th system call of a class of one process.
type Fault struct {
	P    int    `json:"p"`
	Call string `json:"call"` // class, "" any
	N    int    `json:"n"`
	Kind string `json:"kind"`
	Arg  int    `json:"arg,omitempty"`
	Stay bool   `json:"stay,omitempty"` // from then on
}

// Proc is a command.
type Proc struct {
	Op    string   `json:"op"`
	Save  bool     `json:"save,omitempty"`
	Key   string   `json:"key,omitempty"`
	Path  string   `json:"path,omitempty"`
	Extra []string `json:"extra,omitempty"`
	Phase int      `json:"phase"`
	Free  int      `json:"free,omitempty"` // 1+bytes of free space while it runs
	Text  string   `json:"text,omitempty"` // edit
}

// Scen is a scenario of the cli rig.
type Scen struct {
	Files  []File  `json:"files"`
	Uid    int     `json:"uid,omitempty"`
	Procs  []Proc  `json:"procs"`
	Sched  uint64  `json:"sched"`
	Style  int     `json:"style,omitempty"`
	Faults []Fault `json:"faults,omitempty"`
	Power  uint64  `json:"power,omitempty"`
	Seed   uint64  `json:"seed"`
}

// abs is a path as the commands see it.
func abs(p string) string {
	if p == "" {
		p = ".drone.yml"
	}
	if strings.HasPrefix(p, "/") {
		return p
	}
	return "/w/" + p
}

// sproc is a simulated process.
type sproc struct {
	i       int
	spec    *Proc
	kp      *kproc
	c       *child
	q       *req
	state   int // 0 not started, 1 blocked in a call, 2 gone
	code    int
	killed  bool
	panic   string
	injured map[string]int // faults by kind
	hard    int            // faults that need not be survived
	failed  bool           // an edit failed
	prio    int
	began   int // index of the first content version of its life
	lost    bool
}

type sim struct {
	sc    *Scen
	k     *kernel
	d     *disk
	procs []*sproc
	rng   *simkit.Rng
	pow   *simkit.Rng
	o     *simkit.Outcome
	steps int
	log   bool
	last  int

	// hooks
	after func(p *sproc, q *req, r rsp) // after every executed call
	mid   func(p *sproc, half *disk)    // in the middle of a write
	ended func(p *sproc)
	cut   func() // after a power loss
}

func (sc *Scen) disk() *disk {
	d := newDisk()
	d.put("/tmp", 'd', 01777, 0, "")
	d.put("/w", 'd', 0755, sc.Uid, "")
	for _, f := range sc.Files {
		kind, mode := byte('f'), f.Mode
		if f.Kind != "" {
			kind = f.Kind[0]
		}
		if mode == 0 {
			mode = map[byte]uint32{'f': 0644, 'd': 0755, 'l': 0777}[kind]
		}
		if f.Mode == 1 {
			mode = 0
		}
		n := d.put(f.Path, kind, mode, f.Uid, f.Text)
		n.mode, n.uid, n.dmode, n.duid = mode, f.Uid, mode, f.Uid
	}
	return d
}

func (p *Proc) args() []string {
	a := []string{p.Op}
	if p.Save {
		a = append(a, "--save")
	}
	a = append(a, p.Extra...)
	if p.Op == "sign" || p.Op == "verify" {
		a = append(a, p.Key)
	}
	if p.Path != "" {
		a = append(a, p.Path)
	}
	return a
}

func newSim(sc *Scen, d *disk, o *simkit.Outcome) *sim {
	s := &sim{sc: sc, d: d, k: &kernel{d: d, faults: map[string]int{}}, rng: simkit.NewRng(sc.Sched), pow: simkit.NewRng(sc.Power ^ 0x517), o: o, last: -1}
	for i := range sc.Procs {
		p := &sproc{i: i, spec: &sc.Procs[i], injured: map[string]int{}, prio: s.rng.Intn(1000)}
		p.kp = s.k.proc(i, sc.Uid, simkit.Mix(sc.Seed, uint64(i), 77))
		s.procs = append(s.procs, p)
	}
	return s
}

func (s *sim) trace(f string, a ...interface{}) {
	if s.log {
		s.o.Log = append(s.o.Log, fmt.Sprintf(f, a...))
	}
}

func (s *sim) hash(x ...uint64) {
	for _, v := range x {
		s.o.Digest = simkit.Mix(s.o.Digest, v)
	}
}

// run executes all phases.
func (s *sim) run() {
	max := 0
	for _, p := range s.procs {
		if p.spec.Phase > max {
			max = p.spec.Phase
		}
	}
	for ph := 0; ph <= max && s.o.Err == "" && s.o.Fail == nil; ph++ {
		s.phase(ph)
	}
	for _, p := range s.procs {
		if p.state == 1 {
			p.c.kill()
			p.state = 2
		}
	}
	s.o.Steps += int64(s.steps)
	s.o.SimMs += int64(s.steps)
	for k, v := range s.k.faults {
		s.o.Fault(k, v)
	}
}

func (s *sim) phase(ph int) {
	for s.o.Err == "" && s.o.Fail == nil {
		var ready []*sproc
		blocked := 0
		for _, p := range s.procs {
			if p.spec.Phase != ph || p.state == 2 {
				continue
			}
			if p.state == 1 && p.q.trap == 73 {
				// a lock that is not free
				if o := p.kp.fds[int(int32(p.q.a[0]))]; o != nil && o.ino != nil {
					if s.lockBusy(p, o.ino) {
						blocked++
						continue
					}
				}
			}
			ready = append(ready, p)
		}
		if len(ready) == 0 {
			if blocked > 0 {
				s.o.Failf("deadlock", "%d processes wait for a lock that is never released", blocked)
			}
			return
		}
		p := s.choose(ready)
		s.last = p.i
		s.hash(uint64(p.i))
		if p.state == 0 {
			s.start(p)
			continue
		}
		if s.steps++; s.steps > 20000 {
			s.o.Failf("no-progress", "process %d (%s) made more than 20000 system calls", p.i, strings.Join(p.spec.args(), " "))
			return
		}
		s.step(p)
	}
}

func (s *sim) lockBusy(p *sproc, n *inode) bool {
	op := int(p.q.a[1])
	if op&8 != 0 || op&4 != 0 {
		return false
	}
	for q, e := range s.k.locks[n] {
		if q != p.kp && (e || op&2 != 0) {
			return true
		}
	}
	return false
}

func (s *sim) choose(l []*sproc) *sproc {
	if len(l) == 1 {
		return l[0]
	}
	switch s.sc.Style {
	case 1: // long quanta
		for _, p := range l {
			if p.i == s.last && s.rng.P(.85) {
				return p
			}
		}
	case 2: // priorities that change now and then
		if s.rng.P(.08) {
			l[s.rng.Intn(len(l))].prio = s.rng.Intn(1000)
		}
		b := l[0]
		for _, p := range l {
			if p.prio > b.prio {
				b = p
			}
		}
		return b
	}
	return l[s.rng.Intn(len(l))]
}

func (s *sim) start(p *sproc) {
	if p.spec.Op == "edit" {
		// an atomic edit by another program
		s.d.now++
		p.state = 2
		_, _, n, _ := s.d.walk(nil, abs(p.spec.Path), true)
		if n == nil {
			p.failed = true
			return
		}
		n.data = []byte(p.spec.Text)
		s.d.sync()
		s.trace("p%d edits the file: %s", p.i, quote(n.data))
		if s.ended != nil {
			s.ended(p)
		}
		return
	}
	s.d.free = p.spec.Free - 1
	bin, args := "drone-yaml", p.spec.args()
	if p.spec.Op == "client" {
		bin, args = "cli-client", p.spec.Extra
	}
	c, err := spawn(bin, args, simkit.Mix(s.sc.Seed, uint64(p.i)))
	if err != nil {
		s.o.Err = "spawn: " + err.Error()
		return
	}
	p.c = c
	p.state = 1
	s.trace("p%d starts: %s", p.i, strings.Join(p.spec.args(), " "))
	s.fetch(p)
}

// fetch waits until the process issues a call or ends.
func (s *sim) fetch(p *sproc) {
	q, err := p.c.next()
	switch {
	case err == errHang:
		p.c.kill()
		p.state = 2
		s.o.Failf("hang", "process %d (%s) computes for more than 20 seconds without a system call", p.i, strings.Join(p.spec.args(), " "))
	case err == io.EOF:
		p.code, p.panic = p.c.wait()
		p.state = 2
		p.kp.gone()
		if p.code == 137 {
			s.o.Err = "the process lost the simulator: " + p.panic
			return
		}
		if p.panic != "" {
			s.trace("p%d: %s", p.i, first(p.panic))
		}
		s.trace("p%d exits with status %d", p.i, p.code)
		s.hash(uint64(p.code), simkit.HashStr(3, string(p.kp.outs[1])), simkit.HashStr(4, string(p.kp.outs[2])))
		if s.ended != nil {
			s.ended(p)
		}
	case err != nil:
		p.c.kill()
		p.state = 2
		s.o.Err = err.Error()
	default:
		p.q = q
	}
}

func first(s string) string {
	return strings.SplitN(s, "\n", 2)[0]
}

func (s *sim) die(p *sproc) {
	p.c.kill()
	p.state, p.killed, p.code = 2, true, 128+9
	p.kp.gone()
	s.trace("p%d is killed", p.i)
	if s.ended != nil {
		s.ended(p)
	}
}

func (s *sim) powerLoss() {
	s.trace("power loss")
	var dead []*sproc
	for _, p := range s.procs {
		if p.state == 1 {
			p.c.kill()
			p.state, p.killed, p.lost, p.code = 2, true, true, 128+9
			p.kp.gone()
			dead = append(dead, p)
		}
	}
	s.d.power(s.pow)
	for _, p := range dead {
		if s.ended != nil {
			s.ended(p)
		}
	}
	if s.cut != nil {
		s.cut()
	}
}

// step executes the pending call of a process, or what a fault makes of it.
func (s *sim) step(p *sproc) {
	q := p.q
	cls := classOf(q.trap)
	p.kp.count[cls]++
	p.kp.calls++
	var f *Fault
	for i := range s.sc.Faults {
		x := &s.sc.Faults[i]
		if x.P != p.i || x.Call != "" && x.Call != cls {
			continue
		}
		n := p.kp.count[cls]
		if x.Call == "" {
			n = p.kp.calls
		}
		if n == x.N || x.Stay && n > x.N {
			f = x
			break
		}
	}
	var r rsp
	hard := false
	note := ""
	run := func() rsp {
		if s.mid != nil && classOf(q.trap) == "write" && len(q.in[0]) > 1 {
			if o := p.kp.fds[int(int32(q.a[0]))]; o != nil && o.ino != nil {
				half := s.d.clone()
				for i, n := range s.d.inodes {
					if n == o.ino {
						off := o.off
						if o.flags&syscall.O_APPEND != 0 {
							off = len(n.data)
						}
						op := dop{off: off, b: q.in[0]}
						half.inodes[i].data = op.apply(half.inodes[i].data, 1+s.pow.Intn(len(q.in[0])-1))
					}
				}
				s.mid(p, half)
			}
		}
		r, _ := p.kp.call(q)
		return r
	}
	fd := int(int32(q.a[0]))
	o := p.kp.fds[fd]
	stream := o != nil && o.ino == nil && cls != "open"
	if stream && cls == "write" && p.kp.pipe[o.stream] {
		r, hard, note = fail(syscall.EPIPE), true, " [no reader]"
		f = &Fault{Kind: "none"}
	}
	inj := func(e syscall.Errno) { r, hard, note = fail(e), true, " [injected]" }
	done := true
	kind := ""
	if f != nil {
		kind = f.Kind
	}
	switch kind {
	case "none":
	case "kill":
		p.injured[kind]++
		s.o.Fault("kill", 1)
		if f.Arg == 1 {
			run()
			s.trace("p%d %s", p.i, q)
		} else if f.Arg > 1 && cls == "write" && len(q.in[0]) > 1 {
			q.in[0] = q.in[0][:1+(f.Arg-2)%(len(q.in[0])-1)]
			run()
			s.trace("p%d %s", p.i, q)
		}
		s.die(p)
		return
	case "power":
		p.injured[kind]++
		s.o.Fault("power-loss", 1)
		if f.Arg == 1 {
			run()
			s.trace("p%d %s", p.i, q)
		}
		s.powerLoss()
		return
	case "eintr":
		switch cls {
		case "open", "read", "write", "fsync":
			r, note = fail(syscall.EINTR), " [injected]"
		case "close":
			run()
			r, note = fail(syscall.EINTR), " [injected]"
		default:
			done = false
		}
	case "short":
		min := 0
		if f.Stay && o != nil && o.ino != nil {
			min = (len(o.ino.data) + len(q.in[0])) / 500
		} else if f.Stay {
			min = len(q.in[0]) / 100
		}
		switch {
		case (q.trap == 0 || q.trap == 17) && q.cap > 1:
			n := 1 + f.Arg%(q.cap-1)
			if n > 64 && f.Arg&1 == 1 {
				n = 1 + f.Arg%64
			}
			if n < min {
				n = min
			}
			if n < q.cap {
				q.cap = n
			}
			r, note = run(), " [short]"
		case (q.trap == 1 || q.trap == 18) && len(q.in[0]) > 1:
			n := 1 + f.Arg%(len(q.in[0])-1)
			if n < min {
				n = min
			}
			if n > len(q.in[0]) {
				n = len(q.in[0])
			}
			q.in[0] = q.in[0][:n]
			r, note = run(), " [short]"
		default:
			done = false
		}
	case "eio":
		switch cls {
		case "close":
			run()
			inj(syscall.EIO)
		case "fsync":
			inj(syscall.EIO)
		case "read", "write", "stat", "rename", "chmod", "unlink", "truncate", "open":
			if q.trap == 79 || q.trap == 16 {
				done = false
				break
			}
			inj(syscall.EIO)
		default:
			done = false
		}
	case "enospc":
		switch {
		case cls == "write", cls == "rename", cls == "truncate", cls == "fsync", cls == "open" && q.trap == 257 && q.a[2]&syscall.O_CREAT != 0, cls == "open" && q.trap == 85:
			inj(syscall.ENOSPC)
		case cls == "close" && o != nil && o.ino != nil && o.flags&syscall.O_ACCMODE != 0:
			run()
			inj(syscall.EDQUOT)
		default:
			done = false
		}
	case "epipe":
		if stream && cls == "write" {
			p.kp.pipe[o.stream] = true
			inj(syscall.EPIPE)
		} else {
			done = false
		}
	case "eacces":
		switch cls {
		case "open", "rename", "chmod", "unlink", "stat":
			if q.trap == 79 || q.trap == 5 {
				done = false
				break
			}
			inj([]syscall.Errno{syscall.EACCES, syscall.EPERM, syscall.EROFS}[f.Arg%3])
		default:
			done = false
		}
	case "emfile":
		if cls == "open" {
			inj([]syscall.Errno{syscall.EMFILE, syscall.ENFILE, syscall.ENOMEM}[f.Arg%3])
		} else {
			done = false
		}
	default:
		done = false
	}
	if done && kind != "none" && kind != "" {
		s.o.Fault(kind+":"+cls, 1)
		p.injured[kind+":"+cls]++
	}
	if !done {
		r = run()
	}
	if hard {
		p.hard++
	}
	if s.k.err != "" {
		s.o.Err = s.k.err
		return
	}
	s.hash(q.trap, r.r1, uint64(r.err))
	if s.log {
		res := fmt.Sprint(int64(r.r1))
		if r.err != 0 {
			res = fmt.Sprintf("-1 %v", r.err)
		}
		s.trace("p%d %s = %s%s", p.i, q, res, note)
	}
	if s.after != nil {
		s.after(p, q, r)
		if s.o.Fail != nil {
			return
		}
	}
	p.c.answer(r)
	s.fetch(p)
}
