package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"

	"github.com/drone/drone-runtime/engine"
	"github.com/drone/drone-yaml/yaml"
	"github.com/drone/drone-yaml/yaml/compiler"
	"github.com/drone/drone-yaml/yaml/compiler/transform"
	"github.com/drone/drone-yaml/yaml/linter"

	"verif.local/sim/simkit"
)

// SScen is a pipeline whose steps are executed by a real shell in a scratch
// directory. The only programs there are stand-ins that record how they were
// called and end as the scenario says.
type SScen struct {
	Steps  []SStep           `json:"steps"`
	Shell  string            `json:"shell,omitempty"` // dash, bash
	OS     string            `json:"os,omitempty"`
	Env    map[string]string `json:"env,omitempty"` // of the operator
	Netrc  []string          `json:"netrc,omitempty"`
	Umask  int               `json:"umask,omitempty"`
	Faults map[string]int    `json:"faults,omitempty"` // stand-in: exit status, or signal if negative
	// Home: "" writable, space, missing, readonly, file
	Home string   `json:"home,omitempty"`
	Lack []string `json:"lack,omitempty"` // programs the image does not have
}

// SStep is a step or service with commands.
type SStep struct {
	Name   string            `json:"name,omitempty"`
	Extra  string            `json:"extra,omitempty"` // other fields
	Svc    bool              `json:"svc,omitempty"`
	Env    map[string]string `json:"env,omitempty"`
	Secret map[string]string `json:"secret,omitempty"`
	Cmds   []Cmd             `json:"cmds"`
}

// Cmd is a command of the shell language.
type Cmd struct {
	K    string `json:"k"`
	ID   string `json:"id,omitempty"`
	W    []Word `json:"w,omitempty"`
	Name string `json:"n,omitempty"`
	Doc  []Part `json:"doc,omitempty"`
	Raw  bool   `json:"raw,omitempty"` // quoted here-document
	A    []Cmd  `json:"a,omitempty"`
	B    []Cmd  `json:"b,omitempty"`
	C    []Cmd  `json:"c,omitempty"`
	Code int    `json:"code,omitempty"`
	Tail string `json:"tail,omitempty"` // comment
	Cont bool   `json:"cont,omitempty"` // continued on the next line
	Pre  string `json:"pre,omitempty"`  // blanks before it
	Post string `json:"post,omitempty"` // and after it
}

// Word of a command.
type Word []Part

// Part of a word.
type Part struct {
	K string `json:"k"` // s d b n: text in quotes; var, def, sub, bt, glob
	T string `json:"t,omitempty"`
	D string `json:"d,omitempty"`
}

func sq(s string) string { return "'" + strings.ReplaceAll(s, "'", `'\''`) + "'" }

func dq(s string) string {
	var b strings.Builder
	for _, c := range s {
		if strings.ContainsRune("\"$`\\", c) {
			b.WriteByte('\\')
		}
		b.WriteRune(c)
	}
	return b.String()
}

const plainRunes = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_-./,:+@%"

func plain(s string) bool {
	return s != "" && strings.Trim(s, plainRunes) == ""
}

func (p Part) text() string {
	switch p.K {
	case "d":
		return `"` + dq(p.T) + `"`
	case "b":
		if !strings.ContainsAny(p.T, "\r\n") && p.T != "" {
			var b strings.Builder
			for _, c := range p.T {
				if !strings.ContainsRune(plainRunes, c) && c < 128 {
					b.WriteByte('\\')
				}
				b.WriteRune(c)
			}
			return b.String()
		}
	case "n":
		if plain(p.T) {
			return p.T
		}
	case "var":
		return `"$` + p.T + `"`
	case "def":
		return `"${` + p.T + `:-` + p.D + `}"`
	case "sub":
		return `"$(mark ` + p.T + `)"`
	case "bt":
		return "\"`mark " + p.T + "`\""
	case "glob":
		return p.T
	case "args":
		return `"$@"`
	}
	return sq(p.T)
}

func (w Word) text() string {
	s := ""
	for _, p := range w {
		s += p.text()
	}
	if s == "" {
		return "''"
	}
	return s
}

func block(l []Cmd, sep string) string {
	var t []string
	for _, c := range l {
		t = append(t, c.text())
	}
	if len(t) == 0 {
		t = []string{":"}
	}
	return strings.Join(t, sep)
}

func (c Cmd) words() string {
	s := ""
	sep := " "
	if c.Cont {
		sep = " \\\n  "
	}
	for _, w := range c.W {
		s += sep + w.text()
	}
	return s
}

func (c Cmd) text() string { return c.Pre + c.body() + c.Post }

func (c Cmd) body() string {
	switch c.K {
	case "mark":
		return "mark " + c.ID + c.words() + c.Tail
	case "doc":
		q, d := "EOT", ""
		if c.Raw {
			q = "'EOT'"
			for _, p := range c.Doc {
				d += p.T
			}
		} else {
			for _, p := range c.Doc {
				switch p.K {
				case "var":
					d += "${" + p.T + "}"
				case "sub":
					d += "$(mark " + p.T + ")"
				case "bt":
					d += "`mark " + p.T + "`"
				default:
					d += strings.NewReplacer(`\`, `\\`, "$", `\$`, "`", "\\`").Replace(p.T)
				}
			}
		}
		return "markin " + c.ID + c.words() + " <<" + q + "\n" + d + "\nEOT"
	case "assign":
		return c.Name + "=" + c.word().text()
	case "export":
		return c.Name + "=" + c.word().text() + "; export " + c.Name
	case "cd":
		return "cd " + sq(c.Name)
	case "and":
		return block(c.A, "; ") + " && " + block(c.B, "; ")
	case "or":
		return block(c.A, "; ") + " || " + block(c.B, "; ")
	case "not":
		return "! " + block(c.A, "; ")
	case "if":
		if c.Raw {
			s := "if " + block(c.A, "; ") + "; then " + block(c.B, "; ")
			if len(c.C) > 0 {
				s += "; else " + block(c.C, "; ")
			}
			return s + "; fi"
		}
		s := "if " + block(c.A, "; ") + "; then\n" + block(c.B, "\n")
		if len(c.C) > 0 {
			s += "\nelse\n" + block(c.C, "\n")
		}
		return s + "\nfi"
	case "for":
		return "for i in a 'b c'; do " + block(c.A, "; ") + "; done"
	case "sub":
		return "( " + block(c.A, "; ") + " )"
	case "group":
		return "{ " + block(c.A, "; ") + "; }"
	case "lines":
		if c.Raw {
			return block(c.A, "; ")
		}
		return block(c.A, "\n")
	case "func":
		return c.Name + "() {\n" + block(c.A, "\n") + "\n}"
	case "call":
		return c.Name
	case "exit":
		return fmt.Sprintf("exit %d", c.Code)
	case "true", "false":
		return c.K
	case "set":
		if c.Raw {
			return "set +e"
		}
		return "set -e"
	case "trap":
		return "trap 'mark " + c.ID + "' EXIT"
	case "unset":
		return "unset " + c.Name
	case "args":
		return "set --" + c.words()
	case "comment":
		return "#" + c.Name
	case "gone":
		return "no-such-program" + c.words()
	case "noexec":
		return "noexec" + c.words()
	case "empty":
		return ""
	}
	return ":"
}

func (c Cmd) word() Word {
	if len(c.W) > 0 {
		return c.W[0]
	}
	return nil
}

// call is one call of a stand-in.
type call struct {
	ID    string            `json:"id"`
	Args  []string          `json:"args"`
	Cwd   string            `json:"cwd"`
	In    string            `json:"in"`
	Env   map[string]string `json:"env"`
	Netrc string            `json:"netrc"`
	Mode  uint32            `json:"mode"`
}

func (c call) String() string {
	return fmt.Sprintf("%s %q in %s stdin %q env %q", c.ID, c.Args, c.Cwd, c.In, pairs(c.Env))
}

// sh is the reference: what the commands mean.
type sh struct {
	s      *SScen
	vars   map[string]string
	exp    map[string]bool
	funcs  map[string][]Cmd
	cwd    string
	calls  []call
	out    []string // expected order of the output
	ended  bool
	status int // -1: any failure
	vague  bool
	depth  int
	fired  map[string]int
	noerr  bool // set +e
	trap   string
	args   []string
}

// end runs the trap.
func (x *sh) end() {
	if x.trap != "" {
		x.mark(x.trap, nil, "")
		x.say(x.trap)
	}
}

func (x *sh) mark(id string, args []string, in string) int {
	e := map[string]string{}
	for k := range x.exp {
		e[k] = x.vars[k]
	}
	if args == nil {
		args = []string{}
	}
	x.calls = append(x.calls, call{ID: id, Args: args, Cwd: x.cwd, In: in, Env: e})
	n := x.s.Faults[id]
	if n < 0 {
		x.fired[fmt.Sprintf("killed-%d", -n)]++
		return 128 - n
	}
	if n > 0 {
		x.fired["exit-nonzero"]++
	}
	return n
}

func (x *sh) expand(w Word) []string {
	r := ""
	for _, p := range w {
		switch p.K {
		case "var":
			r += x.vars[p.T]
		case "def":
			if v := x.vars[p.T]; v != "" {
				r += v
			} else {
				r += p.D
			}
		case "sub", "bt":
			x.mark(p.T, nil, "")
			r += "out:" + p.T
		case "glob":
			return []string{"a.txt", "b c.txt"}
		case "args":
			return x.args
		default:
			r += p.T
		}
	}
	return []string{r}
}

func (x *sh) say(id string) { x.out = append(x.out, "out:"+id+"\n") }

// simple runs a command that ends the shell if it fails.
func (x *sh) run(l []Cmd, cond bool) int {
	st := 0
	for _, c := range l {
		st = x.one(c, cond)
		if x.ended {
			return st
		}
	}
	return st
}

func (x *sh) fail(st int, cond bool) int {
	if st != 0 && !cond && !x.noerr {
		x.ended, x.status = true, st
	}
	return st
}

func (x *sh) one(c Cmd, cond bool) int {
	if x.depth++; x.depth > 40 {
		x.depth--
		return 0
	}
	defer func() { x.depth-- }()
	switch c.K {
	case "mark", "doc":
		var args []string
		for _, w := range c.W {
			args = append(args, x.expand(w)...)
		}
		in := ""
		if c.K == "doc" {
			for _, p := range c.Doc {
				if c.Raw {
					in += p.T
				} else {
					in += strings.Join(x.expand(Word{p}), "")
				}
			}
			in += "\n"
		}
		x.say(c.ID)
		return x.fail(x.mark(c.ID, args, in), cond)
	case "gone", "noexec":
		for _, w := range c.W {
			x.expand(w)
		}
		x.fired["program-"+c.K]++
		if c.K == "gone" {
			return x.fail(127, cond)
		}
		return x.fail(-1, cond) // 126 or 127
	case "assign", "export":
		st := 0
		w := c.word()
		n := len(x.calls)
		v := strings.Join(x.expand(w), "")
		if k := len(x.calls); k > n && c.K == "assign" {
			// the status of the last substitution
			switch f := x.s.Faults[x.calls[k-1].ID]; {
			case f < 0:
				st = 128 - f
			default:
				st = f
			}
		} else if k > n {
			switch f := x.s.Faults[x.calls[k-1].ID]; {
			case f < 0:
				st = 128 - f
			default:
				st = f
			}
		}
		x.vars[c.Name] = v
		if x.fail(st, cond); x.ended {
			return st
		}
		if c.K == "export" {
			x.exp[c.Name] = true
			return 0
		}
		return st
	case "cd":
		to := filepath.Join(x.cwd, c.Name)
		if to != "." && to != "sub" && to != "sub dir" {
			x.fired["no-directory"]++
			return x.fail(-1, cond)
		}
		x.cwd = to
	case "and":
		if st := x.run(c.A, true); st != 0 || x.ended {
			return st
		}
		return x.run(c.B, cond)
	case "or":
		if st := x.run(c.A, true); st == 0 || x.ended {
			return st
		}
		return x.run(c.B, cond)
	case "not":
		if st := x.run(c.A, true); st != 0 {
			return 0
		}
		return 1
	case "if":
		st := x.run(c.A, true)
		if x.ended {
			return st
		}
		if st == 0 {
			return x.run(c.B, cond)
		}
		return x.run(c.C, cond)
	case "for":
		st := 0
		for _, v := range []string{"a", "b c"} {
			x.vars["i"] = v
			if st = x.run(c.A, cond); x.ended {
				return st
			}
		}
		return st
	case "sub":
		y := *x
		y.vars, y.exp, y.funcs = cloneMap(x.vars), map[string]bool{}, map[string][]Cmd{}
		y.trap = ""
		for k, f := range x.funcs {
			y.funcs[k] = f
		}
		for k := range x.exp {
			y.exp[k] = true
		}
		st := y.run(c.A, cond)
		x.calls, x.out = y.calls, y.out
		if y.ended {
			st = y.status
		}
		return x.fail(st, cond)
	case "group", "lines":
		return x.run(c.A, cond)
	case "func":
		x.funcs[c.Name] = c.A
	case "call":
		f, ok := x.funcs[c.Name]
		if !ok {
			return x.fail(127, cond)
		}
		old := x.args
		x.args = nil
		st := x.run(f, cond)
		x.args = old
		return st
	case "set":
		x.noerr = c.Raw
	case "trap":
		x.trap = c.ID
	case "unset":
		delete(x.vars, c.Name)
		delete(x.exp, c.Name)
	case "args":
		var args []string
		for _, w := range c.W {
			args = append(args, x.expand(w)...)
		}
		x.args = args
	case "exit":
		x.ended, x.status = true, c.Code
		return c.Code
	case "false":
		return x.fail(1, cond)
	}
	return 0
}

func (s *SScen) name(i int) string {
	if n := s.Steps[i].Name; n != "" {
		return n
	}
	return fmt.Sprint("s", i)
}

// yaml text of the scenario.
func (s *SScen) text() string {
	var b strings.Builder
	b.WriteString("kind: pipeline\nname: default\n")
	if s.OS != "" {
		fmt.Fprintf(&b, "platform:\n  os: %s\n  arch: amd64\n", s.OS)
	}
	for _, svc := range []bool{true, false} {
		key := "steps"
		if svc {
			key = "services"
		}
		first := true
		for i, st := range s.Steps {
			if st.Svc != svc {
				continue
			}
			if first {
				b.WriteString(key + ":\n")
				first = false
			}
			m := map[string]interface{}{"name": s.name(i), "image": "alpine"}
			switch st.Extra {
			case "entrypoint":
				m["entrypoint"], m["command"] = []string{"/bin/init", "-x"}, []string{"run", "y"}
			case "detach":
				if !svc {
					m["detach"] = true
				}
			case "plugin":
				m["settings"] = map[string]interface{}{"a": "b"}
			case "dir":
				m["working_dir"] = "/x"
			}
			var cmds []string
			for _, c := range st.Cmds {
				cmds = append(cmds, c.text())
			}
			m["commands"] = cmds
			env := map[string]interface{}{}
			for k, v := range st.Env {
				env[k] = v
			}
			for k := range st.Secret {
				env[k] = map[string]string{"from_secret": strings.ToLower(k) + fmt.Sprint(i)}
			}
			if len(env) > 0 {
				m["environment"] = env
			}
			fmt.Fprintf(&b, "- %s\n", flow(m))
		}
	}
	return b.String()
}

// flow writes a value as JSON that every YAML parser reads alike.
func flow(v interface{}) string {
	d, _ := json.Marshal(v)
	var b strings.Builder
	for _, c := range string(d) {
		switch {
		case c < 0x7f && c >= 0x20:
			b.WriteRune(c)
		case c > 0xffff:
			fmt.Fprintf(&b, `\U%08x`, c)
		default:
			fmt.Fprintf(&b, `\u%04x`, c)
		}
	}
	return b.String()
}

// room is the file system of the simulated container.
type room struct {
	dir string
	uid int
}

var stand string // the stand-in program

var isNobody int

// nobody reports whether processes can be started as another user.
func nobody() bool {
	if isNobody == 0 {
		isNobody = -1
		cmd := exec.Command("/bin/sh", "-c", ":")
		cmd.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: 65534, Gid: 65534, NoSetGroups: true}}
		if cmd.Run() == nil {
			isNobody = 1
		}
	}
	return isNobody > 0
}

func newRoom() (*room, error) {
	exe, err := os.Executable()
	if err != nil {
		return nil, err
	}
	stand = filepath.Join(filepath.Dir(exe), "run-mark")
	if _, err := os.Stat(stand); err != nil {
		return nil, err
	}
	dir, err := os.MkdirTemp("", "c38-")
	if err != nil {
		return nil, err
	}
	r := &room{dir: dir}
	if os.Getuid() == 0 && nobody() {
		r.uid = 65534
	}
	os.Chmod(dir, 0755)
	return r, nil
}

func (r *room) p(s ...string) string { return filepath.Join(append([]string{r.dir}, s...)...) }

// fill makes the file system anew.
func (r *room) fill(s *SScen) error {
	for _, d := range []string{"bin", "work", "home", "files"} {
		if err := os.RemoveAll(r.p(d)); err != nil {
			return err
		}
		if err := os.Mkdir(r.p(d), 0755); err != nil {
			return err
		}
	}
	lack := map[string]bool{}
	for _, l := range s.Lack {
		lack[l] = true
	}
	if _, err := os.Stat(r.p("stand")); err != nil {
		// the user of the container may not be able to reach ours
		if os.Link(stand, r.p("stand")) != nil {
			data, err := os.ReadFile(stand)
			if err == nil {
				err = os.WriteFile(r.p("stand"), data, 0755)
			}
			if err != nil {
				return err
			}
		}
	}
	os.Symlink(r.p("stand"), r.p("bin", "mark"))
	os.Symlink(r.p("stand"), r.p("bin", "markin"))
	for _, t := range []string{"cat", "chmod", "base64", "mkdir", "dirname", "printenv", "env", "rm", "tee", "sed", "tr", "head", "sleep"} {
		if !lack[t] {
			if q, err := exec.LookPath(t); err == nil {
				os.Symlink(q, r.p("bin", t))
			}
		}
	}
	os.WriteFile(r.p("bin", "noexec"), []byte("x"), 0644)
	for _, d := range []string{"sub", "sub dir"} {
		os.Mkdir(r.p("work", d), 0755)
		os.Chown(r.p("work", d), r.uid, r.uid)
	}
	for _, d := range []string{"work", "work/sub", "work/sub dir"} {
		for _, f := range []string{"a.txt", "b c.txt"} {
			os.WriteFile(r.p(d, f), []byte("x"), 0644)
		}
		os.Chown(r.p(d), r.uid, r.uid)
	}
	switch s.Home {
	case "space":
		os.Mkdir(r.p("home", "my home"), 0755)
		os.Chown(r.p("home", "my home"), r.uid, r.uid)
	case "readonly":
		os.Chmod(r.p("home"), 0555)
	case "file":
		os.WriteFile(r.p("home", "f"), nil, 0644)
	case "full":
		os.Chown(r.p("home"), r.uid, r.uid)
		os.Symlink("/dev/full", r.p("home", ".netrc"))
	case "old":
		os.Chown(r.p("home"), r.uid, r.uid)
		os.WriteFile(r.p("home", ".netrc"), []byte("machine old\nlogin old\npassword old\nand a longer text than the new one, "+strings.Repeat("x", 300)+"\n"), 0644)
		os.Chown(r.p("home", ".netrc"), r.uid, r.uid)
	default:
		os.Chown(r.p("home"), r.uid, r.uid)
	}
	plan, _ := json.Marshal(s.Faults)
	if err := os.WriteFile(r.p("plan"), plan, 0644); err != nil {
		return err
	}
	if s.Home == "full" && r.uid == 0 {
		s.Home = "missing"
	}
	if err := os.WriteFile(r.p("log"), nil, 0666); err != nil {
		return err
	}
	return os.Chmod(r.p("log"), 0666)
}

func (r *room) home(s *SScen) string {
	switch s.Home {
	case "space":
		return r.p("home", "my home")
	case "missing":
		return r.p("home", "none")
	case "file":
		return r.p("home", "f")
	}
	return r.p("home")
}

// capped is a buffer of limited size.
type capped struct{ bytes.Buffer }

func (c *capped) Write(p []byte) (int, error) {
	if c.Len()+len(p) < 8<<20 {
		c.Buffer.Write(p)
	}
	return len(p), nil
}

var errHang = errors.New("the script does not end")

// execute runs the container's process.
func (r *room) execute(s *SScen, spec *engine.Spec, step *engine.Step) (calls []call, out, serr string, code int, err error) {
	if err = r.fill(s); err != nil {
		return
	}
	env := map[string]string{}
	for k, v := range step.Envs {
		env[k] = v
	}
	for _, sv := range step.Secrets {
		if sec, ok := engine.LookupSecret(spec, sv); ok {
			env[sv.Env] = sec.Data
		}
	}
	if _, ok := env["HOME"]; !ok {
		env["HOME"] = r.home(s)
	}
	env["PATH"] = r.p("bin")
	argv := append(append([]string(nil), step.Docker.Command...), step.Docker.Args...)
	for i, f := range step.Files {
		file, ok := engine.LookupFile(spec, f.Name)
		if !ok {
			return nil, "", "", 0, fmt.Errorf("file %q does not exist", f.Name)
		}
		p := r.p("files", fmt.Sprint(i))
		if err = os.WriteFile(p, file.Data, 0644); err != nil {
			return
		}
		os.Chmod(p, os.FileMode(f.Mode)&0777|0444)
		for k := range argv {
			argv[k] = strings.ReplaceAll(argv[k], f.Path, p)
		}
	}
	if len(argv) == 0 {
		return nil, "", "", 0, errors.New("no command")
	}
	path := argv[0]
	switch path {
	case "/bin/sh", "sh", "/usr/bin/sh":
		path = "/bin/" + s.Shell
		argv[0] = "/bin/sh"
	case "/bin/bash", "bash":
		path = "/bin/bash"
	}
	cmd := &exec.Cmd{Path: path, Args: argv, Dir: r.p("work")}
	for _, k := range sorted(env) {
		cmd.Env = append(cmd.Env, k+"="+env[k])
	}
	var so, se capped
	cmd.Stdout, cmd.Stderr = &so, &se
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	if r.uid != 0 {
		cmd.SysProcAttr.Credential = &syscall.Credential{Uid: uint32(r.uid), Gid: uint32(r.uid), NoSetGroups: true}
	}
	old := syscall.Umask(s.Umask)
	err = cmd.Start()
	syscall.Umask(old)
	if err != nil {
		return
	}
	hang := false
	t := time.AfterFunc(60*time.Second, func() {
		hang = true
		syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
	})
	cmd.WaitDelay = 5 * time.Second
	werr := cmd.Wait()
	t.Stop()
	syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
	if hang {
		return nil, so.String(), se.String(), 0, errHang
	}
	if cmd.ProcessState == nil {
		return nil, "", "", 0, werr
	}
	ws := cmd.ProcessState.Sys().(syscall.WaitStatus)
	code = ws.ExitStatus()
	if ws.Signaled() {
		code = 128 + int(ws.Signal())
	}
	b, err := os.ReadFile(r.p("log"))
	if err != nil {
		return
	}
	for _, l := range strings.Split(strings.TrimSpace(string(b)), "\n") {
		if l == "" {
			continue
		}
		var c call
		if err = json.Unmarshal([]byte(l), &c); err != nil {
			return
		}
		calls = append(calls, c)
	}
	return calls, so.String(), se.String(), code, nil
}

// prefix of the trace that every shell prints alike.
func tracePrefix(cmd string) string {
	for i, c := range cmd {
		if c < 0x20 || c >= 0x7f || c == '\\' {
			return cmd[:i]
		}
	}
	return cmd
}

// tidy makes a scenario valid again after it was minimised.
func tidy(l []Cmd) {
	id := func(s *string, d string) {
		if *s == "" {
			*s = d
		}
	}
	parts := func(ps []Part) {
		for i := range ps {
			switch ps[i].K {
			case "var", "def":
				id(&ps[i].T, "V_A")
			case "sub", "bt":
				id(&ps[i].T, "m0")
			case "glob":
				ps[i].T = "*.txt"
			}
		}
	}
	for i := range l {
		c := &l[i]
		if strings.TrimSpace(c.Pre) != "" || strings.TrimSpace(c.Post) != "" {
			c.Pre, c.Post = "", ""
		}
		id(&c.ID, "m0")
		switch c.K {
		case "assign", "export", "unset":
			id(&c.Name, "V_A")
		case "cd":
			id(&c.Name, ".")
		case "func", "call":
			id(&c.Name, "fn0")
		}
		for _, w := range c.W {
			parts(w)
		}
		parts(c.Doc)
		tidy(c.A)
		tidy(c.B)
		tidy(c.C)
	}
}

func runScript(raw json.RawMessage, _ int) (o simkit.Outcome) {
	var s SScen
	if err := json.Unmarshal(raw, &s); err != nil {
		o.Err = err.Error()
		return
	}
	if s.Shell != "bash" {
		s.Shell = "dash"
		if _, err := os.Stat("/bin/dash"); err != nil {
			s.Shell = "sh"
		}
	}
	n := 0
	for i := range s.Steps {
		if !s.Steps[i].Svc {
			n++
		}
		tidy(s.Steps[i].Cmds)
	}
	if n == 0 {
		o.Triv = true
		return
	}
	r, err := newRoom()
	if err != nil {
		o.Err = err.Error()
		return
	}
	defer os.RemoveAll(r.dir)
	text := s.text()
	m, err := yaml.ParseString(text)
	if err != nil {
		o.Triv = true
		o.Probe("not-parsed")
		return
	}
	p := m.Resources[0].(*yaml.Pipeline)
	if err := linter.Lint(p, true); err != nil {
		o.Triv = true
		o.Probe("rejected")
		return
	}
	secrets := map[string]string{}
	for i, st := range s.Steps {
		for k, v := range st.Secret {
			secrets[strings.ToLower(k)+fmt.Sprint(i)] = v
		}
	}
	fns := []func(*engine.Spec){transform.WithSecrets(secrets)}
	if s.Env != nil {
		fns = append(fns, transform.WithEnviron(cloneMap(s.Env)))
	}
	if len(s.Netrc) == 3 {
		fns = append(fns, transform.WithNetrc(s.Netrc[0], s.Netrc[1], s.Netrc[2]))
	}
	c := &compiler.Compiler{TransformFunc: transform.Combine(fns...)}
	spec := c.Compile(p)
	state := uint64(0)
	for i := range s.Steps {
		if len(s.Steps[i].Cmds) == 0 {
			continue
		}
		st := &s.Steps[i]
		var es *engine.Step
		for _, e := range spec.Steps {
			if e.Metadata.Name == s.name(i) {
				es = e
			}
		}
		if es == nil {
			o.Failf("no-container", "step s%d has no container\n%s", i, text)
			return
		}
		x := &sh{s: &s, vars: map[string]string{}, exp: map[string]bool{}, funcs: map[string][]Cmd{}, cwd: ".", fired: map[string]int{}}
		for _, m := range []map[string]string{s.Env, st.Env, st.Secret} {
			for k, v := range m {
				x.vars[k], x.exp[k] = v, true
			}
		}
		for _, cm := range st.Cmds {
			t := cm.text()
			if strings.TrimSpace(tracePrefix(t)) != "" {
				x.out = append(x.out, "+ "+tracePrefix(t))
			}
			last := x.one(cm, false)
			x.vague = last != 0 && !x.ended
			if x.ended {
				break
			}
		}
		x.end()
		want := x.status
		for k, v := range x.fired {
			o.Fault(k, v)
		}
		if s.Home != "" {
			o.Fault("home-"+s.Home, 1)
		}
		for _, l := range s.Lack {
			o.Fault("no-"+l, 1)
		}
		calls, out, serr, code, err := r.execute(&s, spec, es)
		if err == errHang {
			o.Failf("hangs", "the script of step s%d does not end\n%s", i, text)
			return
		}
		if err != nil {
			o.Err = err.Error()
			return
		}
		for k := range out {
			if out[k] == '\n' {
				o.Steps++
			}
		}
		script := ""
		if len(es.Files) > 0 {
			if f, ok := engine.LookupFile(spec, es.Files[0].Name); ok {
				script = string(f.Data)
			}
		}
		dump := func() string {
			return fmt.Sprintf("\nshell %s, exit status %d, script:\n%s\noutput:\n%s\nerrors:\n%s", s.Shell, code, script, out, serr)
		}
		got := append([]call(nil), calls...)
		cred := ""
		for k := range got {
			e := map[string]string{}
			for n, v := range got[k].Env {
				if strings.HasPrefix(n, "V_") {
					e[n] = v
				} else if strings.HasSuffix(n, "USERNAME") || strings.HasSuffix(n, "PASSWORD") {
					cred = got[k].ID + " sees " + n
				}
			}
			got[k].Env = e
		}
		for k := 0; k < len(got) || k < len(x.calls); k++ {
			a, b := "nothing", "nothing"
			if k < len(x.calls) {
				a = x.calls[k].String()
			}
			if k < len(got) {
				b = got[k].String()
			}
			if a != b {
				o.Failf("wrong-execution", "step s%d, call %d: expected %s\n    executed %s%s", i, k, a, b, dump())
				return
			}
		}
		switch {
		case cred != "":
			o.Failf("credentials-visible", "step s%d: command %s%s", i, cred, dump())
		case want > 0 && code != want, want == 0 && !x.vague && code != 0:
			o.Failf("wrong-status", "step s%d ends with status %d instead of %d%s", i, code, want, dump())
		}
		if o.Fail != nil {
			return
		}
		pos := 0
		for _, w := range x.out {
			k := strings.Index(out[pos:], w)
			if k < 0 {
				o.Failf("not-traced", "step s%d: %q is missing in the output, or at another place%s", i, w, dump())
				return
			}
			pos += k + len(w)
		}
		if len(s.Netrc) == 3 && s.Netrc[0] != "" && s.Netrc[1] != "" && s.Netrc[2] != "" && len(calls) > 0 && (s.Home == "" || s.Home == "space" || s.Home == "old") {
			lack := map[string]bool{}
			for _, l := range s.Lack {
				lack[l] = true
			}
			w := fmt.Sprintf("machine %s\nlogin %s\npassword %s\n", s.Netrc[0], s.Netrc[1], s.Netrc[2])
			for _, c := range calls {
				if !lack["cat"] && c.Netrc != w {
					o.Failf("wrong-netrc", "step s%d: the netrc file is %q instead of %q%s", i, c.Netrc, w, dump())
					return
				}
				if !lack["cat"] && !lack["chmod"] && c.Mode != 0600 {
					o.Failf("open-netrc", "step s%d: the netrc file has mode %o%s", i, c.Mode, dump())
					return
				}
			}
			o.Probe("netrc")
		}
		if x.ended {
			o.Probe("stopped")
		} else {
			o.Probe("ran-to-end")
		}
		for _, c := range calls {
			state = simkit.HashStr(state, c.String())
		}
		o.Digest = simkit.HashStr(o.Digest, strings.ReplaceAll(out, r.dir, ""))
		o.Digest = simkit.Mix(o.Digest, state, uint64(code))
		for _, l := range strings.Split(out, "\n") {
			if strings.HasPrefix(l, "out:") {
				state = simkit.HashStr(state, "o")
			}
		}
		state = simkit.Mix(state, uint64(code))
	}
	o.State = state
	return
}

type sgen struct {
	r    *simkit.Rng
	s    *SScen
	n    int
	vars []string
	fn   []string
	nest int
	argv bool // there are positional parameters
	trap bool
}

func (g *sgen) id() string {
	g.n++
	id := fmt.Sprint("m", g.n)
	if g.r.P(.07) {
		f := g.r.Range(1, 5)
		switch {
		case g.r.P(.2):
			f = -[]int{9, 9, 15}[g.r.Intn(3)]
		case g.r.P(.3):
			f = []int{78, 126, 127, 128, 130, 137, 143, 255}[g.r.Intn(8)]
		}
		g.s.Faults[id] = f
	}
	return id
}

var shellText = []string{"a;b", "a|b", "a&b", "a && b", "a || b", "$(mark x1)", "`mark x2`", "$HOME", "${V_A}", "$", "$$", "~", "*", "?", "[a]", "!x", "!!", "%s", "%d", "%%", "%!d(string=x)", `\n`, `a\`, `\`, `\\`, `\"`, `\'`, "#x", "a #x", "<x", ">x", ">>x", "<<EOT", "2>&1", "EOF", "EOT", "(a)", "{a,b}", "a=b", "-n", "-e", "--", "'", "\"", "''", "\"\"", "it's", "a'b\"c", "\t", " ", "  a  ", "a\nb", "\n", "$'x'", "\\$x", "$\\x", "\\`", "é", "日本", "😀", "\u00a0", "set +e", "exit 0", "${#}", "$1", "$@", "$?", "$-", "a\rb", "+ x"}

func (g *sgen) str() string {
	if g.r.P(.01) {
		return strings.Repeat(g.r.Pick("x", "long ", "a'b", "$", "`"), g.r.Range(100, 8000))
	}
	switch g.r.Intn(6) {
	case 0:
		return g.r.Pick("a", "b.go", "v1.2.3", "--flag", "x=y", "path/to")
	case 1:
		for {
			if t := oddText[g.r.Intn(len(oddText))]; len(t) < 100 {
				return t
			}
		}
	case 2:
		return shellText[g.r.Intn(len(shellText))] + shellText[g.r.Intn(len(shellText))]
	}
	return shellText[g.r.Intn(len(shellText))]
}

func (g *sgen) part(sub bool) Part {
	r := g.r
	switch {
	case r.P(.12) && len(g.vars) > 0:
		return Part{K: "var", T: g.vars[r.Intn(len(g.vars))]}
	case r.P(.04):
		return Part{K: "def", T: r.Pick("V_A", "V_NONE", "V_B"), D: r.Pick("dflt", "a b", "x/y")}
	case sub && r.P(.06):
		return Part{K: "sub", T: g.id()}
	case sub && r.P(.06):
		return Part{K: "bt", T: g.id()}
	}
	return Part{K: r.Pick("s", "s", "d", "d", "b", "n"), T: g.str()}
}

func (g *sgen) word() Word {
	if g.r.P(.03) {
		return Word{{K: "glob", T: "*.txt"}}
	}
	if g.argv && g.r.P(.2) {
		return Word{{K: "args"}}
	}
	w := Word{}
	for n := g.r.Range(1, 2); n > 0; n-- {
		w = append(w, g.part(true))
	}
	return w
}

func (g *sgen) mark() Cmd {
	c := Cmd{K: "mark", ID: g.id()}
	for n := g.r.Intn(4); n > 0; n-- {
		c.W = append(c.W, g.word())
	}
	if g.r.P(.06) {
		c.Tail = " #" + g.r.Pick(" it's", " \"done", "$(mark x)", "`mark y`", " a; b")
	}
	c.Cont = g.r.P(.06)
	return c
}

// simple commands: failing ends the shell.
func (g *sgen) simple(doc bool) Cmd {
	r := g.r
	switch k := r.Intn(20); {
	case k == 0:
		return Cmd{K: r.Pick("gone", "noexec"), W: []Word{g.word()}}
	case k == 1:
		return Cmd{K: r.Pick("true", "true", "false")}
	case k <= 3:
		v := r.Pick("V_A", "V_B", "V_X", "V_C")
		c := Cmd{K: r.Pick("assign", "export"), Name: v, W: []Word{{g.part(true)}}}
		g.vars = append(g.vars, v)
		return c
	case k == 4:
		return Cmd{K: "cd", Name: r.Pick("sub", "sub dir", ".", "sub", "sub dir", "none")}
	case k == 5 && doc:
		c := Cmd{K: "doc", ID: g.id(), Raw: r.P(.5)}
		for n := r.Intn(4); n >= 0; n-- {
			p := g.part(true)
			if c.Raw || p.K == "def" {
				p = Part{K: "s", T: g.str()}
			}
			if p.K == "b" || p.K == "n" || p.K == "d" {
				p.K = "s"
			}
			if strings.Contains(p.T, "EOT") || strings.Contains(p.T, "\n") {
				p.T = "x"
				p.K = "s"
			}
			c.Doc = append(c.Doc, p)
		}
		return c
	}
	c := g.mark()
	if !doc {
		c.Tail, c.Cont = "", false
	}
	return c
}

// cond is a command whose failure is looked at.
func (g *sgen) cond() []Cmd {
	c := g.mark()
	c.Tail = ""
	if g.r.P(.4) {
		g.s.Faults[c.ID] = g.r.Range(1, 3)
	}
	if g.r.P(.2) {
		return []Cmd{{K: g.r.Pick("true", "false")}}
	}
	return []Cmd{c}
}

// last is the last command of a list.
func (g *sgen) last() Cmd {
	if g.r.P(.15) {
		return Cmd{K: "exit", Code: g.r.Intn(4)}
	}
	c := g.simple(false)
	if c.K == "export" {
		c.K = "assign"
	}
	return c
}

func (g *sgen) body(doc bool) (l []Cmd) {
	for n := g.r.Range(1, 3); n > 0; n-- {
		c := g.simple(doc)
		if c.K == "cd" {
			c = g.mark()
			c.Tail, c.Cont = "", false
		}
		l = append(l, c)
	}
	if g.r.P(.15) {
		g.nest++
		if g.nest < 4 {
			l = append(l, g.choice(), Cmd{K: "true"})
		}
		g.nest--
	}
	return
}

// choice leaves the shell or not.
func (g *sgen) choice() Cmd {
	switch g.r.Intn(3) {
	case 0:
		return Cmd{K: "or", A: g.cond(), B: []Cmd{{K: "exit", Code: g.r.Intn(4)}}}
	case 1:
		l := append(g.body(false), Cmd{K: "exit", Code: g.r.Intn(4)})
		return Cmd{K: "if", A: g.cond(), B: l, Raw: g.r.P(.7)}
	}
	return Cmd{K: "if", A: g.cond(), B: g.body(false), C: []Cmd{{K: "exit", Code: g.r.Intn(4)}}, Raw: g.r.P(.7)}
}

func (g *sgen) cmd() Cmd {
	r := g.r
	switch k := r.Intn(30); {
	case k == 0:
		return Cmd{K: "and", A: g.cond(), B: []Cmd{g.last()}}
	case k == 1:
		return Cmd{K: "or", A: g.cond(), B: []Cmd{g.last()}}
	case k == 2:
		return Cmd{K: "not", A: g.cond()}
	case k == 3:
		c := Cmd{K: "if", A: g.cond(), B: g.body(true)}
		if r.P(.5) {
			c.C = g.body(true)
		}
		return c
	case k == 4:
		return Cmd{K: "for", A: g.body(false)}
	case k == 5:
		l := g.body(false)
		if r.P(.2) {
			l = append(l, Cmd{K: "exit", Code: r.Intn(4)})
		}
		return Cmd{K: "sub", A: l}
	case k == 6:
		return Cmd{K: "group", A: g.body(false)}
	case k == 7 || k == 8:
		return Cmd{K: "lines", A: g.body(true)}
	case k == 9:
		n := fmt.Sprint("fn", len(g.fn))
		c := Cmd{K: "func", Name: n, A: g.body(true)}
		g.fn = append(g.fn, n)
		return c
	case k == 10 && len(g.fn) > 0:
		return Cmd{K: "call", Name: g.fn[r.Intn(len(g.fn))]}
	case k == 11:
		return Cmd{K: "comment", Name: r.Pick(" it's", "\"", " $(mark z)", " `mark z`", "!/bin/sh")}
	case k == 12 && r.P(.3):
		return Cmd{K: "exit", Code: r.Intn(5)}
	case k == 13 && r.P(.3):
		return Cmd{K: "empty"}
	case k == 14 && r.P(.5):
		return Cmd{K: "set", Raw: r.P(.6)}
	case k == 15 && r.P(.5) && !g.trap:
		g.trap = true
		id := g.id()
		delete(g.s.Faults, id)
		return Cmd{K: "trap", ID: id}
	case k == 16 && r.P(.5):
		return Cmd{K: "unset", Name: r.Pick("V_A", "V_B", "V_OP", "V_E1")}
	case k == 17 && r.P(.6):
		c := Cmd{K: "args"}
		for n := r.Intn(4); n > 0; n-- {
			c.W = append(c.W, g.word())
		}
		g.argv = true
		return c
	case k == 18:
		return g.choice()
	case k == 19:
		return Cmd{K: "lines", Raw: true, A: append(g.body(false), g.choice())}
	}
	return g.simple(true)
}

func genScript(r *simkit.Rng, thorough bool) interface{} {
	s := &SScen{Faults: map[string]int{}, Shell: r.Pick("dash", "bash"), OS: r.Pick("", "", "linux")}
	g := &sgen{r: r, s: s}
	if r.P(.3) {
		s.Env = map[string]string{"V_OP": g.str()}
	}
	if r.P(.5) {
		s.Netrc = []string{r.Pick("github.com", "git.example.com"), r.Pick("octocat", "x-token", "o'cat"), r.Pick("secret", "p$HOME", "a b", "`x`", "$(mark n)", "it's", "\\", "a\"b", "é#%s", "%d")}
		if r.P(.15) {
			s.Home = r.Pick("missing", "readonly", "file", "full", "old", "old")
		}
		if r.P(.1) {
			s.Home = "space"
		}
		if r.P(.08) {
			s.Lack = append(s.Lack, r.Pick("cat", "chmod"))
		}
	}
	s.Umask = []int{022, 022, 0, 077, 027}[r.Intn(5)]
	for n := r.Range(1, 2); n > 0; n-- {
		g.vars, g.fn, g.argv, g.trap = nil, nil, false, false
		st := SStep{}
		for k := range s.Env {
			g.vars = append(g.vars, k)
		}
		if r.P(.6) {
			st.Env = map[string]string{}
			for _, k := range []string{"V_A", "V_B", "V_E1"} {
				if r.P(.5) {
					st.Env[k] = g.str()
					g.vars = append(g.vars, k)
				}
			}
		}
		if r.P(.3) {
			st.Secret = map[string]string{"V_SEC": "s-" + g.str()}
			g.vars = append(g.vars, "V_SEC")
		}
		sort.Strings(g.vars)
		max := 6
		if thorough || r.P(.03) {
			max = 30
		}
		if thorough && r.P(.7) {
			max = 12
		}
		for k := r.Range(1, max); k > 0; k-- {
			c := g.cmd()
			if k := len(st.Cmds); k > 0 && r.P(.06) {
				c = st.Cmds[r.Intn(k)]
			}
			if r.P(.08) {
				c.Pre = r.Pick(" ", "\t", "  ", "\n", "\n\n")
			}
			if r.P(.15) {
				c.Post = r.Pick(" ", "\n", "\n", "\n\n", "\t\n")
			}
			if c.K != "mark" && c.Post != "" {
				c.Post = "\n"
			}
			st.Cmds = append(st.Cmds, c)
		}
		if r.P(.15) {
			st.Extra = r.Pick("entrypoint", "detach", "plugin", "dir")
		}
		if r.P(.2) {
			st.Name = []string{"build", "Build", "BUILD", "build ", "build_"}[len(s.Steps)]
		} else if r.P(.1) {
			st.Name = fmt.Sprint(r.Pick("S", "s", "S", "s ", "a b", "x/y", "%s", "é", ".", "-"), len(s.Steps))
		}
		s.Steps = append(s.Steps, st)
	}
	if r.P(.15) {
		s.Steps = append(s.Steps, SStep{Svc: true, Cmds: []Cmd{g.cmd(), g.cmd()}})
	}
	return s
}
