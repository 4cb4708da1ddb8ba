package main

import (
	"encoding/binary"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"syscall"
)

// child is a real process whose system calls are answered by the simulator.
type child struct {
	pid    int
	fd     int
	stderr *os.File
	buf    []byte
}

var binDir = func() string {
	p, err := os.Executable()
	if err != nil {
		return ".build"
	}
	return filepath.Dir(p)
}()

// spawn starts a program. It does nothing before its first request is
// answered.
func spawn(bin string, args []string, seed uint64) (*child, error) {
	sp, err := syscall.Socketpair(syscall.AF_UNIX, syscall.SOCK_STREAM|syscall.SOCK_CLOEXEC, 0)
	if err != nil {
		return nil, err
	}
	tmp, err := os.CreateTemp("", "sim-stderr")
	if err != nil {
		return nil, err
	}
	os.Remove(tmp.Name())
	null, err := os.OpenFile("/dev/null", os.O_RDWR, 0)
	if err != nil {
		return nil, err
	}
	defer null.Close()
	tv := syscall.Timeval{Sec: 20}
	syscall.SetsockoptTimeval(sp[0], syscall.SOL_SOCKET, syscall.SO_RCVTIMEO, &tv)
	prog := filepath.Join(binDir, bin)
	pid, err := syscall.ForkExec(prog, append([]string{bin}, args...), &syscall.ProcAttr{
		Dir:   "/",
		Env:   []string{"SIM_CTL=3", "SIM_SEED=" + strconv.FormatUint(seed, 10), "GOMAXPROCS=1", "GOGC=off", "GODEBUG=asyncpreemptoff=1", "TZ=UTC"},
		Files: []uintptr{null.Fd(), null.Fd(), tmp.Fd(), uintptr(sp[1])},
	})
	syscall.Close(sp[1])
	if err != nil {
		syscall.Close(sp[0])
		tmp.Close()
		return nil, err
	}
	return &child{pid: pid, fd: sp[0], stderr: tmp}, nil
}

var errHang = fmt.Errorf("no answer")

func (c *child) full(b []byte) error {
	for len(b) > 0 {
		n, err := syscall.Read(c.fd, b)
		if err == syscall.EINTR {
			continue
		}
		if err == syscall.EAGAIN {
			return errHang
		}
		if err != nil || n == 0 {
			return io.EOF
		}
		b = b[n:]
	}
	return nil
}

// next waits for the next system call; io.EOF: the process ended.
func (c *child) next() (*req, error) {
	var h [80]byte
	if err := c.full(h[:]); err != nil {
		return nil, err
	}
	q := &req{}
	u := func(i int) uint64 { return binary.LittleEndian.Uint64(h[8*i:]) }
	q.trap = u(0)
	for i := range q.a {
		q.a[i] = u(1 + i)
	}
	if u(7) > 64<<20 || u(8) > 1<<20 {
		return nil, fmt.Errorf("bad request")
	}
	q.in[0], q.in[1] = make([]byte, u(7)), make([]byte, u(8))
	for _, b := range q.in {
		if err := c.full(b); err != nil {
			return nil, err
		}
	}
	q.cap = int(u(9))
	return q, nil
}

func (c *child) answer(r rsp) {
	b := make([]byte, 24+len(r.out))
	binary.LittleEndian.PutUint64(b, r.r1)
	binary.LittleEndian.PutUint64(b[8:], uint64(r.err))
	binary.LittleEndian.PutUint64(b[16:], uint64(len(r.out)))
	copy(b[24:], r.out)
	for len(b) > 0 {
		n, err := syscall.SendmsgN(c.fd, b, nil, nil, syscall.MSG_NOSIGNAL)
		if err == syscall.EINTR {
			continue
		}
		if err != nil {
			return
		}
		b = b[n:]
	}
}

// wait collects an ended process: its status (128+signal for a signal) and
// what the runtime itself printed.
func (c *child) wait() (int, string) {
	syscall.Close(c.fd)
	var ws syscall.WaitStatus
	for {
		_, err := syscall.Wait4(c.pid, &ws, 0, nil)
		if err != syscall.EINTR {
			break
		}
	}
	c.stderr.Seek(0, 0)
	b, _ := io.ReadAll(io.LimitReader(c.stderr, 4000))
	c.stderr.Close()
	if ws.Signaled() {
		return 128 + int(ws.Signal()), string(b)
	}
	return ws.ExitStatus(), string(b)
}

func (c *child) kill() {
	syscall.Kill(c.pid, syscall.SIGKILL)
	c.wait()
}

func quote(b []byte) string {
	s := strconv.Quote(string(b))
	if len(s) > 60 {
		s = s[:60] + "..." + strconv.Itoa(len(b))
	}
	return s
}

func (q *req) String() string {
	n := sysNames[q.trap]
	if n == "" {
		n = strconv.FormatUint(q.trap, 10)
	}
	var a []string
	switch q.trap {
	case 0, 3, 5, 8, 16, 17, 32, 72, 73, 74, 75, 77, 91, 93, 217:
		a = append(a, strconv.Itoa(int(int32(q.a[0]))))
		if q.trap == 77 || q.trap == 91 || q.trap == 93 {
			a = append(a, fmt.Sprintf("%#o", q.a[1]))
		}
		if q.trap == 0 {
			a = append(a, strconv.Itoa(q.cap))
		}
	case 1, 18:
		a = append(a, strconv.Itoa(int(int32(q.a[0]))), quote(q.in[0]))
	default:
		for _, b := range q.in {
			if len(b) > 0 {
				a = append(a, quote(b))
			}
		}
		switch q.trap {
		case 257:
			a = append(a, fmt.Sprintf("%#x", q.a[2]))
		case 318:
			a = append(a, strconv.Itoa(q.cap))
		}
	}
	return n + "(" + strings.Join(a, ", ") + ")"
}
