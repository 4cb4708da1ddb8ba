package main

import (
	"encoding/binary"
	"fmt"
	"sort"
	"strings"
	"syscall"

	"verif.local/sim/simkit"
)

const fdBase = 1 << 20

// ofd is an open file description.
type ofd struct {
	ino    *inode
	off    int
	flags  int
	stream int // 1, 2: output; 0: input
	dir    []string
}

// req is a system call as the process issued it.
type req struct {
	trap uint64
	a    [6]uint64
	in   [2][]byte
	cap  int
}

// rsp is the answer.
type rsp struct {
	r1  uint64
	err syscall.Errno
	out []byte
}

// kproc is the kernel's view of a process.
type kproc struct {
	k     *kernel
	id    int
	uid   int
	cwd   *inode
	fds   map[int]*ofd
	outs  [3][]byte // what was delivered on descriptors 1 and 2
	count map[string]int
	calls int
	ent   *simkit.Rng
	rnd   []byte
	ebadf string
	pipe  [3]bool // nobody reads any more
	locks map[*inode]bool
}

type kernel struct {
	d      *disk
	locks  map[*inode]map[*kproc]bool // exclusive if the value is true
	faults map[string]int
	hash   uint64
	log    []string
	logOn  bool
	err    string // the simulator cannot answer
}

var sysNames = map[uint64]string{0: "read", 1: "write", 2: "open", 3: "close", 4: "stat", 5: "fstat", 6: "lstat", 8: "lseek", 16: "ioctl", 17: "pread", 18: "pwrite", 20: "writev", 19: "readv", 21: "access", 32: "dup", 33: "dup2", 40: "sendfile",
	72: "fcntl", 73: "flock", 74: "fsync", 75: "fdatasync", 76: "truncate", 77: "ftruncate", 78: "getdents", 79: "getcwd", 80: "chdir", 82: "rename", 83: "mkdir", 84: "rmdir", 85: "creat", 86: "link", 87: "unlink", 88: "symlink", 89: "readlink", 90: "chmod", 91: "fchmod", 92: "chown", 93: "fchown", 94: "lchown",
	132: "utime", 133: "mknod", 137: "statfs", 138: "fstatfs", 162: "sync", 217: "getdents64", 221: "fadvise", 235: "utimes", 257: "openat", 258: "mkdirat", 260: "fchownat", 262: "newfstatat", 263: "unlinkat", 264: "renameat", 265: "linkat", 266: "symlinkat", 267: "readlinkat", 268: "fchmodat", 269: "faccessat", 275: "splice", 277: "sync_file_range", 280: "utimensat", 285: "fallocate", 292: "dup3", 306: "syncfs", 316: "renameat2", 318: "getrandom", 326: "copy_file_range", 332: "statx", 437: "openat2", 439: "faccessat2", 452: "fchmodat2"}

// classOf maps system calls to the classes faults are addressed to.
func classOf(trap uint64) string {
	switch trap {
	case 2, 85, 257, 437:
		return "open"
	case 0, 17, 19:
		return "read"
	case 1, 18, 20:
		return "write"
	case 3:
		return "close"
	case 4, 5, 6, 262, 332, 21, 269, 439, 89, 267, 79:
		return "stat"
	case 74, 75, 162, 306, 277:
		return "fsync"
	case 82, 264, 316:
		return "rename"
	case 90, 91, 268, 92, 93, 94, 260, 452, 132, 235, 280:
		return "chmod"
	case 87, 263, 84:
		return "unlink"
	case 76, 77, 285:
		return "truncate"
	case 318:
		return "random"
	}
	return "other"
}

func (k *kernel) proc(id, uid int, seed uint64) *kproc {
	_, _, w, _ := k.d.walk(nil, "/w", true)
	return &kproc{k: k, id: id, uid: uid, cwd: w, ent: simkit.NewRng(seed), count: map[string]int{}, locks: map[*inode]bool{},
		fds: map[int]*ofd{0: {stream: 0, flags: syscall.O_RDONLY}, 1: {stream: 1, flags: syscall.O_WRONLY}, 2: {stream: 2, flags: syscall.O_WRONLY}}}
}

func (p *kproc) newFd(o *ofd) int {
	for n := fdBase; ; n++ {
		if p.fds[n] == nil {
			p.fds[n] = o
			return n
		}
	}
}

func (p *kproc) open(n int) []int {
	var l []int
	for fd := range p.fds {
		if fd >= n {
			l = append(l, fd)
		}
	}
	sort.Ints(l)
	return l
}

func fail(e syscall.Errno) rsp { return rsp{r1: ^uint64(0), err: e} }

func ok(r uint64) rsp { return rsp{r1: r} }

// may checks a permission: 4 read, 2 write, 1 search.
func (p *kproc) may(n *inode, want uint32) bool {
	if p.uid == 0 {
		return true
	}
	m := n.mode
	if n.uid == p.uid {
		m >>= 6
	}
	return m&want == want
}

func (p *kproc) at(dirfd uint64) (*inode, syscall.Errno) {
	if int32(dirfd) == -100 {
		return p.cwd, 0
	}
	o := p.fds[int(int32(dirfd))]
	if o == nil {
		return nil, syscall.EBADF
	}
	if o.ino == nil || o.ino.kind != 'd' {
		return nil, syscall.ENOTDIR
	}
	return o.ino, 0
}

func (p *kproc) find(dirfd uint64, path string, follow bool) (parent *inode, name string, n *inode, e syscall.Errno) {
	d, e := p.at(dirfd)
	if strings.HasPrefix(path, "/") {
		d, e = p.k.d.root, 0
	}
	if e != 0 {
		return
	}
	if path == "" {
		e = syscall.ENOENT
		return
	}
	var loop bool
	parent, name, n, loop = p.k.d.walk(d, path, follow)
	if loop {
		e = syscall.ELOOP
	} else if parent == nil {
		e = syscall.ENOENT
	} else if !p.may(parent, 1) {
		e = syscall.EACCES
	} else if n != nil && n.kind != 'd' && strings.HasSuffix(path, "/") {
		e = syscall.ENOTDIR
	}
	return
}

func (n *inode) stat() []byte {
	b := make([]byte, 144)
	le := binary.LittleEndian
	le.PutUint64(b[0:], uint64(n.dev))
	le.PutUint64(b[8:], uint64(n.id))
	le.PutUint64(b[16:], 1)
	le.PutUint32(b[24:], n.typeBits()|n.mode)
	le.PutUint32(b[28:], uint32(n.uid))
	le.PutUint32(b[32:], uint32(n.uid))
	le.PutUint64(b[48:], uint64(len(n.data)))
	le.PutUint64(b[56:], 4096)
	le.PutUint64(b[64:], uint64((len(n.data)+511)/512))
	for _, o := range []int{72, 88, 104} {
		le.PutUint64(b[o:], uint64(n.mtime))
	}
	return b
}

func (n *inode) typeBits() uint32 {
	switch n.kind {
	case 'd':
		return syscall.S_IFDIR
	case 'l':
		return syscall.S_IFLNK
	}
	return syscall.S_IFREG
}

// pipeStat is the status of the standard streams.
func pipeStat() []byte {
	n := inode{kind: 'f', mode: 0600, dev: 9, id: 9}
	b := n.stat()
	binary.LittleEndian.PutUint32(b[24:], syscall.S_IFIFO|0600)
	return b
}

func (p *kproc) doOpen(dirfd uint64, path string, flags int, mode uint32) rsp {
	d := p.k.d
	follow := flags&syscall.O_NOFOLLOW == 0 && flags&(syscall.O_CREAT|syscall.O_EXCL) != syscall.O_CREAT|syscall.O_EXCL
	parent, name, n, e := p.find(dirfd, path, follow)
	if e != 0 {
		return fail(e)
	}
	acc := flags & syscall.O_ACCMODE
	if n != nil && flags&(syscall.O_CREAT|syscall.O_EXCL) == syscall.O_CREAT|syscall.O_EXCL {
		return fail(syscall.EEXIST)
	}
	if n == nil {
		if flags&syscall.O_CREAT == 0 {
			return fail(syscall.ENOENT)
		}
		if !p.may(parent, 2) {
			return fail(syscall.EACCES)
		}
		if d.free == 0 {
			p.k.faults["enospc"]++
			return fail(syscall.ENOSPC)
		}
		n = d.node('f', mode&^022&07777, p.uid, parent.dev)
		d.mut("create %s", path)
		d.enter(change{parent, name, n})
	} else {
		if n.kind == 'l' {
			return fail(syscall.ELOOP)
		}
		if n.kind == 'd' && acc != syscall.O_RDONLY {
			return fail(syscall.EISDIR)
		}
		if flags&syscall.O_DIRECTORY != 0 && n.kind != 'd' {
			return fail(syscall.ENOTDIR)
		}
		if acc != syscall.O_WRONLY && !p.may(n, 4) || acc != syscall.O_RDONLY && !p.may(n, 2) {
			return fail(syscall.EACCES)
		}
		if flags&syscall.O_TRUNC != 0 && n.kind == 'f' && acc != syscall.O_RDONLY {
			d.truncate(n, 0, path)
		}
	}
	return ok(uint64(p.newFd(&ofd{ino: n, flags: flags})))
}

func (d *disk) truncate(n *inode, size int, what string) {
	d.mut("truncate %s", what)
	o := dop{trunc: true, off: size}
	n.data = append([]byte(nil), o.apply(n.data, 0)...)
	n.pend = append(n.pend, o)
	n.mtime = d.now
}

// write stores bytes and reports how many.
func (p *kproc) write(n *inode, off int, b []byte) (int, syscall.Errno) {
	d := p.k.d
	if d.free >= 0 {
		grow := off + len(b) - len(n.data)
		if grow > d.free {
			p.k.faults["disk-full"]++
			k := len(b) - (grow - d.free)
			if k <= 0 {
				return 0, syscall.ENOSPC
			}
			b = b[:k]
		}
		if grow = off + len(b) - len(n.data); grow > 0 {
			d.free -= grow
		}
	}
	d.mut("write")
	o := dop{off: off, b: append([]byte(nil), b...)}
	n.data = o.apply(append([]byte(nil), n.data...), len(b))
	n.pend = append(n.pend, o)
	n.mtime = d.now
	return len(b), 0
}

// call executes a system call. wait: it would block.
func (p *kproc) call(q *req) (r rsp, wait bool) {
	k := p.k
	d := k.d
	d.now++
	s1, s2 := string(q.in[0]), string(q.in[1])
	var o *ofd
	switch q.trap {
	case 0, 1, 3, 5, 8, 16, 17, 18, 19, 20, 32, 33, 72, 73, 74, 75, 77, 78, 91, 93, 138, 217, 221, 277, 285, 292, 306:
		fd := int(int32(q.a[0]))
		o = p.fds[fd]
		if o == nil {
			p.ebadf = fmt.Sprintf("%s(%d)", sysNames[q.trap], fd)
			return fail(syscall.EBADF), false
		}
	}
	const cwd = 0xffffff9c
	switch q.trap {
	case 0, 17: // read
		if o.flags&syscall.O_ACCMODE == syscall.O_WRONLY {
			return fail(syscall.EBADF), false
		}
		if o.ino == nil {
			return ok(0), false
		}
		if o.ino.kind == 'd' {
			return fail(syscall.EISDIR), false
		}
		off := o.off
		if q.trap == 17 {
			off = int(q.a[3])
		}
		if off > len(o.ino.data) {
			off = len(o.ino.data)
		}
		b := o.ino.data[off:]
		if len(b) > q.cap {
			b = b[:q.cap]
		}
		if q.trap == 0 {
			o.off = off + len(b)
		}
		return rsp{r1: uint64(len(b)), out: append([]byte(nil), b...)}, false
	case 1, 18: // write
		if o.flags&syscall.O_ACCMODE == syscall.O_RDONLY {
			return fail(syscall.EBADF), false
		}
		if o.ino == nil {
			p.outs[o.stream] = append(p.outs[o.stream], q.in[0]...)
			return ok(uint64(len(q.in[0]))), false
		}
		off := o.off
		if q.trap == 18 {
			off = int(q.a[3])
		}
		if o.flags&syscall.O_APPEND != 0 {
			off = len(o.ino.data)
		}
		n, e := p.write(o.ino, off, q.in[0])
		if e != 0 {
			return fail(e), false
		}
		if q.trap == 1 {
			o.off = off + n
		}
		return ok(uint64(n)), false
	case 2:
		return p.doOpen(cwd, s1, int(q.a[1]), uint32(q.a[2])), false
	case 85:
		return p.doOpen(cwd, s1, syscall.O_CREAT|syscall.O_WRONLY|syscall.O_TRUNC, uint32(q.a[1])), false
	case 257:
		return p.doOpen(q.a[0], s1, int(q.a[2]), uint32(q.a[3])), false
	case 3:
		fd := int(int32(q.a[0]))
		delete(p.fds, fd)
		still := false
		for _, x := range p.fds {
			still = still || x == o
		}
		if !still && o.ino != nil {
			p.unlock(o.ino)
		}
		return ok(0), false
	case 5:
		if o.ino == nil {
			return rsp{out: pipeStat()}, false
		}
		return rsp{out: o.ino.stat()}, false
	case 4, 6, 262, 332:
		dirfd, follow := uint64(cwd), q.trap == 4
		if q.trap == 262 {
			dirfd = q.a[0]
			follow = q.a[3]&0x100 == 0
			if s1 == "" {
				x := p.fds[int(int32(dirfd))]
				if x == nil {
					return fail(syscall.EBADF), false
				}
				if x.ino == nil {
					return rsp{out: pipeStat()}, false
				}
				return rsp{out: x.ino.stat()}, false
			}
		}
		if q.trap == 332 {
			return fail(syscall.ENOSYS), false
		}
		_, _, n, e := p.find(dirfd, s1, follow)
		if e == 0 && n == nil {
			e = syscall.ENOENT
		}
		if e != 0 {
			return fail(e), false
		}
		return rsp{out: n.stat()}, false
	case 8:
		if o.ino == nil {
			return fail(syscall.ESPIPE), false
		}
		off := int(int64(q.a[1]))
		switch q.a[2] {
		case 1:
			off += o.off
		case 2:
			off += len(o.ino.data)
		}
		if off < 0 {
			return fail(syscall.EINVAL), false
		}
		o.off = off
		o.dir = nil
		return ok(uint64(off)), false
	case 16:
		return fail(syscall.ENOTTY), false
	case 32:
		return ok(uint64(p.newFd(o))), false
	case 33, 292:
		fd := int(int32(q.a[1]))
		p.fds[fd] = o
		return ok(uint64(fd)), false
	case 72:
		switch q.a[1] {
		case syscall.F_GETFL:
			return ok(uint64(o.flags)), false
		case syscall.F_SETFL, syscall.F_SETFD:
			return ok(0), false
		case syscall.F_GETFD:
			return ok(1), false
		case syscall.F_DUPFD, syscall.F_DUPFD_CLOEXEC:
			return ok(uint64(p.newFd(o))), false
		case syscall.F_SETLK, syscall.F_SETLKW, 37, 38:
			return ok(0), false
		}
		return fail(syscall.EINVAL), false
	case 73:
		if o.ino == nil {
			return ok(0), false
		}
		return p.flock(o.ino, int(q.a[1]))
	case 74, 75, 277:
		if o.ino == nil {
			return fail(syscall.EINVAL), false
		}
		if o.ino.kind == 'd' {
			d.commit()
		} else {
			o.ino.flush()
		}
		return ok(0), false
	case 162, 306:
		d.sync()
		return ok(0), false
	case 76, 77:
		var n *inode
		size := int(q.a[1])
		if q.trap == 77 {
			n = o.ino
			if n == nil || o.flags&syscall.O_ACCMODE == syscall.O_RDONLY {
				return fail(syscall.EINVAL), false
			}
		} else {
			var e syscall.Errno
			_, _, n, e = p.find(cwd, s1, true)
			if e == 0 && n == nil {
				e = syscall.ENOENT
			}
			if e == 0 && n.kind == 'd' {
				e = syscall.EISDIR
			}
			if e == 0 && !p.may(n, 2) {
				e = syscall.EACCES
			}
			if e != 0 {
				return fail(e), false
			}
		}
		d.truncate(n, size, s1)
		return ok(0), false
	case 285:
		if o.ino != nil && q.a[1] == 0 && int(q.a[2]+q.a[3]) > len(o.ino.data) {
			d.truncate(o.ino, int(q.a[2]+q.a[3]), "fallocate")
		}
		return ok(0), false
	case 217:
		return p.getdents(o, q.cap), false
	case 79:
		ch := d.chain(p.cwd)
		name := "/w"
		if ch == nil {
			return fail(syscall.ENOENT), false
		}
		return rsp{r1: uint64(len(name) + 1), out: append([]byte(name), 0)}, false
	case 82, 264, 316:
		fa, fb := uint64(cwd), uint64(cwd)
		if q.trap != 82 {
			fa, fb = q.a[0], q.a[2]
		}
		var fl uint64
		if q.trap == 316 {
			fl = q.a[4]
		}
		return p.rename(fa, s1, fb, s2, fl), false
	case 83, 258:
		df := uint64(cwd)
		mode := q.a[1]
		if q.trap == 258 {
			df, mode = q.a[0], q.a[2]
		}
		parent, name, n, e := p.find(df, s1, false)
		if e == 0 && n != nil {
			e = syscall.EEXIST
		}
		if e == 0 && !p.may(parent, 2) {
			e = syscall.EACCES
		}
		if e != 0 {
			return fail(e), false
		}
		d.mut("mkdir %s", s1)
		d.enter(change{parent, name, d.node('d', uint32(mode)&^022, p.uid, parent.dev)})
		return ok(0), false
	case 84, 87, 263:
		df, rm := uint64(cwd), q.trap == 84
		if q.trap == 263 {
			df, rm = q.a[0], q.a[2]&0x200 != 0
		}
		parent, name, n, e := p.find(df, s1, false)
		switch {
		case e != 0:
		case n == nil:
			e = syscall.ENOENT
		case !p.may(parent, 2):
			e = syscall.EACCES
		case rm && n.kind != 'd':
			e = syscall.ENOTDIR
		case !rm && n.kind == 'd':
			e = syscall.EISDIR
		case rm && len(n.ents) > 0:
			e = syscall.ENOTEMPTY
		}
		if e != 0 {
			return fail(e), false
		}
		d.mut("remove %s", s1)
		d.enter(change{parent, name, nil})
		return ok(0), false
	case 86, 265:
		fa, fb := uint64(cwd), uint64(cwd)
		if q.trap == 265 {
			fa, fb = q.a[0], q.a[2]
		}
		_, _, n, e := p.find(fa, s1, false)
		if e == 0 && n == nil {
			e = syscall.ENOENT
		}
		if e != 0 {
			return fail(e), false
		}
		parent, name, t, e := p.find(fb, s2, false)
		if e == 0 && t != nil {
			e = syscall.EEXIST
		}
		if e == 0 && !p.may(parent, 2) {
			e = syscall.EACCES
		}
		if e == 0 && parent.dev != n.dev {
			e = syscall.EXDEV
		}
		if e != 0 {
			return fail(e), false
		}
		d.mut("link %s %s", s1, s2)
		d.enter(change{parent, name, n})
		return ok(0), false
	case 88, 266:
		fb := uint64(cwd)
		if q.trap == 266 {
			fb = q.a[1]
		}
		parent, name, t, e := p.find(fb, s2, false)
		if e == 0 && t != nil {
			e = syscall.EEXIST
		}
		if e == 0 && !p.may(parent, 2) {
			e = syscall.EACCES
		}
		if e != 0 {
			return fail(e), false
		}
		n := d.node('l', 0777, p.uid, parent.dev)
		n.link = s1
		d.mut("symlink %s %s", s1, s2)
		d.enter(change{parent, name, n})
		return ok(0), false
	case 89, 267:
		df := uint64(cwd)
		if q.trap == 267 {
			df = q.a[0]
		}
		_, _, n, e := p.find(df, s1, false)
		if e == 0 && n == nil {
			e = syscall.ENOENT
		}
		if e == 0 && n.kind != 'l' {
			e = syscall.EINVAL
		}
		if e != 0 {
			return fail(e), false
		}
		b := []byte(n.link)
		if len(b) > q.cap {
			b = b[:q.cap]
		}
		return rsp{r1: uint64(len(b)), out: b}, false
	case 90, 91, 268, 452, 92, 93, 94, 260:
		var n *inode
		var e syscall.Errno
		follow := q.trap != 94
		arg := 1
		switch q.trap {
		case 91, 93:
			n = o.ino
			if n == nil {
				return ok(0), false
			}
		case 268, 452, 260:
			arg = 2
			if q.trap == 260 && q.a[4]&0x100 != 0 {
				follow = false
			}
			_, _, n, e = p.find(q.a[0], s1, follow)
		default:
			_, _, n, e = p.find(cwd, s1, follow)
		}
		if e == 0 && n == nil {
			e = syscall.ENOENT
		}
		if e == 0 && p.uid != 0 && p.uid != n.uid {
			e = syscall.EPERM
		}
		if e != 0 {
			return fail(e), false
		}
		switch q.trap {
		case 90, 91, 268, 452:
			n.mode = uint32(q.a[arg]) & 07777
			d.mut("chmod")
		default:
			if u := int(int32(q.a[arg])); u >= 0 {
				if p.uid != 0 && u != n.uid {
					return fail(syscall.EPERM), false
				}
				n.uid = u
			}
			d.mut("chown")
		}
		d.attr(n)
		return ok(0), false
	case 132, 235, 280:
		d.mut("utimes %s", s1)
		return ok(0), false
	case 21, 269, 439:
		df, want := uint64(cwd), q.a[1]
		if q.trap != 21 {
			df, want = q.a[0], q.a[2]
		}
		_, _, n, e := p.find(df, s1, true)
		if e == 0 && n == nil {
			e = syscall.ENOENT
		}
		if e == 0 && !p.may(n, uint32(want)) {
			e = syscall.EACCES
		}
		if e != 0 {
			return fail(e), false
		}
		return ok(0), false
	case 80:
		_, _, n, e := p.find(cwd, s1, true)
		if e == 0 && (n == nil || n.kind != 'd') {
			e = syscall.ENOENT
		}
		if e != 0 {
			return fail(e), false
		}
		p.cwd = n
		return ok(0), false
	case 221:
		return ok(0), false
	case 137, 138:
		return rsp{out: make([]byte, 120)}, false
	case 40, 275, 326, 437, 19, 20:
		return fail(syscall.ENOSYS), false
	case 318:
		n := q.cap
		for len(p.rnd) < n {
			v := p.ent.U64()
			for i := 0; i < 8; i++ {
				p.rnd = append(p.rnd, byte(v>>(8*i)))
			}
		}
		b := append([]byte(nil), p.rnd[:n]...)
		p.rnd = p.rnd[n:]
		return rsp{r1: uint64(n), out: b}, false
	}
	k.err = fmt.Sprintf("system call %d (%s) is not simulated", q.trap, sysNames[q.trap])
	return fail(syscall.ENOSYS), false
}

func (p *kproc) rename(fa uint64, a string, fb uint64, b string, flags uint64) rsp {
	d := p.k.d
	pa, na, n, e := p.find(fa, a, false)
	if e == 0 && n == nil {
		e = syscall.ENOENT
	}
	if e != 0 {
		return fail(e)
	}
	pb, nb, t, e := p.find(fb, b, false)
	switch {
	case e != 0:
	case !p.may(pa, 2) || !p.may(pb, 2):
		e = syscall.EACCES
	case pa.dev != pb.dev:
		e = syscall.EXDEV
	case flags&1 != 0 && t != nil:
		e = syscall.EEXIST
	case flags&^1 != 0:
		e = syscall.EINVAL
	case t != nil && t.kind == 'd' && n.kind != 'd':
		e = syscall.EISDIR
	case t != nil && t.kind != 'd' && n.kind == 'd':
		e = syscall.ENOTDIR
	}
	if e != 0 {
		return fail(e)
	}
	d.mut("rename %s %s", a, b)
	if n != t {
		d.enter(change{pa, na, nil}, change{pb, nb, n})
	}
	return ok(0)
}

func (p *kproc) getdents(o *ofd, max int) rsp {
	if o.ino == nil || o.ino.kind != 'd' {
		return fail(syscall.ENOTDIR)
	}
	if o.dir == nil {
		o.dir = []string{".", ".."}
		for n := range o.ino.ents {
			o.dir = append(o.dir, n)
		}
		sort.Strings(o.dir)
		o.off = 0
	}
	var out []byte
	for o.off < len(o.dir) {
		name := o.dir[o.off]
		l := (19 + len(name) + 1 + 7) &^ 7
		if len(out)+l > max {
			break
		}
		b := make([]byte, l)
		t, id := byte(syscall.DT_DIR), 1
		if n := o.ino.ents[name]; n != nil {
			id = n.id
			switch n.kind {
			case 'f':
				t = syscall.DT_REG
			case 'l':
				t = syscall.DT_LNK
			}
		}
		binary.LittleEndian.PutUint64(b, uint64(id))
		binary.LittleEndian.PutUint64(b[8:], uint64(o.off+1))
		binary.LittleEndian.PutUint16(b[16:], uint16(l))
		b[18] = t
		copy(b[19:], name)
		out = append(out, b...)
		o.off++
	}
	return rsp{r1: uint64(len(out)), out: out}
}

func (p *kproc) flock(n *inode, op int) (rsp, bool) {
	k := p.k
	if k.locks == nil {
		k.locks = map[*inode]map[*kproc]bool{}
	}
	if op&8 != 0 {
		p.unlock(n)
		return ok(0), false
	}
	ex := op&2 != 0
	for q, e := range k.locks[n] {
		if q != p && (e || ex) {
			if op&4 != 0 {
				return fail(syscall.EAGAIN), false
			}
			return rsp{}, true
		}
	}
	if k.locks[n] == nil {
		k.locks[n] = map[*kproc]bool{}
	}
	k.locks[n][p] = ex
	p.locks[n] = true
	return ok(0), false
}

func (p *kproc) unlock(n *inode) {
	if p.k.locks != nil {
		delete(p.k.locks[n], p)
	}
	delete(p.locks, n)
}

// gone releases what a dead process held.
func (p *kproc) gone() {
	for n := range p.locks {
		p.unlock(n)
	}
	p.fds = map[int]*ofd{}
}
