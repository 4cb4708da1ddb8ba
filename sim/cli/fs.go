package main

import (
	"fmt"
	"sort"
	"strings"

	"verif.local/sim/simkit"
)

// inode of the simulated disk. The fields without prefix are what processes
// see; the fields with d are what survives a power loss.
type inode struct {
	id    int
	dev   int
	kind  byte // f d l
	mode  uint32
	uid   int
	data  []byte
	ents  map[string]*inode
	link  string
	mtime int64

	ddata []byte
	dmode uint32
	duid  int
	dents map[string]*inode
	pend  []dop
}

// dop is a change of a file's data that is not on the disk yet.
type dop struct {
	trunc bool
	off   int
	b     []byte
}

// jop is a change of metadata that is not on the disk yet; it reaches the
// disk as a whole, and in order.
type jop struct {
	changes []change
	ino     *inode // attributes
	mode    uint32
	uid     int
}

type change struct {
	dir  *inode
	name string
	ino  *inode // nil: removed
}

type disk struct {
	root    *inode
	inodes  []*inode
	journal []jop
	free    int // bytes; -1: plenty
	muts    int // number of changes
	lastMut string
	now     int64
}

func newDisk() *disk {
	d := &disk{free: -1, now: 1600000000}
	d.root = d.node('d', 0755, 0, 1)
	return d
}

func (d *disk) node(kind byte, mode uint32, uid, dev int) *inode {
	n := &inode{id: len(d.inodes) + 2, dev: dev, kind: kind, mode: mode, uid: uid, dmode: mode, duid: uid, mtime: d.now}
	if kind == 'd' {
		n.ents = map[string]*inode{}
		n.dents = map[string]*inode{}
	}
	d.inodes = append(d.inodes, n)
	return n
}

// clone copies the disk.
func (d *disk) clone() *disk {
	c := &disk{free: d.free, now: d.now, muts: d.muts}
	m := map[*inode]*inode{nil: nil}
	for _, n := range d.inodes {
		x := *n
		x.data = append([]byte(nil), n.data...)
		x.ddata = append([]byte(nil), n.ddata...)
		x.pend = append([]dop(nil), n.pend...)
		m[n] = &x
		c.inodes = append(c.inodes, &x)
	}
	for _, n := range c.inodes {
		for _, e := range []*map[string]*inode{&n.ents, &n.dents} {
			if *e == nil {
				continue
			}
			o := map[string]*inode{}
			for k, v := range *e {
				o[k] = m[v]
			}
			*e = o
		}
	}
	c.root = m[d.root]
	for _, j := range d.journal {
		k := jop{ino: m[j.ino], mode: j.mode, uid: j.uid}
		for _, ch := range j.changes {
			k.changes = append(k.changes, change{m[ch.dir], ch.name, m[ch.ino]})
		}
		c.journal = append(c.journal, k)
	}
	return c
}

func (d *disk) mut(f string, a ...interface{}) {
	d.muts++
	d.lastMut = fmt.Sprintf(f, a...)
}

func (d *disk) enter(changes ...change) {
	for _, c := range changes {
		if c.ino == nil {
			delete(c.dir.ents, c.name)
		} else {
			c.dir.ents[c.name] = c.ino
		}
		c.dir.mtime = d.now
	}
	d.journal = append(d.journal, jop{changes: changes})
}

func (d *disk) attr(n *inode) {
	d.journal = append(d.journal, jop{ino: n, mode: n.mode, uid: n.uid})
}

func (j jop) apply() {
	for _, c := range j.changes {
		if c.ino == nil {
			delete(c.dir.dents, c.name)
		} else {
			c.dir.dents[c.name] = c.ino
		}
	}
	if j.ino != nil {
		j.ino.dmode, j.ino.duid = j.mode, j.uid
	}
}

// commit writes the whole journal.
func (d *disk) commit() {
	for _, j := range d.journal {
		j.apply()
	}
	d.journal = nil
}

// flush writes the data (and attributes) of a file.
func (n *inode) flush() {
	n.ddata = append([]byte(nil), n.data...)
	n.pend = nil
	n.dmode, n.duid = n.mode, n.uid
}

func (d *disk) sync() {
	d.commit()
	for _, n := range d.inodes {
		n.flush()
	}
}

func (o dop) apply(b []byte, part int) []byte {
	if o.trunc {
		for len(b) < o.off {
			b = append(b, 0)
		}
		return b[:o.off]
	}
	end := o.off + part
	for len(b) < end {
		b = append(b, 0)
	}
	copy(b[o.off:end], o.b[:part])
	return b
}

// power is a power loss: what was not forced to the disk may or may not be
// there, in parts.
func (d *disk) power(r *simkit.Rng) {
	k := len(d.journal)
	switch r.Intn(3) {
	case 0:
		k = r.Intn(k + 1)
	case 1:
		k = 0
	}
	for _, j := range d.journal[:k] {
		j.apply()
	}
	d.journal = nil
	for _, n := range d.inodes {
		if n.kind == 'f' && len(n.pend) > 0 {
			b := append([]byte(nil), n.ddata...)
			style := r.Intn(4) // nothing, everything, a prefix, anything
			stop := r.Intn(len(n.pend) + 1)
			for i, o := range n.pend {
				part := len(o.b)
				switch style {
				case 0:
					continue
				case 2:
					if i > stop {
						continue
					}
					if i == stop {
						if o.trunc {
							continue
						}
						part = r.Intn(part + 1)
					}
				case 3:
					if r.P(.4) {
						continue
					}
					if r.P(.3) {
						part = r.Intn(part + 1)
					}
				}
				b = o.apply(b, part)
			}
			n.ddata = b
		}
		n.pend = nil
		n.data = append([]byte(nil), n.ddata...)
		n.mode, n.uid = n.dmode, n.duid
		if n.kind == 'd' {
			n.ents = map[string]*inode{}
			for k, v := range n.dents {
				n.ents[k] = v
			}
		}
	}
}

// walk finds a path without permission checks. follow: also the last link.
func (d *disk) walk(dir *inode, p string, follow bool) (parent *inode, name string, n *inode, loop bool) {
	var stack []*inode
	if strings.HasPrefix(p, "/") || dir == nil {
		dir = d.root
	} else {
		stack = d.chain(dir)
	}
	links := 0
	parts := strings.Split(p, "/")
	cur := dir
	parent, name, n = cur, ".", cur
	for len(parts) > 0 {
		c := parts[0]
		parts = parts[1:]
		if c == "" || c == "." {
			continue
		}
		if cur == nil || cur.kind != 'd' {
			return nil, "", nil, false
		}
		if c == ".." {
			if len(stack) > 0 {
				cur = stack[len(stack)-1]
				stack = stack[:len(stack)-1]
			}
			parent, name, n = cur, ".", cur
			continue
		}
		parent, name = cur, c
		n = cur.ents[c]
		last := true
		for _, x := range parts {
			if x != "" {
				last = false
			}
		}
		if n == nil {
			if last {
				return parent, name, nil, false
			}
			return nil, "", nil, false
		}
		if n.kind == 'l' && (!last || follow) {
			if links++; links > 20 {
				return nil, "", nil, true
			}
			if strings.HasPrefix(n.link, "/") {
				cur, stack = d.root, nil
			}
			parts = append(strings.Split(n.link, "/"), parts...)
			n = cur
			continue
		}
		stack = append(stack, cur)
		cur = n
	}
	return parent, name, n, false
}

// chain lists the ancestors of a directory, the root first.
func (d *disk) chain(dir *inode) []*inode {
	var find func(n *inode, up []*inode) []*inode
	find = func(n *inode, up []*inode) []*inode {
		if n == dir {
			return append([]*inode{}, up...)
		}
		for _, e := range n.ents {
			if e.kind == 'd' {
				if r := find(e, append(up, n)); r != nil {
					return r
				}
			}
		}
		return nil
	}
	return find(d.root, nil)
}

// get returns the content behind a path.
func (d *disk) get(p string) (string, bool) {
	_, _, n, _ := d.walk(nil, p, true)
	if n == nil || n.kind != 'f' {
		return "", false
	}
	return string(n.data), true
}

// dump describes the whole tree with everything but times.
func (d *disk) dump() string {
	var b strings.Builder
	var rec func(p string, n *inode)
	rec = func(p string, n *inode) {
		fmt.Fprintf(&b, "%s %c %o %d %q %d\n", p, n.kind, n.mode, n.uid, n.link, simkit.HashStr(0, string(n.data)))
		var names []string
		for k := range n.ents {
			names = append(names, k)
		}
		sort.Strings(names)
		for _, k := range names {
			rec(p+"/"+k, n.ents[k])
		}
	}
	rec("", d.root)
	return b.String()
}

// put creates an object that is on the disk.
func (d *disk) put(p string, kind byte, mode uint32, uid int, text string) *inode {
	parts := strings.Split(strings.Trim(p, "/"), "/")
	cur := d.root
	for i, c := range parts {
		n := cur.ents[c]
		if i == len(parts)-1 {
			n = d.node(kind, mode, uid, cur.dev)
			switch kind {
			case 'f':
				n.data = []byte(text)
				n.ddata = []byte(text)
			case 'l':
				n.link = text
			}
		} else if n == nil {
			dev := cur.dev
			if cur == d.root && c == "tmp" {
				dev = 2
			}
			n = d.node('d', 0755, uid, dev)
		}
		if p == "/tmp" {
			n.dev = 2
		}
		cur.ents[c], cur.dents[c] = n, n
		cur = n
	}
	return cur
}
