//go:build verif
// +build verif

package main

import (
	"fmt"
	"math/rand"
	"os"
	"path"
	"strings"
	"syscall"
	"time"

	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/arwendebug"
)

// The simulated disk of the debugger. What a process writes is in the cache of the operating system
// until it is synced: it survives the process, but not a power loss. A power loss keeps, of what was
// not synced, the first few changes of the directories and any first part of the data of every file.

type inode struct {
	data []byte
	base []byte // what is on the disk
}

type simDisk struct {
	k       *kernel
	files   map[string]*inode
	durable map[string]*inode
	pending []func(m map[string]*inode)
	dirs    map[string]bool
	ops     int // in this step
	faults  []ChanFault
	used    []bool
	fired   int
	log     []string
	stats   *Stats
	room    int64 // bytes left once the disk is full; negative: it is not
	temps   int
	stored  int // operations that changed something, in this step
	shape   uint64
	lost    bool // the power was lost in this step
}

func newSimDisk(k *kernel, stats *Stats) *simDisk {
	return &simDisk{k: k, files: map[string]*inode{}, durable: map[string]*inode{}, dirs: map[string]bool{}, stats: stats, room: -1}
}

// arm starts a step: everything done before is on the disk.
func (d *simDisk) arm(faults []ChanFault) {
	for _, f := range d.pending {
		f(d.durable)
	}
	d.pending = nil
	for _, n := range d.files {
		n.base = n.data
	}
	d.lost = false
	d.ops, d.stored, d.faults, d.used, d.fired, d.log, d.room = 0, 0, faults, make([]bool, len(faults)), 0, nil, -1
}

func (d *simDisk) blame() string {
	if len(d.log) == 0 {
		return "without any fault"
	}
	return "with the faults " + strings.Join(d.log, ", ")
}

func (d *simDisk) change(f func(m map[string]*inode)) {
	f(d.files)
	d.pending = append(d.pending, f)
}

// power is a power loss.
func (d *simDisk) power(seed int64) {
	d.lost = true
	r := rand.New(rand.NewSource(seed))
	for _, f := range d.pending[:r.Intn(len(d.pending)+1)] {
		f(d.durable)
	}
	d.pending = nil
	d.files = map[string]*inode{}
	for _, p := range sortedPaths(d.durable) {
		n := d.durable[p]
		d.files[p] = n
		if string(n.data) != string(n.base) {
			switch r.Intn(4) {
			case 0:
				n.data = n.base
			case 1:
				n.data = nil
			case 2:
				n.data = n.data[:r.Intn(len(n.data)+1)]
			}
		}
		n.base = n.data
	}
}

func sortedPaths(m map[string]*inode) []string {
	var l []string
	for p := range m {
		l = append(l, p)
	}
	sortStrings(l)
	return l
}

// op is one operation on the disk. do is given how many of the size bytes it may write.
func (d *simDisk) op(name, file string, size int, do func(n int) error) error {
	k := d.k
	k.check(k.cur)
	k.wait(func() bool { return true }, 0)
	n := d.ops
	d.ops++
	if d.ops > 100000 {
		panic("the debugger never stops using the disk")
	}
	d.stats.inc("disk_ops")
	d.k.mix(name)
	writes := name == "write" || name == "writefile"
	var fail error
	for i := range d.faults {
		f := &d.faults[i]
		if d.used[i] || f.N != n {
			continue
		}
		d.used[i] = true
		d.fired++
		d.stats.inc("fault_disk_" + f.Kind)
		d.stats.inc("fault_disk_at_" + name)
		d.log = append(d.log, fmt.Sprintf("%s at %s #%d(%d)", f.Kind, name, n, f.V))
		d.k.mix(f.Kind)
		part := size
		if size > 0 && f.V >= 0 {
			part = int(f.V % int64(size+1))
		}
		switch f.Kind {
		case "crash", "power":
			if f.V != 0 && (writes || f.V < 0) {
				do(part)
			}
			if f.Kind == "power" {
				d.power(f.V + int64(d.k.seed&0xffffff))
			}
			k.kill(k.cur.proc)
		case "ioerr":
			fail = syscall.EIO
			if writes && f.V > 0 {
				do(part)
			} else if name == "close" {
				do(size)
			}
		case "full":
			d.room = f.V
		}
	}
	if fail == nil && d.room >= 0 && (writes || name == "tempfile" || name == "mkdir") {
		if !writes && d.room < 2 {
			fail = syscall.ENOSPC
		} else if int64(size) > d.room {
			do(int(d.room))
			d.room, fail = 0, syscall.ENOSPC
		} else {
			d.room -= int64(size)
		}
	}
	if fail != nil {
		return &os.PathError{Op: name, Path: file, Err: fail}
	}
	if err := do(size); err != nil {
		return &os.PathError{Op: name, Path: file, Err: err}
	}
	return nil
}

func clean(p string) string {
	p = path.Clean(p)
	if !path.IsAbs(p) {
		p = path.Join("/work", p)
	}
	return p
}

func (d *simDisk) dirOf(p string) error {
	dir := path.Dir(p)
	if d.dirs[dir] || dir == "/" || dir == "/work" {
		return nil
	}
	return syscall.ENOENT
}

func (d *simDisk) MkdirAll(p string, perm os.FileMode) error {
	p = clean(p)
	return d.op("mkdir", p, 0, func(int) error {
		for q := p; q != "/"; q = path.Dir(q) {
			d.dirs[q] = true
		}
		return nil
	})
}

type simInfo struct {
	name string
	size int64
	dir  bool
}

func (i simInfo) Name() string       { return i.name }
func (i simInfo) Size() int64        { return i.size }
func (i simInfo) Mode() os.FileMode  { return 0644 }
func (i simInfo) ModTime() time.Time { return simEpoch }
func (i simInfo) IsDir() bool        { return i.dir }
func (i simInfo) Sys() interface{}   { return nil }

func (d *simDisk) Stat(p string) (info os.FileInfo, err error) {
	p = clean(p)
	err = d.op("stat", p, 0, func(int) error {
		if n := d.files[p]; n != nil {
			info = simInfo{path.Base(p), int64(len(n.data)), false}
			return nil
		}
		if d.dirs[p] {
			info = simInfo{path.Base(p), 0, true}
			return nil
		}
		return syscall.ENOENT
	})
	return info, err
}

func (d *simDisk) ReadFile(p string) (data []byte, err error) {
	p = clean(p)
	err = d.op("read", p, 0, func(int) error {
		n := d.files[p]
		if n == nil {
			return syscall.ENOENT
		}
		data = append([]byte{}, n.data...)
		return nil
	})
	return data, err
}

func (d *simDisk) create(p string) error {
	if d.files[p] != nil {
		return nil
	}
	if err := d.dirOf(p); err != nil {
		return err
	}
	if d.dirs[p] {
		return syscall.EISDIR
	}
	n := &inode{}
	d.change(func(m map[string]*inode) { m[p] = n })
	return nil
}

func (d *simDisk) WriteFile(p string, data []byte, perm os.FileMode) error {
	p = clean(p)
	return d.op("writefile", p, len(data), func(n int) error {
		if err := d.create(p); err != nil {
			return err
		}
		d.stored++
		d.files[p].data = append([]byte{}, data[:n]...)
		return nil
	})
}

type simFile struct {
	d    *simDisk
	name string
	n    *inode
	open bool
}

func (d *simDisk) TempFile(dir string, pattern string) (arwendebug.DatabaseFile, error) {
	d.temps++
	num := fmt.Sprintf("%09d", d.temps*7919)
	name := pattern + num
	if i := strings.LastIndex(pattern, "*"); i >= 0 {
		name = pattern[:i] + num + pattern[i+1:]
	}
	full := path.Join(dir, name)
	p := clean(full)
	f := &simFile{d: d, name: full, open: true}
	err := d.op("tempfile", p, 0, func(int) error {
		if strings.Contains(pattern, "/") {
			return syscall.EINVAL
		}
		if err := d.create(p); err != nil {
			return err
		}
		f.n = d.files[p]
		return nil
	})
	if err != nil {
		return nil, err
	}
	return f, nil
}

func (f *simFile) Name() string { return f.name }

func (f *simFile) use(name string, size int, do func(n int) error) error {
	return f.d.op(name, f.name, size, func(n int) error {
		if !f.open {
			return os.ErrClosed
		}
		return do(n)
	})
}

func (f *simFile) Chmod(mode os.FileMode) error {
	return f.use("chmod", 0, func(int) error { return nil })
}

func (f *simFile) Write(data []byte) (int, error) {
	n := 0
	err := f.use("write", len(data), func(k int) error {
		f.d.stored++
		f.n.data = append(append([]byte{}, f.n.data...), data[:k]...)
		n = k
		return nil
	})
	return n, err
}

func (f *simFile) Sync() error {
	return f.use("sync", 0, func(int) error {
		f.n.base = f.n.data
		return nil
	})
}

func (f *simFile) Close() error {
	return f.use("close", 0, func(int) error {
		f.open = false
		return nil
	})
}

func (d *simDisk) Rename(from string, to string) error {
	from, to = clean(from), clean(to)
	return d.op("rename", from, 0, func(int) error {
		if d.files[from] == nil {
			return syscall.ENOENT
		}
		if err := d.dirOf(to); err != nil {
			return err
		}
		if from == to {
			return nil
		}
		d.stored++
		d.change(func(m map[string]*inode) {
			if n := m[from]; n != nil {
				m[to] = n
				delete(m, from)
			}
		})
		return nil
	})
}

func (d *simDisk) Remove(p string) error {
	p = clean(p)
	return d.op("remove", p, 0, func(int) error {
		if d.files[p] == nil {
			return syscall.ENOENT
		}
		d.change(func(m map[string]*inode) { delete(m, p) })
		return nil
	})
}
