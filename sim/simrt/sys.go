package simrt

import (
	"io"
	"io/fs"
	"os"
	"path"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"
)

// FD is an open file description.
type FD struct {
	p      *Proc
	name   string // absolute
	std    int    // 0 stdin, 1 stdout, 2 stderr, -1 file
	node   *Node
	pos    int
	flag   int
	closed bool
	dirpos int
	ents   []string
	wrote  bool
}

func (p *Proc) Abs(name string) string {
	if name == "" {
		return ""
	}
	if !strings.HasPrefix(name, "/") {
		name = p.W.Cwd + "/" + name
	}
	return path.Clean(name)
}

func (p *Proc) Std(n int) *FD {
	return &FD{p: p, std: n, name: [...]string{"<stdin>", "<stdout>", "<stderr>"}[n]}
}

func (p *Proc) Open(name string, flag int, perm fs.FileMode) (fd *FD, err error) {
	abs := p.Abs(name)
	op := "open"
	if flag&os.O_CREATE != 0 {
		op = "create"
	}
	f, err := p.enter(op, abs, 0)
	defer func() { p.leave(f, op, abs, 0, err) }()
	if err != nil {
		return nil, err
	}
	if name == "" {
		return nil, syscall.ENOENT
	}
	lim := p.Cmd.Cfg.FDLimit
	if lim == 0 {
		lim = 1024
	}
	if p.nfds+3 >= lim {
		return nil, syscall.EMFILE
	}
	n, err := p.W.FS.lookup(abs)
	if err == syscall.ENOENT && flag&os.O_CREATE != 0 {
		d, b, err := p.W.FS.lookupDir(abs)
		if err != nil {
			return nil, err
		}
		n = p.W.FS.newNode(false)
		n.Mode = perm & 0o777 &^ 0o022
		n.MTime = p.W.Now
		d.link(b, n)
		p.W.FS.journal = append(p.W.FS.journal, metaOp{dir: d, name: b, node: n})
	} else if err != nil {
		return nil, err
	} else if flag&os.O_CREATE != 0 && flag&os.O_EXCL != 0 {
		return nil, syscall.EEXIST
	} else if n.Dir && flag&(os.O_WRONLY|os.O_RDWR) != 0 {
		return nil, syscall.EISDIR
	} else if flag&os.O_TRUNC != 0 && !n.Dir {
		p.W.FS.used -= len(n.Data)
		n.Data = nil
		n.Dirty = true
	}
	p.nfds++
	return &FD{p: p, name: abs, std: -1, node: n, flag: flag}, nil
}

func (d *FD) Node() *Node { return d.node }

func (d *FD) check() error {
	if d == nil {
		return os.ErrInvalid
	}
	if d.closed {
		return os.ErrClosed
	}
	return nil
}

func (d *FD) Read(b []byte) (n int, err error) {
	if err := d.check(); err != nil {
		return 0, err
	}
	p := d.p
	if len(b) == 0 {
		return 0, nil
	}
	f, err := p.enter("read", d.name, 0)
	defer func() { p.leave(f, "read", d.name, n, err) }()
	if err != nil {
		return 0, err
	}
	var src []byte
	switch {
	case d.std == 0:
		src = []byte(p.Cmd.Stdin)[p.inPos:]
	case d.std > 0 || d.flag&(os.O_WRONLY) != 0:
		return 0, syscall.EBADF
	case d.node.Dir:
		return 0, syscall.EISDIR
	default:
		if d.pos < len(d.node.Data) {
			src = d.node.Data[d.pos:]
		}
	}
	if len(src) == 0 {
		return 0, io.EOF
	}
	m := min(len(b), len(src))
	switch p.Cmd.Cfg.SliceMode {
	case 1:
		m = 1 + p.sliceR.N(m)
	case 2:
		m = 1
	case 3:
		m = min(m, 1+p.sliceR.N(16))
	}
	if f != nil && f.Kind == "short" {
		p.Fired = append(p.Fired, *f)
		p.W.Injected["short-read"]++
		m = min(m, max(1, f.N))
	}
	copy(b, src[:m])
	if d.std == 0 {
		p.inPos += m
	} else {
		d.pos += m
	}
	return m, nil
}

func (d *FD) ReadAt(b []byte, off int64) (int, error) {
	save := d.pos
	d.pos = int(off)
	defer func() { d.pos = save }()
	n := 0
	for n < len(b) {
		m, err := d.Read(b[n:])
		n += m
		if err != nil {
			return n, err
		}
	}
	return n, nil
}

func (d *FD) Write(b []byte) (n int, err error) {
	if err := d.check(); err != nil {
		return 0, err
	}
	p := d.p
	f, err := p.enter("write", d.name, len(b))
	m := len(b)
	if f != nil && (err != nil || f.Kind == "kill-mid") {
		m = min(f.N, len(b))
	} else if err != nil {
		m = 0
	}
	defer func() { p.leave(f, "write", d.name, n, err) }()
	if p.dead {
		return 0, syscall.EBADF
	}
	switch {
	case d.std == 1:
		p.Stdout = append(p.Stdout, b[:m]...)
		if err != nil {
			p.OutErr = true
		}
		return m, err
	case d.std == 2:
		p.Stderr = append(p.Stderr, b[:m]...)
		return m, err
	case d.std == 0 || d.flag&(os.O_WRONLY|os.O_RDWR) == 0:
		return 0, syscall.EBADF
	}
	fsys := p.W.FS
	nd := d.node
	if d.flag&os.O_APPEND != 0 {
		d.pos = len(nd.Data)
	}
	grow := d.pos + m - len(nd.Data)
	if fsys.Capacity > 0 && grow > 0 && fsys.used+grow > fsys.Capacity {
		m = max(0, m-(fsys.used+grow-fsys.Capacity))
		err = syscall.ENOSPC
		p.W.Injected["disk-full"]++
		grow = d.pos + m - len(nd.Data)
	}
	if grow > 0 {
		nd.Data = append(nd.Data, make([]byte, grow)...)
		fsys.used += grow
	}
	copy(nd.Data[d.pos:], b[:m])
	d.pos += m
	d.wrote = true
	if m > 0 {
		nd.Dirty = true
		nd.MTime = p.W.Now
	}
	return m, err
}

func (d *FD) Close() (err error) {
	if err := d.check(); err != nil {
		return err
	}
	p := d.p
	f, err := p.enter("close", d.name, 0)
	defer func() { p.leave(f, "close", d.name, 0, err) }()
	if p.dead {
		return nil
	}
	d.closed = true
	if d.std < 0 {
		p.nfds--
	}
	if err != nil && d.wrote && d.node.Dirty {
		// as on network file systems: what was not written back is lost
		d.node.Data = append([]byte(nil), d.node.Synced...)
		d.node.Dirty = false
	}
	return err
}

func (d *FD) Sync() (err error) {
	if err := d.check(); err != nil {
		return err
	}
	p := d.p
	f, err := p.enter("sync", d.name, 0)
	defer func() { p.leave(f, "sync", d.name, 0, err) }()
	if err != nil || d.std >= 0 {
		if err != nil && d.std < 0 && d.node.Dirty && !p.dead {
			d.node.Data = append([]byte(nil), d.node.Synced...)
			d.node.Dirty = false
		}
		return err
	}
	if d.node.Dir {
		p.W.FS.minDur = len(p.W.FS.journal)
		return nil
	}
	d.node.Synced = append([]byte(nil), d.node.Data...)
	d.node.Dirty = false
	return nil
}

func (d *FD) Seek(off int64, whence int) (pos int64, err error) {
	if err := d.check(); err != nil {
		return 0, err
	}
	p := d.p
	f, err := p.enter("seek", d.name, 0)
	defer func() { p.leave(f, "seek", d.name, 0, err) }()
	if err != nil {
		return 0, err
	}
	if d.std >= 0 {
		return 0, syscall.ESPIPE
	}
	base := 0
	switch whence {
	case 1:
		base = d.pos
	case 2:
		base = len(d.node.Data)
	}
	if base+int(off) < 0 {
		return 0, syscall.EINVAL
	}
	d.pos = base + int(off)
	return int64(d.pos), nil
}

func (d *FD) Truncate(size int64) (err error) {
	if err := d.check(); err != nil {
		return err
	}
	p := d.p
	f, err := p.enter("trunc", d.name, 0)
	defer func() { p.leave(f, "trunc", d.name, 0, err) }()
	if err != nil {
		return err
	}
	return d.node.truncate(p.W.FS, int(size))
}

func (n *Node) truncate(fsys *FS, size int) error {
	if n == nil || n.Dir {
		return syscall.EINVAL
	}
	fsys.used += size - len(n.Data)
	if size <= len(n.Data) {
		n.Data = append([]byte(nil), n.Data[:size]...)
	} else {
		n.Data = append(n.Data, make([]byte, size-len(n.Data))...)
	}
	n.Dirty = true
	return nil
}

func (p *Proc) Truncate(name string, size int64) (err error) {
	abs := p.Abs(name)
	f, err := p.enter("trunc", abs, 0)
	defer func() { p.leave(f, "trunc", abs, 0, err) }()
	if err != nil {
		return err
	}
	n, err := p.W.FS.lookup(abs)
	if err != nil {
		return err
	}
	return n.truncate(p.W.FS, int(size))
}

func (d *FD) Stat() (fi fs.FileInfo, err error) {
	if err := d.check(); err != nil {
		return nil, err
	}
	p := d.p
	f, err := p.enter("stat", d.name, 0)
	defer func() { p.leave(f, "stat", d.name, 0, err) }()
	if err != nil {
		return nil, err
	}
	if d.std >= 0 {
		return &fileInfo{name: path.Base(d.name), n: &Node{}, mode: fs.ModeNamedPipe | 0o600}, nil
	}
	return d.node.info(path.Base(d.name)), nil
}

func (d *FD) Chmod(mode fs.FileMode) (err error) {
	if err := d.check(); err != nil {
		return err
	}
	p := d.p
	f, err := p.enter("chmod", d.name, 0)
	defer func() { p.leave(f, "chmod", d.name, 0, err) }()
	if err != nil {
		return err
	}
	if d.node != nil {
		d.node.Mode = d.node.Mode&^0o777 | mode&0o777
	}
	return nil
}

func (p *Proc) Chmod(name string, mode fs.FileMode) (err error) {
	abs := p.Abs(name)
	f, err := p.enter("chmod", abs, 0)
	defer func() { p.leave(f, "chmod", abs, 0, err) }()
	if err != nil {
		return err
	}
	n, err := p.W.FS.lookup(abs)
	if err != nil {
		return err
	}
	n.Mode = n.Mode&^0o777 | mode&0o777
	return nil
}

// ReadNames returns up to n directory entries (all if n <= 0) in directory order.
func (d *FD) ReadNames(n int) (names []string, infos []fs.FileInfo, err error) {
	if err := d.check(); err != nil {
		return nil, nil, err
	}
	p := d.p
	f, err := p.enter("readdir", d.name, 0)
	defer func() { p.leave(f, "readdir", d.name, len(names), err) }()
	if d.node == nil || !d.node.Dir {
		return nil, nil, syscall.ENOTDIR
	}
	if d.ents == nil {
		d.ents = append([]string{}, d.node.Order...)
		switch p.Cmd.Cfg.MapMode {
		case 0:
			sort.Strings(d.ents)
		case 1:
			sort.Sort(sort.Reverse(sort.StringSlice(d.ents)))
		default:
			Shuffle(p.MapR, d.ents)
		}
	}
	rest := d.ents[d.dirpos:]
	if err != nil { // part of the directory may have been read already
		if f != nil {
			rest = rest[:min(f.N, len(rest))]
		} else {
			rest = nil
		}
	} else if n > 0 {
		if len(rest) == 0 {
			return nil, nil, io.EOF
		}
		rest = rest[:min(n, len(rest))]
	}
	d.dirpos += len(rest)
	for _, e := range rest {
		if k := d.node.Ents[e]; k != nil {
			names = append(names, e)
			infos = append(infos, k.info(e))
		}
	}
	return names, infos, err
}

func (p *Proc) Stat(name string) (fi fs.FileInfo, err error) {
	abs := p.Abs(name)
	f, err := p.enter("stat", abs, 0)
	defer func() { p.leave(f, "stat", abs, 0, err) }()
	if err != nil {
		return nil, err
	}
	if name == "" {
		return nil, syscall.ENOENT
	}
	n, err := p.W.FS.lookup(abs)
	if err != nil {
		return nil, err
	}
	return n.info(path.Base(abs)), nil
}

func (p *Proc) Remove(name string) (err error) {
	abs := p.Abs(name)
	f, err := p.enter("remove", abs, 0)
	defer func() { p.leave(f, "remove", abs, 0, err) }()
	if err != nil {
		return err
	}
	d, b, err := p.W.FS.lookupDir(abs)
	if err != nil {
		return err
	}
	n := d.Ents[b]
	if n == nil {
		return syscall.ENOENT
	}
	if n.Dir && len(n.Ents) > 0 {
		return syscall.ENOTEMPTY
	}
	d.unlink(b)
	p.W.FS.used -= len(n.Data)
	p.W.FS.journal = append(p.W.FS.journal, metaOp{dir: d, name: b})
	return nil
}

func (p *Proc) Rename(from, to string) (err error) {
	a, b := p.Abs(from), p.Abs(to)
	f, err := p.enter("rename", a+" -> "+b, 0)
	defer func() { p.leave(f, "rename", a+" -> "+b, 0, err) }()
	if err != nil {
		return err
	}
	if strings.HasPrefix(a, "/tmp/") != strings.HasPrefix(b, "/tmp/") {
		return syscall.EXDEV // /tmp is another file system
	}
	fsys := p.W.FS
	d1, n1, err := fsys.lookupDir(a)
	if err != nil {
		return err
	}
	n := d1.Ents[n1]
	if n == nil {
		return syscall.ENOENT
	}
	d2, n2, err := fsys.lookupDir(b)
	if err != nil {
		return err
	}
	if o := d2.Ents[n2]; o != nil {
		if o == n {
			return nil
		}
		if o.Dir {
			if !n.Dir {
				return syscall.EISDIR
			}
			if len(o.Ents) > 0 {
				return syscall.ENOTEMPTY
			}
		} else if n.Dir {
			return syscall.ENOTDIR
		}
		fsys.used -= len(o.Data)
	}
	d1.unlink(n1)
	d2.link(n2, n)
	fsys.journal = append(fsys.journal, metaOp{dir: d2, name: n2, node: n, dir2: d1, name2: n1})
	return nil
}

func (p *Proc) Link(from, to string) (err error) {
	a, b := p.Abs(from), p.Abs(to)
	f, err := p.enter("link", a+" -> "+b, 0)
	defer func() { p.leave(f, "link", a+" -> "+b, 0, err) }()
	if err != nil {
		return err
	}
	n, err := p.W.FS.lookup(a)
	if err != nil {
		return err
	}
	d, bn, err := p.W.FS.lookupDir(b)
	if err != nil {
		return err
	}
	if n.Dir {
		return syscall.EPERM
	}
	if d.Ents[bn] != nil {
		return syscall.EEXIST
	}
	d.link(bn, n)
	p.W.FS.journal = append(p.W.FS.journal, metaOp{dir: d, name: bn, node: n})
	return nil
}

func (p *Proc) Mkdir(name string, perm fs.FileMode) (err error) {
	abs := p.Abs(name)
	f, err := p.enter("mkdir", abs, 0)
	defer func() { p.leave(f, "mkdir", abs, 0, err) }()
	if err != nil {
		return err
	}
	d, b, err := p.W.FS.lookupDir(abs)
	if err != nil {
		return err
	}
	if d.Ents[b] != nil {
		return syscall.EEXIST
	}
	n := p.W.FS.newNode(true)
	d.link(b, n)
	p.W.FS.journal = append(p.W.FS.journal, metaOp{dir: d, name: b, node: n})
	return nil
}

func (p *Proc) Chtimes(name string, mt time.Time) (err error) {
	abs := p.Abs(name)
	f, err := p.enter("chmod", abs, 0)
	defer func() { p.leave(f, "chmod", abs, 0, err) }()
	if err != nil {
		return err
	}
	n, err := p.W.FS.lookup(abs)
	if err != nil {
		return err
	}
	n.MTime = mt
	return nil
}

// TempSuffix is the random part of a temporary file name.
func (p *Proc) TempSuffix() string { return strconv.Itoa(int(p.tempR.Uint64() % 4000000000)) }

func (p *Proc) Getenv(k string) (string, bool) { v, ok := p.Cmd.Env[k]; return v, ok }

// Rand63 is the source behind math/rand in simulated processes.
func (p *Proc) Rand64() uint64 {
	v := p.RandR.Uint64()
	m := p.Cmd.Cfg.RandMode
	if m == 3 {
		m = p.RandR.N(3)
	}
	switch m {
	case 1:
		if p.RandR.P(70) {
			v = 0
		}
	case 2:
		if p.RandR.P(70) {
			v = ^uint64(0)
		}
	}
	return v
}
