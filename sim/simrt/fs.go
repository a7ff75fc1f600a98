package simrt

import (
	"io/fs"
	"path"
	"sort"
	"strings"
	"syscall"
	"time"
)

// Node is an inode of the simulated disk. Data is what running processes see (the page cache), Synced what is known
// to survive a power loss.
type Node struct {
	ID     int
	Dir    bool
	Data   []byte
	Synced []byte
	Dirty  bool // Data differs from Synced
	Mode   fs.FileMode
	MTime  time.Time
	Ents   map[string]*Node
	Order  []string // entry names in creation order
	dur    map[string]*Node
}

type metaOp struct {
	dir   *Node // link or unlink in dir
	name  string
	node  *Node // nil: unlink
	dir2  *Node // rename: additionally unlink name2 in dir2, atomically
	name2 string
}

// FS is the simulated disk.
type FS struct {
	Root     *Node
	nextID   int
	journal  []metaOp
	minDur   int // journal prefix known to be durable
	Capacity int // bytes; 0: unlimited
	used     int
}

func NewFS() *FS {
	f := &FS{}
	f.Root = f.newNode(true)
	return f
}

func (f *FS) newNode(dir bool) *Node {
	f.nextID++
	n := &Node{ID: f.nextID, Dir: dir, Mode: 0o644}
	if dir {
		n.Ents = map[string]*Node{}
		n.dur = map[string]*Node{}
		n.Mode = fs.ModeDir | 0o755
	}
	return n
}

// Put creates or replaces a durable file (the harness acting as the user's careful editor).
func (f *FS) Put(p, content string) {
	dir := f.MkdirAll(path.Dir(p))
	b := path.Base(p)
	n := dir.Ents[b]
	if n == nil {
		n = f.newNode(false)
		dir.link(b, n)
	}
	f.used += len(content) - len(n.Data)
	n.Data = []byte(content)
	n.Synced = []byte(content)
	n.Dirty = false
	dir.dur[b] = n
}

// Del removes a file durably.
func (f *FS) Del(p string) {
	d, b, _ := f.lookupDir(p)
	if d != nil {
		d.unlink(b)
		delete(d.dur, b)
	}
}

func (f *FS) MkdirAll(p string) *Node {
	n := f.Root
	for _, c := range split(p) {
		k := n.Ents[c]
		if k == nil {
			k = f.newNode(true)
			n.link(c, k)
			n.dur[c] = k
		}
		n = k
	}
	return n
}

func (n *Node) link(name string, k *Node) {
	if n.Ents[name] == nil {
		n.Order = append(n.Order, name)
	}
	n.Ents[name] = k
}

func (n *Node) unlink(name string) {
	delete(n.Ents, name)
	for i, o := range n.Order {
		if o == name {
			n.Order = append(append([]string{}, n.Order[:i]...), n.Order[i+1:]...)
			break
		}
	}
}

func split(p string) []string {
	p = path.Clean("/" + p)
	if p == "/" {
		return nil
	}
	return strings.Split(p[1:], "/")
}

func (f *FS) lookup(p string) (*Node, error) {
	n := f.Root
	for _, c := range split(p) {
		if !n.Dir {
			return nil, syscall.ENOTDIR
		}
		n = n.Ents[c]
		if n == nil {
			return nil, syscall.ENOENT
		}
	}
	return n, nil
}

func (f *FS) lookupDir(p string) (*Node, string, error) {
	cs := split(p)
	if len(cs) == 0 {
		return nil, "", syscall.EINVAL
	}
	d, err := f.lookup(strings.Join(cs[:len(cs)-1], "/"))
	if err != nil {
		return nil, "", err
	}
	if !d.Dir {
		return nil, "", syscall.ENOTDIR
	}
	return d, cs[len(cs)-1], nil
}

// Read returns the content of a file as running processes see it.
func (f *FS) Read(p string) (string, bool) {
	n, err := f.lookup(p)
	if err != nil || n.Dir {
		return "", false
	}
	return string(n.Data), true
}

// List returns the names in a directory, sorted.
func (f *FS) List(p string) []string {
	n, err := f.lookup(p)
	if err != nil || !n.Dir {
		return nil
	}
	var out []string
	for k := range n.Ents {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// Tree returns path -> content of all files below p.
func (f *FS) Tree(p string) map[string]string {
	out := map[string]string{}
	var walk func(p string, n *Node)
	walk = func(p string, n *Node) {
		if !n.Dir {
			out[p] = string(n.Data)
			return
		}
		for k, c := range n.Ents {
			walk(path.Join(p, k), c)
		}
	}
	if n, err := f.lookup(p); err == nil {
		walk(path.Clean(p), n)
	}
	return out
}

// Commit makes everything durable (time passes, the system writes back).
func (f *FS) Commit() {
	f.journal = nil
	f.minDur = 0
	var walk func(n *Node)
	walk = func(n *Node) {
		if !n.Dir {
			if n.Dirty {
				n.Synced = append([]byte(nil), n.Data...)
				n.Dirty = false
			}
			return
		}
		n.dur = map[string]*Node{}
		for k, c := range n.Ents {
			n.dur[k] = c
			walk(c)
		}
	}
	walk(f.Root)
}

// PowerLoss keeps a prefix of the directory changes and, of every file, its synced data or any mixture the disk may
// have got to; then the survivors are what a restarted system finds.
func (f *FS) PowerLoss(r *RNG) (kept, total int) {
	total = len(f.journal)
	kept = f.minDur + r.N(total-f.minDur+1)
	for _, op := range f.journal[:kept] {
		if op.dir2 != nil {
			delete(op.dir2.dur, op.name2)
		}
		if op.node != nil {
			op.dir.dur[op.name] = op.node
		} else {
			delete(op.dir.dur, op.name)
		}
	}
	var walk func(n *Node)
	walk = func(n *Node) {
		if !n.Dir {
			if n.Dirty {
				v := n.Data
				switch r.N(5) {
				case 0:
					v = n.Synced
				case 1: // all of it made it
				case 2:
					v = v[:r.N(len(v)+1)]
				case 3: // length made it, the blocks at the end did not
					v = append([]byte(nil), v...)
					for i := r.N(len(v) + 1); i < len(v); i++ {
						v[i] = 0
					}
				case 4: // nothing
					v = nil
				}
				n.Data = append([]byte(nil), v...)
				n.Synced = append([]byte(nil), v...)
				n.Dirty = false
			}
			return
		}
		ents := n.dur
		n.Ents = map[string]*Node{}
		n.Order = nil
		n.dur = map[string]*Node{}
		var names []string
		for k := range ents {
			names = append(names, k)
		}
		sort.Strings(names)
		for _, k := range names {
			n.link(k, ents[k])
			n.dur[k] = ents[k]
			walk(ents[k])
		}
	}
	walk(f.Root)
	f.journal = nil
	f.minDur = 0
	return
}

type fileInfo struct {
	name string
	n    *Node
	size int64
	mode fs.FileMode
	mt   time.Time
}

func (i *fileInfo) Name() string       { return i.name }
func (i *fileInfo) Size() int64        { return i.size }
func (i *fileInfo) Mode() fs.FileMode  { return i.mode }
func (i *fileInfo) ModTime() time.Time { return i.mt }
func (i *fileInfo) IsDir() bool        { return i.mode.IsDir() }
func (i *fileInfo) Sys() any           { return i.n }

func (n *Node) info(name string) fs.FileInfo {
	return &fileInfo{name: name, n: n, size: int64(len(n.Data)), mode: n.Mode, mt: n.MTime}
}

// SameNode compares two FileInfos.
func SameNode(a, b fs.FileInfo) bool {
	x, ok1 := a.(*fileInfo)
	y, ok2 := b.(*fileInfo)
	return ok1 && ok2 && x.n == y.n
}

// Used is the number of bytes stored.
func (f *FS) Used() int { return f.used }
