// Package verifs is a file system in memory that records every change made to it.
package verifs

import (
	"bytes"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"path"
	"sort"
	"strings"
	"time"

	"github.com/dargueta/disko"
	"github.com/dargueta/disko/file_systems/common"
)

const BlockSize = 8

type Node struct {
	ID     int
	Kind   byte // d f l p
	Names  []string
	Kids   map[string]*Node
	Data   []byte
	Tail   []byte // what the last block contains after that
	Perm   os.FileMode
	Nlinks int
	UID    int
	GID    int
	ATime  time.Time
	MTime  time.Time
	Gone   bool
}

type FS struct {
	Root   *Node
	NextID int
	Log    []string // changes
	Reads  int
	// FailAt makes the given call of this kind fail.
	FailAt  map[string]int
	Count   map[string]int
	Failed  []string
	NoDots  bool
	Bad     []string // wrong uses
	Open    int
	Plain   bool // handles don't support optional operations
	Feature disko.FSFeatures
}

// Linking is a file system with hard links.
type Linking struct{ *FS }

var ErrInjected = disko.ErrIOFailed.WithMessage("injected")

func New() *FS {
	fs := &FS{NextID: 2, FailAt: map[string]int{}, Count: map[string]int{}}
	fs.Root = &Node{ID: 1, Kind: 'd', Kids: map[string]*Node{}, Perm: 0o755, Nlinks: 1}
	fs.Feature = disko.FSFeatures{HasDirectories: true, HasSymbolicLinks: true, HasHardLinks: true, HasAccessedTime: true, HasModifiedTime: true}
	return fs
}

func (fs *FS) fail(kind string) disko.DriverError {
	fs.Count[kind]++
	if n, ok := fs.FailAt[kind]; ok && n == fs.Count[kind] {
		fs.Failed = append(fs.Failed, kind)
		return ErrInjected
	}
	return nil
}

func (fs *FS) change(f string, a ...any) {
	if len(fs.Failed) > 0 {
		fs.Bad = append(fs.Bad, fmt.Sprintf("change after a failure (%v): %s", fs.Failed, fmt.Sprintf(f, a...)))
	}
	fs.Log = append(fs.Log, fmt.Sprintf(f, a...))
}

// Add makes an object; there is none with this name.
func (fs *FS) Add(dir *Node, name string, kind byte, data string) *Node {
	n := &Node{ID: fs.NextID, Kind: kind, Data: []byte(data), Perm: 0o644, Nlinks: 1}
	fs.NextID++
	if kind == 'd' {
		n.Kids = map[string]*Node{}
	}
	dir.Kids[name] = n
	dir.Names = append(dir.Names, name)
	return n
}

// Copy is a deep copy of a tree.
func (n *Node) Copy() *Node { return n.copy(map[*Node]*Node{}) }

func (n *Node) copy(m map[*Node]*Node) *Node {
	if c := m[n]; c != nil {
		return c
	}
	c := *n
	m[n] = &c
	c.Data, c.Tail = bytes.Clone(n.Data), bytes.Clone(n.Tail)
	c.Names = append([]string{}, n.Names...)
	if n.Kids != nil {
		c.Kids = map[string]*Node{}
		for k, v := range n.Kids {
			c.Kids[k] = v.copy(m)
		}
	}
	return &c
}

// String shows the tree.
func (n *Node) String() string {
	switch n.Kind {
	case 'f':
		return fmt.Sprintf("#%d%q", n.ID, n.Data)
	case 'l':
		return fmt.Sprintf("#%d->%s", n.ID, n.Data)
	case 'p':
		return fmt.Sprintf("#%d device", n.ID)
	}
	var p []string
	for _, k := range n.Names {
		p = append(p, fmt.Sprintf("%q:%v", k, n.Kids[k]))
	}
	sort.Strings(p)
	return fmt.Sprintf("#%d{%s}", n.ID, strings.Join(p, " "))
}

func (n *Node) Mode() os.FileMode {
	switch n.Kind {
	case 'd':
		return n.Perm | os.ModeDir
	case 'l':
		return n.Perm | os.ModeSymlink
	case 'p':
		return n.Perm | os.ModeNamedPipe
	}
	return n.Perm
}

func (n *Node) Remove(name string) {
	delete(n.Kids, name)
	for i, k := range n.Names {
		if k == name {
			n.Names = append(n.Names[:i:i], n.Names[i+1:]...)
			break
		}
	}
}

func (fs *FS) Mount(disko.MountFlags) disko.DriverError { return nil }
func (fs *FS) Flush() disko.DriverError                 { return nil }
func (fs *FS) Unmount() disko.DriverError               { return nil }
func (fs *FS) FSStat() disko.FSStat                     { return disko.FSStat{BlockSize: BlockSize} }
func (fs *FS) GetFSFeatures() disko.FSFeatures          { return fs.Feature }

// raw finds the handle the file system made.
func (fs *FS) raw(h disko.ObjectHandle) *Handle {
	switch x := h.(type) {
	case *Handle:
		return x
	case full:
		return x.Handle
	}
	fs.Bad = append(fs.Bad, fmt.Sprintf("a handle of type %T is not one of the file system's own", h))
	return nil
}

func (fs *FS) handle(n *Node, dir *Node, name string) disko.ObjectHandle {
	fs.Open++
	h := &Handle{fs, n, dir, name}
	if fs.Plain {
		return h
	}
	return full{h}
}

func (fs *FS) GetRootDirectory() disko.ObjectHandle { return fs.handle(fs.Root, nil, "/") }

func (fs *FS) GetObject(name string, parent disko.ObjectHandle) (disko.ObjectHandle, disko.DriverError) {
	p := fs.raw(parent)
	if p == nil {
		return nil, disko.ErrInvalidArgument
	}
	if p.N.Kind != 'd' {
		fs.Bad = append(fs.Bad, fmt.Sprintf("looking for %q in #%d, which is not a directory", name, p.N.ID))
		return nil, disko.ErrNotADirectory
	}
	if err := fs.fail("get"); err != nil {
		return nil, err
	}
	n := p.N.Kids[name]
	if n == nil {
		return nil, disko.ErrNotFound
	}
	return fs.handle(n, p.N, name), nil
}

func (fs *FS) CreateObject(name string, parent disko.ObjectHandle, perm os.FileMode) (disko.ObjectHandle, disko.DriverError) {
	p := fs.raw(parent)
	if p == nil {
		return nil, disko.ErrInvalidArgument
	}
	if p.N.Kind != 'd' || name == "" || name == "." || name == ".." || strings.Contains(name, "/") {
		fs.Bad = append(fs.Bad, fmt.Sprintf("creating %q in #%d", name, p.N.ID))
		return nil, disko.ErrInvalidArgument
	}
	if err := fs.fail("create"); err != nil {
		return nil, err
	}
	if p.N.Kids[name] != nil {
		fs.Bad = append(fs.Bad, fmt.Sprintf("creating %q in #%d, where it exists", name, p.N.ID))
		p.N.Remove(name)
	}
	kind := byte('f')
	if perm.IsDir() {
		kind = 'd'
	}
	n := fs.Add(p.N, name, kind, "")
	n.Perm = perm &^ os.ModeType
	fs.change("create #%d %q in #%d", n.ID, name, p.N.ID)
	return fs.handle(n, p.N, name), nil
}

func (fs Linking) CreateHardLink(source, dir disko.ObjectHandle, name string) (disko.ObjectHandle, disko.DriverError) {
	s, d := fs.raw(source), fs.raw(dir)
	if s == nil || d == nil {
		return nil, disko.ErrInvalidArgument
	}
	if s.N.Kind == 'd' || d.N.Kind != 'd' || d.N.Kids[name] != nil {
		fs.Bad = append(fs.Bad, fmt.Sprintf("linking #%d to %q in #%d", s.N.ID, name, d.N.ID))
		return nil, disko.ErrInvalidArgument
	}
	if err := fs.fail("link"); err != nil {
		return nil, err
	}
	d.N.Kids[name] = s.N
	d.N.Names = append(d.N.Names, name)
	s.N.Nlinks++
	fs.change("link #%d to %q in #%d", s.N.ID, name, d.N.ID)
	return fs.handle(s.N, d.N, name), nil
}

// Handle supports no optional operations but listing directories.
type Handle struct {
	FS  *FS
	N   *Node
	Dir *Node
	Nm  string
}

func (h *Handle) Stat() disko.FileStat {
	n := int64(len(h.N.Data))
	return disko.FileStat{InodeNumber: uint64(h.N.ID), Nlinks: uint64(h.N.Nlinks), ModeFlags: h.N.Mode(), Size: n, BlockSize: BlockSize, NumBlocks: (n + BlockSize - 1) / BlockSize, LastModified: h.N.MTime, LastAccessed: h.N.ATime, Uid: uint32(h.N.UID), Gid: uint32(h.N.GID)}
}

func (h *Handle) Resize(size uint64) disko.DriverError {
	if err := h.FS.fail("resize"); err != nil {
		return err
	}
	if size > 1<<20 {
		return disko.ErrNoSpaceOnDevice
	}
	h.FS.change("resize #%d to %d", h.N.ID, size)
	d := make([]byte, (size+BlockSize-1)/BlockSize*BlockSize)
	copy(d, h.N.blocks())
	h.N.Data, h.N.Tail = d[:size:size], d[size:]
	return nil
}

func (h *Handle) ReadBlocks(index common.LogicalBlock, buffer []byte) disko.DriverError {
	if err := h.FS.fail("read"); err != nil {
		return err
	}
	h.FS.Reads++
	d := h.N.blocks()
	if int(index)*BlockSize+len(buffer) > len(d) {
		return disko.ErrInvalidArgument
	}
	copy(buffer, d[int(index)*BlockSize:])
	return nil
}

// blocks is the contents of all blocks of a file. They're stored as a whole.
func (n *Node) blocks() []byte {
	d := append(bytes.Clone(n.Data), n.Tail...)
	for len(d)%BlockSize != 0 {
		d = append(d, 0)
	}
	return d
}

func (h *Handle) WriteBlocks(index common.LogicalBlock, data []byte) disko.DriverError {
	if err := h.FS.fail("write"); err != nil {
		return err
	}
	h.FS.change("write #%d block %d: %q", h.N.ID, index, data)
	d := h.N.blocks()
	if int(index)*BlockSize+len(data) > len(d) {
		return disko.ErrInvalidArgument
	}
	copy(d[int(index)*BlockSize:], data)
	k := len(h.N.Data)
	h.N.Data, h.N.Tail = d[:k:k], d[k:]
	return nil
}

func (h *Handle) ZeroOutBlocks(start common.LogicalBlock, count uint) disko.DriverError {
	h.FS.change("zero out #%d", h.N.ID)
	return nil
}

func (h *Handle) Unlink() disko.DriverError {
	if err := h.FS.fail("unlink"); err != nil {
		return err
	}
	if h.Dir == nil {
		h.FS.Bad = append(h.FS.Bad, "unlinking the root directory")
		return disko.ErrNotPermitted
	}
	if len(h.N.Names) > 0 {
		h.FS.Bad = append(h.FS.Bad, fmt.Sprintf("unlinking #%d, which is not empty", h.N.ID))
		return disko.ErrDirectoryNotEmpty
	}
	if h.Dir.Kids[h.Nm] != h.N {
		h.FS.Bad = append(h.FS.Bad, fmt.Sprintf("unlinking #%d, which is gone", h.N.ID))
		return disko.ErrNotFound
	}
	h.Dir.Remove(h.Nm)
	h.N.Nlinks--
	h.FS.change("unlink #%d %q from #%d", h.N.ID, h.Nm, h.Dir.ID)
	return nil
}

func (h *Handle) Name() string { return h.Nm }

func (h *Handle) SameAs(other disko.ObjectHandle) bool {
	o := h.FS.raw(other)
	return o != nil && o.N == h.N
}

func (h *Handle) Close() error { h.FS.Open--; return nil }

func (h *Handle) ListDir() ([]string, disko.DriverError) {
	if h.N.Kind != 'd' {
		h.FS.Bad = append(h.FS.Bad, fmt.Sprintf("listing #%d", h.N.ID))
		return nil, disko.ErrNotADirectory
	}
	if err := h.FS.fail("list"); err != nil {
		return nil, err
	}
	if h.FS.NoDots {
		return append([]string{}, h.N.Names...), nil
	}
	// Dots can be anywhere.
	i := h.N.ID % (len(h.N.Names) + 1)
	l := append([]string{}, h.N.Names[:i]...)
	l = append(l, ".")
	l = append(l, h.N.Names[i:]...)
	return append(l, ".."), nil
}

// full supports all optional operations.
type full struct{ *Handle }

func (h full) Chmod(mode os.FileMode) disko.DriverError {
	if err := h.FS.fail("attr"); err != nil {
		return err
	}
	h.FS.change("chmod #%d", h.N.ID)
	h.N.Perm = mode &^ os.ModeType
	return nil
}

func (h full) Chown(uid, gid int) disko.DriverError {
	if err := h.FS.fail("attr"); err != nil {
		return err
	}
	h.FS.change("chown #%d", h.N.ID)
	h.N.UID, h.N.GID = uid, gid
	return nil
}

func (h full) Chtimes(created, accessed, modified, changed, deleted time.Time) disko.DriverError {
	if err := h.FS.fail("attr"); err != nil {
		return err
	}
	h.FS.change("chtimes #%d", h.N.ID)
	if !accessed.IsZero() {
		h.N.ATime = accessed
	}
	if !modified.IsZero() {
		h.N.MTime = modified
	}
	return nil
}

// Handle of an object for tests inside the driver package.
func (fs *FS) HandleOf(n *Node, dir *Node, name string) disko.ObjectHandle {
	return fs.handle(n, dir, name)
}

var Names = []string{"a", "b", "ab", "A", "x y", ".hid", "...", "é", "l"}

// Random fills the file system.
func (fs *FS) Random(r *rand.Rand) {
	dirs := []*Node{fs.Root}
	paths := []string{"/"}
	all := []string{"/"}
	n := r.Intn(14)
	for i := 0; i < n; i++ {
		k := r.Intn(len(dirs))
		name := Names[r.Intn(len(Names))]
		if dirs[k].Kids[name] != nil {
			continue
		}
		p := path.Join(paths[k], name)
		switch x := r.Intn(11); {
		case x < 4:
			d := fs.Add(dirs[k], name, 'd', "")
			dirs = append(dirs, d)
			paths = append(paths, p)
		case x < 7:
			data := make([]byte, r.Intn(3*BlockSize+2))
			for j := range data {
				data[j] = byte('a' + r.Intn(26))
			}
			if r.Intn(4) == 0 {
				data = data[:len(data)/BlockSize*BlockSize]
			}
			fs.Add(dirs[k], name, 'f', string(data))
		case x < 10:
			t := all[r.Intn(len(all))]
			switch r.Intn(7) {
			case 0:
				t = p
			case 1:
				t = path.Join("/", Names[r.Intn(len(Names))], Names[r.Intn(len(Names))])
			case 2:
				t = Names[r.Intn(len(Names))]
			case 3:
				t = "../" + Names[r.Intn(len(Names))]
			case 4:
				t = "./" + Names[r.Intn(len(Names))] + "/."
			}
			fs.Add(dirs[k], name, 'l', t)
		default:
			fs.Add(dirs[k], name, 'p', "")
		}
		all = append(all, p)
	}
}

// RandomPath is a path that likely leads somewhere.
func (fs *FS) RandomPath(r *rand.Rand) string {
	n := fs.Root
	p := ""
	if r.Intn(5) > 0 {
		p = "/"
	}
	for i := r.Intn(5); i > 0; i-- {
		name := Names[r.Intn(len(Names))]
		if n != nil && len(n.Names) > 0 && r.Intn(5) > 0 {
			name = n.Names[r.Intn(len(n.Names))]
		}
		if n != nil {
			n = n.Kids[name]
		}
		if n != nil && n.Kind == 'l' {
			n, _, _ = fs.Look("/", string(n.Data), true)
		}
		switch r.Intn(14) {
		case 0:
			name = "./" + name
		case 1:
			name = name + "/"
		case 2:
			name = "zz/../" + name
		case 3:
			name = ".."
			n = nil
		}
		if p != "" && !strings.HasSuffix(p, "/") {
			p += "/"
		}
		p += name
	}
	return p
}

var (
	ErrMissing = errors.New("missing")
	ErrNotDir  = errors.New("not a directory")
	ErrCycle   = errors.New("cycle")
)

// Clean normalises a path: absolute, without empty and dot components.
func Clean(cwd, p string) string {
	if !strings.HasPrefix(p, "/") {
		p = cwd + "/" + p
	}
	var out []string
	for _, c := range strings.Split(p, "/") {
		switch c {
		case "", ".":
		case "..":
			if len(out) > 0 {
				out = out[:len(out)-1]
			}
		default:
			out = append(out, c)
		}
	}
	return "/" + strings.Join(out, "/")
}

// Look finds the object a path denotes, and the path of it without symlinks.
func (fs *FS) Look(cwd, p string, follow bool) (*Node, string, error) {
	rest := strings.Split(strings.Trim(Clean(cwd, p), "/"), "/")
	if rest[0] == "" {
		rest = nil
	}
	n := fs.Root
	var at []string
	for steps := 0; len(rest) > 0; {
		if n.Kind != 'd' {
			return nil, "", ErrNotDir
		}
		k := n.Kids[rest[0]]
		if k == nil {
			return nil, "", ErrMissing
		}
		if k.Kind == 'l' && (follow || len(rest) > 1) {
			if steps++; steps > 1000 {
				return nil, "", ErrCycle
			}
			t := Clean("/"+strings.Join(at, "/"), string(k.Data))
			r := append([]string{}, strings.Split(strings.Trim(t, "/"), "/")...)
			if r[0] == "" {
				r = nil
			}
			rest = append(r, rest[1:]...)
			n, at = fs.Root, nil
			continue
		}
		at = append(at, rest[0])
		rest = rest[1:]
		n = k
	}
	return n, "/" + strings.Join(at, "/"), nil
}
