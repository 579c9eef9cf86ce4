FAKE = r'''
package driver_test

import (
	"errors"
	"fmt"
	"io"
	"os"
	"strings"
	"testing"
	"time"

	"github.com/dargueta/disko"
	"github.com/dargueta/disko/driver"
	"github.com/dargueta/disko/file_systems/common"
)

var _ = errors.Is
var _ = io.EOF
var _ = strings.Split
var _ = fmt.Sprint

// A small file system in memory.
type node struct {
	name   string
	mode   os.FileMode
	data   []byte
	kids   []*node
	uid    int
	gid    int
	inode  uint64
	nolist bool
}

const bs = 16

func (n *node) kid(name string) *node {
	for _, k := range n.kids {
		if k.name == name {
			return k
		}
	}
	return nil
}

type fakeFS struct {
	t        *testing.T
	root     *node
	open     int
	features disko.FSFeatures
	log      []string
	fail     map[string]disko.DriverError // "op name"
	parents  map[*node]*node
	dots     bool
	times    [][]time.Time
	next     uint64
}

func newFS(t *testing.T) *fakeFS {
	fs := &fakeFS{t: t, fail: map[string]disko.DriverError{}, parents: map[*node]*node{}, next: 2}
	fs.root = &node{name: "/", mode: os.ModeDir | 0755, inode: 1}
	return fs
}

// put makes an object; its parent must exist.
func (fs *fakeFS) put(path string, mode os.FileMode, data string) *node {
	at := fs.root
	parts := strings.Split(strings.Trim(path, "/"), "/")
	for _, p := range parts[:len(parts)-1] {
		at = at.kid(p)
	}
	fs.next++
	n := &node{name: parts[len(parts)-1], mode: mode, data: []byte(data), inode: fs.next}
	at.kids = append(at.kids, n)
	fs.parents[n] = at
	return n
}

func (fs *fakeFS) dir(path string) *node           { return fs.put(path, os.ModeDir|0755, "") }
func (fs *fakeFS) file(path, data string) *node    { return fs.put(path, 0644, data) }
func (fs *fakeFS) link(path, target string) *node  { return fs.put(path, os.ModeSymlink|0777, target) }
func (fs *fakeFS) logf(f string, args ...any)      { fs.log = append(fs.log, fmt.Sprintf(f, args...)) }
func (fs *fakeFS) has(entry string) bool {
	for _, l := range fs.log {
		if l == entry {
			return true
		}
	}
	return false
}

func (fs *fakeFS) Mount(flags disko.MountFlags) disko.DriverError { return nil }
func (fs *fakeFS) Flush() disko.DriverError                       { return nil }
func (fs *fakeFS) Unmount() disko.DriverError                     { return nil }
func (fs *fakeFS) handle(n *node) *fakeHandle {
	fs.open++
	return &fakeHandle{fs: fs, n: n}
}

func own(o disko.ObjectHandle) *fakeHandle {
	h, ok := o.(*fakeHandle)
	if !ok {
		panic("not a handle of this implementation")
	}
	return h
}

func (fs *fakeFS) CreateObject(name string, parent disko.ObjectHandle, perm os.FileMode) (disko.ObjectHandle, disko.DriverError) {
	fs.logf("create %s", name)
	p := own(parent)
	p.check()
	if e := fs.fail["create "+name]; e != nil {
		return nil, e
	}
	fs.next++
	n := &node{name: name, mode: perm, inode: fs.next}
	if p.n.kid(name) != nil {
		fs.logf("EXISTS %s", name)
	}
	p.n.kids = append(p.n.kids, n)
	fs.parents[n] = p.n
	return fs.handle(n), nil
}

func (fs *fakeFS) CreateHardLink(src, parent disko.ObjectHandle, name string) (disko.ObjectHandle, disko.DriverError) {
	fs.logf("link %s", name)
	p := own(parent)
	p.check()
	s := own(src)
	if s.n.mode.IsDir() {
		fs.logf("DIRLINK")
	}
	if p.n.kid(name) != nil {
		fs.logf("EXISTS %s", name)
	}
	n := *s.n
	n.name = name
	p.n.kids = append(p.n.kids, &n)
	fs.parents[&n] = p.n
	return fs.handle(&n), nil
}

func (fs *fakeFS) GetObject(name string, parent disko.ObjectHandle) (disko.ObjectHandle, disko.DriverError) {
	fs.logf("get %s", name)
	p := own(parent)
	p.check()
	if !p.n.mode.IsDir() {
		fs.logf("NOTDIR %s", p.n.name)
	}
	if e := fs.fail["get "+name]; e != nil {
		return nil, e
	}
	k := p.n.kid(name)
	if k == nil {
		return nil, disko.ErrNotFound
	}
	return fs.handle(k), nil
}

func (fs *fakeFS) GetRootDirectory() disko.ObjectHandle { return fs.handle(fs.root) }
func (fs *fakeFS) FSStat() disko.FSStat                 { return disko.FSStat{BlockSize: bs} }
func (fs *fakeFS) GetFSFeatures() disko.FSFeatures      { return fs.features }

type fakeHandle struct {
	fs     *fakeFS
	n      *node
	closed int
}

func (h *fakeHandle) check() {
	if h.closed > 0 {
		h.fs.logf("USED-AFTER-CLOSE %s", h.n.name)
	}
}

func (h *fakeHandle) Stat() disko.FileStat {
	h.check()
	return disko.FileStat{InodeNumber: h.n.inode, ModeFlags: h.n.mode, Nlinks: 1, Size: int64(len(h.n.data)), BlockSize: bs,
		NumBlocks: int64((len(h.n.data) + bs - 1) / bs), Uid: uint32(h.n.uid), Gid: uint32(h.n.gid)}
}

func (h *fakeHandle) Resize(n uint64) disko.DriverError {
	h.check()
	h.fs.logf("resize %s %d", h.n.name, n)
	if e := h.fs.fail["resize "+h.n.name]; e != nil {
		return e
	}
	for uint64(len(h.n.data)) < n {
		h.n.data = append(h.n.data, 0)
	}
	h.n.data = h.n.data[:n]
	return nil
}

func (h *fakeHandle) ReadBlocks(i common.LogicalBlock, b []byte) disko.DriverError {
	h.check()
	h.fs.logf("read %s %d", h.n.name, i)
	if e := h.fs.fail["read "+h.n.name]; e != nil {
		return e
	}
	for k := range b {
		b[k] = 0
	}
	if int(i)*bs < len(h.n.data) {
		copy(b, h.n.data[int(i)*bs:])
	}
	return nil
}

func (h *fakeHandle) WriteBlocks(i common.LogicalBlock, b []byte) disko.DriverError {
	h.check()
	h.fs.logf("write %s %d", h.n.name, i)
	if e := h.fs.fail["write "+h.n.name]; e != nil {
		return e
	}
	copy(h.n.data[int(i)*bs:], b)
	return nil
}

func (h *fakeHandle) ZeroOutBlocks(i common.LogicalBlock, n uint) disko.DriverError { return nil }

func (h *fakeHandle) Unlink() disko.DriverError {
	h.check()
	h.fs.logf("unlink %s", h.n.name)
	if e := h.fs.fail["unlink "+h.n.name]; e != nil {
		return e
	}
	if len(h.n.kids) > 0 {
		h.fs.logf("NONEMPTY %s", h.n.name)
	}
	p := h.fs.parents[h.n]
	if p == nil {
		h.fs.logf("ROOT-UNLINKED")
		return nil
	}
	for i, k := range p.kids {
		if k == h.n {
			p.kids = append(append([]*node{}, p.kids[:i]...), p.kids[i+1:]...)
			break
		}
	}
	return nil
}

func (h *fakeHandle) Name() string { return h.n.name }
func (h *fakeHandle) SameAs(o disko.ObjectHandle) bool {
	return own(o).n == h.n
}

func (h *fakeHandle) Close() error {
	h.closed++
	if h.closed > 1 {
		h.fs.logf("CLOSED-TWICE %s", h.n.name)
	}
	h.fs.open--
	return nil
}

func (h *fakeHandle) ListDir() ([]string, disko.DriverError) {
	h.check()
	h.fs.logf("list %s", h.n.name)
	if e := h.fs.fail["list "+h.n.name]; e != nil {
		return nil, e
	}
	out := []string{}
	if h.fs.dots {
		out = append(out, ".", "..")
	}
	for _, k := range h.n.kids {
		out = append(out, k.name)
	}
	return out, nil
}

func (h *fakeHandle) Chmod(m os.FileMode) disko.DriverError {
	h.check()
	h.fs.logf("chmod %s %o", h.n.name, uint32(m))
	h.n.mode = h.n.mode&os.ModeType | m
	return nil
}

func (h *fakeHandle) Chown(u, g int) disko.DriverError {
	h.check()
	h.fs.logf("chown %s %d %d", h.n.name, u, g)
	return nil
}

func (h *fakeHandle) Chtimes(c, a, m, ch, d time.Time) disko.DriverError {
	h.check()
	h.fs.logf("chtimes %s", h.n.name)
	h.fs.times = append(h.fs.times, []time.Time{c, a, m, ch, d})
	return nil
}

// bad fails the test if a promise to the implementation was broken or a handle leaked.
func (fs *fakeFS) bad(want int) {
	for _, l := range fs.log {
		for _, w := range []string{"EXISTS", "DIRLINK", "NOTDIR", "USED-AFTER", "CLOSED-TWICE", "NONEMPTY", "ROOT-UNLINKED"} {
			if strings.HasPrefix(l, w) {
				fs.t.Errorf("%s", l)
			}
		}
	}
	if fs.open != want {
		fs.t.Errorf("%d handles are open, not %d", fs.open, want)
	}
}

var _ = driver.New
'''
