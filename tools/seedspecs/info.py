exec(open('/verif/tools/seedspecs/fakefs.py').read())
D='driver/driver.go'; F='driver/file.go'; E='driver/dirent.go'
def T(body): return FAKE + '\nfunc TestPlantedDemo(t *testing.T) {\n\tfs := newFS(t)\n' + body + '\n}\n'
ALL='disko.MountFlagsAllowAll'
STUB='''
// statHandle is a handle of which only the status matters.
type statHandle struct {
	disko.ObjectHandle
	st disko.FileStat
}

func (h statHandle) Stat() disko.FileStat { return h.st }
func (h statHandle) Name() string         { return "entry" }
'''
SEEDS=[
dict(id='entry-mtime-falls-back',property='C52',pkg='driver',
 edits=[(E,'	return dirent.stat.LastModified\n','''	if dirent.stat.LastModified.IsZero() {
		return dirent.stat.LastChanged
	}
	return dirent.stat.LastModified
''')],
 needs='a file system that records when an object changed but not when it was modified',
 breaks='a time of modification is made up although none is recorded',
 test=T('''	ch := time.Unix(1000, 0)
	e := driver.NewDirectoryEntryFromHandle(statHandle{st: disko.FileStat{LastChanged: ch}})
	if !e.ModTime().IsZero() {
		t.Errorf("modified at %v", e.ModTime())
	}
	_ = fs''')+STUB),
dict(id='file-info-directory-by-type',property='C52',pkg='driver',
 edits=[(E,'	return dirent.stat.ModeFlags.IsDir()\n','	return dirent.stat.ModeFlags.Type() == os.ModeDir && dirent.stat.ModeFlags&os.ModeTemporary == 0\n')],
 needs='a directory marked as temporary',
 breaks='the directory is reported not to be one',
 test=T('''	e := driver.NewDirectoryEntryFromHandle(statHandle{st: disko.FileStat{ModeFlags: os.ModeDir | os.ModeTemporary | 0700}})
	if !e.IsDir() {
		t.Errorf("not a directory")
	}
	_ = fs''')+STUB),
dict(id='fs-size-in-32-bits',property='C52',pkg='.',
 edits=[('api.go','	return int64(stat.BlockSize) * int64(stat.TotalBlocks)\n','	return int64(stat.BlockSize) * int64(uint32(stat.TotalBlocks))\n')],
 needs='a file system with 2^32 blocks or more',
 breaks='the total size is reported far too small',
 test='''package disko_test

import (
	"testing"

	"github.com/dargueta/disko"
)

func TestPlantedDemo(t *testing.T) {
	s := disko.FSStat{BlockSize: 512, TotalBlocks: 1<<32 + 5}
	if n := s.TotalSizeBytes(); n != 512*(1<<32+5) {
		t.Errorf("%d bytes", n)
	}
}
'''),
dict(id='drv-create-drops-setid',property='C53',pkg='driver',
 edits=[(D,'''					parentObject,
					perm,
''','''					parentObject,
					perm.Perm(),
''')],
 needs='a file created with set-user-id or sticky bits in its mode',
 breaks='the implementation is asked to create the file without them',
 test=T('''	d := driver.New(fs, '''+ALL+''')
	f, err := d.OpenFile("/f", disko.O_RDWR|disko.O_CREATE, 0755|os.ModeSetuid)
	if err != nil {
		t.Fatal(err)
	}
	f.Close()
	if n := fs.root.kid("f"); n == nil || n.mode != 0755|os.ModeSetuid {
		t.Errorf("created with mode %v", n.mode)
	}''')),
dict(id='drv-mkdir-drops-sticky',property='C53',pkg='driver',
 edits=[(D,'	perm &^= os.ModeType\n','	perm &= os.ModePerm | os.ModeSetgid\n')],
 needs='a directory created with the sticky bit',
 breaks='the directory is created without it',
 test=T('''	d := driver.New(fs, '''+ALL+''')
	if err := d.Mkdir("/d", 0777|os.ModeSticky); err != nil {
		t.Fatal(err)
	}
	if n := fs.root.kid("d"); n == nil || n.mode != os.ModeDir|0777|os.ModeSticky {
		t.Errorf("created with mode %v", n.mode)
	}''')),
dict(id='drv-unsupported-lchown-ignored',property='C53',pkg='driver',
 edits=[(F,'''		return chownHandle.Chown(uid, gid)
	}
	return disko.ErrNotSupported
''','''		return chownHandle.Chown(uid, gid)
	}
	return nil
''')],
 needs='an open file of a file system that has no owners',
 breaks='changing the owner is reported to have worked',
 test=T('''	fs.file("f", "x")
	d := driver.New(noChown{fs}, '''+ALL+''')
	f, err := d.Open("/f")
	if err != nil {
		t.Fatal(err)
	}
	defer f.Close()
	if err := f.Chown(1, 2); err == nil {
		t.Errorf("owner changed")
	}''')+'''
// noChown is the same without owners.
type noChown struct{ *fakeFS }
type plainHandle struct{ disko.ObjectHandle }

func (fs noChown) GetRootDirectory() disko.ObjectHandle { return plainHandle{fs.fakeFS.GetRootDirectory()} }
func (fs noChown) GetObject(name string, parent disko.ObjectHandle) (disko.ObjectHandle, disko.DriverError) {
	h, err := fs.fakeFS.GetObject(name, parent.(plainHandle).ObjectHandle)
	if err != nil {
		return nil, err
	}
	return plainHandle{h}, nil
}
'''),
]
