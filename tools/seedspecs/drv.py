import os
exec(open('/verif/tools/seedspecs/fakefs.py').read())
D='driver/driver.go'; F='driver/file.go'
def T(body): return FAKE + '\nfunc TestPlantedDemo(t *testing.T) {\n\tfs := newFS(t)\n' + body + '\n}\n'
ALL='disko.MountFlagsAllowAll'
SEEDS=[
dict(id='drv-truncate-needs-no-permission',property='C16',pkg='driver',
 edits=[(D,'	if ioFlags.RequiresWritePerm() && !driver','	if ioFlags.Write() && !driver')],
 needs='a file opened read-only together with the truncation flag, on an image mounted without write permission',
 breaks='the file is emptied although the image was mounted read-only',
 test=T('''	n := fs.file("f", "some contents")
	d := driver.New(fs, disko.MountFlagsAllowRead)
	_, err := d.OpenFile("/f", disko.O_RDONLY|disko.O_TRUNC, 0)
	if !errors.Is(err, disko.ErrReadOnlyFileSystem) {
		t.Errorf("opened: %v", err)
	}
	if len(n.data) != 13 {
		t.Errorf("truncated to %d", len(n.data))
	}''')),
dict(id='drv-removal-leaks-handle',property='C17',pkg='driver',
 edits=[(D,'''			if rmErr != nil {
				dirent.Close()
				return rmErr''','''			if rmErr != nil {
				return rmErr''')],
 needs='a nested directory whose contents cannot be removed',
 breaks='the handle of the directory that could not be emptied stays open',
 test=T('''	fs.dir("a")
	fs.dir("a/b")
	fs.file("a/b/c", "x")
	fs.fail["unlink c"] = disko.ErrIOFailed
	d := driver.New(fs, '''+ALL+''')
	if err := d.RemoveAll("/a"); err == nil {
		t.Errorf("removed")
	}
	fs.bad(0)''')),
dict(id='drv-link-chain-not-followed',property='C18',pkg='driver',
 edits=[(D,'''	for stat.IsSymlink() {
		currentPath''','''	if stat.IsSymlink() {
		currentPath''')],
 needs='a symbolic link that leads to another symbolic link',
 breaks='only the first link of a chain is followed',
 test=T('''	fs.file("f", "data")
	fs.link("l1", "/l2")
	fs.link("l2", "f")
	d := driver.New(fs, '''+ALL+''')
	s, err := d.Stat("/l1")
	if err != nil || !s.IsFile() {
		t.Errorf("not followed to the file: %v %v", s.ModeFlags, err)
	}
	fs.bad(0)''')),
dict(id='drv-removal-follows-links',property='C22',pkg='driver',
 edits=[(D,'''		dirent, err := driver.getExtObjectInDir(name, directory)
		if err != nil {
			return err
		}

		direntStat''','''		dirent, err := driver.getObjectAtPathFollowingLink(
			posixpath.Join(directory.AbsolutePath(), name))
		if err != nil {
			return err
		}

		direntStat''')],
 needs='a directory to be removed that contains a symbolic link to something outside of it',
 breaks='the target of the link is removed instead of the link',
 test=T('''	fs.dir("a")
	fs.file("keep", "data")
	fs.link("a/l", "/keep")
	d := driver.New(fs, '''+ALL+''')
	d.RemoveAll("/a")
	if fs.root.kid("keep") == nil {
		t.Errorf("the target of a link was removed")
	}''')),
dict(id='drv-unsupported-mtime-passed',property='C19',pkg='driver',
 edits=[(D,'''		atime = disko.UndefinedTimestamp
	}
	if !features''','''		atime = disko.UndefinedTimestamp
	} else if !features''')],
 needs='a file system supporting neither time of access nor time of modification',
 breaks='the implementation gets a time of modification it does not support',
 test=T('''	fs.file("f", "data")
	d := driver.New(fs, '''+ALL+''')
	if err := d.Chtimes("/f", time.Unix(1, 0), time.Unix(2, 0)); err != nil {
		t.Fatal(err)
	}
	for _, x := range fs.times[0] {
		if !x.IsZero() {
			t.Errorf("unsupported timestamp %v", x)
		}
	}''')),
dict(id='drv-create-after-io-error',property='C20',pkg='driver',
 edits=[(D,'''		if errors.Is(err, disko.ErrNotFound) {
			// File does not''','''		if !errors.Is(err, disko.ErrNotADirectory) {
			// File does not''')],
 needs='opening a file with the create flag while the lookup of an intermediate link fails for another reason than absence, after which the second lookup succeeds',
 breaks='a failure to look the file up leads to its creation',
 test=T('''	d := driver.New(&flaky{fakeFS: fs}, '''+ALL+''')
	f, err := d.OpenFile("/f", disko.O_RDWR|disko.O_CREATE, 0644)
	if err == nil {
		f.Close()
	}
	if err == nil || fs.has("create f") {
		t.Errorf("created after an I/O error: %v", err)
	}''')+'''
// flaky fails the first lookup.
type flaky struct {
	*fakeFS
	n int
}

func (f *flaky) GetObject(name string, parent disko.ObjectHandle) (disko.ObjectHandle, disko.DriverError) {
	f.n++
	if f.n == 1 {
		return nil, disko.ErrIOFailed
	}
	return f.fakeFS.GetObject(name, parent)
}
'''),
dict(id='drv-opens-devices-as-files',property='C20',pkg='driver',
 edits=[(D,'	if !stat.IsFile() {\n','	if stat.IsDir() {\n')],
 needs='opening a device or another object that is neither file nor directory',
 breaks='objects other than regular files can be opened',
 test=T('''	fs.put("dev", os.ModeDevice|0600, "")
	d := driver.New(fs, '''+ALL+''')
	if _, err := d.Open("/dev"); err == nil {
		t.Errorf("a device was opened as a file")
	}''')),
dict(id='drv-mkdir-ignores-working-dir',property='C21',pkg='driver',
 edits=[(D,'''	perm |= os.ModeDir

	absPath := driver.NormalizePath(path)''','''	perm |= os.ModeDir

	absPath := posixpath.Join("/", path)''')],
 needs='creating a directory by a relative path while the working directory is not the root',
 breaks='the directory is created in the root directory',
 test=T('''	fs.dir("w")
	d := driver.New(fs, '''+ALL+''')
	d.Chdir("/w")
	if err := d.Mkdir("x", 0755); err != nil {
		t.Fatal(err)
	}
	if fs.root.kid("w").kid("x") == nil {
		t.Errorf("not created in the working directory")
	}''')),
dict(id='drv-chdir-before-check',property='C21',pkg='driver',
 edits=[(D,'''	stat := object.Stat()
	if !stat.IsDir() {
		return disko.ErrNotADirectory.WithMessage(absPath)
	}

	driver.workingDirPath = absPath
	return nil''','''	stat := object.Stat()
	driver.workingDirPath = absPath
	if !stat.IsDir() {
		return disko.ErrNotADirectory.WithMessage(absPath)
	}
	return nil''')],
 needs='a failed attempt to change to something that is no directory, and a relative path after it',
 breaks='the working directory is a file after the failure',
 test=T('''	fs.file("f", "x")
	d := driver.New(fs, '''+ALL+''')
	if err := d.Chdir("/f"); err == nil {
		t.Errorf("changed to a file")
	}
	if wd, _ := d.Getwd(); wd != "/" {
		t.Errorf("the working directory is %s", wd)
	}''')),
dict(id='drv-listing-hides-dotted-names',property='C23',pkg='driver',
 edits=[(D,'''		if name == "." || name == ".." {
			continue
		}

		direntO''','''		if name == "." || len(name) == 2 && name[0] == '.' {
			continue
		}

		direntO''')] ,
 needs='a directory with an entry whose name is a dot and one more character',
 breaks='such entries are missing in listings',
 test=T('''	fs.file(".a", "x")
	fs.file("b", "x")
	d := driver.New(fs, '''+ALL+''')
	l, err := d.ReadDir("/")
	if err != nil || len(l) != 2 {
		t.Errorf("%d entries: %v", len(l), err)
	}''')),
dict(id='drv-empty-portion-means-nothing',property='C23',pkg='driver',
 edits=[(F,'''	if n <= 0 || n > entriesRemaining {''','''	if n < 0 || n > entriesRemaining {''')],
 needs='reading an open directory with a limit of zero, which means no limit',
 breaks='nothing is returned, without an error, although there are entries',
 test=T('''	dir := fs.dir("d")
	fs.file("d/a", "x")
	fs.file("d/b", "x")
	fs.log = nil
	_ = dir
	d := driver.New(fs, '''+ALL+''')
	h := openDir(t, d, fs)
	names, err := h.Readdirnames(0)
	if err != nil || len(names) != 2 {
		t.Errorf("%v %v", names, err)
	}''')+'''
// openDir opens a directory that pretends to be a file while it is opened.
func openDir(t *testing.T, d *driver.BaseDriver, fs *fakeFS) *driver.File {
	n := fs.root.kid("d")
	n.mode = 0644
	f, err := d.Open("/d")
	if err != nil {
		t.Fatal(err)
	}
	n.mode = os.ModeDir | 0755
	return &f
}
'''),
dict(id='drv-growth-not-written-back',property='C24',pkg='driver',
 edits=[(F,'''		return object.WriteBlocks(index, buffer)
''','''		if index >= common.LogicalBlock(stat.NumBlocks) {
			return nil
		}
		return object.WriteBlocks(index, buffer)
''')],
 needs='writing beyond the blocks that the file had when it was opened',
 breaks='blocks added to a file while it is open are never written back',
 test=T('''	n := fs.file("f", "")
	d := driver.New(fs, '''+ALL+''')
	f, err := d.OpenFile("/f", disko.O_RDWR, 0)
	if err != nil {
		t.Fatal(err)
	}
	f.Write([]byte("hello world"))
	if err = f.Close(); err != nil {
		t.Fatal(err)
	}
	if !strings.HasPrefix(string(n.data), "hello world") {
		t.Errorf("%q", n.data)
	}''')),
dict(id='drv-cache-sized-by-file-size',property='C24',pkg='driver',
 edits=[(F,'''		uint(stat.NumBlocks),
''','''		uint((stat.Size+stat.BlockSize-1)/stat.BlockSize),
''')],
 needs='a file with more blocks allocated than its size takes',
 breaks='the cache of the file has fewer blocks than the object, so that writing within the allocated blocks resizes the object',
 test=T('''	fs.put("f", 0644, "")
	p := &prealloc{fakeFS: fs}
	d := driver.New(p, '''+ALL+''')
	f, err := d.OpenFile("/f", disko.O_RDWR, 0)
	if err != nil {
		t.Fatal(err)
	}
	f.Write(make([]byte, 20))
	f.Close()
	for _, l := range fs.log {
		if strings.HasPrefix(l, "resize") {
			t.Errorf("%s", l)
		}
	}''')+'''
// prealloc gives each file four blocks.
type prealloc struct{ *fakeFS }
type preHandle struct{ *fakeHandle }

func (p *prealloc) GetObject(name string, parent disko.ObjectHandle) (disko.ObjectHandle, disko.DriverError) {
	h, err := p.fakeFS.GetObject(name, parent)
	if err != nil {
		return nil, err
	}
	own(h).n.data = make([]byte, 4*bs)
	return preHandle{own(h)}, nil
}

func (h preHandle) Stat() disko.FileStat {
	s := h.fakeHandle.Stat()
	s.Size = 0
	s.NumBlocks = 4
	return s
}
'''),
dict(id='drv-removal-ignores-listing',property='C22',pkg='driver',
 edits=[(D,'		if element == "." || element == ".." {\n','		if element[0] == \'.\' {\n'),(D,'		if element != "." && element != ".." {\n','		if element[0] != \'.\' {\n')],
 needs='a directory whose only entries have names beginning with a dot',
 breaks='such a directory is removed although it is not empty',
 test=T('''	fs.dir("a")
	fs.file("a/.hidden", "x")
	d := driver.New(fs, '''+ALL+''')
	if err := d.Remove("/a"); err == nil {
		t.Errorf("removed a directory that is not empty")
	}
	fs.bad(0)''')),
]
