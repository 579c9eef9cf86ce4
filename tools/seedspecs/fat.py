HEAD='''package fat

import (
	"bytes"
	"encoding/binary"
	"errors"
	"os"
	"testing"
	"time"

	"github.com/dargueta/disko"
)

var _ = binary.LittleEndian
var _ = errors.New
var _ = os.ModePerm
var _ = time.Now
var _ = disko.ErrNotFound

// fakeFAT is an image in memory: 512 bytes per cluster, data from sector 10.
type fakeFAT struct {
	boot    FATBootSector
	table   map[ClusterID]ClusterID
	root    []Dirent
	freed   []ClusterID
	badFree map[ClusterID]bool
	updated []Dirent
	deleted int
}

const endMark = ClusterID(0xffff)

func (f *fakeFAT) GetBootSector() *FATBootSector { return &f.boot }
func (f *fakeFAT) GetClusterAtIndex(i uint) (ClusterID, error) {
	return f.table[ClusterID(i)], nil
}
func (f *fakeFAT) SetClusterAtIndex(i uint, c ClusterID) error { f.table[ClusterID(i)] = c; return nil }
func (f *fakeFAT) GetNextClusterInChain(c ClusterID) (ClusterID, error) {
	return f.table[c], nil
}
func (f *fakeFAT) IsValidCluster(c ClusterID) bool { return c >= 2 && c < 1000 }
func (f *fakeFAT) IsEndOfChain(c ClusterID) bool   { return c >= 0xfff8 }
func (f *fakeFAT) ListRootDirectory() ([]Dirent, error) {
	return f.root, nil
}
func (f *fakeFAT) AllocateCluster(n uint) ([]ClusterID, error) { return nil, disko.ErrNotSupported }
func (f *fakeFAT) FreeCluster(c ClusterID) error {
	if f.badFree[c] {
		return disko.ErrIOFailed
	}
	f.freed = append(f.freed, c)
	return nil
}
func (f *fakeFAT) UpdateDirent(d *Dirent) error            { f.updated = append(f.updated, *d); return nil }
func (f *fakeFAT) DeleteDirent(d, parent *Dirent) error    { f.deleted++; return nil }

// disk is the contents of an image; only what was put there takes memory.
type disk map[int64][]byte

func (d disk) ReadAt(p []byte, off int64) (int, error) {
	for i := range p {
		p[i] = 0
	}
	copy(p, d[off])
	return len(p), nil
}

func newFake() (*fakeFAT, disk, *FATDriver) {
	f := &fakeFAT{table: map[ClusterID]ClusterID{}, badFree: map[ClusterID]bool{}}
	f.boot.BytesPerSector = 512
	f.boot.SectorsPerCluster = 1
	f.boot.BytesPerCluster = 512
	f.boot.FirstDataSector = 10
	f.boot.TotalClusters = 998
	f.boot.DirentsPerCluster = 16
	d := disk{}
	return f, d, &FATDriver{fs: f, diskFile: d}
}

// put stores the contents of a cluster.
func put(d disk, c ClusterID, data []byte) { d[(10+int64(c)-2)*512] = data }

// raw makes a raw directory entry.
func raw(name, ext string, attr byte, cluster uint16, size uint32) []byte {
	b := make([]byte, 32)
	copy(b, "           ")
	copy(b, name)
	copy(b[8:], ext)
	b[11] = attr
	binary.LittleEndian.PutUint16(b[16:], 0x5021)
	binary.LittleEndian.PutUint16(b[18:], 0x5021)
	binary.LittleEndian.PutUint16(b[24:], 0x5021)
	binary.LittleEndian.PutUint16(b[26:], cluster)
	binary.LittleEndian.PutUint32(b[28:], size)
	return b
}

// entry makes a directory entry.
func entry(t *testing.T, f *fakeFAT, b []byte) Dirent {
	r, err := NewRawDirentFromBytes(b)
	if err != nil {
		t.Fatal(err)
	}
	d, err := NewDirentFromRaw(&f.boot, &r)
	if err != nil {
		t.Fatal(err)
	}
	return d
}

var _ = bytes.Repeat
'''
def T(body): return HEAD + '\nfunc TestPlantedDemo(t *testing.T) {\n' + body + '\n}\n'
P='file_systems/fat'
CO=P+'/common.go'; DI=P+'/dirent.go'; DB=P+'/driverbase.go'
SEEDS=[
dict(id='fat-version-boundary',property='C30',pkg=P,
 edits=[(CO,'	if totalClusters < 65525 {','	if totalClusters <= 65525 {')],
 needs='a volume of exactly 65525 clusters',
 breaks='the smallest FAT32 volume is taken for FAT16',
 test=T('''	if v := DetermineFATVersion(65524); v != 16 {
		t.Errorf("65524 clusters: %d", v)
	}
	if v := DetermineFATVersion(65525); v != 32 {
		t.Errorf("65525 clusters: %d", v)
	}''')),
dict(id='fat-size-signed',property='C32',pkg=P,
 edits=[(DI,'	size := int64(rawDirent.FileSize)','	size := int64(int32(rawDirent.FileSize))')],
 needs='a file of 2 GiB or more',
 breaks='such a file has a negative size',
 test=T('''	f, _, _ := newFake()
	if d := entry(t, f, raw("BIG", "BIN", 0, 2, 0x90000000)); d.Size() != 0x90000000 {
		t.Errorf("size %d", d.Size())
	}''')),
dict(id='fat-odd-seconds-twice',property='C32',pkg=P,
 edits=[(DI,'''		seconds += 1
		hundredths -= 100
''','''		seconds += 1
''')],
 needs='an entry created at an odd second',
 breaks='the creation time is a second late',
 test=T('''	got := TimestampFromParts(0x5021, 0, 150)
	if want := time.Date(2020, 1, 1, 0, 0, 1, 500_000_000, time.Local); !got.Equal(want) {
		t.Errorf("%v instead of %v", got, want)
	}''')),
dict(id='fat-failure-to-free-lost',property='C33',pkg=P,
 edits=[(DB,'''		err = drv.fs.FreeCluster(fileClusters[i])
		if err != nil {
			return err
		}
	}

	return nil
''','''		err = drv.fs.FreeCluster(fileClusters[i])
	}

	return err
''')],
 needs='removing a file of several clusters, one of which but the first cannot be freed',
 breaks='the failure is not reported',
 test=T('''	f, _, drv := newFake()
	f.root = []Dirent{entry(t, f, raw("A", "", 0, 2, 1024))}
	f.table[2], f.table[3] = 3, endMark
	f.badFree[3] = true
	if err := drv.Remove("/A"); err == nil {
		t.Error("success though a cluster was not freed")
	}''')),
dict(id='fat-chmod-looks-at-owner-only',property='C51',pkg=P,
 edits=[(DB,'	if (mode & 0b010010010) == 0 {','	if (mode & 0b010000000) == 0 {')],
 needs='a mode that lets the group or others write but not the owner',
 breaks='the file becomes read-only',
 test=T('''	f, _, drv := newFake()
	f.root = []Dirent{entry(t, f, raw("A", "", 0, 0, 0))}
	if err := drv.Chmod("/A", 0o020); err != nil {
		t.Fatal(err)
	}
	if len(f.updated) != 1 || f.updated[0].Stat().ModeFlags&0o222 == 0 {
		t.Error("made read-only")
	}''')),
dict(id='fat-full-cluster-crashes',property='C31',pkg=P,
 edits=[(DI,'	for i := 0; i < bootSector.DirentsPerCluster; i++ {','	for i := 0; i <= bootSector.DirentsPerCluster; i++ {')],
 needs='a cluster of a directory that is completely filled with entries',
 breaks='listing the directory panics',
 test=T('''	f, d, drv := newFake()
	defer func() {
		if r := recover(); r != nil {
			t.Errorf("panic: %v", r)
		}
	}()
	f.root = []Dirent{entry(t, f, raw("D", "", AttrDirectory, 2, 0))}
	var full []byte
	for i := 0; i < 16; i++ {
		full = append(full, raw("F"+string(rune('A'+i)), "", 0, 0, 0)...)
	}
	put(d, 2, full)
	f.table[2] = endMark
	if l, err := drv.Readdir("/D"); err != nil || len(l) != 16 {
		t.Errorf("%d entries, %v", len(l), err)
	}''')),
dict(id='fat-root-directory-rounded-down',property='C34',pkg=P,
 edits=[(DB,'''	return bootSector.FirstDataSector + SectorID(
''','''	rootSectors := uint(bootSector.RootEntryCount) * DirentSize / uint(bootSector.BytesPerSector)
	return SectorID(uint(bootSector.ReservedSectors)+bootSector.TotalFATSectors+rootSectors) + SectorID(
''')],
 needs='a volume whose root directory does not fill its last sector',
 breaks='every cluster is looked for one sector too early',
 test=T('''	f, d, drv := newFake()
	f.boot.ReservedSectors, f.boot.TotalFATSectors = 1, 7
	f.boot.RootEntryCount, f.boot.RootDirSectors = 20, 2
	put(d, 2, []byte("right"))
	d[9*512] = []byte("wrong")
	f.root = []Dirent{entry(t, f, raw("A", "", 0, 2, 5))}
	f.table[2] = endMark
	if b, err := drv.ReadFile("/A"); err != nil || string(b) != "right" {
		t.Errorf("%q %v", b, err)
	}''')),
dict(id='fat-listing-past-end',property='C49',pkg=P,
 edits=[(DB,'		if len(clusterDirents) < bootSector.DirentsPerCluster {','		if len(clusterDirents) < bootSector.DirentsPerCluster/2 {')],
 needs='a directory of several clusters that shrank to more than half of a cluster, with old entries behind its end',
 breaks='entries after the end marker are listed',
 test=T('''	f, d, drv := newFake()
	f.root = []Dirent{entry(t, f, raw("D", "", AttrDirectory, 2, 0))}
	var most []byte
	for i := 0; i < 12; i++ {
		most = append(most, raw("F"+string(rune('A'+i)), "", 0, 0, 0)...)
	}
	put(d, 2, most)
	put(d, 3, raw("OLD", "", 0, 0, 0))
	f.table[2], f.table[3] = 3, endMark
	l, err := drv.Readdir("/D")
	if err != nil || len(l) != 12 {
		t.Errorf("%d entries, %v", len(l), err)
	}''')),
dict(id='fat-chtimes-skips-equal-times',property='C51',pkg=P,
 edits=[(DB,'''		return err
	}
	return drv.fs.UpdateDirent(&dirent)
}

// Lchown''','''		return err
	}
	if !atime.Equal(mtime) {
		err = drv.fs.UpdateDirent(&dirent)
	}
	return err
}

// Lchown''')],
 needs='setting both times of a file to the same value',
 breaks='the times are not stored though success is reported',
 test=T('''	f, _, drv := newFake()
	f.root = []Dirent{entry(t, f, raw("A", "", 0, 0, 0))}
	at := time.Date(2001, 2, 3, 4, 5, 6, 0, time.Local)
	if err := drv.Chtimes("/A", at, at); err != nil {
		t.Fatal(err)
	}
	if len(f.updated) != 1 || !f.updated[0].ModTime().Equal(at) {
		t.Error("not stored")
	}''')),
dict(id='fat-name-first-byte-lost',property='C32',pkg=P,
 edits=[(DI,'		trimmedName = "\\xe5" + trimmedName[1:]','		trimmedName = "\\u00e5" + trimmedName[1:]')],
 needs='a name whose first character is stored as 0x05',
 breaks='the first byte of the name becomes two others',
 test=T('''	f, _, _ := newFake()
	if d := entry(t, f, raw("\\x05BC", "D", 0, 0, 0)); d.Name() != "\\xe5BC.D" {
		t.Errorf("name %q", d.Name())
	}''')),
dict(id='fat-lookup-stops-at-deleted',property='C50',pkg=P,
 edits=[(DB,'''		for _, entry := range currentDirContents {
''','''		for i := 0; i < len(currentDirContents) && !currentDirContents[i].isDeleted; i++ {
			entry := currentDirContents[i]
''')],
 needs='a deleted entry in front of the one looked for',
 breaks='the file cannot be found although it is there',
 test=T('''	f, _, drv := newFake()
	f.root = []Dirent{entry(t, f, raw("\\xe5D", "", 0, 0, 0)), entry(t, f, raw("A", "", 0, 0, 7))}
	if s, err := drv.Stat("/A"); err != nil || s.Size != 7 {
		t.Errorf("size %d, error %v", s.Size, err)
	}''')),
dict(id='fat-creation-after-change-refused',property='C32',pkg=P,
 edits=[(DI,"""	} else if d.isDeleted {
		return disko.ErrNotFound
	}

	d.stat.CreatedAt""","""	} else if d.isDeleted || t.After(d.stat.LastModified.AddDate(0, 0, 1)) {
		return disko.ErrNotFound
	}

	d.stat.CreatedAt""")],
 needs='a time of creation more than a day after the last change, as copies of old files have',
 breaks='a valid time of creation is refused',
 test=T("""	f, _, _ := newFake()
	d := entry(t, f, raw("A", "", 0, 0, 0))
	at := time.Date(2099, 2, 3, 4, 5, 6, 0, time.Local)
	if err := d.SetCreatedAt(at); err != nil {
		t.Error(err)
	}
	if got, err := d.GetCreatedAt(); err != nil || !got.Equal(at) {
		t.Error(got, err)
	}""")),
dict(id='fat-epoch-in-utc',property='C32',pkg=P,
 edits=[(DI,'time.Date(1980, time.January, 1, 0, 0, 0, 0, time.Local)','time.Date(1980, time.January, 1, 0, 0, 0, 0, time.UTC)')],
 needs='a zone east of Greenwich, and a time in the first hours of 1980 there',
 breaks='a time that can be stored is refused, west of it one that cannot be is accepted',
 test=T("""	_, off := time.Date(1980, 1, 1, 0, 0, 0, 0, time.Local).Zone()
	if fatEpoch.Year() != 1980 || fatEpoch.Location() != time.Local {
		t.Error("earliest time is", fatEpoch, "offset", off)
	}""")),
]
