HEAD='''package fat8_test

import (
	"bytes"
	"os"
	"path/filepath"
	"testing"

	"github.com/dargueta/disko"
	"github.com/dargueta/disko/file_systems/fat8"
)

var _ = bytes.Equal
var _ = disko.MountFlagsAllowAll

// image makes an image file with the given number of sectors; every byte of the tables is free.
func image(t *testing.T, sectors int) *os.File {
	f, err := os.Create(filepath.Join(t.TempDir(), "img"))
	if err != nil {
		t.Fatal(err)
	}
	t.Cleanup(func() { f.Close() })
	geo, err := fat8.GetGeometry(uint(sectors))
	if err != nil {
		t.Fatal(err)
	}
	data := make([]byte, sectors*128)
	at := int(geo.FATsStart) * 128
	for i := 0; i < int(geo.SectorsPerFAT)*128*3; i++ {
		data[at+i] = 0xff
	}
	if _, err := f.Write(data); err != nil {
		t.Fatal(err)
	}
	return f
}

func mounted(t *testing.T, f *os.File) *fat8.FAT8Driver {
	d := fat8.NewDriverFromFile(f)
	if err := d.Mount(disko.MountFlagsAllowAll); err != nil {
		t.Fatal("mount:", err)
	}
	return &d
}
'''
def T(body): return HEAD + '\nfunc TestPlantedDemo(t *testing.T) {\n' + body + '\n}\n'
P='file_systems/fat8'
IO=P+'/iobase.go'; DR=P+'/driver.go'; FO=P+'/formattingdriver.go'; CO=P+'/common.go'
SEEDS=[
dict(id='fat8-write-runs-past-end',property='C25',pkg=P,
 edits=[(IO,'	if uint64(start)+numBlocksToWrite > driver.stat.TotalBlocks {','	if uint64(start) >= driver.stat.TotalBlocks {')],
 needs='a write of several sectors that begins in the last sectors of the image and ends past it',
 breaks='the image file grows instead of the write being refused',
 test=T('''	f := image(t, 640)
	d := mounted(t, f)
	if err := d.WriteDiskBlocks(639, make([]byte, 256)); err == nil {
		t.Error("a write past the end succeeded")
	}
	if s, _ := f.Stat(); s.Size() != 640*128 {
		t.Errorf("the image has %d bytes now", s.Size())
	}''')),
dict(id='fat8-clusters-of-unused-tracks',property='C25',pkg=P,
 edits=[(IO,'(uint(clusterID) <= driver.geometry.TotalClusters)','(uint(clusterID) <= 2*driver.geometry.TrueTotalTracks)')],
 needs='an image of 2002 sectors, which has four tracks that do not hold data',
 breaks='clusters of the unused tracks count as valid and can be overwritten',
 test=T('''	d := mounted(t, image(t, 2002))
	if !d.IsValidCluster(146) || d.IsValidCluster(147) || d.IsValidCluster(154) {
		t.Error("valid clusters do not end at 146")
	}''')),
dict(id='fat8-third-table-half-compared',property='C26',pkg=P,
 edits=[(IO,'!bytes.Equal(firstFAT, thirdFAT)','!bytes.HasPrefix(thirdFAT, firstFAT[:128])')],
 needs='a floppy image, whose tables have two sectors, with a difference in the second sector of the third copy',
 breaks='a damaged third copy of the table is not reported as corruption',
 test=T('''	f := image(t, 1898)
	geo, _ := fat8.GetGeometry(1898)
	f.WriteAt([]byte{7}, int64(geo.FATsStart)*128+4*128+130)
	d := fat8.NewDriverFromFile(f)
	if d.Mount(disko.MountFlagsAllowAll) == nil {
		t.Error("mounted though the tables differ")
	}''')),
dict(id='fat8-space-of-unused-tracks',property='C27',pkg=P,
 edits=[(FO,'uint64((geo.TotalTracks - 1) * geo.SectorsPerTrack)','totalBlocks - uint64(geo.SectorsPerTrack)')],
 needs='formatting an image of 2002 sectors, of which only 1898 can hold data',
 breaks='the free space reported after formatting includes tracks that cannot hold data',
 test=HEAD+'''
func TestPlantedDemo(t *testing.T) {
	f, err := os.Create(filepath.Join(t.TempDir(), "img"))
	if err != nil {
		t.Fatal(err)
	}
	defer f.Close()
	d := fat8.NewDriverFromFile(f)
	for sectors, free := range map[uint64]uint64{2002: 72 * 26, 640: 39 * 16} {
		if err := d.FormatImage(disko.FSStat{BlockSize: 128, TotalBlocks: sectors}); err != nil {
			t.Fatal(err)
		}
		if s := d.FSStat(); s.BlocksFree != free || s.BlocksAvailable != free {
			t.Errorf("%d blocks free, %d available, want %d", s.BlocksFree, s.BlocksAvailable, free)
		}
	}
}
'''),
dict(id='fat8-mounted-before-tables-read',property='C28',pkg=P,
 edits=[(DR,'''	driver.geometry = geo
''','''	driver.geometry = geo
	driver.isMounted = true
'''),(DR,'''	driver.defaultFileAttrFlags = infoSector[0]
	driver.isMounted = true
''','''	driver.defaultFileAttrFlags = infoSector[0]
''')],
 needs='mounting an image with damaged tables, repairing it and mounting it again',
 breaks='the driver counts as mounted although mounting failed',
 test=T('''	f := image(t, 640)
	geo, _ := fat8.GetGeometry(640)
	f.WriteAt([]byte{7}, int64(geo.FATsStart)*128)
	d := fat8.NewDriverFromFile(f)
	if d.Mount(disko.MountFlagsAllowAll) == nil {
		t.Fatal("mounted though the tables differ")
	}
	f.WriteAt([]byte{0xff}, int64(geo.FATsStart)*128)
	if err := d.Mount(disko.MountFlagsAllowAll); err != nil {
		t.Error("cannot be mounted any more:", err)
	}''')),
dict(id='fat8-second-period-drops-extension',property='C29',pkg=P,
 edits=[(CO,'parts := strings.SplitN(name, ".", 2)','parts := strings.Split(name, ".")')],
 needs='a name with a period in its extension',
 breaks='the extension is lost, so different names become the same',
 test=T('''	b, err := fat8.FilenameToBytes("A.B.C")
	if err == nil && string(b) != "A     B.C" {
		t.Errorf("encoded as %q", b)
	}''')),
]
RD=P+'/readingdriver.go'
def I(body): return '''package fat8

import (
	"testing"

	"github.com/dargueta/disko"
)

var _ disko.FileStat

func disk(t *testing.T, blocks uint, name string, e DirectoryEntry) *FAT8Driver {
	geo, err := GetGeometry(blocks)
	if err != nil {
		t.Fatal(err)
	}
	return &FAT8Driver{geometry: geo, isMounted: true, dirents: map[string]DirectoryEntry{name: e}}
}

func TestPlantedDemo(t *testing.T) {
''' + body + '\n}\n'
SEEDS+=[
dict(id='fat8-stat-slack-by-cluster-size',property='C54',pkg=P,
 edits=[(RD,'	totalSectors := clusterSectorsUsed - info.UnusedSectorsInLastCluster','	totalSectors := clusterSectorsUsed - info.UnusedSectorsInLastCluster%8')],
 needs='a file on a floppy with thirteen sectors to a cluster, eight or more of which are unused in the last',
 breaks='the size of the file counts sectors that are unused',
 test=I('''	d := disk(t, 1898, "A.B", DirectoryEntry{IsBinary: true, clusters: []PhysicalCluster{3, 4}, UnusedSectorsInLastCluster: 9})
	st, err := d.Stat("/a.b")
	if err != nil || st.Size != 17*128 || st.NumBlocks != 17 {
		t.Errorf("size is %d, blocks %d, error %v", st.Size, st.NumBlocks, err)
	}''')),
dict(id='fat8-stat-strips-before-folding',property='C54',pkg=P,
 edits=[(RD,'	normalizedPath = strings.TrimPrefix(normalizedPath, "/")','	normalizedPath = strings.TrimPrefix(path, "/")')],
 needs='a path not written in capitals',
 breaks='the file is reported as not existing',
 test=I('''	d := disk(t, 640, "A.B", DirectoryEntry{IsBinary: true, clusters: []PhysicalCluster{3}})
	for _, p := range []string{"/A.B", "A.B", "a.b", "/a.B"} {
		if _, err := d.Stat(p); err != nil {
			t.Errorf("%s: %v", p, err)
		}
	}''')),
]
