RL='utilities/compression'; R8=RL+'/rle8.go'; GR=RL+'/rle_grouper.go'; CM=RL+'/compression.go'
U6='file_systems/unixv6'; DE=U6+'/dirents.go'
def G(pkg, imports, body, extra=''):
    return 'package %s\n\nimport (\n%s)\n\n%s\nfunc TestPlantedDemo(t *testing.T) {\n%s\n}\n' % (
        pkg, ''.join('\t"%s"\n' % i for i in imports), extra, body)
FAILR='''// failing returns data and then an error.
type failing struct {
	data []byte
	err  error
}

func (f *failing) Read(b []byte) (int, error) {
	if len(f.data) == 0 {
		return 0, f.err
	}
	n := copy(b, f.data)
	f.data = f.data[n:]
	return n, nil
}

// limited accepts a number of bytes and then fails.
type limited struct {
	room int
	err  error
}

func (l *limited) Write(b []byte) (int, error) {
	if l.room < len(b) {
		return 0, l.err
	}
	l.room -= len(b)
	return len(b), nil
}
'''
SEEDS=[
dict(id='v6-lone-character-device',property='C35',pkg=U6,edits=[(DE,'case os.ModeDevice | os.ModeCharDevice, os.ModeCharDevice:','case os.ModeDevice | os.ModeCharDevice, os.ModeCharDevice | os.ModeIrregular:'),
 (DE,'''	case FileTypeCharDevice:
		mode |= os.ModeDevice | os.ModeCharDevice
''','''	case FileTypeCharDevice:
		mode |= os.ModeCharDevice
''')],needs='the inode of a character device',
 breaks='its mode is converted to one that can not be converted back',
 test=G(U6.split('/')[-1],['testing'],'''	mode, err := ConvertFSFlagsToStandard(FlagIsAllocated | FileTypeCharDevice | 0x1b6)
	if err != nil {
		t.Fatal(err)
	}
	flags, err := ConvertStandardFlagsToFS(mode)
	if err != nil || flags != FlagIsAllocated|FileTypeCharDevice|0x1b6 {
		t.Error(flags, err)
	}''')),
dict(id='v6-setuid-of-directories-dropped',property='C35',pkg=U6,edits=[(DE,'''	if flags&os.ModeSetuid != 0 {
		mode |= FlagSetUID
	}''','''	if flags&os.ModeSetuid != 0 && flags&os.ModeSetgid == 0 {
		mode |= FlagSetUID
	}''')],needs='a mode with both set-user-ID and set-group-ID',
 breaks='set-user-ID is lost',
 test=G('unixv6',['os','testing'],'''	flags, err := ConvertStandardFlagsToFS(os.ModeSetuid | os.ModeSetgid | 0755)
	if err != nil || flags != FlagIsAllocated|FlagSetGID|FlagSetUID|0755 {
		t.Error(flags, err)
	}''')),
dict(id='v6-blocks-rounded-down',property='C35',pkg=U6,edits=[(DE,'''	blocks := size / 512
	if size%512 != 0 {''','''	blocks := size / 512
	if size%512 > 1 {''')],needs='a file one byte longer than a whole number of blocks',
 breaks='its last block is not counted',
 test=G('unixv6',['testing'],'''	st, err := RawInodeToStat(1, RawInode{Flags: FlagIsAllocated, Size: [3]uint8{0, 1, 2}})
	if err != nil || st.Size != 513 || st.NumBlocks != 2 {
		t.Error(st, err)
	}''')),
dict(id='rle-long-run-in-16-bits',property='C36',pkg=RL,edits=[(R8,'			run.RunLength -= repeatCount + 2\n','			run.RunLength = int(uint16(run.RunLength - repeatCount - 2))\n')],
 needs='a run of more than 65792 bytes',
 breaks='most of the run is lost',
 test=G('compression',['bytes','testing'],'''	var packed, out bytes.Buffer
	in := bytes.Repeat([]byte{7}, 70000)
	if _, err := CompressRLE8(bytes.NewReader(in), &packed); err != nil {
		t.Fatal(err)
	}
	if _, err := DecompressRLE8(&packed, &out); err != nil || !bytes.Equal(in, out.Bytes()) {
		t.Error(err, out.Len())
	}''')),
dict(id='rrle-zero-remainder-omitted',property='C38',pkg=RL,edits=[(R8,'''			_, err = output.Write([]byte{byte(remainder)})
			if err != nil {
				return totalBytesWritten, err
			}

			totalBytesWritten++
''','''			if remainder == 0 && num255Repetitions > 0 {
				// The count is complete already.
				continue
			}
			_, err = output.Write([]byte{byte(remainder)})
			if err != nil {
				return totalBytesWritten, err
			}

			totalBytesWritten++
''')],needs='a run of 257 bytes (or any multiple of 255, plus 2) before other data',
 breaks='the count takes in the bytes that follow',
 test=G('compression',['bytes','testing'],'''	var packed, out bytes.Buffer
	in := append(bytes.Repeat([]byte{7}, 257), 1, 2, 3)
	if _, err := CompressRLERecursive(bytes.NewReader(in), &packed); err != nil {
		t.Fatal(err)
	}
	if _, err := DecompressRLERecursive(&packed, &out); err != nil || !bytes.Equal(in, out.Bytes()) {
		t.Error(err, out.Len())
	}''')),
dict(id='rrle-count-by-254',property='C38',pkg=RL,edits=[(R8,'num255Repetitions := (run.RunLength - 2) / 255','num255Repetitions := (run.RunLength - 1) / 255'),],
 needs='a run of 256 bytes (or a multiple of 255, plus 1)',
 breaks='the compressed count is 255 too large',
 test=G('compression',['bytes','testing'],'''	var packed, out bytes.Buffer
	in := bytes.Repeat([]byte{7}, 256)
	if _, err := CompressRLERecursive(bytes.NewReader(in), &packed); err != nil {
		t.Fatal(err)
	}
	if _, err := DecompressRLERecursive(&packed, &out); err != nil || !bytes.Equal(in, out.Bytes()) {
		t.Error(err, out.Len())
	}''')),
dict(id='rle-failed-read-ends-input',property='C37',pkg=RL,edits=[(R8,'''		if getRunErr != nil && !errors.Is(getRunErr, io.EOF) {
			// An error was encountered and it's *not* EOF.
			return totalBytesWritten, getRunErr
		}

		for run''','''		if getRunErr != nil && !errors.Is(getRunErr, io.EOF) && totalBytesWritten == 0 {
			// An error was encountered and it's *not* EOF.
			return totalBytesWritten, getRunErr
		}

		for run''')],needs='a read which fails after some output was written',
 breaks='the truncated output is reported as complete',
 test=G('compression',['bytes','errors','testing'],'''	var out bytes.Buffer
	boom := errors.New("boom")
	if _, err := CompressRLE8(&failing{[]byte("abc"), boom}, &out); !errors.Is(err, boom) {
		t.Error(err)
	}''',FAILR)),
dict(id='rle-missing-count-is-the-end',property='C37',pkg=RL,edits=[(R8,'''						uint(lastByteRead),
					)
				}
				return totalBytesWritten, fmt.Errorf("failed to write to output: %w", err)''','''						uint(lastByteRead),
					)
				}
				if totalBytesWritten >= 512 {
					// Padding at the end of the image.
					return totalBytesWritten, nil
				}
				return totalBytesWritten, fmt.Errorf("failed to write to output: %w", err)''')],
 needs='compressed data which is cut off within a run, after 512 bytes of output',
 breaks='the loss is not reported',
 test=G('compression',['bytes','testing'],'''	var out bytes.Buffer
	if _, err := DecompressRLE8(bytes.NewReader([]byte{0, 0, 255, 0, 0, 255, 1, 1}), &out); err == nil {
		t.Error("hidden")
	}''')),
dict(id='gzip-trailer-error-lost',property='C37',pkg=RL,edits=[(CM,'''	} else if closeErr != nil {
		err = fmt''','''	} else if closeErr != nil && writer.BytesWritten == 0 {
		err = fmt''')],needs='a device which fills up while the last of the output is written',
 breaks='CompressImage reports success',
 test=G('compression',['bytes','errors','testing'],'''	boom := errors.New("boom")
	if _, err := CompressImage(bytes.NewReader([]byte("abc")), &limited{12, boom}); !errors.Is(err, boom) {
		t.Error(err)
	}''',FAILR)),
dict(id='image-size-limited',property='C46',pkg=RL,edits=[(CM,'	return DecompressRLE8(gzReader, output)','	return DecompressRLE8(io.LimitReader(gzReader, 1<<20), output)')],
 needs='an image whose RLE8 form is more than a mebibyte',
 breaks='the rest of it is silently dropped',
 test=G('compression',['bytes','testing'],'''	var packed, out bytes.Buffer
	in := bytes.Repeat([]byte{1, 2}, 1<<20)
	if _, err := CompressImage(bytes.NewReader(in), &packed); err != nil {
		t.Fatal(err)
	}
	_, err := DecompressImage(&packed, &out)
	if err != nil || !bytes.Equal(in, out.Bytes()) {
		t.Error(err, out.Len())
	}''')),
dict(id='grouper-loses-byte-after-limit',property='C39',pkg=RL,edits=[(GR,'	for ; runLength < math.MaxInt; runLength++ {\n','	for ; runLength <= math.MaxUint16; runLength++ {\n'),
 (GR,'''	return ByteRun{Byte: firstByte, RunLength: runLength}, nil
}
''','''	_, err = grouper.rd.ReadByte()
	return ByteRun{Byte: firstByte, RunLength: runLength}, err
}
''')] if False else [(GR,'	for ; runLength < math.MaxInt; runLength++ {\n','	for ; runLength < math.MaxUint16; runLength++ {\n')],
 needs='a run of 65535 bytes or more',
 breaks='the run is returned in pieces (and recursive RLE produces undecodable output)',
 test=G('compression',['bytes','testing'],'''	g := NewRLEGrouperFromReader(bytes.NewReader(make([]byte, 70000)))
	r, _ := g.GetNextRun()
	if r.RunLength != 70000 {
		t.Error(r)
	}''')),
dict(id='errors-wrapped-message-only',property='C40',pkg='.',edits=[('errors.go','''	if driverError, ok := err.(DriverError); ok {
		return driverError
	}
	return rootError.Wrap(err)''','''	var driverError DriverError
	if errors.As(err, &driverError) {
		return driverError
	}
	return rootError.Wrap(err)''')],
 needs='an error which wraps both a driver error and another error',
 breaks='the other error, and the annotation, are lost',
 test=G('disko',['errors','fmt','io','testing'],'''	err := CastToDriverError(fmt.Errorf("%w while %w", io.ErrClosedPipe, ErrBusy))
	if !errors.Is(err, io.ErrClosedPipe) || !errors.Is(err, ErrBusy) {
		t.Error(err)
	}''')),
dict(id='flags-sync-means-excl',property='C42',pkg='.',edits=[('flags.go','''	if flags&os.O_EXCL != 0 {
		ioFlags |= O_EXCL
	}''','''	if flags&(os.O_EXCL|os.O_CREATE) == os.O_EXCL|os.O_CREATE {
		ioFlags |= O_EXCL
	}''')],needs='O_EXCL without O_CREATE',
 breaks='O_EXCL is lost in the conversion',
 test=G('disko',['os','testing'],'''	if !OSFlagsToIOFlags(os.O_RDWR | os.O_EXCL).Exclusive() {
		t.Error("lost")
	}''')),
dict(id='flags-truncate-readonly',property='C42',pkg='.',edits=[('flags.go','	return flags.Write() || flags.Truncate()','	return flags.Write() || flags.Truncate() && !flags.Read()')],
 needs='O_RDONLY|O_TRUNC',
 breaks='truncating needs no write permission',
 test=G('disko',['testing'],'''	if !(O_RDONLY | O_TRUNC).RequiresWritePerm() {
		t.Error("not required")
	}''')),
dict(id='geometry-rounded-up-always',property='C43',pkg='disks',edits=[('disks/disks.go','''	if bits%8 == 0 {
		return bits / 8
	}
	return (bits / 8) + 1''','''	return (bits + 8) / 8''')] if False else [('disks/disks.go','	return (bits / 8) + 1','	return bits/8 + bits%8/4')],
 needs='a disk whose size in bits leaves 1 to 3 bits over',
 breaks='the size is rounded down',
 test=G('disks',['testing'],'''	g := DiskGeometry{BitsPerAddressUnit: 9, AddressUnitsPerSector: 1, SectorsPerTrack: 1, TotalDataTracks: 1, Heads: 1}
	if g.TotalSizeBytes() != 2 {
		t.Error(g.TotalSizeBytes())
	}''')),
dict(id='geometry-first-duplicate-wins',property='C43',pkg='disks',edits=[('disks/disks.go','''func GetPredefinedDiskGeometry(slug string) (DiskGeometry, error) {
	geometry, ok := diskGeometries[slug]
	if ok {''','''func GetPredefinedDiskGeometry(slug string) (DiskGeometry, error) {
	geometry, ok := diskGeometries[strings.TrimRight(slug, "x")]
	if ok {''')],needs='a slug with letters x after the name of a disk',
 breaks='a geometry is returned for a disk which does not exist',
 test=G('disks',['testing'],'''	for slug := range diskGeometries {
		if _, err := GetPredefinedDiskGeometry(slug); err != nil {
			t.Error(slug, err)
		}
		if _, err := GetPredefinedDiskGeometry(slug + "x"); err == nil {
			t.Error(slug)
		}
	}''')),
]
CLI=r'''package main

import (
	"os"
	"os/exec"
	"path/filepath"
	"testing"
)

func TestPlantedDemo(t *testing.T) {
	dir := t.TempDir()
	tool := filepath.Join(dir, "tool")
	if out, err := exec.Command("go", "build", "-o", tool, ".").CombinedOutput(); err != nil {
		t.Fatalf("%s: %s", err, out)
	}
	in := filepath.Join(dir, "in")
	if err := os.WriteFile(in, []byte("abcabc"), 0644); err != nil {
		t.Fatal(err)
	}
	kept := filepath.Join(dir, "kept")
	if err := os.WriteFile(kept, []byte("precious"), 0644); err != nil {
		t.Fatal(err)
	}
	if err := exec.Command(tool, in, kept, filepath.Join(dir, "other")).Run(); err == nil {
		t.Error("three arguments were accepted")
	}
	if b, _ := os.ReadFile(kept); string(b) != "precious" {
		t.Error("a file was overwritten")
	}
}
'''
SEEDS+=[
dict(id='zip-extra-arguments-accepted',property='C45',pkg='cmd/zipimage',edits=[('cmd/zipimage/main.go','len(os.Args) != 3','len(os.Args) < 3')],
 needs='three arguments', breaks='the second of them is overwritten instead of refusing the command',test=CLI),
dict(id='rrle-total-forgets-zero-count',property='C38',pkg=RL,edits=[(R8,'''			if err != nil {
				return totalBytesWritten, err
			}

			totalBytesWritten++
''','''			if err != nil {
				return totalBytesWritten, err
			}

			if remainder > 0 {
				totalBytesWritten++
			}
''')],
 needs='a run whose length is two more than a multiple of 255',
 breaks='one byte less than was written is reported',
 test=G('compression',['bytes','testing'],'''	var packed bytes.Buffer
	n, err := CompressRLERecursive(bytes.NewReader([]byte("aab")), &packed)
	if err != nil || n != int64(packed.Len()) {
		t.Error(n, packed.Len(), err)
	}'''))
]
SEEDS=[s for s in SEEDS if s['edits']]
