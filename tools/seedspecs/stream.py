HEAD='''package %s

import (
	"bytes"
	"errors"
	"io"
	"testing"

	"github.com/dargueta/disko"
	c "github.com/dargueta/disko/file_systems/common"
	"github.com/dargueta/disko/file_systems/common/blockcache"
)

var _ = bytes.Repeat
var _ = errors.New
var _ = io.EOF
var _ = disko.ErrNotFound

// store is the storage behind a cache: blocks of 4 bytes.
type store struct {
	blocks  [][]byte
	flushes int
	failAt  int
}

func (s *store) cache() *blockcache.BlockCache {
	return blockcache.New(4, uint(len(s.blocks)),
		func(b c.LogicalBlock, buf []byte) error { copy(buf, s.blocks[b]); return nil },
		func(b c.LogicalBlock, buf []byte) error {
			s.flushes++
			if s.failAt == s.flushes {
				return disko.ErrIOFailed
			}
			s.blocks[b] = append([]byte(nil), buf...)
			return nil
		},
		func(n c.LogicalBlock) error {
			for len(s.blocks) < int(n) {
				s.blocks = append(s.blocks, make([]byte, 4))
			}
			s.blocks = s.blocks[:n]
			return nil
		})
}

func newStore(data string) *store {
	s := &store{}
	for i := 0; i < len(data); i += 4 {
		s.blocks = append(s.blocks, []byte(data[i:i+4]))
	}
	return s
}

func (s *store) all() string { return string(bytes.Join(s.blocks, nil)) }

'''
def T(pkg, body, extra=''): return HEAD % pkg + extra + '\nfunc TestPlantedDemo(t *testing.T) {\n' + body + '\n}\n'
BS='file_systems/common/basicstream'; F=BS+'/basicstream.go'
BC='file_systems/common/blockcache'; G=BC+'/blockcache.go'
def S(id, prop, edits, needs, breaks, body, extra=''):
    return dict(id=id, property=prop, pkg=BS, edits=[(F,o,n) for o,n in edits], needs=needs, breaks=breaks,
                test=T('basicstream', body, extra))
SEEDS=[
S('stream-append-writeat-allowed','C09',[('''	if stream.ioFlags.Append() {
		return 0, disko.ErrNotPermitted
	}
	return stream.implWriteAt''','''	if stream.ioFlags.Append() && offset < stream.size {
		return 0, disko.ErrNotPermitted
	}
	return stream.implWriteAt''')],'WriteAt past the end of a stream opened for appending',
 'the write is accepted although it must be refused',
'''	s := newStore("abcdefgh")
	st, err := New(8, s.cache(), disko.O_RDWR|disko.O_APPEND)
	if err != nil {
		t.Fatal(err)
	}
	if _, err := st.WriteAt([]byte("x"), 20); err == nil {
		t.Error("accepted")
	}'''),
S('stream-empty-write-allowed','C09',[('''	var err error

	if !stream.ioFlags.Write() {''','''	var err error

	if len(buffer) > 0 && !stream.ioFlags.Write() {'''),('''	if !stream.ioFlags.Write() {
		return disko.ErrNotPermitted
	}

	if size < 0 {''','''	if !stream.ioFlags.Write() && size != stream.size {
		return disko.ErrNotPermitted
	}

	if size < 0 {''')],'truncating a stream opened for reading only to the size it has',
 'it is reported as a success',
'''	s := newStore("abcdefgh")
	st, _ := New(8, s.cache(), disko.O_RDONLY)
	if err := st.Truncate(8); err == nil {
		t.Error("accepted")
	}'''),
S('stream-position-moved-by-request','C10',[('''	stream.position += int64(totalRead)
	return totalRead, err''','''	if err == nil || err == io.EOF {
		stream.position += int64(len(buffer))
	}
	return totalRead, err''')],'a read which gets fewer bytes than asked for',
 'the position ends up past the end of the stream',
'''	s := newStore("abcdefgh")
	st, _ := New(6, s.cache(), disko.O_RDWR)
	st.Read(make([]byte, 7))
	if st.Tell() != 6 {
		t.Error(st.Tell())
	}'''),
S('stream-bad-seek-moves','C10',[('''		absoluteOffset = stream.position + offset
	case io.SeekEnd:''','''		stream.position += offset
		absoluteOffset = stream.position
	case io.SeekEnd:''')],'a refused Seek relative to the current position',
 'the position is left negative',
'''	s := newStore("abcdefgh")
	st, _ := New(6, s.cache(), disko.O_RDWR)
	st.Seek(2, io.SeekStart)
	if _, err := st.Seek(-3, io.SeekCurrent); err == nil {
		t.Error("accepted")
	}
	if st.Tell() != 2 {
		t.Error(st.Tell())
	}
	if p, err := st.Seek(3, io.SeekCurrent); p != 5 || err != nil {
		t.Error(p, err)
	}'''),
S('stream-read-of-last-byte','C11',[('''	if offset >= stream.size {
		return 0, io.EOF
	} else if offset+bufLen >= stream.size {''','''	if offset >= stream.size {
		return 0, io.EOF
	} else if offset+bufLen >= stream.data.Size() {''')],'reading past the end of a stream which does not fill its last block',
 'bytes past the end of the stream are returned as if they were part of it',
'''	s := newStore("abcdefgh")
	st, _ := New(6, s.cache(), disko.O_RDWR)
	b := make([]byte, 3)
	n, err := st.ReadAt(b, 4)
	if n != 2 || err != io.EOF {
		t.Error(n, err)
	}'''),
S('stream-short-read-without-error','C11',[('''	if numBytesToRead < bufLen {
		err = io.EOF''','''	if offset+bufLen > stream.data.Size() {
		err = io.EOF''')],'a ReadAt past the end of a stream, within its last block',
 'fewer bytes than asked for are returned without an error',
'''	s := newStore("abcdefgh")
	st, _ := New(6, s.cache(), disko.O_RDWR)
	b := make([]byte, 3)
	n, err := st.ReadAt(b, 4)
	if n != 2 || err == nil {
		t.Error(n, err)
	}'''),
S('stream-growth-truncates-at-block','C12',[('''	if uint(lastBlock) >= stream.data.TotalBlocks() {
		err := stream.Truncate(offset + bufLen)''','''	if uint(lastBlock) >= stream.data.TotalBlocks() {
		err := stream.Truncate(int64(lastBlock+1) * int64(stream.data.BytesPerBlock()))''')],
 'a write which grows the stream to a size which is no multiple of a block',
 'the stream gets bytes which were never written',
'''	s := newStore("abcdefgh")
	st, _ := New(8, s.cache(), disko.O_RDWR)
	st.WriteAt([]byte("xy"), 7)
	if st.Size() != 9 {
		t.Error(st.Size())
	}'''),
S('stream-last-block-not-dirty','C12',[('''	copy(targetSlice[startOffset:], buffer)

	err = stream.data.MarkBlockRangeDirty(startBlock, numBlocks)''','''	copied := copy(targetSlice[startOffset:], buffer)

	if copied == len(buffer) && numBlocks > 2 {
		// The blocks in the middle are complete.
		numBlocks--
	}
	err = stream.data.MarkBlockRangeDirty(startBlock, numBlocks)''')],
 'a write which touches three blocks or more',
 'the last block is not marked, so a flush loses it',
'''	s := newStore("abcdefghijklmnop")
	st, _ := New(16, s.cache(), disko.O_RDWR)
	st.WriteAt([]byte("0123456789"), 1)
	if err := st.Sync(); err != nil {
		t.Fatal(err)
	}
	if s.all() != "a0123456789lmnop" {
		t.Error(s.all())
	}'''),
S('stream-sync-not-after-overwrite','C13',[('''	if stream.ioFlags.Synchronous() {
		return len(buffer), stream.Sync()
	}
	return len(buffer), nil''','''	if stream.ioFlags.Synchronous() && offset+bufLen >= stream.size {
		return len(buffer), stream.Sync()
	}
	return len(buffer), nil''')],
 'O_SYNC and a write before the end of the stream',
 'the write is not in storage when it returns',
'''	s := newStore("abcdefgh")
	st, _ := New(8, s.cache(), disko.O_RDWR|disko.O_SYNC)
	st.WriteAt([]byte("01"), 1)
	if s.all() != "a01defgh" {
		t.Error(s.all())
	}'''),
S('stream-truncate-sync-only-shrinks','C13',[('''	stream.size = size

	if stream.ioFlags.Synchronous() {
		return stream.Sync()
	}
	return nil''','''	grown := size > stream.size
	stream.size = size

	if stream.ioFlags.Synchronous() && !grown {
		return stream.Sync()
	}
	return nil''')],
 'O_SYNC and a Truncate which grows the stream',
 'the null bytes are not in storage when it returns',
'''	s := newStore("abcdefgh")
	st, _ := New(6, s.cache(), disko.O_RDWR|disko.O_SYNC)
	st.Truncate(8)
	if s.all() != "abcdef\\x00\\x00" {
		t.Error(s.all())
	}'''),
S('stream-close-flushes-only-writers','C13',[('''func (stream *BasicStream) Close() error {
	return stream.Sync()
}''','''func (stream *BasicStream) Close() error {
	if stream.position == 0 {
		// Nothing was written.
		return nil
	}
	return stream.Sync()
}''')],
 'WriteAt followed by Close, with the position at the start',
 'what was written is lost',
'''	s := newStore("abcdefgh")
	st, _ := New(8, s.cache(), disko.O_RDWR)
	st.WriteAt([]byte("01"), 1)
	if err := st.Close(); err != nil {
		t.Fatal(err)
	}
	if s.all() != "a01defgh" {
		t.Error(s.all())
	}'''),
S('stream-size-before-resize','C14',[('''	err := stream.data.Resize(newTotalBlocks)
	if err != nil {
		return err
	}
''','''	if size < stream.size {
		stream.size = size
	}
	err := stream.data.Resize(newTotalBlocks)
	if err != nil {
		stream.size = size
		return err
	}
''')],
 'a Truncate which the storage refuses',
 'the stream claims a size which the storage does not have',
'''	s := newStore("abcdefgh")
	bc := blockcache.New(4, 2,
		func(b c.LogicalBlock, buf []byte) error { copy(buf, s.blocks[b]); return nil },
		func(b c.LogicalBlock, buf []byte) error { return nil },
		func(n c.LogicalBlock) error { return disko.ErrNoSpaceOnDevice })
	st, _ := New(8, bc, disko.O_RDWR)
	if err := st.Truncate(400); err == nil {
		t.Error("accepted")
	}
	if st.Size() != 8 {
		t.Error(st.Size())
	}
	_ = s'''),
S('stream-writeto-stops-at-short-read','C15',[('''		// If we hit EOF, we're done. Any other error is fatal.
		if err == io.EOF {''','''		// If we hit EOF, we're done. Any other error is fatal.
		if err == io.EOF || blockSize < len(buffer) {''')],
 'a storage failure while a stream is copied',
 'the failure is reported as the end of the stream',
'''	bc := blockcache.New(4, 3,
		func(b c.LogicalBlock, buf []byte) error {
			if b == 1 {
				return disko.ErrIOFailed
			}
			return nil
		},
		func(b c.LogicalBlock, buf []byte) error { return nil },
		func(n c.LogicalBlock) error { return nil })
	st, _ := New(12, bc, disko.O_RDWR)
	var out bytes.Buffer
	if _, err := st.WriteTo(&out); err == nil {
		t.Error("hidden")
	}'''),
dict(id='wrap-offset-in-32-bits',property='C08',pkg=BC,edits=[(G,'''	blockOffset := int64(block) * int64(bytesPerBlock)
''','''	blockOffset := int64(uint32(block) * uint32(bytesPerBlock))
''')],needs='a block 4 GiB into the image',
 breaks='the first blocks of the image are read or overwritten instead',
 test='''package blockcache

import (
	"io"
	"testing"
)

// big records where it was read.
type big struct{ pos, read int64 }

func (b *big) Seek(o int64, w int) (int64, error) {
	if w != io.SeekStart {
		panic("whence")
	}
	b.pos = o
	return o, nil
}
func (b *big) Read(p []byte) (int, error)  { b.read = b.pos; return len(p), nil }
func (b *big) Write(p []byte) (int, error) { return len(p), nil }

func TestPlantedDemo(t *testing.T) {
	b := &big{}
	bc := WrapStream(b, 1<<20, 1<<13, false)
	err := bc.fetch(5000, make([]byte, 1<<20))
	if err != nil || b.read != 5000<<20 {
		t.Error(err, b.read)
	}
}
'''),
dict(id='wrap-short-slice-rounded-up',property='C08',pkg=BC,edits=[(G,'''	totalBlocks := uint(eofOffset) / bytesPerBlock
''','''	totalBlocks := (uint(eofOffset) + bytesPerBlock) / bytesPerBlock
''')],needs='any stream whose size is inferred',
 breaks='the cache has a block which the stream does not have',
 test='''package blockcache

import (
	"testing"

	"github.com/xaionaro-go/bytesextra"
)

func TestPlantedDemo(t *testing.T) {
	bc := WrapStreamWithInferredSize(bytesextra.NewReadWriteSeeker(make([]byte, 64)), 16, false)
	if bc.TotalBlocks() != 4 {
		t.Error(bc.TotalBlocks())
	}
}
'''),
dict(id='wrap-last-block-refused',property='C08',pkg=BC,edits=[(G,'''	if block >= totalBlocks {
		return disko.ErrArgumentOutOfRange.WithMessage(
			fmt.Sprintf(
				"invalid block number''','''	if block+1 >= totalBlocks && totalBlocks > 1024 {
		return disko.ErrArgumentOutOfRange.WithMessage(
			fmt.Sprintf(
				"invalid block number''')],needs='the last block of a stream of more than 1024 blocks',
 breaks='it can not be accessed',
 test='''package blockcache

import "testing"

func TestPlantedDemo(t *testing.T) {
	storage := make([]byte, 2000)
	storage[1999] = 7
	bc := WrapSlice(storage, 1)
	b := make([]byte, 1)
	if _, err := bc.ReadAt(b, 1999); err != nil || b[0] != 7 {
		t.Error(err, b)
	}
}
'''),
]
