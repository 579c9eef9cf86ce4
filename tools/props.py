#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (kept as a script only so that the text is easy to edit)."""
import json, os, sys

BC = "file_systems/common/blockcache/blockcache.go"
BS = "file_systems/common/basicstream/basicstream.go"
DR = "driver/driver.go"
DF = "driver/file.go"
F8 = "file_systems/fat8/"
FA = "file_systems/fat/"
CO = "utilities/compression/"

P = []

def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": text},
         "why_tests_cant": why,
         "anchors": {"files": files,
                     "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    if state:
        d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        d["anchors"]["observe_at"] = observe
    P.append(d)

cache_state = [
    ("loadedBlocks", "which blocks of the in-memory copy hold the block's contents", BC),
    ("dirtyBlocks", "which blocks were modified and not yet written back", BC),
    ("data", "the in-memory copy of all blocks", BC),
]

# --------------------------------------------------------------------------- block cache
p("C01", "Flushing a block cache writes back every modified block",
  "When flushing a block cache succeeds, no modified block remains unwritten: every block changed by a write, marked as modified by the caller, or added by growing the cache was handed, with its own index and its own bytes, to the storage callback. A block stops being pending only when the storage accepted it.",
  ["inputs", "histories", "fault_sequences"],
  "every block size, block count, set of modified blocks, and outcome of every storage callback",
  "Tests flush a few small caches with an in-memory image that never fails; the guarantee is about every set of pending blocks and every failing callback.",
  [BC], [("Flush / flushBlockRange", BC), ("WriteAt, MarkBlockRangeDirty, Resize set the pending flag", BC)], cache_state)

p("C02", "A failed storage callback is reported and the cache keeps its state",
  "If the storage callback for fetching, writing back or resizing fails, the cache operation in progress fails as well. The block concerned stays not loaded (fetch) or pending (write-back), and after a failed resize the size, the contents and the state of all blocks are what they were before.",
  ["inputs", "fault_sequences"],
  "every public cache operation and every point at which one of its storage callbacks can fail",
  "No test makes a storage callback fail.",
  [BC], [("loadBlockRange, flushBlockRange, Resize return the callback's error before changing state", BC)], cache_state)

p("C03", "A cached block is fetched at most once and never clobbered",
  "Storage is read only for blocks that are not in the cache, so pending modifications are never overwritten by a fetch. A block counts as present only once its contents were fetched successfully or it was created by growing the cache, and every byte the cache hands out or accepts writes over belongs to a present block.",
  ["inputs", "histories", "fault_sequences"],
  "every sequence of operations, every range, every outcome of the fetch callback",
  "Tests check loads on a handful of ranges with storage that never fails.",
  [BC], [("loadBlockRange", BC), ("GetSlice", BC)], cache_state)

p("C04", "Out-of-range block accesses are refused without any effect",
  "An access to blocks of the cache succeeds only if its first block exists and the whole requested range, rounded up to whole blocks, lies inside the cache. Otherwise it fails with the argument-out-of-range error, without calling any storage callback, without modifying the caller's buffer and without changing the cache; and no in-range access is refused for this reason.",
  ["inputs"],
  "every start block and every length, for every size of cache",
  "Tests try a few out-of-range offsets on one cache size; off-by-one errors need specific boundary combinations.",
  [BC], [("CheckBounds", BC)], None, ["CheckBounds, GetSlice, ReadAt, WriteAt, MarkBlockRangeDirty"])

p("C05", "Storage callbacks get an existing block and exactly its buffer",
  "Every call of the fetch or write-back callback is given the index of a block inside the cache and a buffer of exactly one block. The buffer of a write-back holds the block's current bytes, and the bytes of a successful fetch end up in the cache as that block's contents.",
  ["inputs", "histories"],
  "every call of a storage callback made by any cache operation",
  "The test callbacks only notice a wrong index for the sampled ranges and never check the buffer's identity.",
  [BC], [("loadBlockRange, flushBlockRange", BC)])

p("C06", "Resizing a block cache keeps the common prefix and zero-fills growth",
  "Resizing asks the storage for the new number of blocks before anything else changes. Afterwards the cache has exactly that many blocks, the blocks in both the old and new range keep their contents and their state, and every added block consists of null bytes, is present and is pending write-back.",
  ["inputs", "histories"],
  "every old and new number of blocks (including zero), every block size and state of the old blocks",
  "Tests resize one or two small caches; which blocks are carried over or marked depends on arbitrary sizes.",
  [BC], [("Resize", BC)], cache_state)

p("C07", "Cache reads and writes move exactly the requested bytes",
  "A successful read at a block fills the whole caller's buffer with the bytes of the cache starting at that block and reports that many bytes. A successful write places the whole caller's buffer at that block, changes no other byte and reports that many bytes; a failing read or write reports none, and no write modifies the caller's buffer. A slice obtained for a block range is the cache's own storage of exactly those blocks.",
  ["inputs"],
  "every start block and buffer length, including lengths that are not whole blocks",
  "Tests read and write a few aligned and unaligned ranges.",
  [BC], [("ReadAt, WriteAt, GetSlice, Data", BC)])

p("C08", "Stream-backed caches map block i to its own byte range",
  "A block cache on top of a stream or byte slice reads and writes block i at byte offset i times the block size of the stream, for every block of the cache including those added by a later resize, and transfers one whole block. Seek, read and write errors of the stream are reported; only reading past the end of the stream is padded with null bytes; resizing truncates the stream to the new number of whole blocks and is refused if forbidden or unsupported.",
  ["inputs", "histories", "fault_sequences"],
  "every block index, block size, resize history and stream failure",
  "Tests wrap small slices; no stream that fails, is short, or is resized is tested.",
  [BC], [("WrapStream, WrapSlice, WrapStreamWithInferredSize", BC), ("seekToBlock", BC)])

# --------------------------------------------------------------------------- basic stream
p("C09", "Stream access modes are enforced",
  "A stream that was not opened for reading never returns data, and a stream that was not opened for writing never changes its contents, its size or the underlying cache; each such attempt fails with the operation-not-permitted error. Writing at an explicit offset is refused the same way on append-only streams.",
  ["inputs", "configurations"],
  "every combination of open flags and every stream operation",
  "Tests cover a few flag combinations with Read and Write.",
  [BS, "flags.go"], [("ioFlags checks in ReadAt, implWriteAt, Truncate, ReadFrom, WriteAt", BS)])

p("C10", "The stream position moves exactly by what was transferred",
  "Reading and writing at the current position advance it by exactly the number of bytes reported, also when the operation fails or ends at end of file, while operations at explicit offsets, truncation and flushing never move it. Seeking moves it to the requested origin plus offset, and leaves it alone and fails if the origin is invalid or the result would be negative; the position never becomes negative.",
  ["inputs", "histories"],
  "every operation, offset, origin and outcome",
  "Tests seek to a few places and only check the position after full reads.",
  [BS], [("Read, Write, Seek", BS)], [("position", "the stream pointer", BS)])

p("C11", "Stream reads return exactly the bytes available at the offset",
  "A successful read at an offset returns as many bytes as fit the buffer and exist before the end of the stream, and they are the stream's bytes from that offset. Fewer bytes than requested are returned only together with io.EOF, reading at or past the end gives zero bytes and io.EOF, a negative offset is an error, and no read reaches beyond the stream's size or the cache's blocks.",
  ["inputs"],
  "every offset, buffer length, stream size and block size, in particular ranges straddling block boundaries",
  "Tests read a few ranges on one or two block sizes.",
  [BS], [("ReadAt", BS), ("convertLinearAddr", BS)])

p("C12", "Stream writes store every byte where it belongs and mark it pending",
  "A successful write stores the whole buffer at the requested offset (the end of the stream in append mode), growing the underlying storage first if needed, changes no other byte before the old end of the stream, and marks every block it touched for write-back. Afterwards the stream ends at the later of its old end and the end of the data written, and the full length is reported.",
  ["inputs", "histories"],
  "every offset, buffer length, stream size, block size and flag combination",
  "Tests write a few ranges; which blocks are marked and the new size depend on the alignment of both ends.",
  [BS], [("implWriteAt", BS), ("Write", BS)])

p("C13", "Synchronous streams have flushed by the time a change succeeds",
  "On a stream opened in synchronous mode, a write or truncation reports success only after all pending blocks were flushed, and closing or syncing any stream flushes it; a failure to flush is reported. Opening with the truncate flag truncates the stream to zero bytes, or fails.",
  ["inputs", "configurations", "fault_sequences"],
  "every flag combination, operation and flush outcome",
  "Only one test uses the synchronous flag and no test makes flushing fail.",
  [BS], [("Synchronous() checks in Truncate and implWriteAt", BS), ("Sync, Close, New", BS)])

p("C14", "Bytes added to a stream without being written read as null",
  "When a stream grows, by truncation to a larger size or by writing past its end, every byte between the old end and the new data or new end is null, and those blocks are marked for write-back. Truncation sets the size to exactly the requested number of bytes held in exactly as many blocks as needed, and invalid sizes are refused without any change.",
  ["inputs", "histories"],
  "every old and new size and block size, in particular sizes inside one block",
  "Tests grow streams at block granularity only; stale bytes appear only in partly used blocks.",
  [BS], [("Truncate, zeroFill", BS)])

p("C15", "Copying to or from a stream loses no data and hides no failure",
  "Copying from a reader into a stream writes everything the reader delivered, including data delivered together with an error, and copying a stream to a writer hands over everything read. Both report the error of either side, treat end of file as success, and report the number of bytes transferred.",
  ["inputs", "fault_sequences"],
  "every sequence of chunk sizes and errors of the reader or writer",
  "Tests copy between well-behaved buffers.",
  [BS], [("ReadFrom, WriteTo", BS)])

# --------------------------------------------------------------------------- driver
p("C16", "Nothing is modified without the matching mount permission",
  "Driver and file operations that change the image ask for permission first: modifying data or timestamps needs write permission, creating objects and links needs insert permission, removing them needs delete permission, changing modes or owners needs the administer permission. Without it the operation fails with the read-only error before the implementation is asked to change anything.",
  ["inputs", "configurations"],
  "every combination of mount flags, every path and every mutating operation",
  "There are no tests of the driver package.",
  [DR, DF, "api.go"], [("requireMountFlags and the CanWrite check in OpenFile", DR)], None,
  ["calls of CreateObject, CreateHardLink, Resize, WriteBlocks, Unlink, Chmod, Chown, Chtimes on the implementation"])

p("C17", "Every object handle the driver obtains is released exactly once",
  "Every object handle that the implementation gives to the driver is closed exactly once on every path through every operation, including all error paths, unless it is returned to the caller inside an open file. A handle is not used after it was closed.",
  ["inputs", "fault_sequences"],
  "every path through every driver operation, including every failure of the implementation",
  "There are no tests of the driver package; leaks only show on error paths.",
  [DR, DF], [("deferred and explicit Close calls", DR)])

p("C18", "Symbolic links are followed, or not, as each operation requires",
  "Operations on a path follow symbolic links in it, except that removal, link reading, and the non-following variants of stat and chown act on the final link itself. Relative link targets are resolved against the directory containing the link, absolute ones against the root, and any cycle of links is reported as such instead of resolving forever. Only the contents of links are followed, and a lookup ends for every path, the root included.",
  ["inputs", "configurations"],
  "every path and every arrangement of links",
  "There are no tests of the driver package; cycles and relative targets need specific images.",
  [DR], [("resolveSymlink, lookUpFollowingLink, lookUpNoFollow", DR)])

p("C19", "File system implementations get the guarantees promised to them",
  "The driver never asks the implementation to create an object or link without having established that the name does not exist there, and looks up and creates names only in directories. It only ever passes on handles the implementation itself created, uses only directories it has checked as such as hard link targets, never a directory as the source. It passes only permission bits to mode changes, the owner and group in their order, and undefined timestamps for unsupported ones.",
  ["inputs", "configurations", "fault_sequences"],
  "every call from the driver into an implementation, on every path",
  "There are no tests of the driver package and no complete implementation to test it with.",
  [DR, DF, "driver/fsobject.go", "api.go"], [("checkDoesNotExist, createExtObject, unwrapObjectHandle, modePermissionBits", DR)])

p("C20", "Opening, creating and truncating files honour the open flags",
  "Opening a missing file creates it if and only if creation was requested and fails otherwise; exclusive creation fails if the file exists; an existing regular file is never refused if nothing failed, everything is permitted and it need not be a new one; a failure other than absence never leads to creation. Opening anything but a regular file fails, the file returned carries the flags it was opened with, and opening with truncation or truncating a file empties it to zero bytes, never a directory. Writing a whole file writes the data exactly once and reports failures to write or to flush.",
  ["inputs", "configurations", "fault_sequences"],
  "every combination of flags, existing or missing objects, and implementation failures",
  "There are no tests of the driver package.",
  [DR], [("OpenFile, Create, WriteFile, MkdirAll", DR)])

p("C21", "Every path is normalised before use and stays inside the image",
  "Every path given to the driver is cleaned and, if relative, resolved against the working directory before anything is looked up. The working directory is always the absolute path of an object that was verified to be a directory, and changes only on success.",
  ["inputs", "histories"],
  "every path string and every history of directory changes",
  "There are no tests of the driver package.",
  [DR, DF], [("NormalizePath", DR), ("chdirToObject", DR)])

p("C22", "Removal never destroys the root or a non-empty directory",
  "The root directory is never removed or emptied. A directory is unlinked only after its entries were listed and found to be none, or after every entry was unlinked successfully, children before parents and without following links; the first failure stops the removal and is reported.",
  ["inputs", "fault_sequences"],
  "every directory tree and every failure while listing or unlinking",
  "There are no tests of the driver package.",
  [DR], [("Remove, RemoveAll, removeDirectory, isRootDirectory", DR)])

p("C23", "Directory listings contain every real entry exactly once",
  "Listing a directory yields exactly one entry per name the implementation lists, apart from the two dot entries. Reading an open directory in portions continues where the last call stopped, never exceeds the requested number, signals the end with io.EOF only for limited requests, and never panics.",
  ["inputs", "histories"],
  "every list of names, every sequence of portion sizes",
  "There are no tests of the driver package.",
  [DR, DF], [("readDir", DR), ("File.ReadDir", DF)])

p("C24", "Open files move blocks and sizes between cache and object unscaled",
  "The block cache of an open file has the block size and number of blocks the object reports, reads and writes block i of the object for block i of the cache with the same buffer, and resizes the object to the requested number of blocks times the block size in bytes. Failures of the object reach the caller; closing a file flushes it before its handle is released.",
  ["inputs", "fault_sequences"],
  "every object size, block size, block index and failure",
  "There are no tests of the driver package.",
  [DF], [("NewFileFromObjectHandle, File.Close", DF)])

# --------------------------------------------------------------------------- FAT8
p("C25", "FAT8 clusters and sectors are addressed exactly",
  "Sector n of a FAT8 image is read and written at byte n times 128, never beyond the end of the image, and partial sectors are refused. Cluster c, for every valid c and no other, is the c-th group of half a track counted from 1, and reading and writing it touch the same sectors of exactly one cluster.",
  ["inputs"],
  "every sector range, cluster number and geometry",
  "Tests only format images; nothing reads or writes a cluster.",
  [F8 + "iobase.go", F8 + "common.go"], [("ReadDiskBlocks, WriteDiskBlocks, ReadAbsoluteCluster, WriteAbsoluteCluster", F8 + "iobase.go")])

p("C26", "FAT8 keeps three identical FAT copies and rejects differing ones",
  "Whenever the allocation table of a FAT8 image is written, all three copies are written back to back with the same contents. Loading it reads all three copies, each from its own location, and reports corruption unless all are identical.",
  ["inputs", "fault_sequences"],
  "every geometry, table content and image content",
  "The formatting test compares the copies of two fresh images; no test loads differing copies.",
  [F8 + "iobase.go", F8 + "formattingdriver.go"], [("GetFAT, writeFAT, FormatImage", F8 + "iobase.go")])

p("C27", "FAT8 geometry and formatting follow the disk layout",
  "For every supported size, and no other, the derived layout is consistent: two clusters per track, the information sector and three tables fill the end of the directory track, and every region lies inside the image. Formatting refuses a mounted image or unsupported size before touching it, fills every directory sector with 0xFF and the information sector with nulls, marks exactly the two directory-track clusters reserved and all others free, reports that free space and ten as the longest name, and reports every write failure.",
  ["inputs", "configurations", "fault_sequences"],
  "every image size and every write failure",
  "Tests format two sizes with a stream that never fails.",
  [F8 + "formattingdriver.go", F8 + "common.go"], [("FormatImage, GetGeometry", F8 + "formattingdriver.go")])

p("C28", "Mounting a FAT8 image derives its state only from a valid image",
  "Mounting succeeds only if the image size is supported and the tables and information sector could be read, and only then is the image considered mounted; mounting a mounted image is refused, and an unmounted one is no longer mounted. The free list then holds exactly the one-based numbers of the entries marked free among the valid ones, the free space reported is that many clusters, ten the longest name, and the default attributes are the byte the information sector holds.",
  ["inputs", "histories", "fault_sequences"],
  "every image content and size, every read failure, repeated mounts",
  "No test mounts an image.",
  [F8 + "driver.go"], [("Mount, Unmount", F8 + "driver.go")])

p("C29", "FAT8 file names always encode to nine bytes or are refused",
  "Encoding a FAT8 file name yields exactly nine bytes, the stem padded to six and the extension to three, or an error for empty, over-long or non-ASCII names; whether a name ending in a period keeps it is left open. Decoding accepts exactly nine bytes, takes the stem from the first six and the extension from the last three, and never panics.",
  ["inputs"],
  "every string and every byte sequence",
  "Tests sample seven names.",
  [F8 + "common.go"], [("FilenameToBytes, BytesToFilename", F8 + "common.go")])

# --------------------------------------------------------------------------- FAT
p("C30", "A FAT boot sector is validated and its layout derived correctly",
  "Reading a FAT boot sector succeeds exactly if the sector size, cluster size and region sizes are legal and consistent, and short input or corruption is an error, never a panic. On success the derived values satisfy the FAT specification: root directory sectors rounded up, first data sector after reserved, table and root sectors, data clusters rounded down, and the version chosen by the cluster count alone, with the thresholds of the specification.",
  ["inputs"],
  "every 40-byte header",
  "There are no tests of the fat package.",
  [FA + "common.go"], [("NewFATBootSectorFromStream, DetermineFATVersion", FA + "common.go")])

p("C31", "Corrupt FAT directory data cannot crash the driver",
  "Decoding directory entries, dates, attributes, paths and cluster chains from arbitrary image contents ends in a result or an error, never in an out-of-range access, a nil dereference, a failed type assertion or a division by zero.",
  ["inputs"],
  "every image content consistent with a valid boot sector",
  "There are no tests of the fat package.",
  [FA + "dirent.go", FA + "driverbase.go"], [("length checks, NewRawDirentFromBytes, NewDirentFromRaw, clusterToDirentSlice", FA + "dirent.go")])

p("C32", "FAT directory entries are decoded from the specified fields",
  "Every field of a decoded FAT directory entry is taken from its specified byte offset and width in little-endian order, and dates, times, attributes, first cluster, size, name and deletion state are derived from those fields with the specified bit layout. Setting a time of an entry changes exactly that one, and is refused only for a time before 1980, local time, or for the creation time of a deleted entry. The constants for attributes are the bits of the format.",
  ["inputs"],
  "every 32-byte directory entry",
  "There are no tests of the fat package.",
  [FA + "dirent.go"], [("NewRawDirentFromBytes, NewDirentFromRaw, DateFromInt, TimestampFromParts, AttrFlagsToFileMode", FA + "dirent.go")])

p("C33", "FAT cluster chains are walked completely and safely",
  "Walking a cluster chain visits each cluster once from the first to the end marker, is empty for an empty file, and reports corruption for an invalid link or a cycle instead of looping forever or truncating. Removing a file deletes its directory entry first and then frees every cluster of the chain once, failing if anything failed; reading a file returns exactly its recorded size or an error.",
  ["inputs", "fault_sequences"],
  "every table content, including cyclic and cross-linked chains, and every failure of the underlying calls",
  "There are no tests of the fat package.",
  [FA + "driverbase.go"], [("listClusters, Remove, ReadFile", FA + "driverbase.go")])

p("C34", "FAT clusters are read in full from the right place",
  "Cluster n of a FAT image, for every n of the data area and no other, starts at the first data sector plus (n-2) times the sectors per cluster, and is read as exactly one cluster at that sector's byte offset; other numbers are refused. Short reads and read errors are reported.",
  ["inputs", "fault_sequences"],
  "every cluster number and boot sector",
  "There are no tests of the fat package.",
  [FA + "driverbase.go"], [("getFirstSectorOfCluster, readAbsoluteSectors, readCluster", FA + "driverbase.go")])

# --------------------------------------------------------------------------- v6
p("C35", "Unix v6 inode flags and sizes convert both ways without loss",
  "Converting v6 inode flags to standard mode flags and back preserves the permission, set-id and file type bits, with each v6 type mapped to its own standard type and unsupported types refused; flags made from a mode mark the inode as allocated. The status of an inode has its number, owner, group, links, mode and times. An inode's size is its three bytes with the most significant first, and its block count is the size rounded up to 512-byte blocks. The exported flags and the fields of the on-disk structures have the values and places of the format.",
  ["inputs"],
  "every 16-bit flag word, every standard mode and every 24-bit size",
  "There are no tests of the unixv6 package.",
  ["file_systems/unixv6/dirents.go"], [("ConvertFSFlagsToStandard, ConvertStandardFlagsToFS, RawInodeToStat", "file_systems/unixv6/dirents.go")])

# --------------------------------------------------------------------------- compression
p("C36", "RLE8 compression represents every run in full",
  "For every run of equal bytes in the input, RLE8 compression emits tokens that stand for exactly as many bytes as the run has, each being a single byte or two equal bytes and a repeat count of 0 to 255, and a single byte only as the last token of its run. Decompression turns each single byte into itself and each pair with count n into n+2 of its byte, and reports a missing repeat count. Both report exactly the number of bytes they wrote, and read nothing after the end of their input or a failure to read.",
  ["inputs"],
  "every run length and byte value",
  "Tests sample run lengths; the boundary cases of splitting long runs are unbounded.",
  [CO + "rle8.go", CO + "rle_grouper.go"], [("CompressRLE8, DecompressRLE8", CO + "rle8.go")])

p("C37", "Compression never reports success after a failed read or write",
  "When the input of compression or decompression fails for any reason other than its regular end, or the output does not accept the data, or the compressed stream cannot be finished, the operation returns an error. The compressed stream is always finished before success is reported.",
  ["inputs", "fault_sequences"],
  "every point at which reading, writing or closing can fail",
  "Tests use in-memory buffers that never fail.",
  [CO + "compression.go", CO + "rle8.go", CO + "rle_grouper.go"], [("CompressImage, DecompressImage, CompressRLE8, DecompressRLE8, GetNextRun", CO + "compression.go")])

p("C38", "Recursive RLE compression and decompression agree on every run",
  "For every run of two or more equal bytes, recursive RLE compression emits the byte twice followed by counts that add up to the run's length minus two, where every count but the last is 255 and the last is not; single bytes are emitted as they are. Decompression emits, for such a sequence, exactly two plus the sum of the counts. Both report exactly the number of bytes they wrote, and read nothing after the end of their input or a failure to read.",
  ["inputs"],
  "every run length and byte value",
  "Tests cover the compressor on samples; the decompressor has none.",
  [CO + "rle8.go"], [("CompressRLERecursive, DecompressRLERecursive", CO + "rle8.go")])

p("C39", "Byte runs are grouped maximally and none is lost",
  "The run grouper returns each maximal run of equal bytes with its exact length, in order: a byte that ends a run is put back before the run is returned, a run cut off by the end of input is returned together with io.EOF, and an error in the middle of a run is reported.",
  ["inputs", "fault_sequences"],
  "every byte sequence and every failure position",
  "Tests group a few sequences from readers that never fail.",
  [CO + "rle_grouper.go"], [("GetNextRun", CO + "rle_grouper.go")])

# --------------------------------------------------------------------------- cross-cutting
p("C40", "Errors keep their identity when they are annotated or wrapped",
  "Every error sentinel is distinct, and adding a message to an error or wrapping another error in it always yields an error that still matches the original with errors.Is, and the wrapped one too. Conversion to a driver error keeps nil as nil and driver errors unchanged.",
  ["inputs", "histories"],
  "every chain of annotations of every error",
  "Tests check two sentinels with one annotation each.",
  ["errors.go"], [("WithMessage, Wrap, Unwrap, CastToDriverError", "errors.go")])

p("C41", "No error from storage, streams or implementations is dropped",
  "In the whole library, whenever a called operation that can fail reports an error, the function that called it either fails too or visibly handles that specific error: the end of input where it is expected, or the absence of an object where that is an answer. Exempt are only errors of closing an object handle of the implementation.",
  ["inputs", "fault_sequences"],
  "every call that returns an error, on every path of every exported operation",
  "Tests inject hardly any failures.",
  [BC, BS, DR, DF, F8 + "driver.go", F8 + "formattingdriver.go", F8 + "iobase.go", FA + "driverbase.go", FA + "dirent.go", CO + "compression.go"],
  [("error returns at every call site", DR)])

p("C42", "Mode and open flags have their documented, non-overlapping meaning",
  "The permission, open and mount flag constants are distinct bits with the documented values, converting operating-system open flags keeps the access mode and every supported flag and adds none, and each query method answers true for exactly the flags it is named after.",
  ["inputs", "configurations"],
  "every combination of flags",
  "Tests use a few flags.",
  ["flags.go", "api.go"], [("OSFlagsToIOFlags, IOFlags and MountFlags methods, flag constants", "flags.go")])

p("C43", "The predefined disk geometries are complete and unambiguous",
  "Every row of the geometry catalogue has a distinct lowercase slug and positive geometry numbers, is loaded under its slug, and is returned for exactly that slug; unknown slugs are an error. A geometry's size in bytes is its total number of bits divided by eight, rounded up.",
  ["inputs"],
  "every row of the catalogue, every slug and every geometry",
  "There are no tests of the disks package.",
  ["disks/disks.go", "disks/disk-geometries.csv"], [("init, GetPredefinedDiskGeometry, TotalSizeBytes", "disks/disks.go")])

p("C44", "Public types implement every method they promise",
  "No type of the library offers a method that is only promoted from an embedded interface its constructors leave nil, where the interfaces it is meant to satisfy require that method, so calling any required method of an object the library hands out does not panic.",
  ["inputs", "programs"],
  "every method of every interface the library's directory entries, file infos, handles and errors are handed out as",
  "Tests call few of those methods.",
  ["driver/file.go", "driver/dirent.go", "driver/nopobject.go", FA + "dirent.go"], [("method definitions shadowing embedded interfaces", "driver/dirent.go")])

p("C45", "Command line tools report failure through their exit status",
  "The image compression tools exit with a nonzero status whenever opening, reading, compressing, writing or closing a file fails, and print success only after the output file was closed successfully. They take two arguments, the input first and the output second; given any other number they exit with a nonzero status, without crashing and before any file is opened.",
  ["inputs", "fault_sequences"],
  "every failure of any of the files involved",
  "The commands have no tests.",
  ["cmd/zipimage/main.go", "cmd/unzipimage/main.go"], [("main", "cmd/zipimage/main.go")])

p("C46", "Compressed images decompress to the original bytes",
  "For every input, decompressing the compressed image gives back exactly the input.",
  ["inputs"],
  "every byte sequence",
  "Tests round-trip sample inputs only.",
  [CO + "compression.go"], [("CompressImage, DecompressImage", CO + "compression.go")])

p("C47", "A crash between write-backs leaves a recoverable image",
  "If the process dies at any point while pending changes are written to an image, the image holds for each block either its old or its new contents, and the directory structure still refers only to allocated blocks.",
  ["crash_points", "histories"],
  "every crash point of every operation sequence",
  "No test simulates a crash.",
  [BC, F8 + "iobase.go", FA + "driverbase.go"], [("order of block writes", BC)])

p("C48", "Concurrent use of one cache, stream or driver is safe",
  "Operations issued from several goroutines on the same object behave as if executed one after the other.",
  ["schedules"],
  "every interleaving of operations",
  "No test is concurrent.",
  [BC, BS, DR], [("none: the types are documented as not thread-safe", DF)])

p("C49", "FAT directories are listed completely",
  "Decoding a cluster of a FAT directory gives exactly the entries before the end marker, deleted ones included, in order, each from its own 32 bytes; the marker ends the directory. Listing a directory gives the entries of its clusters in the order of its chain, up to the marker and no more, and lists the root directory from where the driver keeps it; listing something that is not a directory, or a failure on the way, is an error. Readdir lists the directory at the path.",
  ["inputs", "fault_sequences"],
  "every content and length of a directory and every failure of the underlying calls",
  "There are no tests of the fat package.",
  [FA + "dirent.go", FA + "driverbase.go"], [("clusterToDirentSlice, readDirFromDirent, Readdir", FA + "driverbase.go")])

p("C50", "FAT paths are looked up component by component",
  "Looking up a path in a FAT file system follows, for each component of the cleaned path, an entry that is in the directory reached so far, has that name and is not deleted, starting at the root directory. It reports that the object does not exist only after comparing every entry of a directory, follows components only in directories, and passes on any error.",
  ["inputs", "fault_sequences"],
  "every path and directory tree and every failure of listing a directory",
  "There are no tests of the fat package.",
  [FA + "driverbase.go"], [("resolvePathToDirent", FA + "driverbase.go")])

p("C51", "FAT metadata operations act on the entry at the path",
  "Stat and Lstat give the status of the entry at the path. Chmod and Chtimes write back once the entry at the path, with the requested mode or times and everything else unchanged, and fail if the entry is not found or writing fails. Operations that FAT cannot represent fail with the not-supported error and change nothing. Two entries are the same file exactly if their inode numbers agree.",
  ["inputs", "fault_sequences"],
  "every entry, argument and failure of the underlying calls",
  "There are no tests of the fat package.",
  [FA + "driverbase.go", FA + "dirent.go"], [("Chmod, Chtimes, Stat, SameFile", FA + "driverbase.go")])

p("C52", "File information tells what the implementation recorded",
  "The directory entries of a listing and the information about an open file tell, by every method, what the implementation recorded for the object: its name, size, mode, type, modification time, status (also as Sys), and whether it is a directory; Info gives information that tells the same. Two files are the same exactly if the inode numbers recorded agree. The total size of a file system is its number of blocks times their size.",
  ["inputs"],
  "every status and name of an object",
  "There are no tests of directory entries or file information.",
  ["driver/dirent.go", DF, "api.go"], [("NewDirectoryEntryFromHandle, DirectoryEntry", "driver/dirent.go"), ("FileInfo", DF)])

p("C53", "Changes of metadata and modes are made exactly as requested",
  "Changing the mode, owner or times of an object, or truncating it, succeeds only if the implementation was asked to make that change; an implementation that cannot make it is an error. Every permission bit of the mode given, set-id and sticky bits included, is passed on unchanged, also to objects created.",
  ["inputs", "fault_sequences"],
  "every mode, implementation and failure of it",
  "There are no tests of the driver's operations.",
  [DR, DF], [("Chmod, Chown, Lchown, Chtimes, Truncate, Mkdir, OpenFile", DR), ("File.Chmod, File.Chown", DF)])

p("C54", "The status of a FAT8 file is that of the entry with its name",
  "The status of a file of a FAT8 image is that of the directory entry with its name, whatever the case of the name and with or without one slash before it. It tells the sectors of all clusters of the file without the unused ones of the last, and the size is 128 bytes for each; blocks have 128 bytes, the inode number is that of the entry, there is one link and every permission. A file that does not exist is reported as not found, text files are refused, and nothing is changed. Two files are the same exactly if their names are, regardless of case.",
  ["inputs"],
  "every path, directory entry and geometry",
  "There are no tests of the status of FAT8 files.",
  ["file_systems/fat8/readingdriver.go"], [("Stat, SameFile", "file_systems/fat8/readingdriver.go")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for d in P:
        f.write(json.dumps(d) + "\n")
print(len(P), "properties")
