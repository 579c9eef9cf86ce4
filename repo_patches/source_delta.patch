From d19dab30a67612498f649ae003d154c8d6d904eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:19 +0000
Subject: [PATCH 01/46] fix: blockcache: loading or flushing an empty cache is
 not an error

---
 file_systems/common/blockcache/blockcache.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/file_systems/common/blockcache/blockcache.go b/file_systems/common/blockcache/blockcache.go
index bdcb43a..c840abb 100644
--- a/file_systems/common/blockcache/blockcache.go
+++ b/file_systems/common/blockcache/blockcache.go
@@ -356,12 +356,18 @@ func (cache *BlockCache) flushBlockRange(start c.LogicalBlock, count uint) error
 
 // LoadAll ensures all missing blocks are loaded from storage into the cache.
 func (cache *BlockCache) LoadAll() error {
+	if cache.totalBlocks == 0 {
+		return nil
+	}
 	return cache.loadBlockRange(0, cache.totalBlocks)
 }
 
 // Flush flushes all dirty blocks from the cache into storage, and marks them
 // as clean.
 func (cache *BlockCache) Flush() error {
+	if cache.totalBlocks == 0 {
+		return nil
+	}
 	return cache.flushBlockRange(0, cache.totalBlocks)
 }
 
-- 
2.43.0


From 18c43bb04b5e1d9c451e8ba5d146fb68314c3fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:19 +0000
Subject: [PATCH 02/46] fix: blockcache: ReadAt returns the number of bytes
 read, not the size of the blocks

---
 file_systems/common/blockcache/blockcache.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/file_systems/common/blockcache/blockcache.go b/file_systems/common/blockcache/blockcache.go
index c840abb..14912d1 100644
--- a/file_systems/common/blockcache/blockcache.go
+++ b/file_systems/common/blockcache/blockcache.go
@@ -395,8 +395,7 @@ func (cache *BlockCache) ReadAt(buffer []byte, start c.LogicalBlock) (int, error
 		return 0, err
 	}
 
-	copy(buffer, sourceData)
-	return len(sourceData), nil
+	return copy(buffer, sourceData), nil
 }
 
 // WriteAt copies data into the cache from `buffer`, beginning at block `start`.
-- 
2.43.0


From a1b5db1d567273d46dd61c0d6375b0a323628a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:19 +0000
Subject: [PATCH 03/46] fix: blockcache: load blocks before marking them dirty

---
 file_systems/common/blockcache/blockcache.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/file_systems/common/blockcache/blockcache.go b/file_systems/common/blockcache/blockcache.go
index 14912d1..ae9692a 100644
--- a/file_systems/common/blockcache/blockcache.go
+++ b/file_systems/common/blockcache/blockcache.go
@@ -477,7 +477,9 @@ func (cache *BlockCache) MarkBlockRangeDirty(
 	start c.LogicalBlock,
 	count uint,
 ) error {
-	err := cache.CheckBounds(start, count*cache.bytesPerBlock)
+	// Blocks must be loaded before they can be marked dirty, otherwise flushing
+	// them would overwrite the storage with data that was never read from it.
+	err := cache.loadBlockRange(start, count)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 6c23904235eeb31c061aeb95557190d74605fbdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:19 +0000
Subject: [PATCH 04/46] fix: blockcache: report failed stream writes, complete
 short stream reads

---
 file_systems/common/blockcache/blockcache.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/file_systems/common/blockcache/blockcache.go b/file_systems/common/blockcache/blockcache.go
index ae9692a..bdb4f68 100644
--- a/file_systems/common/blockcache/blockcache.go
+++ b/file_systems/common/blockcache/blockcache.go
@@ -124,15 +124,16 @@ func WrapStream(
 		}
 
 		if read {
-			_, err = stream.Read(buffer)
+			// A block past the end of the stream, or only partially inside it,
+			// is padded with null bytes.
+			_, err = io.ReadFull(stream, buffer)
+			if err == io.EOF || err == io.ErrUnexpectedEOF {
+				return nil
+			}
 		} else {
 			_, err = stream.Write(buffer)
 		}
-
-		if err != nil && err != io.EOF {
-			return err
-		}
-		return nil
+		return err
 	}
 
 	fetchCb := func(block c.LogicalBlock, buffer []byte) error {
-- 
2.43.0


From ba9d90f3d50489ed0bf91df650d8159491e22f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:19 +0000
Subject: [PATCH 05/46] fix: blockcache: stream-backed blocks added by Resize
 can be read and written

---
 file_systems/common/blockcache/blockcache.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/file_systems/common/blockcache/blockcache.go b/file_systems/common/blockcache/blockcache.go
index bdb4f68..fade1bb 100644
--- a/file_systems/common/blockcache/blockcache.go
+++ b/file_systems/common/blockcache/blockcache.go
@@ -151,7 +151,12 @@ func WrapStream(
 		// Resizing the stream is allowed.
 		resizeCb = func(newTotalBlocks c.LogicalBlock) error {
 			truncator := stream.(c.Truncator)
-			return truncator.Truncate(int64(newTotalBlocks) * int64(bytesPerBlock))
+			err := truncator.Truncate(int64(newTotalBlocks) * int64(bytesPerBlock))
+			if err == nil {
+				// The callbacks must accept the new blocks.
+				totalBlocks = uint(newTotalBlocks)
+			}
+			return err
 		}
 	} else if allowResize {
 		// The caller allows resizing but the stream doesn't support Truncate().
-- 
2.43.0


From 5d9a00ca6ab481af2d01ce1b1b9a5d91814606f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:49 +0000
Subject: [PATCH 06/46] fix: basicstream: Read advances the stream pointer on a
 short read at EOF

---
 file_systems/common/basicstream/basicstream.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/file_systems/common/basicstream/basicstream.go b/file_systems/common/basicstream/basicstream.go
index e555f38..be2b2b8 100644
--- a/file_systems/common/basicstream/basicstream.go
+++ b/file_systems/common/basicstream/basicstream.go
@@ -78,9 +78,7 @@ func (stream *BasicStream) Close() error {
 // Read implements [io.Reader].
 func (stream *BasicStream) Read(buffer []byte) (int, error) {
 	totalRead, err := stream.ReadAt(buffer, stream.position)
-	if err == nil {
-		stream.position += int64(totalRead)
-	}
+	stream.position += int64(totalRead)
 	return totalRead, err
 }
 
-- 
2.43.0


From 89ddc42f161decfb8445b8b89579c7d4b12b8e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:49 +0000
Subject: [PATCH 07/46] fix: basicstream: negative offsets are an error, not a
 panic

---
 file_systems/common/basicstream/basicstream.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/file_systems/common/basicstream/basicstream.go b/file_systems/common/basicstream/basicstream.go
index be2b2b8..bd2c08c 100644
--- a/file_systems/common/basicstream/basicstream.go
+++ b/file_systems/common/basicstream/basicstream.go
@@ -88,6 +88,12 @@ func (stream *BasicStream) ReadAt(buffer []byte, offset int64) (int, error) {
 		return 0, disko.ErrNotPermitted
 	}
 
+	if offset < 0 {
+		return 0, disko.ErrInvalidArgument.WithMessage(
+			fmt.Sprintf("can't read from negative offset %d", offset),
+		)
+	}
+
 	// The address computations below assume we're reading at least one byte. If
 	// the target buffer is empty, we have nothing further to do.
 	bufLen := int64(len(buffer))
@@ -275,6 +281,12 @@ func (stream *BasicStream) implWriteAt(buffer []byte, offset int64) (int, error)
 		return 0, disko.ErrNotPermitted
 	}
 
+	if offset < 0 {
+		return 0, disko.ErrInvalidArgument.WithMessage(
+			fmt.Sprintf("can't write to negative offset %d", offset),
+		)
+	}
+
 	bufLen := int64(len(buffer))
 	startBlock, startOffset := stream.convertLinearAddr(offset)
 	lastBlock, _ := stream.convertLinearAddr(offset + bufLen)
-- 
2.43.0


From c1e6eb52ac7c6e6785634df96370ddc31b40c57b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:49 +0000
Subject: [PATCH 08/46] fix: basicstream: writes mark exactly the blocks they
 modify and update the size

---
 .../common/basicstream/basicstream.go         | 21 +++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/file_systems/common/basicstream/basicstream.go b/file_systems/common/basicstream/basicstream.go
index bd2c08c..4412876 100644
--- a/file_systems/common/basicstream/basicstream.go
+++ b/file_systems/common/basicstream/basicstream.go
@@ -287,9 +287,15 @@ func (stream *BasicStream) implWriteAt(buffer []byte, offset int64) (int, error)
 		)
 	}
 
+	// The address computations below assume we're writing at least one byte.
 	bufLen := int64(len(buffer))
+	if bufLen == 0 {
+		return 0, nil
+	}
+
 	startBlock, startOffset := stream.convertLinearAddr(offset)
-	lastBlock, _ := stream.convertLinearAddr(offset + bufLen)
+	lastBlock, _ := stream.convertLinearAddr(offset + bufLen - 1)
+	numBlocks := uint(lastBlock-startBlock) + 1
 
 	// If we're going to end up writing past the end of the stream we need to
 	// grow the file first.
@@ -300,13 +306,24 @@ func (stream *BasicStream) implWriteAt(buffer []byte, offset int64) (int, error)
 		}
 	}
 
-	targetSlice, err := stream.data.GetSlice(startBlock, uint(lastBlock)+1)
+	targetSlice, err := stream.data.GetSlice(startBlock, numBlocks)
 	if err != nil {
 		return 0, err
 	}
 
 	copy(targetSlice[startOffset:], buffer)
 
+	err = stream.data.MarkBlockRangeDirty(startBlock, numBlocks)
+	if err != nil {
+		return 0, err
+	}
+
+	// The write may have gone past the end of the file without needing any new
+	// blocks.
+	if offset+bufLen > stream.size {
+		stream.size = offset + bufLen
+	}
+
 	if stream.ioFlags.Synchronous() {
 		return len(buffer), stream.Sync()
 	}
-- 
2.43.0


From 833274021ba32969e5387cc93ccdb12b95d64f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:49 +0000
Subject: [PATCH 09/46] fix: basicstream: growing a stream exposes null bytes,
 not stale block contents

---
 .../common/basicstream/basicstream.go         | 33 +++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/file_systems/common/basicstream/basicstream.go b/file_systems/common/basicstream/basicstream.go
index 4412876..c8ddf24 100644
--- a/file_systems/common/basicstream/basicstream.go
+++ b/file_systems/common/basicstream/basicstream.go
@@ -243,6 +243,12 @@ func (stream *BasicStream) Truncate(size int64) error {
 		return err
 	}
 
+	// Blocks can contain stale data past the old end of the file.
+	err = stream.zeroFill(stream.size, size)
+	if err != nil {
+		return err
+	}
+
 	stream.size = size
 
 	if stream.ioFlags.Synchronous() {
@@ -251,6 +257,26 @@ func (stream *BasicStream) Truncate(size int64) error {
 	return nil
 }
 
+// zeroFill overwrites the bytes in the range [start, end) with nulls. The range
+// must lie within the blocks of the cache. If it's empty, nothing happens.
+func (stream *BasicStream) zeroFill(start, end int64) error {
+	if start >= end {
+		return nil
+	}
+
+	firstBlock, startOffset := stream.convertLinearAddr(start)
+	lastBlock, _ := stream.convertLinearAddr(end - 1)
+	numBlocks := uint(lastBlock-firstBlock) + 1
+
+	targetSlice, err := stream.data.GetSlice(firstBlock, numBlocks)
+	if err != nil {
+		return err
+	}
+
+	clear(targetSlice[startOffset : startOffset+uint(end-start)])
+	return stream.data.MarkBlockRangeDirty(firstBlock, numBlocks)
+}
+
 // Write implements [io.Writer].
 func (stream *BasicStream) Write(buffer []byte) (int, error) {
 	var err error
@@ -306,6 +332,13 @@ func (stream *BasicStream) implWriteAt(buffer []byte, offset int64) (int, error)
 		}
 	}
 
+	// Anything between the current end of the file and the first byte we write
+	// must read back as null bytes.
+	err := stream.zeroFill(stream.size, offset)
+	if err != nil {
+		return 0, err
+	}
+
 	targetSlice, err := stream.data.GetSlice(startBlock, numBlocks)
 	if err != nil {
 		return 0, err
-- 
2.43.0


From 345cf6599b1d5e07dc428cc2ce6607a7b92e4d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:49 +0000
Subject: [PATCH 10/46] fix: basicstream: ReadFrom and WriteTo report write
 errors

---
 file_systems/common/basicstream/basicstream.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/file_systems/common/basicstream/basicstream.go b/file_systems/common/basicstream/basicstream.go
index c8ddf24..c3d48da 100644
--- a/file_systems/common/basicstream/basicstream.go
+++ b/file_systems/common/basicstream/basicstream.go
@@ -155,12 +155,12 @@ func (stream *BasicStream) ReadFrom(r io.Reader) (n int64, err error) {
 		totalBytesRead += int64(lastReadSize)
 
 		_, writeErr := stream.Write(buffer[:lastReadSize])
-		if readErr == io.EOF {
+		if writeErr != nil {
+			return totalBytesRead, writeErr
+		} else if readErr == io.EOF {
 			return totalBytesRead, nil
 		} else if readErr != nil {
 			return totalBytesRead, readErr
-		} else if writeErr != nil {
-			return totalBytesRead, writeErr
 		}
 	}
 }
@@ -388,8 +388,11 @@ func (stream *BasicStream) WriteTo(w io.Writer) (n int64, err error) {
 		// Always write the data we've read in regardless of whether an error
 		// occurred or not.
 		if blockSize > 0 {
-			w.Write(buffer[:blockSize])
-			totalWritten += int64(blockSize)
+			n, writeErr := w.Write(buffer[:blockSize])
+			totalWritten += int64(n)
+			if writeErr != nil {
+				return totalWritten, writeErr
+			}
 		}
 
 		// If we hit EOF, we're done. Any other error is fatal.
-- 
2.43.0


From 6ad8a41eb8652374d76069da1441168ae5b03647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:26 +0000
Subject: [PATCH 11/46] fix: driver: object handle wrapper delegates to the
 handle it wraps

---
 driver/driver.go   | 53 ++++++++++++++++++++++++++++++----------------
 driver/file.go     |  4 ++--
 driver/fsobject.go | 17 +++++++++++----
 3 files changed, 50 insertions(+), 24 deletions(-)

diff --git a/driver/driver.go b/driver/driver.go
index 114a5ba..7bf02c2 100644
--- a/driver/driver.go
+++ b/driver/driver.go
@@ -201,7 +201,8 @@ func (driver *BaseDriver) getContentsOfObject(
 func (driver *BaseDriver) getExtObjectInDir(
 	baseName string, parentObject extObjectHandle,
 ) (extObjectHandle, disko.DriverError) {
-	object, err := driver.implementation.GetObject(baseName, parentObject)
+	object, err := driver.implementation.GetObject(
+		baseName, unwrapObjectHandle(parentObject))
 	if err != nil {
 		return nil, err
 	}
@@ -217,7 +218,7 @@ func (driver *BaseDriver) createExtObject(
 ) (extObjectHandle, disko.DriverError) {
 	rawObject, err := driver.implementation.CreateObject(
 		baseName,
-		parentObject,
+		unwrapObjectHandle(parentObject),
 		perm,
 	)
 	if err != nil {
@@ -328,7 +329,7 @@ func (driver *BaseDriver) Chmod(name string, mode os.FileMode) error {
 		return err
 	}
 
-	chmodObject, ok := object.(disko.SupportsChmodHandle)
+	chmodObject, ok := unwrapObjectHandle(object).(disko.SupportsChmodHandle)
 	if !ok {
 		return disko.ErrNotImplemented
 	}
@@ -342,7 +343,7 @@ func (driver *BaseDriver) Chown(name string, uid, gid int) error {
 		return err
 	}
 
-	chmownObject, ok := object.(disko.SupportsChownHandle)
+	chmownObject, ok := unwrapObjectHandle(object).(disko.SupportsChownHandle)
 	if !ok {
 		return disko.ErrNotImplemented
 	}
@@ -359,7 +360,7 @@ func (driver *BaseDriver) Lchown(name string, uid, gid int) error {
 		return err
 	}
 
-	chmownObject, ok := object.(disko.SupportsChownHandle)
+	chmownObject, ok := unwrapObjectHandle(object).(disko.SupportsChownHandle)
 	if !ok {
 		return disko.ErrNotImplemented
 	}
@@ -373,7 +374,7 @@ func (driver *BaseDriver) Chtimes(name string, atime time.Time, mtime time.Time)
 		return err
 	}
 
-	chmownObject, ok := object.(disko.SupportsChtimesHandle)
+	chmownObject, ok := unwrapObjectHandle(object).(disko.SupportsChtimesHandle)
 	if !ok {
 		return disko.ErrNotImplemented
 	}
@@ -449,7 +450,12 @@ func (driver *BaseDriver) ReadDir(path string) ([]disko.DirectoryEntry, error) {
 func (driver *BaseDriver) readDir(
 	directory extObjectHandle,
 ) ([]disko.DirectoryEntry, error) {
-	direntNames, err := directory.(disko.SupportsListDirHandle).ListDir()
+	lister, ok := unwrapObjectHandle(directory).(disko.SupportsListDirHandle)
+	if !ok {
+		return nil, disko.ErrNotADirectory.WithMessage(directory.AbsolutePath())
+	}
+
+	direntNames, err := lister.ListDir()
 	if err != nil {
 		return nil, err
 	}
@@ -461,7 +467,8 @@ func (driver *BaseDriver) readDir(
 			continue
 		}
 
-		direntObject, err := driver.implementation.GetObject(name, directory)
+		direntObject, err := driver.implementation.GetObject(
+			name, unwrapObjectHandle(directory))
 		if err != nil {
 			return output, err
 		}
@@ -502,7 +509,8 @@ func (driver *BaseDriver) Link(oldname, newname string) error {
 		return err
 	}
 
-	_, err = linker.CreateHardLink(oldHandle, parentHandle, targetName)
+	_, err = linker.CreateHardLink(
+		unwrapObjectHandle(oldHandle), unwrapObjectHandle(parentHandle), targetName)
 	return err
 }
 
@@ -601,7 +609,12 @@ func (driver *BaseDriver) Remove(path string) error {
 	if stat.IsDir() {
 		// Caller wants to remove a directory. The directory must be empty, i.e.
 		// must at most only contain the "." and ".." entries.
-		names, err := object.(disko.SupportsListDirHandle).ListDir()
+		lister, ok := unwrapObjectHandle(object).(disko.SupportsListDirHandle)
+		if !ok {
+			return disko.ErrNotSupported.WithMessage(absPath)
+		}
+
+		names, err := lister.ListDir()
 		if err != nil {
 			return err
 		}
@@ -688,7 +701,8 @@ func (driver *BaseDriver) Mkdir(path string, perm os.FileMode) error {
 		)
 	}
 
-	object, err := driver.implementation.CreateObject(baseName, parentObject, perm)
+	object, err := driver.implementation.CreateObject(
+		baseName, unwrapObjectHandle(parentObject), perm)
 	if err == nil {
 		object.Close()
 	}
@@ -716,7 +730,8 @@ func (driver *BaseDriver) MkdirAll(path string, perm os.FileMode) error {
 	}
 	defer parentObject.Close()
 
-	object, err := driver.implementation.CreateObject(baseName, parentObject, perm)
+	object, err := driver.implementation.CreateObject(
+		baseName, unwrapObjectHandle(parentObject), perm)
 	if err == nil {
 		object.Close()
 	}
@@ -738,7 +753,7 @@ func (driver *BaseDriver) RemoveAll(path string) error {
 
 	// Block an attempt at `rm -rf /`, because some clown is gonna try it.
 	root := driver.implementation.GetRootDirectory()
-	if root.SameAs(directory) {
+	if root.SameAs(unwrapObjectHandle(directory)) {
 		return disko.ErrPermissionDenied.WithMessage(
 			"you can't remove the root directory",
 		)
@@ -754,7 +769,12 @@ func (driver *BaseDriver) RemoveAll(path string) error {
 func (driver *BaseDriver) removeDirectory(directory extObjectHandle) error {
 	var err error
 
-	direntNames, err := directory.(disko.SupportsListDirHandle).ListDir()
+	lister, ok := unwrapObjectHandle(directory).(disko.SupportsListDirHandle)
+	if !ok {
+		return disko.ErrNotSupported.WithMessage(directory.AbsolutePath())
+	}
+
+	direntNames, err := lister.ListDir()
 	if err != nil {
 		return err
 	}
@@ -773,10 +793,7 @@ func (driver *BaseDriver) removeDirectory(directory extObjectHandle) error {
 
 		// If this is a directory, recursively delete its contents.
 		if direntStat.IsDir() {
-			absPath := posixpath.Join(directory.AbsolutePath(), name)
-			wrappedDirent := wrapObjectHandle(dirent, absPath)
-
-			rmErr := driver.removeDirectory(wrappedDirent)
+			rmErr := driver.removeDirectory(dirent)
 			if rmErr != nil {
 				dirent.Close()
 				return rmErr
diff --git a/driver/file.go b/driver/file.go
index c6d7dff..0fa601a 100644
--- a/driver/file.go
+++ b/driver/file.go
@@ -144,7 +144,7 @@ func (file *File) Chdir() error {
 }
 
 func (file *File) Chmod(mode os.FileMode) error {
-	chmodHandle, ok := file.objectHandle.(disko.SupportsChmodHandle)
+	chmodHandle, ok := unwrapObjectHandle(file.objectHandle).(disko.SupportsChmodHandle)
 	if ok {
 		return chmodHandle.Chmod(mode)
 	}
@@ -152,7 +152,7 @@ func (file *File) Chmod(mode os.FileMode) error {
 }
 
 func (file *File) Chown(uid, gid int) error {
-	chownHandle, ok := file.objectHandle.(disko.SupportsChownHandle)
+	chownHandle, ok := unwrapObjectHandle(file.objectHandle).(disko.SupportsChownHandle)
 	if ok {
 		return chownHandle.Chown(uid, gid)
 	}
diff --git a/driver/fsobject.go b/driver/fsobject.go
index 65f008c..40baa41 100644
--- a/driver/fsobject.go
+++ b/driver/fsobject.go
@@ -8,15 +8,14 @@ type extObjectHandle interface {
 }
 
 type tExtObjectHandle struct {
-	extObjectHandle
+	disko.ObjectHandle
 	absolutePath string
 }
 
-// wrapObjectHandle combines
+// wrapObjectHandle combines an object handle with its absolute path.
 func wrapObjectHandle(handle disko.ObjectHandle, absolutePath string) extObjectHandle {
 	return &tExtObjectHandle{
-		// FIXME (dargueta): This is hella wrong
-		//extObjectHandle.ObjectHandle: handle,
+		ObjectHandle: handle,
 		absolutePath: absolutePath,
 	}
 }
@@ -24,3 +23,13 @@ func wrapObjectHandle(handle disko.ObjectHandle, absolutePath string) extObjectH
 func (xh tExtObjectHandle) AbsolutePath() string {
 	return xh.absolutePath
 }
+
+// unwrapObjectHandle returns the handle created by the file system implementation.
+// This is what must be passed to the implementation, and what must be checked for
+// optional functionality such as [disko.SupportsListDirHandle].
+func unwrapObjectHandle(handle disko.ObjectHandle) disko.ObjectHandle {
+	if wrapper, ok := handle.(*tExtObjectHandle); ok {
+		return wrapper.ObjectHandle
+	}
+	return handle
+}
-- 
2.43.0


From 1a376881738be2e24c1016935e4229112bb0b286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:26 +0000
Subject: [PATCH 12/46] fix: driver: resolving a path below the top level
 recursed forever

---
 driver/driver.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/driver/driver.go b/driver/driver.go
index 7bf02c2..ed5b9a8 100644
--- a/driver/driver.go
+++ b/driver/driver.go
@@ -123,7 +123,9 @@ func (driver *BaseDriver) resolveSymlink(
 func (driver *BaseDriver) getObjectAtPathNoFollow(
 	path string,
 ) (extObjectHandle, disko.DriverError) {
-	if path == "/" || path == "" {
+	// Parent directories computed using `Split` have a trailing slash.
+	path = posixpath.Clean("/" + path)
+	if path == "/" {
 		root := driver.implementation.GetRootDirectory()
 		return wrapObjectHandle(root, path), nil
 	}
-- 
2.43.0


From 393691c5684aa4b6f5355e925a732d57dec51c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:27 +0000
Subject: [PATCH 13/46] fix: driver: "." is the working directory, not the root
 directory

---
 driver/driver.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/driver/driver.go b/driver/driver.go
index ed5b9a8..44d8812 100644
--- a/driver/driver.go
+++ b/driver/driver.go
@@ -41,9 +41,6 @@ func New(
 // from the current working directory (see [Getwd] for more).
 func (driver *BaseDriver) NormalizePath(path string) string {
 	path = posixpath.Clean(filepath.ToSlash(path))
-	if path == "." {
-		path = "/"
-	}
 	if posixpath.IsAbs(path) {
 		return path
 	}
-- 
2.43.0


From ab609595bc329fed870a791082ab23ff50a23ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:27 +0000
Subject: [PATCH 14/46] fix: driver: symlinks: detect all cycles, resolve
 relative targets, Lstat must not follow

---
 driver/driver.go | 97 +++++++++++++++++++++++++-----------------------
 1 file changed, 51 insertions(+), 46 deletions(-)

diff --git a/driver/driver.go b/driver/driver.go
index 44d8812..10be83a 100644
--- a/driver/driver.go
+++ b/driver/driver.go
@@ -49,9 +49,11 @@ func (driver *BaseDriver) NormalizePath(path string) string {
 
 // resolveSymlink dereferences `object` (if it's a symlink), following multiple
 // levels of indirection if needed to get to a file system object. If `object`
-// isn't a symlink, this becomes a no-op and returns the handle unmodified.
+// isn't a symlink, this becomes a no-op and returns the handle unmodified. If it
+// is a symlink, its handle is closed. `visited` has the absolute paths of all
+// symlinks that are currently being resolved.
 func (driver *BaseDriver) resolveSymlink(
-	object extObjectHandle,
+	object extObjectHandle, visited map[string]bool,
 ) (extObjectHandle, disko.DriverError) {
 	stat := object.Stat()
 	if !stat.IsSymlink() {
@@ -59,15 +61,31 @@ func (driver *BaseDriver) resolveSymlink(
 	}
 
 	// Symbolic links can result in cycles, so we need to keep track of all the
-	// paths we visit. If we resolve a symlink to a path that's already in the
-	// dictionary, we found a loop and must fail.
+	// links we visit. If we hit a link that's already in the dictionary, we found
+	// a loop and must fail.
 	pathCache := make(map[string]bool)
+	for path := range visited {
+		pathCache[path] = true
+	}
 
 	originalPath := object.AbsolutePath()
-	currentPath := originalPath
-	pathCache[currentPath] = true
 
 	for stat.IsSymlink() {
+		currentPath := object.AbsolutePath()
+		_, exists := pathCache[currentPath]
+		if exists {
+			object.Close()
+			return nil,
+				disko.ErrLinkCycleDetected.WithMessage(
+					fmt.Sprintf(
+						"found cycle resolving symlink %q: hit %q twice",
+						originalPath,
+						currentPath,
+					),
+				)
+		}
+		pathCache[currentPath] = true
+
 		symlinkText, err := driver.getContentsOfObject(object)
 		object.Close()
 
@@ -83,30 +101,21 @@ func (driver *BaseDriver) resolveSymlink(
 				)
 		}
 
-		// Compute the next path in this chain; if it's already in the cache
-		// then we hit a cycle.
-		nextPath := driver.NormalizePath(string(symlinkText))
-		_, exists := pathCache[nextPath]
-		if exists {
-			return nil,
-				disko.ErrLinkCycleDetected.WithMessage(
-					fmt.Sprintf(
-						"found cycle resolving symlink %q: hit %q twice",
-						originalPath,
-						nextPath,
-					),
-				)
+		// Compute the next path in this chain. Relative targets are relative to
+		// the directory the link is in.
+		nextPath := string(symlinkText)
+		if !posixpath.IsAbs(nextPath) {
+			nextPath = posixpath.Join(posixpath.Dir(currentPath), nextPath)
 		}
 
 		// Get the object at the next path but don't dereference it.
-		object, err = driver.getObjectAtPathNoFollow(nextPath)
+		object, err = driver.lookUpNoFollow(nextPath, pathCache)
 		if err != nil {
 			return nil, err
 		}
 
-		// Update the latest path and file stats for the next loop iteration.
+		// Update the latest file stats for the next loop iteration.
 		stat = object.Stat()
-		currentPath = nextPath
 	}
 
 	return object, nil
@@ -119,6 +128,14 @@ func (driver *BaseDriver) resolveSymlink(
 // `path` must be a normalized absolute path.
 func (driver *BaseDriver) getObjectAtPathNoFollow(
 	path string,
+) (extObjectHandle, disko.DriverError) {
+	return driver.lookUpNoFollow(path, nil)
+}
+
+// lookUpNoFollow implements [getObjectAtPathNoFollow]. `visited` is the set of
+// symlinks being resolved, see [resolveSymlink].
+func (driver *BaseDriver) lookUpNoFollow(
+	path string, visited map[string]bool,
 ) (extObjectHandle, disko.DriverError) {
 	// Parent directories computed using `Split` have a trailing slash.
 	path = posixpath.Clean("/" + path)
@@ -128,7 +145,7 @@ func (driver *BaseDriver) getObjectAtPathNoFollow(
 	}
 
 	parentPath, baseName := posixpath.Split(path)
-	parentObject, err := driver.getObjectAtPathFollowingLink(parentPath)
+	parentObject, err := driver.lookUpFollowingLink(parentPath, visited)
 	if err != nil {
 		return nil, err
 	}
@@ -154,23 +171,19 @@ func (driver *BaseDriver) getObjectAtPathNoFollow(
 func (driver *BaseDriver) getObjectAtPathFollowingLink(
 	path string,
 ) (extObjectHandle, disko.DriverError) {
-	object, err := driver.getObjectAtPathNoFollow(path)
+	return driver.lookUpFollowingLink(path, nil)
+}
+
+// lookUpFollowingLink implements [getObjectAtPathFollowingLink]. `visited` is the
+// set of symlinks being resolved, see [resolveSymlink].
+func (driver *BaseDriver) lookUpFollowingLink(
+	path string, visited map[string]bool,
+) (extObjectHandle, disko.DriverError) {
+	object, err := driver.lookUpNoFollow(path, visited)
 	if err != nil {
 		return nil, err
 	}
-
-	stat := object.Stat()
-	for stat.IsSymlink() {
-		nextObject, err := driver.resolveSymlink(object)
-		object.Close()
-		if err != nil {
-			return nil, err
-		}
-		stat = nextObject.Stat()
-		object = nextObject
-	}
-
-	return object, nil
+	return driver.resolveSymlink(object, visited)
 }
 
 // getContentsOfObject returns the contents of an object as it exists on the
@@ -547,15 +560,7 @@ func (driver *BaseDriver) Lstat(path string) (disko.FileStat, error) {
 	}
 	defer object.Close()
 
-	// Unconditionally try to resolve `object` as a symlink. If it isn't one,
-	// nothing happens and we get `object` back.
-	realObject, err := driver.resolveSymlink(object)
-	if err != nil {
-		return disko.FileStat{}, err
-	}
-	defer realObject.Close()
-
-	return realObject.Stat(), nil
+	return object.Stat(), nil
 }
 
 // Create creates a file and opens it for reading and writing. It fails if the
-- 
2.43.0


From 184f3698ba55212fbd9df9958b39c55f0983f024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:52 +0000
Subject: [PATCH 15/46] fix: driver: files are resized in bytes, not blocks

---
 driver/file.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/driver/file.go b/driver/file.go
index 0fa601a..2506858 100644
--- a/driver/file.go
+++ b/driver/file.go
@@ -103,6 +103,7 @@ func NewFileFromObjectHandle(
 	object extObjectHandle,
 	ioFlags disko.IOFlags,
 ) (File, error) {
+	stat := object.Stat()
 	fetchCb := func(index common.LogicalBlock, buffer []byte) error {
 		return object.ReadBlocks(index, buffer)
 	}
@@ -110,10 +111,9 @@ func NewFileFromObjectHandle(
 		return object.WriteBlocks(index, buffer)
 	}
 	resizeCb := func(newSize common.LogicalBlock) error {
-		return object.Resize(uint64(newSize))
+		return object.Resize(uint64(newSize) * uint64(stat.BlockSize))
 	}
 
-	stat := object.Stat()
 	blockCache := blockcache.New(
 		uint(stat.BlockSize),
 		uint(stat.NumBlocks),
-- 
2.43.0


From dc74f54ae127306d97b4e9aded4e74d930ec07b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:53 +0000
Subject: [PATCH 16/46] fix: driver: close object handles on all paths

---
 driver/driver.go | 29 +++++++++++++++++++++++------
 driver/file.go   |  7 ++++++-
 2 files changed, 29 insertions(+), 7 deletions(-)

diff --git a/driver/driver.go b/driver/driver.go
index 10be83a..dd825d6 100644
--- a/driver/driver.go
+++ b/driver/driver.go
@@ -188,7 +188,7 @@ func (driver *BaseDriver) lookUpFollowingLink(
 
 // getContentsOfObject returns the contents of an object as it exists on the
 // file system, regardless of whether it's a file or directory. Symbolic links
-// are not followed.
+// are not followed. The caller is responsible for closing `object`.
 func (driver *BaseDriver) getContentsOfObject(
 	object extObjectHandle,
 ) ([]byte, disko.DriverError) {
@@ -196,7 +196,6 @@ func (driver *BaseDriver) getContentsOfObject(
 	if err != nil {
 		return nil, disko.ErrIOFailed.Wrap(err)
 	}
-	defer handle.Close()
 
 	stat := object.Stat()
 	buffer := make([]byte, int(stat.Size))
@@ -304,10 +303,15 @@ func (driver *BaseDriver) OpenFile(
 
 	stat := object.Stat()
 	if !stat.IsFile() {
+		object.Close()
 		return File{}, disko.ErrIsADirectory.WithMessage(absPath)
 	}
 
-	return NewFileFromObjectHandle(driver, object, flags)
+	file, err := NewFileFromObjectHandle(driver, object, flags)
+	if err != nil {
+		object.Close()
+	}
+	return file, err
 }
 
 func (driver *BaseDriver) Chdir(path string) error {
@@ -340,6 +344,7 @@ func (driver *BaseDriver) Chmod(name string, mode os.FileMode) error {
 	if err != nil {
 		return err
 	}
+	defer object.Close()
 
 	chmodObject, ok := unwrapObjectHandle(object).(disko.SupportsChmodHandle)
 	if !ok {
@@ -354,6 +359,7 @@ func (driver *BaseDriver) Chown(name string, uid, gid int) error {
 	if err != nil {
 		return err
 	}
+	defer object.Close()
 
 	chmownObject, ok := unwrapObjectHandle(object).(disko.SupportsChownHandle)
 	if !ok {
@@ -371,6 +377,7 @@ func (driver *BaseDriver) Lchown(name string, uid, gid int) error {
 	if err != nil {
 		return err
 	}
+	defer object.Close()
 
 	chmownObject, ok := unwrapObjectHandle(object).(disko.SupportsChownHandle)
 	if !ok {
@@ -385,6 +392,7 @@ func (driver *BaseDriver) Chtimes(name string, atime time.Time, mtime time.Time)
 	if err != nil {
 		return err
 	}
+	defer object.Close()
 
 	chmownObject, ok := unwrapObjectHandle(object).(disko.SupportsChtimesHandle)
 	if !ok {
@@ -505,13 +513,16 @@ func (driver *BaseDriver) Link(oldname, newname string) error {
 		return err
 	}
 
+	defer oldHandle.Close()
+
 	absNew := driver.NormalizePath(newname)
 	// Technically checking to see if the file exists before attempting the link
 	// can result in a TOCTOU bug. If this were a more serious project, we would
 	// do some sort of locking or push the check into the underlying implementation.
 	// This is supposed to be a fun little thing, so I'm ignoring that edge case.
-	_, err = driver.getObjectAtPathFollowingLink(absNew)
+	existing, err := driver.getObjectAtPathFollowingLink(absNew)
 	if err == nil {
+		existing.Close()
 		return disko.ErrExists.WithMessage("hard link target already exists: " + absNew)
 	}
 
@@ -521,9 +532,14 @@ func (driver *BaseDriver) Link(oldname, newname string) error {
 		return err
 	}
 
-	_, err = linker.CreateHardLink(
+	defer parentHandle.Close()
+
+	linkHandle, err := linker.CreateHardLink(
 		unwrapObjectHandle(oldHandle), unwrapObjectHandle(parentHandle), targetName)
-	return err
+	if err != nil {
+		return err
+	}
+	return linkHandle.Close()
 }
 
 func (driver *BaseDriver) Readlink(path string) (string, error) {
@@ -757,6 +773,7 @@ func (driver *BaseDriver) RemoveAll(path string) error {
 
 	// Block an attempt at `rm -rf /`, because some clown is gonna try it.
 	root := driver.implementation.GetRootDirectory()
+	defer root.Close()
 	if root.SameAs(unwrapObjectHandle(directory)) {
 		return disko.ErrPermissionDenied.WithMessage(
 			"you can't remove the root directory",
diff --git a/driver/file.go b/driver/file.go
index 2506858..1120c9c 100644
--- a/driver/file.go
+++ b/driver/file.go
@@ -160,7 +160,12 @@ func (file *File) Chown(uid, gid int) error {
 }
 
 func (file *File) Close() error {
-	return file.BasicStream.Close()
+	err := file.BasicStream.Close()
+	closeErr := file.objectHandle.Close()
+	if err != nil {
+		return err
+	}
+	return closeErr
 }
 
 func (file *File) Name() string {
-- 
2.43.0


From 27ddd1c6c7b538150b8dd0e937f007b7a009c2ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:53 +0000
Subject: [PATCH 17/46] fix: driver: WriteFile reports errors writing out the
 data on close

---
 driver/driver.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/driver/driver.go b/driver/driver.go
index dd825d6..11927c0 100644
--- a/driver/driver.go
+++ b/driver/driver.go
@@ -689,10 +689,15 @@ func (driver *BaseDriver) WriteFile(
 	if err != nil {
 		return err
 	}
-	defer handle.Close()
 
 	_, err = handle.Write(data)
-	return err
+
+	// Data is written out when the file is closed, so we must not lose the error.
+	closeErr := handle.Close()
+	if err != nil {
+		return err
+	}
+	return closeErr
 }
 
 func (driver *BaseDriver) Mkdir(path string, perm os.FileMode) error {
-- 
2.43.0


From 382eea7a7567e399e3b50640b33b3e28ff4dda5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:48 +0000
Subject: [PATCH 18/46] fix: driver: never create an object that already
 exists, MkdirAll reports errors

CreateObject is promised to never be called for an existing object. MkdirAll
dropped the result of creating the parents and then used a nil parent.
---
 driver/driver.go | 74 ++++++++++++++++++++++++++++++++----------------
 1 file changed, 49 insertions(+), 25 deletions(-)

diff --git a/driver/driver.go b/driver/driver.go
index 11927c0..6fec833 100644
--- a/driver/driver.go
+++ b/driver/driver.go
@@ -222,11 +222,40 @@ func (driver *BaseDriver) getExtObjectInDir(
 	return wrapObjectHandle(object, absPath), nil
 }
 
+// checkDoesNotExist returns [disko.ErrExists] if there is already an object named
+// `baseName` in a directory. Symbolic links are not followed, so a dangling link
+// exists too.
+func (driver *BaseDriver) checkDoesNotExist(
+	baseName string, parentObject extObjectHandle,
+) disko.DriverError {
+	absPath := posixpath.Join(parentObject.AbsolutePath(), baseName)
+	if baseName == "" {
+		// The root directory is the only object with no name of its own.
+		return disko.ErrExists.WithMessage(absPath)
+	}
+
+	existing, err := driver.getExtObjectInDir(baseName, parentObject)
+	if err == nil {
+		existing.Close()
+		return disko.ErrExists.WithMessage(absPath)
+	} else if !errors.Is(err, disko.ErrNotFound) {
+		return err
+	}
+	return nil
+}
+
 // createExtObject is a wrapper around [DriverImplementation.CreateObject] that
 // returns an [extObjectHandle].
 func (driver *BaseDriver) createExtObject(
 	baseName string, parentObject extObjectHandle, perm os.FileMode,
 ) (extObjectHandle, disko.DriverError) {
+	// Implementations are promised that CreateObject is never called for anything
+	// that already exists.
+	err := driver.checkDoesNotExist(baseName, parentObject)
+	if err != nil {
+		return nil, err
+	}
+
 	rawObject, err := driver.implementation.CreateObject(
 		baseName,
 		unwrapObjectHandle(parentObject),
@@ -726,41 +755,36 @@ func (driver *BaseDriver) Mkdir(path string, perm os.FileMode) error {
 		)
 	}
 
-	object, err := driver.implementation.CreateObject(
-		baseName, unwrapObjectHandle(parentObject), perm)
-	if err == nil {
-		object.Close()
+	object, err := driver.createExtObject(baseName, parentObject, perm)
+	if err != nil {
+		return err
 	}
-	return err
+	return object.Close()
 }
 
 func (driver *BaseDriver) MkdirAll(path string, perm os.FileMode) error {
 	absPath := driver.NormalizePath(path)
-	parentDir, baseName := posixpath.Split(absPath)
 
-	// Force the permissions flags to indicate this is a directory so that the
-	// caller doesn't have to remember to do it themselves.
-	perm &^= os.ModeType
-	perm |= os.ModeDir
-
-	parentObject, err := driver.getObjectAtPathFollowingLink(parentDir)
-	if err != nil {
-		if errors.Is(err, disko.ErrNotFound) {
-			// Parent directory doesn't exist, create it.
-			driver.MkdirAll(parentDir, perm)
-		} else {
-			// Different error, we won't handle it.
-			return err
+	object, err := driver.getObjectAtPathFollowingLink(absPath)
+	if err == nil {
+		// Already exists, there's nothing to do provided it's a directory.
+		defer object.Close()
+		stat := object.Stat()
+		if !stat.IsDir() {
+			return disko.ErrNotADirectory.WithMessage(absPath)
 		}
+		return nil
+	} else if !errors.Is(err, disko.ErrNotFound) {
+		// Different error, we won't handle it.
+		return err
 	}
-	defer parentObject.Close()
 
-	object, err := driver.implementation.CreateObject(
-		baseName, unwrapObjectHandle(parentObject), perm)
-	if err == nil {
-		object.Close()
+	// Create the parent directories if they don't exist, then the directory.
+	parentErr := driver.MkdirAll(posixpath.Dir(absPath), perm)
+	if parentErr != nil {
+		return parentErr
 	}
-	return err
+	return driver.Mkdir(absPath, perm)
 }
 
 func (driver *BaseDriver) RemoveAll(path string) error {
-- 
2.43.0


From bacf19267e0f8a55f86ae9b0db332eb3ad0e3231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:49 +0000
Subject: [PATCH 19/46] fix: driver: O_CREATE|O_EXCL fails if the file already
 exists

---
 driver/driver.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/driver/driver.go b/driver/driver.go
index 6fec833..dddb60b 100644
--- a/driver/driver.go
+++ b/driver/driver.go
@@ -328,6 +328,9 @@ func (driver *BaseDriver) OpenFile(
 		if err != nil {
 			return File{}, err
 		}
+	} else if ioFlags.Create() && ioFlags.Exclusive() {
+		object.Close()
+		return File{}, disko.ErrExists.WithMessage(absPath)
 	}
 
 	stat := object.Stat()
-- 
2.43.0


From 208b1d44af954154678b6c2ae1425e3fc6f71aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:18 +0000
Subject: [PATCH 20/46] fix: driver: Remove and RemoveAll remove what they are
 asked to remove

Both followed symlinks and so deleted what the link points to. Remove would
try to unlink the root directory, and RemoveAll left the directory itself.
---
 driver/driver.go | 35 ++++++++++++++++++++++++++---------
 1 file changed, 26 insertions(+), 9 deletions(-)

diff --git a/driver/driver.go b/driver/driver.go
index dddb60b..faeff16 100644
--- a/driver/driver.go
+++ b/driver/driver.go
@@ -651,7 +651,8 @@ func removeDotsFromSlice(arr []string) []string {
 
 func (driver *BaseDriver) Remove(path string) error {
 	absPath := driver.NormalizePath(path)
-	object, err := driver.getObjectAtPathFollowingLink(absPath)
+	// Symbolic links are removed themselves, not what they point to.
+	object, err := driver.getObjectAtPathNoFollow(absPath)
 	if err != nil {
 		return err
 	}
@@ -659,6 +660,12 @@ func (driver *BaseDriver) Remove(path string) error {
 
 	stat := object.Stat()
 	if stat.IsDir() {
+		if driver.isRootDirectory(object) {
+			return disko.ErrPermissionDenied.WithMessage(
+				"you can't remove the root directory",
+			)
+		}
+
 		// Caller wants to remove a directory. The directory must be empty, i.e.
 		// must at most only contain the "." and ".." entries.
 		lister, ok := unwrapObjectHandle(object).(disko.SupportsListDirHandle)
@@ -681,9 +688,9 @@ func (driver *BaseDriver) Remove(path string) error {
 				fmt.Sprintf("can't remove %q: directory not empty", absPath),
 			)
 		}
-	} else if !stat.IsFile() {
+	} else if !stat.IsFile() && !stat.IsSymlink() {
 		return disko.ErrInvalidArgument.WithMessage(
-			fmt.Sprintf("can't remove %q: not a file or directory", absPath),
+			fmt.Sprintf("can't remove %q: not a file, directory, or link", absPath),
 		)
 	}
 
@@ -792,7 +799,7 @@ func (driver *BaseDriver) MkdirAll(path string, perm os.FileMode) error {
 
 func (driver *BaseDriver) RemoveAll(path string) error {
 	path = driver.NormalizePath(path)
-	directory, err := driver.getObjectAtPathFollowingLink(path)
+	directory, err := driver.getObjectAtPathNoFollow(path)
 	if err != nil {
 		return err
 	}
@@ -804,18 +811,28 @@ func (driver *BaseDriver) RemoveAll(path string) error {
 	}
 
 	// Block an attempt at `rm -rf /`, because some clown is gonna try it.
-	root := driver.implementation.GetRootDirectory()
-	defer root.Close()
-	if root.SameAs(unwrapObjectHandle(directory)) {
+	if driver.isRootDirectory(directory) {
 		return disko.ErrPermissionDenied.WithMessage(
 			"you can't remove the root directory",
 		)
 	}
 
-	return driver.removeDirectory(directory)
+	rmErr := driver.removeDirectory(directory)
+	if rmErr != nil {
+		return rmErr
+	}
+	return directory.Unlink()
+}
+
+// isRootDirectory determines if an object is the root directory of the image.
+func (driver *BaseDriver) isRootDirectory(object extObjectHandle) bool {
+	root := driver.implementation.GetRootDirectory()
+	defer root.Close()
+	return root.SameAs(unwrapObjectHandle(object))
 }
 
-// removeDirectory is equivalent to `rm -rf` for a directory handle.
+// removeDirectory is equivalent to `rm -rf DIRECTORY/*` for a directory handle,
+// i.e. the directory itself is not removed.
 //
 // Deletion is depth-first, and terminates on the first error encountered.
 // Ownership and other permissions are not checked.
-- 
2.43.0


From 030e8170c7ec3c103919399c6c68adbd006ad5e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:46 +0000
Subject: [PATCH 21/46] fix: driver: Link honors the guarantees made to
 HardLinkImplementer

The source was not checked to be a file and the target directory was not
checked at all. Errors looking up the target were taken to mean that it does
not exist, and dangling links at the target were missed.
---
 driver/driver.go | 35 ++++++++++++++++++++++++++---------
 1 file changed, 26 insertions(+), 9 deletions(-)

diff --git a/driver/driver.go b/driver/driver.go
index faeff16..802311d 100644
--- a/driver/driver.go
+++ b/driver/driver.go
@@ -547,17 +547,14 @@ func (driver *BaseDriver) Link(oldname, newname string) error {
 
 	defer oldHandle.Close()
 
-	absNew := driver.NormalizePath(newname)
-	// Technically checking to see if the file exists before attempting the link
-	// can result in a TOCTOU bug. If this were a more serious project, we would
-	// do some sort of locking or push the check into the underlying implementation.
-	// This is supposed to be a fun little thing, so I'm ignoring that edge case.
-	existing, err := driver.getObjectAtPathFollowingLink(absNew)
-	if err == nil {
-		existing.Close()
-		return disko.ErrExists.WithMessage("hard link target already exists: " + absNew)
+	// Implementations are promised that the source is never a directory.
+	oldStat := oldHandle.Stat()
+	if oldStat.IsDir() {
+		return disko.ErrIsADirectory.WithMessage(
+			"can't create hard link to directory: " + absOld)
 	}
 
+	absNew := driver.NormalizePath(newname)
 	targetParentPath, targetName := posixpath.Split(absNew)
 	parentHandle, err := driver.getObjectAtPathFollowingLink(targetParentPath)
 	if err != nil {
@@ -566,6 +563,26 @@ func (driver *BaseDriver) Link(oldname, newname string) error {
 
 	defer parentHandle.Close()
 
+	parentStat := parentHandle.Stat()
+	if !parentStat.IsDir() {
+		return disko.ErrNotADirectory.WithMessage(
+			fmt.Sprintf(
+				"cannot create %q: %q is not a directory",
+				absNew,
+				targetParentPath,
+			),
+		)
+	}
+
+	// Technically checking to see if the file exists before attempting the link
+	// can result in a TOCTOU bug. If this were a more serious project, we would
+	// do some sort of locking or push the check into the underlying implementation.
+	// This is supposed to be a fun little thing, so I'm ignoring that edge case.
+	err = driver.checkDoesNotExist(targetName, parentHandle)
+	if err != nil {
+		return err
+	}
+
 	linkHandle, err := linker.CreateHardLink(
 		unwrapObjectHandle(oldHandle), unwrapObjectHandle(parentHandle), targetName)
 	if err != nil {
-- 
2.43.0


From 47408d1aa5ec9a60bb543151da9e691b43247bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:47 +0000
Subject: [PATCH 22/46] fix: driver: Chmod passes only permission bits to the
 implementation

---
 driver/driver.go | 6 +++++-
 driver/file.go   | 2 +-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/driver/driver.go b/driver/driver.go
index 802311d..f9e3701 100644
--- a/driver/driver.go
+++ b/driver/driver.go
@@ -370,6 +370,10 @@ func (driver *BaseDriver) chdirToObject(object extObjectHandle) error {
 	return nil
 }
 
+// modePermissionBits masks out everything that isn't a permission bit, since that's
+// all [disko.SupportsChmodHandle] accepts.
+const modePermissionBits = os.ModePerm | os.ModeSetuid | os.ModeSetgid | os.ModeSticky
+
 func (driver *BaseDriver) Chmod(name string, mode os.FileMode) error {
 	absPath := driver.NormalizePath(name)
 	object, err := driver.getObjectAtPathFollowingLink(absPath)
@@ -382,7 +386,7 @@ func (driver *BaseDriver) Chmod(name string, mode os.FileMode) error {
 	if !ok {
 		return disko.ErrNotImplemented
 	}
-	return chmodObject.Chmod(mode)
+	return chmodObject.Chmod(mode & modePermissionBits)
 }
 
 func (driver *BaseDriver) Chown(name string, uid, gid int) error {
diff --git a/driver/file.go b/driver/file.go
index 1120c9c..a97341c 100644
--- a/driver/file.go
+++ b/driver/file.go
@@ -146,7 +146,7 @@ func (file *File) Chdir() error {
 func (file *File) Chmod(mode os.FileMode) error {
 	chmodHandle, ok := unwrapObjectHandle(file.objectHandle).(disko.SupportsChmodHandle)
 	if ok {
-		return chmodHandle.Chmod(mode)
+		return chmodHandle.Chmod(mode & modePermissionBits)
 	}
 	return disko.ErrNotSupported
 }
-- 
2.43.0


From 2a006ca6ae627553663457991b66f1dbc3fd4dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:04 +0000
Subject: [PATCH 23/46] fix: driver: operations that modify the image require
 the matching mount flag

Only OpenFile checked whether the image was mounted writable.
---
 driver/driver.go | 64 ++++++++++++++++++++++++++++++++++++++++++++++++
 driver/file.go   | 12 +++++++++
 2 files changed, 76 insertions(+)

diff --git a/driver/driver.go b/driver/driver.go
index f9e3701..f9e4779 100644
--- a/driver/driver.go
+++ b/driver/driver.go
@@ -36,6 +36,19 @@ func New(
 	}
 }
 
+// requireMountFlags fails with [disko.ErrReadOnlyFileSystem] if the image wasn't
+// mounted with all of the given flags.
+func (driver *BaseDriver) requireMountFlags(
+	flags disko.MountFlags, path string,
+) disko.DriverError {
+	if driver.mountFlags&flags != flags {
+		return disko.ErrReadOnlyFileSystem.WithMessage(
+			fmt.Sprintf("can't modify %q: image mounted without permission", path),
+		)
+	}
+	return nil
+}
+
 // NormalizePath converts a file path to an absolute path using `/` as the
 // separators, and interprets `.` and `..` entries. Relative paths are rebased
 // from the current working directory (see [Getwd] for more).
@@ -299,6 +312,12 @@ func (driver *BaseDriver) OpenFile(
 		if errors.Is(err, disko.ErrNotFound) {
 			// File does not exist, can we create it?
 			if ioFlags.Create() {
+				permErr := driver.requireMountFlags(
+					disko.MountFlagsAllowInsert, absPath)
+				if permErr != nil {
+					return File{}, permErr
+				}
+
 				// To create the missing file, we need to get a handle for its
 				// parent directory, then call CreateObject() for the file in
 				// that directory.
@@ -376,6 +395,11 @@ const modePermissionBits = os.ModePerm | os.ModeSetuid | os.ModeSetgid | os.Mode
 
 func (driver *BaseDriver) Chmod(name string, mode os.FileMode) error {
 	absPath := driver.NormalizePath(name)
+	permErr := driver.requireMountFlags(disko.MountFlagsAllowAdminister, absPath)
+	if permErr != nil {
+		return permErr
+	}
+
 	object, err := driver.getObjectAtPathFollowingLink(absPath)
 	if err != nil {
 		return err
@@ -391,6 +415,11 @@ func (driver *BaseDriver) Chmod(name string, mode os.FileMode) error {
 
 func (driver *BaseDriver) Chown(name string, uid, gid int) error {
 	absPath := driver.NormalizePath(name)
+	permErr := driver.requireMountFlags(disko.MountFlagsAllowAdminister, absPath)
+	if permErr != nil {
+		return permErr
+	}
+
 	object, err := driver.getObjectAtPathFollowingLink(absPath)
 	if err != nil {
 		return err
@@ -409,6 +438,11 @@ func (driver *BaseDriver) Chown(name string, uid, gid int) error {
 // Surely there's a cleaner way to do this.
 func (driver *BaseDriver) Lchown(name string, uid, gid int) error {
 	absPath := driver.NormalizePath(name)
+	permErr := driver.requireMountFlags(disko.MountFlagsAllowAdminister, absPath)
+	if permErr != nil {
+		return permErr
+	}
+
 	object, err := driver.getObjectAtPathNoFollow(absPath)
 	if err != nil {
 		return err
@@ -424,6 +458,11 @@ func (driver *BaseDriver) Lchown(name string, uid, gid int) error {
 
 func (driver *BaseDriver) Chtimes(name string, atime time.Time, mtime time.Time) error {
 	absPath := driver.NormalizePath(name)
+	permErr := driver.requireMountFlags(disko.MountFlagsAllowWrite, absPath)
+	if permErr != nil {
+		return permErr
+	}
+
 	object, err := driver.getObjectAtPathFollowingLink(absPath)
 	if err != nil {
 		return err
@@ -559,6 +598,11 @@ func (driver *BaseDriver) Link(oldname, newname string) error {
 	}
 
 	absNew := driver.NormalizePath(newname)
+	permErr := driver.requireMountFlags(disko.MountFlagsAllowInsert, absNew)
+	if permErr != nil {
+		return permErr
+	}
+
 	targetParentPath, targetName := posixpath.Split(absNew)
 	parentHandle, err := driver.getObjectAtPathFollowingLink(targetParentPath)
 	if err != nil {
@@ -672,6 +716,11 @@ func removeDotsFromSlice(arr []string) []string {
 
 func (driver *BaseDriver) Remove(path string) error {
 	absPath := driver.NormalizePath(path)
+	permErr := driver.requireMountFlags(disko.MountFlagsAllowDelete, absPath)
+	if permErr != nil {
+		return permErr
+	}
+
 	// Symbolic links are removed themselves, not what they point to.
 	object, err := driver.getObjectAtPathNoFollow(absPath)
 	if err != nil {
@@ -721,6 +770,11 @@ func (driver *BaseDriver) Remove(path string) error {
 // Truncate sets the size of a file to 0.
 func (driver *BaseDriver) Truncate(path string) error {
 	absPath := driver.NormalizePath(path)
+	permErr := driver.requireMountFlags(disko.MountFlagsAllowWrite, absPath)
+	if permErr != nil {
+		return permErr
+	}
+
 	object, err := driver.getObjectAtPathFollowingLink(absPath)
 	if err != nil {
 		return err
@@ -767,6 +821,11 @@ func (driver *BaseDriver) Mkdir(path string, perm os.FileMode) error {
 	perm |= os.ModeDir
 
 	absPath := driver.NormalizePath(path)
+	permErr := driver.requireMountFlags(disko.MountFlagsAllowInsert, absPath)
+	if permErr != nil {
+		return permErr
+	}
+
 	parentDir, baseName := posixpath.Split(absPath)
 
 	parentObject, err := driver.getObjectAtPathFollowingLink(parentDir)
@@ -820,6 +879,11 @@ func (driver *BaseDriver) MkdirAll(path string, perm os.FileMode) error {
 
 func (driver *BaseDriver) RemoveAll(path string) error {
 	path = driver.NormalizePath(path)
+	permErr := driver.requireMountFlags(disko.MountFlagsAllowDelete, path)
+	if permErr != nil {
+		return permErr
+	}
+
 	directory, err := driver.getObjectAtPathNoFollow(path)
 	if err != nil {
 		return err
diff --git a/driver/file.go b/driver/file.go
index a97341c..f810e02 100644
--- a/driver/file.go
+++ b/driver/file.go
@@ -144,6 +144,12 @@ func (file *File) Chdir() error {
 }
 
 func (file *File) Chmod(mode os.FileMode) error {
+	permErr := file.owningDriver.requireMountFlags(
+		disko.MountFlagsAllowAdminister, file.objectHandle.AbsolutePath())
+	if permErr != nil {
+		return permErr
+	}
+
 	chmodHandle, ok := unwrapObjectHandle(file.objectHandle).(disko.SupportsChmodHandle)
 	if ok {
 		return chmodHandle.Chmod(mode & modePermissionBits)
@@ -152,6 +158,12 @@ func (file *File) Chmod(mode os.FileMode) error {
 }
 
 func (file *File) Chown(uid, gid int) error {
+	permErr := file.owningDriver.requireMountFlags(
+		disko.MountFlagsAllowAdminister, file.objectHandle.AbsolutePath())
+	if permErr != nil {
+		return permErr
+	}
+
 	chownHandle, ok := unwrapObjectHandle(file.objectHandle).(disko.SupportsChownHandle)
 	if ok {
 		return chownHandle.Chown(uid, gid)
-- 
2.43.0


From 1757cdbd61b17e0dfe5314d5a929cb846f116800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:05 +0000
Subject: [PATCH 24/46] fix: driver: File.ReadDir only returns io.EOF if the
 entries are limited

---
 driver/file.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/driver/file.go b/driver/file.go
index f810e02..4cee671 100644
--- a/driver/file.go
+++ b/driver/file.go
@@ -213,10 +213,14 @@ func (file *File) ReadDir(n int) ([]os.DirEntry, error) {
 
 	result := make([]os.DirEntry, numToCopy)
 
-	// If there are no entries remaining, return an empty slice and io.EOF.
+	// If there are no entries remaining, return an empty slice and, if the caller
+	// wanted a limited number of them, io.EOF.
 	if entriesRemaining == 0 {
 		file.lastReadDirResult = nil
 		file.readDirResultPointer = 0
+		if n <= 0 {
+			return result, nil
+		}
 		return result, io.EOF
 	}
 
-- 
2.43.0


From 8914539c507b614e609aa3f6a510c0d0281c3d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:06 +0000
Subject: [PATCH 25/46] fix: driver: methods promoted from nil interfaces
 panicked

DirectoryEntry had no Stat and NopObjectHandle no SameAs or Close, so calling
these ended up in the embedded interface, which is never set. Chtimes had the
wrong signature for SupportsChtimesHandle.
---
 driver/dirent.go    |  4 ++++
 driver/nopobject.go | 12 +++++++++++-
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/driver/dirent.go b/driver/dirent.go
index 7579a01..1e0a743 100644
--- a/driver/dirent.go
+++ b/driver/dirent.go
@@ -39,6 +39,10 @@ func (dirent DirectoryEntry) Info() (os.FileInfo, error) {
 	return dirent, nil
 }
 
+func (dirent DirectoryEntry) Stat() disko.FileStat {
+	return dirent.stat
+}
+
 func (dirent DirectoryEntry) Size() int64 {
 	return dirent.stat.Size
 }
diff --git a/driver/nopobject.go b/driver/nopobject.go
index 2c34e6f..6f12f20 100644
--- a/driver/nopobject.go
+++ b/driver/nopobject.go
@@ -69,7 +69,7 @@ func (obj NopObjectHandle) Chtimes(
 	lastModified,
 	lastChanged,
 	deletedAt time.Time,
-) error {
+) disko.DriverError {
 	return disko.ErrNotImplemented
 }
 
@@ -83,6 +83,16 @@ func (obj NopObjectHandle) Name() string {
 	return ""
 }
 
+// SameAs always returns false.
+func (obj NopObjectHandle) SameAs(other disko.ObjectHandle) bool {
+	return false
+}
+
+// Close does nothing.
+func (obj NopObjectHandle) Close() error {
+	return disko.ErrNotImplemented
+}
+
 // AbsolutePath returns an empty string.
 func (obj NopObjectHandle) AbsolutePath() string {
 	return ""
-- 
2.43.0


From 58369c7bcea7ab061d7ce804380ee01f72a95140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:46 +0000
Subject: [PATCH 26/46] fix: fat8: an image could not be mounted

The size of the image was only ever set when formatting, so reading the FAT
failed. Reading the very last block of an image was refused as well. Padding
at the end of the FAT was taken to be free clusters.
---
 file_systems/fat8/driver.go | 15 +++++++++++++--
 file_systems/fat8/iobase.go |  2 +-
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/file_systems/fat8/driver.go b/file_systems/fat8/driver.go
index 1fae1ba..385b4fc 100644
--- a/file_systems/fat8/driver.go
+++ b/file_systems/fat8/driver.go
@@ -67,6 +67,11 @@ func (driver *FAT8Driver) Mount(flags disko.MountFlags) error {
 		return disko.ErrFileSystemCorrupted.Wrap(err)
 	}
 	driver.geometry = geo
+	driver.stat = disko.FSStat{
+		BlockSize:     128,
+		TotalBlocks:   uint64(offset) / 128,
+		MaxNameLength: 10,
+	}
 
 	// All FATs are identical on a clean volume, so we only need to store the
 	// first one. We might add dirty volume checking later.
@@ -76,13 +81,19 @@ func (driver *FAT8Driver) Mount(flags disko.MountFlags) error {
 	}
 	driver.fat = fat
 
-	// Build a list of all currently free clusters.
-	for i, clusterNumber := range fat {
+	// Build a list of all currently free clusters. The FAT is padded out to a
+	// whole number of sectors, so entries past the last cluster are not valid.
+	driver.freeClusters = nil
+	for i, clusterNumber := range fat[:geo.TotalClusters] {
 		if clusterNumber == 0xff {
 			driver.freeClusters = append(driver.freeClusters, uint8(i+1))
 		}
 	}
 
+	freeBlocks := uint64(len(driver.freeClusters)) * uint64(geo.SectorsPerCluster)
+	driver.stat.BlocksFree = freeBlocks
+	driver.stat.BlocksAvailable = freeBlocks
+
 	// Get the info sector, which always immediately precedes the FATs. The first
 	// byte of the info sector tells us what the default attributes should be for
 	// new files; the rest is not defined by the standard.
diff --git a/file_systems/fat8/iobase.go b/file_systems/fat8/iobase.go
index d9dab62..e2a1d51 100644
--- a/file_systems/fat8/iobase.go
+++ b/file_systems/fat8/iobase.go
@@ -10,7 +10,7 @@ import (
 // BLOCK-LEVEL ACCESS ==========================================================
 
 func (driver *FAT8Driver) ReadDiskBlocks(start PhysicalBlock, count uint) ([]byte, error) {
-	if (uint(start) + count) >= uint(driver.stat.TotalBlocks) {
+	if (uint(start) + count) > uint(driver.stat.TotalBlocks) {
 		return nil, fmt.Errorf(
 			"refusing to read past end of image: %d blocks at %d exceeds limit of %d",
 			start,
-- 
2.43.0


From e9701100a5527925b1b49676543a24b12ec7beb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:48 +0000
Subject: [PATCH 27/46] fix: fat8: clusters are read from and written to the
 same place

Reading a file cluster was off by one cluster, and writing any cluster took
clusters to be the size of a track.
---
 file_systems/fat8/iobase.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/file_systems/fat8/iobase.go b/file_systems/fat8/iobase.go
index e2a1d51..45a0b15 100644
--- a/file_systems/fat8/iobase.go
+++ b/file_systems/fat8/iobase.go
@@ -88,7 +88,7 @@ func (driver *FAT8Driver) WriteAbsoluteCluster(clusterID PhysicalCluster, data [
 			len(data))
 	}
 
-	physicalBlock := uint(clusterID-1) * driver.geometry.SectorsPerTrack
+	physicalBlock := uint(clusterID-1) * driver.geometry.SectorsPerCluster
 	return driver.WriteDiskBlocks(PhysicalBlock(physicalBlock), data)
 }
 
@@ -145,8 +145,7 @@ func (driver *FAT8Driver) ReadFileCluster(
 	}
 
 	physicalCluster := dirent.clusters[cluster]
-	physicalBlock := PhysicalBlock(uint(physicalCluster) * driver.geometry.SectorsPerCluster)
-	return driver.ReadDiskBlocks(physicalBlock, driver.geometry.SectorsPerCluster)
+	return driver.ReadAbsoluteCluster(physicalCluster)
 }
 
 func (driver *FAT8Driver) WriteFileCluster(
-- 
2.43.0


From 69c44453232354f95aa675bcd50bc0a2b4a40627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:49 +0000
Subject: [PATCH 28/46] fix: fat8: formatting reserves the clusters of the
 directory track

It reserved the clusters with the numbers of the track and the one after it,
and so the directory was free to be overwritten by files. A failure to resize
the image was ignored.
---
 file_systems/fat8/formattingdriver.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/file_systems/fat8/formattingdriver.go b/file_systems/fat8/formattingdriver.go
index 6ea1815..a83c58f 100644
--- a/file_systems/fat8/formattingdriver.go
+++ b/file_systems/fat8/formattingdriver.go
@@ -60,7 +60,10 @@ func (driver *FAT8Driver) FormatImage(options disks.BasicFormatterOptions) error
 
 	// Create a blank image filled with null bytes
 	fileSize := 128 * geo.TrueTotalTracks * geo.SectorsPerTrack
-	driver.image.Truncate(int64(fileSize))
+	err = driver.image.Truncate(int64(fileSize))
+	if err != nil {
+		return err
+	}
 
 	// According to the documentation, a newly formatted image must have the
 	// directory entries filled with 0xFF. Write out FF to all the dirents, up
@@ -86,7 +89,7 @@ func (driver *FAT8Driver) FormatImage(options disks.BasicFormatterOptions) error
 	// reserved by putting 0xFE in its cluster entry. (It's always the middle
 	// track.)
 	fat := bytes.Repeat([]byte{0xff}, int(geo.SectorsPerFAT)*128)
-	directoryClusterNumber := uint(geo.DirectoryTrackStart) / geo.SectorsPerTrack
+	directoryClusterNumber := uint(geo.DirectoryTrackStart) / geo.SectorsPerCluster
 	fat[directoryClusterNumber] = 0xfe
 	fat[directoryClusterNumber+1] = 0xfe
 
-- 
2.43.0


From 535d31954b00ae44fb030ffea7ba9a71945ed76b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:50 +0000
Subject: [PATCH 29/46] fix: fat8: raw filenames are always nine bytes

---
 file_systems/fat8/common.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/file_systems/fat8/common.go b/file_systems/fat8/common.go
index 13eac3f..01ce8b7 100644
--- a/file_systems/fat8/common.go
+++ b/file_systems/fat8/common.go
@@ -92,6 +92,14 @@ func FilenameToBytes(name string) ([]byte, error) {
 		return nil, disko.ErrInvalidArgument.WithMessage("filename must not be empty")
 	}
 
+	// Anything that isn't ASCII would take up more than one byte per character.
+	for i := 0; i < len(name); i++ {
+		if name[i] >= 0x80 {
+			return nil, disko.ErrInvalidArgument.WithMessage(
+				fmt.Sprintf("filename can only have ASCII characters: %q", name))
+		}
+	}
+
 	parts := strings.SplitN(name, ".", 2)
 
 	// Unless we got an empty string, this will always have at least one element,
@@ -130,6 +138,11 @@ func FilenameToBytes(name string) ([]byte, error) {
 // user-friendly form.
 // TODO(dargueta): Validate binary data
 func BytesToFilename(rawName []byte) (string, error) {
+	if len(rawName) != 9 {
+		return "", disko.ErrInvalidArgument.WithMessage(
+			fmt.Sprintf("raw filename must be exactly nine bytes, got %d", len(rawName)))
+	}
+
 	stem := bytes.TrimRight(rawName[:6], " ")
 	extension := bytes.TrimRight(rawName[6:], " ")
 
-- 
2.43.0


From 7ef4d2295fd6a995d0c0fce3cce4f89149c20b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:50 +0000
Subject: [PATCH 30/46] fix: fat: reading the boot sector always panicked

encoding/binary cannot set unexported fields.
---
 file_systems/fat/common.go | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/file_systems/fat/common.go b/file_systems/fat/common.go
index 43e7195..1c015ff 100644
--- a/file_systems/fat/common.go
+++ b/file_systems/fat/common.go
@@ -25,13 +25,13 @@ type RawFATBootSectorWithBPB struct {
 	ReservedSectors   uint16
 	NumFATs           uint8
 	RootEntryCount    uint16
-	totalSectors16    uint16
+	TotalSectors16    uint16
 	Media             uint8
-	sectorsPerFAT16   uint16
+	SectorsPerFAT16   uint16
 	SectorsPerTrack   uint16
 	NumHeads          uint16
 	HiddenSectors     uint32
-	totalSectors32    uint32
+	TotalSectors32    uint32
 }
 
 // FATBootSector extends RawFATBootSectorWithBPB with precomputed fields useful in other
@@ -83,17 +83,17 @@ func NewFATBootSectorFromStream(reader io.Reader) (*FATBootSector, error) {
 	}
 
 	var sectorsPerFAT uint
-	if rawHeader.sectorsPerFAT16 != 0 {
-		sectorsPerFAT = uint(rawHeader.sectorsPerFAT16)
+	if rawHeader.SectorsPerFAT16 != 0 {
+		sectorsPerFAT = uint(rawHeader.SectorsPerFAT16)
 	} else {
 		sectorsPerFAT = uint(sectorsPerFAT32)
 	}
 
 	var totalSectors uint
-	if rawHeader.totalSectors16 != 0 {
-		totalSectors = uint(rawHeader.totalSectors16)
+	if rawHeader.TotalSectors16 != 0 {
+		totalSectors = uint(rawHeader.TotalSectors16)
 	} else {
-		totalSectors = uint(rawHeader.totalSectors32)
+		totalSectors = uint(rawHeader.TotalSectors32)
 	}
 
 	// The number of sectors taken up by the root directory. On FAT32 systems, this will
@@ -163,13 +163,13 @@ func NewFATBootSectorFromStream(reader io.Reader) (*FATBootSector, error) {
 			ReservedSectors:   rawHeader.ReservedSectors,
 			NumFATs:           rawHeader.NumFATs,
 			RootEntryCount:    rawHeader.RootEntryCount,
-			totalSectors16:    rawHeader.totalSectors16,
+			TotalSectors16:    rawHeader.TotalSectors16,
 			Media:             rawHeader.Media,
-			sectorsPerFAT16:   rawHeader.sectorsPerFAT16,
+			SectorsPerFAT16:   rawHeader.SectorsPerFAT16,
 			SectorsPerTrack:   rawHeader.SectorsPerTrack,
 			NumHeads:          rawHeader.NumHeads,
 			HiddenSectors:     rawHeader.HiddenSectors,
-			totalSectors32:    rawHeader.totalSectors32,
+			TotalSectors32:    rawHeader.TotalSectors32,
 		},
 		SectorsPerFAT:     sectorsPerFAT,
 		TotalFATSectors:   totalFATSectors,
-- 
2.43.0


From cb97eaeaf03d174b8977b0ada603b10b56f4d746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:27 +0000
Subject: [PATCH 31/46] fix: fat: check the boot sector before dividing,
 compute the layout correctly

A corrupt boot sector caused a division by zero. The number of data sectors
counted the FATs instead of excluding them, the first data sector did not
account for the FATs, and the root directory size overflowed 16 bits.
---
 file_systems/fat/common.go | 32 +++++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/file_systems/fat/common.go b/file_systems/fat/common.go
index 1c015ff..0119557 100644
--- a/file_systems/fat/common.go
+++ b/file_systems/fat/common.go
@@ -96,15 +96,6 @@ func NewFATBootSectorFromStream(reader io.Reader) (*FATBootSector, error) {
 		totalSectors = uint(rawHeader.TotalSectors32)
 	}
 
-	// The number of sectors taken up by the root directory. On FAT32 systems, this will
-	// be 0.
-	rootDirSectors := uint(
-		((rawHeader.RootEntryCount * 32) + (rawHeader.BytesPerSector - 1)) / rawHeader.BytesPerSector)
-
-	totalFATSectors := uint(rawHeader.NumFATs) * sectorsPerFAT
-	dataSectors := totalSectors - uint(rawHeader.ReservedSectors) + totalFATSectors + uint(rootDirSectors)
-	totalClusters := dataSectors / uint(rawHeader.SectorsPerCluster)
-
 	// BytesPerSector must be 512, 1024, 2048, or 4096.
 	switch rawHeader.BytesPerSector {
 	case 512:
@@ -135,6 +126,25 @@ func NewFATBootSectorFromStream(reader io.Reader) (*FATBootSector, error) {
 		return nil, disko.ErrFileSystemCorrupted.WithMessage(message)
 	}
 
+	// The number of sectors taken up by the root directory. On FAT32 systems, this will
+	// be 0.
+	bytesPerSector := uint(rawHeader.BytesPerSector)
+	rootDirSectors :=
+		((uint(rawHeader.RootEntryCount) * DirentSize) + (bytesPerSector - 1)) / bytesPerSector
+
+	totalFATSectors := uint(rawHeader.NumFATs) * sectorsPerFAT
+	firstDataSector := uint(rawHeader.ReservedSectors) + totalFATSectors + rootDirSectors
+	if firstDataSector > totalSectors {
+		message := fmt.Sprintf(
+			"corruption detected: first data sector is %d but the volume only has %d sectors",
+			firstDataSector,
+			totalSectors)
+		return nil, disko.ErrFileSystemCorrupted.WithMessage(message)
+	}
+
+	dataSectors := totalSectors - firstDataSector
+	totalClusters := dataSectors / uint(rawHeader.SectorsPerCluster)
+
 	fatVersion := DetermineFATVersion(totalClusters)
 	if fatVersion == 32 && rootDirSectors != 0 {
 		message := fmt.Sprintf(
@@ -176,8 +186,8 @@ func NewFATBootSectorFromStream(reader io.Reader) (*FATBootSector, error) {
 		RootDirSectors:    rootDirSectors,
 		BytesPerCluster:   bytesPerCluster,
 		TotalClusters:     totalClusters,
-		TotalDataSectors:  totalSectors - (uint(rawHeader.ReservedSectors) + totalFATSectors + rootDirSectors),
-		FirstDataSector:   SectorID(uint(rawHeader.ReservedSectors) + rootDirSectors),
+		TotalDataSectors:  dataSectors,
+		FirstDataSector:   SectorID(firstDataSector),
 		FATVersion:        fatVersion,
 		DirentsPerCluster: int(bytesPerCluster) / DirentSize,
 	}
-- 
2.43.0


From b6f750f2177bcc374786a8d008a193075cc3426b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:28 +0000
Subject: [PATCH 32/46] fix: fat: clusters are read in full and from the right
 sectors

Clusters are numbered from 2. Only one sector was read, from an offset scaled
by the number of sectors to read.
---
 file_systems/fat/driverbase.go | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/file_systems/fat/driverbase.go b/file_systems/fat/driverbase.go
index c250927..240dbc6 100644
--- a/file_systems/fat/driverbase.go
+++ b/file_systems/fat/driverbase.go
@@ -35,23 +35,30 @@ type FATDriver struct {
 
 func (drv *FATDriver) getFirstSectorOfCluster(cluster ClusterID) (SectorID, error) {
 	bootSector := drv.fs.GetBootSector()
+
+	// Clusters are numbered from 2, as the first two entries in the FAT are reserved.
+	if cluster < 2 || uint(cluster-2) >= bootSector.TotalClusters {
+		return 0, disko.ErrArgumentOutOfRange.WithMessage(
+			fmt.Sprintf(
+				"cluster 0x%x not in range [2, %d)", cluster, bootSector.TotalClusters+2))
+	}
 	return bootSector.FirstDataSector + SectorID(
-		uint32(bootSector.SectorsPerCluster)*uint32(cluster)), nil
+		uint32(bootSector.SectorsPerCluster)*uint32(cluster-2)), nil
 }
 
 func (drv *FATDriver) readAbsoluteSectors(sector SectorID, numSectors uint) ([]byte, error) {
 	bootSector := drv.fs.GetBootSector()
 
-	buffer := make([]byte, bootSector.BytesPerSector)
+	buffer := make([]byte, uint(bootSector.BytesPerSector)*numSectors)
 	diskFile := drv.diskFile.(io.ReaderAt)
 
-	nRead, err := diskFile.ReadAt(buffer, int64(bootSector.BytesPerSector)*int64(sector)*int64(numSectors))
+	nRead, err := diskFile.ReadAt(buffer, int64(bootSector.BytesPerSector)*int64(sector))
 
 	if err != nil {
 		return buffer, err
-	} else if nRead < int(bootSector.BytesPerSector) {
+	} else if nRead < len(buffer) {
 		return nil, fmt.Errorf(
-			"unexpected short read. Wanted %d bytes, got %d", bootSector.BytesPerSector, nRead)
+			"unexpected short read. Wanted %d bytes, got %d", len(buffer), nRead)
 	}
 
 	return buffer, nil
-- 
2.43.0


From e276a41fb114772ac4b2547c3d8a54ad2bafbbad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:29 +0000
Subject: [PATCH 33/46] fix: fat: follow cluster chains up to the end marker,
 detect cycles

The end marker was taken to be an invalid cluster, a cycle in the FAT caused an
infinite loop, and removing a file freed the first clusters on the volume
instead of the ones of the file.
---
 file_systems/fat/driverbase.go | 73 ++++++++++------------------------
 1 file changed, 21 insertions(+), 52 deletions(-)

diff --git a/file_systems/fat/driverbase.go b/file_systems/fat/driverbase.go
index 240dbc6..c5d3918 100644
--- a/file_systems/fat/driverbase.go
+++ b/file_systems/fat/driverbase.go
@@ -79,17 +79,29 @@ func (drv *FATDriver) readCluster(cluster ClusterID) ([]byte, error) {
 //
 // The returned list will always have chainStart as its first member, unless chainStart
 // is an EOF marker (e.g. 0xFFF on FAT12 systems). In this case, the list is empty.
+// The list is also empty if chainStart is 0, as files with no contents have no clusters.
 func (drv *FATDriver) listClusters(chainStart ClusterID) ([]ClusterID, error) {
+	if chainStart == 0 || drv.fs.IsEndOfChain(chainStart) {
+		return []ClusterID{}, nil
+	}
+
 	if !drv.fs.IsValidCluster(chainStart) {
 		return nil, disko.ErrInvalidArgument.WithMessage(
 			fmt.Sprintf("invalid cluster 0x%x cannot start a cluster chain", chainStart))
 	}
 
 	chain := []ClusterID{}
+	visited := make(map[ClusterID]bool)
 	currentCluster := chainStart
 	i := 0
 
 	for !drv.fs.IsEndOfChain(currentCluster) {
+		if visited[currentCluster] {
+			return chain, disko.ErrFileSystemCorrupted.WithMessage(
+				fmt.Sprintf(
+					"cluster %d is in the chain from %d twice", currentCluster, chainStart))
+		}
+		visited[currentCluster] = true
 		chain = append(chain, currentCluster)
 
 		nextCluster, err := drv.fs.GetClusterAtIndex(uint(currentCluster))
@@ -97,7 +109,7 @@ func (drv *FATDriver) listClusters(chainStart ClusterID) ([]ClusterID, error) {
 			return nil, err
 		}
 
-		if !drv.fs.IsValidCluster(nextCluster) {
+		if !drv.fs.IsEndOfChain(nextCluster) && !drv.fs.IsValidCluster(nextCluster) {
 			// Hit an invalid cluster. This is not the same as EOF, and usually indicates
 			// corruption of some sort.
 			return chain, disko.ErrFileSystemCorrupted.WithMessage(
@@ -117,51 +129,6 @@ func (drv *FATDriver) listClusters(chainStart ClusterID) ([]ClusterID, error) {
 
 }
 
-// getClusterInChain returns the ID of the `index`th cluster in the chain starting at
-// `firstCluster`. Indexing begins at 0. A cluster ID of 0 indicates an error occurred,
-// and the Error object in the second return value will indicate what went wrong.
-func (drv *FATDriver) getClusterInChain(firstCluster ClusterID, index uint) (ClusterID, error) {
-	currentCluster := firstCluster
-
-	for i := uint(0); i < index; i++ {
-		nextCluster, err := drv.fs.GetClusterAtIndex(uint(currentCluster))
-		if err != nil {
-			return 0, err
-		}
-
-		if drv.fs.IsEndOfChain(nextCluster) {
-			// Hit EOF
-			return 0, disko.ErrInvalidArgument.WithMessage(
-				fmt.Sprintf(
-					"cluster index %d out of bounds -- chain from 0x%x has %d clusters",
-					index,
-					firstCluster,
-					i+1))
-		} else if !drv.fs.IsValidCluster(nextCluster) {
-			// Hit an invalid cluster. This is not the same as EOF, and usually indicates
-			// corruption of some sort.
-			return 0, disko.ErrFileSystemCorrupted.WithMessage(
-				fmt.Sprintf(
-					"cluster %d followed by invalid cluster 0x%x at index %d in chain from %d",
-					currentCluster,
-					nextCluster,
-					i,
-					firstCluster))
-		}
-		currentCluster = nextCluster
-	}
-
-	return currentCluster, nil
-}
-
-func (drv *FATDriver) readClusterOfDirent(dirent *Dirent, index uint) ([]byte, error) {
-	cluster, err := drv.getClusterInChain(dirent.FirstCluster, index)
-	if err != nil {
-		return nil, err
-	}
-	return drv.readCluster(cluster)
-}
-
 ////////////////////////////////////////////////////////////////////////////////////////
 // Parts of the Driver interface that can be implemented with little knowledge of the
 // underlying file system.
@@ -214,9 +181,13 @@ func (drv *FATDriver) readDirFromDirent(directoryDirent *Dirent) ([]Dirent, erro
 	bootSector := drv.fs.GetBootSector()
 	allDirents := []Dirent{}
 
-	i := uint(0)
-	for {
-		clusterData, err := drv.readClusterOfDirent(directoryDirent, i)
+	allClusters, err := drv.listClusters(directoryDirent.FirstCluster)
+	if err != nil {
+		return nil, err
+	}
+
+	for _, clusterID := range allClusters {
+		clusterData, err := drv.readCluster(clusterID)
 		if err != nil {
 			return nil, err
 		}
@@ -230,8 +201,6 @@ func (drv *FATDriver) readDirFromDirent(directoryDirent *Dirent) ([]Dirent, erro
 		if len(clusterDirents) < bootSector.DirentsPerCluster {
 			break
 		}
-
-		i++
 	}
 
 	return allDirents, nil
@@ -447,7 +416,7 @@ func (drv *FATDriver) Remove(path string) error {
 	// if we hit an error then the dirent still points to the beginning of the cluster
 	// chain and we don't end up with an orphaned chain that would take up disk space.
 	for i := len(fileClusters) - 1; i >= 0; i-- {
-		err = drv.fs.FreeCluster(ClusterID(i))
+		err = drv.fs.FreeCluster(fileClusters[i])
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 5ca827cdf4d782202960dfd609b0c550f02ab7a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:09 +0000
Subject: [PATCH 34/46] fix: fat: resolve paths by component, mark directories
 as such

Paths were split at ":" as if they were the PATH variable, components that are
missing were skipped, and errors listing the root directory led to an empty
directory entry. The mode flags of syscall.Stat_t are not those of os.FileMode,
so directories were never recognized, and read-only files were writable.
---
 file_systems/fat/dirent.go     | 10 +++---
 file_systems/fat/driverbase.go | 62 ++++++++++++++++++++++------------
 2 files changed, 44 insertions(+), 28 deletions(-)

diff --git a/file_systems/fat/dirent.go b/file_systems/fat/dirent.go
index aff9323..ec58339 100644
--- a/file_systems/fat/dirent.go
+++ b/file_systems/fat/dirent.go
@@ -199,24 +199,22 @@ func TimestampFromParts(datePart uint16, timePart uint16, hundredths uint8) time
 }
 
 // AttrFlagsToFileMode converts FAT attribute flags into the mode flags used by
-// [syscall.Stat_t.Mode].
+// [os.FileInfo].
 func AttrFlagsToFileMode(flags uint8) os.FileMode {
 	var mode os.FileMode
 
 	// FAT has no way to mark files as executable or not, so the executable bit
 	// is always set.
 	if (flags & AttrReadOnly) != 0 {
-		mode = 0o755
+		mode = 0o555
 	} else {
 		mode = 0o777
 	}
 
 	if (flags & AttrDirectory) != 0 {
-		mode |= syscall.S_IFDIR
+		mode |= os.ModeDir
 	} else if (flags & AttrDevice) != 0 {
-		mode |= syscall.S_IFCHR
-	} else {
-		mode |= syscall.S_IFREG
+		mode |= os.ModeDevice | os.ModeCharDevice
 	}
 
 	return mode
diff --git a/file_systems/fat/driverbase.go b/file_systems/fat/driverbase.go
index c5d3918..9407ea0 100644
--- a/file_systems/fat/driverbase.go
+++ b/file_systems/fat/driverbase.go
@@ -5,7 +5,9 @@ import (
 	"fmt"
 	"io"
 	"os"
+	posixpath "path"
 	"path/filepath"
+	"strings"
 	"time"
 
 	"github.com/dargueta/disko"
@@ -137,40 +139,49 @@ func (drv *FATDriver) listClusters(chainStart ClusterID) ([]ClusterID, error) {
 // path. If an error occurs, the second return value is an Error object indicating what
 // went wrong.
 func (drv *FATDriver) resolvePathToDirent(path string) (Dirent, error) {
-	cleanedPath := filepath.Clean(path)
-	pathParts := filepath.SplitList(cleanedPath)
+	cleanedPath := posixpath.Clean("/" + filepath.ToSlash(path))
 
-	if len(pathParts) == 0 {
-		// Caller gave us an empty path after components were resolved.
-		return Dirent{}, disko.ErrInvalidArgument.WithMessage(
-			fmt.Sprintf("file path %q resolves to empty path", path))
+	currentDirent := newRootDirent()
+	if cleanedPath == "/" {
+		return currentDirent, nil
 	}
 
-	// Get a listing for the root directory. We need to call a separate function because
-	// unlike FAT 32, FAT 12/16 have fixed-size root directories that aren't actually files.
-	// Drivers must give us a list of directory entries in the root directory.
-	currentDirContents, err := drv.fs.ListRootDirectory()
-	if err != nil {
-		return Dirent{}, nil
-	}
-
-	var currentDirent Dirent
+	for _, component := range strings.Split(cleanedPath[1:], "/") {
+		currentDirContents, err := drv.readDirFromDirent(&currentDirent)
+		if err != nil {
+			return Dirent{}, err
+		}
 
-	for _, component := range pathParts {
+		found := false
 		for _, entry := range currentDirContents {
-			if entry.name == component {
+			if entry.name == component && !entry.isDeleted {
 				currentDirent = entry
-				currentDirContents, err = drv.readDirFromDirent(&entry)
-				if err != nil {
-					return Dirent{}, err
-				}
+				found = true
+				break
 			}
 		}
+
+		if !found {
+			return Dirent{}, disko.ErrNotFound.WithMessage(path)
+		}
 	}
 
 	return currentDirent, nil
 }
 
+// newRootDirent creates a directory entry standing for the root directory, which
+// doesn't have one. Its first cluster is 0, just like that of a `..` entry for the root
+// directory.
+func newRootDirent() Dirent {
+	mode := AttrFlagsToFileMode(AttrDirectory)
+	return Dirent{
+		name:           "/",
+		AttributeFlags: AttrDirectory,
+		mode:           mode,
+		stat:           disko.FileStat{Nlinks: 1, ModeFlags: mode},
+	}
+}
+
 // readDirFromDirent returns a list of the directory entries found in directoryDirent,
 // including the `.` and `..` entries.
 func (drv *FATDriver) readDirFromDirent(directoryDirent *Dirent) ([]Dirent, error) {
@@ -178,6 +189,12 @@ func (drv *FATDriver) readDirFromDirent(directoryDirent *Dirent) ([]Dirent, erro
 		return nil, disko.ErrNotADirectory
 	}
 
+	// Unlike FAT 32, FAT 12/16 have fixed-size root directories that aren't actually
+	// files. Drivers must give us a list of directory entries in the root directory.
+	if directoryDirent.FirstCluster == 0 {
+		return drv.fs.ListRootDirectory()
+	}
+
 	bootSector := drv.fs.GetBootSector()
 	allDirents := []Dirent{}
 
@@ -392,7 +409,8 @@ func (drv *FATDriver) Remove(path string) error {
 		return disko.ErrIsADirectory
 	}
 
-	parentDirent, err := drv.resolvePathToDirent(filepath.Dir(path))
+	parentPath := posixpath.Dir(posixpath.Clean("/" + filepath.ToSlash(path)))
+	parentDirent, err := drv.resolvePathToDirent(parentPath)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 4c6f5bdc9d476d6ba72e26b0640f25f38a3b923c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:11 +0000
Subject: [PATCH 35/46] fix: fat: directory entry fields are at the wrong
 offsets

Every field after the name was read one byte too late, and decoding always
panicked as the size was only given three bytes. Names that are all blank
caused a panic.
---
 file_systems/fat/dirent.go | 40 ++++++++++++++++++++++++--------------
 1 file changed, 25 insertions(+), 15 deletions(-)

diff --git a/file_systems/fat/dirent.go b/file_systems/fat/dirent.go
index ec58339..b8e1d51 100644
--- a/file_systems/fat/dirent.go
+++ b/file_systems/fat/dirent.go
@@ -3,6 +3,7 @@ package fat
 import (
 	"encoding/binary"
 	"errors"
+	"fmt"
 	"os"
 	"strings"
 	"syscall"
@@ -223,18 +224,24 @@ func AttrFlagsToFileMode(flags uint8) os.FileMode {
 // NewRawDirentFromBytes deserializes 32 bytes into a RawDirent struct for further
 // processing.
 func NewRawDirentFromBytes(data []byte) (RawDirent, error) {
+	if len(data) < DirentSize {
+		return RawDirent{}, disko.ErrInvalidArgument.WithMessage(
+			fmt.Sprintf(
+				"raw directory entry must be %d bytes, got %d", DirentSize, len(data)))
+	}
+
 	dirent := RawDirent{
-		AttributeFlags:    data[12],
-		NTReserved:        data[13],
-		CreatedTimeMillis: data[14],
-		CreatedTime:       binary.LittleEndian.Uint16(data[15:17]),
-		CreatedDate:       binary.LittleEndian.Uint16(data[17:19]),
-		LastAccessedDate:  binary.LittleEndian.Uint16(data[19:21]),
-		FirstClusterHigh:  binary.LittleEndian.Uint16(data[21:23]),
-		LastModifiedTime:  binary.LittleEndian.Uint16(data[23:25]),
-		LastModifiedDate:  binary.LittleEndian.Uint16(data[25:27]),
-		FirstClusterLow:   binary.LittleEndian.Uint16(data[27:29]),
-		FileSize:          binary.LittleEndian.Uint32(data[29:32]),
+		AttributeFlags:    data[11],
+		NTReserved:        data[12],
+		CreatedTimeMillis: data[13],
+		CreatedTime:       binary.LittleEndian.Uint16(data[14:16]),
+		CreatedDate:       binary.LittleEndian.Uint16(data[16:18]),
+		LastAccessedDate:  binary.LittleEndian.Uint16(data[18:20]),
+		FirstClusterHigh:  binary.LittleEndian.Uint16(data[20:22]),
+		LastModifiedTime:  binary.LittleEndian.Uint16(data[22:24]),
+		LastModifiedDate:  binary.LittleEndian.Uint16(data[24:26]),
+		FirstClusterLow:   binary.LittleEndian.Uint16(data[26:28]),
+		FileSize:          binary.LittleEndian.Uint32(data[28:32]),
 	}
 
 	copy(dirent.Name[:], data[:8])
@@ -300,14 +307,14 @@ func NewDirentFromRaw(bootSector *FATBootSector, rawDirent *RawDirent) (Dirent,
 	trimmedName := strings.TrimRight(string(rawDirent.Name[:]), " ")
 	trimmedExt := strings.TrimRight(string(rawDirent.Extension[:]), " ")
 
-	if trimmedName[0] == 0xE5 {
+	if rawDirent.Name[0] == 0xE5 {
 		// Represents a deleted file. The real first character of the filename is in
 		// CreatedTimeMillis.
 		trimmedName = string([]byte{rawDirent.CreatedTimeMillis}) + trimmedName[1:]
-	} else if trimmedName[0] == 0x05 {
+	} else if rawDirent.Name[0] == 0x05 {
 		// First character of the filename is E5.
 		trimmedName = "\xe5" + trimmedName[1:]
-	} else if trimmedName[0] == 0 {
+	} else if rawDirent.Name[0] == 0 {
 		// This directory entry is free and thus invalid.
 		return Dirent{}, disko.ErrNotFound
 	}
@@ -329,7 +336,10 @@ func (drv *FATDriver) clusterToDirentSlice(data []byte) ([]Dirent, error) {
 
 	for i := 0; i < bootSector.DirentsPerCluster; i++ {
 		offset := i * DirentSize
-		rawDirent, _ := NewRawDirentFromBytes(data[offset : offset+DirentSize])
+		rawDirent, err := NewRawDirentFromBytes(data[offset : offset+DirentSize])
+		if err != nil {
+			return nil, err
+		}
 
 		dirent, err := NewDirentFromRaw(bootSector, &rawDirent)
 		if err != nil {
-- 
2.43.0


From 57f264f1b715811222a6d975b4d2ebf1bcac6636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:12 +0000
Subject: [PATCH 36/46] fix: fat: decoding timestamps panicked, setting the
 deleted time never worked

time.Date panics without a location. The fraction of the second was computed
from the time and not from the hundredths. Chtimes ignored timestamps that
were refused.
---
 file_systems/fat/dirent.go     | 10 ++++++----
 file_systems/fat/driverbase.go | 11 +++++++++--
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/file_systems/fat/dirent.go b/file_systems/fat/dirent.go
index b8e1d51..e88735b 100644
--- a/file_systems/fat/dirent.go
+++ b/file_systems/fat/dirent.go
@@ -163,7 +163,8 @@ func (d *Dirent) SetDeletedAt(t time.Time) error {
 		return disko.ErrArgumentOutOfRange
 	}
 	d.isDeleted = true
-	return d.SetCreatedAt(t)
+	d.stat.DeletedAt = t
+	return nil
 }
 
 // DirentSize is the size of a single raw directory entry, in bytes.
@@ -176,7 +177,7 @@ func DateFromInt(value uint16) time.Time {
 	createMonth := time.Month((value >> 5) & 0x000f)
 	createYear := int(1980 + (value >> 9))
 
-	return time.Date(createYear, createMonth, createDay, 0, 0, 0, 0, nil)
+	return time.Date(createYear, createMonth, createDay, 0, 0, 0, 0, time.Local)
 }
 
 // TimestampFromParts converts a FAT timestamp into a [time.Time] object.
@@ -193,10 +194,11 @@ func TimestampFromParts(datePart uint16, timePart uint16, hundredths uint8) time
 
 	minutes := int((timePart >> 5) & 0x003f)
 	hours := int(timePart >> 11)
-	nanoseconds := int(timePart * 10000)
+	nanoseconds := int(hundredths) * 10_000_000
 
 	return time.Date(
-		dateDt.Year(), dateDt.Month(), dateDt.Day(), hours, minutes, seconds, nanoseconds, nil)
+		dateDt.Year(), dateDt.Month(), dateDt.Day(), hours, minutes, seconds, nanoseconds,
+		time.Local)
 }
 
 // AttrFlagsToFileMode converts FAT attribute flags into the mode flags used by
diff --git a/file_systems/fat/driverbase.go b/file_systems/fat/driverbase.go
index 9407ea0..ad8978c 100644
--- a/file_systems/fat/driverbase.go
+++ b/file_systems/fat/driverbase.go
@@ -378,8 +378,15 @@ func (drv *FATDriver) Chtimes(path string, atime, mtime time.Time) error {
 		return err
 	}
 
-	dirent.SetLastAccessedAt(atime)
-	dirent.SetLastModifiedAt(mtime)
+	err = dirent.SetLastAccessedAt(atime)
+	if err != nil {
+		return err
+	}
+
+	err = dirent.SetLastModifiedAt(mtime)
+	if err != nil {
+		return err
+	}
 	return drv.fs.UpdateDirent(&dirent)
 }
 
-- 
2.43.0


From d759c859fb2f78f18e7089d77797f1e75387821b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:14 +0000
Subject: [PATCH 37/46] fix: fat: SameFile panicked, and so did Type and Info
 of a directory entry

---
 file_systems/fat/dirent.go     | 6 ++++++
 file_systems/fat/driverbase.go | 7 ++++---
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/file_systems/fat/dirent.go b/file_systems/fat/dirent.go
index e88735b..9b03d59 100644
--- a/file_systems/fat/dirent.go
+++ b/file_systems/fat/dirent.go
@@ -392,6 +392,12 @@ func (d Dirent) ModTime() time.Time { return d.GetLastModifiedAt() }
 
 func (d Dirent) IsDir() bool { return d.mode.IsDir() }
 
+// Type returns the type bits of the mode flags.
+func (d Dirent) Type() os.FileMode { return d.mode.Type() }
+
+// Info returns the directory entry itself, since it implements [os.FileInfo].
+func (d Dirent) Info() (os.FileInfo, error) { return d, nil }
+
 func (d Dirent) Sys() any { return d.stat }
 
 func (d Dirent) Stat() disko.FileStat { return d.stat }
diff --git a/file_systems/fat/driverbase.go b/file_systems/fat/driverbase.go
index ad8978c..c698509 100644
--- a/file_systems/fat/driverbase.go
+++ b/file_systems/fat/driverbase.go
@@ -238,10 +238,11 @@ func (drv *FATDriver) Readlink(path string) (string, error) {
 
 // SameFile determines if two FileInfos reference the same file.
 func (drv *FATDriver) SameFile(fi1, fi2 os.FileInfo) bool {
-	dirLeft := fi1.Sys().(Dirent)
-	dirRight := fi2.Sys().(Dirent)
+	statLeft := fi1.Sys().(disko.FileStat)
+	statRight := fi2.Sys().(disko.FileStat)
 
-	return dirLeft.FirstCluster == dirRight.FirstCluster
+	// The inode number is the first cluster.
+	return statLeft.InodeNumber == statRight.InodeNumber
 }
 
 // TODO: Open
-- 
2.43.0


From 2e58c8afad0e029f619ec5be77983bec798b2e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:15 +0000
Subject: [PATCH 38/46] fix: fat: ReadFile returns exactly the size of the file
 or fails

---
 file_systems/fat/driverbase.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/file_systems/fat/driverbase.go b/file_systems/fat/driverbase.go
index c698509..82da123 100644
--- a/file_systems/fat/driverbase.go
+++ b/file_systems/fat/driverbase.go
@@ -296,6 +296,10 @@ func (drv *FATDriver) ReadFile(path string) ([]byte, error) {
 	// used.
 	buffer := new(bytes.Buffer)
 	for _, clusterID := range allClusters {
+		if bytesRemaining <= 0 {
+			break
+		}
+
 		clusterContents, err := drv.readCluster(clusterID)
 		if err != nil {
 			return nil, err
@@ -319,6 +323,10 @@ func (drv *FATDriver) ReadFile(path string) ([]byte, error) {
 		bytesRemaining -= int64(bs.BytesPerCluster)
 	}
 
+	if bytesRemaining > 0 {
+		return nil, disko.ErrFileSystemCorrupted.WithMessage(
+			fmt.Sprintf("%d bytes missing at the end of %q", bytesRemaining, path))
+	}
 	return buffer.Bytes(), nil
 }
 
-- 
2.43.0


From abb259a964a7d0f2dfd413bc0e55ce3bb3a13d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:57 +0000
Subject: [PATCH 39/46] fix: compression: DecompressRLERecursive did not
 decompress

It was a copy of CompressRLERecursive.
---
 utilities/compression/rle8.go | 70 ++++++++++++++++++-----------------
 1 file changed, 36 insertions(+), 34 deletions(-)

diff --git a/utilities/compression/rle8.go b/utilities/compression/rle8.go
index c9d20c6..67eadfe 100644
--- a/utilities/compression/rle8.go
+++ b/utilities/compression/rle8.go
@@ -176,51 +176,53 @@ func CompressRLERecursive(input io.Reader, output io.Writer) (int64, error) {
 
 // DecompressRLERecursive is the decompression counterpart to CompressRLERecursive.
 func DecompressRLERecursive(input io.Reader, output io.Writer) (int64, error) {
-	grouper := NewRLEGrouperFromReader(input)
-
+	source := bufio.NewReader(input)
+	lastByteRead := -1
 	totalBytesWritten := int64(0)
+
 	for {
-		run, getRunErr := grouper.GetNextRun()
-		if getRunErr != nil && !errors.Is(getRunErr, io.EOF) {
-			// An error was encountered and it's *not* EOF.
-			return totalBytesWritten, getRunErr
+		currentByte, err := source.ReadByte()
+		if err != nil {
+			if errors.Is(err, io.EOF) {
+				return totalBytesWritten, nil
+			}
+			return totalBytesWritten, fmt.Errorf("error reading input: %w", err)
 		}
 
-		if run.RunLength == 1 {
-			_, err := output.Write([]byte{run.Byte})
-			if err != nil {
-				return totalBytesWritten, err
-			}
-			totalBytesWritten++
-		} else if run.RunLength >= 2 {
-			_, err := output.Write([]byte{run.Byte, run.Byte})
-			if err != nil {
-				return totalBytesWritten, err
-			}
-			totalBytesWritten += 2
+		n, err := output.Write([]byte{currentByte})
+		if err != nil {
+			return totalBytesWritten, fmt.Errorf("failed to write to output: %w", err)
+		}
+		totalBytesWritten += int64(n)
 
-			num255Repetitions := (run.RunLength - 2) / 255
-			remainder := (run.RunLength - 2) % 255
+		if int(currentByte) != lastByteRead {
+			lastByteRead = int(currentByte)
+			continue
+		}
 
-			_, err = output.Write(bytes.Repeat([]byte{255}, num255Repetitions))
+		// Got two bytes in a row that are the same. The following bytes add up to
+		// the repeat count. The last one is the first that isn't 255.
+		repeatCountByte := byte(255)
+		for repeatCountByte == 255 {
+			repeatCountByte, err = source.ReadByte()
 			if err != nil {
-				return totalBytesWritten, err
+				if errors.Is(err, io.EOF) {
+					err = fmt.Errorf(
+						"%w: missing repeat count after two %02x bytes",
+						io.ErrUnexpectedEOF,
+						uint(currentByte),
+					)
+				}
+				return totalBytesWritten, fmt.Errorf("error reading input: %w", err)
 			}
-			totalBytesWritten += int64(num255Repetitions)
 
-			_, err = output.Write([]byte{byte(remainder)})
+			n, err = output.Write(
+				bytes.Repeat([]byte{currentByte}, int(repeatCountByte)))
 			if err != nil {
-				return totalBytesWritten, err
+				return totalBytesWritten, fmt.Errorf("failed to write to output: %w", err)
 			}
-
-			totalBytesWritten++
-		}
-
-		// We bail at the beginning of the loop if an error occurred and it's
-		// *not* EOF, so if the error here is non-nil then that means it *must*
-		// be EOF. That means we finished without errors.
-		if getRunErr != nil {
-			return totalBytesWritten, nil
+			totalBytesWritten += int64(n)
 		}
+		lastByteRead = -1
 	}
 }
-- 
2.43.0


From cafcb43f6b4eedc039d64c9cad4357b0adf837c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:58 +0000
Subject: [PATCH 40/46] fix: compression: a byte that cannot be unread must not
 be lost silently

---
 utilities/compression/rle_grouper.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/utilities/compression/rle_grouper.go b/utilities/compression/rle_grouper.go
index 75df424..ee5a15c 100644
--- a/utilities/compression/rle_grouper.go
+++ b/utilities/compression/rle_grouper.go
@@ -72,7 +72,10 @@ func (grouper RLEGrouper) GetNextRun() (ByteRun, error) {
 
 		if currentByte != firstByte {
 			// Hit a different byte, back up and return.
-			grouper.rd.UnreadByte()
+			err = grouper.rd.UnreadByte()
+			if err != nil {
+				return InvalidRLERun, err
+			}
 			return ByteRun{Byte: firstByte, RunLength: runLength}, nil
 		}
 	}
-- 
2.43.0


From aaefd41b6464823bca76a78d0f0ba6d8e1950b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:58 +0000
Subject: [PATCH 41/46] fix: zipimage, unzipimage: report errors closing the
 output file

---
 cmd/unzipimage/main.go | 7 ++++++-
 cmd/zipimage/main.go   | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/cmd/unzipimage/main.go b/cmd/unzipimage/main.go
index b5a88d7..22a285c 100644
--- a/cmd/unzipimage/main.go
+++ b/cmd/unzipimage/main.go
@@ -33,7 +33,6 @@ func main() {
 			os.Stderr, "Failed to open file for writing: `%v`: %s\n", outputFilePath, errOut)
 		os.Exit(1)
 	}
-	defer outFile.Close()
 
 	nWritten, err := compression.DecompressImage(sourceFile, outFile)
 	if err != nil {
@@ -41,5 +40,11 @@ func main() {
 		os.Exit(2)
 	}
 
+	err = outFile.Close()
+	if err != nil {
+		fmt.Fprintf(os.Stderr, "Error expanding file: %s\n", err)
+		os.Exit(2)
+	}
+
 	fmt.Printf("Uncompressed input file to %d bytes.\n", nWritten)
 }
diff --git a/cmd/zipimage/main.go b/cmd/zipimage/main.go
index c26bea7..e1a9218 100644
--- a/cmd/zipimage/main.go
+++ b/cmd/zipimage/main.go
@@ -33,7 +33,6 @@ func main() {
 			os.Stderr, "failed to open file for writing: `%v`: %s\n", outputFilePath, errOut)
 		os.Exit(1)
 	}
-	defer outFile.Close()
 
 	nWritten, err := compression.CompressImage(sourceFile, outFile)
 	if err != nil {
@@ -41,5 +40,11 @@ func main() {
 		os.Exit(2)
 	}
 
+	err = outFile.Close()
+	if err != nil {
+		fmt.Fprintf(os.Stderr, "error compressing file: %s\n", err)
+		os.Exit(2)
+	}
+
 	fmt.Printf("Compressed input file to %d bytes.\n", nWritten)
 }
-- 
2.43.0


From 2783d16a27c31f685d87e2124f44356088eb7e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:00 +0000
Subject: [PATCH 42/46] fix: unixv6: inode size is stored with the most
 significant byte first

---
 file_systems/unixv6/dirents.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/file_systems/unixv6/dirents.go b/file_systems/unixv6/dirents.go
index cdcaa12..6fdb556 100644
--- a/file_systems/unixv6/dirents.go
+++ b/file_systems/unixv6/dirents.go
@@ -123,9 +123,10 @@ func RawInodeToStat(inumber Inumber, inode RawInode) (disko.FileStat, error) {
 		return disko.FileStat{}, err
 	}
 
-	size := uint(inode.Size[0]) |
-		(uint(inode.Size[1]) << 8) |
-		(uint(inode.Size[2]) << 16)
+	// The most significant byte comes first, followed by the rest as a 16-bit word.
+	size := (uint(inode.Size[0]) << 16) |
+		uint(inode.Size[1]) |
+		(uint(inode.Size[2]) << 8)
 
 	blocks := size / 512
 	if size%512 != 0 {
-- 
2.43.0


From 44e6168c0206f8c7971fbc39e8abaee592feb5bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:01 +0000
Subject: [PATCH 43/46] fix: unixv6: os.ModeCharDevice is only valid along with
 os.ModeDevice

---
 file_systems/unixv6/dirents.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/file_systems/unixv6/dirents.go b/file_systems/unixv6/dirents.go
index 6fdb556..3420aa8 100644
--- a/file_systems/unixv6/dirents.go
+++ b/file_systems/unixv6/dirents.go
@@ -69,7 +69,7 @@ func ConvertFSFlagsToStandard(flags uint16) (os.FileMode, error) {
 	case FileTypeBlockDevice:
 		mode |= os.ModeDevice
 	case FileTypeCharDevice:
-		mode |= os.ModeCharDevice
+		mode |= os.ModeDevice | os.ModeCharDevice
 	case FileTypeDirectory:
 		mode |= os.ModeDir
 	}
@@ -89,7 +89,7 @@ func ConvertStandardFlagsToFS(flags os.FileMode) (uint16, error) {
 	mode := uint16(flags&os.ModePerm) | FlagIsAllocated
 
 	switch flags & os.ModeType {
-	case os.ModeCharDevice:
+	case os.ModeDevice | os.ModeCharDevice, os.ModeCharDevice:
 		mode |= FileTypeCharDevice
 	case os.ModeDevice:
 		mode |= FileTypeBlockDevice
-- 
2.43.0


From 9d18425087bcb3e93302ea64c8602a063d4164c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:02 +0000
Subject: [PATCH 44/46] fix: disks: slug of the ST-412 is lowercase like all
 others

---
 disks/disk-geometries.csv | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/disks/disk-geometries.csv b/disks/disk-geometries.csv
index 1d34f3e..0677ff9 100644
--- a/disks/disk-geometries.csv
+++ b/disks/disk-geometries.csv
@@ -32,4 +32,4 @@ IBM 3740|ibm_3740|1973|"8"""|1|8|128|26|73|0|1|
 "MS-DOS 3 1/2"" DS HD 1720K"|msdos_312in_ds_hd_21_82|1986|"3 1/2"""|1|8|512|21|82|0|2|Release year is a guess
 "MS-DOS 3 1/2"" DS ED"|msdos_312in_ds_ed|1986|"3 1/2"""|1|8|512|36|80|0|2|Release year is a guess
 ST-506|st_506|1980||0|8|256|26|153|0|4|
-ST-412|St_412|1981||0|8|256|26|306|0|4|
+ST-412|st_412|1981||0|8|256|26|306|0|4|
-- 
2.43.0


From 31fbbe38490ef771c48fe9733070977d380b8d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:41 +0000
Subject: [PATCH 45/46] fix: errors: a wrapped error keeps its identity even if
 it is a multierror

---
 errors.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/errors.go b/errors.go
index b4fe158..15d58b5 100644
--- a/errors.go
+++ b/errors.go
@@ -1,9 +1,8 @@
 package disko
 
 import (
+	"errors"
 	"fmt"
-
-	"github.com/hashicorp/go-multierror"
 )
 
 type DriverError interface {
@@ -79,7 +78,7 @@ func (e baseDiskoError) WithMessage(message string) DriverError {
 func (e baseDiskoError) Wrap(err error) DriverError {
 	return customDriverError{
 		message:       fmt.Sprintf("%s: %s", e.Error(), err.Error()),
-		originalError: multierror.Append(e, err),
+		originalError: errors.Join(e, err),
 	}
 }
 
@@ -111,7 +110,7 @@ func (e customDriverError) WithMessage(message string) DriverError {
 func (e customDriverError) Wrap(err error) DriverError {
 	return customDriverError{
 		message:       fmt.Sprintf("%s: %s", e.Error(), err.Error()),
-		originalError: multierror.Append(e, err),
+		originalError: errors.Join(e, err),
 	}
 }
 
-- 
2.43.0


From e5ad01f0cb2c644b2e030daaa775a03ab42f4e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:00 +0000
Subject: [PATCH 46/46] fix: fat: timestamps were a day early where midnight
 does not exist

---
 file_systems/fat/dirent.go | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/file_systems/fat/dirent.go b/file_systems/fat/dirent.go
index 9b03d59..d591078 100644
--- a/file_systems/fat/dirent.go
+++ b/file_systems/fat/dirent.go
@@ -173,18 +173,22 @@ const DirentSize = 32
 // DateFromInt converts the FAT on-disk representation of a date into a [time.Time]
 // object.
 func DateFromInt(value uint16) time.Time {
-	createDay := int(value & 0x001f)
-	createMonth := time.Month((value >> 5) & 0x000f)
-	createYear := int(1980 + (value >> 9))
+	year, month, day := splitDate(value)
+	return time.Date(year, month, day, 0, 0, 0, 0, time.Local)
+}
 
-	return time.Date(createYear, createMonth, createDay, 0, 0, 0, 0, time.Local)
+// splitDate splits the FAT on-disk representation of a date into its parts.
+func splitDate(value uint16) (year int, month time.Month, day int) {
+	return int(1980 + (value >> 9)), time.Month((value >> 5) & 0x000f), int(value & 0x001f)
 }
 
 // TimestampFromParts converts a FAT timestamp into a [time.Time] object.
 // datePart is required; timePart and hundredths should be 0 if they're not
 // present in the source field(s).
 func TimestampFromParts(datePart uint16, timePart uint16, hundredths uint8) time.Time {
-	dateDt := DateFromInt(datePart)
+	// The date must not come from a time.Time: where daylight saving time begins at
+	// midnight, there is a day that has no 00:00 and we'd end up on the day before.
+	year, month, day := splitDate(datePart)
 
 	seconds := int((timePart & 0x001f) * 2)
 	if hundredths >= 100 {
@@ -196,9 +200,7 @@ func TimestampFromParts(datePart uint16, timePart uint16, hundredths uint8) time
 	hours := int(timePart >> 11)
 	nanoseconds := int(hundredths) * 10_000_000
 
-	return time.Date(
-		dateDt.Year(), dateDt.Month(), dateDt.Day(), hours, minutes, seconds, nanoseconds,
-		time.Local)
+	return time.Date(year, month, day, hours, minutes, seconds, nanoseconds, time.Local)
 }
 
 // AttrFlagsToFileMode converts FAT attribute flags into the mode flags used by
-- 
2.43.0

