From 4129e4f9607595341d2de4e7a7026575cea8d3a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:28 +0000
Subject: [PATCH 01/58] fix: BlockCache.ReadAt must return the number of bytes
 put into the buffer

It returned the size of the block range it read from, which is larger than the
buffer if the buffer isn't a multiple of the block size.
---
 file_systems/common/blockcache/blockcache.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/file_systems/common/blockcache/blockcache.go b/file_systems/common/blockcache/blockcache.go
index bdcb43a..cd72cc4 100644
--- a/file_systems/common/blockcache/blockcache.go
+++ b/file_systems/common/blockcache/blockcache.go
@@ -389,8 +389,7 @@ func (cache *BlockCache) ReadAt(buffer []byte, start c.LogicalBlock) (int, error
 		return 0, err
 	}
 
-	copy(buffer, sourceData)
-	return len(sourceData), nil
+	return copy(buffer, sourceData), nil
 }
 
 // WriteAt copies data into the cache from `buffer`, beginning at block `start`.
-- 
2.43.0


From df11e9e26b20ff01a3270c5bbef96a75d33953ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:49 +0000
Subject: [PATCH 02/58] fix: BlockCache range checks must not overflow

The minimum block count and the byte size of a block range were computed with
expressions that wrap around for large arguments, so a huge request could pass
the bounds check and crash or touch the wrong blocks.
---
 file_systems/common/blockcache/blockcache.go | 36 ++++++++++++++++----
 1 file changed, 30 insertions(+), 6 deletions(-)

diff --git a/file_systems/common/blockcache/blockcache.go b/file_systems/common/blockcache/blockcache.go
index cd72cc4..ee1aded 100644
--- a/file_systems/common/blockcache/blockcache.go
+++ b/file_systems/common/blockcache/blockcache.go
@@ -220,7 +220,11 @@ func (cache *BlockCache) Size() int64 {
 // GetMinBlocksForSize gives the minimum number of blocks required to hold the
 // given number of bytes.
 func (cache *BlockCache) GetMinBlocksForSize(size uint) uint {
-	return (size + cache.bytesPerBlock - 1) / cache.bytesPerBlock
+	numBlocks := size / cache.bytesPerBlock
+	if size%cache.bytesPerBlock != 0 {
+		numBlocks++
+	}
+	return numBlocks
 }
 
 // CheckBounds verifies that `bufferSize` bytes can be accessed in the cache
@@ -234,7 +238,9 @@ func (cache *BlockCache) CheckBounds(start c.LogicalBlock, bufferSize uint) erro
 			fmt.Sprintf("block %d not in range [0, %d)", start, cache.totalBlocks),
 		)
 	}
-	if uint(start)+numBlocks > cache.totalBlocks {
+	// NB: `start` is less than `totalBlocks` here so this can't overflow, whereas
+	// `start + numBlocks` can.
+	if numBlocks > cache.totalBlocks-uint(start) {
 		return disko.ErrArgumentOutOfRange.WithMessage(
 			fmt.Sprintf(
 				"can't access %d bytes (%d blocks) starting at block %d; requested"+
@@ -249,6 +255,25 @@ func (cache *BlockCache) CheckBounds(start c.LogicalBlock, bufferSize uint) erro
 	return nil
 }
 
+// checkBlockRange is like [CheckBounds] but takes the number of blocks that will
+// be accessed instead of the number of bytes.
+func (cache *BlockCache) checkBlockRange(start c.LogicalBlock, count uint) error {
+	// If the byte size of the range doesn't fit into an integer, then the range
+	// can't possibly be inside the cache.
+	if count > cache.totalBlocks {
+		return disko.ErrArgumentOutOfRange.WithMessage(
+			fmt.Sprintf(
+				"can't access %d blocks starting at block %d; requested range not"+
+					" in [0, %d)",
+				count,
+				start,
+				cache.totalBlocks,
+			),
+		)
+	}
+	return cache.CheckBounds(start, count*cache.bytesPerBlock)
+}
+
 // GetSlice returns a slice pointing to the cache's storage, beginning at block
 // `start` and continuing for `count` blocks.
 //
@@ -285,7 +310,7 @@ func (cache *BlockCache) Data() ([]byte, error) {
 // loadBlockRange ensures that all blocks in the range [start, start + count) are
 // present in the cache, and loads any missing ones from storage.
 func (cache *BlockCache) loadBlockRange(start c.LogicalBlock, count uint) error {
-	err := cache.CheckBounds(start, count*cache.bytesPerBlock)
+	err := cache.checkBlockRange(start, count)
 	if err != nil {
 		return err
 	}
@@ -322,7 +347,7 @@ func (cache *BlockCache) loadBlockRange(start c.LogicalBlock, count uint) error
 // flushBlockRange writes out all dirty blocks (and only dirty blocks) to the
 // underlying storage and marks them as clean.
 func (cache *BlockCache) flushBlockRange(start c.LogicalBlock, count uint) error {
-	err := cache.CheckBounds(start, count*cache.bytesPerBlock)
+	err := cache.checkBlockRange(start, count)
 	if err != nil {
 		return err
 	}
@@ -471,13 +496,12 @@ func (cache *BlockCache) MarkBlockRangeDirty(
 	start c.LogicalBlock,
 	count uint,
 ) error {
-	err := cache.CheckBounds(start, count*cache.bytesPerBlock)
+	err := cache.checkBlockRange(start, count)
 	if err != nil {
 		return err
 	}
 
 	for i := uint(0); i < count; i++ {
-		// FIXME(dargueta): We can end up with integer overflow here
 		bitIndex := int(start) + int(i)
 		cache.dirtyBlocks.Set(bitIndex, true)
 		cache.loadedBlocks.Set(bitIndex, true)
-- 
2.43.0


From d82231b994a1698e1a2a8e19870b184b55d62c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:49 +0000
Subject: [PATCH 03/58] fix: loading and flushing an empty BlockCache must
 succeed

There's nothing to do, but both failed with ErrArgumentOutOfRange. Truncating a
synchronous stream to zero bytes therefore always failed.
---
 file_systems/common/blockcache/blockcache.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/file_systems/common/blockcache/blockcache.go b/file_systems/common/blockcache/blockcache.go
index ee1aded..8de1b8c 100644
--- a/file_systems/common/blockcache/blockcache.go
+++ b/file_systems/common/blockcache/blockcache.go
@@ -381,12 +381,18 @@ func (cache *BlockCache) flushBlockRange(start c.LogicalBlock, count uint) error
 
 // LoadAll ensures all missing blocks are loaded from storage into the cache.
 func (cache *BlockCache) LoadAll() error {
+	if cache.totalBlocks == 0 {
+		return nil
+	}
 	return cache.loadBlockRange(0, cache.totalBlocks)
 }
 
 // Flush flushes all dirty blocks from the cache into storage, and marks them
 // as clean.
 func (cache *BlockCache) Flush() error {
+	if cache.totalBlocks == 0 {
+		return nil
+	}
 	return cache.flushBlockRange(0, cache.totalBlocks)
 }
 
-- 
2.43.0


From 26783266e85e545d68770e7dc2d5dde31bff18f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:49 +0000
Subject: [PATCH 04/58] fix: marking a block dirty must not discard its
 contents

MarkBlockRangeDirty() flagged blocks as present without loading them, so reads
returned nulls and the next flush clobbered the backing storage.
---
 file_systems/common/blockcache/blockcache.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/file_systems/common/blockcache/blockcache.go b/file_systems/common/blockcache/blockcache.go
index 8de1b8c..1f7d206 100644
--- a/file_systems/common/blockcache/blockcache.go
+++ b/file_systems/common/blockcache/blockcache.go
@@ -502,7 +502,9 @@ func (cache *BlockCache) MarkBlockRangeDirty(
 	start c.LogicalBlock,
 	count uint,
 ) error {
-	err := cache.checkBlockRange(start, count)
+	// Dirty blocks must be present in the cache. Flushing one that was never
+	// loaded would overwrite the block in the backing storage with nulls.
+	err := cache.loadBlockRange(start, count)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 7aca009af8806b64244b522d454b20d34c5dbea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:49 +0000
Subject: [PATCH 05/58] fix: blocks added by resizing a stream-backed cache
 must be accessible

The callbacks checked block numbers against the original size of the stream, so
flushing or fetching a new block failed.
---
 file_systems/common/blockcache/blockcache.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/file_systems/common/blockcache/blockcache.go b/file_systems/common/blockcache/blockcache.go
index 1f7d206..fb68f89 100644
--- a/file_systems/common/blockcache/blockcache.go
+++ b/file_systems/common/blockcache/blockcache.go
@@ -150,7 +150,14 @@ func WrapStream(
 		// Resizing the stream is allowed.
 		resizeCb = func(newTotalBlocks c.LogicalBlock) error {
 			truncator := stream.(c.Truncator)
-			return truncator.Truncate(int64(newTotalBlocks) * int64(bytesPerBlock))
+			err := truncator.Truncate(int64(newTotalBlocks) * int64(bytesPerBlock))
+			if err != nil {
+				return err
+			}
+
+			// The fetch and flush callbacks must accept the new blocks.
+			totalBlocks = uint(newTotalBlocks)
+			return nil
 		}
 	} else if allowResize {
 		// The caller allows resizing but the stream doesn't support Truncate().
-- 
2.43.0


From 527171b029ce88f623ffa5fae17c0658e2cfb44b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:49 +0000
Subject: [PATCH 06/58] fix: a stream-backed cache must not ignore partial
 block transfers

Short reads left the remainder of the block filled with nulls, and writes that
hit the end of the stream were treated as successful.
---
 file_systems/common/blockcache/blockcache.go | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/file_systems/common/blockcache/blockcache.go b/file_systems/common/blockcache/blockcache.go
index fb68f89..b20c1f5 100644
--- a/file_systems/common/blockcache/blockcache.go
+++ b/file_systems/common/blockcache/blockcache.go
@@ -124,15 +124,12 @@ func WrapStream(
 		}
 
 		if read {
-			_, err = stream.Read(buffer)
+			// Readers are allowed to return less data than asked for.
+			_, err = io.ReadFull(stream, buffer)
 		} else {
 			_, err = stream.Write(buffer)
 		}
-
-		if err != nil && err != io.EOF {
-			return err
-		}
-		return nil
+		return err
 	}
 
 	fetchCb := func(block c.LogicalBlock, buffer []byte) error {
-- 
2.43.0


From d495553855952f8e344afe2901b887a88426f070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:49 +0000
Subject: [PATCH 07/58] fix: BlockCache.Resize must refuse sizes that can't be
 represented

The byte size wrapped around, resulting in a cache that claimed to have more
blocks than it has data for.
---
 file_systems/common/blockcache/blockcache.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/file_systems/common/blockcache/blockcache.go b/file_systems/common/blockcache/blockcache.go
index b20c1f5..0e297d0 100644
--- a/file_systems/common/blockcache/blockcache.go
+++ b/file_systems/common/blockcache/blockcache.go
@@ -9,6 +9,7 @@ package blockcache
 import (
 	"fmt"
 	"io"
+	"math"
 
 	"github.com/boljen/go-bitmap"
 	"github.com/dargueta/disko"
@@ -465,6 +466,12 @@ func (cache *BlockCache) WriteAt(buffer []byte, start c.LogicalBlock) (int, erro
 // the slice. These new blocks are treated as dirty, so flushing the cache will
 // write them out.
 func (cache *BlockCache) Resize(newTotalBlocks uint) error {
+	if newTotalBlocks > math.MaxInt/cache.bytesPerBlock {
+		return disko.ErrFileTooLarge.WithMessage(
+			fmt.Sprintf("can't resize cache to %d blocks", newTotalBlocks),
+		)
+	}
+
 	err := cache.resize(c.LogicalBlock(newTotalBlocks))
 	if err != nil {
 		return err
-- 
2.43.0


From bbb7f5ccd8b3f3279a1e4bf3e36ad6624a199f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:23 +0000
Subject: [PATCH 08/58] fix: reading the tail of a stream must advance the
 stream pointer

A read that returned data together with EOF left the pointer where it was, so
the same bytes were returned again and again, e.g. by io.Copy().
---
 file_systems/common/basicstream/basicstream.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/file_systems/common/basicstream/basicstream.go b/file_systems/common/basicstream/basicstream.go
index e555f38..be2b2b8 100644
--- a/file_systems/common/basicstream/basicstream.go
+++ b/file_systems/common/basicstream/basicstream.go
@@ -78,9 +78,7 @@ func (stream *BasicStream) Close() error {
 // Read implements [io.Reader].
 func (stream *BasicStream) Read(buffer []byte) (int, error) {
 	totalRead, err := stream.ReadAt(buffer, stream.position)
-	if err == nil {
-		stream.position += int64(totalRead)
-	}
+	stream.position += int64(totalRead)
 	return totalRead, err
 }
 
-- 
2.43.0


From b0e3516351f0d696031ada01927fd96378d9dae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:24 +0000
Subject: [PATCH 09/58] fix: reading a stream at a negative offset must fail
 instead of crashing

---
 file_systems/common/basicstream/basicstream.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/file_systems/common/basicstream/basicstream.go b/file_systems/common/basicstream/basicstream.go
index be2b2b8..b636ee8 100644
--- a/file_systems/common/basicstream/basicstream.go
+++ b/file_systems/common/basicstream/basicstream.go
@@ -88,6 +88,12 @@ func (stream *BasicStream) ReadAt(buffer []byte, offset int64) (int, error) {
 		return 0, disko.ErrNotPermitted
 	}
 
+	if offset < 0 {
+		return 0, disko.ErrInvalidArgument.WithMessage(
+			fmt.Sprintf("read failed: offset %d is negative", offset),
+		)
+	}
+
 	// The address computations below assume we're reading at least one byte. If
 	// the target buffer is empty, we have nothing further to do.
 	bufLen := int64(len(buffer))
-- 
2.43.0


From 1d36230738de13afb60efa9241be5d61606f51c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:25 +0000
Subject: [PATCH 10/58] fix: growing a stream must not expose stale data

Bytes between the end of the stream and the end of its last block became part of
the file when it was extended. Also, the cache only needs resizing if the number
of blocks changes.
---
 .../common/basicstream/basicstream.go         | 36 ++++++++++++++++++-
 1 file changed, 35 insertions(+), 1 deletion(-)

diff --git a/file_systems/common/basicstream/basicstream.go b/file_systems/common/basicstream/basicstream.go
index b636ee8..ea3a024 100644
--- a/file_systems/common/basicstream/basicstream.go
+++ b/file_systems/common/basicstream/basicstream.go
@@ -220,6 +220,27 @@ func (stream *BasicStream) Tell() int64 {
 	return stream.position
 }
 
+// clearRange fills the bytes in the range [start, end) with nulls. The range must
+// lie within the blocks allocated to the stream. It does nothing if `end` is less
+// than or equal to `start`.
+func (stream *BasicStream) clearRange(start, end int64) error {
+	if start >= end {
+		return nil
+	}
+
+	firstBlock, startOffset := stream.convertLinearAddr(start)
+	lastBlock, _ := stream.convertLinearAddr(end - 1)
+	numBlocks := uint(lastBlock - firstBlock + 1)
+
+	targetSlice, err := stream.data.GetSlice(firstBlock, numBlocks)
+	if err != nil {
+		return err
+	}
+
+	clear(targetSlice[startOffset : startOffset+uint(end-start)])
+	return stream.data.MarkBlockRangeDirty(firstBlock, numBlocks)
+}
+
 // Truncate resizes the stream to the given number of bytes but doesn't move the
 // stream pointer.
 func (stream *BasicStream) Truncate(size int64) error {
@@ -238,11 +259,24 @@ func (stream *BasicStream) Truncate(size int64) error {
 	}
 	newTotalBlocks := stream.data.GetMinBlocksForSize(uint(size))
 
-	err := stream.data.Resize(newTotalBlocks)
+	// If the stream is growing, anything past its current end in the blocks we
+	// already have must read as nulls.
+	err := stream.clearRange(stream.size, min(size, stream.data.Size()))
 	if err != nil {
 		return err
 	}
 
+	// Don't resize the cache if the new end is in blocks we already have. It may be
+	// larger than the stream, and it may not be resizable.
+	oldTotalBlocks := stream.data.TotalBlocks()
+	isShrinking := size < stream.size && newTotalBlocks < oldTotalBlocks
+	if isShrinking || newTotalBlocks > oldTotalBlocks {
+		err = stream.data.Resize(newTotalBlocks)
+		if err != nil {
+			return err
+		}
+	}
+
 	stream.size = size
 
 	if stream.ioFlags.Synchronous() {
-- 
2.43.0


From 390d0f6ce26efc254a3d7e499b9462cad2719199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:26 +0000
Subject: [PATCH 11/58] fix: stream writes must update the size and reach the
 backing storage

The modified blocks were never marked dirty so the data was lost, the size wasn't
updated when writing into the unused part of the last block, the wrong number of
blocks was requested from the cache, and negative or huge offsets crashed.
---
 .../common/basicstream/basicstream.go         | 23 ++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/file_systems/common/basicstream/basicstream.go b/file_systems/common/basicstream/basicstream.go
index ea3a024..5b0c81a 100644
--- a/file_systems/common/basicstream/basicstream.go
+++ b/file_systems/common/basicstream/basicstream.go
@@ -316,24 +316,41 @@ func (stream *BasicStream) implWriteAt(buffer []byte, offset int64) (int, error)
 	}
 
 	bufLen := int64(len(buffer))
+	if offset < 0 {
+		return 0, disko.ErrInvalidArgument.WithMessage(
+			fmt.Sprintf("write failed: offset %d is negative", offset),
+		)
+	} else if bufLen == 0 {
+		return 0, nil
+	} else if offset > math.MaxInt64-bufLen {
+		return 0, disko.ErrFileTooLarge.WithMessage(
+			fmt.Sprintf("write failed: can't write %d bytes at %d", bufLen, offset),
+		)
+	}
+
 	startBlock, startOffset := stream.convertLinearAddr(offset)
-	lastBlock, _ := stream.convertLinearAddr(offset + bufLen)
+	lastBlock, _ := stream.convertLinearAddr(offset + bufLen - 1)
+	numBlocks := uint(lastBlock - startBlock + 1)
 
 	// If we're going to end up writing past the end of the stream we need to
 	// grow the file first.
-	if uint(lastBlock) >= stream.data.TotalBlocks() {
+	if offset+bufLen > stream.size {
 		err := stream.Truncate(offset + bufLen)
 		if err != nil {
 			return 0, err
 		}
 	}
 
-	targetSlice, err := stream.data.GetSlice(startBlock, uint(lastBlock)+1)
+	targetSlice, err := stream.data.GetSlice(startBlock, numBlocks)
 	if err != nil {
 		return 0, err
 	}
 
 	copy(targetSlice[startOffset:], buffer)
+	err = stream.data.MarkBlockRangeDirty(startBlock, numBlocks)
+	if err != nil {
+		return 0, err
+	}
 
 	if stream.ioFlags.Synchronous() {
 		return len(buffer), stream.Sync()
-- 
2.43.0


From d4cd1f8bad0410e48fbe492fde9a17a303f21dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:27 +0000
Subject: [PATCH 12/58] fix: bulk stream copies must report write errors

ReadFrom() dropped the error of the last write, and WriteTo() all of them.
---
 file_systems/common/basicstream/basicstream.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/file_systems/common/basicstream/basicstream.go b/file_systems/common/basicstream/basicstream.go
index 5b0c81a..7690e7c 100644
--- a/file_systems/common/basicstream/basicstream.go
+++ b/file_systems/common/basicstream/basicstream.go
@@ -155,12 +155,12 @@ func (stream *BasicStream) ReadFrom(r io.Reader) (n int64, err error) {
 		totalBytesRead += int64(lastReadSize)
 
 		_, writeErr := stream.Write(buffer[:lastReadSize])
-		if readErr == io.EOF {
+		if writeErr != nil {
+			return totalBytesRead, writeErr
+		} else if readErr == io.EOF {
 			return totalBytesRead, nil
 		} else if readErr != nil {
 			return totalBytesRead, readErr
-		} else if writeErr != nil {
-			return totalBytesRead, writeErr
 		}
 	}
 }
@@ -383,8 +383,13 @@ func (stream *BasicStream) WriteTo(w io.Writer) (n int64, err error) {
 		// Always write the data we've read in regardless of whether an error
 		// occurred or not.
 		if blockSize > 0 {
-			w.Write(buffer[:blockSize])
-			totalWritten += int64(blockSize)
+			nWritten, writeErr := w.Write(buffer[:blockSize])
+			totalWritten += int64(nWritten)
+			if writeErr != nil {
+				return totalWritten, writeErr
+			} else if nWritten < blockSize {
+				return totalWritten, io.ErrShortWrite
+			}
 		}
 
 		// If we hit EOF, we're done. Any other error is fatal.
-- 
2.43.0


From a25e226964bdcb11875f075a2170bb0927cfd5a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:30 +0000
Subject: [PATCH 13/58] fix: DecompressRLERecursive must decompress

It was a copy of the compressor.
---
 utilities/compression/rle8.go | 72 +++++++++++++++++++----------------
 1 file changed, 40 insertions(+), 32 deletions(-)

diff --git a/utilities/compression/rle8.go b/utilities/compression/rle8.go
index c9d20c6..193134a 100644
--- a/utilities/compression/rle8.go
+++ b/utilities/compression/rle8.go
@@ -176,51 +176,59 @@ func CompressRLERecursive(input io.Reader, output io.Writer) (int64, error) {
 
 // DecompressRLERecursive is the decompression counterpart to CompressRLERecursive.
 func DecompressRLERecursive(input io.Reader, output io.Writer) (int64, error) {
-	grouper := NewRLEGrouperFromReader(input)
-
+	source := bufio.NewReader(input)
+	lastByteRead := -1
 	totalBytesWritten := int64(0)
+
 	for {
-		run, getRunErr := grouper.GetNextRun()
-		if getRunErr != nil && !errors.Is(getRunErr, io.EOF) {
-			// An error was encountered and it's *not* EOF.
-			return totalBytesWritten, getRunErr
+		currentByte, err := source.ReadByte()
+		if err != nil {
+			if errors.Is(err, io.EOF) {
+				return totalBytesWritten, nil
+			}
+			return totalBytesWritten, fmt.Errorf("error reading input: %w", err)
 		}
 
-		if run.RunLength == 1 {
-			_, err := output.Write([]byte{run.Byte})
-			if err != nil {
-				return totalBytesWritten, err
-			}
-			totalBytesWritten++
-		} else if run.RunLength >= 2 {
-			_, err := output.Write([]byte{run.Byte, run.Byte})
-			if err != nil {
-				return totalBytesWritten, err
-			}
-			totalBytesWritten += 2
+		n, err := output.Write([]byte{currentByte})
+		if err != nil {
+			return totalBytesWritten, fmt.Errorf("failed to write to output: %w", err)
+		}
+		totalBytesWritten += int64(n)
 
-			num255Repetitions := (run.RunLength - 2) / 255
-			remainder := (run.RunLength - 2) % 255
+		if int(currentByte) != lastByteRead {
+			lastByteRead = int(currentByte)
+			continue
+		}
 
-			_, err = output.Write(bytes.Repeat([]byte{255}, num255Repetitions))
+		// Got two bytes in a row that are the same. The following bytes up to and
+		// including the first one that isn't 255 add up to the repeat count.
+		for {
+			repeatCountByte, err := source.ReadByte()
 			if err != nil {
-				return totalBytesWritten, err
+				if errors.Is(err, io.EOF) {
+					err = fmt.Errorf(
+						"%w: missing repeat count after two %02x bytes",
+						io.ErrUnexpectedEOF,
+						uint(lastByteRead),
+					)
+				}
+				return totalBytesWritten, fmt.Errorf("error reading input: %w", err)
 			}
-			totalBytesWritten += int64(num255Repetitions)
 
-			_, err = output.Write([]byte{byte(remainder)})
+			n, err := output.Write(
+				bytes.Repeat([]byte{currentByte}, int(repeatCountByte)))
 			if err != nil {
-				return totalBytesWritten, err
+				return totalBytesWritten,
+					fmt.Errorf("failed to write to output: %w", err)
 			}
+			totalBytesWritten += int64(n)
 
-			totalBytesWritten++
+			if repeatCountByte != 255 {
+				break
+			}
 		}
 
-		// We bail at the beginning of the loop if an error occurred and it's
-		// *not* EOF, so if the error here is non-nil then that means it *must*
-		// be EOF. That means we finished without errors.
-		if getRunErr != nil {
-			return totalBytesWritten, nil
-		}
+		// Reset the last byte read since we're done with this group.
+		lastByteRead = -1
 	}
 }
-- 
2.43.0


From e22b48741b8f668dd180dc4d6170ebc48c104b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:31 +0000
Subject: [PATCH 14/58] fix: FAT8 block bounds checks must accept the last
 block and not overflow

---
 file_systems/fat8/iobase.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/file_systems/fat8/iobase.go b/file_systems/fat8/iobase.go
index d9dab62..434a9b5 100644
--- a/file_systems/fat8/iobase.go
+++ b/file_systems/fat8/iobase.go
@@ -10,11 +10,12 @@ import (
 // BLOCK-LEVEL ACCESS ==========================================================
 
 func (driver *FAT8Driver) ReadDiskBlocks(start PhysicalBlock, count uint) ([]byte, error) {
-	if (uint(start) + count) >= uint(driver.stat.TotalBlocks) {
+	totalBlocks := uint(driver.stat.TotalBlocks)
+	if count > totalBlocks || uint(start) > totalBlocks-count {
 		return nil, fmt.Errorf(
 			"refusing to read past end of image: %d blocks at %d exceeds limit of %d",
-			start,
 			count,
+			start,
 			driver.stat.TotalBlocks,
 		)
 	}
@@ -35,7 +36,8 @@ func (driver *FAT8Driver) WriteDiskBlocks(start PhysicalBlock, data []byte) erro
 	}
 
 	numBlocksToWrite := uint64(len(data) / 128)
-	if uint64(start)+numBlocksToWrite > driver.stat.TotalBlocks {
+	if numBlocksToWrite > driver.stat.TotalBlocks ||
+		uint64(start) > driver.stat.TotalBlocks-numBlocksToWrite {
 		return disko.ErrIOFailed.WithMessage(
 			fmt.Sprintf(
 				"refusing to write past end of image: %d blocks at %d exceeds limit of %d",
-- 
2.43.0


From eb567b6eaea0dc85cb778140f2d976f4bea9a7ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:32 +0000
Subject: [PATCH 15/58] fix: FAT8 cluster access must use the right sectors

Clusters are numbered from 1 and are half a track each; writing a cluster used
the size of a track, and reading a file's cluster was off by one.
---
 file_systems/fat8/iobase.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/file_systems/fat8/iobase.go b/file_systems/fat8/iobase.go
index 434a9b5..965dc71 100644
--- a/file_systems/fat8/iobase.go
+++ b/file_systems/fat8/iobase.go
@@ -90,7 +90,7 @@ func (driver *FAT8Driver) WriteAbsoluteCluster(clusterID PhysicalCluster, data [
 			len(data))
 	}
 
-	physicalBlock := uint(clusterID-1) * driver.geometry.SectorsPerTrack
+	physicalBlock := uint(clusterID-1) * driver.geometry.SectorsPerCluster
 	return driver.WriteDiskBlocks(PhysicalBlock(physicalBlock), data)
 }
 
@@ -138,7 +138,7 @@ func (driver *FAT8Driver) writeFAT() error {
 func (driver *FAT8Driver) ReadFileCluster(
 	dirent *DirectoryEntry, cluster LogicalCluster,
 ) ([]byte, error) {
-	if int(cluster) >= len(dirent.clusters) {
+	if uint(cluster) >= uint(len(dirent.clusters)) {
 		return nil, fmt.Errorf(
 			"cluster index out of bounds: %d not in [0, %d)",
 			cluster,
@@ -147,14 +147,13 @@ func (driver *FAT8Driver) ReadFileCluster(
 	}
 
 	physicalCluster := dirent.clusters[cluster]
-	physicalBlock := PhysicalBlock(uint(physicalCluster) * driver.geometry.SectorsPerCluster)
-	return driver.ReadDiskBlocks(physicalBlock, driver.geometry.SectorsPerCluster)
+	return driver.ReadAbsoluteCluster(physicalCluster)
 }
 
 func (driver *FAT8Driver) WriteFileCluster(
 	dirent *DirectoryEntry, cluster LogicalCluster, data []byte,
 ) error {
-	if int(cluster) >= len(dirent.clusters) {
+	if uint(cluster) >= uint(len(dirent.clusters)) {
 		return fmt.Errorf(
 			"cluster index out of bounds: %d not in [0, %d)",
 			cluster,
-- 
2.43.0


From 21c9411696fcb0ce6262bcbe0da4f5adc49cfae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:33 +0000
Subject: [PATCH 16/58] fix: mounting a FAT8 image must work on a new driver
 and list free clusters once

The image size was only known after formatting so mounting always failed, the list
of free clusters included bytes past the end of the table, and it kept the entries
of the previous mount.
---
 file_systems/fat8/driver.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/file_systems/fat8/driver.go b/file_systems/fat8/driver.go
index 1fae1ba..a3de9c6 100644
--- a/file_systems/fat8/driver.go
+++ b/file_systems/fat8/driver.go
@@ -68,6 +68,13 @@ func (driver *FAT8Driver) Mount(flags disko.MountFlags) error {
 	}
 	driver.geometry = geo
 
+	// Block access is limited by the size of the image.
+	driver.stat = disko.FSStat{
+		BlockSize:     128,
+		TotalBlocks:   uint64(offset) / 128,
+		MaxNameLength: 10,
+	}
+
 	// All FATs are identical on a clean volume, so we only need to store the
 	// first one. We might add dirty volume checking later.
 	fat, err := driver.GetFAT()
@@ -77,12 +84,17 @@ func (driver *FAT8Driver) Mount(flags disko.MountFlags) error {
 	driver.fat = fat
 
 	// Build a list of all currently free clusters.
-	for i, clusterNumber := range fat {
+	driver.freeClusters = nil
+	for i, clusterNumber := range fat[:geo.TotalClusters] {
 		if clusterNumber == 0xff {
 			driver.freeClusters = append(driver.freeClusters, uint8(i+1))
 		}
 	}
 
+	freeBlocks := uint64(len(driver.freeClusters)) * uint64(geo.SectorsPerCluster)
+	driver.stat.BlocksFree = freeBlocks
+	driver.stat.BlocksAvailable = freeBlocks
+
 	// Get the info sector, which always immediately precedes the FATs. The first
 	// byte of the info sector tells us what the default attributes should be for
 	// new files; the rest is not defined by the standard.
-- 
2.43.0


From b8db436052c0c010a65c0ad0c2ba59a493ffa0a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:34 +0000
Subject: [PATCH 17/58] fix: formatting a FAT8 image must clear it, and fail if
 it can't be resized

---
 file_systems/fat8/formattingdriver.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/file_systems/fat8/formattingdriver.go b/file_systems/fat8/formattingdriver.go
index 6ea1815..e889a00 100644
--- a/file_systems/fat8/formattingdriver.go
+++ b/file_systems/fat8/formattingdriver.go
@@ -60,7 +60,14 @@ func (driver *FAT8Driver) FormatImage(options disks.BasicFormatterOptions) error
 
 	// Create a blank image filled with null bytes
 	fileSize := 128 * geo.TrueTotalTracks * geo.SectorsPerTrack
-	driver.image.Truncate(int64(fileSize))
+	err = driver.image.Truncate(0)
+	if err != nil {
+		return err
+	}
+	err = driver.image.Truncate(int64(fileSize))
+	if err != nil {
+		return err
+	}
 
 	// According to the documentation, a newly formatted image must have the
 	// directory entries filled with 0xFF. Write out FF to all the dirents, up
-- 
2.43.0


From 76def21a445a4b18afc7a19bcdae0da3f3e3d8f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:35 +0000
Subject: [PATCH 18/58] fix: formatting a FAT8 image must reserve the clusters
 of the directory track

The track number was used as the cluster number, although there are two clusters
per track. The reference minifloppy image has it right.
---
 file_systems/fat8/formattingdriver.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/file_systems/fat8/formattingdriver.go b/file_systems/fat8/formattingdriver.go
index e889a00..0f06c68 100644
--- a/file_systems/fat8/formattingdriver.go
+++ b/file_systems/fat8/formattingdriver.go
@@ -90,10 +90,10 @@ func (driver *FAT8Driver) FormatImage(options disks.BasicFormatterOptions) error
 	// track.
 
 	// Construct a single copy of the FAT, and mark the directory track as
-	// reserved by putting 0xFE in its cluster entry. (It's always the middle
+	// reserved by putting 0xFE in its cluster entries. (It's always the middle
 	// track.)
 	fat := bytes.Repeat([]byte{0xff}, int(geo.SectorsPerFAT)*128)
-	directoryClusterNumber := uint(geo.DirectoryTrackStart) / geo.SectorsPerTrack
+	directoryClusterNumber := uint(geo.DirectoryTrackStart) / geo.SectorsPerCluster
 	fat[directoryClusterNumber] = 0xfe
 	fat[directoryClusterNumber+1] = 0xfe
 
-- 
2.43.0


From d35766a19a90b1d3ad51f7221e5493699f822657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:36 +0000
Subject: [PATCH 19/58] fix: FAT8 filenames must always be nine bytes long

The padding counted characters instead of bytes, and converting to uppercase
afterwards can change the length.
---
 file_systems/fat8/common.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/file_systems/fat8/common.go b/file_systems/fat8/common.go
index 13eac3f..61dc587 100644
--- a/file_systems/fat8/common.go
+++ b/file_systems/fat8/common.go
@@ -92,7 +92,7 @@ func FilenameToBytes(name string) ([]byte, error) {
 		return nil, disko.ErrInvalidArgument.WithMessage("filename must not be empty")
 	}
 
-	parts := strings.SplitN(name, ".", 2)
+	parts := strings.SplitN(strings.ToUpper(name), ".", 2)
 
 	// Unless we got an empty string, this will always have at least one element,
 	// the stem of the filename. This cannot be longer than 6 characters.
@@ -102,7 +102,10 @@ func FilenameToBytes(name string) ([]byte, error) {
 		return nil, disko.ErrNameTooLong.WithMessage(message)
 	}
 
-	var paddedName string
+	// Names are padded with spaces to a fixed number of bytes.
+	paddedName := bytes.Repeat([]byte{' '}, 9)
+	copy(paddedName, parts[0])
+
 	// If there are two parts to the filename then there's an extension (probably)
 	if len(parts) == 2 {
 		if len(parts[1]) == 0 {
@@ -117,13 +120,10 @@ func FilenameToBytes(name string) ([]byte, error) {
 			return nil, disko.ErrNameTooLong.WithMessage(message)
 		}
 
-		paddedName = fmt.Sprintf("%-6s%-3s", parts[0], parts[1])
-	} else {
-		// Filename has no extension.
-		paddedName = fmt.Sprintf("%-9s", parts[0])
+		copy(paddedName[6:], parts[1])
 	}
 
-	return []byte(strings.ToUpper(paddedName)), nil
+	return paddedName, nil
 }
 
 // BytesToFilename converts the on-disk representation of a filename into its
-- 
2.43.0


From 04ddbd0bf92d79608e8c13cb61a8533d39478f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:37 +0000
Subject: [PATCH 20/58] fix: decoding a FAT8 filename of the wrong length must
 fail instead of crashing

---
 file_systems/fat8/common.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/file_systems/fat8/common.go b/file_systems/fat8/common.go
index 61dc587..961e1b8 100644
--- a/file_systems/fat8/common.go
+++ b/file_systems/fat8/common.go
@@ -130,6 +130,11 @@ func FilenameToBytes(name string) ([]byte, error) {
 // user-friendly form.
 // TODO(dargueta): Validate binary data
 func BytesToFilename(rawName []byte) (string, error) {
+	if len(rawName) != 9 {
+		return "", disko.ErrInvalidArgument.WithMessage(
+			fmt.Sprintf("raw filename must be nine bytes, got %d", len(rawName)))
+	}
+
 	stem := bytes.TrimRight(rawName[:6], " ")
 	extension := bytes.TrimRight(rawName[6:], " ")
 
-- 
2.43.0


From 5f5bfcf0ed508e6c50442d6ef76365d8bbcebd33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:31 +0000
Subject: [PATCH 21/58] fix: parsing a FAT boot sector must not crash

encoding/binary can't read into unexported fields, so every attempt panicked.
---
 file_systems/fat/common.go | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/file_systems/fat/common.go b/file_systems/fat/common.go
index 43e7195..1c015ff 100644
--- a/file_systems/fat/common.go
+++ b/file_systems/fat/common.go
@@ -25,13 +25,13 @@ type RawFATBootSectorWithBPB struct {
 	ReservedSectors   uint16
 	NumFATs           uint8
 	RootEntryCount    uint16
-	totalSectors16    uint16
+	TotalSectors16    uint16
 	Media             uint8
-	sectorsPerFAT16   uint16
+	SectorsPerFAT16   uint16
 	SectorsPerTrack   uint16
 	NumHeads          uint16
 	HiddenSectors     uint32
-	totalSectors32    uint32
+	TotalSectors32    uint32
 }
 
 // FATBootSector extends RawFATBootSectorWithBPB with precomputed fields useful in other
@@ -83,17 +83,17 @@ func NewFATBootSectorFromStream(reader io.Reader) (*FATBootSector, error) {
 	}
 
 	var sectorsPerFAT uint
-	if rawHeader.sectorsPerFAT16 != 0 {
-		sectorsPerFAT = uint(rawHeader.sectorsPerFAT16)
+	if rawHeader.SectorsPerFAT16 != 0 {
+		sectorsPerFAT = uint(rawHeader.SectorsPerFAT16)
 	} else {
 		sectorsPerFAT = uint(sectorsPerFAT32)
 	}
 
 	var totalSectors uint
-	if rawHeader.totalSectors16 != 0 {
-		totalSectors = uint(rawHeader.totalSectors16)
+	if rawHeader.TotalSectors16 != 0 {
+		totalSectors = uint(rawHeader.TotalSectors16)
 	} else {
-		totalSectors = uint(rawHeader.totalSectors32)
+		totalSectors = uint(rawHeader.TotalSectors32)
 	}
 
 	// The number of sectors taken up by the root directory. On FAT32 systems, this will
@@ -163,13 +163,13 @@ func NewFATBootSectorFromStream(reader io.Reader) (*FATBootSector, error) {
 			ReservedSectors:   rawHeader.ReservedSectors,
 			NumFATs:           rawHeader.NumFATs,
 			RootEntryCount:    rawHeader.RootEntryCount,
-			totalSectors16:    rawHeader.totalSectors16,
+			TotalSectors16:    rawHeader.TotalSectors16,
 			Media:             rawHeader.Media,
-			sectorsPerFAT16:   rawHeader.sectorsPerFAT16,
+			SectorsPerFAT16:   rawHeader.SectorsPerFAT16,
 			SectorsPerTrack:   rawHeader.SectorsPerTrack,
 			NumHeads:          rawHeader.NumHeads,
 			HiddenSectors:     rawHeader.HiddenSectors,
-			totalSectors32:    rawHeader.totalSectors32,
+			TotalSectors32:    rawHeader.TotalSectors32,
 		},
 		SectorsPerFAT:     sectorsPerFAT,
 		TotalFATSectors:   totalFATSectors,
-- 
2.43.0


From 4667313a0d8516c02bcd81389f5d878269448603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:32 +0000
Subject: [PATCH 22/58] fix: derived values of the FAT boot sector must follow
 the specification

The data area is what's left after the reserved sectors, the FATs, and the root
directory. Sector and cluster sizes must be checked before dividing by them, and
the size of the root directory overflowed for more than 2047 entries.
---
 file_systems/fat/common.go | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/file_systems/fat/common.go b/file_systems/fat/common.go
index 1c015ff..a55333b 100644
--- a/file_systems/fat/common.go
+++ b/file_systems/fat/common.go
@@ -96,15 +96,6 @@ func NewFATBootSectorFromStream(reader io.Reader) (*FATBootSector, error) {
 		totalSectors = uint(rawHeader.TotalSectors32)
 	}
 
-	// The number of sectors taken up by the root directory. On FAT32 systems, this will
-	// be 0.
-	rootDirSectors := uint(
-		((rawHeader.RootEntryCount * 32) + (rawHeader.BytesPerSector - 1)) / rawHeader.BytesPerSector)
-
-	totalFATSectors := uint(rawHeader.NumFATs) * sectorsPerFAT
-	dataSectors := totalSectors - uint(rawHeader.ReservedSectors) + totalFATSectors + uint(rootDirSectors)
-	totalClusters := dataSectors / uint(rawHeader.SectorsPerCluster)
-
 	// BytesPerSector must be 512, 1024, 2048, or 4096.
 	switch rawHeader.BytesPerSector {
 	case 512:
@@ -135,6 +126,24 @@ func NewFATBootSectorFromStream(reader io.Reader) (*FATBootSector, error) {
 		return nil, disko.ErrFileSystemCorrupted.WithMessage(message)
 	}
 
+	// The number of sectors taken up by the root directory. On FAT32 systems, this will
+	// be 0.
+	bytesPerSector := uint(rawHeader.BytesPerSector)
+	rootDirSectors := ((uint(rawHeader.RootEntryCount) * 32) + (bytesPerSector - 1)) / bytesPerSector
+
+	totalFATSectors := uint(rawHeader.NumFATs) * sectorsPerFAT
+	metadataSectors := uint(rawHeader.ReservedSectors) + totalFATSectors + rootDirSectors
+	if metadataSectors > totalSectors {
+		message := fmt.Sprintf(
+			"corruption detected: %d sectors of metadata don't fit on a volume of %d sectors",
+			metadataSectors,
+			totalSectors)
+		return nil, disko.ErrFileSystemCorrupted.WithMessage(message)
+	}
+
+	dataSectors := totalSectors - metadataSectors
+	totalClusters := dataSectors / uint(rawHeader.SectorsPerCluster)
+
 	fatVersion := DetermineFATVersion(totalClusters)
 	if fatVersion == 32 && rootDirSectors != 0 {
 		message := fmt.Sprintf(
@@ -176,8 +185,8 @@ func NewFATBootSectorFromStream(reader io.Reader) (*FATBootSector, error) {
 		RootDirSectors:    rootDirSectors,
 		BytesPerCluster:   bytesPerCluster,
 		TotalClusters:     totalClusters,
-		TotalDataSectors:  totalSectors - (uint(rawHeader.ReservedSectors) + totalFATSectors + rootDirSectors),
-		FirstDataSector:   SectorID(uint(rawHeader.ReservedSectors) + rootDirSectors),
+		TotalDataSectors:  dataSectors,
+		FirstDataSector:   SectorID(metadataSectors),
 		FATVersion:        fatVersion,
 		DirentsPerCluster: int(bytesPerCluster) / DirentSize,
 	}
-- 
2.43.0


From 323334162f53bace4891c1df301ed5880ba25980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:33 +0000
Subject: [PATCH 23/58] fix: FAT directory entries must be decoded from the
 right offsets

Everything after the extension was off by one, and decoding always crashed.
---
 file_systems/fat/dirent.go | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/file_systems/fat/dirent.go b/file_systems/fat/dirent.go
index aff9323..476db32 100644
--- a/file_systems/fat/dirent.go
+++ b/file_systems/fat/dirent.go
@@ -225,18 +225,23 @@ func AttrFlagsToFileMode(flags uint8) os.FileMode {
 // NewRawDirentFromBytes deserializes 32 bytes into a RawDirent struct for further
 // processing.
 func NewRawDirentFromBytes(data []byte) (RawDirent, error) {
+	if len(data) < DirentSize {
+		return RawDirent{}, disko.ErrInvalidArgument.WithMessage(
+			"not enough data for a directory entry")
+	}
+
 	dirent := RawDirent{
-		AttributeFlags:    data[12],
-		NTReserved:        data[13],
-		CreatedTimeMillis: data[14],
-		CreatedTime:       binary.LittleEndian.Uint16(data[15:17]),
-		CreatedDate:       binary.LittleEndian.Uint16(data[17:19]),
-		LastAccessedDate:  binary.LittleEndian.Uint16(data[19:21]),
-		FirstClusterHigh:  binary.LittleEndian.Uint16(data[21:23]),
-		LastModifiedTime:  binary.LittleEndian.Uint16(data[23:25]),
-		LastModifiedDate:  binary.LittleEndian.Uint16(data[25:27]),
-		FirstClusterLow:   binary.LittleEndian.Uint16(data[27:29]),
-		FileSize:          binary.LittleEndian.Uint32(data[29:32]),
+		AttributeFlags:    data[11],
+		NTReserved:        data[12],
+		CreatedTimeMillis: data[13],
+		CreatedTime:       binary.LittleEndian.Uint16(data[14:16]),
+		CreatedDate:       binary.LittleEndian.Uint16(data[16:18]),
+		LastAccessedDate:  binary.LittleEndian.Uint16(data[18:20]),
+		FirstClusterHigh:  binary.LittleEndian.Uint16(data[20:22]),
+		LastModifiedTime:  binary.LittleEndian.Uint16(data[22:24]),
+		LastModifiedDate:  binary.LittleEndian.Uint16(data[24:26]),
+		FirstClusterLow:   binary.LittleEndian.Uint16(data[26:28]),
+		FileSize:          binary.LittleEndian.Uint32(data[28:32]),
 	}
 
 	copy(dirent.Name[:], data[:8])
-- 
2.43.0


From d8ab26a1c98bf3efccb5a44da86c1cc0faabfbe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:33 +0000
Subject: [PATCH 24/58] fix: decoding FAT timestamps must not crash, and must
 use the hundredths field

A time zone is required by time.Date().
---
 file_systems/fat/dirent.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/file_systems/fat/dirent.go b/file_systems/fat/dirent.go
index 476db32..0176382 100644
--- a/file_systems/fat/dirent.go
+++ b/file_systems/fat/dirent.go
@@ -175,7 +175,7 @@ func DateFromInt(value uint16) time.Time {
 	createMonth := time.Month((value >> 5) & 0x000f)
 	createYear := int(1980 + (value >> 9))
 
-	return time.Date(createYear, createMonth, createDay, 0, 0, 0, 0, nil)
+	return time.Date(createYear, createMonth, createDay, 0, 0, 0, 0, time.Local)
 }
 
 // TimestampFromParts converts a FAT timestamp into a [time.Time] object.
@@ -192,10 +192,17 @@ func TimestampFromParts(datePart uint16, timePart uint16, hundredths uint8) time
 
 	minutes := int((timePart >> 5) & 0x003f)
 	hours := int(timePart >> 11)
-	nanoseconds := int(timePart * 10000)
+	nanoseconds := int(hundredths) * 10_000_000
 
 	return time.Date(
-		dateDt.Year(), dateDt.Month(), dateDt.Day(), hours, minutes, seconds, nanoseconds, nil)
+		dateDt.Year(),
+		dateDt.Month(),
+		dateDt.Day(),
+		hours,
+		minutes,
+		seconds,
+		nanoseconds,
+		time.Local)
 }
 
 // AttrFlagsToFileMode converts FAT attribute flags into the mode flags used by
-- 
2.43.0


From 7377465ff7815ded65e3a333769a680b6f39fc92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:34 +0000
Subject: [PATCH 25/58] fix: FAT directories must be recognized as such

The flags of the host's stat() call aren't the ones os.FileMode uses, so nothing
was ever a directory. Also, nobody can write read-only files.
---
 file_systems/fat/dirent.go | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/file_systems/fat/dirent.go b/file_systems/fat/dirent.go
index 0176382..8c4145f 100644
--- a/file_systems/fat/dirent.go
+++ b/file_systems/fat/dirent.go
@@ -205,25 +205,22 @@ func TimestampFromParts(datePart uint16, timePart uint16, hundredths uint8) time
 		time.Local)
 }
 
-// AttrFlagsToFileMode converts FAT attribute flags into the mode flags used by
-// [syscall.Stat_t.Mode].
+// AttrFlagsToFileMode converts FAT attribute flags into [os.FileMode] flags.
 func AttrFlagsToFileMode(flags uint8) os.FileMode {
 	var mode os.FileMode
 
 	// FAT has no way to mark files as executable or not, so the executable bit
 	// is always set.
 	if (flags & AttrReadOnly) != 0 {
-		mode = 0o755
+		mode = 0o555
 	} else {
 		mode = 0o777
 	}
 
 	if (flags & AttrDirectory) != 0 {
-		mode |= syscall.S_IFDIR
+		mode |= os.ModeDir
 	} else if (flags & AttrDevice) != 0 {
-		mode |= syscall.S_IFCHR
-	} else {
-		mode |= syscall.S_IFREG
+		mode |= os.ModeDevice | os.ModeCharDevice
 	}
 
 	return mode
-- 
2.43.0


From 245d7bff556c2add4f72098c48e39692333d42b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:35 +0000
Subject: [PATCH 26/58] fix: a FAT directory entry with a blank name must not
 crash the driver

---
 file_systems/fat/dirent.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/file_systems/fat/dirent.go b/file_systems/fat/dirent.go
index 8c4145f..03d52a9 100644
--- a/file_systems/fat/dirent.go
+++ b/file_systems/fat/dirent.go
@@ -311,14 +311,14 @@ func NewDirentFromRaw(bootSector *FATBootSector, rawDirent *RawDirent) (Dirent,
 	trimmedName := strings.TrimRight(string(rawDirent.Name[:]), " ")
 	trimmedExt := strings.TrimRight(string(rawDirent.Extension[:]), " ")
 
-	if trimmedName[0] == 0xE5 {
+	if rawDirent.Name[0] == 0xE5 {
 		// Represents a deleted file. The real first character of the filename is in
 		// CreatedTimeMillis.
 		trimmedName = string([]byte{rawDirent.CreatedTimeMillis}) + trimmedName[1:]
-	} else if trimmedName[0] == 0x05 {
+	} else if rawDirent.Name[0] == 0x05 {
 		// First character of the filename is E5.
 		trimmedName = "\xe5" + trimmedName[1:]
-	} else if trimmedName[0] == 0 {
+	} else if rawDirent.Name[0] == 0 {
 		// This directory entry is free and thus invalid.
 		return Dirent{}, disko.ErrNotFound
 	}
-- 
2.43.0


From 539057dca23c948371637d8f999c6e3696468900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:36 +0000
Subject: [PATCH 27/58] fix: setting the deletion time of a FAT directory entry
 must work

It tried to set the creation time, which is refused for deleted entries.
---
 file_systems/fat/dirent.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/file_systems/fat/dirent.go b/file_systems/fat/dirent.go
index 03d52a9..8235064 100644
--- a/file_systems/fat/dirent.go
+++ b/file_systems/fat/dirent.go
@@ -162,7 +162,8 @@ func (d *Dirent) SetDeletedAt(t time.Time) error {
 		return disko.ErrArgumentOutOfRange
 	}
 	d.isDeleted = true
-	return d.SetCreatedAt(t)
+	d.stat.DeletedAt = t
+	return nil
 }
 
 // DirentSize is the size of a single raw directory entry, in bytes.
-- 
2.43.0


From efd80c8657f8902c535d646ca3893ca908c90a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:37 +0000
Subject: [PATCH 28/58] fix: comparing FAT files must not crash

---
 file_systems/fat/driverbase.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/file_systems/fat/driverbase.go b/file_systems/fat/driverbase.go
index c250927..78593cb 100644
--- a/file_systems/fat/driverbase.go
+++ b/file_systems/fat/driverbase.go
@@ -245,10 +245,11 @@ func (drv *FATDriver) Readlink(path string) (string, error) {
 
 // SameFile determines if two FileInfos reference the same file.
 func (drv *FATDriver) SameFile(fi1, fi2 os.FileInfo) bool {
-	dirLeft := fi1.Sys().(Dirent)
-	dirRight := fi2.Sys().(Dirent)
+	statLeft := fi1.Sys().(disko.FileStat)
+	statRight := fi2.Sys().(disko.FileStat)
 
-	return dirLeft.FirstCluster == dirRight.FirstCluster
+	// The inode number is the first cluster.
+	return statLeft.InodeNumber == statRight.InodeNumber
 }
 
 // TODO: Open
-- 
2.43.0


From fcbcb28f8d2029f899a4c7839eecff9be0484391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:38 +0000
Subject: [PATCH 29/58] fix: reading a FAT cluster must read all of its sectors
 from the right place

Clusters are numbered from 2. Only a single sector was read, from the wrong
offset.
---
 file_systems/fat/driverbase.go | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/file_systems/fat/driverbase.go b/file_systems/fat/driverbase.go
index 78593cb..a17486c 100644
--- a/file_systems/fat/driverbase.go
+++ b/file_systems/fat/driverbase.go
@@ -36,25 +36,26 @@ type FATDriver struct {
 func (drv *FATDriver) getFirstSectorOfCluster(cluster ClusterID) (SectorID, error) {
 	bootSector := drv.fs.GetBootSector()
 	return bootSector.FirstDataSector + SectorID(
-		uint32(bootSector.SectorsPerCluster)*uint32(cluster)), nil
+		uint32(bootSector.SectorsPerCluster)*uint32(cluster-2)), nil
 }
 
 func (drv *FATDriver) readAbsoluteSectors(sector SectorID, numSectors uint) ([]byte, error) {
 	bootSector := drv.fs.GetBootSector()
 
-	buffer := make([]byte, bootSector.BytesPerSector)
+	buffer := make([]byte, uint(bootSector.BytesPerSector)*numSectors)
 	diskFile := drv.diskFile.(io.ReaderAt)
 
-	nRead, err := diskFile.ReadAt(buffer, int64(bootSector.BytesPerSector)*int64(sector)*int64(numSectors))
+	nRead, err := diskFile.ReadAt(buffer, int64(bootSector.BytesPerSector)*int64(sector))
 
-	if err != nil {
+	// Reading the end of the image can give us EOF even if we got all the data.
+	if nRead == len(buffer) {
+		return buffer, nil
+	} else if err != nil {
 		return buffer, err
-	} else if nRead < int(bootSector.BytesPerSector) {
+	} else {
 		return nil, fmt.Errorf(
-			"unexpected short read. Wanted %d bytes, got %d", bootSector.BytesPerSector, nRead)
+			"unexpected short read. Wanted %d bytes, got %d", len(buffer), nRead)
 	}
-
-	return buffer, nil
 }
 
 // readCluster returns the bytes of the `index`th cluster on the file system.
-- 
2.43.0


From 7488575da597ed4ca252b1b84bfc8c65301248c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:39 +0000
Subject: [PATCH 30/58] fix: listing a FAT cluster chain must terminate, and
 succeed for valid chains

The end-of-chain marker isn't a valid cluster so every chain was treated as
corrupted, and a cyclic chain made it run out of memory.
---
 file_systems/fat/driverbase.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/file_systems/fat/driverbase.go b/file_systems/fat/driverbase.go
index a17486c..869dd9b 100644
--- a/file_systems/fat/driverbase.go
+++ b/file_systems/fat/driverbase.go
@@ -74,7 +74,7 @@ func (drv *FATDriver) readCluster(cluster ClusterID) ([]byte, error) {
 // The returned list will always have chainStart as its first member, unless chainStart
 // is an EOF marker (e.g. 0xFFF on FAT12 systems). In this case, the list is empty.
 func (drv *FATDriver) listClusters(chainStart ClusterID) ([]ClusterID, error) {
-	if !drv.fs.IsValidCluster(chainStart) {
+	if !drv.fs.IsValidCluster(chainStart) && !drv.fs.IsEndOfChain(chainStart) {
 		return nil, disko.ErrInvalidArgument.WithMessage(
 			fmt.Sprintf("invalid cluster 0x%x cannot start a cluster chain", chainStart))
 	}
@@ -84,6 +84,11 @@ func (drv *FATDriver) listClusters(chainStart ClusterID) ([]ClusterID, error) {
 	i := 0
 
 	for !drv.fs.IsEndOfChain(currentCluster) {
+		if uint(i) >= drv.fs.GetBootSector().TotalClusters {
+			// The chain has more clusters than the volume.
+			return chain, disko.ErrFileSystemCorrupted.WithMessage(
+				fmt.Sprintf("cluster chain from %d loops", chainStart))
+		}
 		chain = append(chain, currentCluster)
 
 		nextCluster, err := drv.fs.GetClusterAtIndex(uint(currentCluster))
@@ -91,7 +96,7 @@ func (drv *FATDriver) listClusters(chainStart ClusterID) ([]ClusterID, error) {
 			return nil, err
 		}
 
-		if !drv.fs.IsValidCluster(nextCluster) {
+		if !drv.fs.IsValidCluster(nextCluster) && !drv.fs.IsEndOfChain(nextCluster) {
 			// Hit an invalid cluster. This is not the same as EOF, and usually indicates
 			// corruption of some sort.
 			return chain, disko.ErrFileSystemCorrupted.WithMessage(
-- 
2.43.0


From d634219fb699702c455ff6359b15da549f9fa96f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:40 +0000
Subject: [PATCH 31/58] fix: an invalid FAT cluster must not be returned as the
 first one in a chain

---
 file_systems/fat/driverbase.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/file_systems/fat/driverbase.go b/file_systems/fat/driverbase.go
index 869dd9b..a9becef 100644
--- a/file_systems/fat/driverbase.go
+++ b/file_systems/fat/driverbase.go
@@ -121,6 +121,10 @@ func (drv *FATDriver) listClusters(chainStart ClusterID) ([]ClusterID, error) {
 // and the Error object in the second return value will indicate what went wrong.
 func (drv *FATDriver) getClusterInChain(firstCluster ClusterID, index uint) (ClusterID, error) {
 	currentCluster := firstCluster
+	if drv.fs.IsEndOfChain(firstCluster) || !drv.fs.IsValidCluster(firstCluster) {
+		return 0, disko.ErrInvalidArgument.WithMessage(
+			fmt.Sprintf("invalid cluster 0x%x cannot start a cluster chain", firstCluster))
+	}
 
 	for i := uint(0); i < index; i++ {
 		nextCluster, err := drv.fs.GetClusterAtIndex(uint(currentCluster))
-- 
2.43.0


From e59e07c7f355617f0df6e4dcb519d5476f5d7a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:15 +0000
Subject: [PATCH 32/58] fix: reading a FAT directory must stop at the end of
 its cluster chain

A directory that exactly fills its clusters couldn't be read, and a cyclic chain
made it loop forever.
---
 file_systems/fat/driverbase.go | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/file_systems/fat/driverbase.go b/file_systems/fat/driverbase.go
index a9becef..3e9488f 100644
--- a/file_systems/fat/driverbase.go
+++ b/file_systems/fat/driverbase.go
@@ -217,9 +217,18 @@ func (drv *FATDriver) readDirFromDirent(directoryDirent *Dirent) ([]Dirent, erro
 	bootSector := drv.fs.GetBootSector()
 	allDirents := []Dirent{}
 
-	i := uint(0)
-	for {
-		clusterData, err := drv.readClusterOfDirent(directoryDirent, i)
+	// The root directory isn't a file on FAT 12/16. It's identified by cluster 0.
+	if directoryDirent.FirstCluster == 0 {
+		return drv.fs.ListRootDirectory()
+	}
+
+	clusters, err := drv.listClusters(directoryDirent.FirstCluster)
+	if err != nil {
+		return nil, err
+	}
+
+	for _, cluster := range clusters {
+		clusterData, err := drv.readCluster(cluster)
 		if err != nil {
 			return nil, err
 		}
@@ -233,8 +242,6 @@ func (drv *FATDriver) readDirFromDirent(directoryDirent *Dirent) ([]Dirent, erro
 		if len(clusterDirents) < bootSector.DirentsPerCluster {
 			break
 		}
-
-		i++
 	}
 
 	return allDirents, nil
-- 
2.43.0


From f2fee12f4b408d96c5415a3b4b508a84fad08a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:16 +0000
Subject: [PATCH 33/58] fix: FAT path lookup must find the named entry or fail

The path was split as if it were a list of search paths, every component was read
as a directory including the last one, deleted entries were found, and neither
missing components nor failures to read the root directory were errors.
---
 file_systems/fat/driverbase.go | 46 +++++++++++++++++++++++-----------
 1 file changed, 32 insertions(+), 14 deletions(-)

diff --git a/file_systems/fat/driverbase.go b/file_systems/fat/driverbase.go
index 3e9488f..3637998 100644
--- a/file_systems/fat/driverbase.go
+++ b/file_systems/fat/driverbase.go
@@ -5,7 +5,9 @@ import (
 	"fmt"
 	"io"
 	"os"
+	posixpath "path"
 	"path/filepath"
+	"strings"
 	"time"
 
 	"github.com/dargueta/disko"
@@ -173,35 +175,51 @@ func (drv *FATDriver) readClusterOfDirent(dirent *Dirent, index uint) ([]byte, e
 // path. If an error occurs, the second return value is an Error object indicating what
 // went wrong.
 func (drv *FATDriver) resolvePathToDirent(path string) (Dirent, error) {
-	cleanedPath := filepath.Clean(path)
-	pathParts := filepath.SplitList(cleanedPath)
+	cleanedPath := posixpath.Clean("/" + filepath.ToSlash(path))
 
-	if len(pathParts) == 0 {
-		// Caller gave us an empty path after components were resolved.
-		return Dirent{}, disko.ErrInvalidArgument.WithMessage(
-			fmt.Sprintf("file path %q resolves to empty path", path))
+	// The root directory has no directory entry of its own, so we need to start with
+	// a fake one.
+	currentDirent := Dirent{
+		name:           "/",
+		AttributeFlags: AttrDirectory,
+		mode:           AttrFlagsToFileMode(AttrDirectory),
 	}
+	currentDirent.stat.ModeFlags = currentDirent.mode
+
+	if cleanedPath == "/" {
+		return currentDirent, nil
+	}
+	pathParts := strings.Split(cleanedPath[1:], "/")
 
 	// Get a listing for the root directory. We need to call a separate function because
 	// unlike FAT 32, FAT 12/16 have fixed-size root directories that aren't actually files.
 	// Drivers must give us a list of directory entries in the root directory.
 	currentDirContents, err := drv.fs.ListRootDirectory()
 	if err != nil {
-		return Dirent{}, nil
+		return Dirent{}, err
 	}
 
-	var currentDirent Dirent
+	for i, component := range pathParts {
+		if i > 0 {
+			currentDirContents, err = drv.readDirFromDirent(&currentDirent)
+			if err != nil {
+				return Dirent{}, err
+			}
+		}
 
-	for _, component := range pathParts {
+		found := false
 		for _, entry := range currentDirContents {
-			if entry.name == component {
+			if entry.name == component && !entry.isDeleted {
 				currentDirent = entry
-				currentDirContents, err = drv.readDirFromDirent(&entry)
-				if err != nil {
-					return Dirent{}, err
-				}
+				found = true
+				break
 			}
 		}
+
+		if !found {
+			return Dirent{}, disko.ErrNotFound.WithMessage(
+				fmt.Sprintf("can't find %q in path %q", component, path))
+		}
 	}
 
 	return currentDirent, nil
-- 
2.43.0


From cb00d6819ef4c60e7bda281719dc413e1c67a457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:17 +0000
Subject: [PATCH 34/58] fix: reading a FAT file must not depend on the length
 of its cluster chain

Empty files couldn't be read or removed, files with preallocated clusters crashed,
and files with too few clusters were silently truncated.
---
 file_systems/fat/driverbase.go | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/file_systems/fat/driverbase.go b/file_systems/fat/driverbase.go
index 3637998..d509e46 100644
--- a/file_systems/fat/driverbase.go
+++ b/file_systems/fat/driverbase.go
@@ -118,6 +118,15 @@ func (drv *FATDriver) listClusters(chainStart ClusterID) ([]ClusterID, error) {
 
 }
 
+// listClustersOfDirent returns a list of every cluster of a file. An empty file may
+// have no clusters at all.
+func (drv *FATDriver) listClustersOfDirent(dirent *Dirent) ([]ClusterID, error) {
+	if dirent.FirstCluster == 0 && dirent.size == 0 {
+		return []ClusterID{}, nil
+	}
+	return drv.listClusters(dirent.FirstCluster)
+}
+
 // getClusterInChain returns the ID of the `index`th cluster in the chain starting at
 // `firstCluster`. Indexing begins at 0. A cluster ID of 0 indicates an error occurred,
 // and the Error object in the second return value will indicate what went wrong.
@@ -325,7 +334,7 @@ func (drv *FATDriver) ReadFile(path string) ([]byte, error) {
 		return nil, disko.ErrIsADirectory
 	}
 
-	allClusters, err := drv.listClusters(dirent.FirstCluster)
+	allClusters, err := drv.listClustersOfDirent(&dirent)
 	if err != nil {
 		return nil, err
 	}
@@ -338,6 +347,11 @@ func (drv *FATDriver) ReadFile(path string) ([]byte, error) {
 	// used.
 	buffer := new(bytes.Buffer)
 	for _, clusterID := range allClusters {
+		if bytesRemaining <= 0 {
+			// More clusters are allocated to this file than it needs.
+			break
+		}
+
 		clusterContents, err := drv.readCluster(clusterID)
 		if err != nil {
 			return nil, err
@@ -361,6 +375,10 @@ func (drv *FATDriver) ReadFile(path string) ([]byte, error) {
 		bytesRemaining -= int64(bs.BytesPerCluster)
 	}
 
+	if bytesRemaining > 0 {
+		return nil, disko.ErrFileSystemCorrupted.WithMessage(
+			fmt.Sprintf("cluster chain of %q is too short for its size", path))
+	}
 	return buffer.Bytes(), nil
 }
 
@@ -467,7 +485,7 @@ func (drv *FATDriver) Remove(path string) error {
 	}
 
 	// Successfully deleted the directory entry. Now we release its clusters.
-	fileClusters, err := drv.listClusters(dirent.FirstCluster)
+	fileClusters, err := drv.listClustersOfDirent(&dirent)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From d45cf8499a37c2864eba9499a7eed80f4061b34c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:18 +0000
Subject: [PATCH 35/58] fix: removing a FAT file must free its own clusters

It freed as many clusters from the beginning of the volume.
---
 file_systems/fat/driverbase.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/file_systems/fat/driverbase.go b/file_systems/fat/driverbase.go
index d509e46..75c79c0 100644
--- a/file_systems/fat/driverbase.go
+++ b/file_systems/fat/driverbase.go
@@ -494,7 +494,7 @@ func (drv *FATDriver) Remove(path string) error {
 	// if we hit an error then the dirent still points to the beginning of the cluster
 	// chain and we don't end up with an orphaned chain that would take up disk space.
 	for i := len(fileClusters) - 1; i >= 0; i-- {
-		err = drv.fs.FreeCluster(ClusterID(i))
+		err = drv.fs.FreeCluster(fileClusters[i])
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 656703ed078b921c835c7d16a609db3994282935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:19 +0000
Subject: [PATCH 36/58] fix: FAT Chtimes must refuse timestamps that can't be
 stored

---
 file_systems/fat/driverbase.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/file_systems/fat/driverbase.go b/file_systems/fat/driverbase.go
index 75c79c0..1bb3b4d 100644
--- a/file_systems/fat/driverbase.go
+++ b/file_systems/fat/driverbase.go
@@ -439,8 +439,14 @@ func (drv *FATDriver) Chtimes(path string, atime, mtime time.Time) error {
 		return err
 	}
 
-	dirent.SetLastAccessedAt(atime)
-	dirent.SetLastModifiedAt(mtime)
+	err = dirent.SetLastAccessedAt(atime)
+	if err != nil {
+		return err
+	}
+	err = dirent.SetLastModifiedAt(mtime)
+	if err != nil {
+		return err
+	}
 	return drv.fs.UpdateDirent(&dirent)
 }
 
-- 
2.43.0


From 0dd67346669ce4a0e111bedb6d2d454e8fbd9608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:22 +0000
Subject: [PATCH 37/58] fix: the driver must keep the object handles it wraps

The wrapper dropped the handle so every operation crashed. Handles must also be
unwrapped before passing them back to the implementation or looking for optional
interfaces, and listing something that isn't a directory must not crash.
---
 driver/driver.go   | 56 +++++++++++++++++++++++++++++++---------------
 driver/file.go     |  4 ++--
 driver/fsobject.go | 16 +++++++++----
 3 files changed, 52 insertions(+), 24 deletions(-)

diff --git a/driver/driver.go b/driver/driver.go
index 114a5ba..5d31ea2 100644
--- a/driver/driver.go
+++ b/driver/driver.go
@@ -201,7 +201,7 @@ func (driver *BaseDriver) getContentsOfObject(
 func (driver *BaseDriver) getExtObjectInDir(
 	baseName string, parentObject extObjectHandle,
 ) (extObjectHandle, disko.DriverError) {
-	object, err := driver.implementation.GetObject(baseName, parentObject)
+	object, err := driver.implementation.GetObject(baseName, parentObject.rawHandle())
 	if err != nil {
 		return nil, err
 	}
@@ -217,7 +217,7 @@ func (driver *BaseDriver) createExtObject(
 ) (extObjectHandle, disko.DriverError) {
 	rawObject, err := driver.implementation.CreateObject(
 		baseName,
-		parentObject,
+		parentObject.rawHandle(),
 		perm,
 	)
 	if err != nil {
@@ -328,7 +328,7 @@ func (driver *BaseDriver) Chmod(name string, mode os.FileMode) error {
 		return err
 	}
 
-	chmodObject, ok := object.(disko.SupportsChmodHandle)
+	chmodObject, ok := object.rawHandle().(disko.SupportsChmodHandle)
 	if !ok {
 		return disko.ErrNotImplemented
 	}
@@ -342,7 +342,7 @@ func (driver *BaseDriver) Chown(name string, uid, gid int) error {
 		return err
 	}
 
-	chmownObject, ok := object.(disko.SupportsChownHandle)
+	chmownObject, ok := object.rawHandle().(disko.SupportsChownHandle)
 	if !ok {
 		return disko.ErrNotImplemented
 	}
@@ -359,7 +359,7 @@ func (driver *BaseDriver) Lchown(name string, uid, gid int) error {
 		return err
 	}
 
-	chmownObject, ok := object.(disko.SupportsChownHandle)
+	chmownObject, ok := object.rawHandle().(disko.SupportsChownHandle)
 	if !ok {
 		return disko.ErrNotImplemented
 	}
@@ -373,7 +373,7 @@ func (driver *BaseDriver) Chtimes(name string, atime time.Time, mtime time.Time)
 		return err
 	}
 
-	chmownObject, ok := object.(disko.SupportsChtimesHandle)
+	chmownObject, ok := object.rawHandle().(disko.SupportsChtimesHandle)
 	if !ok {
 		return disko.ErrNotImplemented
 	}
@@ -445,11 +445,31 @@ func (driver *BaseDriver) ReadDir(path string) ([]disko.DirectoryEntry, error) {
 	return driver.readDir(directory)
 }
 
+// listDir returns the names of all entries in a directory, exactly as given by the
+// file system implementation.
+func listDir(directory extObjectHandle) ([]string, error) {
+	stat := directory.Stat()
+	if !stat.IsDir() {
+		return nil, disko.ErrNotADirectory.WithMessage(directory.AbsolutePath())
+	}
+
+	lister, ok := directory.rawHandle().(disko.SupportsListDirHandle)
+	if !ok {
+		return nil, disko.ErrNotSupported
+	}
+
+	names, err := lister.ListDir()
+	if err != nil {
+		return nil, err
+	}
+	return names, nil
+}
+
 // readDir implements [ReadDir] for any directory object handle.
 func (driver *BaseDriver) readDir(
 	directory extObjectHandle,
 ) ([]disko.DirectoryEntry, error) {
-	direntNames, err := directory.(disko.SupportsListDirHandle).ListDir()
+	direntNames, err := listDir(directory)
 	if err != nil {
 		return nil, err
 	}
@@ -461,7 +481,7 @@ func (driver *BaseDriver) readDir(
 			continue
 		}
 
-		direntObject, err := driver.implementation.GetObject(name, directory)
+		direntObject, err := driver.implementation.GetObject(name, directory.rawHandle())
 		if err != nil {
 			return output, err
 		}
@@ -502,7 +522,8 @@ func (driver *BaseDriver) Link(oldname, newname string) error {
 		return err
 	}
 
-	_, err = linker.CreateHardLink(oldHandle, parentHandle, targetName)
+	_, err = linker.CreateHardLink(
+		oldHandle.rawHandle(), parentHandle.rawHandle(), targetName)
 	return err
 }
 
@@ -601,7 +622,7 @@ func (driver *BaseDriver) Remove(path string) error {
 	if stat.IsDir() {
 		// Caller wants to remove a directory. The directory must be empty, i.e.
 		// must at most only contain the "." and ".." entries.
-		names, err := object.(disko.SupportsListDirHandle).ListDir()
+		names, err := listDir(object)
 		if err != nil {
 			return err
 		}
@@ -688,7 +709,8 @@ func (driver *BaseDriver) Mkdir(path string, perm os.FileMode) error {
 		)
 	}
 
-	object, err := driver.implementation.CreateObject(baseName, parentObject, perm)
+	object, err := driver.implementation.CreateObject(
+		baseName, parentObject.rawHandle(), perm)
 	if err == nil {
 		object.Close()
 	}
@@ -716,7 +738,8 @@ func (driver *BaseDriver) MkdirAll(path string, perm os.FileMode) error {
 	}
 	defer parentObject.Close()
 
-	object, err := driver.implementation.CreateObject(baseName, parentObject, perm)
+	object, err := driver.implementation.CreateObject(
+		baseName, parentObject.rawHandle(), perm)
 	if err == nil {
 		object.Close()
 	}
@@ -738,7 +761,7 @@ func (driver *BaseDriver) RemoveAll(path string) error {
 
 	// Block an attempt at `rm -rf /`, because some clown is gonna try it.
 	root := driver.implementation.GetRootDirectory()
-	if root.SameAs(directory) {
+	if root.SameAs(directory.rawHandle()) {
 		return disko.ErrPermissionDenied.WithMessage(
 			"you can't remove the root directory",
 		)
@@ -754,7 +777,7 @@ func (driver *BaseDriver) RemoveAll(path string) error {
 func (driver *BaseDriver) removeDirectory(directory extObjectHandle) error {
 	var err error
 
-	direntNames, err := directory.(disko.SupportsListDirHandle).ListDir()
+	direntNames, err := listDir(directory)
 	if err != nil {
 		return err
 	}
@@ -773,10 +796,7 @@ func (driver *BaseDriver) removeDirectory(directory extObjectHandle) error {
 
 		// If this is a directory, recursively delete its contents.
 		if direntStat.IsDir() {
-			absPath := posixpath.Join(directory.AbsolutePath(), name)
-			wrappedDirent := wrapObjectHandle(dirent, absPath)
-
-			rmErr := driver.removeDirectory(wrappedDirent)
+			rmErr := driver.removeDirectory(dirent)
 			if rmErr != nil {
 				dirent.Close()
 				return rmErr
diff --git a/driver/file.go b/driver/file.go
index c6d7dff..f46c36e 100644
--- a/driver/file.go
+++ b/driver/file.go
@@ -144,7 +144,7 @@ func (file *File) Chdir() error {
 }
 
 func (file *File) Chmod(mode os.FileMode) error {
-	chmodHandle, ok := file.objectHandle.(disko.SupportsChmodHandle)
+	chmodHandle, ok := file.objectHandle.rawHandle().(disko.SupportsChmodHandle)
 	if ok {
 		return chmodHandle.Chmod(mode)
 	}
@@ -152,7 +152,7 @@ func (file *File) Chmod(mode os.FileMode) error {
 }
 
 func (file *File) Chown(uid, gid int) error {
-	chownHandle, ok := file.objectHandle.(disko.SupportsChownHandle)
+	chownHandle, ok := file.objectHandle.rawHandle().(disko.SupportsChownHandle)
 	if ok {
 		return chownHandle.Chown(uid, gid)
 	}
diff --git a/driver/fsobject.go b/driver/fsobject.go
index 65f008c..cdf30c6 100644
--- a/driver/fsobject.go
+++ b/driver/fsobject.go
@@ -5,18 +5,22 @@ import "github.com/dargueta/disko"
 type extObjectHandle interface {
 	disko.ObjectHandle
 	AbsolutePath() string
+
+	// rawHandle returns the handle that was created by the file system
+	// implementation. This must be used for passing handles back to it, and for
+	// determining which optional interfaces the handle supports.
+	rawHandle() disko.ObjectHandle
 }
 
 type tExtObjectHandle struct {
-	extObjectHandle
+	disko.ObjectHandle
 	absolutePath string
 }
 
-// wrapObjectHandle combines
+// wrapObjectHandle combines an object handle with its absolute path.
 func wrapObjectHandle(handle disko.ObjectHandle, absolutePath string) extObjectHandle {
 	return &tExtObjectHandle{
-		// FIXME (dargueta): This is hella wrong
-		//extObjectHandle.ObjectHandle: handle,
+		ObjectHandle: handle,
 		absolutePath: absolutePath,
 	}
 }
@@ -24,3 +28,7 @@ func wrapObjectHandle(handle disko.ObjectHandle, absolutePath string) extObjectH
 func (xh tExtObjectHandle) AbsolutePath() string {
 	return xh.absolutePath
 }
+
+func (xh tExtObjectHandle) rawHandle() disko.ObjectHandle {
+	return xh.ObjectHandle
+}
-- 
2.43.0


From f91038066ce685bc7eafbcd1a4b43d3bde3c642e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:23 +0000
Subject: [PATCH 38/58] fix: looking up anything below the root directory must
 terminate

posixpath.Split() leaves a trailing slash on the directory, so looking up the
parent of a path never got to the root.
---
 driver/driver.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/driver/driver.go b/driver/driver.go
index 5d31ea2..1031fed 100644
--- a/driver/driver.go
+++ b/driver/driver.go
@@ -128,7 +128,7 @@ func (driver *BaseDriver) getObjectAtPathNoFollow(
 		return wrapObjectHandle(root, path), nil
 	}
 
-	parentPath, baseName := posixpath.Split(path)
+	parentPath, baseName := posixpath.Dir(path), posixpath.Base(path)
 	parentObject, err := driver.getObjectAtPathFollowingLink(parentPath)
 	if err != nil {
 		return nil, err
@@ -261,7 +261,7 @@ func (driver *BaseDriver) OpenFile(
 				// To create the missing file, we need to get a handle for its
 				// parent directory, then call CreateObject() for the file in
 				// that directory.
-				parentDir, baseName := posixpath.Split(absPath)
+				parentDir, baseName := posixpath.Dir(absPath), posixpath.Base(absPath)
 				parentObject, err = driver.getObjectAtPathFollowingLink(parentDir)
 				if err != nil {
 					// Parent directory doesn't exist
@@ -516,7 +516,7 @@ func (driver *BaseDriver) Link(oldname, newname string) error {
 		return disko.ErrExists.WithMessage("hard link target already exists: " + absNew)
 	}
 
-	targetParentPath, targetName := posixpath.Split(absNew)
+	targetParentPath, targetName := posixpath.Dir(absNew), posixpath.Base(absNew)
 	parentHandle, err := driver.getObjectAtPathFollowingLink(targetParentPath)
 	if err != nil {
 		return err
@@ -690,7 +690,7 @@ func (driver *BaseDriver) Mkdir(path string, perm os.FileMode) error {
 	perm |= os.ModeDir
 
 	absPath := driver.NormalizePath(path)
-	parentDir, baseName := posixpath.Split(absPath)
+	parentDir, baseName := posixpath.Dir(absPath), posixpath.Base(absPath)
 
 	parentObject, err := driver.getObjectAtPathFollowingLink(parentDir)
 	if err != nil {
@@ -719,7 +719,7 @@ func (driver *BaseDriver) Mkdir(path string, perm os.FileMode) error {
 
 func (driver *BaseDriver) MkdirAll(path string, perm os.FileMode) error {
 	absPath := driver.NormalizePath(path)
-	parentDir, baseName := posixpath.Split(absPath)
+	parentDir, baseName := posixpath.Dir(absPath), posixpath.Base(absPath)
 
 	// Force the permissions flags to indicate this is a directory so that the
 	// caller doesn't have to remember to do it themselves.
-- 
2.43.0


From 97ec8ad736636652d05b720b321b69e4ce866226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:24 +0000
Subject: [PATCH 39/58] fix: an empty path must denote the working directory,
 not the root directory

---
 driver/driver.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/driver/driver.go b/driver/driver.go
index 1031fed..482b5e6 100644
--- a/driver/driver.go
+++ b/driver/driver.go
@@ -41,9 +41,6 @@ func New(
 // from the current working directory (see [Getwd] for more).
 func (driver *BaseDriver) NormalizePath(path string) string {
 	path = posixpath.Clean(filepath.ToSlash(path))
-	if path == "." {
-		path = "/"
-	}
 	if posixpath.IsAbs(path) {
 		return path
 	}
-- 
2.43.0


From 5b8eed78e594ef0043f42ff53599299a25dab519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:25 +0000
Subject: [PATCH 40/58] fix: symlinks must be resolved relative to their
 directory and cycles detected

Relative links were resolved from the working directory, cycles through a parent
directory caused infinite recursion, handles of links were closed twice, and Lstat
followed links.
---
 driver/driver.go | 134 +++++++++++++++++++----------------------------
 1 file changed, 55 insertions(+), 79 deletions(-)

diff --git a/driver/driver.go b/driver/driver.go
index 482b5e6..4e38cb5 100644
--- a/driver/driver.go
+++ b/driver/driver.go
@@ -49,67 +49,47 @@ func (driver *BaseDriver) NormalizePath(path string) string {
 
 // resolveSymlink dereferences `object` (if it's a symlink), following multiple
 // levels of indirection if needed to get to a file system object. If `object`
-// isn't a symlink, this becomes a no-op and returns the handle unmodified.
+// isn't a symlink, this becomes a no-op and returns the handle unmodified. If it
+// is, the handle is closed.
+//
+// Symbolic links can result in cycles, so `pending` has the paths of all symlinks
+// we're in the process of resolving. If we need to resolve one of those again, we
+// found a loop and must fail.
 func (driver *BaseDriver) resolveSymlink(
-	object extObjectHandle,
+	object extObjectHandle, pending map[string]bool,
 ) (extObjectHandle, disko.DriverError) {
 	stat := object.Stat()
 	if !stat.IsSymlink() {
 		return object, nil
 	}
+	defer object.Close()
 
-	// Symbolic links can result in cycles, so we need to keep track of all the
-	// paths we visit. If we resolve a symlink to a path that's already in the
-	// dictionary, we found a loop and must fail.
-	pathCache := make(map[string]bool)
-
-	originalPath := object.AbsolutePath()
-	currentPath := originalPath
-	pathCache[currentPath] = true
-
-	for stat.IsSymlink() {
-		symlinkText, err := driver.getContentsOfObject(object)
-		object.Close()
-
-		if err != nil {
-			return nil,
-				err.WithMessage(
-					fmt.Sprintf(
-						"can't resolve path %q, failed to read symlink %q: %s",
-						originalPath,
-						currentPath,
-						err.Error(),
-					),
-				)
-		}
-
-		// Compute the next path in this chain; if it's already in the cache
-		// then we hit a cycle.
-		nextPath := driver.NormalizePath(string(symlinkText))
-		_, exists := pathCache[nextPath]
-		if exists {
-			return nil,
-				disko.ErrLinkCycleDetected.WithMessage(
-					fmt.Sprintf(
-						"found cycle resolving symlink %q: hit %q twice",
-						originalPath,
-						nextPath,
-					),
-				)
-		}
+	linkPath := object.AbsolutePath()
+	if pending[linkPath] {
+		return nil,
+			disko.ErrLinkCycleDetected.WithMessage(
+				fmt.Sprintf("found cycle resolving symlink: hit %q twice", linkPath),
+			)
+	}
 
-		// Get the object at the next path but don't dereference it.
-		object, err = driver.getObjectAtPathNoFollow(nextPath)
-		if err != nil {
-			return nil, err
-		}
+	symlinkText, err := driver.getContentsOfObject(object)
+	if err != nil {
+		return nil,
+			err.WithMessage(
+				fmt.Sprintf("failed to read symlink %q", linkPath),
+			)
+	}
 
-		// Update the latest path and file stats for the next loop iteration.
-		stat = object.Stat()
-		currentPath = nextPath
+	// Relative links are relative to the directory they're in.
+	targetPath := posixpath.Clean(filepath.ToSlash(string(symlinkText)))
+	if !posixpath.IsAbs(targetPath) {
+		targetPath = posixpath.Join(posixpath.Dir(linkPath), targetPath)
 	}
 
-	return object, nil
+	pending[linkPath] = true
+	target, err := driver.lookUpFollowingLink(targetPath, pending)
+	delete(pending, linkPath)
+	return target, err
 }
 
 // getObjectAtPathNoFollow resolves a normalized absolute path to an object
@@ -119,14 +99,30 @@ func (driver *BaseDriver) resolveSymlink(
 // `path` must be a normalized absolute path.
 func (driver *BaseDriver) getObjectAtPathNoFollow(
 	path string,
+) (extObjectHandle, disko.DriverError) {
+	return driver.lookUpNoFollow(path, make(map[string]bool))
+}
+
+// getObjectAtPathFollowingLink is like [getObjectAtPathNoFollow] except that it
+// always follows the last path component if it's a symlink.
+func (driver *BaseDriver) getObjectAtPathFollowingLink(
+	path string,
+) (extObjectHandle, disko.DriverError) {
+	return driver.lookUpFollowingLink(path, make(map[string]bool))
+}
+
+// lookUpNoFollow implements [getObjectAtPathNoFollow]. `pending` is explained at
+// [resolveSymlink].
+func (driver *BaseDriver) lookUpNoFollow(
+	path string, pending map[string]bool,
 ) (extObjectHandle, disko.DriverError) {
 	if path == "/" || path == "" {
 		root := driver.implementation.GetRootDirectory()
-		return wrapObjectHandle(root, path), nil
+		return wrapObjectHandle(root, "/"), nil
 	}
 
 	parentPath, baseName := posixpath.Dir(path), posixpath.Base(path)
-	parentObject, err := driver.getObjectAtPathFollowingLink(parentPath)
+	parentObject, err := driver.lookUpFollowingLink(parentPath, pending)
 	if err != nil {
 		return nil, err
 	}
@@ -147,28 +143,16 @@ func (driver *BaseDriver) getObjectAtPathNoFollow(
 	return driver.getExtObjectInDir(baseName, parentObject)
 }
 
-// getObjectAtPathFollowingLink is like [getObjectAtPathNoFollow] except that it
-// always follows the last path component if it's a symlink.
-func (driver *BaseDriver) getObjectAtPathFollowingLink(
-	path string,
+// lookUpFollowingLink implements [getObjectAtPathFollowingLink]. `pending` is
+// explained at [resolveSymlink].
+func (driver *BaseDriver) lookUpFollowingLink(
+	path string, pending map[string]bool,
 ) (extObjectHandle, disko.DriverError) {
-	object, err := driver.getObjectAtPathNoFollow(path)
+	object, err := driver.lookUpNoFollow(path, pending)
 	if err != nil {
 		return nil, err
 	}
-
-	stat := object.Stat()
-	for stat.IsSymlink() {
-		nextObject, err := driver.resolveSymlink(object)
-		object.Close()
-		if err != nil {
-			return nil, err
-		}
-		stat = nextObject.Stat()
-		object = nextObject
-	}
-
-	return object, nil
+	return driver.resolveSymlink(object, pending)
 }
 
 // getContentsOfObject returns the contents of an object as it exists on the
@@ -558,15 +542,7 @@ func (driver *BaseDriver) Lstat(path string) (disko.FileStat, error) {
 	}
 	defer object.Close()
 
-	// Unconditionally try to resolve `object` as a symlink. If it isn't one,
-	// nothing happens and we get `object` back.
-	realObject, err := driver.resolveSymlink(object)
-	if err != nil {
-		return disko.FileStat{}, err
-	}
-	defer realObject.Close()
-
-	return realObject.Stat(), nil
+	return object.Stat(), nil
 }
 
 // Create creates a file and opens it for reading and writing. It fails if the
-- 
2.43.0


From 4395ca156f78e6041e222cbbb46f32b1e17eca42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:26 +0000
Subject: [PATCH 41/58] fix: nothing must be modified on a file system mounted
 read-only

Only opening existing files for writing was refused.
---
 driver/driver.go | 44 ++++++++++++++++++++++++++++++++++++++++++++
 driver/file.go   |  8 ++++++++
 2 files changed, 52 insertions(+)

diff --git a/driver/driver.go b/driver/driver.go
index 4e38cb5..298a241 100644
--- a/driver/driver.go
+++ b/driver/driver.go
@@ -47,6 +47,16 @@ func (driver *BaseDriver) NormalizePath(path string) string {
 	return posixpath.Join(driver.workingDirPath, path)
 }
 
+// checkWritable returns an error if the file system can't be modified.
+func (driver *BaseDriver) checkWritable(path string) error {
+	if driver.mountFlags.CanWrite() {
+		return nil
+	}
+	return disko.ErrReadOnlyFileSystem.WithMessage(
+		fmt.Sprintf("can't modify %q: image is mounted read-only", path),
+	)
+}
+
 // resolveSymlink dereferences `object` (if it's a symlink), following multiple
 // levels of indirection if needed to get to a file system object. If `object`
 // isn't a symlink, this becomes a no-op and returns the handle unmodified. If it
@@ -239,6 +249,10 @@ func (driver *BaseDriver) OpenFile(
 		if errors.Is(err, disko.ErrNotFound) {
 			// File does not exist, can we create it?
 			if ioFlags.Create() {
+				if err := driver.checkWritable(absPath); err != nil {
+					return File{}, err
+				}
+
 				// To create the missing file, we need to get a handle for its
 				// parent directory, then call CreateObject() for the file in
 				// that directory.
@@ -304,6 +318,9 @@ func (driver *BaseDriver) chdirToObject(object extObjectHandle) error {
 
 func (driver *BaseDriver) Chmod(name string, mode os.FileMode) error {
 	absPath := driver.NormalizePath(name)
+	if err := driver.checkWritable(absPath); err != nil {
+		return err
+	}
 	object, err := driver.getObjectAtPathFollowingLink(absPath)
 	if err != nil {
 		return err
@@ -318,6 +335,9 @@ func (driver *BaseDriver) Chmod(name string, mode os.FileMode) error {
 
 func (driver *BaseDriver) Chown(name string, uid, gid int) error {
 	absPath := driver.NormalizePath(name)
+	if err := driver.checkWritable(absPath); err != nil {
+		return err
+	}
 	object, err := driver.getObjectAtPathFollowingLink(absPath)
 	if err != nil {
 		return err
@@ -335,6 +355,9 @@ func (driver *BaseDriver) Chown(name string, uid, gid int) error {
 // Surely there's a cleaner way to do this.
 func (driver *BaseDriver) Lchown(name string, uid, gid int) error {
 	absPath := driver.NormalizePath(name)
+	if err := driver.checkWritable(absPath); err != nil {
+		return err
+	}
 	object, err := driver.getObjectAtPathNoFollow(absPath)
 	if err != nil {
 		return err
@@ -349,6 +372,9 @@ func (driver *BaseDriver) Lchown(name string, uid, gid int) error {
 
 func (driver *BaseDriver) Chtimes(name string, atime time.Time, mtime time.Time) error {
 	absPath := driver.NormalizePath(name)
+	if err := driver.checkWritable(absPath); err != nil {
+		return err
+	}
 	object, err := driver.getObjectAtPathFollowingLink(absPath)
 	if err != nil {
 		return err
@@ -482,6 +508,9 @@ func (driver *BaseDriver) Link(oldname, newname string) error {
 	}
 
 	absOld := driver.NormalizePath(oldname)
+	if err := driver.checkWritable(absOld); err != nil {
+		return err
+	}
 	oldHandle, err := driver.getObjectAtPathFollowingLink(absOld)
 	if err != nil {
 		return err
@@ -585,6 +614,9 @@ func removeDotsFromSlice(arr []string) []string {
 
 func (driver *BaseDriver) Remove(path string) error {
 	absPath := driver.NormalizePath(path)
+	if err := driver.checkWritable(absPath); err != nil {
+		return err
+	}
 	object, err := driver.getObjectAtPathFollowingLink(absPath)
 	if err != nil {
 		return err
@@ -622,6 +654,9 @@ func (driver *BaseDriver) Remove(path string) error {
 // Truncate sets the size of a file to 0.
 func (driver *BaseDriver) Truncate(path string) error {
 	absPath := driver.NormalizePath(path)
+	if err := driver.checkWritable(absPath); err != nil {
+		return err
+	}
 	object, err := driver.getObjectAtPathFollowingLink(absPath)
 	if err != nil {
 		return err
@@ -663,6 +698,9 @@ func (driver *BaseDriver) Mkdir(path string, perm os.FileMode) error {
 	perm |= os.ModeDir
 
 	absPath := driver.NormalizePath(path)
+	if err := driver.checkWritable(absPath); err != nil {
+		return err
+	}
 	parentDir, baseName := posixpath.Dir(absPath), posixpath.Base(absPath)
 
 	parentObject, err := driver.getObjectAtPathFollowingLink(parentDir)
@@ -692,6 +730,9 @@ func (driver *BaseDriver) Mkdir(path string, perm os.FileMode) error {
 
 func (driver *BaseDriver) MkdirAll(path string, perm os.FileMode) error {
 	absPath := driver.NormalizePath(path)
+	if err := driver.checkWritable(absPath); err != nil {
+		return err
+	}
 	parentDir, baseName := posixpath.Dir(absPath), posixpath.Base(absPath)
 
 	// Force the permissions flags to indicate this is a directory so that the
@@ -721,6 +762,9 @@ func (driver *BaseDriver) MkdirAll(path string, perm os.FileMode) error {
 
 func (driver *BaseDriver) RemoveAll(path string) error {
 	path = driver.NormalizePath(path)
+	if err := driver.checkWritable(path); err != nil {
+		return err
+	}
 	directory, err := driver.getObjectAtPathFollowingLink(path)
 	if err != nil {
 		return err
diff --git a/driver/file.go b/driver/file.go
index f46c36e..4d3515d 100644
--- a/driver/file.go
+++ b/driver/file.go
@@ -144,6 +144,10 @@ func (file *File) Chdir() error {
 }
 
 func (file *File) Chmod(mode os.FileMode) error {
+	if err := file.owningDriver.checkWritable(file.fileInfo.absolutePath); err != nil {
+		return err
+	}
+
 	chmodHandle, ok := file.objectHandle.rawHandle().(disko.SupportsChmodHandle)
 	if ok {
 		return chmodHandle.Chmod(mode)
@@ -152,6 +156,10 @@ func (file *File) Chmod(mode os.FileMode) error {
 }
 
 func (file *File) Chown(uid, gid int) error {
+	if err := file.owningDriver.checkWritable(file.fileInfo.absolutePath); err != nil {
+		return err
+	}
+
 	chownHandle, ok := file.objectHandle.rawHandle().(disko.SupportsChownHandle)
 	if ok {
 		return chownHandle.Chown(uid, gid)
-- 
2.43.0


From 9c8f53c1581a07979def9c4c1c043bbc5a5259ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:48 +0000
Subject: [PATCH 42/58] fix: exclusive creation must refuse anything that
 already exists

---
 driver/driver.go | 33 +++++++++++++++++++++++++++++++--
 1 file changed, 31 insertions(+), 2 deletions(-)

diff --git a/driver/driver.go b/driver/driver.go
index 298a241..505e5fb 100644
--- a/driver/driver.go
+++ b/driver/driver.go
@@ -242,7 +242,17 @@ func (driver *BaseDriver) OpenFile(
 	var parentObject extObjectHandle
 	var err error
 
-	object, err = driver.getObjectAtPathFollowingLink(absPath)
+	if ioFlags.Create() && ioFlags.Exclusive() {
+		// Nothing at all can exist at this path, not even a dangling symlink.
+		object, err = driver.getObjectAtPathNoFollow(absPath)
+		if err == nil {
+			object.Close()
+			return File{}, disko.ErrExists.WithMessage(absPath)
+		}
+	} else {
+		object, err = driver.getObjectAtPathFollowingLink(absPath)
+	}
+
 	if err != nil {
 		// An error occurred. If the file is missing we may be able to create it
 		// and proceed.
@@ -262,13 +272,31 @@ func (driver *BaseDriver) OpenFile(
 					// Parent directory doesn't exist
 					return File{}, err
 				}
+				defer parentObject.Close()
+
+				parentStat := parentObject.Stat()
+				if !parentStat.IsDir() {
+					return File{}, disko.ErrNotADirectory.WithMessage(parentDir)
+				}
+
+				// Never create anything over an existing object. We can get here
+				// if the path is a dangling symlink.
+				danglingLink, linkErr := driver.getExtObjectInDir(
+					baseName, parentObject)
+				if linkErr == nil {
+					danglingLink.Close()
+					return File{}, disko.ErrNotFound.WithMessage(
+						fmt.Sprintf("%q is a dangling symlink", absPath),
+					)
+				} else if !errors.Is(linkErr, disko.ErrNotFound) {
+					return File{}, linkErr
+				}
 
 				object, err = driver.createExtObject(
 					baseName,
 					parentObject,
 					perm,
 				)
-				parentObject.Close()
 
 				if err != nil {
 					return File{}, err
@@ -286,6 +314,7 @@ func (driver *BaseDriver) OpenFile(
 
 	stat := object.Stat()
 	if !stat.IsFile() {
+		object.Close()
 		return File{}, disko.ErrIsADirectory.WithMessage(absPath)
 	}
 
-- 
2.43.0


From 220036dbd71cdd3d1e0627d03dae6db17cb2344d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:49 +0000
Subject: [PATCH 43/58] fix: removing a symlink must not remove its target, nor
 anything the root

---
 driver/driver.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/driver/driver.go b/driver/driver.go
index 505e5fb..d037565 100644
--- a/driver/driver.go
+++ b/driver/driver.go
@@ -646,7 +646,14 @@ func (driver *BaseDriver) Remove(path string) error {
 	if err := driver.checkWritable(absPath); err != nil {
 		return err
 	}
-	object, err := driver.getObjectAtPathFollowingLink(absPath)
+	if absPath == "/" {
+		return disko.ErrPermissionDenied.WithMessage(
+			"you can't remove the root directory",
+		)
+	}
+
+	// Removing a symlink removes the link itself, not what it points to.
+	object, err := driver.getObjectAtPathNoFollow(absPath)
 	if err != nil {
 		return err
 	}
@@ -671,7 +678,7 @@ func (driver *BaseDriver) Remove(path string) error {
 				fmt.Sprintf("can't remove %q: directory not empty", absPath),
 			)
 		}
-	} else if !stat.IsFile() {
+	} else if !stat.IsFile() && !stat.IsSymlink() {
 		return disko.ErrInvalidArgument.WithMessage(
 			fmt.Sprintf("can't remove %q: not a file or directory", absPath),
 		)
-- 
2.43.0


From 701e97ca55d53ee26be1b2b2807322dd4ff9edca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:50 +0000
Subject: [PATCH 44/58] fix: RemoveAll must remove the directory itself and not
 follow symlinks

---
 driver/driver.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/driver/driver.go b/driver/driver.go
index d037565..3d7b365 100644
--- a/driver/driver.go
+++ b/driver/driver.go
@@ -801,7 +801,7 @@ func (driver *BaseDriver) RemoveAll(path string) error {
 	if err := driver.checkWritable(path); err != nil {
 		return err
 	}
-	directory, err := driver.getObjectAtPathFollowingLink(path)
+	directory, err := driver.getObjectAtPathNoFollow(path)
 	if err != nil {
 		return err
 	}
@@ -820,10 +820,19 @@ func (driver *BaseDriver) RemoveAll(path string) error {
 		)
 	}
 
-	return driver.removeDirectory(directory)
+	rmErr := driver.removeDirectory(directory)
+	if rmErr != nil {
+		return rmErr
+	}
+
+	if err := directory.Unlink(); err != nil {
+		return err
+	}
+	return nil
 }
 
-// removeDirectory is equivalent to `rm -rf` for a directory handle.
+// removeDirectory is equivalent to `rm -rf` for the contents of a directory. The
+// directory itself is not removed.
 //
 // Deletion is depth-first, and terminates on the first error encountered.
 // Ownership and other permissions are not checked.
-- 
2.43.0


From ba46b734db83bd912b500c483f9a1bc64a72b0d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:51 +0000
Subject: [PATCH 45/58] fix: creating directories must not clobber objects nor
 ignore errors

---
 driver/driver.go | 54 ++++++++++++++++++++++++++++--------------------
 1 file changed, 32 insertions(+), 22 deletions(-)

diff --git a/driver/driver.go b/driver/driver.go
index 3d7b365..72f3390 100644
--- a/driver/driver.go
+++ b/driver/driver.go
@@ -756,12 +756,22 @@ func (driver *BaseDriver) Mkdir(path string, perm os.FileMode) error {
 		)
 	}
 
+	// Never create anything over an existing object.
+	existing, err := driver.getObjectAtPathNoFollow(absPath)
+	if err == nil {
+		existing.Close()
+		return disko.ErrExists.WithMessage(absPath)
+	} else if !errors.Is(err, disko.ErrNotFound) {
+		return err
+	}
+
 	object, err := driver.implementation.CreateObject(
 		baseName, parentObject.rawHandle(), perm)
-	if err == nil {
-		object.Close()
+	if err != nil {
+		return err
 	}
-	return err
+	object.Close()
+	return nil
 }
 
 func (driver *BaseDriver) MkdirAll(path string, perm os.FileMode) error {
@@ -769,31 +779,31 @@ func (driver *BaseDriver) MkdirAll(path string, perm os.FileMode) error {
 	if err := driver.checkWritable(absPath); err != nil {
 		return err
 	}
-	parentDir, baseName := posixpath.Dir(absPath), posixpath.Base(absPath)
+	parentDir := posixpath.Dir(absPath)
 
-	// Force the permissions flags to indicate this is a directory so that the
-	// caller doesn't have to remember to do it themselves.
-	perm &^= os.ModeType
-	perm |= os.ModeDir
+	// If the directory already exists then there's nothing to do.
+	existing, err := driver.getObjectAtPathFollowingLink(absPath)
+	if err == nil {
+		defer existing.Close()
 
-	parentObject, err := driver.getObjectAtPathFollowingLink(parentDir)
-	if err != nil {
-		if errors.Is(err, disko.ErrNotFound) {
-			// Parent directory doesn't exist, create it.
-			driver.MkdirAll(parentDir, perm)
-		} else {
-			// Different error, we won't handle it.
-			return err
+		stat := existing.Stat()
+		if !stat.IsDir() {
+			return disko.ErrNotADirectory.WithMessage(absPath)
 		}
+		return nil
+	} else if !errors.Is(err, disko.ErrNotFound) {
+		// Different error, we won't handle it.
+		return err
 	}
-	defer parentObject.Close()
 
-	object, err := driver.implementation.CreateObject(
-		baseName, parentObject.rawHandle(), perm)
-	if err == nil {
-		object.Close()
+	// The root directory always exists, so we're done climbing up if we get there.
+	if parentDir != absPath {
+		mkdirErr := driver.MkdirAll(parentDir, perm)
+		if mkdirErr != nil {
+			return mkdirErr
+		}
 	}
-	return err
+	return driver.Mkdir(absPath, perm)
 }
 
 func (driver *BaseDriver) RemoveAll(path string) error {
-- 
2.43.0


From 05751662f5062b11d26b2480ff488ddd50bd80ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:52 +0000
Subject: [PATCH 46/58] fix: hard links must not be created to directories or
 over anything

---
 driver/driver.go | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/driver/driver.go b/driver/driver.go
index 72f3390..824b015 100644
--- a/driver/driver.go
+++ b/driver/driver.go
@@ -545,14 +545,26 @@ func (driver *BaseDriver) Link(oldname, newname string) error {
 		return err
 	}
 
+	defer oldHandle.Close()
+
+	// Directories can't be hard linked, see [disko.HardLinkImplementer].
+	oldStat := oldHandle.Stat()
+	if oldStat.IsDir() {
+		return disko.ErrNotPermitted.WithMessage(
+			"can't create a hard link to a directory: " + absOld)
+	}
+
 	absNew := driver.NormalizePath(newname)
 	// Technically checking to see if the file exists before attempting the link
 	// can result in a TOCTOU bug. If this were a more serious project, we would
 	// do some sort of locking or push the check into the underlying implementation.
 	// This is supposed to be a fun little thing, so I'm ignoring that edge case.
-	_, err = driver.getObjectAtPathFollowingLink(absNew)
+	existing, err := driver.getObjectAtPathNoFollow(absNew)
 	if err == nil {
+		existing.Close()
 		return disko.ErrExists.WithMessage("hard link target already exists: " + absNew)
+	} else if !errors.Is(err, disko.ErrNotFound) {
+		return err
 	}
 
 	targetParentPath, targetName := posixpath.Dir(absNew), posixpath.Base(absNew)
@@ -560,10 +572,19 @@ func (driver *BaseDriver) Link(oldname, newname string) error {
 	if err != nil {
 		return err
 	}
+	defer parentHandle.Close()
+
+	parentStat := parentHandle.Stat()
+	if !parentStat.IsDir() {
+		return disko.ErrNotADirectory.WithMessage(targetParentPath)
+	}
 
 	_, err = linker.CreateHardLink(
 		oldHandle.rawHandle(), parentHandle.rawHandle(), targetName)
-	return err
+	if err != nil {
+		return err
+	}
+	return nil
 }
 
 func (driver *BaseDriver) Readlink(path string) (string, error) {
-- 
2.43.0


From d7d6ee051c3891cb3e87e9c2aaf64b6ea1d22dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:53 +0000
Subject: [PATCH 47/58] fix: getting the status of a directory entry must not
 crash

---
 driver/dirent.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/driver/dirent.go b/driver/dirent.go
index 7579a01..304f516 100644
--- a/driver/dirent.go
+++ b/driver/dirent.go
@@ -54,3 +54,8 @@ func (dirent DirectoryEntry) ModTime() time.Time {
 func (dirent DirectoryEntry) Sys() any {
 	return dirent.stat
 }
+
+// Stat returns the status of the object at the time the entry was created.
+func (dirent DirectoryEntry) Stat() disko.FileStat {
+	return dirent.stat
+}
-- 
2.43.0


From cc45c280b20ed29e2af07494ad98145ef74c58e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:54 +0000
Subject: [PATCH 48/58] fix: reading all remaining directory entries isn't an
 error if there are none

---
 driver/file.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/driver/file.go b/driver/file.go
index 4d3515d..1b77dd7 100644
--- a/driver/file.go
+++ b/driver/file.go
@@ -204,10 +204,14 @@ func (file *File) ReadDir(n int) ([]os.DirEntry, error) {
 
 	result := make([]os.DirEntry, numToCopy)
 
-	// If there are no entries remaining, return an empty slice and io.EOF.
+	// If there are no entries remaining, return an empty slice and io.EOF, unless
+	// the caller asked for everything there is.
 	if entriesRemaining == 0 {
 		file.lastReadDirResult = nil
 		file.readDirResultPointer = 0
+		if n <= 0 {
+			return result, nil
+		}
 		return result, io.EOF
 	}
 
-- 
2.43.0


From 14a10b3edbdce986e66a3f0576af633c2fcffaa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:55 +0000
Subject: [PATCH 49/58] fix: an object must be resized in bytes, not blocks

---
 driver/file.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/driver/file.go b/driver/file.go
index 1b77dd7..60d53bb 100644
--- a/driver/file.go
+++ b/driver/file.go
@@ -109,11 +109,11 @@ func NewFileFromObjectHandle(
 	flushCb := func(index common.LogicalBlock, buffer []byte) error {
 		return object.WriteBlocks(index, buffer)
 	}
+	stat := object.Stat()
 	resizeCb := func(newSize common.LogicalBlock) error {
-		return object.Resize(uint64(newSize))
+		return object.Resize(uint64(newSize) * uint64(stat.BlockSize))
 	}
 
-	stat := object.Stat()
 	blockCache := blockcache.New(
 		uint(stat.BlockSize),
 		uint(stat.NumBlocks),
-- 
2.43.0


From 22e6d151e95df99fc48ae1fca5d145eed015b101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:56 +0000
Subject: [PATCH 50/58] fix: closing a file must commit its exact size

---
 driver/file.go | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/driver/file.go b/driver/file.go
index 60d53bb..963993c 100644
--- a/driver/file.go
+++ b/driver/file.go
@@ -167,8 +167,28 @@ func (file *File) Chown(uid, gid int) error {
 	return disko.ErrNotSupported
 }
 
+// Close writes out all pending changes and the exact size of the file.
 func (file *File) Close() error {
-	return file.BasicStream.Close()
+	return file.Sync()
+}
+
+// Sync writes out all pending changes. The stream only ever resizes the object by
+// entire blocks, so this also sets the object to the exact size of the file.
+func (file *File) Sync() error {
+	err := file.BasicStream.Sync()
+	if err != nil {
+		return err
+	}
+
+	size := file.BasicStream.Size()
+	if size != file.fileInfo.FileStat.Size {
+		err := file.objectHandle.Resize(uint64(size))
+		if err != nil {
+			return err
+		}
+		file.fileInfo.FileStat.Size = size
+	}
+	return nil
 }
 
 func (file *File) Name() string {
-- 
2.43.0


From 5015f9959819bb0402e9916bb1ff006781af2351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:57 +0000
Subject: [PATCH 51/58] fix: WriteFile must not ignore errors closing the file

---
 driver/driver.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/driver/driver.go b/driver/driver.go
index 824b015..a38734a 100644
--- a/driver/driver.go
+++ b/driver/driver.go
@@ -742,9 +742,12 @@ func (driver *BaseDriver) WriteFile(
 	if err != nil {
 		return err
 	}
-	defer handle.Close()
 
 	_, err = handle.Write(data)
+	closeErr := handle.Close()
+	if err == nil {
+		err = closeErr
+	}
 	return err
 }
 
-- 
2.43.0


From 54d4335eb123b3a531269718b1adca8f4c6a77cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:05 +0000
Subject: [PATCH 52/58] fix: truncated backing storage must not look like the
 end of a file

---
 file_systems/common/basicstream/basicstream.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/file_systems/common/basicstream/basicstream.go b/file_systems/common/basicstream/basicstream.go
index 7690e7c..afd24a9 100644
--- a/file_systems/common/basicstream/basicstream.go
+++ b/file_systems/common/basicstream/basicstream.go
@@ -119,7 +119,10 @@ func (stream *BasicStream) ReadAt(buffer []byte, offset int64) (int, error) {
 		firstBlock,
 		uint(lastBlock-firstBlock+1),
 	)
-	if err != nil {
+	if err == io.EOF {
+		// The backing storage is too short, this isn't the end of the file.
+		return 0, io.ErrUnexpectedEOF
+	} else if err != nil {
 		return 0, err
 	}
 
-- 
2.43.0


From 59a683d68a6981a865e10d7553e6caeace6bec66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:48 +0000
Subject: [PATCH 53/58] fix: an error wrapping several errors must still be
 recognised as the wrapped one

---
 errors.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/errors.go b/errors.go
index b4fe158..7a034a3 100644
--- a/errors.go
+++ b/errors.go
@@ -79,7 +79,7 @@ func (e baseDiskoError) WithMessage(message string) DriverError {
 func (e baseDiskoError) Wrap(err error) DriverError {
 	return customDriverError{
 		message:       fmt.Sprintf("%s: %s", e.Error(), err.Error()),
-		originalError: multierror.Append(e, err),
+		originalError: &multierror.Error{Errors: []error{e, err}},
 	}
 }
 
@@ -111,7 +111,7 @@ func (e customDriverError) WithMessage(message string) DriverError {
 func (e customDriverError) Wrap(err error) DriverError {
 	return customDriverError{
 		message:       fmt.Sprintf("%s: %s", e.Error(), err.Error()),
-		originalError: multierror.Append(e, err),
+		originalError: &multierror.Error{Errors: []error{e, err}},
 	}
 }
 
-- 
2.43.0


From 0644ad3c2d3ce20fc12143818725a8b9e011192f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:49 +0000
Subject: [PATCH 54/58] fix: adding a message to an error must keep the error's
 own message

---
 errors.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/errors.go b/errors.go
index 7a034a3..5c98ba2 100644
--- a/errors.go
+++ b/errors.go
@@ -70,6 +70,9 @@ func (e baseDiskoError) RootCause() DriverError {
 }
 
 func (e baseDiskoError) WithMessage(message string) DriverError {
+	if e != rootError {
+		message = fmt.Sprintf("%s: %s", e.Error(), message)
+	}
 	return customDriverError{
 		message:       message,
 		originalError: e,
-- 
2.43.0


From 5166fff7e9cb2b4323a2987b7d52a2aae53c7777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:56 +0000
Subject: [PATCH 55/58] fix: FAT timestamps must not depend on midnight
 existing in the local time zone

---
 file_systems/fat/dirent.go | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/file_systems/fat/dirent.go b/file_systems/fat/dirent.go
index 8235064..151bd39 100644
--- a/file_systems/fat/dirent.go
+++ b/file_systems/fat/dirent.go
@@ -172,18 +172,22 @@ const DirentSize = 32
 // DateFromInt converts the FAT on-disk representation of a date into a [time.Time]
 // object.
 func DateFromInt(value uint16) time.Time {
-	createDay := int(value & 0x001f)
-	createMonth := time.Month((value >> 5) & 0x000f)
-	createYear := int(1980 + (value >> 9))
-
+	createYear, createMonth, createDay := datePartsFromInt(value)
 	return time.Date(createYear, createMonth, createDay, 0, 0, 0, 0, time.Local)
 }
 
+// datePartsFromInt splits the FAT on-disk representation of a date.
+func datePartsFromInt(value uint16) (year int, month time.Month, day int) {
+	return int(1980 + (value >> 9)), time.Month((value >> 5) & 0x000f), int(value & 0x001f)
+}
+
 // TimestampFromParts converts a FAT timestamp into a [time.Time] object.
 // datePart is required; timePart and hundredths should be 0 if they're not
 // present in the source field(s).
 func TimestampFromParts(datePart uint16, timePart uint16, hundredths uint8) time.Time {
-	dateDt := DateFromInt(datePart)
+	// Don't go through the time.Time of midnight for this, since midnight doesn't exist
+	// on days when some time zones switch to daylight saving time.
+	year, month, day := datePartsFromInt(datePart)
 
 	seconds := int((timePart & 0x001f) * 2)
 	if hundredths >= 100 {
@@ -196,9 +200,9 @@ func TimestampFromParts(datePart uint16, timePart uint16, hundredths uint8) time
 	nanoseconds := int(hundredths) * 10_000_000
 
 	return time.Date(
-		dateDt.Year(),
-		dateDt.Month(),
-		dateDt.Day(),
+		year,
+		month,
+		day,
 		hours,
 		minutes,
 		seconds,
-- 
2.43.0


From 4f27e610e7cb06621d165e893bd427f5b6b1f8cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:33 +0000
Subject: [PATCH 56/58] fix: fat: find the parent of a removed file whose path
 isn't clean

---
 file_systems/fat/driverbase.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/file_systems/fat/driverbase.go b/file_systems/fat/driverbase.go
index 1bb3b4d..4ea47a6 100644
--- a/file_systems/fat/driverbase.go
+++ b/file_systems/fat/driverbase.go
@@ -476,7 +476,10 @@ func (drv *FATDriver) Remove(path string) error {
 		return disko.ErrIsADirectory
 	}
 
-	parentDirent, err := drv.resolvePathToDirent(filepath.Dir(path))
+	// The path must be cleaned before its last component is removed. Otherwise, the
+	// parent of e.g. "/FOO/" would be "/FOO" itself.
+	cleanedPath := posixpath.Clean("/" + filepath.ToSlash(path))
+	parentDirent, err := drv.resolvePathToDirent(posixpath.Dir(cleanedPath))
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 06ad15d74cb8e93d906a423bd04f68e8202db1c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:38 +0000
Subject: [PATCH 57/58] fix: driver: OpenFile never creates a directory for
 file type bits in perm

---
 driver/driver.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/driver/driver.go b/driver/driver.go
index a38734a..36ababa 100644
--- a/driver/driver.go
+++ b/driver/driver.go
@@ -226,6 +226,9 @@ func (driver *BaseDriver) OpenFile(
 	flags disko.IOFlags,
 	perm os.FileMode,
 ) (File, error) {
+	// Only regular files are created here, whatever file type `perm` specifies.
+	perm &^= os.ModeType
+
 	absPath := driver.NormalizePath(path)
 	ioFlags := disko.IOFlags(flags)
 
-- 
2.43.0


From 2cd3dc23543e425c2a48afcdedb2a556e5caa544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:23 +0000
Subject: [PATCH 58/58] fix: driver: commit the exact size of a file truncated
 and grown back

---
 driver/file.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/driver/file.go b/driver/file.go
index 963993c..5952c84 100644
--- a/driver/file.go
+++ b/driver/file.go
@@ -180,14 +180,20 @@ func (file *File) Sync() error {
 		return err
 	}
 
+	if !file.ioFlags.Write() {
+		return nil
+	}
+
+	// The object's own size is what counts, not the size it had when the file was
+	// opened: it could've been truncated and then grown again since then.
 	size := file.BasicStream.Size()
-	if size != file.fileInfo.FileStat.Size {
+	if size != file.objectHandle.Stat().Size {
 		err := file.objectHandle.Resize(uint64(size))
 		if err != nil {
 			return err
 		}
-		file.fileInfo.FileStat.Size = size
 	}
+	file.fileInfo.FileStat.Size = size
 	return nil
 }
 
-- 
2.43.0

