From 2845db9e5071512eaaa8eabb935f9bedd1836121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:04 +0000
Subject: [PATCH 01/35] fix: circularbuffer: continue with the unwritten bytes
 after wrapping around

A write that crosses the end of the internal buffer copied its first bytes
again instead of the remaining ones.
---
 circularbuffer/noalloc.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/circularbuffer/noalloc.go b/circularbuffer/noalloc.go
index 0449739..6efa879 100644
--- a/circularbuffer/noalloc.go
+++ b/circularbuffer/noalloc.go
@@ -156,7 +156,7 @@ func (buff *doubleSizeBuffer) Write(by []byte) {
 
 		copy(
 			buff.buffer[buff.head:buff.head+writeThisTime], // to
-			by,
+			remaining,
 		)
 
 		buff.head += writeThisTime
-- 
2.43.0


From fa25dc7410b868373e677bd684b207159ede3832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:56 +0000
Subject: [PATCH 02/35] fix: comparer: do not read into the circular buffer's
 storage

The block just matched was a slice of the circular buffer, and the next block
was read into it, which corrupted the window at the end of the stream. With a
block size of one, the byte just read was ignored in favour of that block.
---
 comparer/comparer.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/comparer/comparer.go b/comparer/comparer.go
index b793818..8471cc1 100644
--- a/comparer/comparer.go
+++ b/comparer/comparer.go
@@ -134,10 +134,8 @@ func (c *Comparer) startFindMatchingBlocks_int(
 		if weakMatchList := reference.FindWeakChecksum2(weaksum); weakMatchList != nil {
 			atomic.AddInt64(&c.WeakHashHits, 1)
 
-			block = blockMemory.GetBlock()
-
 			strong.Reset()
-			strong.Write(block)
+			strong.Write(blockMemory.GetBlock())
 			strongSum = strong.Sum(strongSum)
 			strongList := reference.FindStrongChecksum2(strongSum, weakMatchList)
 
@@ -181,8 +179,8 @@ func (c *Comparer) startFindMatchingBlocks_int(
 		}
 
 		if uint(n) == generator.BlockSize {
-			generator.WeakRollingHash.SetBlock(block)
-			blockMemory.Write(block)
+			generator.WeakRollingHash.SetBlock(readBytes)
+			blockMemory.Write(readBytes)
 			i += int64(n)
 		} else if n > 0 {
 			b_len := blockMemory.Len()
-- 
2.43.0


From fa1280e956945a2282324e32576aa668e7347862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:56 +0000
Subject: [PATCH 03/35] fix: comparer: end with an error when the local stream
 fails

A read error other than io.EOF made the comparison loop forever, and a stream
failing with io.ErrUnexpectedEOF passed for one that had ended. A last byte
delivered together with io.EOF was not compared.
---
 comparer/comparer.go | 31 ++++++++++++++++++++++++++-----
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/comparer/comparer.go b/comparer/comparer.go
index 8471cc1..f6dd942 100644
--- a/comparer/comparer.go
+++ b/comparer/comparer.go
@@ -170,10 +170,10 @@ func (c *Comparer) startFindMatchingBlocks_int(
 
 		switch next {
 		case READ_NEXT_BYTE:
-			n, err = comparison.Read(singleByte)
-			readBytes = singleByte
+			n, err = readFull(comparison, singleByte)
+			readBytes = singleByte[:n]
 		case READ_NEXT_BLOCK:
-			n, err = io.ReadFull(comparison, block)
+			n, err = readFull(comparison, block)
 			readBytes = block[:n]
 			next = READ_NEXT_BYTE
 		}
@@ -193,8 +193,12 @@ func (c *Comparer) startFindMatchingBlocks_int(
 			i += int64(n)
 		}
 
-		if next != READ_NONE && (err == io.EOF || err == io.ErrUnexpectedEOF) {
-			err = io.EOF
+		if err != nil && err != io.EOF {
+			// the stream is broken, it has not been scanned completely
+			break
+		}
+
+		if err == io.EOF {
 			next = READ_NONE
 		}
 
@@ -215,3 +219,20 @@ func (c *Comparer) startFindMatchingBlocks_int(
 		return
 	}
 }
+
+// readFull fills the buffer like io.ReadFull, but at the end of the stream it
+// always returns io.EOF, and any other error of the reader as it is.
+// An io.EOF that comes with the last byte needed is left to the next read.
+func readFull(r io.Reader, buffer []byte) (n int, err error) {
+	for n < len(buffer) && err == nil {
+		var read int
+		read, err = r.Read(buffer[n:])
+		n += read
+	}
+
+	if n == len(buffer) && err == io.EOF {
+		err = nil
+	}
+
+	return
+}
-- 
2.43.0


From aacb5e58ea7a523e5b2cd0f262c62e2da94ae96d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:41 +0000
Subject: [PATCH 04/35] fix: filechecksum: report failures while generating
 checksums

Errors of the input other than its end, of the output and of the compression
function were ignored: generation ended normally with the checksum of the part
read so far. GenerateChecksums also returned before the generator had reset its
hashes, so that using it again raced with that.
---
 filechecksum/filechecksum.go | 60 ++++++++++++++++++++++++++++++------
 1 file changed, 51 insertions(+), 9 deletions(-)

diff --git a/filechecksum/filechecksum.go b/filechecksum/filechecksum.go
index 4f69701..02eeb2b 100644
--- a/filechecksum/filechecksum.go
+++ b/filechecksum/filechecksum.go
@@ -101,20 +101,34 @@ func (check *FileChecksumGenerator) GetStrongHash() hash.Hash {
 // Potentially speaking, this might be better producing a channel of blocks, which would remove the need for io from
 // a number of other places.
 func (check *FileChecksumGenerator) GenerateChecksums(inputFile io.Reader, output io.Writer) (fileChecksum []byte, err error) {
+	// the results are always received until the channel is closed, since the
+	// generator must not be used again before that
 	for chunkResult := range check.StartChecksumGeneration(inputFile, 64, nil) {
-		if chunkResult.Err != nil {
-			return nil, chunkResult.Err
-		} else if chunkResult.Filechecksum != nil {
-			return chunkResult.Filechecksum, nil
+		if err != nil {
+			continue
 		}
 
+		if err = chunkResult.Err; err != nil {
+			continue
+		}
+
+		fileChecksum = chunkResult.Filechecksum
+
 		for _, chunk := range chunkResult.Checksums {
-			output.Write(chunk.WeakChecksum)
-			output.Write(chunk.StrongChecksum)
+			if _, err = output.Write(chunk.WeakChecksum); err != nil {
+				break
+			}
+			if _, err = output.Write(chunk.StrongChecksum); err != nil {
+				break
+			}
 		}
 	}
 
-	return nil, nil
+	if err != nil {
+		return nil, err
+	}
+
+	return fileChecksum, nil
 }
 
 type ChecksumResults struct {
@@ -167,9 +181,14 @@ func (check *FileChecksumGenerator) generate(
 
 	i := uint(0)
 	for {
-		n, err := io.ReadFull(inputFile, buffer)
+		n, err := readFull(inputFile, buffer)
 		section := buffer[:n]
 
+		if err != nil && err != io.EOF {
+			resultChan <- ChecksumResults{Err: err}
+			return
+		}
+
 		if n == 0 {
 			break
 		}
@@ -190,7 +209,13 @@ func (check *FileChecksumGenerator) generate(
 		blockSize := int64(check.BlockSize)
 
 		if compressionFunction != nil {
-			blockSize, err = compressionFunction(section)
+			var compressionErr error
+			blockSize, compressionErr = compressionFunction(section)
+
+			if compressionErr != nil {
+				resultChan <- ChecksumResults{Err: compressionErr}
+				return
+			}
 		}
 
 		results = append(
@@ -235,3 +260,20 @@ func (check *FileChecksumGenerator) generate(
 
 	return
 }
+
+// readFull fills the buffer like io.ReadFull, but at the end of the input it
+// always returns io.EOF, and any other error of the reader as it is.
+// An error that comes with the last byte needed is left to the next read.
+func readFull(r io.Reader, buffer []byte) (n int, err error) {
+	for n < len(buffer) && err == nil {
+		var read int
+		read, err = r.Read(buffer[n:])
+		n += read
+	}
+
+	if n == len(buffer) {
+		err = nil
+	}
+
+	return
+}
-- 
2.43.0


From c6ec136ce0acbc1a8f9c3016ee76eaaf97d6785c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:48 +0000
Subject: [PATCH 05/35] fix: gosync: read the whole magic string of an index,
 however it is delivered

---
 cmd/gosync/common.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/gosync/common.go b/cmd/gosync/common.go
index 8203952..dcc6922 100644
--- a/cmd/gosync/common.go
+++ b/cmd/gosync/common.go
@@ -173,7 +173,7 @@ func readHeadersAndCheck(
 ) {
 	b := make([]byte, len(magicString))
 
-	if _, err = r.Read(b); err != nil {
+	if _, err = io.ReadFull(r, b); err != nil {
 		return
 	} else if string(b) != magicString {
 		err = errors.New(
-- 
2.43.0


From 67971845996482225bcabbc4f3ae5864db0403e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:32 +0000
Subject: [PATCH 06/35] fix: patching with the index of an empty reference

The last block was taken to be number 2^64-1, so that the patch failed.
---
 rsync.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rsync.go b/rsync.go
index 59db7c1..cd3bb78 100644
--- a/rsync.go
+++ b/rsync.go
@@ -169,6 +169,11 @@ func MakeRSync(
 
 // Patch the files
 func (rsync *RSync) Patch() (err error) {
+	if rsync.Summary.GetBlockCount() == 0 && rsync.Summary.GetFileSize() == 0 {
+		// an empty reference has no blocks: the output stays empty
+		return nil
+	}
+
 	numMatchers := int64(DefaultConcurrency)
 	blockSize := rsync.Summary.GetBlockSize()
 	sectionSize := rsync.Summary.GetFileSize() / numMatchers
-- 
2.43.0


From f693b2f6fe3de00d9040ae4d4da4815b426bf293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:48 +0000
Subject: [PATCH 07/35] fix: copy only the short last block's own bytes from
 the local file

A match of the short last block in the middle of the local file (at the end of
a section) was copied as a whole block: the output was longer than the
reference.
---
 rsync.go | 32 ++++++++++++++++++++++++++++----
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/rsync.go b/rsync.go
index cd3bb78..e7825eb 100644
--- a/rsync.go
+++ b/rsync.go
@@ -209,7 +209,7 @@ func (rsync *RSync) Patch() (err error) {
 		rsync.Input,
 		rsync.Source,
 		toPatcherMissingSpan(missing, int64(blockSize)),
-		toPatcherFoundSpan(mergedBlocks, int64(blockSize)),
+		toPatcherFoundSpan(mergedBlocks, int64(blockSize), rsync.Summary.GetFileSize()),
 		20*megabyte,
 		rsync.Output,
 	)
@@ -326,8 +326,8 @@ func (f *fileCopyCloser) Close() (err error) {
 	return
 }
 
-func toPatcherFoundSpan(sl comparer.BlockSpanList, blockSize int64) []patcher.FoundBlockSpan {
-	result := make([]patcher.FoundBlockSpan, len(sl))
+func toPatcherFoundSpan(sl comparer.BlockSpanList, blockSize, fileSize int64) []patcher.FoundBlockSpan {
+	result := make([]patcher.FoundBlockSpan, len(sl), len(sl)+1)
 
 	for i, v := range sl {
 		result[i].StartBlock = v.StartBlock
@@ -336,7 +336,31 @@ func toPatcherFoundSpan(sl comparer.BlockSpanList, blockSize int64) []patcher.Fo
 		result[i].BlockSize = blockSize
 	}
 
-	return result
+	if len(result) == 0 {
+		return result
+	}
+
+	// The last block of the file may be shorter than the others. The local data
+	// after it are not part of the match, so it needs a span of its own.
+	last := &result[len(result)-1]
+	lastSize := fileSize - int64(last.EndBlock)*blockSize
+
+	if lastSize >= blockSize {
+		return result
+	} else if last.StartBlock == last.EndBlock {
+		last.BlockSize = lastSize
+		return result
+	}
+
+	last.EndBlock--
+	blocks := int64(last.EndBlock-last.StartBlock) + 1
+
+	return append(result, patcher.FoundBlockSpan{
+		StartBlock:  last.EndBlock + 1,
+		EndBlock:    last.EndBlock + 1,
+		MatchOffset: last.MatchOffset + blocks*blockSize,
+		BlockSize:   lastSize,
+	})
 }
 
 func toPatcherMissingSpan(sl comparer.BlockSpanList, blockSize int64) []patcher.MissingBlockSpan {
-- 
2.43.0


From a9bb693357458fc1a07c225ba4b727e6a31ba037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:59 +0000
Subject: [PATCH 08/35] fix: report a failure while copying the temporary file
 to its destination

The deferred closers replaced the error of the copy by their own.
---
 rsync.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rsync.go b/rsync.go
index e7825eb..9bc2e2c 100644
--- a/rsync.go
+++ b/rsync.go
@@ -303,7 +303,7 @@ func (f *fileCopyCloser) Close() (err error) {
 
 	defer func() {
 		e := from.Close()
-		if err != nil {
+		if err == nil {
 			err = e
 		}
 	}()
@@ -316,7 +316,7 @@ func (f *fileCopyCloser) Close() (err error) {
 
 	defer func() {
 		e := to.Close()
-		if err != nil {
+		if err == nil {
 			err = e
 		}
 	}()
-- 
2.43.0


From 011790852fcc1ac1c2cde6ff45f3b9ac2c643213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:59 +0000
Subject: [PATCH 09/35] fix: truncate an output file that exists

The end of a longer file remained after the patched content.
---
 rsync.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsync.go b/rsync.go
index 9bc2e2c..16b70f5 100644
--- a/rsync.go
+++ b/rsync.go
@@ -220,7 +220,7 @@ func getOutFile(filename string) (f io.WriteCloser, err error) {
 		return os.Create(filename)
 	}
 
-	return os.OpenFile(filename, os.O_WRONLY, 0)
+	return os.OpenFile(filename, os.O_WRONLY|os.O_TRUNC, 0)
 }
 
 func getTempFile() (f io.WriteCloser, filename string, err error) {
-- 
2.43.0


From 5e3d97cda01383ac34c42222634bb1be3d5d30b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:00 +0000
Subject: [PATCH 10/35] fix: gosync patch: refuse a damaged index

Errors while reading the header and the checksums were ignored, and an index
with too few checksums for its file size produced a short file and success.
---
 cmd/gosync/common.go | 19 +++++++++++++++++++
 cmd/gosync/patch.go  | 10 ++++++++++
 2 files changed, 29 insertions(+)

diff --git a/cmd/gosync/common.go b/cmd/gosync/common.go
index dcc6922..1d5e10e 100644
--- a/cmd/gosync/common.go
+++ b/cmd/gosync/common.go
@@ -235,6 +235,25 @@ func readIndex(r io.Reader, blocksize uint) (
 	return
 }
 
+// checks that an index has as many blocks as its file size requires
+func checkBlockCount(blockCount uint, blocksize uint32, filesize int64) error {
+	if blocksize > 0 && filesize >= 0 {
+		required := uint64(filesize) / uint64(blocksize)
+		if uint64(filesize)%uint64(blocksize) != 0 {
+			required++
+		}
+
+		if uint64(blockCount) == required {
+			return nil
+		}
+	}
+
+	return fmt.Errorf(
+		"The index is damaged: it has %v blocks of %v bytes for a file of %v bytes",
+		blockCount, blocksize, filesize,
+	)
+}
+
 func multithreadedMatching(
 	localFile *os.File,
 	idx *index.ChecksumIndex,
diff --git a/cmd/gosync/patch.go b/cmd/gosync/patch.go
index 448e689..1fef25f 100644
--- a/cmd/gosync/patch.go
+++ b/cmd/gosync/patch.go
@@ -69,11 +69,21 @@ func Patch(c *cli.Context) error {
 			magicString,
 			majorVersion,
 		)
+		if e != nil {
+			return e
+		}
 
 		index, checksumLookup, blockCount, err := readIndex(
 			indexReader,
 			uint(blocksize),
 		)
+		if err != nil {
+			return err
+		}
+
+		if e = checkBlockCount(blockCount, blocksize, filesize); e != nil {
+			return e
+		}
 
 		fs := &gosync_main.BasicSummary{
 			ChecksumIndex:  index,
-- 
2.43.0


From 8f8fb4db8ea7dc64d2a1d4704b56e1ed1c4147e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:54 +0000
Subject: [PATCH 11/35] fix: gosync diff: compare the local file up to its end

Every section but the first one starts a block earlier, but was not longer, so
that the last section ended too early and missed a short last block.
---
 cmd/gosync/common.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cmd/gosync/common.go b/cmd/gosync/common.go
index 1d5e10e..d34b955 100644
--- a/cmd/gosync/common.go
+++ b/cmd/gosync/common.go
@@ -271,14 +271,16 @@ func multithreadedMatching(
 
 	for i := int64(0); i < matcherCount; i++ {
 		offset := sectionSize * i
+		length := sectionSize
 
 		// Sections must overlap by blocksize (strictly blocksize - 1?)
 		if i > 0 {
 			offset -= int64(blocksize)
+			length += int64(blocksize)
 		}
 
 		sectionReader := bufio.NewReaderSize(
-			io.NewSectionReader(localFile, offset, sectionSize),
+			io.NewSectionReader(localFile, offset, length),
 			MB,
 		)
 
-- 
2.43.0


From b9a7cf781d7d3967d41ba0107639b9699592ac64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:27 +0000
Subject: [PATCH 12/35] fix: filechecksum: start every verification with a
 clean hash

After a block that did not match, correct data were rejected from then on.
---
 filechecksum/verifier.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/filechecksum/verifier.go b/filechecksum/verifier.go
index 9d604a5..2a604b7 100644
--- a/filechecksum/verifier.go
+++ b/filechecksum/verifier.go
@@ -34,14 +34,13 @@ func (v *HashVerifier) VerifyBlockRange(startBlockID uint, data []byte) bool {
 			return true
 		}
 
+		v.Hash.Reset()
 		v.Hash.Write(blockData)
 		hashedData := v.Hash.Sum(nil)
 
 		if bytes.Compare(expectedChecksum, hashedData) != 0 {
 			return false
 		}
-
-		v.Hash.Reset()
 	}
 
 	return true
-- 
2.43.0


From 5effc7a370626419a906a3b8029bf0d63167bdd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:27 +0000
Subject: [PATCH 13/35] fix: chunks: no panic when looking up a block that does
 not exist

Verifying data that reach beyond the last block crashed the process.
---
 chunks/chunks.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/chunks/chunks.go b/chunks/chunks.go
index aac4143..7d7a379 100644
--- a/chunks/chunks.go
+++ b/chunks/chunks.go
@@ -83,5 +83,9 @@ func LoadChecksumsFromReader(
 type StrongChecksumGetter []ChunkChecksum
 
 func (s StrongChecksumGetter) GetStrongChecksumForBlock(blockID int) []byte {
+	if blockID < 0 || blockID >= len(s) {
+		// there is no such block: nothing has this checksum
+		return []byte{}
+	}
 	return s[blockID].StrongChecksum
 }
-- 
2.43.0


From e4b760e77c4add8c403cfa82a879d97cca4ba884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:24 +0000
Subject: [PATCH 14/35] fix: comparer: no panic when no stream has been merged

---
 comparer/merger.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/comparer/merger.go b/comparer/merger.go
index f86b9e8..0ae8a6c 100644
--- a/comparer/merger.go
+++ b/comparer/merger.go
@@ -253,6 +253,11 @@ func (merger *MatchMerger) GetMergedBlocks() (sorted BlockSpanList) {
 	// var smallestKey uint = 0
 	m := merger.startEndBlockMap
 
+	if m == nil {
+		// no stream has been merged
+		return
+	}
+
 	m.AscendGreaterOrEqual(m.Min(), func(item llrb.Item) bool {
 		switch block := item.(type) {
 		case BlockSpanStart:
-- 
2.43.0


From 0edd5ac79814ada4fdb8bac77ede39c376dfd6c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:53 +0000
Subject: [PATCH 15/35] fix: sequential patcher: report failed seeks, short
 copies and refused requests

Seek errors were ignored, a local file that ended early was not noticed, a
failing RequestBlocks left the patcher waiting for ever, and a short reply in
the middle of the file was accepted.
---
 patcher/sequential/sequential.go | 40 ++++++++++++++++++++++++++++----
 1 file changed, 36 insertions(+), 4 deletions(-)

diff --git a/patcher/sequential/sequential.go b/patcher/sequential/sequential.go
index b8a3018..c0cb77d 100644
--- a/patcher/sequential/sequential.go
+++ b/patcher/sequential/sequential.go
@@ -57,19 +57,47 @@ func SequentialPatcher(
 			firstMatched := locallyAvailableBlocks[0]
 
 			// we have the current block range in the local file
-			localFile.Seek(firstMatched.MatchOffset, ABSOLUTE_POSITION)
+			if _, err := localFile.Seek(firstMatched.MatchOffset, ABSOLUTE_POSITION); err != nil {
+				return fmt.Errorf("Could not seek to %v in local file: %v", firstMatched.MatchOffset, err)
+			}
+
 			blockSizeToRead := int64(firstMatched.EndBlock-firstMatched.StartBlock+1) * firstMatched.BlockSize
 
-			if _, err := io.Copy(output, io.LimitReader(localFile, blockSizeToRead)); err != nil {
+			copied, err := io.Copy(output, io.LimitReader(localFile, blockSizeToRead))
+
+			if err != nil {
 				return fmt.Errorf("Could not copy %v bytes to output: %v", blockSizeToRead, err)
 			}
 
+			// only the last block may be cut short by the end of the local file
+			shortest := blockSizeToRead
+
+			if firstMatched.EndBlock == maxBlock {
+				shortest -= firstMatched.BlockSize
+			}
+
+			if copied < shortest {
+				return fmt.Errorf(
+					"Local file ended after %v of %v bytes at %v",
+					copied,
+					blockSizeToRead,
+					firstMatched.MatchOffset,
+				)
+			}
+
 			currentBlock = firstMatched.EndBlock + 1
 			locallyAvailableBlocks = locallyAvailableBlocks[1:]
 
 		} else if withinFirstBlockOfRemoteBlocks(currentBlock, requiredRemoteBlocks) {
 			firstMissing := requiredRemoteBlocks[0]
-			reference.RequestBlocks(firstMissing)
+			if err := reference.RequestBlocks(firstMissing); err != nil {
+				return fmt.Errorf(
+					"Could not request blocks %v-%v: %v",
+					firstMissing.StartBlock,
+					firstMissing.EndBlock,
+					err,
+				)
+			}
 
 			select {
 			case result := <-reference.GetResultChannel():
@@ -86,7 +114,11 @@ func SequentialPatcher(
 							firstMissing.BlockSize,
 						)
 
-						if completed != (firstMissing.EndBlock-firstMissing.StartBlock) + 1 {
+						// only the last block of the file may be shorter than the block size
+						partial := int64(len(result.Data))%firstMissing.BlockSize != 0
+
+						if completed != (firstMissing.EndBlock-firstMissing.StartBlock)+1 ||
+							(partial && firstMissing.EndBlock != maxBlock) {
 							return fmt.Errorf(
 								"Unexpected reponse length from remote source: blocks %v-%v (got %v blocks)", 
 								firstMissing.StartBlock,
-- 
2.43.0


From e5ab1d9d73444c9f0a4597911d349f15220da1bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:54 +0000
Subject: [PATCH 16/35] fix: report a patched output that has not the size of
 the reference

A local file that is cut within the last block while it is patched left a short
output, and the patch reported success.
---
 rsync.go | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/rsync.go b/rsync.go
index 16b70f5..76be629 100644
--- a/rsync.go
+++ b/rsync.go
@@ -205,14 +205,38 @@ func (rsync *RSync) Patch() (err error) {
 	mergedBlocks := merger.GetMergedBlocks()
 	missing := mergedBlocks.GetMissingBlocks(rsync.Summary.GetBlockCount() - 1)
 
-	return sequential.SequentialPatcher(
+	output := &countingWriter{Writer: rsync.Output}
+
+	err = sequential.SequentialPatcher(
 		rsync.Input,
 		rsync.Source,
 		toPatcherMissingSpan(missing, int64(blockSize)),
 		toPatcherFoundSpan(mergedBlocks, int64(blockSize), rsync.Summary.GetFileSize()),
 		20*megabyte,
-		rsync.Output,
+		output,
 	)
+
+	if err == nil && output.written != rsync.Summary.GetFileSize() {
+		err = fmt.Errorf(
+			"Patched %v bytes, but the size of the reference is %v",
+			output.written,
+			rsync.Summary.GetFileSize(),
+		)
+	}
+
+	return err
+}
+
+// countingWriter counts the bytes that are written
+type countingWriter struct {
+	io.Writer
+	written int64
+}
+
+func (w *countingWriter) Write(p []byte) (n int, err error) {
+	n, err = w.Writer.Write(p)
+	w.written += int64(n)
+	return
 }
 
 func getOutFile(filename string) (f io.WriteCloser, err error) {
-- 
2.43.0


From 036dae948345d623cad5a8f3e53fc1548d043138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:07 +0000
Subject: [PATCH 17/35] fix: http block source: recognise gzip in any form of
 the Content-Encoding header

Content codings are case-insensitive, and the header may be repeated.
---
 blocksources/httpblocksource.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/blocksources/httpblocksource.go b/blocksources/httpblocksource.go
index 0e93278..538b9fa 100644
--- a/blocksources/httpblocksource.go
+++ b/blocksources/httpblocksource.go
@@ -73,7 +73,8 @@ func (r *HttpRequester) DoRequest(startOffset int64, endOffset int64) (data []by
 	} else if rangedResponse.StatusCode != 206 {
 		return nil, RangedRequestNotSupportedError
 	} else if strings.Contains(
-		rangedResponse.Header.Get("Content-Encoding"),
+		// content codings are case-insensitive, and there may be several
+		strings.ToLower(strings.Join(rangedResponse.Header["Content-Encoding"], ",")),
 		"gzip",
 	) {
 		return nil, ResponseFromServerWasGZiped
-- 
2.43.0


From c1e19600046fe219f741ec9b4749d7caa2f95598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:59 +0000
Subject: [PATCH 18/35] fix: read seeker block source: report a reader failing
 with io.ErrUnexpectedEOF

It passed for the end of the file, and a part of the range was delivered.
---
 blocksources/readseeker_blocksource.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/blocksources/readseeker_blocksource.go b/blocksources/readseeker_blocksource.go
index 67958f6..d37d920 100644
--- a/blocksources/readseeker_blocksource.go
+++ b/blocksources/readseeker_blocksource.go
@@ -40,10 +40,19 @@ func (r *ReadSeekerRequester) DoRequest(startOffset int64, endOffset int64) (dat
 		return
 	}
 
-	n, err := io.ReadFull(r.rs, buffer)
+	// io.ReadFull would not tell the end of the file from a reader
+	// that fails with io.ErrUnexpectedEOF
+	n := 0
+
+	for n < len(buffer) && err == nil {
+		var read int
+		read, err = r.rs.Read(buffer[n:])
+		n += read
+	}
 
-	if err != nil && err != io.ErrUnexpectedEOF {
-		return
+	// the range may reach beyond the end of the file
+	if n < len(buffer) && (err != io.EOF || n == 0) {
+		return nil, err
 	}
 
 	return buffer[:n], nil
-- 
2.43.0


From b31689a6af07270b16e1b4a598a5cbf73488f59a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:52 +0000
Subject: [PATCH 19/35] fix: block source: orderly delivery, failures and
 shutdown

A response that was ready was delivered under the name of a lower request
started in the meantime: the lower one was then never delivered. Two failures
at once panicked. A source that had failed or was closed went on starting
queued requests, requesting from it panicked or blocked, and closing it could
leave its goroutine waiting for someone to take the error.
---
 blocksources/blocksourcebase.go | 119 +++++++++++++++++++-------------
 1 file changed, 70 insertions(+), 49 deletions(-)

diff --git a/blocksources/blocksourcebase.go b/blocksources/blocksourcebase.go
index 95e236a..45cc177 100644
--- a/blocksources/blocksourcebase.go
+++ b/blocksources/blocksourcebase.go
@@ -4,6 +4,7 @@ import (
 	"errors"
 	"fmt"
 	"sort"
+	"sync"
 
 	"github.com/Redundancy/go-sync/patcher"
 )
@@ -51,6 +52,7 @@ func NewBlockSourceBase(
 		ConcurrentRequests:  concurrentRequestCount,
 		ConcurrentBytes:     concurrentBytes,
 		exitChannel:         make(chan bool),
+		quitChannel:         make(chan bool),
 		errorChannel:        make(chan error),
 		responseChannel:     make(chan patcher.BlockReponse),
 		requestChannel:      make(chan patcher.MissingBlockSpan),
@@ -78,8 +80,10 @@ type BlockSourceBase struct {
 	// (requested + pending delivery)
 	ConcurrentBytes int64
 
-	hasQuit         bool
-	exitChannel     chan bool
+	hasQuit         bool       // Close was called
+	closeMutex      sync.Mutex // protects hasQuit
+	exitChannel     chan bool  // closed by Close
+	quitChannel     chan bool  // closed once no more requests are accepted
 	errorChannel    chan error
 	responseChannel chan patcher.BlockReponse
 	requestChannel  chan patcher.MissingBlockSpan
@@ -97,8 +101,18 @@ func (s *BlockSourceBase) ReadBytes() int64 {
 }
 
 func (s *BlockSourceBase) RequestBlocks(block patcher.MissingBlockSpan) error {
-	s.requestChannel <- block
-	return nil
+	select {
+	case <-s.exitChannel:
+		return BlockSourceAlreadyClosedError
+	default:
+	}
+
+	select {
+	case s.requestChannel <- block:
+		return nil
+	case <-s.quitChannel:
+		return BlockSourceAlreadyClosedError
+	}
 }
 
 func (s *BlockSourceBase) GetResultChannel() <-chan patcher.BlockReponse {
@@ -112,28 +126,24 @@ func (s *BlockSourceBase) EncounteredError() <-chan error {
 
 var BlockSourceAlreadyClosedError = errors.New("Block source was already closed")
 
+// Close stops the block source. It does not wait for requests that are running.
 func (s *BlockSourceBase) Close() (err error) {
-	// if it has already been closed, just recover
-	// however, let the caller know
-	defer func() {
-		if recover() != nil {
-			err = BlockSourceAlreadyClosedError
-		}
-	}()
+	s.closeMutex.Lock()
+	defer s.closeMutex.Unlock()
 
-	if !s.hasQuit {
-		s.exitChannel <- true
+	// if it has already been closed let the caller know
+	if s.hasQuit {
+		return BlockSourceAlreadyClosedError
 	}
 
-	return
+	s.hasQuit = true
+	close(s.exitChannel)
+	return nil
 }
 
 func (s *BlockSourceBase) loop() {
 	defer func() {
-		s.hasQuit = true
-		close(s.exitChannel)
 		close(s.errorChannel)
-		close(s.requestChannel)
 		close(s.responseChannel)
 	}()
 
@@ -151,10 +161,30 @@ func (s *BlockSourceBase) loop() {
 	requestOrdering := make(UintSlice, 0, s.ConcurrentRequests)
 	responseOrdering := make(PendingResponses, 0, s.ConcurrentRequests)
 
+	exitChannel := s.exitChannel
+	requestChannel := s.requestChannel
+
+	// accept no more requests, and deliver no more responses
+	exit := func() {
+		if state == STATE_RUNNING {
+			state = STATE_EXITING
+			requestChannel = nil
+			close(s.quitChannel)
+		}
+	}
+
+	// only the first error is reported
+	fail := func(err error) {
+		if state == STATE_RUNNING {
+			pendingErrors.setError(err)
+			exit()
+		}
+	}
+
 	for state == STATE_RUNNING || inflightRequests > 0 || pendingErrors.Err() != nil {
 
 		// Start any pending work that we can
-		for inflightRequests < s.ConcurrentRequests && len(requestQueue) > 0 {
+		for state == STATE_RUNNING && inflightRequests < s.ConcurrentRequests && len(requestQueue) > 0 {
 			inflightRequests += 1
 
 			nextRequest := requestQueue[len(requestQueue)-1]
@@ -189,8 +219,21 @@ func (s *BlockSourceBase) loop() {
 			requestQueue = requestQueue[:len(requestQueue)-1]
 		}
 
+		// if the lowest request has finished, we can set the response.
+		// Otherwise, wait.
+		pendingResponse.clear()
+
+		if state == STATE_RUNNING && len(responseOrdering) > 0 {
+			lowestRequest := requestOrdering[len(requestOrdering)-1]
+			lowestResponse := responseOrdering[len(responseOrdering)-1]
+
+			if lowestRequest == lowestResponse.StartBlock {
+				pendingResponse.setResponse(&lowestResponse)
+			}
+		}
+
 		select {
-		case newRequest := <-s.requestChannel:
+		case newRequest := <-requestChannel:
 			requestQueue = append(
 				requestQueue,
 				s.BlockSourceResolver.SplitBlockRangeToDesiredSize(
@@ -205,23 +248,19 @@ func (s *BlockSourceBase) loop() {
 			inflightRequests -= 1
 
 			if result.err != nil {
-				pendingErrors.setError(result.err)
-				pendingResponse.clear()
-				state = STATE_EXITING
+				fail(result.err)
 				break
 			}
 
 			s.bytesRequested += int64(len(result.data))
 
 			if s.Verifier != nil && !s.Verifier.VerifyBlockRange(result.startBlockID, result.data) {
-				pendingErrors.setError(
+				fail(
 					fmt.Errorf(
 						"The returned block range (%v-%v) did not match the expected checksum for the blocks",
 						result.startBlockID, result.endBlockID,
 					),
 				)
-				pendingResponse.clear()
-				state = STATE_EXITING
 				break
 			}
 
@@ -235,37 +274,19 @@ func (s *BlockSourceBase) loop() {
 			// sort high to low
 			sort.Sort(sort.Reverse(responseOrdering))
 
-			// if we just got the lowest requested block, we can set
-			// the response. Otherwise, wait.
-			lowestRequest := requestOrdering[len(requestOrdering)-1]
-
-			if lowestRequest == result.startBlockID {
-				lowestResponse := responseOrdering[len(responseOrdering)-1]
-				pendingResponse.clear()
-				pendingResponse.setResponse(&lowestResponse)
-			}
-
 		case pendingResponse.sendIfPending() <- pendingResponse.Response():
-			pendingResponse.clear()
 			responseOrdering = responseOrdering[:len(responseOrdering)-1]
 			requestOrdering = requestOrdering[:len(requestOrdering)-1]
 
-			// check if there's another response to enqueue
-			if len(responseOrdering) > 0 {
-				lowestResponse := responseOrdering[len(responseOrdering)-1]
-				lowestRequest := requestOrdering[len(requestOrdering)-1]
-
-				if lowestRequest == lowestResponse.StartBlock {
-					pendingResponse.setResponse(&lowestResponse)
-
-				}
-			}
-
 		case pendingErrors.sendIfSet() <- pendingErrors.Err():
 			pendingErrors.clear()
 
-		case <-s.exitChannel:
-			state = STATE_EXITING
+		case <-exitChannel:
+			exitChannel = nil
+			exit()
+
+			// nobody waits for it any more
+			pendingErrors.clear()
 		}
 	}
 }
-- 
2.43.0


From 2117a14c3dbb6a5ed7b77bf240a614055c9ab3e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:55 +0000
Subject: [PATCH 20/35] fix: comparer: compare a stream that is shorter than a
 block

---
 comparer/comparer.go | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/comparer/comparer.go b/comparer/comparer.go
index f6dd942..99d3c23 100644
--- a/comparer/comparer.go
+++ b/comparer/comparer.go
@@ -94,7 +94,6 @@ func (c *Comparer) startFindMatchingBlocks_int(
 	defer close(results)
 
 	block := make([]byte, generator.BlockSize)
-	var err error
 
 	ReportErr := func(err error) {
 		results <- BlockMatchResult{
@@ -102,15 +101,28 @@ func (c *Comparer) startFindMatchingBlocks_int(
 		}
 	}
 
-	_, err = io.ReadFull(comparison, block)
+	n, err := readFull(comparison, block)
 
-	if err != nil {
+	if err != nil && err != io.EOF {
 		ReportErr(
 			fmt.Errorf("Error reading first block in comparison: %v", err),
 		)
 		return
 	}
 
+	next := READ_NEXT_BYTE
+
+	if err == io.EOF {
+		if n == 0 {
+			return
+		}
+
+		// The stream is shorter than a block. It may still
+		// contain the last block of the reference
+		block = block[:n]
+		next = READ_NONE
+	}
+
 	generator.WeakRollingHash.SetBlock(block)
 	singleByte := make([]byte, 1)
 	weaksum := make([]byte, generator.WeakRollingHash.Size())
@@ -122,7 +134,6 @@ func (c *Comparer) startFindMatchingBlocks_int(
 	strong := generator.GetStrongHash()
 	// All the bytes
 	i := int64(0)
-	next := READ_NEXT_BYTE
 
 	//ReadLoop:
 	for {
-- 
2.43.0


From 4cc6b6ea0d976f71cb1c20bf6bcbfafb603b3b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:37 +0000
Subject: [PATCH 21/35] fix: rsync: keep the local file when patching in place
 fails

Close copied the partial temporary file over the local file.
---
 rsync.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/rsync.go b/rsync.go
index 76be629..9a7727e 100644
--- a/rsync.go
+++ b/rsync.go
@@ -48,6 +48,8 @@ type RSync struct {
 	Summary FileSummary
 
 	OnClose []closer
+
+	patched bool // Patch was successful
 }
 
 type closer interface {
@@ -169,8 +171,11 @@ func MakeRSync(
 
 // Patch the files
 func (rsync *RSync) Patch() (err error) {
+	rsync.patched = false
+
 	if rsync.Summary.GetBlockCount() == 0 && rsync.Summary.GetFileSize() == 0 {
 		// an empty reference has no blocks: the output stays empty
+		rsync.patched = true
 		return nil
 	}
 
@@ -224,6 +229,7 @@ func (rsync *RSync) Patch() (err error) {
 		)
 	}
 
+	rsync.patched = err == nil
 	return err
 }
 
@@ -279,9 +285,14 @@ func IsSameFile(path1, path2 string) (same bool, err error) {
 }
 
 // Close - close open files, copy to the final location from
-// a temporary one if neede
+// a temporary one if needed. Without a successful Patch there is
+// nothing to copy: the file at the final location stays as it is.
 func (rsync *RSync) Close() error {
 	for _, f := range rsync.OnClose {
+		if _, isCopy := f.(*fileCopyCloser); isCopy && !rsync.patched {
+			continue
+		}
+
 		if err := f.Close(); err != nil {
 			return err
 		}
-- 
2.43.0


From 076573387463799b38bcb7ce722b61286222357e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:55 +0000
Subject: [PATCH 22/35] fix: rsync: release the block source and the temporary
 file on close

The goroutine of the block source and the temporary file stayed behind,
and the input file stayed open when setting up a patch failed.
---
 cmd/gosync/patch.go |  1 +
 rsync.go            | 46 ++++++++++++++++++++++++++++++++++++++++-----
 2 files changed, 42 insertions(+), 5 deletions(-)

diff --git a/cmd/gosync/patch.go b/cmd/gosync/patch.go
index 1fef25f..0cdd699 100644
--- a/cmd/gosync/patch.go
+++ b/cmd/gosync/patch.go
@@ -107,6 +107,7 @@ func Patch(c *cli.Context) error {
 		err = rsync.Patch()
 
 		if err != nil {
+			rsync.Close()
 			return err
 		}
 
diff --git a/rsync.go b/rsync.go
index 9a7727e..6bfbf1f 100644
--- a/rsync.go
+++ b/rsync.go
@@ -110,6 +110,12 @@ func MakeRSync(
 		return
 	}
 
+	defer func() {
+		if err != nil {
+			inputFile.Close()
+		}
+	}()
+
 	var out io.WriteCloser
 	var outFilename = OutFile
 	var copier closer
@@ -160,6 +166,7 @@ func MakeRSync(
 		Source:  source,
 		Summary: Summary,
 		OnClose: []closer{
+			&sourceCloser{source},
 			&fileCloser{inputFile, InputFile},
 			&fileCloser{out, outFilename},
 			copier,
@@ -255,9 +262,12 @@ func getOutFile(filename string) (f io.WriteCloser, err error) {
 
 func getTempFile() (f io.WriteCloser, filename string, err error) {
 	ft, err := ioutil.TempFile(".", "tmp_")
-	filename = ft.Name()
-	f = ft
-	return
+
+	if err != nil {
+		return
+	}
+
+	return ft, ft.Name(), nil
 }
 
 // IsSameFile checks if two file paths are the same file
@@ -289,8 +299,8 @@ func IsSameFile(path1, path2 string) (same bool, err error) {
 // nothing to copy: the file at the final location stays as it is.
 func (rsync *RSync) Close() error {
 	for _, f := range rsync.OnClose {
-		if _, isCopy := f.(*fileCopyCloser); isCopy && !rsync.patched {
-			continue
+		if c, isCopy := f.(*fileCopyCloser); isCopy && !rsync.patched {
+			f = &fileRemover{c.from}
 		}
 
 		if err := f.Close(); err != nil {
@@ -318,6 +328,28 @@ func (f *fileCloser) Close() error {
 	return nil
 }
 
+type sourceCloser struct {
+	source *blocksources.BlockSourceBase
+}
+
+// Close - stop the block source, which may have been closed before
+func (s *sourceCloser) Close() error {
+	err := s.source.Close()
+	if err == blocksources.BlockSourceAlreadyClosedError {
+		return nil
+	}
+	return err
+}
+
+type fileRemover struct {
+	path string
+}
+
+// Close - remove a temporary file
+func (f *fileRemover) Close() error {
+	return os.Remove(f.path)
+}
+
 type nullCloser struct{}
 
 func (n nullCloser) Close() error {
@@ -336,11 +368,15 @@ func (f *fileCopyCloser) Close() (err error) {
 		return err
 	}
 
+	// if anything fails, the temporary file is all there is of the patched file
 	defer func() {
 		e := from.Close()
 		if err == nil {
 			err = e
 		}
+		if err == nil {
+			err = os.Remove(f.from)
+		}
 	}()
 
 	to, err := os.OpenFile(f.to, os.O_TRUNC|os.O_WRONLY, 0)
-- 
2.43.0


From 51f82c1bb2bd3cc0c119e1c6e548f9eca82e72e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:08 +0000
Subject: [PATCH 23/35] fix: gosync build: do not overwrite the input, refuse
 invalid block sizes

Building the index of a file called *.gosync truncated the file, a block
size of 0 (or a multiple of 2^32) filled the disk with checksums.
---
 cmd/gosync/build.go | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/cmd/gosync/build.go b/cmd/gosync/build.go
index 9051435..2e8647c 100644
--- a/cmd/gosync/build.go
+++ b/cmd/gosync/build.go
@@ -2,10 +2,12 @@ package main
 
 import (
 	"fmt"
+	"math"
 	"os"
 	"path/filepath"
 	"time"
 
+	gosync_main "github.com/Redundancy/go-sync"
 	"github.com/Redundancy/go-sync/filechecksum"
 	"github.com/urfave/cli/v2"
 )
@@ -31,6 +33,16 @@ func init() {
 
 func Build(c *cli.Context) error {
 	filename := c.Args().Get(0)
+
+	if size := int64(c.Int("blocksize")); size < 1 || size > math.MaxUint32 {
+		fmt.Fprintf(
+			os.Stderr,
+			"Invalid block size: %v\n",
+			size,
+		)
+		os.Exit(1)
+	}
+
 	blocksize := uint32(c.Int("blocksize"))
 	generator := filechecksum.NewFileChecksumGenerator(uint(blocksize))
 	inputFile, err := os.Open(filename)
@@ -54,6 +66,20 @@ func Build(c *cli.Context) error {
 
 	ext := filepath.Ext(filename)
 	outfilePath := filename[:len(filename)-len(ext)] + ".gosync"
+
+	// creating the index would destroy the file it describes
+	if same, err := gosync_main.IsSameFile(filename, outfilePath); err != nil {
+		handleFileError(outfilePath, err)
+		os.Exit(1)
+	} else if same {
+		fmt.Fprintf(
+			os.Stderr,
+			"The index of %v would overwrite the file itself\n",
+			filename,
+		)
+		os.Exit(1)
+	}
+
 	outputFile, err := os.Create(outfilePath)
 
 	if err != nil {
-- 
2.43.0


From 065bb29a1ce6e348462b5a3232c7c7942ef985ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:18 +0000
Subject: [PATCH 24/35] fix: block source: count the bytes read atomically

ReadBytes raced with the background loop.
---
 blocksources/blocksourcebase.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/blocksources/blocksourcebase.go b/blocksources/blocksourcebase.go
index 45cc177..ac2ca04 100644
--- a/blocksources/blocksourcebase.go
+++ b/blocksources/blocksourcebase.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"sort"
 	"sync"
+	"sync/atomic"
 
 	"github.com/Redundancy/go-sync/patcher"
 )
@@ -69,6 +70,8 @@ func NewBlockSourceBase(
 // BlockSourceBase implements patcher.BlockSource, and if it's good enough,
 // perhaps nobody else ever will have to.
 type BlockSourceBase struct {
+	bytesRequested int64 // first, so that it is aligned for atomic access
+
 	Requester           BlockSourceRequester
 	BlockSourceResolver BlockSourceOffsetResolver
 	Verifier            BlockVerifier
@@ -87,8 +90,6 @@ type BlockSourceBase struct {
 	errorChannel    chan error
 	responseChannel chan patcher.BlockReponse
 	requestChannel  chan patcher.MissingBlockSpan
-
-	bytesRequested int64
 }
 
 const (
@@ -97,7 +98,7 @@ const (
 )
 
 func (s *BlockSourceBase) ReadBytes() int64 {
-	return s.bytesRequested
+	return atomic.LoadInt64(&s.bytesRequested)
 }
 
 func (s *BlockSourceBase) RequestBlocks(block patcher.MissingBlockSpan) error {
@@ -252,7 +253,7 @@ func (s *BlockSourceBase) loop() {
 				break
 			}
 
-			s.bytesRequested += int64(len(result.data))
+			atomic.AddInt64(&s.bytesRequested, int64(len(result.data)))
 
 			if s.Verifier != nil && !s.Verifier.VerifyBlockRange(result.startBlockID, result.data) {
 				fail(
-- 
2.43.0


From 4eb6e06ffc183d22c718f92692b6d2943e04f30d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:06 +0000
Subject: [PATCH 25/35] fix: gosync diff: nothing is missing of an empty
 reference

---
 cmd/gosync/diff.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cmd/gosync/diff.go b/cmd/gosync/diff.go
index 0d35f77..1b54360 100644
--- a/cmd/gosync/diff.go
+++ b/cmd/gosync/diff.go
@@ -6,6 +6,7 @@ import (
 	"runtime"
 	"time"
 
+	"github.com/Redundancy/go-sync/comparer"
 	"github.com/urfave/cli/v2"
 )
 
@@ -131,7 +132,10 @@ func Diff(c *cli.Context) error {
 
 	// TODO: GetMissingBlocks uses the highest index, not the count, this can be pretty confusing
 	// Should clean up this interface to avoid that
-	missing := mergedBlocks.GetMissingBlocks(uint(index.BlockCount) - 1)
+	var missing comparer.BlockSpanList
+	if index.BlockCount > 0 {
+		missing = mergedBlocks.GetMissingBlocks(uint(index.BlockCount) - 1)
+	}
 	fmt.Println("Index blocks:", index.BlockCount)
 
 	totalMissingSize := uint64(0)
-- 
2.43.0


From ff6add0b5c2e366e4f9baf3ebc7ed405af2a4085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:08 +0000
Subject: [PATCH 26/35] fix: gosync diff: fail with a damaged index

An incomplete list of checksums was ignored (exit code 0), a block size
of 0 crashed.
---
 cmd/gosync/diff.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/cmd/gosync/diff.go b/cmd/gosync/diff.go
index 1b54360..d049e44 100644
--- a/cmd/gosync/diff.go
+++ b/cmd/gosync/diff.go
@@ -52,7 +52,7 @@ func Diff(c *cli.Context) error {
 
 	defer referenceFile.Close()
 
-	_, _, _, _, blocksize, e := readHeadersAndCheck(
+	_, _, _, filesize, blocksize, e := readHeadersAndCheck(
 		referenceFile,
 		magicString,
 		majorVersion,
@@ -65,11 +65,16 @@ func Diff(c *cli.Context) error {
 
 	fmt.Println("Blocksize: ", blocksize)
 
-	index, _, _, err := readIndex(referenceFile, uint(blocksize))
+	index, _, blockCount, err := readIndex(referenceFile, uint(blocksize))
 	referenceFile.Close()
 
+	if err == nil {
+		err = checkBlockCount(blockCount, blocksize, filesize)
+	}
+
 	if err != nil {
-		return err
+		fmt.Printf("Error loading index: %v\n", err)
+		os.Exit(1)
 	}
 
 	fmt.Println("Weak hash count:", index.WeakCount())
-- 
2.43.0


From 35bf8db4960e11756a4bbf1417556f3790d8fe31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:32 +0000
Subject: [PATCH 27/35] fix: gosync diff: revert 4eb6e06, which repaired
 nothing observable

---
 cmd/gosync/diff.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/cmd/gosync/diff.go b/cmd/gosync/diff.go
index d049e44..c4d1e24 100644
--- a/cmd/gosync/diff.go
+++ b/cmd/gosync/diff.go
@@ -6,7 +6,6 @@ import (
 	"runtime"
 	"time"
 
-	"github.com/Redundancy/go-sync/comparer"
 	"github.com/urfave/cli/v2"
 )
 
@@ -137,10 +136,7 @@ func Diff(c *cli.Context) error {
 
 	// TODO: GetMissingBlocks uses the highest index, not the count, this can be pretty confusing
 	// Should clean up this interface to avoid that
-	var missing comparer.BlockSpanList
-	if index.BlockCount > 0 {
-		missing = mergedBlocks.GetMissingBlocks(uint(index.BlockCount) - 1)
-	}
+	missing := mergedBlocks.GetMissingBlocks(uint(index.BlockCount) - 1)
 	fmt.Println("Index blocks:", index.BlockCount)
 
 	totalMissingSize := uint64(0)
-- 
2.43.0


From 58d084e361240292b825328b47ffee0742922b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:35 +0000
Subject: [PATCH 28/35] fix: RSync.Patch: compare all of a local file that is
 longer than the reference

The sections that are compared were made from the size of the reference,
so that the end of a longer local file was never looked at and what could
be found there was fetched.
---
 rsync.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/rsync.go b/rsync.go
index 6bfbf1f..a5ad456 100644
--- a/rsync.go
+++ b/rsync.go
@@ -186,9 +186,15 @@ func (rsync *RSync) Patch() (err error) {
 		return nil
 	}
 
+	inputSize, err := rsync.Input.Seek(0, io.SeekEnd)
+
+	if err != nil {
+		return err
+	}
+
 	numMatchers := int64(DefaultConcurrency)
 	blockSize := rsync.Summary.GetBlockSize()
-	sectionSize := rsync.Summary.GetFileSize() / numMatchers
+	sectionSize := inputSize / numMatchers
 	sectionSize += int64(blockSize) - (sectionSize % int64(blockSize))
 
 	merger := &comparer.MatchMerger{}
-- 
2.43.0


From 21dca9e5742f4211ac89ef253bb05a0f97b4c0c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:55 +0000
Subject: [PATCH 29/35] fix: gosync diff: fail if the local file cannot be
 compared

The merger of the matches dropped an error of the comparison, and diff
reported how little it had found, and success, for a file that it could
not read.
---
 cmd/gosync/diff.go |  5 +++++
 comparer/merger.go | 15 +++++++++++++++
 2 files changed, 20 insertions(+)

diff --git a/cmd/gosync/diff.go b/cmd/gosync/diff.go
index c4d1e24..7df22ee 100644
--- a/cmd/gosync/diff.go
+++ b/cmd/gosync/diff.go
@@ -104,6 +104,11 @@ func Diff(c *cli.Context) error {
 
 	mergedBlocks := merger.GetMergedBlocks()
 
+	if err := merger.Err(); err != nil {
+		fmt.Println("Error comparing file:", err)
+		os.Exit(1)
+	}
+
 	fmt.Println("\nMatched:")
 	totalMatchingSize := uint64(0)
 	matchedBlockCountAfterMerging := uint(0)
diff --git a/comparer/merger.go b/comparer/merger.go
index 0ae8a6c..0f2e2c0 100644
--- a/comparer/merger.go
+++ b/comparer/merger.go
@@ -19,6 +19,9 @@ type MatchMerger struct {
 	startEndBlockMap *llrb.LLRB
 
 	blockCount uint
+
+	// the first error of the streams
+	err error
 }
 
 // a span of multiple blocks, from start to end, which match the blocks
@@ -145,6 +148,11 @@ func (merger *MatchMerger) StartMergeResultStream(
 
 		for result := range resultStream {
 			if result.Err != nil {
+				merger.Lock()
+				if merger.err == nil {
+					merger.err = result.Err
+				}
+				merger.Unlock()
 				return
 			}
 
@@ -271,6 +279,13 @@ func (merger *MatchMerger) GetMergedBlocks() (sorted BlockSpanList) {
 	return
 }
 
+// Err waits for all of the streams to be merged, and gets the first error
+// that one of them ended with
+func (merger *MatchMerger) Err() error {
+	merger.wait.Wait()
+	return merger.err
+}
+
 // Creates a list of spans that are missing.
 // note that maxBlock is blockCount-1
 func (l BlockSpanList) GetMissingBlocks(maxBlock uint) (sorted BlockSpanList) {
-- 
2.43.0


From 665c9aa120b50e1100e42befc20a6b6aff689e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:55 +0000
Subject: [PATCH 30/35] fix: gosync diff: use one stream at least

With -p 0 a file of 1 MB or more ended in a division by zero, and with a
negative number nothing was compared.
---
 cmd/gosync/diff.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/gosync/diff.go b/cmd/gosync/diff.go
index 7df22ee..76fb708 100644
--- a/cmd/gosync/diff.go
+++ b/cmd/gosync/diff.go
@@ -89,8 +89,8 @@ func Diff(c *cli.Context) error {
 
 	localFile_size := fi.Size()
 
-	// Don't split up small files
-	if localFile_size < 1024*1024 {
+	// Don't split up small files, and use one stream at least
+	if localFile_size < 1024*1024 || num_matchers < 1 {
 		num_matchers = 1
 	}
 
-- 
2.43.0


From 57f72aa960ad8f36a3f1bcf51ccb97f93fce0e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:10 +0000
Subject: [PATCH 31/35] fix: gosync: fail if the options cannot be parsed

---
 cmd/gosync/main.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cmd/gosync/main.go b/cmd/gosync/main.go
index 4ff5578..f5b5878 100644
--- a/cmd/gosync/main.go
+++ b/cmd/gosync/main.go
@@ -61,5 +61,8 @@ func main() {
 		return nil
 	}
 
-	app.Run(os.Args)
+	if err := app.Run(os.Args); err != nil {
+		// what is wrong with the arguments has been printed
+		os.Exit(1)
+	}
 }
-- 
2.43.0


From d923c16719341aa0827aedaf4ad2291d49f24455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:58 +0000
Subject: [PATCH 32/35] fix: gosync patch: read the index over HTTP if it is a
 URL

---
 cmd/gosync/common.go | 3 ++-
 cmd/gosync/patch.go  | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/cmd/gosync/common.go b/cmd/gosync/common.go
index d34b955..ba32ea8 100644
--- a/cmd/gosync/common.go
+++ b/cmd/gosync/common.go
@@ -93,7 +93,7 @@ func getLocalOrRemoteFile(path string) (io.ReadCloser, error) {
 	switch {
 	case err != nil:
 		return os.Open(path)
-	case url.Scheme == "":
+	case url.Scheme != "http" && url.Scheme != "https":
 		return os.Open(path)
 	default:
 		response, err := http.Get(path)
@@ -103,6 +103,7 @@ func getLocalOrRemoteFile(path string) (io.ReadCloser, error) {
 		}
 
 		if response.StatusCode < 200 || response.StatusCode > 299 {
+			response.Body.Close()
 			return nil, fmt.Errorf("Request to %v returned status: %v", path, response.Status)
 		}
 
diff --git a/cmd/gosync/patch.go b/cmd/gosync/patch.go
index 0cdd699..285a73a 100644
--- a/cmd/gosync/patch.go
+++ b/cmd/gosync/patch.go
@@ -58,7 +58,7 @@ func Patch(c *cli.Context) error {
 			outFilename = c.Args().Get(3)
 		}
 
-		indexReader, e := os.Open(summaryFile)
+		indexReader, e := getLocalOrRemoteFile(summaryFile)
 		if e != nil {
 			return e
 		}
-- 
2.43.0


From 96db543c9fd72882158126f365dc980e4fc15909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:25 +0000
Subject: [PATCH 33/35] fix: MakeRSync: read a reference that is not a URL from
 a file

---
 rsync.go | 76 ++++++++++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 63 insertions(+), 13 deletions(-)

diff --git a/rsync.go b/rsync.go
index a5ad456..3da5cb2 100644
--- a/rsync.go
+++ b/rsync.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"io"
 	"io/ioutil"
+	"net/url"
 	"os"
 	"runtime"
 
@@ -116,6 +117,21 @@ func MakeRSync(
 		}
 	}()
 
+	// nil if the source is a URL
+	var reference *os.File
+
+	if !isURL(Source) {
+		if reference, err = openReference(Source, OutFile); err != nil {
+			return
+		}
+
+		defer func() {
+			if err != nil {
+				reference.Close()
+			}
+		}()
+	}
+
 	var out io.WriteCloser
 	var outFilename = OutFile
 	var copier closer
@@ -149,16 +165,23 @@ func MakeRSync(
 		Summary.GetFileSize(),
 	)
 
-	source = blocksources.NewHttpBlockSource(
-		Source,
-		DefaultConcurrency,
-		resolver,
-		&filechecksum.HashVerifier{
-			Hash:                md5.New(),
-			BlockSize:           Summary.GetBlockSize(),
-			BlockChecksumGetter: Summary,
-		},
-	)
+	verifier := &filechecksum.HashVerifier{
+		Hash:                md5.New(),
+		BlockSize:           Summary.GetBlockSize(),
+		BlockChecksumGetter: Summary,
+	}
+
+	if reference == nil {
+		source = blocksources.NewHttpBlockSource(
+			Source,
+			DefaultConcurrency,
+			resolver,
+			verifier,
+		)
+	} else {
+		source = blocksources.NewReadSeekerBlockSource(reference, resolver)
+		source.Verifier = verifier
+	}
 
 	r = &RSync{
 		Input:   inputFile,
@@ -166,7 +189,7 @@ func MakeRSync(
 		Source:  source,
 		Summary: Summary,
 		OnClose: []closer{
-			&sourceCloser{source},
+			&sourceCloser{source, reference},
 			&fileCloser{inputFile, InputFile},
 			&fileCloser{out, outFilename},
 			copier,
@@ -176,6 +199,27 @@ func MakeRSync(
 	return
 }
 
+// isURL tells whether a source is to be read over HTTP
+func isURL(source string) bool {
+	u, err := url.Parse(source)
+	return err == nil && (u.Scheme == "http" || u.Scheme == "https")
+}
+
+// openReference opens a reference that is a local file
+func openReference(reference, outFile string) (*os.File, error) {
+	same, err := IsSameFile(reference, outFile)
+
+	if err != nil {
+		return nil, err
+	}
+
+	if same {
+		return nil, fmt.Errorf("The output would overwrite the reference %v", reference)
+	}
+
+	return os.Open(reference)
+}
+
 // Patch the files
 func (rsync *RSync) Patch() (err error) {
 	rsync.patched = false
@@ -335,14 +379,20 @@ func (f *fileCloser) Close() error {
 }
 
 type sourceCloser struct {
-	source *blocksources.BlockSourceBase
+	source    *blocksources.BlockSourceBase
+	reference *os.File // what the source reads from, may be nil
 }
 
 // Close - stop the block source, which may have been closed before
 func (s *sourceCloser) Close() error {
 	err := s.source.Close()
 	if err == blocksources.BlockSourceAlreadyClosedError {
-		return nil
+		err = nil
+	}
+	if s.reference != nil {
+		if e := s.reference.Close(); err == nil {
+			err = e
+		}
 	}
 	return err
 }
-- 
2.43.0


From 72bfbe83c17326f549cd50c1462a9b37033fa4d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:58:05 +0000
Subject: [PATCH 34/35] fix: do not crash when a summary without a checksum
 lookup is used with MakeRSync

---
 rsync.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/rsync.go b/rsync.go
index 3da5cb2..a5ba382 100644
--- a/rsync.go
+++ b/rsync.go
@@ -92,6 +92,15 @@ func (fs *BasicSummary) GetFileSize() int64 {
 	return fs.FileSize
 }
 
+// GetStrongChecksumForBlock gets the checksum to verify a block with, which is nil
+// (do not verify) without a ChecksumLookup
+func (fs *BasicSummary) GetStrongChecksumForBlock(blockID int) []byte {
+	if fs.ChecksumLookup == nil {
+		return nil
+	}
+	return fs.ChecksumLookup.GetStrongChecksumForBlock(blockID)
+}
+
 // MakeRSync creates an RSync object using string paths,
 // inferring most of the configuration
 func MakeRSync(
-- 
2.43.0


From f25dbc810a146aad89247e5786fe7238a7ea95c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:22:47 +0000
Subject: [PATCH 35/35] fix: refuse to patch again once the output has been
 written to

A second Patch of the same RSync appended its output to what the first one
had written, and reported success.
---
 rsync.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/rsync.go b/rsync.go
index a5ba382..5c55d82 100644
--- a/rsync.go
+++ b/rsync.go
@@ -3,6 +3,7 @@ package gosync
 import (
 	"bufio"
 	"crypto/md5"
+	"errors"
 	"fmt"
 	"io"
 	"io/ioutil"
@@ -50,7 +51,8 @@ type RSync struct {
 
 	OnClose []closer
 
-	patched bool // Patch was successful
+	patched bool  // Patch was successful
+	written int64 // the number of bytes that Patch has written
 }
 
 type closer interface {
@@ -229,8 +231,13 @@ func openReference(reference, outFile string) (*os.File, error) {
 	return os.Open(reference)
 }
 
-// Patch the files
+// Patch the files. Once it has written to the output, it cannot be run again:
+// there is no way to get rid of what has been written.
 func (rsync *RSync) Patch() (err error) {
+	if rsync.written > 0 {
+		return errors.New("The output has been written to by an earlier patch")
+	}
+
 	rsync.patched = false
 
 	if rsync.Summary.GetBlockCount() == 0 && rsync.Summary.GetFileSize() == 0 {
@@ -287,6 +294,8 @@ func (rsync *RSync) Patch() (err error) {
 		output,
 	)
 
+	rsync.written = output.written
+
 	if err == nil && output.written != rsync.Summary.GetFileSize() {
 		err = fmt.Errorf(
 			"Patched %v bytes, but the size of the reference is %v",
-- 
2.43.0

