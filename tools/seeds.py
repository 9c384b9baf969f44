# Edits of the planted bugs: id -> (property, [(file, old, new)...])
S = {}
def seed(id, prop, *edits):
    assert id not in S
    S[id] = (prop, edits)

BSB = 'blocksources/blocksourcebase.go'
CMP = 'comparer/comparer.go'
MRG = 'comparer/merger.go'
SEQ = 'patcher/sequential/sequential.go'
FCK = 'filechecksum/filechecksum.go'
VER = 'filechecksum/verifier.go'
RES = 'blocksources/fixed_size_block_resolver.go'
HTT = 'blocksources/httpblocksource.go'
RDS = 'blocksources/readseeker_blocksource.go'
IDX = 'index/index.go'
CHK = 'chunks/chunks.go'
CIR = 'circularbuffer/noalloc.go'
RSB = 'rollsum/rollsum_32_base.go'
RS32 = 'rollsum/rollsum_32.go'
RSY = 'rsync.go'
COM = 'cmd/gosync/common.go'

seed('c01-last-found', 'C01', (SEQ, 'locallyAvailableBlocks[len(locallyAvailableBlocks)-1].EndBlock', 'locallyAvailableBlocks[0].EndBlock'))
seed('c01-end-offset', 'C01', (RES, 'if off := int64(uint64(blockID+1) * r.BlockSize); r.FileSize != 0 && off > r.FileSize {',
  'if off := int64(uint64(blockID+1) * r.BlockSize); r.FileSize != 0 && off > r.FileSize && r.FileSize%int64(r.BlockSize) > 1 {'))
seed('c02-write-error', 'C02', (SEQ, 'if _, err := output.Write(result.Data); err != nil {', 'if n, err := output.Write(result.Data); err != nil && n == 0 {'))
seed('c02-copy-error', 'C02', (SEQ, '''				return fmt.Errorf("Could not copy %v bytes to output: %v", blockSizeToRead, err)
''', '''				if firstMatched.EndBlock < maxBlock || copied == 0 {
					return fmt.Errorf("Could not copy %v bytes to output: %v", blockSizeToRead, err)
				}
'''))
seed('c04-strong-sum', 'C04', (CMP, '''			// clear the slice
			strongSum = strongSum[:0]

''', ''), (CMP, '''			if len(strongList) > 0 {
''', '''			if len(strongList) > 0 {
				// clear the slice
				strongSum = strongSum[:0]
'''))
seed('c04-strong-reset', 'C04', (CMP, '''			strong.Reset()
''', ''), (CMP, '''				atomic.AddInt64(&c.StrongHashHits, 1)
''', '''				atomic.AddInt64(&c.StrongHashHits, 1)
				strong.Reset()
'''), (CMP, '''	strong := generator.GetStrongHash()
	// All''', '''	strong := generator.GetStrongHash()
	strong.Reset()
	// All'''))
seed('c05-lock', 'C05', (MRG, '''			merger.Lock()
			merger.blockCount += 1

			blockID := result.BlockIdx
			preceeding := merger.startEndBlockMap.Get(BlockSpanKey(blockID - 1))
			following := merger.startEndBlockMap.Get(BlockSpanKey(blockID + 1))
''', '''			merger.Lock()
			merger.blockCount += 1

			blockID := result.BlockIdx
			preceeding := merger.startEndBlockMap.Get(BlockSpanKey(blockID - 1))
			following := merger.startEndBlockMap.Get(BlockSpanKey(blockID + 1))
			merger.Unlock()
			merger.Lock()
'''))
seed('c06-first-block', 'C06', (MRG, 'if int(blockSpan.StartBlock) > lastBlockSpanIndex+1 {', 'if int(blockSpan.StartBlock) > lastBlockSpanIndex+1 && blockSpan.StartBlock > 1 {'))
seed('c07-remove', 'C07', (RSB, '''		r.b -= uint32(uint(length) * uint(b))
		length -= 1
''', '''		r.b -= uint32(uint8(length)) * uint32(b)
		length -= 1
'''))
seed('c08-empty-write', 'C08', (CIR, '''func (c *C2) Write(b []byte) {
''', '''func (c *C2) Write(b []byte) {
	if len(b) == 0 {
		return
	}

'''))
seed('c09-sort-pairs', 'C09', (IDX, '''			sort.Sort(c)
''', '''			if len(c) > 2 {
				sort.Sort(c)
			}
'''))
seed('c09-high-byte', 'C09', (IDX, '''		n.weakChecksumLookup[arrayOffset][weakChecksumAsInt] = append(
			n.weakChecksumLookup[arrayOffset][weakChecksumAsInt],
			chunk,''', '''		n.weakChecksumLookup[arrayOffset][weakChecksumAsInt&0xffffff] = append(
			n.weakChecksumLookup[arrayOffset][weakChecksumAsInt&0xffffff],
			chunk,'''), (IDX, 'index.weakChecksumLookup[x&255][x]; ok', 'index.weakChecksumLookup[x&255][x&0xffffff]; ok'))
seed('c10-batch', 'C10', (FCK, '			results = make([]chunks.ChunkChecksum, 0, blocksPerResult)\n', '			results = results[:0]\n'))
seed('c10-dirty', 'C10', (FCK, '''	strongHash.Reset()
	fullChecksum.Reset()

	// We''', '''	fullChecksum.Reset()

	// We'''))
seed('c11-build', 'C11', ('cmd/gosync/build.go', '''			"Error generating checksum: %v %v\\n",
			filename,
			err,
		)
		os.Exit(2)
''', '''			"Error generating checksum: %v %v\\n",
			filename,
			err,
		)
'''))
seed('c11-index', 'C11', ('indexbuilder/indexbuilder.go', '''	fcheck, err = check.GenerateChecksums(r, b)

	if err != nil {
		return
	}
''', '''	fcheck, err = check.GenerateChecksums(r, b)

	if err != nil && b.Len() == 0 {
		return
	}
'''))
seed('c12-weak-partial', 'C12', (CHK, '} else if n == 0 && err == io.EOF {', '} else if n == 0 {'))
seed('c12-strong-read', 'C12', (CHK, 'n, err = io.ReadFull(r, strongBuffer)', 'n, err = r.Read(strongBuffer)'))
seed('c13-size', 'C13', (COM, '	if err = binary.Write(f, binary.LittleEndian, filesize); err != nil {', '	if err = binary.Write(f, binary.LittleEndian, int64(int32(filesize))); err != nil {'))
seed('c13-early-end', 'C13', (COM, '''	err = binary.Read(r, binary.LittleEndian, &blocksize)
	return
''', '''	if err = binary.Read(r, binary.LittleEndian, &blocksize); err == io.EOF {
		err = nil
	}
	return
'''))
seed('c13-version', 'C13', (COM, 'if requiredMajorVersion != major {', 'if requiredMajorVersion != major&0xff {'))
seed('c14-short', 'C14', (VER, 'for i := 0; i*int(v.BlockSize) < len(data); i++ {', 'for i := 0; i*int(v.BlockSize) < len(data) && (i == 0 || (i+1)*int(v.BlockSize) <= len(data)); i++ {'))
seed('c14-prefix', 'C14', (VER, 'if bytes.Compare(expectedChecksum, hashedData) != 0 {', 'if !bytes.HasPrefix(hashedData, expectedChecksum) {'))
seed('c15-order', 'C15', (BSB, '			sort.Sort(sort.Reverse(responseOrdering))\n', '			if inflightRequests == 0 {\n				sort.Sort(sort.Reverse(responseOrdering))\n			}\n'))
seed('c16-partial', 'C16', (BSB, 'if result.err != nil {', 'if result.err != nil && len(result.data) == 0 {'))
seed('c16-verify', 'C16', (BSB, 'if s.Verifier != nil && !s.Verifier', 'if s.Verifier != nil && len(responseOrdering) == 0 && !s.Verifier'))
seed('c17-early', 'C17', (BSB, 'for state == STATE_RUNNING || inflightRequests > 0 || pendingErrors.Err() != nil {', 'for state == STATE_RUNNING || inflightRequests > 1 || pendingErrors.Err() != nil {'))
seed('c18-narrow', 'C18', (RES, 'if off := int64(uint64(blockID) * r.BlockSize);', 'if off := int64(uint32(blockID) * uint32(r.BlockSize));'))
seed('c19-success', 'C19', (HTT, 'rangedResponse.StatusCode != 206 {', 'rangedResponse.StatusCode/100 != 2 {'))
seed('c19-longer', 'C19', (HTT, 'if int64(len(data)) != endOffset-startOffset {', 'if int64(len(data)) < endOffset-startOffset {'))
seed('c19-readerr', 'C19', (HTT, '''		if err != nil {
			err = fmt.Errorf(
				"Failed''', '''		if err != nil && int64(buf.Len()) < endOffset-startOffset {
			err = fmt.Errorf(
				"Failed'''), (HTT, '''		data = buf.Bytes()

''', '''		data, err = buf.Bytes(), nil

'''))
seed('c20-position', 'C20', (RDS, '	rs ReadSeeker\n', '	rs ReadSeeker\n\n	// where the reader is\n	position int64\n	known    bool\n'),
  (RDS, '	if _, err = r.rs.Seek(startOffset, from_start); err != nil {\n		return\n	}\n', '''	if !r.known || r.position != startOffset {
		if _, err = r.rs.Seek(startOffset, from_start); err != nil {
			return
		}
	}

	r.position, r.known = endOffset, true
'''))
seed('c21-within', 'C21', (SEQ, 'if result.StartBlock == currentBlock {', 'if result.StartBlock >= currentBlock && result.StartBlock <= firstMissing.EndBlock {'))
seed('c21-count', 'C21', (SEQ, '''	if uint(resultLength)%uint(blockSize) != 0 {
		completedBlockCount += 1
	}
''', '''	if uint(resultLength)%uint(blockSize) > uint(blockSize)/2 || completedBlockCount == 0 && resultLength > 0 {
		completedBlockCount += 1
	}
'''))
seed('c22-trunc', 'C22', (RSY, 'os.OpenFile(f.to, os.O_TRUNC|os.O_WRONLY, 0)', 'os.OpenFile(f.to, os.O_CREATE|os.O_WRONLY, 0)'))
seed('c23-unexpected', 'C23', (CMP, '''	if err != io.EOF {
		ReportErr(err)''', '''	if err != io.EOF && err != io.ErrUnexpectedEOF {
		ReportErr(err)'''))
seed('c23-nonblocking', 'C23', (CMP, '''		results <- BlockMatchResult{
			Err: err,
		}
''', '''		select {
		case results <- BlockMatchResult{Err: err}:
		default:
			// nobody waits for it
		}
'''))
seed('c24-skip', 'C24', (COM, '''	for i := int64(0); i < matcherCount; i++ {
''', '''	for i := int64(0); i < matcherCount && (i == 0 || localFileSize-sectionSize*i >= int64(blocksize)); i++ {
'''))
seed('c25-zero', 'C25', ('util/readers/uniformreader.go', '''	for i := 0; i < read; i++ {
		p[i] = r.value
	}
''', '''	for i := 0; i < read && r.value != 0; i++ {
		p[i] = r.value
	}
'''))
seed('c25-sequence', 'C25', ('util/readers/nonrepeating.go', '''		p[i] = b[0]
		r.value =''', '''		p[i] = b[0]
		if i == lenp-1 && lenp%4 == 0 {
			break
		}
		r.value ='''))
seed('c26-exit', 'C26', (COM, '''	if err := f(c); err != nil {
		fmt.Fprintln(os.Stderr, err.Error())
		os.Exit(1)
	}
''', '''	if err := f(c); err != nil {
		fmt.Fprintln(os.Stderr, err.Error())
		if err != io.ErrUnexpectedEOF {
			os.Exit(1)
		}
	}
'''))
seed('c26-partial', 'C26', (COM, '''	err = e

	if err != nil {
		return
	}
''', '''	err = e

	if err != nil && err != chunks.ErrPartialChecksum {
		return
	}
	err = nil
'''))
seed('c09-one-candidate', 'C09', (IDX, '''		if bytes.Compare(s[0].StrongChecksum, strong) == 0 {
			return s''', '''		if bytes.HasPrefix(s[0].StrongChecksum, strong[:len(strong)/2]) {
			return s'''))
seed('c01-few-matchers', 'C01', (RSY, '''	numMatchers := int64(DefaultConcurrency)
	blockSize := rsync.Summary.GetBlockSize()
''', '''	blockSize := rsync.Summary.GetBlockSize()
	numMatchers := int64(DefaultConcurrency)

	// no need for more matchers than blocks
	if blocks := rsync.Summary.GetFileSize() / int64(blockSize); blocks < numMatchers {
		numMatchers = blocks
	}

'''))
seed('c03-offset-width', 'C03', (CMP, '			off := i + baseOffset\n', '			off := int64(uint32(i) + uint32(baseOffset))\n'))
seed('c08-reset', 'C08', (CIR, '	buff.head = buff.baseOffset\n', '	buff.head = 0\n'))
seed('c08-truncate-clamp', 'C08', (CIR, '	if byteCount > max {\n		byteCount = max\n', '	if byteCount > c.blocksize {\n		byteCount = c.blocksize\n'))
seed('c18-rounded', 'C18', (RES, '	blockCountPerRequest := uint(maxSize / r.BlockSize)\n', '	blockCountPerRequest := uint((maxSize + r.BlockSize/2) / r.BlockSize)\n'))
seed('c22-copy-error', 'C22', (RSY, '	_, err = io.Copy(to, bufferedReader)\n', '	n, err := io.Copy(to, bufferedReader)\n	if n > 0 {\n		// something has been copied\n		return nil\n	}\n'))
seed('c24-matchers', 'C24', (RSY, '	sectionSize += int64(blockSize) - (sectionSize % int64(blockSize))\n', '''	sectionSize += int64(blockSize) - (sectionSize % int64(blockSize))

	// the sections are rounded up, so there may be fewer of them
	if sections := rsync.Summary.GetFileSize() / sectionSize; sections > 1 {
		numMatchers = sections
	}
'''))
seed('c24-shared-hash', 'C24', (FCK, '''var DefaultStrongHashGenerator = func() hash.Hash {
	return md5.New()
}
''', '''var DefaultStrongHashGenerator = func() hash.Hash {
	return strongHash
}

var strongHash = md5.New()
'''))
seed('c25-inject', 'C25', ('util/readers/injectedreader.go', 'import (\n', 'import (\n	"bufio"\n'), ('util/readers/injectedreader.go', '		io.LimitReader(base, offsetFromStart),', '		io.LimitReader(bufio.NewReaderSize(base, 16), offsetFromStart),'))
seed('c27-twice-freed', 'C27', (BSB, '			responseOrdering = responseOrdering[:len(responseOrdering)-1]\n', '''			responseOrdering = responseOrdering[:len(responseOrdering)-1]
			if inflightRequests > 1 {
				inflightRequests -= 1
			}
'''))
BLD = 'cmd/gosync/build.go'
DIF = 'cmd/gosync/diff.go'
seed('c28-same-name', 'C28', (RSY, '	return os.SameFile(fi1, fi2), nil\n', '	return os.SameFile(fi1, fi2) && fi1.Name() == fi2.Name(), nil\n'))
seed('c28-trunc-early', 'C28', (RSY, '		copier = &fileCopyCloser{\n', '''		// make room for the new content
		if Summary.GetFileSize() < inputSize(inputFile) {
			if err = os.Truncate(OutFile, Summary.GetFileSize()); err != nil {
				return
			}
		}

		copier = &fileCopyCloser{
'''), (RSY, 'func getTempFile() (', '''func inputSize(f *os.File) int64 {
	fi, err := f.Stat()
	if err != nil {
		return 0
	}
	return fi.Size()
}

func getTempFile() ('''))
seed('c29-keep-tail', 'C29', (BLD, 'os.Create(outfilePath)', 'os.OpenFile(outfilePath, os.O_CREATE|os.O_WRONLY, 0666)'))
seed('c29-versions', 'C29', (BLD, '[]uint16{majorVersion, minorVersion, patchVersion}', '[]uint16{majorVersion, patchVersion, minorVersion}'))
seed('c29-endian', 'C29', (COM, '	err = binary.Write(f, binary.LittleEndian, blocksize)\n', '	err = binary.Write(f, binary.BigEndian, blocksize)\n'),
  (COM, 'binary.Read(r, binary.LittleEndian, &blocksize)', 'binary.Read(r, binary.BigEndian, &blocksize)'))
seed('c29-extension', 'C29', (BLD, '	ext := filepath.Ext(filename)\n', '''	ext := ""
	if i := strings.Index(filename, "."); i > 0 {
		ext = filename[i:]
	}
'''), (BLD, '	"path/filepath"\n', '	"path/filepath"\n	"strings"\n'))
seed('c30-input', 'C30', (RSY, '			&fileCloser{inputFile, InputFile},\n', ''), (RSY, '	} else {\n		out, err = getOutFile(OutFile)\n', '	} else {\n		out, err = getOutFile(OutFile)\n		copier = &fileCloser{inputFile, InputFile}\n'),
  (RSY, '		copier = nullCloser{}\n', ''))
seed('c31-late', 'C31', (BSB, '			inflightRequests -= 1\n', '''			inflightRequests -= 1

			if state != STATE_RUNNING {
				// nobody waits for it any more
				break
			}
'''))
seed('c31-rejected', 'C31', (BSB, '				fail(\n					fmt.Errorf(\n', '				atomic.AddInt64(&s.bytesRequested, -int64(len(result.data)))\n				fail(\n					fmt.Errorf(\n'))
seed('c32-duplicates', 'C32', (CMP, '				atomic.AddInt64(&c.StrongHashHits, 1)\n', '				atomic.AddInt64(&c.StrongHashHits, int64(len(strongList)))\n'))
seed('c32-race', 'C32', (CMP, '			atomic.AddInt64(&c.WeakHashHits, 1)\n', '			c.WeakHashHits += 1\n'))
seed('c32-last', 'C32', (CMP, '		atomic.AddInt64(&c.Comparisons, 1)\n\n', ''), (CMP, '		var n int\n		var readBytes []byte\n', '		atomic.AddInt64(&c.Comparisons, 1)\n\n		var n int\n		var readBytes []byte\n'))
seed('c05-offset', 'C05', (MRG, 'if a.EndBlock == b.StartBlock-1 && a.EndOffset(blockSize) == b.ComparisonStartOffset {', 'if a.EndBlock == b.StartBlock-1 && a.EndOffset(blockSize) <= b.ComparisonStartOffset {'))
seed('c06-narrow', 'C06', (MRG, 'lastBlockSpanIndex = int(blockSpan.EndBlock)', 'lastBlockSpanIndex = int(int32(blockSpan.EndBlock))'))
seed('c27-one-start', 'C27', (BSB, '			// remove dispatched request\n			requestQueue = requestQueue[:len(requestQueue)-1]\n', '			// remove dispatched request\n			requestQueue = requestQueue[:len(requestQueue)-1]\n			if len(requestQueue) < s.ConcurrentRequests {\n				break\n			}\n'))
seed('c05-inside', 'C05', (MRG, """						// we didn't find a start, so there's an end that overlaps
						foundExisting = true
""", """						// we didn't find a start, so there's an end that overlaps
						foundExisting = k.EndBlock == blockID || k.ComparisonStartOffset <= result.ComparisonOffset
"""))
seed('c33-percent', 'C33', (DIF, '	fmt.Println("Index blocks:", index.BlockCount)\n', '	fmt.Println("Index blocks:", index.BlockCount)\n	fmt.Println("Matched percent:", matchedBlockCountAfterMerging*100/uint(index.BlockCount))\n'))
seed('c33-underflow', 'C33', (DIF, """	totalMissingSize := uint64(0)
	for _, b := range missing {
		//fmt.Printf("%#v\\n", b)
		totalMissingSize += uint64(b.EndBlock-b.StartBlock+1) * uint64(blocksize)
	}
""", """	totalMissingSize := uint64(0)
	if len(missing) > 0 {
		totalMissingSize = uint64(filesize) - totalMatchingSize
	}
"""))
seed('c30-body', 'C30', (HTT, '	defer rangedResponse.Body.Close()\n\n', ''), (HTT, '		buf := bytes.NewBuffer(', '		defer rangedResponse.Body.Close()\n		buf := bytes.NewBuffer('))

seed('c34-temp', 'C34', (RSY, '''	ft, err := ioutil.TempFile(".", "tmp_")
''', '''	ft, err := os.Create(fmt.Sprintf("tmp_%v", os.Getpid()))
'''), (RSY, '	"io/ioutil"\n', ''))
seed('c34-verifier', 'C34', (RSY, '''		Hash:                md5.New(),
''', '''		Hash:                verifierHash,
'''), (RSY, '''	DefaultConcurrency = runtime.NumCPU()
''', '''	DefaultConcurrency, verifierHash = runtime.NumCPU(), md5.New()
'''))
seed('c35-run', 'C35', (CMP, '''		if weakMatchList := reference.FindWeakChecksum2(weaksum); weakMatchList != nil {
''', '''		if weakMatchList := reference.FindWeakChecksum2(weaksum); weakMatchList != nil && string(weaksum) != missed {
			missed = string(weaksum)
'''), (CMP, '''			if len(strongList) > 0 {
''', '''			if len(strongList) > 0 {
				missed = ""
'''), (CMP, '''	// All the bytes
	i := int64(0)
''', '''	// the last weak sum that was no match: often the same in a run of equal bytes
	missed := ""
	// All the bytes
	i := int64(0)
'''))
seed('c35-half', 'C35', (CMP, '''			if blockMemory.Empty() {
''', '''			// not worth it for less than half a block
			if blockMemory.Empty() || blockMemory.Len() < int(generator.BlockSize)/2 {
'''))
seed('c36-missing', 'C36', (DIF, '''	if referenceFile == nil {
		os.Exit(1)
	}
''', '''	if referenceFile == nil {
		// the error has been handled
		return nil
	}
'''))
seed('c36-output-first', 'C36', (RSY, '''	inputFile, err := os.Open(InputFile)

	if err != nil {
		return
	}
''', '''	var inputFile *os.File
'''), (RSY, '''		copier = nullCloser{}
	}
''', '''		copier = nullCloser{}
	}

	if inputFile, err = os.Open(InputFile); err != nil {
		out.Close()
		return
	}
'''))
seed('c33-rounded', 'C33', (COM, '''	for i := int64(0); i < matcherCount; i++ {
''', '''	for i := int64(0); i < matcherCount && (i+1)*sectionSize <= localFileSize; i++ {
'''))

seed('c17-lost-result', 'C17', (BSB, """				resultChan <- asyncResult{
					startBlockID: nextRequest.StartBlockID,
					endBlockID:   nextRequest.EndBlockID,
					data:         result,
					err:          err,
				}
""", """				done := asyncResult{
					startBlockID: nextRequest.StartBlockID,
					endBlockID:   nextRequest.EndBlockID,
					data:         result,
					err:          err,
				}

				select {
				case resultChan <- done:
				case <-s.exitChannel:
					// nobody is interested any more
				}
"""))
seed('c03-cached-sum', 'C03', (CMP, '	weaksum := make([]byte, generator.WeakRollingHash.Size())\n', '	weaksum := make([]byte, generator.WeakRollingHash.Size())\n	hashedSum := make([]byte, 0, generator.WeakRollingHash.Size())\n'),
 (CMP, """			strong.Reset()
			strong.Write(blockMemory.GetBlock())
			strongSum = strong.Sum(strongSum)
			strongList := reference.FindStrongChecksum2(strongSum, weakMatchList)

			// clear the slice
			strongSum = strongSum[:0]
""", """			// the window may not have changed (runs of equal bytes)
			if string(hashedSum) != string(weaksum) {
				strong.Reset()
				strong.Write(blockMemory.GetBlock())
				strongSum = strong.Sum(strongSum[:0])
				hashedSum = append(hashedSum[:0], weaksum...)
			}

			strongList := reference.FindStrongChecksum2(strongSum, weakMatchList)
"""))
seed('c13-magic', 'C13', (COM, '	} else if string(b) != magicString {\n', '	} else if !strings.EqualFold(string(b), magicString) {\n'), (COM, '	"os"\n', '	"os"\n	"strings"\n'))
seed('c14-dirty', 'C14', (VER, """		v.Hash.Reset()
		v.Hash.Write(blockData)
		hashedData := v.Hash.Sum(nil)

		if bytes.Compare(expectedChecksum, hashedData) != 0 {
			return false
		}
""", """		v.Hash.Write(blockData)
		hashedData := v.Hash.Sum(nil)

		if bytes.Compare(expectedChecksum, hashedData) != 0 {
			return false
		}

		v.Hash.Reset()
"""))
seed('c16-eof', 'C16', (BSB, '			if result.err != nil {\n', '			if result.err != nil && result.err != io.EOF {\n'), (BSB, '	"fmt"\n', '	"fmt"\n	"io"\n'))
seed('c20-two', 'C20', (RDS, '		1,\n', '		2,\n'))
seed('c37-name', 'C37', (COM, """	case url.Scheme != "http" && url.Scheme != "https":
		return os.Open(path)
""", """	case url.Scheme != "http" && url.Scheme != "https":
		return os.Open(url.Path)
"""))
seed('c37-status', 'C37', (COM, '		if response.StatusCode < 200 || response.StatusCode > 299 {\n', '		if response.StatusCode >= 400 {\n'))
seed('c36-args', 'C36', ('cmd/gosync/patch.go', '		if l := c.Args().Len(); l < 3 || l > 4 {\n', '		if l := c.Args().Len(); l < 3 {\n'))

seed('c07-zero', 'C07', (RSB, """	for _, b := range bs {
		r.a -= uint32(b)
		r.b -= uint32(uint(length) * uint(b))
		length -= 1
	}
""", """	for _, b := range bs {
		if b == 0 {
			// zeros add nothing
			continue
		}

		r.a -= uint32(b)
		r.b -= uint32(uint(length) * uint(b))
		length -= 1
	}
"""))
seed('c10-offset', 'C10', (FCK, '				ChunkOffset:    i,\n', '				ChunkOffset:    i&^(blocksPerResult-1) | uint(len(results)),\n'))
seed('c38-rename', 'C38', (RSY, '''	from, err := os.OpenFile(f.from, os.O_RDONLY, 0)
''', '''	// moving is faster than copying, but only possible within a file system
	if err = os.Rename(f.from, f.to); err == nil {
		return
	}

	from, err := os.OpenFile(f.from, os.O_RDONLY, 0)
'''), (RSY, '	bufferedReader := bufio.NewReaderSize(from, megabyte)\n	_, err = io.Copy(to, bufferedReader)\n', '	_, err = io.Copy(to, bufio.NewReaderSize(from, megabyte))\n'))
seed('c38-fresh', 'C38', (RSY, '''	if _, err = os.Stat(filename); os.IsNotExist(err) {
		return os.Create(filename)
''', '''	fi, err := os.Stat(filename)

	if err == nil && fi.Mode().IsRegular() {
		// do not depend on what was there before
		err = os.Remove(filename)
	}

	if err == nil && fi.Mode().IsRegular() || os.IsNotExist(err) {
		return os.Create(filename)
'''))
seed('c38-mode', 'C38', (RSY, '	bufferedReader := bufio.NewReaderSize(from, megabyte)\n	_, err = io.Copy(to, bufferedReader)\n', '''	bufferedReader := bufio.NewReaderSize(from, megabyte)

	if _, err = io.Copy(to, bufferedReader); err == nil {
		// a copy has the permissions of the original
		var fi os.FileInfo
		if fi, err = from.Stat(); err == nil {
			err = to.Chmod(fi.Mode())
		}
	}
'''))
# Bugs that need large sizes, counts or offsets.
seed('c07-length', 'C07', (RSB, 'func (r *Rollsum32Base) RemoveByte(b byte, length int) {\n	r.a -= uint32(b)\n	r.b -= uint32(uint(length) * uint(b))', 'func (r *Rollsum32Base) RemoveByte(b byte, length int) {\n	r.a -= uint32(b)\n	r.b -= uint32(uint8(length)) * uint32(b)'))
seed('c08-narrow', 'C08', (CIR, '	c.lastWritten = len(b)\n', '	c.lastWritten = int(uint16(len(b)))\n'))
seed('c10-narrow', 'C10', (FCK, '				ChunkOffset:    i,', '				ChunkOffset:    uint(uint16(i)),'))
seed('c14-narrow', 'C14', (VER, 'int(startBlockID) + i,', 'int(int32(startBlockID)) + i,'))
seed('c18-large', 'C18', (RES, 'off := int64(uint64(blockID) * r.BlockSize)', 'off := int64(uint64(blockID) * uint64(uint32(r.BlockSize)))'))
seed('c20-far', 'C20', (RDS, 'r.rs.Seek(startOffset, from_start)', 'r.rs.Seek(int64(uint32(startOffset)), from_start)'))
seed('c12-many', 'C12', (CHK, '			temp.ChunkOffset = offset', '			temp.ChunkOffset = uint(uint16(offset))'))
seed('c09-limit', 'C09', (IDX, '	for end < n {', '	for end < n && end < first_gte_checksum+20 {'))
seed('c21-far', 'C21', (SEQ, 'localFile.Seek(firstMatched.MatchOffset, ABSOLUTE_POSITION)', 'localFile.Seek(int64(uint32(firstMatched.MatchOffset)), ABSOLUTE_POSITION)'))
seed('c04-limit', 'C04', (CMP, 'for _, strongMatch := range strongList {', 'if len(strongList) > 16 {\n				strongList = strongList[:16]\n			}\n\n			for _, strongMatch := range strongList {'))
seed('c05-long', 'C05', (MRG, 'blockSize*int64(b.EndBlock-b.StartBlock+1)', 'blockSize*int64(uint8(b.EndBlock-b.StartBlock+1))'))
seed('c27-many', 'C27', (BSB, 'inflightRequests < s.ConcurrentRequests &&', 'inflightRequests < s.ConcurrentRequests+s.ConcurrentRequests/16 &&'))
seed('c19-size', 'C19', (HTT, '		if int64(len(data)) != endOffset-startOffset {', '		if uint16(len(data)) != uint16(endOffset-startOffset) {'))
# Bugs that need several goroutines.
seed('c15-verify', 'C15', (BSB, '\t\t\t\tresultChan <- asyncResult{\n', '\t\t\t\tif err == nil && s.Verifier != nil && !s.Verifier.VerifyBlockRange(nextRequest.StartBlockID, result) {\n\t\t\t\t\terr = fmt.Errorf("The returned block range (%v-%v) did not match the expected checksum for the blocks", nextRequest.StartBlockID, nextRequest.EndBlockID)\n\t\t\t\t}\n\n\t\t\t\tresultChan <- asyncResult{\n'), (BSB, '\t\t\tif s.Verifier != nil && !s.Verifier.VerifyBlockRange(result.startBlockID, result.data) {\n\t\t\t\tfail(\n\t\t\t\t\tfmt.Errorf(\n\t\t\t\t\t\t"The returned block range (%v-%v) did not match the expected checksum for the blocks",\n\t\t\t\t\t\tresult.startBlockID, result.endBlockID,\n\t\t\t\t\t),\n\t\t\t\t)\n\t\t\t\tbreak\n\t\t\t}\n\n', ''))
seed('c09-cache', 'C09', (IDX, '\tx := binary.LittleEndian.Uint32(weak)\n', '\tx := binary.LittleEndian.Uint32(weak)\n\tif index.last != nil && index.lastSum == x {\n\t\treturn index.last\n\t}\n'), (IDX, '\t\t\treturn v\n\t\t}\n\t}\n\treturn nil\n}\n', '\t\t\tindex.last = v\n\t\t\tindex.lastSum = x\n\t\t\treturn v\n\t\t}\n\t}\n\treturn nil\n}\n'), (IDX, '\tMaxStrongLength     int\n', '\tMaxStrongLength     int\n\tlast StrongChecksumList\n\tlastSum uint32\n'))
seed('c39-fixed', 'C39', (RSY, '	ft, err := ioutil.TempFile(".", "tmp_")\n', '	ft, err := os.Create("tmp_patched")\n'), (RSY, '	"io/ioutil"\n', ''))
seed('c39-clean', 'C39', (RSY, '			err = os.Remove(f.from)\n', '''			// earlier patches may have left theirs
			var old []string
			old, err = filepath.Glob(filepath.Join(filepath.Dir(f.from), "tmp*"))

			for _, name := range old {
				if e := os.Remove(name); err == nil {
					err = e
				}
			}
'''), (RSY, '	"os"\n', '	"os"\n	"path/filepath"\n'), (RSY, '	from, err := os.OpenFile(f.from, os.O_RDONLY, 0)\n\n	if err != nil {\n		return err\n	}\n', '	from, err := os.Open(f.from)\n\n	if err != nil {\n		return err\n	}\n'))
seed('c39-build', 'C39', ('cmd/gosync/build.go', '	outputFile, err := os.Create(outfilePath)\n', '	// an index is complete when it gets its name\n	partPath := outfilePath + ".part"\n	outputFile, err := os.Create(partPath)\n'), ('cmd/gosync/build.go', '	inputFileInfo, err := os.Stat(filename)\n', '	if err = os.Rename(partPath, outfilePath); err != nil {\n		handleFileError(outfilePath, err)\n		os.Exit(2)\n	}\n\n	inputFileInfo, err := os.Stat(filename)\n'))
seed('c09-dedup', 'C09', (IDX,'			sort.Sort(c)\n','			sort.Sort(c)\n			c = c.unique()\n			a[binary.LittleEndian.Uint32(c[0].WeakChecksum)] = c\n'),(IDX,'// Sortable interface\nfunc (s StrongChecksumList) Len() int {','''func (s StrongChecksumList) unique() (l StrongChecksumList) {
	for i, c := range s {
		if i < 64 || !c.Match(s[i-1]) {
			l = append(l, c)
		}
	}
	return
}

// Sortable interface
func (s StrongChecksumList) Len() int {'''))
seed('c29-repeated', 'C29', (BLD, 'filename[:len(filename)-len(ext)] + ".gosync"', 'strings.Replace(filename, ext, "", 1) + ".gosync"'), (BLD, '	"path/filepath"\n', '	"path/filepath"\n	"strings"\n'))
