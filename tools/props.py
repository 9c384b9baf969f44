#!/usr/bin/env python3
"""Source of properties.jsonl (python3 tools/props.py > properties.jsonl)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=()):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None)))

p("C01","A successful patch reproduces the reference file exactly",
 "For every reference file, local file, block size and degree of matching concurrency, patching the local file with a correct index and a correct block source finishes without error. The bytes written to the output are then exactly the bytes of the reference file: nothing missing, nothing extra, nothing out of place.",
 ["inputs","configurations","schedules"],"all local contents x all reference contents (including empty, shorter than a block, longer or shorter than each other, duplicated blocks, partial last block) x block size x matcher count x order in which concurrent matchers deliver",
 "The end-to-end tests patch two fixed strings with one block size; a wrong tail, a section boundary or a duplicated block only shows for particular content alignments.",
 ["rsync.go","comparer/comparer.go","comparer/merger.go","patcher/sequential/sequential.go"],
 [("section splitting, match, merge, complement, sequential copy","rsync.go (RSync).Patch"),("sequential patcher","patcher/sequential/sequential.go SequentialPatcher")],
 ["bytes written to RSync.Output and the error returned by RSync.Patch"])
p("C02","A patch never reports success with wrong output",
 "If anything the patch depends on misbehaves - the block source fails or returns altered, truncated or misplaced data that the block checksums expose, the local file fails to read or seek, or the output fails to write - then either an error is returned or the output still equals the reference file. A reported success is never accompanied by different output.",
 ["fault_sequences","inputs"],"every position of a local read error, seek error, write error, every content and length of a block-source reply, for all file contents",
 "Tests use in-memory sources that never fail; only one source-level 404 and one checksum mismatch are sampled.",
 ["rsync.go","patcher/sequential/sequential.go","blocksources/blocksourcebase.go","filechecksum/verifier.go"],
 [("error checks in the sequential copy loop","patcher/sequential/sequential.go SequentialPatcher"),("verification before delivery","blocksources/blocksourcebase.go loop")],
 ["error returned by RSync.Patch / SequentialPatcher versus output bytes"])
p("C03","Every reported block match is genuine",
 "Whenever comparing a local stream with a reference index reports that a reference block was found at an offset, the local bytes at that offset are exactly the content of that reference block. This includes matches of a shorter final block at the end of the stream.",
 ["inputs"],"all local byte streams, all reference contents, all block sizes, all base offsets",
 "Tests compare a handful of fixed strings; a stale window only differs for particular sequences of matches and mismatches.",
 ["comparer/comparer.go","circularbuffer/noalloc.go","rollsum/rollsum_32_base.go","index/index.go"],
 [("window maintained while scanning, strong hash confirmation","comparer/comparer.go startFindMatchingBlocks_int")],
 ["results on the channel returned by StartFindMatchingBlocks"])
p("C04","No findable block is missed when scanning the local file",
 "Scanning moves through the local stream byte by byte, jumping over a block after it matched; every position visited this way whose block-sized window (or, once the stream has ended, whose remaining tail) equals a reference block is reported at its correct offset, once for each reference block with that content. Data already present locally is therefore not downloaded again, whatever surrounds it.",
 ["inputs"],"all local byte streams, all reference contents, all block sizes; any way the reader chunks the stream",
 "Tests check a few fixed insert/prepend/append cases; missing a later block after a match at an unaligned position is only an efficiency loss that end-to-end tests do not notice.",
 ["comparer/comparer.go","circularbuffer/noalloc.go","rollsum/rollsum_32_base.go","index/index.go"],
 [("rolling scan","comparer/comparer.go startFindMatchingBlocks_int"),("eviction bookkeeping","circularbuffer/noalloc.go C2.Evicted")],
 ["results on the channel returned by StartFindMatchingBlocks"])
p("C05","Merged spans describe exactly the blocks that were found",
 "For any set of block matches delivered in any order over any number of concurrent streams, the merged spans are sorted, do not overlap and cover exactly the block numbers that were reported. Every block inside a span lies, in the local file, at an offset that was reported for that very block.",
 ["inputs","schedules","histories"],"all sequences of (block, offset) results, duplicates included, over several streams and all their interleavings, all block sizes",
 "Tests use hand-picked sequences of at most four results on one or two streams.",
 ["comparer/merger.go"],
 [("interval merging in a balanced tree under a lock","comparer/merger.go MatchMerger")],
 ["GetMergedBlocks"],[("startEndBlockMap","span starts and ends by block number","comparer/merger.go")])
p("C06","Missing spans are exactly the complement of the found spans",
 "For any sorted list of disjoint found spans within a file of N blocks, the missing spans are sorted and disjoint, contain no found block, and together with the found spans cover every block from the first to the last.",
 ["inputs"],"all sorted disjoint span lists (adjacent spans included) and all block counts N >= 1",
 "Tests check five fixed layouts.",
 ["comparer/merger.go"],[("gap computation","comparer/merger.go BlockSpanList.GetMissingBlocks")],["GetMissingBlocks"])
p("C07","Rolling checksum depends only on the current window",
 "After any sequence of adding, removing, rolling, setting or resetting bytes, the rolling checksum equals the checksum computed from scratch over the bytes currently in the window. The same holds for the hash.Hash form however its input is split across writes, and reading a checksum never changes it.",
 ["inputs","histories"],"all byte values, all window contents, all operation sequences up to the bound, all write splits",
 "Tests use constant or pseudo-random bytes for a few lengths; errors that need a particular window length or byte value are not sampled.",
 ["rollsum/rollsum_32_base.go","rollsum/rollsum_32.go"],
 [("incremental a/b sums","rollsum/rollsum_32_base.go Rollsum32Base"),("hash.Hash over a circular buffer","rollsum/rollsum_32.go Rollsum32.Write")],
 ["GetSum / Sum / GetLastBlock"],[("a,b","component sums","rollsum/rollsum_32_base.go")])
p("C08","Circular buffer always returns the last bytes written and evicted",
 "After any sequence of writes (each at most one block long), truncations and resets, the buffer returns exactly the most recent bytes up to its block size, oldest first, and its length matches. After a write, the evicted data are exactly the bytes which that write pushed out, in order; a truncation returns exactly the oldest bytes it removes.",
 ["inputs","histories"],"all sequences of writes, truncations and resets up to the bound, with all byte values, for several block sizes",
 "Tests replay about ten short fixed sequences; wrap-around of a multi-byte write needs particular combinations of lengths.",
 ["circularbuffer/noalloc.go"],[("two offset double-size buffers","circularbuffer/noalloc.go C2")],
 ["GetBlock, Evicted, Truncate, Len, Empty"],[("head","next write position of each internal buffer","circularbuffer/noalloc.go"),("totalWritten","bytes held or ever written","circularbuffer/noalloc.go")])
p("C09","Index lookup returns exactly the blocks with those checksums",
 "For any list of block checksums, looking up a weak and then a strong checksum in the index built from it returns every block whose weak and strong checksums both equal the ones asked for, and no other block. A weak checksum that no block has yields nothing.",
 ["inputs"],"all lists of (weak, strong) pairs including weak collisions and duplicated blocks, all queries",
 "Tests build indexes of three or four fixed entries.",
 ["index/index.go"],[("bucketed map plus sorted list search","index/index.go ChecksumIndex, StrongChecksumList.FindStrongChecksum")],
 ["FindWeakChecksum2, FindStrongChecksum2, FindWeakChecksumInIndex"])
p("C10","Generated checksums describe the input block by block",
 "For every input and block size, checksum generation yields one entry per block in order, numbered from zero, whose weak and strong checksums are those of exactly that block (the last one possibly shorter), followed by the checksum of the whole input. The result does not depend on how the reader chunks the data, on how results are batched, or on earlier use of the generator.",
 ["inputs","histories","schedules"],"all inputs up to the bound, all block sizes, all reader chunkings, all batch sizes, and reuse of one generator for several inputs",
 "Tests count entries and compare a few fixed inputs; reader chunking, batching boundaries and generator reuse are sampled once or not at all.",
 ["filechecksum/filechecksum.go"],[("block loop","filechecksum/filechecksum.go FileChecksumGenerator.generate")],
 ["GenerateChecksums output, StartChecksumGeneration results"])
p("C11","Index generation reports I/O failures instead of truncating",
 "If reading the input or writing the index fails at any point while checksums are generated, generation reports an error. It never returns a whole-file checksum or a normal end for data that was not completely read and written.",
 ["fault_sequences","inputs"],"a read error at every input position, and a write error at every output position, for all inputs and block sizes",
 "No test makes the reader or the writer fail.",
 ["filechecksum/filechecksum.go"],[("error result","filechecksum/filechecksum.go generate, GenerateChecksums")],
 ["error returned by GenerateChecksums, Err in ChecksumResults"])
p("C12","Checksum files are read back exactly or rejected",
 "Reading a stream of alternating weak and strong checksums returns every pair in order with consecutive block numbers, however the reader chunks the stream. A stream that ends inside a pair, or fails to read, is rejected with an error instead of being shortened or padded.",
 ["inputs","fault_sequences"],"all byte streams up to the bound, all checksum sizes, all chunkings, a read error at every position",
 "Tests try two truncated lengths with fixed content.",
 ["chunks/chunks.go"],[("pairwise full reads","chunks/chunks.go LoadChecksumsFromReader")],["LoadChecksumsFromReader"])
p("C13","Index file header survives a round trip and bad headers are rejected",
 "The header written for any file size and block size is read back with exactly those values and the current version. A file with a different magic string, a different major version or a header that ends early is rejected with an error.",
 ["inputs","fault_sequences"],"all file sizes and block sizes of their full width, all header bytes, all truncation points",
 "The command has no tests at all.",
 ["cmd/gosync/common.go"],[("header encoding and checking","cmd/gosync/common.go writeHeaders, readHeadersAndCheck")],["values and error returned when reading headers"])
p("C14","Block verification accepts exactly the data that matches",
 "Verifying received data against the expected block checksums succeeds if and only if every block in it, the final one possibly shorter, has its expected checksum, starting from the given block. The verdict depends only on the data and the block number, not on earlier verifications.",
 ["inputs","histories"],"all data of up to several blocks, all start blocks, all sequences of earlier good and bad verifications",
 "Tests verify one good and one bad range, each with a fresh verifier.",
 ["filechecksum/verifier.go"],[("per-block hash comparison","filechecksum/verifier.go HashVerifier.VerifyBlockRange")],["VerifyBlockRange"])
p("C15","A block source delivers each requested range once, intact, lowest first",
 "When all requests succeed, every requested range of blocks is delivered exactly once with exactly the bytes fetched for it, whatever order the fetches finish in and whenever the consumer receives. Of the ranges being fetched or awaiting delivery at the moment a delivery is prepared, the lowest goes first, so requests issued together arrive in block order.",
 ["schedules","histories"],"all orders of requests, fetch completions and receives, for several concurrency limits",
 "One test completes two requests in reverse order; other interleavings of requests, completions and receives are left to chance.",
 ["blocksources/blocksourcebase.go","blocksources/helpers.go"],[("event loop with ordered pending responses","blocksources/blocksourcebase.go loop")],
 ["GetResultChannel"],[("requestOrdering","outstanding requests sorted by start block","blocksources/blocksourcebase.go"),("responseOrdering","completed, undelivered responses","blocksources/blocksourcebase.go")])
p("C16","Failed or unverified block data surfaces as an error, never as data",
 "If fetching a range fails, or the fetched data does not pass verification, that data is never delivered as a response and an error becomes available to the consumer. Any number of simultaneous failures is handled this way without crashing the process.",
 ["fault_sequences","schedules"],"every assignment of success, failure and corruption to several concurrent requests, all completion and receive orders",
 "Tests fail a single request with a single requester; two requests failing close together is never tried.",
 ["blocksources/blocksourcebase.go","blocksources/helpers.go"],[("error state of the event loop","blocksources/blocksourcebase.go loop"),("error holder","blocksources/helpers.go errorWatcher")],
 ["EncounteredError, GetResultChannel, absence of panics"])
p("C17","Closing or using a finished block source never hangs or crashes",
 "Closing a block source always returns, at any moment, also when it has already failed or been closed, and afterwards its channels are closed and its background work ends once running fetches finish. Requesting blocks from a source that has shut down returns an error instead of crashing or blocking.",
 ["schedules","histories"],"Close and RequestBlocks at every point relative to request, completion, failure, delivery and earlier Close calls",
 "One test closes an idle source once.",
 ["blocksources/blocksourcebase.go"],[("exit channel and recovery","blocksources/blocksourcebase.go Close, RequestBlocks, loop")],["Close, RequestBlocks, closed channels"])
p("C18","Block ranges map to file offsets exactly and splitting loses nothing",
 "Block offsets tile the file: each block starts where the previous one ends, no offset exceeds a known file size, and the last block ends exactly at the end of the file. Splitting a range of blocks into requests yields consecutive sub-ranges that cover exactly that range in order, each no larger than the desired request size or one block, whichever is larger.",
 ["inputs","configurations"],"all block ids, block sizes, file sizes and desired request sizes within stated widths",
 "Tests check five fixed configurations.",
 ["blocksources/fixed_size_block_resolver.go"],[("offset arithmetic and split loop","blocksources/fixed_size_block_resolver.go FixedSizeBlockResolver")],
 ["GetBlockStartOffset, GetBlockEndOffset, SplitBlockRangeToDesiredSize"])
p("C19","An HTTP range fetch returns exactly the requested bytes or an error",
 "A fetch over HTTP asks for exactly the requested byte range, uncompressed. It succeeds only for a partial-content reply that is not gzip-encoded and whose fully read body has exactly the requested length, and returns that body unchanged; every other reply or failure is an error.",
 ["inputs","fault_sequences"],"all ranges, all status codes, body lengths and contents, encodings, transport and body read errors at every position",
 "Tests exercise one successful range, one 404 and one checksum failure against a live local server.",
 ["blocksources/httpblocksource.go"],[("response checks","blocksources/httpblocksource.go HttpRequester.DoRequest")],["DoRequest via a custom HTTP transport"])
p("C20","Fetching from a seekable reference returns exactly the range asked for",
 "Fetching a byte range from a seekable reference returns the bytes of that range, cut only at the end of the reference, whatever the reader's previous position and however it chunks its reads. Seek and read failures are returned as errors.",
 ["inputs","fault_sequences","histories"],"all contents and ranges up to the bound, all chunkings, sequences of fetches, failures at every read or seek",
 "One test reads the first block of a fixed string.",
 ["blocksources/readseeker_blocksource.go"],[("seek then full read","blocksources/readseeker_blocksource.go ReadSeekerRequester.DoRequest")],["blocks delivered by NewReadSeekerBlockSource"])
p("C21","The sequential patcher writes each block once, in order, from its source",
 "Given found and missing spans that together cover all blocks, the patcher writes for every block, in ascending order, the local bytes at its match offset or the bytes the source delivered for it, and requests exactly the missing spans. If the spans leave a gap, or the source delivers the wrong block or the wrong number of blocks, it returns an error.",
 ["inputs","fault_sequences"],"all layouts of found and missing spans up to the bound, all local contents and offsets, all source replies",
 "Tests cover one span of each kind in four fixed layouts.",
 ["patcher/sequential/sequential.go"],[("copy loop","patcher/sequential/sequential.go SequentialPatcher")],["bytes written to the output, spans requested, error"])
p("C22","Patching files on disk leaves exactly the reference at the destination",
 "After a file-to-file patch and close both succeed, the destination file contains exactly the reference, whether it existed before (of any length), did not exist, or is the local input itself. A failure while finishing the copy to the destination is reported as an error, never as success.",
 ["inputs","fault_sequences","configurations"],"all previous destination contents and lengths, in-place or separate destination, I/O failures at each step of closing and copying",
 "No test patches real files with the path-based interface.",
 ["rsync.go"],[("temporary file and copy on close","rsync.go MakeRSync, fileCopyCloser.Close"),("output opening","rsync.go getOutFile")],["destination file content after Close; error from Close"])
p("C23","A failing local read ends the comparison with an error",
 "If reading the local stream fails at any point with anything other than its normal end, the comparison delivers that failure to the caller and terminates; it neither loops forever nor presents the stream as completely scanned. Matches reported before the failure remain correct, and without a failure no error is reported.",
 ["fault_sequences","inputs"],"a read error at every position of the local stream, all contents",
 "No test makes the local reader fail.",
 ["comparer/comparer.go"],[("error result and loop exit","comparer/comparer.go startFindMatchingBlocks_int")],["results and closing of the channel returned by StartFindMatchingBlocks"])
p("C24","Concurrent sections together scan the whole local file",
 "Splitting the local file into sections for several matchers finds the same blocks as scanning it in one piece when those blocks are unmodified in place: every full reference block present at its own offset in the local file is matched, also across section boundaries. This holds for patching and for the diff command.",
 ["inputs","configurations","schedules"],"all file sizes, block sizes and matcher counts within bounds, all positions of a block relative to section boundaries",
 "The tests that run several matchers only check the final output, which does not show a block that was downloaded although it was present.",
 ["rsync.go","cmd/gosync/common.go"],[("section size and overlap","rsync.go Patch; cmd/gosync/common.go multithreadedMatching")],["blocks requested from the block source during Patch; merged blocks in diff"])
p("C25","Generated test readers produce exactly their stated byte sequences",
 "Each composable reader yields exactly the byte sequence it describes - uniform content of the given length, the non-repeating sequence from its seed, one stream injected into another at an offset, several streams limited to a size - independently of the sizes of the reads, and then ends.",
 ["inputs"],"all lengths, offsets, values and sequences of read sizes up to the bound",
 "Tests read each stream with one or two buffer sizes.",
 ["util/readers/uniformreader.go","util/readers/nonrepeating.go","util/readers/injectedreader.go","util/readers/sequencelimit.go"],[("Read methods","util/readers")],["bytes and errors from Read"])
p("C26","The patch command refuses index files that are damaged",
 "When the index file given to the patch command has a damaged or truncated header, an incomplete checksum list, or fewer checksums than its file size requires, the command fails. It does not overwrite the destination and report success.",
 ["inputs","fault_sequences"],"all truncation points of an index file and all values of its magic and version fields",
 "The command has no tests.",
 ["cmd/gosync/patch.go","cmd/gosync/common.go"],[("header and index error handling","cmd/gosync/patch.go Patch")],["exit status of the patch command and the destination file"])
p("C27","A block source never exceeds its concurrent request limit",
 "At no time are more fetches running than the configured number of concurrent requests, whatever the order of requests, completions, failures and receives; and requests waiting for a free slot are started once one becomes free.",
 ["schedules","histories"],"all orders of requests, completions, failures and receives, for several limits",
 "One test counts concurrent requests for one limit and one completion order, with a racy counter.",
 ["blocksources/blocksourcebase.go"],[("in-flight counter","blocksources/blocksourcebase.go loop")],["number of requester calls running at once"])
for x in P: print(json.dumps(x))
