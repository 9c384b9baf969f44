# Demonstrations of the planted bugs: id -> (package, Go code, needs, what breaks)
D = {}
def demo(id, pkg, needs, what, code):
    assert id not in D
    D[id] = (pkg, code.strip('\n') + '\n', needs, what)

# helper code that may be prepended with {{name}}
H = {}
H['patch'] = '''
// patched recreates ref from loc with a matching degree.
func patched(t *testing.T, ref, loc string, bs uint, matchers int) string {
	DefaultConcurrency = matchers
	g := filechecksum.NewFileChecksumGenerator(bs)
	_, idx, lookup, err := indexbuilder.BuildIndexFromString(g, ref)
	if err != nil {
		t.Fatal(err)
	}
	fs := &BasicSummary{ChecksumIndex: idx, ChecksumLookup: lookup, BlockSize: bs,
		BlockCount: uint((len(ref) + int(bs) - 1) / int(bs)), FileSize: int64(len(ref))}
	src := blocksources.NewReadSeekerBlockSource(strings.NewReader(ref), blocksources.MakeFileSizedBlockResolver(uint64(bs), int64(len(ref))))
	defer src.Close()
	var out bytes.Buffer
	r := &RSync{Input: strings.NewReader(loc), Source: src, Output: &out, Summary: fs}
	if err := r.Patch(); err != nil {
		t.Fatal("patching failed: ", err)
	}
	lastFetched = src.ReadBytes()
	return out.String()
}

var lastFetched int64
'''
H['matches'] = '''
// matches scans a stream and returns what was found.
func matches(t *testing.T, ref string, loc io.Reader, base int64, bs uint) (l []comparer.BlockMatchResult) {
	_, idx, _, err := indexbuilder.BuildIndexFromString(filechecksum.NewFileChecksumGenerator(bs), ref)
	if err != nil {
		t.Fatal(err)
	}
	for r := range (&comparer.Comparer{}).StartFindMatchingBlocks(loc, base, filechecksum.NewFileChecksumGenerator(bs), idx) {
		l = append(l, r)
	}
	return
}
'''
H['tool'] = '''
// tool runs the command line tool in a process of its own and returns its exit code.
func tool(t *testing.T, dir string, args ...string) int {
	ctx, cancel := context.WithTimeout(context.Background(), time.Minute)
	defer cancel()
	c := exec.CommandContext(ctx, os.Args[0], append([]string{"-test.run=TestDemo"}, args...)...)
	c.Dir = dir
	c.Env = append(os.Environ(), "DEMO_TOOL=1")
	out, err := c.CombinedOutput()
	t.Logf("%v: %v\\n%s", args, err, out)
	if err == nil {
		return 0
	}
	if e, ok := err.(*exec.ExitError); ok {
		return e.ExitCode()
	}
	t.Fatal(err)
	return -1
}

func init() {
	if os.Getenv("DEMO_TOOL") != "" {
		// the other commands are added by the init functions of this package
		os.Args = append([]string{"gosync"}, os.Args[2:]...)
	}
}

// asTool is called first by TestDemo.
func asTool() {
	if os.Getenv("DEMO_TOOL") != "" {
		main()
		os.Exit(0)
	}
}

func put(t *testing.T, name string, data []byte) {
	if err := os.WriteFile(name, data, 0644); err != nil {
		t.Fatal(err)
	}
}
'''
H['source'] = '''
// gated is a requester whose fetches finish when they are told to.
type gated struct {
	mu      sync.Mutex
	running int
	most    int
	started chan int64
	gates   map[int64]chan func() ([]byte, error)
}

func newGated() *gated {
	return &gated{started: make(chan int64, 100), gates: map[int64]chan func() ([]byte, error){}}
}

func (g *gated) gate(k int64) chan func() ([]byte, error) {
	g.mu.Lock()
	defer g.mu.Unlock()
	if g.gates[k] == nil {
		g.gates[k] = make(chan func() ([]byte, error), 1)
	}
	return g.gates[k]
}

func (g *gated) DoRequest(a, b int64) ([]byte, error) {
	g.mu.Lock()
	g.running++
	if g.running > g.most {
		g.most = g.running
	}
	g.mu.Unlock()
	g.started <- a
	f := <-g.gate(a)
	g.mu.Lock()
	g.running--
	g.mu.Unlock()
	return f()
}

func (g *gated) IsFatal(error) bool { return true }

func (g *gated) finish(k int64, data string, err error) {
	g.gate(k) <- func() ([]byte, error) { return []byte(data), err }
	time.Sleep(50 * time.Millisecond)
}

type verifier func(start uint, data []byte) bool

func (v verifier) VerifyBlockRange(start uint, data []byte) bool { return v(start, data) }

func request(t *testing.T, s *blocksources.BlockSourceBase, a, b uint) {
	if err := s.RequestBlocks(patcher.MissingBlockSpan{StartBlock: a, EndBlock: b, BlockSize: 1}); err != nil {
		t.Fatal(err)
	}
	time.Sleep(20 * time.Millisecond)
}

func receive(t *testing.T, s *blocksources.BlockSourceBase) (patcher.BlockReponse, error) {
	select {
	case r := <-s.GetResultChannel():
		return r, nil
	case err := <-s.EncounteredError():
		return patcher.BlockReponse{}, err
	case <-time.After(5 * time.Second):
		t.Fatal("nothing is delivered")
	}
	panic("unreachable")
}
'''
H['local'] = '''
// fixed is a block source with canned replies.
type fixed struct {
	results chan patcher.BlockReponse
	errors  chan error
}

func newFixed(l ...patcher.BlockReponse) *fixed {
	f := &fixed{make(chan patcher.BlockReponse, 10), make(chan error, 1)}
	for _, r := range l {
		f.results <- r
	}
	return f
}
func (f *fixed) RequestBlocks(patcher.MissingBlockSpan) error          { return nil }
func (f *fixed) GetResultChannel() <-chan patcher.BlockReponse         { return f.results }
func (f *fixed) EncounteredError() <-chan error                        { return f.errors }
'''
H['http'] = '''
func fetch(t *testing.T, url string, lo, hi uint) ([]byte, error) {
	s := blocksources.NewHttpBlockSource(url, 1, blocksources.MakeNullFixedSizeResolver(1), nil)
	defer s.Close()
	if err := s.RequestBlocks(patcher.MissingBlockSpan{StartBlock: lo, EndBlock: hi, BlockSize: 1}); err != nil {
		t.Fatal(err)
	}
	select {
	case r := <-s.GetResultChannel():
		return r.Data, nil
	case err := <-s.EncounteredError():
		return nil, err
	}
}
'''

demo('c01-last-found', '.', 'two spans found locally, the last of them at the end of the file, around a missing one',
 'the patcher stops after the missing span: the end of the file is never written', '''
{{patch}}
func TestDemo(t *testing.T) {
	ref := "aaaabbbbccccddddeeee"
	if got := patched(t, ref, "aaaabbbbXXXXddddeeee", 4, 1); got != ref {
		t.Fatalf("got %q", got)
	}
}''')
demo('c01-end-offset', '.', 'a reference whose last block has exactly one byte, which has to be fetched over HTTP',
 'the range asked for reaches beyond the end of the reference and the fetch fails', '''
{{patch}}
func TestDemo(t *testing.T) {
	for _, ref := range []string{"aaaabbbbc", "aaaabbbbcc", "aaaabbbb"} {
		s := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
			http.ServeContent(w, r, "", time.Time{}, strings.NewReader(ref))
		}))
		defer s.Close()
		res := blocksources.MakeFileSizedBlockResolver(4, int64(len(ref)))
		DefaultConcurrency = 1
		_, idx, lookup, _ := indexbuilder.BuildIndexFromString(filechecksum.NewFileChecksumGenerator(4), ref)
		fs := &BasicSummary{ChecksumIndex: idx, ChecksumLookup: lookup, BlockSize: 4, BlockCount: uint(len(ref)+3) / 4, FileSize: int64(len(ref))}
		var out bytes.Buffer
		r := &RSync{Input: strings.NewReader("aaaaXXXX"), Source: blocksources.NewHttpBlockSource(s.URL, 1, res, nil), Output: &out, Summary: fs}
		if err := r.Patch(); err != nil {
			t.Fatalf("%q: %v", ref, err)
		}
		if out.String() != ref {
			t.Fatalf("got %q", out.String())
		}
	}
}''')
demo('c01-few-matchers', '.', 'a reference smaller than one block, or than one block for every matcher',
 'a division by zero crashes the patching of a reference that is shorter than a block', '''
{{patch}}
func TestDemo(t *testing.T) {
	for _, ref := range []string{"abc", "abcd", "abcde", "abcdefghi"} {
		for c := 1; c < 5; c++ {
			if got := patched(t, ref, "abXX", 4, c); got != ref {
				t.Fatalf("got %q", got)
			}
		}
	}
}''')
demo('c02-write-error', 'patcher/sequential', 'an output that fails after taking a part of fetched data',
 'the write error is swallowed and success reported although data are missing', '''
{{local}}
type shortWriter struct{ room int }

func (w *shortWriter) Write(p []byte) (int, error) {
	if len(p) > w.room {
		n := w.room
		w.room = 0
		return n, errors.New("no space left")
	}
	w.room -= len(p)
	return len(p), nil
}

func TestDemo(t *testing.T) {
	for room := 0; room < 4; room++ {
		src := newFixed(patcher.BlockReponse{StartBlock: 0, Data: []byte("abcd")})
		err := SequentialPatcher(strings.NewReader(""), src, []patcher.MissingBlockSpan{{StartBlock: 0, EndBlock: 1, BlockSize: 2}}, nil, 100, &shortWriter{room})
		if err == nil {
			t.Fatalf("success with an output that took only %v bytes", room)
		}
	}
}''')
demo('c02-copy-error', 'patcher/sequential', 'a local file that fails to read within the last block of the file',
 'the patcher reports success although the last block was not copied completely', '''
{{local}}
type breaking struct {
	*strings.Reader
	left int
}

func (b *breaking) Read(p []byte) (int, error) {
	if b.left == 0 {
		return 0, errors.New("bad sector")
	}
	if len(p) > b.left {
		p = p[:b.left]
	}
	n, err := b.Reader.Read(p)
	b.left -= n
	return n, err
}

func TestDemo(t *testing.T) {
	for left := 0; left < 8; left++ {
		var out bytes.Buffer
		err := SequentialPatcher(&breaking{strings.NewReader("abcdefgh"), left}, newFixed(), nil,
			[]patcher.FoundBlockSpan{{StartBlock: 0, EndBlock: 1, BlockSize: 4, MatchOffset: 0}}, 100, &out)
		if err == nil && out.String() != "abcdefgh" {
			t.Fatalf("success with %q", out.String())
		}
	}
}''')
demo('c03-offset-width', 'comparer', 'a section that starts beyond 4 GB',
 'matches are reported at an offset cut to 32 bits, where the local file has other bytes', '''
{{matches}}
func TestDemo(t *testing.T) {
	base := int64(5) << 32
	l := matches(t, "abcdefgh", strings.NewReader("xxefghyy"), base, 4)
	for _, m := range l {
		if m.Err == nil && (m.ComparisonOffset != base+2 || m.BlockIdx != 1) {
			t.Fatalf("block %v is reported at %v", m.BlockIdx, m.ComparisonOffset)
		}
	}
}''')
demo('c04-strong-sum', 'comparer', 'a window with the weak but not the strong checksum of a block, before a real match',
 'the strong checksum is appended to the stale one, so no later block is recognised until one matches', '''
{{matches}}
func TestDemo(t *testing.T) {
	// sum and weighted sum of these two are equal
	ref, other := "\\x01\\x00\\x00\\x01", "\\x00\\x01\\x01\\x00"
	l := matches(t, ref, strings.NewReader(other+ref), 0, 4)
	found := false
	for _, m := range l {
		found = found || m.Err == nil && m.ComparisonOffset == 4
	}
	if !found {
		t.Fatalf("the block was not found: %v", l)
	}
}''')
demo('c04-strong-reset', 'comparer', 'a window with the weak but not the strong checksum of a block, before a real match',
 'the hash still contains the window that did not match, so the block is missed', '''
{{matches}}
func TestDemo(t *testing.T) {
	ref, other := "\\x05\\x00\\x00\\x05", "\\x00\\x05\\x05\\x00"
	l := matches(t, ref+"zzzz", strings.NewReader("zzzz"+other+"q"+ref), 0, 4)
	found := false
	for _, m := range l {
		found = found || m.Err == nil && m.ComparisonOffset == 9
	}
	if !found {
		t.Fatalf("the block was not found: %v", l)
	}
}''')
demo('c05-lock', 'comparer', 'two streams that report neighbouring blocks at the same time',
 'neighbours looked up before the lock is taken again are stale, and spans get lost or overlap', '''
func TestDemo(t *testing.T) {
	runtime.GOMAXPROCS(8)
	for round := 0; round < 3000; round++ {
		m := &comparer.MatchMerger{}
		const n, k = 24, 6
		chans := make([]chan comparer.BlockMatchResult, k)
		for i := range chans {
			chans[i] = make(chan comparer.BlockMatchResult, n)
			for b := i; b < n; b += k {
				chans[i] <- comparer.BlockMatchResult{ComparisonOffset: int64(b * 4), BlockIdx: uint(b)}
			}
			close(chans[i])
		}
		for i := range chans {
			m.StartMergeResultStream(chans[i], 4)
		}
		next := uint(0)
		for _, s := range m.GetMergedBlocks() {
			if s.StartBlock != next || s.ComparisonStartOffset != int64(s.StartBlock)*4 {
				t.Fatalf("round %v: span %v does not continue at block %v", round, s, next)
			}
			next = s.EndBlock + 1
		}
		if next != n {
			t.Fatalf("round %v: the spans end at %v", round, next)
		}
	}
}''')
demo('c06-first-block', 'comparer', 'only block 0 missing before the first found span',
 'block 0 is neither found nor missing', '''
func TestDemo(t *testing.T) {
	l := comparer.BlockSpanList{{StartBlock: 1, EndBlock: 3}}
	m := l.GetMissingBlocks(3)
	if len(m) != 1 || m[0].StartBlock != 0 || m[0].EndBlock != 0 {
		t.Fatalf("%v", m)
	}
}''')
demo('c07-remove', 'rollsum', 'several bytes removed at once from a window of more than 255 bytes',
 'the length is cut to eight bits, so the checksum no longer is the one of the window', '''
func TestDemo(t *testing.T) {
	for _, n := range []int{10, 255, 256, 300} {
		w := make([]byte, n)
		for i := range w {
			w[i] = byte(i*7 + 1)
		}
		a, b := rollsum.NewRollsum32Base(uint(n)), rollsum.NewRollsum32Base(uint(n))
		a.SetBlock(w)
		a.RemoveBytes(w[:2], n)
		b.AddBytes(w[2:])
		x, y := make([]byte, 4), make([]byte, 4)
		a.GetSum(x)
		b.GetSum(y)
		if !bytes.Equal(x, y) {
			t.Fatalf("%v bytes: %x instead of %x", n, x, y)
		}
	}
}''')
demo('c08-empty-write', 'circularbuffer', 'an empty write after one that pushed bytes out',
 'the bytes pushed out by the earlier write are reported as evicted again', '''
func TestDemo(t *testing.T) {
	c := circularbuffer.MakeC2Buffer(3)
	c.Write([]byte("abc"))
	c.Write([]byte("de"))
	c.Write(nil)
	if e := c.Evicted(); len(e) != 0 {
		t.Fatalf("an empty write evicted %q", e)
	}
}''')
demo('c08-reset', 'circularbuffer', 'a reset followed by enough writes to wrap around',
 'both halves wrap at the same time: the block is no longer contiguous in either', '''
func TestDemo(t *testing.T) {
	c := circularbuffer.MakeC2Buffer(3)
	c.Reset()
	all := ""
	for i := 0; i < 10; i++ {
		s := string(rune('a' + i))
		all += s
		func() {
			defer func() {
				if p := recover(); p != nil {
					t.Fatalf("after %q: %v", all, p)
				}
			}()
			c.Write([]byte(s))
			want := all
			if len(want) > 3 {
				want = want[len(want)-3:]
			}
			if got := string(c.GetBlock()); got != want {
				t.Fatalf("%q instead of %q", got, want)
			}
		}()
	}
}''')
demo('c08-truncate-clamp', 'circularbuffer', 'truncating a buffer that is not full by more than it holds',
 'the buffer returns bytes it never held, its length gets negative', '''
func TestDemo(t *testing.T) {
	c := circularbuffer.MakeC2Buffer(4)
	c.Write([]byte("ab"))
	if got := string(c.Truncate(3)); got != "ab" {
		t.Fatalf("%q", got)
	}
	if c.Len() != 0 {
		t.Fatalf("length %v", c.Len())
	}
}''')
demo('c09-sort-pairs', 'index', 'two blocks with equal weak checksums, the greater strong checksum first',
 'the list of two is not sorted, so one of the blocks is not found', '''
func TestDemo(t *testing.T) {
	i := index.MakeChecksumIndex([]chunks.ChunkChecksum{
		{ChunkOffset: 0, WeakChecksum: []byte("wwww"), StrongChecksum: []byte("b")},
		{ChunkOffset: 1, WeakChecksum: []byte("wwww"), StrongChecksum: []byte("a")},
	})
	for k, s := range []string{"b", "a"} {
		l := i.FindStrongChecksum2([]byte(s), i.FindWeakChecksum2([]byte("wwww")))
		if len(l) != 1 || l[0].ChunkOffset != uint(k) {
			t.Fatalf("%v: %v", s, l)
		}
	}
}''')
demo('c09-high-byte', 'index', 'blocks whose weak checksums differ in the highest byte only, with equal strong checksums',
 'blocks with another weak checksum than the one asked for are returned', '''
func TestDemo(t *testing.T) {
	i := index.MakeChecksumIndex([]chunks.ChunkChecksum{
		{ChunkOffset: 0, WeakChecksum: []byte{1, 2, 3, 4}, StrongChecksum: []byte("s")},
		{ChunkOffset: 1, WeakChecksum: []byte{1, 2, 3, 5}, StrongChecksum: []byte("s")},
	})
	l := i.FindStrongChecksum2([]byte("s"), i.FindWeakChecksum2([]byte{1, 2, 3, 4}))
	if len(l) != 1 || l[0].ChunkOffset != 0 {
		t.Fatalf("%v", l)
	}
	if w := i.FindWeakChecksum2([]byte{1, 2, 3, 6}); w != nil {
		t.Fatalf("%v", w)
	}
}''')
demo('c09-one-candidate', 'index', 'a single block with the weak checksum, and a strong checksum that agrees with its in the first half',
 'a block with another strong checksum is returned', '''
func TestDemo(t *testing.T) {
	i := index.MakeChecksumIndex([]chunks.ChunkChecksum{
		{ChunkOffset: 0, WeakChecksum: []byte{1, 2, 3, 4}, StrongChecksum: []byte("abcdefgh")},
	})
	l := i.FindStrongChecksum2([]byte("abcdXXXX"), i.FindWeakChecksum2([]byte{1, 2, 3, 4}))
	if len(l) != 0 {
		t.Fatalf("%v", l)
	}
}''')
demo('c10-batch', 'filechecksum', 'a consumer that keeps a batch of results while the next one is made',
 'the batches share their storage: earlier results are overwritten', '''
func TestDemo(t *testing.T) {
	g := filechecksum.NewFileChecksumGenerator(2)
	var all []chunks.ChunkChecksum
	var batches []filechecksum.ChecksumResults
	for r := range g.StartChecksumGeneration(strings.NewReader("aabbccdd"), 2, nil) {
		batches = append(batches, r)
	}
	for _, r := range batches {
		all = append(all, r.Checksums...)
	}
	for i, c := range all {
		if c.ChunkOffset != uint(i) {
			t.Fatalf("entry %v has number %v", i, c.ChunkOffset)
		}
	}
}''')
demo('c10-dirty', 'filechecksum', 'a generator whose strong hash was used before, as the comparer does',
 'the first block gets the strong checksum of other data', '''
func TestDemo(t *testing.T) {
	g := filechecksum.NewFileChecksumGenerator(2)
	g.GetStrongHash().Write([]byte("x"))
	for r := range g.StartChecksumGeneration(strings.NewReader("ab"), 2, nil) {
		for _, c := range r.Checksums {
			if s := md5.Sum([]byte("ab")); !bytes.Equal(s[:], c.StrongChecksum) {
				t.Fatalf("%x", c.StrongChecksum)
			}
		}
	}
}''')
demo('c11-build', 'cmd/gosync', 'an input file that fails to read after it was opened',
 'the build command reports success for an index without checksums', '''
{{tool}}
func TestDemo(t *testing.T) {
	asTool()
	d := t.TempDir()
	// a directory can be opened, but not read
	if err := os.Mkdir(d+"/in.bin", 0755); err != nil {
		t.Fatal(err)
	}
	if tool(t, d, "build", "in.bin") == 0 {
		t.Fatal("success")
	}
}''')
demo('c11-index', 'indexbuilder', 'an input that fails to read after 64 blocks',
 'an index of the first blocks is returned without an error', '''
func TestDemo(t *testing.T) {
	for _, n := range []int{10, 64, 70, 200} {
		r := io.MultiReader(bytes.NewReader(make([]byte, n)), iotest.ErrReader(errors.New("bad sector")))
		_, _, _, err := indexbuilder.BuildChecksumIndex(filechecksum.NewFileChecksumGenerator(1), r)
		if err == nil {
			t.Fatalf("no error for an input that fails after %v bytes", n)
		}
	}
}''')
demo('c12-weak-partial', 'chunks', 'a reader that fails between two pairs',
 'the failure is taken for the end of the list', '''
func TestDemo(t *testing.T) {
	r := io.MultiReader(strings.NewReader("wwwwssss"), iotest.ErrReader(errors.New("bad sector")))
	l, err := chunks.LoadChecksumsFromReader(r, 4, 4)
	if err == nil {
		t.Fatalf("%v", l)
	}
}''')
demo('c12-strong-read', 'chunks', 'a reader that delivers a strong checksum in two pieces',
 'a complete list is rejected', '''
func TestDemo(t *testing.T) {
	l, err := chunks.LoadChecksumsFromReader(iotest.HalfReader(strings.NewReader("wwwwsssswwwwSSSS")), 4, 4)
	if err != nil || len(l) != 2 {
		t.Fatalf("%v %v", l, err)
	}
}''')
demo('c13-size', 'cmd/gosync', 'a file of 2 GB or more',
 'the size in the header is cut to 32 bits', '''
func TestDemo(t *testing.T) {
	for _, size := range []int64{5, 1 << 31, 1 << 40} {
		name := t.TempDir() + "/h"
		f, err := os.Create(name)
		if err != nil {
			t.Fatal(err)
		}
		if err := writeHeaders(f, magicString, 8192, size, []uint16{majorVersion, minorVersion, patchVersion}); err != nil {
			t.Fatal(err)
		}
		f.Close()
		f, _ = os.Open(name)
		defer f.Close()
		_, _, _, got, bs, err := readHeadersAndCheck(f, magicString, majorVersion)
		if err != nil || got != size || bs != 8192 {
			t.Fatalf("%v %v %v", got, bs, err)
		}
	}
}''')
demo('c13-early-end', 'cmd/gosync', 'a header that ends right before the block size',
 'the header is accepted with a block size of zero', '''
func TestDemo(t *testing.T) {
	h := append([]byte(magicString), make([]byte, 6+8)...)
	h[6], h[8] = byte(majorVersion), byte(minorVersion)
	for n := range h {
		if _, _, _, _, _, err := readHeadersAndCheck(bytes.NewReader(h[:n+1]), magicString, majorVersion); err == nil {
			t.Fatalf("a header of %v bytes is accepted", n+1)
		}
	}
}''')
demo('c13-version', 'cmd/gosync', 'a major version that differs in its high byte only',
 'an index of another major version is accepted', '''
func TestDemo(t *testing.T) {
	h := append([]byte(magicString), make([]byte, 6+8+4)...)
	h[7] = 1
	if _, _, _, _, _, err := readHeadersAndCheck(bytes.NewReader(h), magicString, majorVersion); err == nil {
		t.Fatal("accepted")
	}
}''')
demo('c14-short', 'filechecksum', 'data of several blocks, the last one short and altered',
 'the short last block is not verified', '''
type sums [][]byte

func (s sums) GetStrongChecksumForBlock(k int) []byte { return s[k] }

func TestDemo(t *testing.T) {
	a, b := md5.Sum([]byte("abcd")), md5.Sum([]byte("ef"))
	v := &filechecksum.HashVerifier{BlockSize: 4, Hash: md5.New(), BlockChecksumGetter: sums{a[:], b[:]}}
	if !v.VerifyBlockRange(0, []byte("abcdef")) {
		t.Fatal("good data rejected")
	}
	if v.VerifyBlockRange(0, []byte("abcdXX")) {
		t.Fatal("bad data accepted")
	}
}''')
demo('c14-prefix', 'filechecksum', 'a block for which there is no checksum, or a cut one',
 'data of a block that does not exist are accepted', '''
func TestDemo(t *testing.T) {
	a := md5.Sum([]byte("abcd"))
	v := &filechecksum.HashVerifier{BlockSize: 4, Hash: md5.New(), BlockChecksumGetter: chunks.StrongChecksumGetter{{StrongChecksum: a[:]}}}
	if !v.VerifyBlockRange(0, []byte("abcd")) {
		t.Fatal("good data rejected")
	}
	if v.VerifyBlockRange(0, []byte("abcdabcd")) {
		t.Fatal("data beyond the last block accepted")
	}
}''')
demo('c15-order', 'blocksources', 'two fetches finished out of order while a third one runs',
 'the lower range waits behind a higher one, or is cut off from its order', '''
{{source}}
func TestDemo(t *testing.T) {
	g := newGated()
	s := blocksources.NewBlockSourceBase(g, blocksources.MakeNullFixedSizeResolver(1), nil, 3, 100)
	defer s.Close()
	for i := uint(0); i < 3; i++ {
		request(t, s, i, i)
	}
	g.finish(0, "0", nil)
	g.finish(1, "1", nil)
	for i := uint(0); i < 2; i++ {
		r, err := receive(t, s)
		if err != nil || r.StartBlock != i {
			t.Fatalf("%v %v instead of block %v", r, err, i)
		}
	}
	g.finish(2, "2", nil)
	if r, err := receive(t, s); err != nil || r.StartBlock != 2 {
		t.Fatalf("%v %v", r, err)
	}
}''')
demo('c16-partial', 'blocksources', 'a fetch that fails after it got a part of the data, without a verifier',
 'the partial data are delivered and the error is lost', '''
{{source}}
func TestDemo(t *testing.T) {
	g := newGated()
	s := blocksources.NewBlockSourceBase(g, blocksources.MakeNullFixedSizeResolver(1), nil, 1, 100)
	defer s.Close()
	request(t, s, 0, 3)
	g.finish(0, "ab", errors.New("connection lost"))
	if r, err := receive(t, s); err == nil {
		t.Fatalf("delivered %q", r.Data)
	}
}''')
demo('c16-verify', 'blocksources', 'bad data that arrive while other data wait for their delivery',
 'the bad data are delivered', '''
{{source}}
func TestDemo(t *testing.T) {
	g := newGated()
	v := verifier(func(k uint, d []byte) bool { return string(d) == "good" })
	s := blocksources.NewBlockSourceBase(g, blocksources.MakeNullFixedSizeResolver(1), v, 2, 100)
	defer s.Close()
	request(t, s, 0, 0)
	request(t, s, 1, 1)
	g.finish(0, "good", nil)
	g.finish(1, "bad!", nil)
	for i := 0; i < 2; i++ {
		r, err := receive(t, s)
		if err != nil {
			return
		}
		if string(r.Data) != "good" {
			t.Fatalf("delivered %q", r.Data)
		}
	}
}''')
demo('c17-early', 'blocksources', 'a source closed while a fetch is running',
 'the work in the background ends too early: the fetch crashes the process when it finishes', '''
{{source}}
func TestDemo(t *testing.T) {
	g := newGated()
	s := blocksources.NewBlockSourceBase(g, blocksources.MakeNullFixedSizeResolver(1), nil, 2, 100)
	request(t, s, 0, 0)
	s.Close()
	time.Sleep(50 * time.Millisecond)
	g.finish(0, "x", nil)
	time.Sleep(100 * time.Millisecond)
}''')
demo('c18-narrow', 'blocksources', 'a block that starts beyond 4 GB',
 'the start offset is cut to 32 bits: other data are fetched', '''
func TestDemo(t *testing.T) {
	r := blocksources.MakeFileSizedBlockResolver(8192, 1<<40)
	for _, b := range []uint{0, 10, 1 << 19, 1<<19 + 5, 1 << 26} {
		if o := r.GetBlockStartOffset(b + 1); o != r.GetBlockEndOffset(b) {
			t.Fatalf("block %v ends at %v, the next one starts at %v", b, r.GetBlockEndOffset(b), o)
		}
	}
}''')
demo('c18-rounded', 'blocksources', 'a desired request size that is not a multiple of the block size, but nearly',
 'requests become larger than desired', '''
func TestDemo(t *testing.T) {
	r := &blocksources.FixedSizeBlockResolver{BlockSize: 10, FileSize: 1000, MaxDesiredRequestSize: 27}
	for _, q := range r.SplitBlockRangeToDesiredSize(0, 20) {
		if n := (q.EndBlockID - q.StartBlockID + 1) * 10; n > 27 {
			t.Fatalf("a request of %v bytes", n)
		}
	}
}''')
demo('c19-success', 'blocksources', 'a server that answers with the whole file, or no content, instead of a part of it',
 'a reply that is no partial content is accepted', '''
{{http}}
func TestDemo(t *testing.T) {
	for _, status := range []int{200, 203} {
		s := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
			w.WriteHeader(status)
			w.Write([]byte("abcd"))
		}))
		defer s.Close()
		// the whole file happens to be as long as the range
		if d, err := fetch(t, s.URL, 2, 5); err == nil {
			t.Fatalf("%v: %q", status, d)
		}
	}
}''')
demo('c19-longer', 'blocksources', 'a partial reply with more bytes than were asked for',
 'the longer reply is accepted', '''
{{http}}
func TestDemo(t *testing.T) {
	s := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		w.WriteHeader(206)
		w.Write([]byte("abcdefgh"))
	}))
	defer s.Close()
	if d, err := fetch(t, s.URL, 0, 3); err == nil {
		t.Fatalf("%q", d)
	}
}''')
demo('c19-readerr', 'blocksources', 'a connection that breaks after the last byte that was asked for',
 'a body that was not fully read is accepted', '''
{{http}}
func TestDemo(t *testing.T) {
	s := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		w.Header().Set("Content-Length", "8")
		w.WriteHeader(206)
		w.Write([]byte("abcd"))
	}))
	defer s.Close()
	if d, err := fetch(t, s.URL, 0, 3); err == nil {
		t.Fatalf("%q", d)
	}
}''')
demo('c20-position', 'blocksources', 'a reader that somebody else moves between two requests, the second starting where the first ended',
 'the second request is answered with bytes from the place the reader was moved to', '''
func TestDemo(t *testing.T) {
	f := strings.NewReader("aabbccdd")
	s := blocksources.NewReadSeekerBlockSource(f, blocksources.MakeNullFixedSizeResolver(2))
	defer s.Close()
	for i, want := range []string{"aa", "bb", "cc"} {
		if err := s.RequestBlocks(patcher.MissingBlockSpan{StartBlock: uint(i), EndBlock: uint(i), BlockSize: 2}); err != nil {
			t.Fatal(err)
		}
		select {
		case r := <-s.GetResultChannel():
			if string(r.Data) != want {
				t.Fatalf("block %v is %q", i, r.Data)
			}
		case err := <-s.EncounteredError():
			t.Fatal(err)
		}
		f.Seek(7, 0)
	}
}''')
demo('c21-within', 'patcher/sequential', 'a source that answers a request for several blocks from a later one of them on',
 'the data of another block are written', '''
{{local}}
func TestDemo(t *testing.T) {
	var out bytes.Buffer
	err := SequentialPatcher(strings.NewReader(""), newFixed(patcher.BlockReponse{StartBlock: 1, Data: []byte("bbcc")}),
		[]patcher.MissingBlockSpan{{StartBlock: 0, EndBlock: 1, BlockSize: 2}}, nil, 100, &out)
	if err == nil {
		t.Fatalf("wrote %q", out.String())
	}
}''')
demo('c21-count', 'patcher/sequential', 'a last block of at most half the block size, fetched together with others',
 'the correct reply is refused', '''
{{local}}
func TestDemo(t *testing.T) {
	var out bytes.Buffer
	err := SequentialPatcher(strings.NewReader(""), newFixed(patcher.BlockReponse{StartBlock: 0, Data: []byte("aaaab")}),
		[]patcher.MissingBlockSpan{{StartBlock: 0, EndBlock: 1, BlockSize: 4}}, nil, 100, &out)
	if err != nil || out.String() != "aaaab" {
		t.Fatalf("%v %q", err, out.String())
	}
}''')
H['files'] = '''
func inPlace(t *testing.T, dir, ref, loc string) (*RSync, string) {
	s := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		http.ServeContent(w, r, "", time.Time{}, strings.NewReader(ref))
	}))
	t.Cleanup(s.Close)
	if err := os.Chdir(dir); err != nil {
		t.Fatal(err)
	}
	if err := os.WriteFile("local", []byte(loc), 0644); err != nil {
		t.Fatal(err)
	}
	_, idx, lookup, err := indexbuilder.BuildIndexFromString(filechecksum.NewFileChecksumGenerator(4), ref)
	if err != nil {
		t.Fatal(err)
	}
	r, err := MakeRSync("local", s.URL, "local", &BasicSummary{ChecksumIndex: idx, ChecksumLookup: lookup,
		BlockSize: 4, BlockCount: uint(len(ref)+3) / 4, FileSize: int64(len(ref))})
	if err != nil {
		t.Fatal(err)
	}
	if err := r.Patch(); err != nil {
		t.Fatal(err)
	}
	return r, "local"
}
'''
demo('c22-trunc', '.', 'patching in place with a reference that is shorter than the local file',
 'the end of the old content stays behind the new one', '''
{{files}}
func TestDemo(t *testing.T) {
	r, name := inPlace(t, t.TempDir(), "aaaabb", "aaaabbbbcccc")
	if err := r.Close(); err != nil {
		t.Fatal(err)
	}
	if b, _ := os.ReadFile(name); string(b) != "aaaabb" {
		t.Fatalf("%q", b)
	}
}''')
demo('c22-copy-error', '.', 'a destination that runs out of room while the temporary file is copied to it',
 'the failure is not reported although the destination is cut short', '''
{{files}}
func TestDemo(t *testing.T) {
	ref := strings.Repeat("abcd", 500)
	r, name := inPlace(t, t.TempDir(), ref, "aaaabbbbcccc")
	var old syscall.Rlimit
	syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old)
	syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: 1000, Max: old.Max})
	err := r.Close()
	syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old)
	b, _ := os.ReadFile(name)
	if err == nil && string(b) != ref {
		t.Fatalf("success with %v of %v bytes", len(b), len(ref))
	}
}''')
demo('c23-unexpected', 'comparer', 'a local file that fails with io.ErrUnexpectedEOF',
 'the stream is presented as completely scanned', '''
{{matches}}
func TestDemo(t *testing.T) {
	r := io.MultiReader(strings.NewReader("abcdef"), iotest.ErrReader(io.ErrUnexpectedEOF))
	for _, m := range matches(t, "abcd", r, 0, 4) {
		if m.Err != nil {
			return
		}
	}
	t.Fatal("no error")
}''')
demo('c23-nonblocking', 'comparer', 'a local file that fails while the receiver of the matches is busy',
 'the failure is not delivered', '''
func TestDemo(t *testing.T) {
	_, idx, _, err := indexbuilder.BuildIndexFromString(filechecksum.NewFileChecksumGenerator(4), "abcd")
	if err != nil {
		t.Fatal(err)
	}
	r := io.MultiReader(strings.NewReader("xxxxxxabcd"), iotest.ErrReader(io.ErrNoProgress))
	failed := false
	for m := range (&comparer.Comparer{}).StartFindMatchingBlocks(r, 0, filechecksum.NewFileChecksumGenerator(4), idx) {
		time.Sleep(100 * time.Millisecond)
		failed = failed || m.Err != nil
	}
	if !failed {
		t.Fatal("no error")
	}
}''')
demo('c24-skip', 'cmd/gosync', 'several matchers, and a last section shorter than a block with the short last block in it',
 'the short last block is not found by the diff command', '''
func TestDemo(t *testing.T) {
	ref := "abcdefghijklmnopq"
	name := t.TempDir() + "/local"
	if err := os.WriteFile(name, []byte(ref), 0644); err != nil {
		t.Fatal(err)
	}
	_, idx, _, err := indexbuilder.BuildIndexFromString(filechecksum.NewFileChecksumGenerator(4), ref)
	if err != nil {
		t.Fatal(err)
	}
	for c := int64(1); c < 6; c++ {
		f, err := os.Open(name)
		if err != nil {
			t.Fatal(err)
		}
		defer f.Close()
		m, _ := multithreadedMatching(f, idx, int64(len(ref)), c, 4)
		found := uint(0)
		for _, s := range m.GetMergedBlocks() {
			found += s.EndBlock - s.StartBlock + 1
		}
		if found != 5 {
			t.Fatalf("%v matchers find %v of 5 blocks", c, found)
		}
	}
}''')
demo('c24-matchers', '.', 'a file that is not a multiple of the section size, in at least three sections',
 'nobody scans the end of the file', '''
{{patch}}
func TestDemo(t *testing.T) {
	ref := "abcdefghijklmnopqrstuvwxyz0123456789ABCDEFGHIJKLM"
	for c := 1; c < 9; c++ {
		for n := 8; n < len(ref); n++ {
			if got := patched(t, ref[:n], ref[:n], 2, c); got != ref[:n] {
				t.Fatalf("%q", got)
			}
			if lastFetched != 0 {
				t.Fatalf("%v matchers, %v bytes: %v bytes of an identical file were fetched", c, n, lastFetched)
			}
		}
	}
}''')
demo('c24-shared-hash', '.', 'two matchers that hash at the same time',
 'they share one hash: blocks in place are not recognised', '''
{{patch}}
func TestDemo(t *testing.T) {
	runtime.GOMAXPROCS(8)
	b := make([]byte, 8<<20)
	for i := range b {
		b[i] = byte(i*i + i>>8*7 + i>>16)
	}
	ref := string(b)
	for k := 0; k < 40; k++ {
		if got := patched(t, ref, ref, 65536, 8); got != ref {
			t.Fatal("wrong output")
		}
		if lastFetched != 0 {
			t.Fatalf("%v bytes of an identical file were fetched", lastFetched)
		}
	}
}''')
demo('c25-zero', 'util/readers', 'a read into a buffer that has been used before',
 'the reader leaves the old bytes in the buffer', '''
func TestDemo(t *testing.T) {
	b := []byte("garbage")
	n, _ := readers.ZeroReader(5).Read(b)
	for i := 0; i < n; i++ {
		if b[i] != 0 {
			t.Fatalf("%q", b[:n])
		}
	}
}''')
demo('c25-sequence', 'util/readers', 'reads of a multiple of four bytes',
 'the last byte of a read is repeated by the next one', '''
func TestDemo(t *testing.T) {
	a, _ := io.ReadAll(iotest.OneByteReader(readers.NewSizedNonRepeatingSequence(5, 40)))
	b := make([]byte, 40)
	r := readers.NewNonRepeatingSequence(5)
	for i := 0; i < 40; i += 4 {
		r.Read(b[i : i+4])
	}
	if !bytes.Equal(a, b) {
		t.Fatalf("%x\\n%x", a, b)
	}
}''')
demo('c25-inject', 'util/readers', 'a base stream that goes on after the injected one',
 'bytes of the base stream that were read ahead get lost', '''
func TestDemo(t *testing.T) {
	b, err := io.ReadAll(readers.InjectedReader(2, strings.NewReader("abcdefghijklmnopqrstuvwxyz"), strings.NewReader("--")))
	if err != nil || string(b) != "ab--cdefghijklmnopqrstuvwxyz" {
		t.Fatalf("%q %v", b, err)
	}
}''')
demo('c26-exit', 'cmd/gosync', 'an index that ends within its header',
 'the patch command prints the error but reports success', '''
{{tool}}
func TestDemo(t *testing.T) {
	asTool()
	d := t.TempDir()
	put(t, d+"/ref.bin", []byte("some reference"))
	put(t, d+"/local.bin", []byte("local"))
	if tool(t, d, "build", "-blocksize", "4", "ref.bin") != 0 {
		t.Fatal("build failed")
	}
	idx, err := os.ReadFile(d + "/ref.gosync")
	if err != nil {
		t.Fatal(err)
	}
	for _, n := range []int{0, 3, 6, 7, 10, 15, 20, 23, 24, 30, len(idx) - 1} {
		put(t, d+"/bad.gosync", idx[:n])
		if tool(t, d, "patch", "local.bin", "bad.gosync", "http://localhost:1/x", "out.bin") == 0 {
			t.Fatalf("success with the first %v bytes of the index", n)
		}
	}
}''')
demo('c26-partial', 'cmd/gosync', 'the index of an empty file followed by a part of a checksum',
 'the damaged index is accepted and the destination overwritten', '''
{{tool}}
func TestDemo(t *testing.T) {
	asTool()
	d := t.TempDir()
	put(t, d+"/ref.bin", nil)
	put(t, d+"/local.bin", []byte("local"))
	if tool(t, d, "build", "-blocksize", "4", "ref.bin") != 0 {
		t.Fatal("build failed")
	}
	idx, err := os.ReadFile(d + "/ref.gosync")
	if err != nil {
		t.Fatal(err)
	}
	put(t, d+"/bad.gosync", append(idx, "garbage"...))
	if tool(t, d, "patch", "local.bin", "bad.gosync", "http://localhost:1/x", "out.bin") == 0 {
		t.Fatal("success")
	}
}''')
demo('c27-twice-freed', 'blocksources', 'a delivery while several fetches are running',
 'the slot is freed a second time: more fetches run than are allowed', '''
{{source}}
func TestDemo(t *testing.T) {
	g := newGated()
	s := blocksources.NewBlockSourceBase(g, blocksources.MakeNullFixedSizeResolver(1), nil, 3, 100)
	defer s.Close()
	for i := uint(0); i < 6; i++ {
		request(t, s, i, i)
	}
	g.finish(0, "0", nil)
	if r, err := receive(t, s); err != nil || r.StartBlock != 0 {
		t.Fatal(r, err)
	}
	time.Sleep(50 * time.Millisecond)
	if g.most > 3 {
		t.Fatalf("%v fetches run at once", g.most)
	}
}''')

H['failing'] = '''
// summary describes ref in blocks of four bytes.
func summary(t *testing.T, ref string) FileSummary {
	_, idx, lookup, err := indexbuilder.BuildIndexFromString(filechecksum.NewFileChecksumGenerator(4), ref)
	if err != nil {
		t.Fatal(err)
	}
	return &BasicSummary{ChecksumIndex: idx, ChecksumLookup: lookup, BlockSize: 4, BlockCount: uint(len(ref)+3) / 4, FileSize: int64(len(ref))}
}

// failed patches local to ref in the working directory with a server that fails.
func failed(t *testing.T, ref, out string) {
	s := httptest.NewServer(http.NotFoundHandler())
	defer s.Close()
	r, err := MakeRSync("local", s.URL, out, summary(t, ref))
	if err != nil {
		t.Fatal(err)
	}
	if r.Patch() == nil {
		t.Fatal("patching succeeded without a server")
	}
	r.Close()
}

func scratch(t *testing.T) {
	old, err := os.Getwd()
	if err != nil {
		t.Fatal(err)
	}
	if err := os.Chdir(t.TempDir()); err != nil {
		t.Fatal(err)
	}
	t.Cleanup(func() { os.Chdir(old) })
}
'''
H['counted'] = '''
// counted counts the calls that arrive at an index.
type counted struct {
	comparer.Index
	asked, weak, found int64
}

func (c *counted) FindWeakChecksum2(chk []byte) interface{} {
	r := c.Index.FindWeakChecksum2(chk)
	atomic.AddInt64(&c.asked, 1)
	if r != nil {
		atomic.AddInt64(&c.weak, 1)
	}
	return r
}

func (c *counted) FindStrongChecksum2(chk []byte, weak interface{}) []chunks.ChunkChecksum {
	l := c.Index.FindStrongChecksum2(chk, weak)
	if len(l) > 0 {
		atomic.AddInt64(&c.found, 1)
	}
	return l
}

func index4(t *testing.T, ref string) *counted {
	_, idx, _, err := indexbuilder.BuildIndexFromString(filechecksum.NewFileChecksumGenerator(4), ref)
	if err != nil {
		t.Fatal(err)
	}
	return &counted{Index: idx}
}

func (c *counted) check(t *testing.T, k *comparer.Comparer) {
	if k.Comparisons != c.asked || k.WeakHashHits != c.weak || k.StrongHashHits != c.found {
		t.Fatalf("%v comparisons, %v weak and %v strong hits are reported instead of %v, %v and %v",
			k.Comparisons, k.WeakHashHits, k.StrongHashHits, c.asked, c.weak, c.found)
	}
}
'''
H['report'] = '''
// report builds the index of ref and returns the numbers of the diff command with loc.
func report(t *testing.T, ref, loc string) map[string]int {
	d := t.TempDir()
	put(t, d+"/ref.bin", []byte(ref))
	put(t, d+"/local.bin", []byte(loc))
	if tool(t, d, "build", "-blocksize", "4", "ref.bin") != 0 {
		t.Fatal("build failed")
	}
	c := exec.Command(os.Args[0], "-test.run=TestDemo", "diff", "local.bin", "ref.gosync")
	c.Dir = d
	c.Env = append(os.Environ(), "DEMO_TOOL=1")
	out, err := c.Output()
	if err != nil {
		t.Fatalf("diff failed: %v", err)
	}
	m := map[string]int{}
	for _, l := range strings.Split(string(out), "\\n") {
		if i := strings.Index(l, ":"); i > 0 {
			if n, err := strconv.Atoi(strings.TrimSpace(l[i+1:])); err == nil {
				m[l[:i]] = n
			}
		}
	}
	return m
}
'''
demo('c28-same-name', '.', 'patching a file in place by another of its names (a hard or symbolic link), with a source that fails',
 'the file counts as another one and is emptied before the patch is complete', '''
{{failing}}
func TestDemo(t *testing.T) {
	scratch(t)
	os.WriteFile("local", []byte("aaaabbbb"), 0644)
	if err := os.Link("local", "name"); err != nil {
		t.Fatal(err)
	}
	failed(t, "aaaaccccbbbb", "name")
	if b, _ := os.ReadFile("local"); string(b) != "aaaabbbb" {
		t.Fatalf("%q is left", b)
	}
}''')
demo('c28-trunc-early', '.', 'patching in place to a shorter reference, with a source that fails',
 'the local file has been cut although the patch failed', '''
{{failing}}
func TestDemo(t *testing.T) {
	scratch(t)
	os.WriteFile("local", []byte("aaaabbbbdddddddd"), 0644)
	failed(t, "aaaaccccbbbb", "local")
	if b, _ := os.ReadFile("local"); string(b) != "aaaabbbbdddddddd" {
		t.Fatalf("%q is left", b)
	}
}''')
for id, needs, what, code in [
 ('c29-keep-tail', 'an index file that exists and is longer than the new one', 'the end of the old index stays behind the new one', '''
	put(t, d+"/ref.gosync", bytes.Repeat([]byte("x"), 1000))
	indexed(t, d, "ref.bin", "ref.gosync", "abcdefg")'''),
 ('c29-versions', 'a look at the minor and patch version of an index', 'the version is written as 0.1.2', '''
	indexed(t, d, "ref.bin", "ref.gosync", "abcdefg")'''),
 ('c29-endian', 'an index read or written by another build of the tool', 'the block size is written (and read) in the wrong byte order', '''
	indexed(t, d, "ref.bin", "ref.gosync", "abcdefg")'''),
 ('c29-repeated', 'a name that contains its extension twice', 'the index is written to another place', '''
	indexed(t, d, "ref.gz.b.gz", "ref.gz.b.gosync", "abcdefg")'''),
 ('c29-extension', 'a path with a dot in a directory or several dots in its name', 'the index is written to another place', '''
	if err := os.Mkdir(d+"/dir.d", 0755); err != nil {
		t.Fatal(err)
	}
	indexed(t, d, "dir.d/ref", "dir.d/ref.gosync", "abcdefg")
	indexed(t, d, "ref.tar.gz", "ref.tar.gosync", "abcdefg")''')]:
    demo(id, 'cmd/gosync', needs, what, '''
{{tool}}
func indexed(t *testing.T, d, in, out, content string) {
	put(t, d+"/"+in, []byte(content))
	if tool(t, d, "build", "-blocksize", "4", in) != 0 {
		t.Fatal("build failed")
	}
	want := []byte("G0S9NC\\x00\\x00\\x02\\x00\\x01\\x00")
	want = append(want, byte(len(content)), 0, 0, 0, 0, 0, 0, 0, 4, 0, 0, 0)
	got, err := os.ReadFile(d + "/" + out)
	if err != nil {
		t.Fatal(err)
	}
	if !bytes.HasPrefix(got, want) || len(got) != len(want)+20*((len(content)+3)/4) {
		t.Fatalf("%q", got)
	}
}

func TestDemo(t *testing.T) {
	asTool()
	d := t.TempDir()''' + code + '''
}''')
demo('c30-input', '.', 'patching in place', 'the local file stays open', '''
{{files}}
func TestDemo(t *testing.T) {
	r, name := inPlace(t, t.TempDir(), "aaaabbbbcc", "aaaabbbb")
	if err := r.Close(); err != nil {
		t.Fatal(err)
	}
	wd, _ := os.Getwd()
	l, _ := filepath.Glob("/proc/self/fd/*")
	for _, f := range l {
		if n, _ := os.Readlink(f); n == wd+"/"+name {
			t.Fatal(name, " is still open")
		}
	}
}''')
demo('c30-body', 'blocksources', 'a server that replies with an error', 'the reply is never closed: its connection and the work on it stay', '''
type tracked struct {
	io.ReadCloser
	open *int64
}

func (b *tracked) Close() error {
	atomic.AddInt64(b.open, -1)
	return b.ReadCloser.Close()
}

type tracker struct{ open int64 }

func (tr *tracker) RoundTrip(r *http.Request) (*http.Response, error) {
	atomic.AddInt64(&tr.open, 1)
	return &http.Response{StatusCode: 503, Status: "503", Header: http.Header{}, Request: r,
		Body: &tracked{io.NopCloser(strings.NewReader("busy")), &tr.open}}, nil
}

func TestDemo(t *testing.T) {
	tr := &tracker{}
	old := http.DefaultTransport
	http.DefaultTransport = tr
	defer func() { http.DefaultTransport = old }()
	s := blocksources.NewHttpBlockSource("http://example.org/x", 1, blocksources.MakeNullFixedSizeResolver(4), nil)
	if err := s.RequestBlocks(patcher.MissingBlockSpan{BlockSize: 4}); err != nil {
		t.Fatal(err)
	}
	if err := <-s.EncounteredError(); err == nil {
		t.Fatal("no error")
	}
	s.Close()
	time.Sleep(50 * time.Millisecond)
	if n := atomic.LoadInt64(&tr.open); n != 0 {
		t.Fatalf("%v replies are not closed", n)
	}
}''')
demo('c31-late', 'blocksources', 'a fetch that finishes after the source was closed', 'its bytes are not counted', '''
{{source}}
func TestDemo(t *testing.T) {
	g := newGated()
	s := blocksources.NewBlockSourceBase(g, blocksources.MakeNullFixedSizeResolver(1), nil, 2, 100)
	request(t, s, 0, 0)
	s.Close()
	time.Sleep(50 * time.Millisecond)
	g.finish(0, "xyz", nil)
	if n := s.ReadBytes(); n != 3 {
		t.Fatalf("%v bytes", n)
	}
}''')
demo('c31-rejected', 'blocksources', 'data that do not pass verification', 'they were fetched but are not counted', '''
{{source}}
func TestDemo(t *testing.T) {
	g := newGated()
	s := blocksources.NewBlockSourceBase(g, blocksources.MakeNullFixedSizeResolver(1), verifier(func(uint, []byte) bool { return false }), 2, 100)
	defer s.Close()
	request(t, s, 0, 0)
	g.finish(0, "xyz", nil)
	if n := s.ReadBytes(); n != 3 {
		t.Fatalf("%v bytes", n)
	}
}''')
demo('c32-duplicates', 'comparer', 'a window that equals several blocks of the reference', 'it counts as several hits', '''
{{counted}}
func TestDemo(t *testing.T) {
	c, k := index4(t, "abcdabcdefgh"), &comparer.Comparer{}
	for range k.StartFindMatchingBlocks(strings.NewReader("xabcdefghx"), 0, filechecksum.NewFileChecksumGenerator(4), c) {
	}
	c.check(t, k)
}''')
demo('c32-last', 'comparer', 'a short last block that is found at the end of the stream', 'the last window is not counted', '''
{{counted}}
func TestDemo(t *testing.T) {
	for _, loc := range []string{"abcdef", "xxxabcdef", "abcd", "", "ef", "x"} {
		c, k := index4(t, "abcdef"), &comparer.Comparer{}
		for range k.StartFindMatchingBlocks(strings.NewReader(loc), 0, filechecksum.NewFileChecksumGenerator(4), c) {
		}
		c.check(t, k)
	}
}''')
demo('c32-race', 'comparer', 'several streams with weak matches that are compared at the same time with one comparer', 'hits are lost', '''
{{counted}}
func TestDemo(t *testing.T) {
	runtime.GOMAXPROCS(8)
	// equal sums, but other bytes
	ref, other := "\\x05\\x00\\x00\\x05", "\\x00\\x05\\x05\\x00"
	for round := 0; round < 20; round++ {
		c, k := index4(t, ref), &comparer.Comparer{}
		var wg sync.WaitGroup
		for i := 0; i < 8; i++ {
			s := k.StartFindMatchingBlocks(strings.NewReader(strings.Repeat(other, 20000)), 0, filechecksum.NewFileChecksumGenerator(4), c)
			wg.Add(1)
			go func() {
				defer wg.Done()
				for range s {
				}
			}()
		}
		wg.Wait()
		c.check(t, k)
	}
}''')
demo('c33-percent', 'cmd/gosync', 'an empty reference', 'the diff command crashes', '''
{{tool}}
{{report}}
func TestDemo(t *testing.T) {
	asTool()
	for _, ref := range []string{"abcdef", ""} {
		m := report(t, ref, "abcdxxxx")
		if m["Index blocks"] != (len(ref)+3)/4 {
			t.Fatal(m)
		}
	}
}''')
demo('c33-underflow', 'cmd/gosync', 'a short last block that is found, while another one is missing', 'the missing bytes are those of the file less whole blocks, and do not add up', '''
{{tool}}
{{report}}
func TestDemo(t *testing.T) {
	asTool()
	m := report(t, "abcdefghij", "abcdxxxxij")
	if m["Total matched blocks"]+m["Approximate missing bytes"]/4 != 3 {
		t.Fatal(m)
	}
}''')
demo('c05-offset', 'comparer', 'two neighbouring blocks that lie apart in the local file', 'they are merged into one span: the second block is taken from a wrong place', '''
func TestDemo(t *testing.T) {
	m := &comparer.MatchMerger{}
	c := make(chan comparer.BlockMatchResult, 2)
	c <- comparer.BlockMatchResult{ComparisonOffset: 0, BlockIdx: 0}
	c <- comparer.BlockMatchResult{ComparisonOffset: 10, BlockIdx: 1}
	close(c)
	m.StartMergeResultStream(c, 4)
	for _, s := range m.GetMergedBlocks() {
		if s.StartBlock != s.EndBlock {
			t.Fatal(s)
		}
	}
}''')
demo('c05-inside', 'comparer', 'a block within a merged span that is found again at a smaller offset', 'the spans overlap', '''
func TestDemo(t *testing.T) {
	m := &comparer.MatchMerger{}
	c := make(chan comparer.BlockMatchResult, 10)
	for i := 0; i < 4; i++ {
		c <- comparer.BlockMatchResult{ComparisonOffset: int64(100 + 4*i), BlockIdx: uint(i)}
	}
	c <- comparer.BlockMatchResult{ComparisonOffset: 20, BlockIdx: 1}
	close(c)
	m.StartMergeResultStream(c, 4)
	next := uint(0)
	for _, s := range m.GetMergedBlocks() {
		if s.StartBlock != next {
			t.Fatal(m.GetMergedBlocks())
		}
		next = s.EndBlock + 1
	}
}''')
demo('c06-narrow', 'comparer', 'a block number of 2^31 or more', 'the blocks behind it are not computed correctly', '''
func TestDemo(t *testing.T) {
	l := comparer.BlockSpanList{{StartBlock: 0, EndBlock: 1 << 31}}
	m := l.GetMissingBlocks(1<<31 + 2)
	if len(m) != 1 || m[0].StartBlock != 1<<31+1 || m[0].EndBlock != 1<<31+2 {
		t.Fatalf("%v", m)
	}
}''')
demo('c27-one-start', 'blocksources', 'a request that is split into several, with more than one slot', 'only one of them is started: slots are idle although requests wait', '''
{{source}}
func TestDemo(t *testing.T) {
	g := newGated()
	s := blocksources.NewBlockSourceBase(g, &blocksources.FixedSizeBlockResolver{BlockSize: 1, MaxDesiredRequestSize: 1}, nil, 3, 100)
	defer s.Close()
	request(t, s, 0, 2)
	for i := 0; i < 3; i++ {
		select {
		case <-g.started:
		case <-time.After(2 * time.Second):
			t.Fatalf("only %v of 3 fetches run", i)
		}
	}
}''')

demo('c34-temp', '.', 'two patches in place at the same time in one process', 'they share a temporary file', '''
{{failing}}
func TestDemo(t *testing.T) {
	scratch(t)
	refs := []string{"aaaabbbbcccc", "ddddeeeeffff"}
	names := []string{"local", "other"}
	var rs []*RSync
	for i, ref := range refs {
		os.WriteFile(names[i], []byte(ref), 0644)
		r, err := MakeRSync(names[i], "http://localhost:1/", names[i], summary(t, ref))
		if err != nil {
			t.Fatal(err)
		}
		rs = append(rs, r)
	}
	for _, r := range rs {
		if err := r.Patch(); err != nil {
			t.Fatal(err)
		}
	}
	for _, r := range rs {
		if err := r.Close(); err != nil {
			t.Fatal(err)
		}
	}
	for i, ref := range refs {
		if b, _ := os.ReadFile(names[i]); string(b) != ref {
			t.Fatalf("%q instead of %q", b, ref)
		}
	}
}''')
demo('c34-verifier', '.', 'two patches whose replies are verified at the same time', 'they share the hash: good data are refused', '''
func TestDemo(t *testing.T) {
	const bs = 100000
	ref := strings.Repeat("abcdefghij", 40*bs/10)
	_, idx, lookup, err := indexbuilder.BuildIndexFromString(filechecksum.NewFileChecksumGenerator(bs), ref)
	if err != nil {
		t.Fatal(err)
	}
	fs := &BasicSummary{ChecksumIndex: idx, ChecksumLookup: lookup, BlockSize: bs, BlockCount: 40, FileSize: int64(len(ref))}
	s := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		http.ServeContent(w, r, "", time.Time{}, strings.NewReader(ref))
	}))
	defer s.Close()
	d := t.TempDir()
	if err := os.WriteFile(d+"/local", nil, 0644); err != nil {
		t.Fatal(err)
	}
	var wg sync.WaitGroup
	for i := 0; i < 20; i++ {
		r, err := MakeRSync(d+"/local", s.URL, fmt.Sprintf("%v/out%v", d, i), fs)
		if err != nil {
			t.Fatal(err)
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer r.Close()
			if err := r.Patch(); err != nil {
				t.Error(err)
			}
		}()
	}
	wg.Wait()
}''')
demo('c35-run', '.', 'a block that follows a window with the same weak checksum and other contents', 'a block the local file has is fetched', '''
{{patch}}
func TestDemo(t *testing.T) {
	// the windows 1 0 2 and 0 2 1 have the same weak checksum
	if got := patched(t, "\\x00\\x02\\x01", "\\x01\\x00\\x02\\x01", 3, 1); got != "\\x00\\x02\\x01" {
		t.Fatalf("got %q", got)
	}
	if lastFetched != 0 {
		t.Fatalf("%v bytes were fetched", lastFetched)
	}
}''')
demo('c35-half', '.', 'a last block that is shorter than half a block', 'it is fetched although the local file has it', '''
{{patch}}
func TestDemo(t *testing.T) {
	for _, ref := range []string{"abcdefgh", "abcdefghi", "abcdefghij", "abcdefghijk"} {
		if got := patched(t, ref, ref, 8, 1); got != ref {
			t.Fatalf("got %q", got)
		}
		if lastFetched != 0 {
			t.Fatalf("%v bytes were fetched", lastFetched)
		}
	}
}''')
demo('c36-missing', 'cmd/gosync', 'gosync diff with an index that is not there', 'it reports success', '''
{{tool}}
func TestDemo(t *testing.T) {
	asTool()
	d := t.TempDir()
	put(t, d+"/local", []byte("abc"))
	if tool(t, d, "diff", "local", "none.gosync") == 0 {
		t.Fatal("diff reports success without an index")
	}
}''')
demo('c36-output-first', '.', 'a local file that cannot be opened, and an output that exists', 'the output is emptied', '''
{{failing}}
func TestDemo(t *testing.T) {
	scratch(t)
	os.WriteFile("out", []byte("precious"), 0644)
	if _, err := MakeRSync("local", "http://localhost:1/", "out", summary(t, "abcd")); err == nil {
		t.Fatal("success without a local file")
	}
	if b, _ := os.ReadFile("out"); string(b) != "precious" {
		t.Fatalf("%q is left", b)
	}
}''')
demo('c33-rounded', 'cmd/gosync', 'a file of 1 MB or more that is compared as a whole', 'the last section is not compared: blocks that are there count as missing', '''
{{tool}}
{{report}}
func TestDemo(t *testing.T) {
	asTool()
	var b []byte
	for i := uint32(0); i <= 1<<18; i++ {
		b = binary.BigEndian.AppendUint32(b, i*2654435761)
	}
	ref := string(b[:1<<20+3])
	if m := report(t, ref, ref); m["Approximate missing bytes"] != 0 {
		t.Fatal(m)
	}
}''')

demo('c17-lost-result', 'blocksources', 'a fetch that finishes after the source was closed', 'the source waits for its result for ever and never closes its channels', '''
{{source}}
func TestDemo(t *testing.T) {
	for i := 0; i < 20; i++ {
		g := newGated()
		s := blocksources.NewBlockSourceBase(g, blocksources.MakeNullFixedSizeResolver(1), nil, 1, 100)
		request(t, s, 0, 0)
		<-g.started
		s.Close()
		g.finish(0, "x", nil)
		select {
		case _, ok := <-s.GetResultChannel():
			if ok {
				t.Fatal("a response after the source was closed")
			}
		case <-time.After(2 * time.Second):
			t.Fatal("a closed source without running fetches does not end")
		}
	}
}''')
demo('c03-cached-sum', 'comparer', 'windows with the same weak checksum and other contents, one looked up right after the other', 'a block is reported where the local file has other bytes, or not at all', '''
{{matches}}
func TestDemo(t *testing.T) {
	// "102" and "021" have the same weak checksum
	for _, m := range matches(t, "\\x00\\x02\\x01", strings.NewReader("\\x01\\x00\\x02\\x01"), 0, 3) {
		if m.Err == nil && m.ComparisonOffset != 1 {
			t.Fatalf("block %v is reported at %v", m.BlockIdx, m.ComparisonOffset)
		}
	}
	// the window after a match has the checksum of the match
	for _, ref := range []string{"\\x00\\x02\\x01", "\\x01\\x00\\x02"} {
		for _, loc := range []string{"\\x00\\x02\\x01\\x01\\x00\\x02", "\\x01\\x00\\x02\\x00\\x02\\x01"} {
			for _, m := range matches(t, ref, strings.NewReader(loc), 0, 3) {
				if m.Err == nil && loc[m.ComparisonOffset:m.ComparisonOffset+3] != ref {
					t.Fatalf("block %v is reported at %v", m.BlockIdx, m.ComparisonOffset)
				}
			}
		}
	}
}''')
demo('c13-magic', 'cmd/gosync', 'a header whose magic string is spelled in other cases', 'the file is accepted as an index', '''
func TestDemo(t *testing.T) {
	h := append([]byte(strings.ToLower(magicString)), make([]byte, 6+8+4)...)
	h[len(magicString)+2] = 2
	binary.LittleEndian.PutUint16(h[len(magicString):], majorVersion)
	if _, _, _, _, _, err := readHeadersAndCheck(bytes.NewReader(h), magicString, majorVersion); err == nil {
		t.Fatal("accepted")
	}
}''')
demo('c14-dirty', 'filechecksum', 'good data that are verified after bad data', 'the good data are rejected', '''
type sums [][]byte

func (s sums) GetStrongChecksumForBlock(k int) []byte { return s[k] }

func TestDemo(t *testing.T) {
	a := md5.Sum([]byte("abcd"))
	v := &filechecksum.HashVerifier{BlockSize: 4, Hash: md5.New(), BlockChecksumGetter: sums{a[:]}}
	if v.VerifyBlockRange(0, []byte("abcX")) {
		t.Fatal("bad data accepted")
	}
	if !v.VerifyBlockRange(0, []byte("abcd")) {
		t.Fatal("good data rejected")
	}
}''')
demo('c16-eof', 'blocksources', 'a fetch that fails with io.EOF', 'it counts as finished, and an empty response is delivered', '''
{{source}}
func TestDemo(t *testing.T) {
	g := newGated()
	s := blocksources.NewBlockSourceBase(g, blocksources.MakeNullFixedSizeResolver(1), verifier(func(uint, []byte) bool { return true }), 1, 100)
	defer s.Close()
	request(t, s, 0, 0)
	g.finish(0, "", io.EOF)
	if r, err := receive(t, s); err == nil {
		t.Fatal(r, " is delivered for a fetch that failed")
	}
}''')
demo('c20-two', 'blocksources', 'two requests one after the other, before the first response is there', 'they move the reader at the same time: a response has the bytes of another place', '''
// slow needs some time to move.
type slow struct {
	*strings.Reader
	mu sync.Mutex
}

func (s *slow) Seek(off int64, whence int) (int64, error) {
	s.mu.Lock()
	n, err := s.Reader.Seek(off, whence)
	s.mu.Unlock()
	time.Sleep(100 * time.Millisecond)
	return n, err
}

func (s *slow) Read(p []byte) (int, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.Reader.Read(p)
}

func TestDemo(t *testing.T) {
	s := blocksources.NewReadSeekerBlockSource(&slow{Reader: strings.NewReader("abcd")}, blocksources.MakeNullFixedSizeResolver(1))
	defer s.Close()
	for _, k := range []uint{0, 2} {
		if err := s.RequestBlocks(patcher.MissingBlockSpan{StartBlock: k, EndBlock: k, BlockSize: 1}); err != nil {
			t.Fatal(err)
		}
	}
	for range []int{0, 2} {
		select {
		case r := <-s.GetResultChannel():
			if string(r.Data) != "abcd"[r.StartBlock:r.StartBlock+1] {
				t.Fatalf("block %v is %q", r.StartBlock, r.Data)
			}
		case err := <-s.EncounteredError():
			t.Fatal(err)
		}
	}
}''')
H['index'] = '''
// built makes the index of data as a file.
func built(t *testing.T, dir, name string, data []byte) []byte {
	put(t, dir+"/built.bin", data)
	if tool(t, dir, "build", "-blocksize", "4", "built.bin") != 0 {
		t.Fatal("build failed")
	}
	b, err := os.ReadFile(dir + "/built.gosync")
	if err != nil {
		t.Fatal(err)
	}
	if name != "" {
		put(t, dir+"/"+name, b)
	}
	os.Remove(dir + "/built.gosync")
	os.Remove(dir + "/built.bin")
	return b
}
'''
demo('c37-name', 'cmd/gosync', 'an index whose file name contains characters that are special in URLs', 'patching fails, or uses another index', '''
{{tool}}
{{index}}
func TestDemo(t *testing.T) {
	asTool()
	d := t.TempDir()
	ref := []byte("abcdefghij")
	built(t, d, "release#2.gosync", ref)
	put(t, d+"/local", []byte("efghabcd"))
	put(t, d+"/ref", ref)
	if tool(t, d, "patch", "local", "release#2.gosync", "ref", "out") != 0 {
		t.Fatal("patching failed")
	}
	if b, _ := os.ReadFile(d + "/out"); !bytes.Equal(b, ref) {
		t.Fatalf("%q", b)
	}
}''')
demo('c37-status', 'cmd/gosync', 'a server that answers the request for the index with 300 and a body', 'the body is taken for the index', '''
{{tool}}
{{index}}
func TestDemo(t *testing.T) {
	asTool()
	d := t.TempDir()
	ref := []byte("abcdefghij")
	idx := built(t, d, "", ref)
	put(t, d+"/local", []byte("efghabcd"))
	put(t, d+"/ref", ref)
	code := 200
	s := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		w.WriteHeader(code)
		w.Write(idx)
	}))
	defer s.Close()
	if tool(t, d, "patch", "local", s.URL+"/x.gosync", "ref", "out") != 0 {
		t.Fatal("patching failed")
	}
	code = 300
	if tool(t, d, "patch", "local", s.URL+"/x.gosync", "ref", "out2") == 0 {
		t.Fatal("patching with an index that was not delivered reports success")
	}
}''')
demo('c36-args', 'cmd/gosync', 'gosync patch with five arguments', 'the fourth is taken for the output', '''
{{tool}}
{{index}}
func TestDemo(t *testing.T) {
	asTool()
	d := t.TempDir()
	ref := []byte("abcdefghij")
	built(t, d, "i.gosync", ref)
	put(t, d+"/local", []byte("efghabcd"))
	put(t, d+"/ref", ref)
	put(t, d+"/out", []byte("precious"))
	if tool(t, d, "patch", "local", "i.gosync", "ref", "out", "more") == 0 {
		t.Fatal("success")
	}
	if b, _ := os.ReadFile(d + "/out"); string(b) != "precious" {
		t.Fatalf("%q", b)
	}
}''')

demo('c07-zero', 'rollsum', 'several bytes removed at once, a zero before others', 'the checksum no longer is the one of the window', '''
func TestDemo(t *testing.T) {
	w := []byte{1, 0, 5, 7, 9}
	a, b := rollsum.NewRollsum32Base(5), rollsum.NewRollsum32Base(5)
	a.SetBlock(w)
	a.RemoveBytes(w[:3], 5)
	b.AddBytes(w[3:])
	x, y := make([]byte, 4), make([]byte, 4)
	a.GetSum(x)
	b.GetSum(y)
	if !bytes.Equal(x, y) {
		t.Fatalf("%x instead of %x", x, y)
	}
}''')
demo('c10-offset', 'filechecksum', 'results in batches of a number of blocks that is not a power of two', 'the blocks are numbered wrongly', '''
func TestDemo(t *testing.T) {
	for _, per := range []uint{1, 2, 3, 5, 8} {
		k := uint(0)
		for r := range filechecksum.NewFileChecksumGenerator(2).StartChecksumGeneration(strings.NewReader("abcdefghijklmnopqrstu"), per, nil) {
			for _, c := range r.Checksums {
				if c.ChunkOffset != k {
					t.Fatalf("block %v has number %v", k, c.ChunkOffset)
				}
				k++
			}
		}
	}
}''')
demo('c38-rename', '.', 'patching in place a file with a second name', 'the temporary file takes the name of the local file: other names keep the old content, permissions and symbolic links are lost', '''
{{files}}
func TestDemo(t *testing.T) {
	r, name := inPlace(t, t.TempDir(), "aaaabbbbcc", "aaaabbbb")
	if err := os.Link(name, "second"); err != nil {
		t.Fatal(err)
	}
	if err := r.Close(); err != nil {
		t.Fatal(err)
	}
	if b, _ := os.ReadFile("second"); string(b) != "aaaabbbbcc" {
		t.Fatalf("%q under the second name", b)
	}
}''')
demo('c38-mode', '.', 'patching in place', 'the local file gets the permissions of a temporary file', '''
{{files}}
func TestDemo(t *testing.T) {
	r, name := inPlace(t, t.TempDir(), "aaaabbbbcc", "aaaabbbb")
	if err := os.Chmod(name, 0755); err != nil {
		t.Fatal(err)
	}
	if err := r.Close(); err != nil {
		t.Fatal(err)
	}
	if fi, _ := os.Stat(name); fi.Mode() != 0755 {
		t.Fatal(fi.Mode())
	}
}''')
demo('c38-fresh', '.', 'an existing output that is a symbolic link or has special permissions', 'it is replaced by a new file', '''
{{failing}}
func TestDemo(t *testing.T) {
	scratch(t)
	os.WriteFile("local", []byte("aaaabbbb"), 0644)
	os.WriteFile("file", []byte("old"), 0600)
	os.Symlink("file", "out")
	failed(t, "aaaaccccbbbb", "out")
	if fi, err := os.Lstat("out"); err != nil || fi.Mode()&os.ModeSymlink == 0 {
		t.Fatal("the link is gone")
	}
	if fi, err := os.Stat("file"); err != nil || fi.Mode() != 0600 {
		t.Fatal("other permissions")
	}
}''')
demo('c07-length', 'rollsum', 'a byte removed from a window of more than 255', 'the checksum differs from the one of the window', '''
func TestDemo(t *testing.T) {
	w := make([]byte, 300)
	for i := range w {
		w[i] = byte(i + 1)
	}
	a, b := make([]byte, 4), make([]byte, 4)
	r := rollsum.NewRollsum32Base(300)
	r.SetBlock(w)
	r.RemoveByte(w[0], 300)
	r.GetSum(a)
	s := rollsum.NewRollsum32Base(300)
	s.SetBlock(w[1:])
	s.GetSum(b)
	if !bytes.Equal(a, b) {
		t.Fatal(a, b)
	}
}''')
demo('c08-narrow', 'circularbuffer', 'a write of 65536 bytes or more', 'the bytes pushed out are wrong from then on', '''
func TestDemo(t *testing.T) {
	c := circularbuffer.MakeC2Buffer(70000)
	all := make([]byte, 210000)
	for i := range all {
		all[i] = byte(i % 251)
	}
	c.Write(all[:70000])
	c.Write(all[70000:140000])
	if !bytes.Equal(c.Evicted(), all[:70000]) {
		t.Fatal("the bytes pushed out are wrong")
	}
	if !bytes.Equal(c.GetBlock(), all[70000:140000]) {
		t.Fatal("the block is wrong")
	}
}''')
demo('c10-narrow', 'filechecksum', 'an input of more than 65536 blocks', 'the blocks are numbered from zero again', '''
func TestDemo(t *testing.T) {
	g := filechecksum.NewFileChecksumGenerator(1)
	k := uint(0)
	for r := range g.StartChecksumGeneration(bytes.NewReader(make([]byte, 66000)), 64, nil) {
		if r.Err != nil {
			t.Fatal(r.Err)
		}
		for _, c := range r.Checksums {
			if c.ChunkOffset != k {
				t.Fatalf("block %v has number %v", k, c.ChunkOffset)
			}
			k++
		}
	}
	if k != 66000 {
		t.Fatal(k)
	}
}''')
demo('c14-narrow', 'filechecksum', 'a block with a number of 2^31 or more', 'another block is verified', '''
type asked int

func (a *asked) GetStrongChecksumForBlock(k int) []byte {
	*a = asked(k)
	s := md5.Sum([]byte("ab"))
	return s[:]
}

func TestDemo(t *testing.T) {
	a := new(asked)
	v := &filechecksum.HashVerifier{BlockSize: 2, Hash: md5.New(), BlockChecksumGetter: a}
	if !v.VerifyBlockRange(1<<32+5, []byte("ab")) || *a != 1<<32+5 {
		t.Fatalf("asked for block %v", *a)
	}
}''')
demo('c18-large', 'blocksources', 'a block size of 2^32 or more', 'the blocks start at wrong offsets', '''
func TestDemo(t *testing.T) {
	r := blocksources.MakeFileSizedBlockResolver(1<<32+3, 1<<40)
	if a, b := r.GetBlockEndOffset(2), r.GetBlockStartOffset(3); a != b {
		t.Fatal(a, b)
	}
}''')
demo('c20-far', 'blocksources', 'a block that lies 4 GiB or more into the file', 'the response is another part of the file', '''
// far is a large file that has its offset everywhere.
type far int64

func (f *far) Seek(off int64, whence int) (int64, error) {
	*f = far(off)
	return off, nil
}

func (f *far) Read(p []byte) (int, error) {
	for i := range p {
		p[i] = byte(*f >> 30)
	}
	*f += far(len(p))
	return len(p), nil
}

func TestDemo(t *testing.T) {
	s := blocksources.NewReadSeekerBlockSource(new(far), blocksources.MakeNullFixedSizeResolver(1<<20))
	defer s.Close()
	if err := s.RequestBlocks(patcher.MissingBlockSpan{StartBlock: 5000, EndBlock: 5000, BlockSize: 1 << 20}); err != nil {
		t.Fatal(err)
	}
	select {
	case r := <-s.GetResultChannel():
		if want := byte(5000 << 20 >> 30); r.Data[0] != want {
			t.Fatal(r.Data[0], want)
		}
	case err := <-s.EncounteredError():
		t.Fatal(err)
	}
}''')
demo('c12-many', 'chunks', 'more than 65536 pairs', 'the blocks are numbered from zero again', '''
func TestDemo(t *testing.T) {
	l, err := chunks.LoadChecksumsFromReader(bytes.NewReader(make([]byte, 132000)), 1, 1)
	if err != nil || len(l) != 66000 {
		t.Fatal(len(l), err)
	}
	for i, c := range l {
		if c.ChunkOffset != uint(i) {
			t.Fatalf("block %v has number %v", i, c.ChunkOffset)
		}
	}
}''')
demo('c09-limit', 'index', 'more than 20 equal blocks', 'a lookup does not return all of them', '''
func TestDemo(t *testing.T) {
	var l []chunks.ChunkChecksum
	for i := uint(0); i < 30; i++ {
		l = append(l, chunks.ChunkChecksum{ChunkOffset: i, WeakChecksum: []byte{1, 2, 3, 4}, StrongChecksum: []byte{5, 6}})
	}
	x := index.MakeChecksumIndex(l)
	if got := x.FindStrongChecksum2([]byte{5, 6}, x.FindWeakChecksum2([]byte{1, 2, 3, 4})); len(got) != 30 {
		t.Fatalf("%v of 30 blocks", len(got))
	}
}''')
demo('c09-dedup', 'index', 'more than 64 equal blocks', 'a lookup does not return all of them', '''
func TestDemo(t *testing.T) {
	var l []chunks.ChunkChecksum
	for i := uint(0); i < 100; i++ {
		l = append(l, chunks.ChunkChecksum{ChunkOffset: i, WeakChecksum: []byte{1, 2, 3, 4}, StrongChecksum: []byte{5, 6}})
	}
	x := index.MakeChecksumIndex(l)
	if got := x.FindStrongChecksum2([]byte{5, 6}, x.FindWeakChecksum2([]byte{1, 2, 3, 4})); len(got) != 100 {
		t.Fatalf("%v of 100 blocks", len(got))
	}
}''')
demo('c21-far', 'patcher/sequential', 'a block that is found 4 GiB or more into the local file', 'another part of the local file is copied', '''
// far is a large file that has its offset everywhere.
type far int64

func (f *far) Seek(off int64, whence int) (int64, error) {
	if whence == 1 {
		off += int64(*f)
	}
	*f = far(off)
	return off, nil
}

func (f *far) Read(p []byte) (int, error) {
	for i := range p {
		p[i] = byte(*f >> 30)
	}
	*f += far(len(p))
	return len(p), nil
}

type none struct{}

func (none) RequestBlocks(patcher.MissingBlockSpan) error          { return nil }
func (none) GetResultChannel() <-chan patcher.BlockReponse         { return nil }
func (none) EncounteredError() <-chan error                        { return nil }

func TestDemo(t *testing.T) {
	var out bytes.Buffer
	f := []patcher.FoundBlockSpan{{StartBlock: 0, EndBlock: 0, BlockSize: 2, MatchOffset: 5 << 30}}
	if err := SequentialPatcher(new(far), none{}, nil, f, 10, &out); err != nil {
		t.Fatal(err)
	}
	if !bytes.Equal(out.Bytes(), []byte{5, 5}) {
		t.Fatal(out.Bytes())
	}
}''')
demo('c04-limit', 'comparer', 'more than 16 equal blocks in the reference', 'not all of them are found', '''
func TestDemo(t *testing.T) {
	_, idx, _, err := indexbuilder.BuildIndexFromString(filechecksum.NewFileChecksumGenerator(4), strings.Repeat("abcd", 30))
	if err != nil {
		t.Fatal(err)
	}
	n := 0
	for m := range (&comparer.Comparer{}).StartFindMatchingBlocks(strings.NewReader("xxabcdyy"), 0, filechecksum.NewFileChecksumGenerator(4), idx) {
		if m.Err != nil {
			t.Fatal(m.Err)
		}
		n++
	}
	if n != 30 {
		t.Fatalf("%v of 30 blocks", n)
	}
}''')
demo('c05-long', 'comparer', 'a span of more than 255 blocks before a block that lies at an offset within it', 'the block is merged into the span although it lies elsewhere', '''
func TestDemo(t *testing.T) {
	ch := make(chan comparer.BlockMatchResult, 1000)
	for i := 0; i < 256; i++ {
		ch <- comparer.BlockMatchResult{BlockIdx: uint(i), ComparisonOffset: int64(2 * i)}
	}
	// block 256 lies where block 0 is, too
	ch <- comparer.BlockMatchResult{BlockIdx: 256, ComparisonOffset: 0}
	close(ch)
	m := &comparer.MatchMerger{}
	m.StartMergeResultStream(ch, 2)
	for _, s := range m.GetMergedBlocks() {
		if s.StartBlock <= 256 && s.EndBlock >= 256 {
			if off := s.ComparisonStartOffset + 2*int64(256-s.StartBlock); off != 0 {
				t.Fatalf("block 256 is at %v", off)
			}
			return
		}
	}
	t.Fatal("block 256 is lost")
}''')
demo('c27-many', 'blocksources', 'a limit of 16 or more fetches, and more requests', 'more fetches run at once than are allowed', '''
{{source}}
func TestDemo(t *testing.T) {
	g := newGated()
	s := blocksources.NewBlockSourceBase(g, blocksources.MakeNullFixedSizeResolver(1), nil, 16, 100)
	defer s.Close()
	for i := uint(0); i < 20; i++ {
		request(t, s, i, i)
	}
	time.Sleep(200 * time.Millisecond)
	g.mu.Lock()
	most := g.most
	g.mu.Unlock()
	if most > 16 {
		t.Fatalf("%v fetches run at once", most)
	}
}''')
demo('c19-size', 'blocksources', 'a reply that is longer than what was asked for by a multiple of 65536 bytes', 'it is accepted', '''
{{http}}
func TestDemo(t *testing.T) {
	h := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		w.WriteHeader(206)
		w.Write(make([]byte, 4+65536))
	}))
	defer h.Close()
	if d, err := fetch(t, h.URL, 0, 3); err == nil {
		t.Fatalf("%v bytes were accepted", len(d))
	}
}''')

demo('c15-verify', 'blocksources', 'two ranges that arrive at the same time, and a verifier', 'they are verified at the same time with one hash, so genuine data are refused', '''
{{source}}
type slowHash struct{ hash.Hash }

func (h slowHash) Reset() {
	h.Hash.Reset()
	time.Sleep(300 * time.Millisecond)
}

type sums [2][]byte

func (s sums) GetStrongChecksumForBlock(k int) []byte { return s[k] }

func TestDemo(t *testing.T) {
	var l sums
	for i, d := range []string{"ab", "cd"} {
		h := md5.Sum([]byte(d))
		l[i] = h[:]
	}
	g := newGated()
	v := &filechecksum.HashVerifier{BlockSize: 2, Hash: slowHash{md5.New()}, BlockChecksumGetter: l}
	s := blocksources.NewBlockSourceBase(g, blocksources.MakeNullFixedSizeResolver(2), v, 2, 100)
	defer s.Close()
	request(t, s, 0, 0)
	request(t, s, 1, 1)
	go g.finish(0, "ab", nil)
	time.Sleep(100 * time.Millisecond)
	go g.finish(2, "cd", nil)
	for i, want := range []string{"ab", "cd"} {
		if r, err := receive(t, s); err != nil || string(r.Data) != want {
			t.Fatal(i, r, err)
		}
	}
}''')
demo('c09-cache', 'index', 'lookups by several goroutines at the same time', 'one gets the blocks of a sum that another one asked for', '''
func TestDemo(t *testing.T) {
	runtime.GOMAXPROCS(8)
	var l []chunks.ChunkChecksum
	for i := uint(0); i < 2; i++ {
		l = append(l, chunks.ChunkChecksum{ChunkOffset: i, WeakChecksum: []byte{1, 2, byte(i), 4}, StrongChecksum: []byte{5, 6}})
	}
	x := index.MakeChecksumIndex(l)
	var wg sync.WaitGroup
	var wrong int32
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func(g byte) {
			defer wg.Done()
			for k := 0; k < 1000000 && atomic.LoadInt32(&wrong) == 0; k++ {
				m := x.FindStrongChecksum2([]byte{5, 6}, x.FindWeakChecksum2([]byte{1, 2, g & 1, 4}))
				if len(m) != 1 || m[0].ChunkOffset != uint(g&1) {
					atomic.StoreInt32(&wrong, 1)
				}
			}
		}(byte(g))
	}
	wg.Wait()
	if wrong != 0 {
		t.Fatal("a lookup returned other blocks")
	}
}''')

demo('c39-fixed', '.', 'patching in place where there is a file with the name of the temporary file', 'that file is overwritten and removed', '''
{{files}}
func TestDemo(t *testing.T) {
	dir := t.TempDir()
	// a file with the name that the last patch had for its temporary file
	r, _ := inPlace(t, dir, "aaaabbbbcc", "aaaabbbb")
	l, _ := filepath.Glob("tmp*")
	if err := r.Close(); err != nil || len(l) != 1 {
		t.Fatal(l, err)
	}
	if err := os.WriteFile(l[0], []byte("important"), 0644); err != nil {
		t.Fatal(err)
	}
	r, _ = inPlace(t, dir, "aaaabbbbcc", "aaaabbbb")
	if err := r.Close(); err != nil {
		t.Fatal(err)
	}
	if b, _ := os.ReadFile(l[0]); string(b) != "important" {
		t.Fatalf("another file holds %q", b)
	}
}''')
demo('c39-clean', '.', 'patching in place where there are files with names like those of temporary files', 'they are removed', '''
{{files}}
func TestDemo(t *testing.T) {
	r, _ := inPlace(t, t.TempDir(), "aaaabbbbcc", "aaaabbbb")
	for _, name := range []string{"tmp_notes", "tmp.txt", "tmp"} {
		if err := os.WriteFile(name, []byte("important"), 0644); err != nil {
			t.Fatal(err)
		}
	}
	if err := r.Close(); err != nil {
		t.Fatal(err)
	}
	for _, name := range []string{"tmp_notes", "tmp.txt", "tmp"} {
		if b, _ := os.ReadFile(name); string(b) != "important" {
			t.Fatalf("%v holds %q", name, b)
		}
	}
}''')
demo('c39-build', 'cmd/gosync', 'a build that fails while it writes, or a file with the name of the index and another suffix', 'the other file is lost, or an unfinished one stays', '''
{{tool}}
func TestDemo(t *testing.T) {
	asTool()
	dir := t.TempDir()
	put(t, dir+"/ref.bin", []byte("aaaabbbb"))
	for _, suffix := range []string{".part", ".tmp", ".new", "~"} {
		put(t, dir+"/ref.gosync"+suffix, []byte("important"))
	}
	if tool(t, dir, "build", "ref.bin") != 0 {
		t.Fatal("not built")
	}
	for _, suffix := range []string{".part", ".tmp", ".new", "~"} {
		if b, _ := os.ReadFile(dir + "/ref.gosync" + suffix); string(b) != "important" {
			t.Fatalf("another file holds %q", b)
		}
	}
}''')
