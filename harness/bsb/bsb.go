// Package bsb drives the block source through histories of requests,
// finishing fetches, receives and closes: C15, C16, C17, C27.
package bsb

import (
	"errors"
	"sync"

	"github.com/Redundancy/go-sync/blocksources"
	"github.com/Redundancy/go-sync/patcher"
	"github.com/Redundancy/go-sync/zzverif/fail"
	"github.com/Redundancy/go-sync/zzverif/sym"
)

var errFetch = errors.New("fetching failed")

const (
	running = iota
	fetched // finished well, not delivered
	broken  // finished badly
	delivered
)

// fetch is one call of DoRequest.
type fetch struct {
	lo, hi int
	gate   chan bool
	data   []byte
	err    error
	state  int
	ready  bool // was the lowest of all while waiting for its delivery
	now    bool // is it now
}

// world is the environment of a block source.
type world struct {
	mu       sync.Mutex
	src      *blocksources.BlockSourceBase
	limit    int
	inflight int
	over     bool
	fetches  []*fetch
	auto     func(f *fetch, k int) // finishes a fetch at once
	reqs     [][2]int              // ranges asked for
	apart    bool                  // no two ranges were asked for together
}

func (w *world) DoRequest(lo, hi int64) ([]byte, error) {
	f := &fetch{lo: int(lo), hi: int(hi), gate: make(chan bool, 1)}
	w.mu.Lock()
	w.inflight++
	if w.inflight > w.limit {
		w.over = true
	}
	w.fetches = append(w.fetches, f)
	k := len(w.fetches)
	w.mu.Unlock()
	if w.auto != nil {
		w.auto(f, k)
	} else {
		<-f.gate
	}
	w.mu.Lock()
	w.inflight--
	w.mu.Unlock()
	return f.data, f.err
}

func (w *world) IsFatal(err error) bool { return true }

// VerifyBlockRange rejects the data of fetches marked bad.
func (w *world) VerifyBlockRange(start uint, data []byte) bool {
	return len(data) == 0 || data[0] != 255
}

func (w *world) GetBlockStartOffset(b uint) int64 { return int64(b) }
func (w *world) GetBlockEndOffset(b uint) int64   { return int64(b) + 1 }

// SplitBlockRangeToDesiredSize splits into single blocks from block 10 on.
func (w *world) SplitBlockRangeToDesiredSize(a, b uint) []blocksources.QueuedRequest {
	if a < 10 {
		return []blocksources.QueuedRequest{{StartBlockID: a, EndBlockID: b}}
	}
	var l []blocksources.QueuedRequest
	for ; a <= b; a++ {
		l = append(l, blocksources.QueuedRequest{StartBlockID: a, EndBlockID: a})
	}
	return l
}

func newWorld(limit int) *world {
	w := &world{limit: limit}
	w.src = blocksources.NewBlockSourceBase(w, w, w, limit, 1000)
	return w
}

func (w *world) request(a, b int) error {
	err := w.src.RequestBlocks(patcher.MissingBlockSpan{StartBlock: uint(a), EndBlock: uint(b), BlockSize: 1})
	if err == nil {
		if a < 10 {
			w.reqs = append(w.reqs, [2]int{a, b + 1})
		} else {
			for ; a <= b; a++ {
				w.reqs = append(w.reqs, [2]int{a, a + 1})
			}
		}
	}
	return err
}

// settle waits until the source has come to rest.
func (w *world) settle() {
	sym.Quiesce()
	w.mu.Lock()
	defer w.mu.Unlock()
	sym.Assert(!w.over, "more fetches run than are allowed")
	low := -1
	for i, f := range w.fetches {
		if (f.state == running || f.state == fetched) && (low < 0 || f.lo < w.fetches[low].lo) {
			low = i
		}
	}
	for _, f := range w.fetches {
		f.now = f.state == fetched && f.lo == w.fetches[low].lo
		f.ready = f.ready || f.now
	}
}

func (w *world) count(state int) int {
	n := 0
	for _, f := range w.fetches {
		if f.state == state {
			n++
		}
	}
	return n
}

// nth is the n-th fetch in a state.
func (w *world) nth(state, n int) *fetch {
	for _, f := range w.fetches {
		if f.state == state {
			if n == 0 {
				return f
			}
			n--
		}
	}
	return nil
}

// finish lets a running fetch finish: 0 well, 1 with an error, 2 with data
// that do not pass verification, 3 with both.
func (w *world) finish(f *fetch, how int) {
	w.finish2(f, how)
	f.gate <- true
}

// finish2 decides how a fetch will finish.
func (w *world) finish2(f *fetch, how int) {
	n := f.hi - f.lo
	w.mu.Lock()
	k := byte(0)
	for i := range w.fetches {
		if w.fetches[i] == f {
			k = byte(i)
		}
	}
	w.mu.Unlock()
	f.data = append([]byte{k}, sym.Bytes("data", n)...)
	f.state = fetched
	if how != 0 {
		f.state = broken
	}
	if how >= 2 {
		f.data[0] = 255
	}
	if how == 1 || how == 3 {
		f.err = fail.Of(errFetch)
	}
}

// took accounts for a response.
func (w *world) took(r patcher.BlockReponse, order bool) {
	for _, f := range w.fetches {
		if f.lo == int(r.StartBlock) && f.state == fetched && len(f.data) == len(r.Data) && sym.BytesEq(f.data, r.Data) {
			if order {
				sym.Assert(f.ready, "a lower range that was being fetched or waiting should have been delivered first")
			}
			f.state = delivered
			sym.Reach("delivered")
			if order && f.lo > 10 && !w.apart {
				// the ranges one request was split into
				ok := false
				for _, e := range w.fetches {
					ok = ok || e.lo == f.lo-1 && e.state == delivered
				}
				sym.Assert(ok, "ranges requested together are not delivered in block order")
			}
			return
		}
	}
	sym.Fail("a response that is not the data of an undelivered fetch was delivered")
}

// started checks that fetches were started for exactly the ranges asked for,
// as many as there is room for.
func (w *world) started() {
	run := w.count(running)
	left := len(w.reqs) - len(w.fetches)
	sym.Assert(left >= 0, "more fetches were started than were asked for")
	if left > 0 {
		sym.Assert(run == w.limit, "a request waits although there is room for it")
		sym.Reach("waiting for a slot")
	}
	used := make([]bool, len(w.reqs))
	for _, f := range w.fetches {
		ok := false
		for i, r := range w.reqs {
			if !used[i] && r[0] == f.lo && r[1] == f.hi {
				used[i] = true
				ok = true
				break
			}
		}
		sym.Assert(ok, "a range nobody asked for was fetched")
	}
}

// receive tries to receive a response.
func (w *world) receive() bool {
	select {
	case r, ok := <-w.src.GetResultChannel():
		sym.Assert(ok, "the result channel was closed")
		w.took(r, true)
		w.settle()
		return true
	case <-w.src.EncounteredError():
		sym.Fail("an error without a failure")
	default:
	}
	return false
}

// History: every fetch succeeds.
func History() {
	w := newWorld(sym.Pick("limit", 1, 3))
	left := sym.Bound(3, 4)
	pending := 0
	asked := 0
	split := false
	for left > 0 || w.count(running) > 0 || pending > 0 {
		w.started()
		// 0 request, 1.. let a fetch finish, last: receive
		run := w.count(running)
		k := sym.Pick("step", 0, run+1)
		switch {
		case k == 0:
			if left == 0 {
				sym.Stop()
			}
			left--
			a := sym.Pick("block", 0, sym.Bound(2, 3))
			if a == 2 && !split && left > 0 {
				// one request that is split into several
				sym.Assert(w.request(10, 11) == nil, "a running source refused a request")
				sym.Reach("split")
				split = true
				left--
				pending++
			} else {
				sym.Assert(w.request(a, a+asked%2) == nil, "a running source refused a request")
			}
			asked++
			pending++
			w.settle()
		case k <= run:
			w.finish(w.nth(running, k-1), 0)
			w.settle()
		default:
			must := false
			for _, f := range w.fetches {
				must = must || f.now
			}
			got := w.receive()
			sym.Assert(got || !must, "the lowest range was fetched but is not delivered")
			if !got {
				sym.Reach("nothing to deliver")
				sym.Stop()
			}
			pending--
		}
	}
	w.started()
	sym.Assert(len(w.fetches) == len(w.reqs), "a request was forgotten")
	sym.Assert(w.count(delivered) == len(w.fetches), "a fetched range was not delivered")
	sym.Assert(!w.receive(), "more was delivered than asked for")
	sym.Reach("all delivered")
}

// takeError tries to receive an error.
func (w *world) takeError() bool {
	select {
	case err, ok := <-w.src.EncounteredError():
		sym.Assert(ok, "the error channel was closed before an error was delivered")
		sym.Assert(err != nil, "nil error")
		w.settle()
		return true
	default:
	}
	return false
}

// Failures: fetches may fail, also several at once.
func Failures() {
	w := newWorld(sym.Pick("limit", 1, 3))
	n := sym.Pick("requests", 1, sym.Bound(3, 3))
	up := sym.Pick("up", 0, 1) == 1
	for i := 0; i < n; i++ {
		b := i
		if up {
			b = n - 1 - i
		}
		sym.Assert(w.request(b, b) == nil, "a running source refused a request")
	}
	w.settle()
	failed, told := 0, false
	for {
		run := w.count(running)
		k := sym.Pick("step", 0, run+1)
		switch {
		case k < run:
			how := sym.Pick("how", 0, 3)
			w.finish(w.nth(running, k), how)
			if how != 0 {
				failed++
			}
			if sym.Pick("settle", 0, 1) == 1 {
				w.settle()
			} else if run == 1 {
				sym.Stop()
			} else {
				sym.Reach("at once")
			}
		case k == run:
			w.settle()
			select {
			case r, ok := <-w.src.GetResultChannel():
				if ok {
					w.took(r, false)
					w.settle()
				}
				sym.Assert(ok || told, "the result channel was closed before an error was delivered")
				if !ok {
					return
				}
			default:
				sym.Stop()
			}
		default:
			w.settle()
			if failed > 0 && !told {
				sym.Assert(w.takeError(), "a fetch failed, but no error is available")
				told = true
				sym.Reach("error")
			} else if !told {
				sym.Assert(!w.takeError(), "an error without a failure")
				return
			} else {
				return
			}
			if failed > 1 {
				sym.Reach("several failures")
			}
			if run == 0 {
				return
			}
		}
	}
}

// ended checks that a closed source has come to its end.
func (w *world) ended() {
	for w.count(running) > 0 {
		w.finish(w.nth(running, 0), 0)
	}
	sym.Quiesce()
	select {
	case _, ok := <-w.src.GetResultChannel():
		sym.Assert(!ok, "data are delivered after the end")
	default:
		sym.Fail("the result channel of a closed source is not closed")
	}
	select {
	case _, ok := <-w.src.EncounteredError():
		sym.Assert(!ok, "an error is delivered after the end")
	default:
		sym.Fail("the error channel of a closed source is not closed")
	}
	sym.Assert(sym.Others() == 0, "a closed source still works in the background")
	sym.Assert(w.request(0, 0) != nil, "a source that has shut down accepted a request")
	w.src.Close()
	sym.Assert(w.request(0, 0) != nil, "a source that has shut down accepted a request")
}

// Closing closes a source at any point of a history.
func Closing() {
	w := newWorld(sym.Pick("limit", 1, 2))
	closed, failed := false, false
	started := 0
	for i, n := 0, sym.Bound(5, 6); i < n && !closed; i++ {
		run := w.count(running)
		k := sym.Pick("step", 0, run+3)
		switch {
		case k < run:
			how := sym.Pick("how", 0, 2)
			w.finish(w.nth(running, k), how)
			failed = failed || how != 0
			if sym.Pick("settle", 0, 1) == 1 {
				w.settle()
			}
		case k == run:
			b := len(w.reqs)
			if b == 3 {
				sym.Stop()
			}
			err := w.request(2-b, 2-b)
			sym.Assert(err == nil || failed, "a running source refused a request")
			if sym.Pick("settle", 0, 1) == 1 {
				w.settle()
			}
		case k == run+1:
			w.settle()
			select {
			case r, ok := <-w.src.GetResultChannel():
				if ok {
					w.took(r, false)
				}
				sym.Assert(ok || failed, "the result channel is closed")
			default:
				sym.Stop()
			}
		case k == run+2:
			w.settle()
			select {
			case err, ok := <-w.src.EncounteredError():
				sym.Assert(failed, "an error without a failure")
				sym.Assert(!ok || err != nil, "nil error")
			default:
				sym.Stop()
			}
		default:
			closed = true
		}
	}
	if !closed {
		sym.Reach("close late")
	}
	if failed {
		sym.Reach("close after a failure")
	}
	w.src.Close()
	if sym.Pick("again", 0, 1) == 1 {
		w.src.Close()
		sym.Reach("close twice")
	}
	if sym.Pick("request at once", 0, 1) == 1 {
		sym.Assert(w.request(5, 5) != nil, "a source that has shut down accepted a request")
	}
	sym.Quiesce()
	w.mu.Lock()
	started = len(w.fetches)
	w.mu.Unlock()
	if w.count(running) > 0 {
		sym.Reach("close while fetching")
	}
	w.ended()
	sym.Assert(len(w.fetches) == started, "a closed source went on fetching")
}

// Crossing closes, requests and finishes at the same time.
func Crossing() {
	w := newWorld(2)
	busy := sym.Pick("busy", 0, 2)
	for i := 0; i < busy; i++ {
		sym.Assert(w.request(i, i) == nil, "a running source refused a request")
	}
	w.settle()
	var wg sync.WaitGroup
	par := func(f func()) {
		wg.Add(1)
		go func() {
			defer wg.Done()
			sym.Pause()
			f()
		}()
	}
	what := sym.Pick("what", 0, 2)
	hows := []int{sym.Pick("how", 0, 1), sym.Pick("how", 0, 1)}
	for i := 0; i < busy; i++ {
		f, how := w.nth(running, 0), hows[i]
		w.finish2(f, how)
		par(func() { f.gate <- true })
	}
	par(func() { w.src.Close() })
	switch what {
	case 0:
		par(func() { w.src.Close() })
		sym.Reach("two closes")
	case 1:
		par(func() {
			w.src.RequestBlocks(patcher.MissingBlockSpan{StartBlock: 3, EndBlock: 3, BlockSize: 1})
		})
		sym.Reach("close and request")
	case 2:
		par(func() {
			select {
			case <-w.src.GetResultChannel():
			case <-w.src.EncounteredError():
			}
		})
		sym.Reach("close and receive")
	}
	wg.Wait()
	// a fetch may just have been started
	sym.Quiesce()
	w.ended()
}

// Flow lets fetches finish on their own, while requests are made and
// responses are received; one of the fetches may fail.
func Flow() {
	w := newWorld(sym.Pick("limit", 1, 2))
	n := sym.Bound(3, 3)
	bad := sym.Pick("bad", 0, n) // n: none
	how := 0
	if bad < n {
		how = sym.Pick("how", 1, 2)
	}
	failure := errFetch
	if how == 1 {
		failure = fail.Of(errFetch)
	}
	down := sym.Pick("down", 0, 1) == 1
	w.auto = func(f *fetch, k int) {
		sym.Pause()
		f.data = []byte{byte(f.lo), byte(k)}
		f.state = fetched
		if f.lo == bad {
			f.state = broken
			if how == 1 {
				f.err = failure
			} else {
				f.data[0] = 255
			}
		}
	}
	go func() {
		for i := 0; i < n; i++ {
			b := i
			if down {
				b = n - 1 - i
			}
			err := w.src.RequestBlocks(patcher.MissingBlockSpan{StartBlock: uint(b), EndBlock: uint(b), BlockSize: 1})
			sym.Assert(err == nil || bad < n, "a running source refused a request")
			if err != nil {
				sym.Reach("refused")
				return
			}
		}
	}()
	got := make([]bool, n)
	for i := 0; i < n; i++ {
		select {
		case r, ok := <-w.src.GetResultChannel():
			sym.Assert(ok, "the result channel was closed before an error was delivered")
			b := int(r.StartBlock)
			sym.Assert(b < n && b != bad && !got[b], "a response that is not the data of an undelivered fetch was delivered")
			sym.Assert(len(r.Data) == 2 && int(r.Data[0]) == b, "a response that is not the data of an undelivered fetch was delivered")
			got[b] = true
		case err, ok := <-w.src.EncounteredError():
			sym.Assert(ok && err != nil, "the error channel was closed before an error was delivered")
			sym.Assert(bad < n, "an error without a failure")
			i = n
			sym.Reach("error")
		}
	}
	w.mu.Lock()
	sym.Assert(!w.over, "more fetches run than are allowed")
	w.mu.Unlock()
	if bad == n {
		sym.Reach("all delivered")
	}
	w.src.Close()
	sym.Quiesce()
	sym.Assert(sym.Others() == 0, "a closed source still works in the background")
}

// due is the number of bytes of the fetches that were finished without an
// error of the requester.
func (w *world) due() int {
	n := 0
	for _, f := range w.fetches {
		if f.state != running && f.err == nil {
			n += len(f.data)
		}
	}
	return n
}

func (w *world) counted(what string) {
	sym.Quiesce()
	sym.Assert(int(w.src.ReadBytes()) == w.due(), "the bytes read are miscounted "+what)
}

// Counting compares the count of bytes with the data fetched, in histories
// with failures and closes: C31.
func Counting() {
	w := newWorld(sym.Pick("limit", 1, 2))
	w.counted("at the beginning")
	asked, closed, failed := 0, false, false
	for i, n := 0, sym.Bound(6, 7); i < n; i++ {
		run := w.count(running)
		k := sym.Pick("step", 0, run+2)
		switch {
		case k < run:
			how := sym.Pick("how", 0, 3)
			f := w.nth(running, k)
			w.finish(f, how)
			failed = failed || how != 0
			w.counted("after a fetch")
			switch {
			case how == 2:
				sym.Reach("rejected data")
			case f.err != nil:
				sym.Reach("data with an error")
			case closed:
				sym.Reach("finished after the close")
			case failed:
				sym.Reach("finished after a failure")
			}
		case k == run:
			if asked == 3 || closed {
				sym.Stop()
			}
			err := w.request(2-asked, 2-asked+asked%2)
			sym.Assert(err == nil || failed, "a running source refused a request")
			asked++
			w.counted("after a request")
		case k == run+1:
			sym.Quiesce()
			select {
			case r, ok := <-w.src.GetResultChannel():
				if ok {
					w.took(r, false)
					sym.Reach("received")
				}
			case <-w.src.EncounteredError():
			default:
				sym.Stop()
			}
			w.counted("after receiving")
		default:
			if closed {
				sym.Stop()
			}
			closed = true
			w.src.Close()
			w.counted("after closing")
		}
	}
}

// Polling reads the count while the source works: C31.
func Polling() {
	w := newWorld(sym.Pick("limit", 1, 2))
	n := sym.Bound(2, 2)
	bad := sym.Pick("bad", 0, n) // n: none
	total := 0
	var sizes []int
	for i := 0; i < n; i++ {
		sizes = append(sizes, sym.Pick("size", 1, 2))
		total += sizes[i]
	}
	w.auto = func(f *fetch, k int) {
		sym.Pause()
		f.data = make([]byte, sizes[f.lo])
		f.state = fetched
		if f.lo == bad {
			f.data[0] = 255
			f.state = broken
		}
	}
	for i := 0; i < n; i++ {
		err := w.request(i, i)
		sym.Assert(err == nil || bad < n, "a running source refused a request")
	}
	var wg sync.WaitGroup
	wg.Add(1)
	go func() {
		defer wg.Done()
		last := int64(0)
		for i := 0; i < 2; i++ {
			sym.Pause()
			got := w.src.ReadBytes()
			sym.Assert(got >= last && int(got) <= total, "the bytes read are miscounted while fetching")
			if last < got && i > 0 {
				sym.Reach("grows")
			}
			last = got
		}
	}()
	for i := 0; i < n; i++ {
		got := int64(0)
		select {
		case _, ok := <-w.src.GetResultChannel():
			if ok {
				got = 1
			}
		case <-w.src.EncounteredError():
			i = n
		}
		sym.Assert(w.src.ReadBytes() >= got, "data were delivered but no bytes are counted")
	}
	w.src.Close()
	wg.Wait()
	if bad == n {
		w.counted("at the end")
		sym.Reach("all fetched")
	}
}
