// Package sym is the interface between verification harnesses and the two
// ways of running them: under the symbolic executor (which replaces the
// functions below) and natively, with the concrete inputs of one execution.
package sym

import (
	"bytes"
	"crypto/md5"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"os"
	"runtime"
	"sync"
	"syscall"
	"time"
)

// RuntimeError stands for errors of the Go run time.
type RuntimeError struct{ msg string }

func (e RuntimeError) Error() string { return e.msg }
func (e RuntimeError) RuntimeError() {}

// FmtError is what fmt.Errorf returns under the executor.
type FmtError struct {
	msg string
	err error
}

func (e *FmtError) Error() string { return e.msg }
func (e *FmtError) Unwrap() error { return e.err }

// ---- native state ----

type job struct {
	Harness  string            `json:"harness"`
	Inputs   map[string]uint64 `json:"inputs"`
	Thorough bool              `json:"thorough"`
	Jitter   bool              `json:"jitter"`
	Seed     int64             `json:"seed"`
}

var (
	mu    sync.Mutex
	cur   job
	names = map[string]int{}
	jmu   sync.Mutex
	rng   = rand.New(rand.NewSource(1))
)

type stopT struct{}

// Main runs the job described in the file named by ZZ_JOB.
func Main(hs map[string]func()) {
	b, err := os.ReadFile(os.Getenv("ZZ_JOB"))
	if err != nil {
		fmt.Fprintln(stdout, "ZZ-BAD", err)
		os.Exit(3)
	}
	if err := json.Unmarshal(b, &cur); err != nil {
		fmt.Fprintln(stdout, "ZZ-BAD", err)
		os.Exit(3)
	}
	rng = rand.New(rand.NewSource(cur.Seed))
	h := hs[cur.Harness]
	if h == nil {
		fmt.Fprintln(stdout, "ZZ-BAD no harness", cur.Harness)
		os.Exit(3)
	}
	done := make(chan bool)
	go func() {
		h()
		close(done)
	}()
	<-done
	fmt.Fprintln(stdout, "ZZ-DONE")
	cleanup()
	exit(0)
}

// Workdir makes a scratch directory and changes into it.
func Workdir() {
	d, err := os.MkdirTemp("", "zzwork")
	if err != nil || os.Chdir(d) != nil {
		stop("ZZ-BAD no scratch directory")
	}
	tmpdirs = append(tmpdirs, d)
}

// FileLimit keeps files from growing beyond a size, -1 lifts the limit.
func FileLimit(size int) {
	var l syscall.Rlimit
	if syscall.Getrlimit(syscall.RLIMIT_FSIZE, &l) != nil {
		stop("ZZ-BAD cannot read the file size limit")
	}
	l.Cur = l.Max
	if size >= 0 {
		l.Cur = uint64(size)
	}
	if syscall.Setrlimit(syscall.RLIMIT_FSIZE, &l) != nil {
		stop("ZZ-BAD cannot limit the file size")
	}
}

var stdout = os.Stdout

// Capture diverts the standard output into a file.
func Capture() {
	f, err := os.CreateTemp("", "zzout")
	if err != nil {
		stop("ZZ-BAD no scratch file")
	}
	tmpdirs = append(tmpdirs, f.Name())
	os.Stdout = f
}

// Captured returns what was printed since Capture.
func Captured() string {
	b, _ := os.ReadFile(os.Stdout.Name())
	return string(b)
}

// Printed is used by the stubs.
func Printed(b []byte) {}

var tmpdirs []string

func cleanup() {
	for _, d := range tmpdirs {
		os.RemoveAll(d)
	}
}

// exit leaves the process even if os.Exit has been replaced.
var exit = os.Exit

// SetExit lets the generated runner provide the real exit function.
func SetExit(f func(int)) { exit = f }

// OnExit is set by the generated runner: it installs a hook for os.Exit.
var OnExit func(func(int))

// ExitCode is the panic value by which a replaced os.Exit unwinds.
type ExitCode struct{ Code int }

func fresh(name string) string {
	n := names[name]
	names[name] = n + 1
	if n > 0 {
		return fmt.Sprintf("%s#%d", name, n+1)
	}
	return name
}

func in(name string, def uint64) uint64 {
	mu.Lock()
	defer mu.Unlock()
	if v, ok := cur.Inputs[fresh(name)]; ok {
		return v
	}
	return def
}

// Symbolic tells whether the code runs under the symbolic executor.
func Symbolic() bool { return false }

func Byte(name string) byte     { return byte(in(name, 0)) }
func Bool(name string) bool     { return in(name, 0) == 1 }
func Uint16(name string) uint16 { return uint16(in(name, 0)) }
func Uint32(name string) uint32 { return uint32(in(name, 0)) }
func Uint64(name string) uint64 { return in(name, 0) }

// Int is a symbolic integer between lo and hi.
func Int(name string, lo, hi int) int {
	if lo > hi {
		stop("ZZ-ASSUME")
	}
	if lo == hi {
		return lo
	}
	if lo >= 0 {
		return int(in(name, uint64(lo)))
	}
	return lo + int(in(name, 0))
}

// Pick is like Int, but every value is explored as a path of its own.
func Pick(name string, lo, hi int) int { return Int(name, lo, hi) }

// Bytes makes n symbolic bytes.
func Bytes(name string, n int) []byte {
	mu.Lock()
	name = fresh(name)
	mu.Unlock()
	b := make([]byte, n)
	for i := range b {
		b[i] = Byte(fmt.Sprintf("%s[%d]", name, i))
	}
	return b
}

// Concretize forks over all values of n.
func Concretize(n int) int { return n }

func stop(line string) {
	fmt.Fprintln(stdout, line)
	cleanup()
	exit(0)
}

// Assume restricts the executions looked at.
func Assume(c bool) {
	if !c {
		stop("ZZ-ASSUME")
	}
}

// Assert states a property.
func Assert(c bool, msg string) {
	if !c {
		stop("ZZ-FAIL " + msg)
	}
}

// Fail reports a violation.
func Fail(msg string) { Assert(false, msg) }

// Stop ends the execution quietly.
func Stop() { stop("ZZ-DONE") }

func And(a, b bool) bool     { return a && b }
func Or(a, b bool) bool      { return a || b }
func Implies(a, b bool) bool { return !a || b }
func IteByte(c bool, a, b byte) byte {
	if c {
		return a
	}
	return b
}
func IteInt(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}
func BytesEq(a, b []byte) bool { return bytes.Equal(a, b) }

// Reach marks a situation the harness is expected to produce.
func Reach(label string) { fmt.Fprintln(stdout, "ZZ-REACH", label) }

// Observe records values for comparing native and symbolic executions.
func Observe(label string, vals ...interface{}) {
	s := label
	var add func(v interface{})
	add = func(v interface{}) {
		switch v := v.(type) {
		case nil:
			s += " nil"
		case error:
			s += " error"
		case []byte:
			s += fmt.Sprintf(" #%d", len(v))
			for _, b := range v {
				s += fmt.Sprintf(" %d", b)
			}
		case string:
			add([]byte(v))
		case []int:
			s += fmt.Sprintf(" #%d", len(v))
			for _, b := range v {
				s += fmt.Sprintf(" %d", uint64(b))
			}
		case bool:
			s += fmt.Sprintf(" %v", v)
		case int:
			s += fmt.Sprintf(" %d", uint64(v))
		case int64:
			s += fmt.Sprintf(" %d", uint64(v))
		default:
			s += fmt.Sprintf(" %d", v)
		}
	}
	for _, v := range vals {
		add(v)
	}
	mu.Lock()
	fmt.Fprintln(stdout, "ZZ-OBS "+s)
	mu.Unlock()
}

// Quiesce waits until nothing else in the program can make progress.
func Quiesce() {
	d := 2 * time.Millisecond
	if cur.Jitter {
		d = 8 * time.Millisecond
	}
	for i := 0; i < 20; i++ {
		runtime.Gosched()
	}
	time.Sleep(d)
}

// Others counts the other goroutines that have not ended.
func Others() int {
	for i := 0; i < 100 && runtime.NumGoroutine() > 2; i++ {
		time.Sleep(time.Millisecond)
	}
	return runtime.NumGoroutine() - 2
}

// Pause marks a point where the environment takes some time.
func Pause() {
	if !cur.Jitter {
		return
	}
	Jitter()
}

// Yield is an explicit scheduling point.
func Yield() { runtime.Gosched(); Pause() }

// Jitter delays the caller by a small random amount.
func Jitter() {
	if !cur.Jitter {
		return
	}
	jmu.Lock()
	k := rng.Intn(16)
	n := rng.Intn(200)
	jmu.Unlock()
	switch {
	case k < 7:
	case k < 12:
		runtime.Gosched()
	case k < 15:
		time.Sleep(time.Duration(n) * time.Microsecond / 4)
	default:
		time.Sleep(time.Duration(n) * time.Microsecond * 3)
	}
}

// Thorough tells whether the deeper bounds are in use.
func Thorough() bool { return cur.Thorough }

// Bound selects a bound by tier.
func Bound(quick, thorough int) int {
	if cur.Thorough {
		return thorough
	}
	return quick
}

// Fresh is a collision-free 16 byte hash of a long message.
func Fresh(b []byte) []byte {
	s := md5.Sum(b)
	return append([]byte{}, s[:]...)
}

// SortSlice is the sorting routine used in place of sort.Slice.
func SortSlice(n int, less func(i, j int) bool, swap func(i, j int)) {
	for i := 1; i < n; i++ {
		for j := i; j > 0 && less(j, j-1); j-- {
			swap(j, j-1)
		}
	}
}

// BinWrite and BinRead stand for the transfer of encoding/binary.
func BinWrite(w io.Writer, b []byte) error {
	_, err := w.Write(b)
	return err
}

func BinRead(r io.Reader, n int, set func([]byte)) error {
	b := make([]byte, n)
	if _, err := io.ReadFull(r, b); err != nil {
		return err
	}
	set(b)
	return nil
}

// AsTarget stores an error where errors.As is asked to, if it fits.
func AsTarget(err error, target interface{}) bool { return false }

// Timer waits for a duration that only passes while nothing else happens.
func Timer(d int64) {}
