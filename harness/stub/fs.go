package stub

import (
	"errors"
	"io"
	"os"
	"path"
	"time"

	"github.com/Redundancy/go-sync/zzverif/sym"
)

// A small file system. A node may be shared by several names (links).
type Node struct {
	Data []byte
	Full bool // writing fails like on a full device
	Dir  bool
	Mode os.FileMode
	Sym  string // the target of a symbolic link
}

type handle struct {
	n      *Node
	name   string
	off    int64
	flag   int
	closed bool
}

var (
	tree    = map[string]*Node{}
	handles = map[*os.File]*handle{}
	tmpSeq  int
	fds     uintptr = 3

	// Limit is how large files can become, -1 for no limit
	Limit = -1

	// FailRead and FailWrite, if set, may return an error for an operation
	FailRead  func(name string) error
	FailWrite func(name string) error
)

func clean(p string) string {
	if p == "" {
		return ""
	}
	p = path.Clean(p)
	switch {
	case p == "/work":
		return "."
	case len(p) > 6 && p[:6] == "/work/":
		return p[6:]
	}
	return p
}

// follow gives the name a symbolic link leads to.
func follow(p string) string {
	for k := 0; k < 8; k++ {
		n := tree[p]
		if n == nil || n.Sym == "" {
			return p
		}
		if n.Sym[0] == '/' {
			p = clean(n.Sym)
		} else {
			p = clean(path.Dir(p) + "/" + n.Sym)
		}
	}
	return p
}

// node finds a file or directory by its clean name.
func node(p string) *Node {
	p = follow(p)
	if n := tree[p]; n != nil {
		return n
	}
	if p == "." || p == "/" || p == "/tmp" {
		return &Node{Dir: true, Mode: os.ModeDir | 0777}
	}
	return nil
}

// Put creates or replaces a file (harness use).
func Put(path string, data []byte) *Node {
	n := &Node{Data: append([]byte{}, data...), Mode: 0644}
	tree[clean(path)] = n
	return n
}

// Get returns the content of a file (harness use).
func Get(path string) ([]byte, bool) {
	n := node(clean(path))
	if n == nil {
		return nil, false
	}
	return append([]byte{}, n.Data...), true
}

// Link gives an existing file a second name (harness use).
func Link(old, new string) { tree[clean(new)] = tree[clean(old)] }

// Fill makes writing to a file fail (harness use).
func Fill(path string) { tree[clean(path)].Full = true }

// Spoil makes reading a file fail (harness use).
func Spoil(path string) { tree[clean(path)] = &Node{Dir: true} }

// Find returns a file whose name starts with the prefix (harness use).
func Find(prefix string) string {
	for n := range tree {
		if len(n) >= len(prefix) && n[:len(prefix)] == prefix {
			return n
		}
	}
	return ""
}

// List returns all names without a directory, sorted (harness use).
func List() []string {
	var l []string
next:
	for n := range tree {
		for i := range n {
			if n[i] == '/' {
				continue next
			}
		}
		l = append(l, n)
		for i := len(l) - 1; i > 0 && l[i] < l[i-1]; i-- {
			l[i], l[i-1] = l[i-1], l[i]
		}
	}
	return l
}

// Delete removes a name (harness use).
func Delete(path string) { delete(tree, clean(path)) }

// hasDir tells whether the directory of a file exists.
func hasDir(p string) bool {
	for i := len(p) - 1; i > 0; i-- {
		if p[i] == '/' {
			n := node(p[:i])
			return n != nil && n.Dir
		}
	}
	return true
}

// Mkdir makes a directory (harness use).
func Mkdir(path string) { tree[clean(path)] = &Node{Dir: true} }

// Open counts the files that are open (harness use).
func Open() int {
	k := 0
	for _, h := range handles {
		if !h.closed {
			k++
		}
	}
	return k
}

// Count returns the number of names in the tree (harness use).
func Count() int { return len(tree) }

func perr(op, path string, err error) error { return &os.PathError{Op: op, Path: path, Err: err} }

var errTooLarge = errors.New("file too large")
var errNoSpace = errors.New("no space left on device")

func OsOpen(name string) (*os.File, error) { return OsOpenFile(name, os.O_RDONLY, 0) }
func OsCreate(name string) (*os.File, error) {
	return OsOpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0666)
}

func OsOpenFile(name string, flag int, perm os.FileMode) (*os.File, error) {
	p := clean(name)
	n := node(p)
	if n == nil {
		if p = follow(p); flag&os.O_CREATE == 0 || !hasDir(p) {
			return nil, perr("open", name, os.ErrNotExist)
		}
		n = &Node{Mode: perm &^ 022}
		tree[p] = n
	} else if flag&os.O_CREATE != 0 && flag&os.O_EXCL != 0 {
		return nil, perr("open", name, os.ErrExist)
	}
	if n.Dir && flag&(os.O_WRONLY|os.O_RDWR) != 0 {
		return nil, perr("open", name, errors.New("is a directory"))
	}
	if flag&os.O_TRUNC != 0 {
		n.Data = nil
	}
	f := new(os.File)
	handles[f] = &handle{n: n, name: name, flag: flag}
	return f, nil
}

func get(f *os.File) (*handle, error) {
	if f == nil {
		return nil, os.ErrInvalid
	}
	h := handles[f]
	if h == nil {
		return nil, os.ErrInvalid
	}
	if h.closed {
		return nil, perr("use", h.name, os.ErrClosed)
	}
	return h, nil
}

func FileRead(f *os.File, b []byte) (int, error) {
	h, err := get(f)
	if err != nil {
		return 0, err
	}
	if FailRead != nil {
		if err := FailRead(h.name); err != nil {
			return 0, perr("read", h.name, err)
		}
	}
	if h.flag&(os.O_WRONLY) != 0 {
		return 0, perr("read", h.name, errors.New("bad file descriptor"))
	}
	if len(b) == 0 {
		return 0, nil
	}
	if h.n.Dir {
		return 0, perr("read", h.name, errors.New("is a directory"))
	}
	if h.off >= int64(len(h.n.Data)) {
		return 0, io.EOF
	}
	n := copy(b, h.n.Data[h.off:])
	h.off += int64(n)
	return n, nil
}

func FileReadAt(f *os.File, b []byte, off int64) (int, error) {
	h, err := get(f)
	if err != nil {
		return 0, err
	}
	if off < 0 {
		return 0, perr("readat", h.name, errors.New("negative offset"))
	}
	if FailRead != nil {
		if err := FailRead(h.name); err != nil {
			return 0, perr("read", h.name, err)
		}
	}
	if h.n.Dir {
		return 0, perr("read", h.name, errors.New("is a directory"))
	}
	if off >= int64(len(h.n.Data)) {
		if len(b) == 0 {
			return 0, nil
		}
		return 0, io.EOF
	}
	n := copy(b, h.n.Data[off:])
	if n < len(b) {
		return n, io.EOF
	}
	return n, nil
}

func writeAt(h *handle, b []byte, off int64) {
	d := h.n.Data
	for int64(len(d)) < off {
		d = append(d, 0)
	}
	k := copy(d[off:], b)
	h.n.Data = append(d, b[k:]...)
}

func FileWrite(f *os.File, b []byte) (int, error) {
	if f == os.Stdout {
		sym.Printed(b)
		return len(b), nil
	}
	if f == os.Stderr {
		return len(b), nil
	}
	h, err := get(f)
	if err != nil {
		return 0, err
	}
	if h.flag&(os.O_WRONLY|os.O_RDWR) == 0 {
		return 0, perr("write", h.name, errors.New("bad file descriptor"))
	}
	if FailWrite != nil {
		if err := FailWrite(h.name); err != nil {
			return 0, perr("write", h.name, err)
		}
	}
	if h.n.Full && len(b) > 0 {
		return 0, perr("write", h.name, errNoSpace)
	}
	if h.flag&os.O_APPEND != 0 {
		h.off = int64(len(h.n.Data))
	}
	if k := int64(Limit) - h.off; Limit >= 0 && int64(len(b)) > k {
		if k < 0 {
			k = 0
		}
		if k > 0 {
			writeAt(h, b[:k], h.off)
		}
		h.off += k
		return int(k), perr("write", h.name, errTooLarge)
	}
	writeAt(h, b, h.off)
	h.off += int64(len(b))
	return len(b), nil
}

func FileWriteAt(f *os.File, b []byte, off int64) (int, error) {
	h, err := get(f)
	if err != nil {
		return 0, err
	}
	save := h.off
	h.off = off
	n, err := FileWrite(f, b)
	h.off = save
	return n, err
}

func FileWriteStr(f *os.File, s string) (int, error) { return FileWrite(f, []byte(s)) }

func FileSeek(f *os.File, off int64, whence int) (int64, error) {
	h, err := get(f)
	if err != nil {
		return 0, err
	}
	switch whence {
	case 1:
		off += h.off
	case 2:
		off += int64(len(h.n.Data))
	}
	if off < 0 {
		return 0, perr("seek", h.name, errors.New("invalid argument"))
	}
	h.off = off
	return off, nil
}

func FileClose(f *os.File) error {
	h, err := get(f)
	if err != nil {
		return err
	}
	h.closed = true
	return nil
}

func FileName(f *os.File) string {
	if h := handles[f]; h != nil {
		return h.name
	}
	return ""
}

func FileSync(f *os.File) error {
	_, err := get(f)
	return err
}

func FileFd(f *os.File) uintptr { fds++; return fds }

func FileTruncate(f *os.File, n int64) error {
	h, err := get(f)
	if err != nil {
		return err
	}
	trunc(h.n, n)
	return nil
}

func trunc(n *Node, k int64) {
	for int64(len(n.Data)) < k {
		n.Data = append(n.Data, 0)
	}
	n.Data = n.Data[:k]
}

func FileChmod(f *os.File, m os.FileMode) error {
	h, err := get(f)
	if err == nil {
		h.n.Mode = m
	}
	return err
}

type plainWriter struct{ f *os.File }

func (w plainWriter) Write(b []byte) (int, error) { return FileWrite(w.f, b) }

type plainReader struct{ f *os.File }

func (r plainReader) Read(b []byte) (int, error) { return FileRead(r.f, b) }

func FileReadFrom(f *os.File, r io.Reader) (int64, error) {
	if _, err := get(f); err != nil {
		return 0, err
	}
	return io.Copy(plainWriter{f}, r)
}

func FileWriteTo(f *os.File, w io.Writer) (int64, error) {
	if _, err := get(f); err != nil {
		return 0, err
	}
	return io.Copy(w, plainReader{f})
}

type info struct {
	name string
	n    *Node
	size int64
	mode os.FileMode
}

func infoOf(name string, n *Node) *info {
	i := &info{name, n, int64(len(n.Data)), n.Mode}
	if n.Dir {
		i.mode |= os.ModeDir
	}
	if n.Sym != "" {
		i.size, i.mode = int64(len(n.Sym)), os.ModeSymlink|0777
	}
	return i
}

func (i *info) Name() string       { return i.name }
func (i *info) Size() int64        { return i.size }
func (i *info) Mode() os.FileMode  { return i.mode }
func (i *info) ModTime() time.Time { return time.Time{} }
func (i *info) IsDir() bool        { return i.mode&os.ModeDir != 0 }
func (i *info) Sys() interface{}   { return nil }

func FileStat(f *os.File) (os.FileInfo, error) {
	h, err := get(f)
	if err != nil {
		return nil, err
	}
	return infoOf(h.name, h.n), nil
}

func OsStat(name string) (os.FileInfo, error) {
	n := node(clean(name))
	if n == nil {
		return nil, perr("stat", name, os.ErrNotExist)
	}
	return infoOf(name, n), nil
}

func OsLstat(name string) (os.FileInfo, error) {
	if n := tree[clean(name)]; n != nil {
		return infoOf(name, n), nil
	}
	return OsStat(name)
}

func OsSymlink(target, name string) error {
	p := clean(name)
	if tree[p] != nil || node(p) != nil {
		return perr("symlink", name, os.ErrExist)
	}
	if p == "" || !hasDir(p) {
		return perr("symlink", name, os.ErrNotExist)
	}
	tree[p] = &Node{Sym: target}
	return nil
}

func OsReadlink(name string) (string, error) {
	n := tree[clean(name)]
	if n == nil {
		return "", perr("readlink", name, os.ErrNotExist)
	}
	if n.Sym == "" {
		return "", perr("readlink", name, os.ErrInvalid)
	}
	return n.Sym, nil
}

func EvalSymlinks(name string) (string, error) {
	if node(clean(name)) == nil {
		return "", perr("lstat", name, os.ErrNotExist)
	}
	if n := tree[clean(name)]; n == nil || n.Sym == "" {
		return path.Clean(name), nil
	}
	return follow(clean(name)), nil
}

func OsSameFile(a, b os.FileInfo) bool {
	x, ok1 := a.(*info)
	y, ok2 := b.(*info)
	return ok1 && ok2 && x.n == y.n
}

func under(err error, targets ...error) bool {
	if pe, ok := err.(*os.PathError); ok {
		err = pe.Err
	}
	for _, t := range targets {
		if err == t {
			return true
		}
	}
	return false
}

func OsIsNotExist(err error) bool { return under(err, os.ErrNotExist) }
func OsIsExist(err error) bool    { return under(err, os.ErrExist) }
func OsIsPerm(err error) bool     { return under(err, os.ErrPermission) }

func inside(p, dir string) bool {
	return len(p) > len(dir) && p[:len(dir)] == dir && p[len(dir)] == '/'
}

func OsRemove(name string) error {
	p := clean(name)
	if tree[p] == nil {
		return perr("remove", name, os.ErrNotExist)
	}
	if tree[p].Dir {
		for n := range tree {
			if inside(n, p) {
				return perr("remove", name, errors.New("directory not empty"))
			}
		}
	}
	delete(tree, p)
	return nil
}

func OsRemoveAll(name string) error {
	p := clean(name)
	for n := range tree {
		if n == p || inside(n, p) {
			delete(tree, n)
		}
	}
	return nil
}

func OsRename(a, b string) error {
	p, q := clean(a), clean(b)
	n := tree[p]
	if n == nil || !hasDir(q) || q == "" {
		return perr("rename", a, os.ErrNotExist)
	}
	if p == q {
		return nil
	}
	if o := tree[q]; o != nil && o.Dir != n.Dir {
		return perr("rename", a, os.ErrExist)
	}
	if tree[q] == n {
		return nil
	}
	if n.Dir {
		for k, m := range tree {
			if inside(k, p) {
				delete(tree, k)
				tree[q+k[len(p):]] = m
			}
		}
	}
	tree[q] = n
	delete(tree, p)
	return nil
}

func OsLink(a, b string) error {
	n := tree[clean(a)]
	if n == nil || n.Dir || !hasDir(clean(b)) {
		return perr("link", a, os.ErrNotExist)
	}
	if node(clean(b)) != nil {
		return perr("link", a, os.ErrExist)
	}
	tree[clean(b)] = n
	return nil
}

func OsMkdir(name string, perm os.FileMode) error {
	p := clean(name)
	if node(p) != nil {
		return perr("mkdir", name, os.ErrExist)
	}
	if p == "" || !hasDir(p) {
		return perr("mkdir", name, os.ErrNotExist)
	}
	tree[p] = &Node{Dir: true, Mode: os.ModeDir | perm}
	return nil
}

func OsMkdirAll(name string, perm os.FileMode) error {
	p := clean(name)
	if n := node(p); n != nil {
		if n.Dir {
			return nil
		}
		return perr("mkdir", name, errors.New("not a directory"))
	}
	if d := path.Dir(p); d != p {
		if err := OsMkdirAll(d, perm); err != nil {
			return err
		}
	}
	return OsMkdir(name, perm)
}

func OsMkdirTemp(dir, pattern string) (string, error) {
	name := tempName(dir, pattern)
	return name, OsMkdir(name, 0700)
}

func OsTempDir() string                     { return "/tmp" }
func OsGetpid() int                         { return 4242 }
func OsGetppid() int                        { return 4241 }
func OsGetuid() int                         { return 0 }
func OsHostname() (string, error)           { return "host", nil }
func OsGetenv(key string) string            { return "" }
func OsLookupEnv(key string) (string, bool) { return "", false }

func OsTruncate(name string, size int64) error {
	n := node(clean(name))
	if n == nil {
		return perr("truncate", name, os.ErrNotExist)
	}
	trunc(n, size)
	return nil
}

func OsChmod(name string, m os.FileMode) error {
	n := node(clean(name))
	if n == nil {
		return perr("chmod", name, os.ErrNotExist)
	}
	n.Mode = m
	return nil
}

func OsExit(code int) { panic(sym.ExitCode{Code: code}) }

func tempName(dir, pattern string) string {
	tmpSeq++
	pre, post := pattern, ""
	for i := len(pattern) - 1; i >= 0; i-- {
		if pattern[i] == '*' {
			pre, post = pattern[:i], pattern[i+1:]
			break
		}
	}
	if dir == "" {
		dir = "/tmp"
	}
	name := dir + "/" + pre + string(rune('0'+tmpSeq)) + post
	if node(clean(name)) != nil {
		// names of files that are there are not taken
		return tempName(dir, pattern)
	}
	return name
}

func OsCreateTemp(dir, pattern string) (*os.File, error) {
	return OsOpenFile(tempName(dir, pattern), os.O_RDWR|os.O_CREATE|os.O_EXCL, 0600)
}

func TempFile(dir, pattern string) (*os.File, error) { return OsCreateTemp(dir, pattern) }

func OsReadFile(name string) ([]byte, error) {
	n := node(clean(name))
	if n == nil {
		return nil, perr("open", name, os.ErrNotExist)
	}
	if n.Dir {
		return nil, perr("read", name, errors.New("is a directory"))
	}
	return append([]byte{}, n.Data...), nil
}

func OsWriteFile(name string, data []byte, perm os.FileMode) error {
	f, err := OsOpenFile(name, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = FileWrite(f, data)
	if e := FileClose(f); e != nil && err == nil {
		err = e
	}
	return err
}

func OsGetwd() (string, error) { return "/work", nil }
