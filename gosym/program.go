package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const plusTok = token.ADD
const repoPath = "github.com/Redundancy/go-sync"

type Program struct {
	initMu    sync.Mutex
	initSets  map[*ssa.Package][]*ssa.Global
	prog      *ssa.Program
	fset      *token.FileSet
	pkgs      []*packages.Package
	fns       fnTable
	redirects map[string]*ssa.Function
	pkgPaths  map[string]*ssa.Package

	rtErrType    types.Type
	fmtErrorType types.Type
	errIface     *types.Interface
	sym          *ssa.Package

	mu      sync.Mutex
	implC   map[[2]interface{}]bool
	methC   map[methKey]*ssa.Function
	methsC  map[types.Type][]*ssa.Function
	isErrC  map[types.Type]bool
	funcsOf map[string]bool
}

type methKey struct {
	t types.Type
	m string
	p *types.Package
}

// excluded harness files do not fit the code under test any more.
var excluded = map[string]bool{}

// misfits returns the harness files behind the errors of a failed load, nil
// if other files have errors too.
func misfits(repo, hdir string, harnesses []string, err error) []string {
	le, ok := err.(*loadError)
	if !ok {
		return nil
	}
	ov := harnessOverlay(repo, hdir, harnesses)
	var l []string
	seen := map[string]bool{}
	for _, f := range le.files {
		real, ok := ov[f]
		if !ok {
			return nil
		}
		rel, _ := filepath.Rel(hdir, real)
		if strings.HasPrefix(rel, "sym/") || strings.HasPrefix(rel, "stub/") {
			return nil
		}
		if !seen[rel] {
			seen[rel] = true
			l = append(l, rel)
		}
	}
	return l
}

// remaining returns the harnesses that are still defined, and the others.
func remaining(repo, hdir string, harnesses []string) (ok, gone []string) {
	ov := harnessOverlay(repo, hdir, harnesses)
	for _, h := range harnesses {
		i := strings.LastIndex(h, ".")
		dir := filepath.Join(repo, "zzverif", h[:i])
		if h[0] == '@' {
			dir = filepath.Join(repo, h[1:i])
		}
		found := false
		for virt, real := range ov {
			if filepath.Dir(virt) == dir {
				b, _ := os.ReadFile(real)
				found = found || strings.Contains(string(b), "\nfunc "+h[i+1:]+"(")
			}
		}
		if found {
			ok = append(ok, h)
		} else {
			gone = append(gone, h)
		}
	}
	return
}

type loadError struct {
	files []string
	msgs  []string
}

func (e *loadError) Error() string { return strings.Join(e.msgs, "\n") }

// harnessOverlay maps virtual files inside /repo to harness sources. Only the
// packages of the named harnesses are included, and sym and stub.
func harnessOverlay(repo, hdir string, harnesses []string) map[string]string {
	ov := map[string]string{}
	want := map[string]bool{"sym": true, "stub": true, "env": true, "fail": true, "big": true}
	for _, h := range harnesses {
		want[h[:strings.LastIndex(h, ".")]] = true
	}
	filepath.Walk(hdir, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return nil
		}
		rel, _ := filepath.Rel(hdir, p)
		if excluded[rel] {
			return nil
		}
		if strings.HasPrefix(rel, "overlay/") {
			// overlay/<repo dir>/<file>: goes straight into a repository package
			if !want["@"+filepath.Dir(strings.TrimPrefix(rel, "overlay/"))] {
				return nil
			}
			ov[filepath.Join(repo, strings.TrimPrefix(rel, "overlay/"))] = p
			return nil
		}
		if strings.HasPrefix(rel, "std/") {
			return nil
		}
		if !want[filepath.Dir(rel)] {
			return nil
		}
		ov[filepath.Join(repo, "zzverif", rel)] = p
		return nil
	})
	return ov
}

func goEnv() []string {
	var env []string
	for _, e := range os.Environ() {
		if strings.HasPrefix(e, "GOFLAGS=") || strings.HasPrefix(e, "GOPROXY=") || strings.HasPrefix(e, "GOTOOLCHAIN=") {
			continue
		}
		env = append(env, e)
	}
	return append(env, "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off", "GONOSUMDB=*", "GONOSUMCHECK=1")
}

func load(repo, hdir string, patterns, harnesses []string) (*Program, error) {
	overlay := map[string][]byte{}
	for v, real := range harnessOverlay(repo, hdir, harnesses) {
		b, err := os.ReadFile(real)
		if err != nil {
			return nil, err
		}
		overlay[v] = b
	}
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: repo, Env: goEnv(), Overlay: overlay}
	pats := append([]string{zz + "sym", zz + "stub"}, patterns...)
	pkgs, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, err
	}
	le := &loadError{}
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			le.msgs = append(le.msgs, e.Error())
			f := e.Pos
			if i := strings.Index(f, ":"); i >= 0 {
				f = f[:i]
			}
			le.files = append(le.files, f)
		}
	})
	if len(le.msgs) > 0 {
		return nil, le
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	p := &Program{prog: prog, fset: prog.Fset, pkgs: pkgs, redirects: map[string]*ssa.Function{},
		pkgPaths: map[string]*ssa.Package{}, implC: map[[2]interface{}]bool{}, methC: map[methKey]*ssa.Function{},
		methsC: map[types.Type][]*ssa.Function{}, isErrC: map[types.Type]bool{}}
	p.fns.m = map[*ssa.Function]*fnInfo{}
	for _, sp := range prog.AllPackages() {
		p.pkgPaths[sp.Pkg.Path()] = sp
	}
	p.sym = p.pkgPaths[zz+"sym"]
	p.rtErrType = p.sym.Type("RuntimeError").Type()
	p.fmtErrorType = p.sym.Type("FmtError").Type()
	p.errIface = types.Universe.Lookup("error").Type().Underlying().(*types.Interface)
	// redirections: stub.Redirects is documented in the stub package; every
	// exported function F__G replaces a standard library function
	st := p.pkgPaths[zz+"stub"]
	for name, m := range st.Members {
		f, ok := m.(*ssa.Function)
		if !ok {
			continue
		}
		if target, ok := stubTargets[name]; ok {
			p.redirects[target] = f
		}
	}
	for n := range stubTargets {
		if st.Func(n) == nil {
			return nil, fmt.Errorf("stub %s is missing", n)
		}
	}
	return p, nil
}

// stub function -> the standard library function it stands for
var stubTargets = map[string]string{
	"Md5New":              "crypto/md5.New",
	"Md5Sum":              "crypto/md5.Sum",
	"ClientDo":            "(*net/http.Client).Do",
	"NewRequest":          "net/http.NewRequest",
	"NewRequestCtx":       "net/http.NewRequestWithContext",
	"ErrorsIs":            "errors.Is",
	"ClientGet":           "(*net/http.Client).Get",
	"OsGetwd":             "os.Getwd",
	"OsChmod":             "os.Chmod",
	"FileFd":              "(*os.File).Fd",
	"OsOpen":              "os.Open",
	"OsCreate":            "os.Create",
	"OsOpenFile":          "os.OpenFile",
	"OsStat":              "os.Stat",
	"OsLstat":             "os.Lstat",
	"OsSameFile":          "os.SameFile",
	"OsIsNotExist":        "os.IsNotExist",
	"OsIsExist":           "os.IsExist",
	"OsIsPerm":            "os.IsPermission",
	"OsRemove":            "os.Remove",
	"OsRename":            "os.Rename",
	"OsTruncate":          "os.Truncate",
	"OsExit":              "os.Exit",
	"OsCreateTemp":        "os.CreateTemp",
	"OsReadFile":          "os.ReadFile",
	"OsWriteFile":         "os.WriteFile",
	"TempFile":            "io/ioutil.TempFile",
	"OsRemoveAll":         "os.RemoveAll",
	"ErrorsAs":            "errors.As",
	"NewTimer":            "time.NewTimer",
	"AfterFunc":           "time.AfterFunc",
	"After":               "time.After",
	"NewTicker":           "time.NewTicker",
	"Tick":                "time.Tick",
	"TimerStop":           "(*time.Timer).Stop",
	"TimerReset":          "(*time.Timer).Reset",
	"TickerStop":          "(*time.Ticker).Stop",
	"TickerReset":         "(*time.Ticker).Reset",
	"CondWait":            "(*sync.Cond).Wait",
	"CondSignal":          "(*sync.Cond).Signal",
	"CondBroadcast":       "(*sync.Cond).Broadcast",
	"MapLoad":             "(*sync.Map).Load",
	"MapStore":            "(*sync.Map).Store",
	"MapClear":            "(*sync.Map).Clear",
	"MapLoadOrStore":      "(*sync.Map).LoadOrStore",
	"MapLoadAndDelete":    "(*sync.Map).LoadAndDelete",
	"MapDelete":           "(*sync.Map).Delete",
	"MapSwap":             "(*sync.Map).Swap",
	"MapCompareAndSwap":   "(*sync.Map).CompareAndSwap",
	"MapCompareAndDelete": "(*sync.Map).CompareAndDelete",
	"MapRange":            "(*sync.Map).Range",
	"OsLink":              "os.Link",
	"OsSymlink":           "os.Symlink",
	"OsReadlink":          "os.Readlink",
	"EvalSymlinks":        "path/filepath.EvalSymlinks",
	"OsMkdir":             "os.Mkdir",
	"OsMkdirAll":          "os.MkdirAll",
	"OsMkdirTemp":         "os.MkdirTemp",
	"OsTempDir":           "os.TempDir",
	"OsGetpid":            "os.Getpid",
	"OsGetppid":           "os.Getppid",
	"OsGetuid":            "os.Getuid",
	"OsHostname":          "os.Hostname",
	"OsGetenv":            "os.Getenv",
	"OsLookupEnv":         "os.LookupEnv",
	"FileRead":            "(*os.File).Read",
	"FileReadAt":          "(*os.File).ReadAt",
	"FileWrite":           "(*os.File).Write",
	"FileWriteStr":        "(*os.File).WriteString",
	"FileWriteAt":         "(*os.File).WriteAt",
	"FileSeek":            "(*os.File).Seek",
	"FileClose":           "(*os.File).Close",
	"FileName":            "(*os.File).Name",
	"FileStat":            "(*os.File).Stat",
	"FileSync":            "(*os.File).Sync",
	"FileTruncate":        "(*os.File).Truncate",
	"FileChmod":           "(*os.File).Chmod",
	"FileReadFrom":        "(*os.File).ReadFrom",
	"FileWriteTo":         "(*os.File).WriteTo",
}

func (p *Program) pkgByPath(s string) *ssa.Package { return p.pkgPaths[s] }

func (p *Program) symFunc(name string) *ssa.Function { return p.sym.Func(name) }

func (p *Program) isRepoFn(fn *ssa.Function) bool {
	if fn.Pkg == nil {
		if o := fn.Origin(); o != nil && o != fn {
			return p.isRepoFn(o)
		}
		if pr := fn.Parent(); pr != nil {
			return p.isRepoFn(pr)
		}
		if fn.Object() != nil && fn.Object().Pkg() != nil {
			return inRepoPath(fn.Object().Pkg().Path())
		}
		return false
	}
	if !inRepoPath(fn.Pkg.Pkg.Path()) {
		return false
	}
	pos := p.fset.Position(fn.Pos())
	return !strings.Contains(filepath.Base(pos.Filename), "zz_verif")
}

func inRepoPath(s string) bool {
	return strings.HasPrefix(s, repoPath) && !strings.HasPrefix(s, repoPath+"/zzverif")
}

func (p *Program) skipInit(sp *ssa.Package) bool {
	path := sp.Pkg.Path()
	if skipInitPkgs[path] {
		return true
	}
	if strings.HasPrefix(path, "internal/") && path != "internal/oserror" && path != "internal/bisect" && path != "internal/itoa" && path != "internal/strconv" {
		return true
	}
	return strings.HasSuffix(path, "/zzverif/sym") || strings.HasPrefix(path, "vendor/") || strings.HasPrefix(path, "crypto/internal") || strings.HasPrefix(path, "runtime/") || strings.HasPrefix(path, "net/http/")
}

// initialised lists the variables that the initialisers of a package assign.
func (p *Program) initialised(sp *ssa.Package) []*ssa.Global {
	p.initMu.Lock()
	defer p.initMu.Unlock()
	if l, ok := p.initSets[sp]; ok {
		return l
	}
	var l []*ssa.Global
	seen := map[ssa.Value]bool{}
	for name, m := range sp.Members {
		f, ok := m.(*ssa.Function)
		if !ok || name != "init" && !strings.HasPrefix(name, "init#") {
			continue
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				st, ok := i.(*ssa.Store)
				if !ok {
					continue
				}
				a := st.Addr
				for {
					if fa, ok := a.(*ssa.FieldAddr); ok {
						a = fa.X
					} else if ia, ok := a.(*ssa.IndexAddr); ok {
						a = ia.X
					} else {
						break
					}
				}
				if g, ok := a.(*ssa.Global); ok && g.Pkg == sp && !seen[g] && g.Name() != "init$guard" {
					seen[g] = true
					l = append(l, g)
				}
			}
		}
	}
	if p.initSets == nil {
		p.initSets = map[*ssa.Package][]*ssa.Global{}
	}
	p.initSets[sp] = l
	return l
}

func (p *Program) mkRuntimeError(x *Exec, msg string) Iface {
	st := &Struct{f: make([]Cell, 1)}
	st.f[0].v = msg
	return Iface{t: p.rtErrType, v: st}
}

func (p *Program) lookupMethod(t types.Type, m *types.Func) *ssa.Function {
	k := methKey{t, m.Name(), m.Pkg()}
	p.mu.Lock()
	defer p.mu.Unlock()
	if f, ok := p.methC[k]; ok {
		return f
	}
	f := p.prog.LookupMethod(t, m.Pkg(), m.Name())
	p.methC[k] = f
	return f
}

func (p *Program) methods(t types.Type) []*ssa.Function {
	p.mu.Lock()
	defer p.mu.Unlock()
	if r, ok := p.methsC[t]; ok {
		return r
	}
	ms := p.prog.MethodSets.MethodSet(t)
	var r []*ssa.Function
	for i := 0; i < ms.Len(); i++ {
		if f := p.prog.MethodValue(ms.At(i)); f != nil {
			r = append(r, f)
		}
	}
	p.methsC[t] = r
	return r
}

func (p *Program) implements(t types.Type, it *types.Interface) bool {
	k := [2]interface{}{t, it}
	p.mu.Lock()
	defer p.mu.Unlock()
	if r, ok := p.implC[k]; ok {
		return r
	}
	r := types.Implements(t, it)
	p.implC[k] = r
	return r
}

func (p *Program) isError(t types.Type) bool { return p.implements(t, p.errIface) }
