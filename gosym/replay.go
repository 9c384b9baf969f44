package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/printer"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"time"
)

// Native builds the harnesses with the real compiler against the real code.
type Native struct {
	repo, hdir, tmp string
	harnesses       []string // pkg.Func
	mu              sync.Mutex
	built           map[string]string
	berr            map[string]error
}

type variant struct {
	ideal, jitter, race bool
}

func (v variant) String() string {
	s := "plain"
	if v.ideal {
		s += "+idealmd5"
	}
	if v.jitter {
		s += "+jitter"
	}
	if v.race {
		s += "+race"
	}
	return s
}

func goTool() string {
	if p, err := exec.LookPath("go"); err == nil {
		return p
	}
	return "/usr/local/go/bin/go"
}

func (n *Native) build(pkg string, v variant) (string, error) {
	key := pkg + "|" + v.String()
	n.mu.Lock()
	defer n.mu.Unlock()
	if n.built == nil {
		n.built, n.berr = map[string]string{}, map[string]error{}
	}
	if b, ok := n.built[key]; ok {
		return b, n.berr[key]
	}
	b, err := n.doBuild(pkg, v, fmt.Sprintf("r%d", len(n.built)))
	n.built[key], n.berr[key] = b, err
	return b, err
}

func (n *Native) doBuild(pkg string, v variant, id string) (string, error) {
	dir := filepath.Join(n.tmp, id)
	os.MkdirAll(dir, 0755)
	ov := map[string]string{}
	for virt, real := range harnessOverlay(n.repo, n.hdir, n.harnesses) {
		ov[virt] = real
	}
	write := func(virt, text string) {
		p := filepath.Join(dir, strings.ReplaceAll(strings.TrimPrefix(virt, "/"), "/", "_"))
		os.WriteFile(p, []byte(text), 0644)
		ov[virt] = p
	}
	var entries bytes.Buffer
	inMain := pkg == "@cmd/gosync"
	for _, h := range n.harnesses {
		i := strings.LastIndex(h, ".")
		if h[:i] != pkg {
			continue
		}
		if inMain {
			fmt.Fprintf(&entries, "\t\t%q: %s,\n", h, h[i+1:])
		} else {
			fmt.Fprintf(&entries, "\t\t%q: h.%s,\n", h, h[i+1:])
		}
	}
	target := "./zzverif/run"
	if inMain {
		target = "./cmd/gosync"
		write(filepath.Join(n.repo, "cmd/gosync/zz_verif_zrun.go"), fmt.Sprintf(`package main

import (
	zzos "os"

	zzsym "%ssym"
)

func init() {
	if zzos.Getenv("ZZ_JOB") == "" {
		return
	}
	zzsym.SetExit(func(c int) { zzos.ZZExit = nil; zzos.Exit(c) })
	zzsym.OnExit = func(f func(int)) { zzos.ZZExit = f }
	zzsym.Main(map[string]func(){
%s	})
}
`, zz, entries.String()))
		out, err := exec.Command(goTool(), "env", "GOROOT").Output()
		if err != nil {
			return "", err
		}
		proc := filepath.Join(strings.TrimSpace(string(out)), "src/os/proc.go")
		b, err := os.ReadFile(proc)
		if err != nil {
			return "", err
		}
		text := strings.Replace(string(b), "func Exit(code int) {", "var ZZExit func(int)\n\nfunc Exit(code int) {\n\tif ZZExit != nil {\n\t\tZZExit(code)\n\t}\n", 1)
		write(proc, text)
	} else {
		ip := zz + pkg
		if strings.HasPrefix(pkg, "@") {
			ip = harnessPkg(pkg)
		}
		write(filepath.Join(n.repo, "zzverif/run/main.go"), fmt.Sprintf(`package main

import (
	h %q

	"%ssym"
)

func main() {
	sym.Main(map[string]func(){
%s	})
}
`, ip, zz, entries.String()))
	}
	if v.ideal {
		out, err := exec.Command(goTool(), "env", "GOROOT").Output()
		if err != nil {
			return "", err
		}
		root := filepath.Join(strings.TrimSpace(string(out)), "src/crypto/md5")
		es, _ := os.ReadDir(root)
		for _, e := range es {
			nm := e.Name()
			if strings.HasSuffix(nm, "_test.go") {
				continue
			}
			switch {
			case nm == "md5.go":
				b, err := os.ReadFile(filepath.Join(n.hdir, "std/md5.go"))
				if err != nil {
					return "", err
				}
				write(filepath.Join(root, nm), string(b))
			case strings.HasSuffix(nm, ".go") && strings.HasPrefix(nm, "md5block"), strings.HasSuffix(nm, ".s"):
				ov[filepath.Join(root, nm)] = ""
			}
		}
	}
	if v.jitter {
		if err := n.instrument(write); err != nil {
			return "", err
		}
	}
	js, _ := json.Marshal(map[string]interface{}{"Replace": ov})
	ovf := filepath.Join(dir, "overlay.json")
	os.WriteFile(ovf, js, 0644)
	bin := filepath.Join(dir, "run.bin")
	args := []string{"build", "-overlay", ovf, "-o", bin}
	if v.race {
		args = append(args, "-race")
	}
	args = append(args, target)
	cmd := exec.Command(goTool(), args...)
	cmd.Dir = n.repo
	cmd.Env = goEnv()
	if v.race {
		cmd.Env = append(cmd.Env, "CGO_ENABLED=1")
	}
	out, err := cmd.CombinedOutput()
	if err != nil {
		return "", fmt.Errorf("native build (%s, %s): %v\n%s", pkg, v, err, out)
	}
	return bin, nil
}

// instrument adds random delays between the statements of the repository's
// packages, so that a schedule found by the solver has a chance to show up.
func (n *Native) instrument(write func(virt, text string)) error {
	return filepath.Walk(n.repo, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		if fi.IsDir() {
			if b := fi.Name(); b == ".git" || b == "zzverif" || b == "testdata" || b == "util" || b == "vendor" {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, p, nil, 0)
		if err != nil {
			return nil
		}
		k := 0
		call := func() ast.Stmt {
			k++
			return &ast.ExprStmt{X: &ast.CallExpr{Fun: &ast.SelectorExpr{X: ast.NewIdent("zzjit"), Sel: ast.NewIdent("Jitter")}}}
		}
		weave := func(l []ast.Stmt) []ast.Stmt {
			var out []ast.Stmt
			for _, s := range l {
				out = append(out, call(), s)
			}
			return out
		}
		ast.Inspect(f, func(nd ast.Node) bool {
			switch b := nd.(type) {
			case *ast.BlockStmt:
				for _, s := range b.List {
					switch s.(type) {
					case *ast.CaseClause, *ast.CommClause:
						return true
					}
				}
				b.List = weave(b.List)
			case *ast.CaseClause:
				b.Body = weave(b.Body)
			case *ast.CommClause:
				b.Body = weave(b.Body)
			}
			return true
		})
		if k == 0 {
			return nil
		}
		imp := &ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{&ast.ImportSpec{Name: ast.NewIdent("zzjit"), Path: &ast.BasicLit{Kind: token.STRING, Value: `"` + zz + `sym"`}}}}
		f.Decls = append([]ast.Decl{imp}, f.Decls...)
		var buf bytes.Buffer
		if err := (&printer.Config{Mode: printer.TabIndent, Tabwidth: 8}).Fprint(&buf, fset, f); err != nil {
			return nil
		}
		write(p, buf.String())
		return nil
	})
}

type jobT struct {
	Harness  string            `json:"harness"`
	Inputs   map[string]uint64 `json:"inputs"`
	Thorough bool              `json:"thorough"`
	Jitter   bool              `json:"jitter"`
	Seed     int64             `json:"seed"`
}

type outcome struct {
	fail   string // "" if the run was fine
	assume bool
	obs    []string
	reach  []string
	out    string
}

func (n *Native) exec(bin string, j jobT, timeout time.Duration, race bool) outcome {
	js, _ := json.Marshal(j)
	jf, err := os.CreateTemp(n.tmp, "job")
	if err != nil {
		return outcome{out: err.Error()}
	}
	jf.Write(js)
	jf.Close()
	defer os.Remove(jf.Name())
	wd, err := os.MkdirTemp(n.tmp, "wd")
	if err != nil {
		return outcome{out: err.Error()}
	}
	defer os.RemoveAll(wd)
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	sh := "ulimit -v 12000000; ulimit -f 200000; exec " + bin
	if race {
		sh = "ulimit -f 200000; exec " + bin
	}
	cmd := exec.CommandContext(ctx, "/bin/bash", "-c", sh)
	cmd.Dir = wd
	cmd.Env = append(os.Environ(), "ZZ_JOB="+jf.Name(), "GORACE=halt_on_error=1", "GOTRACEBACK=single", "TMPDIR="+wd)
	var buf limBuf
	cmd.Stdout, cmd.Stderr = &buf, &buf
	err = cmd.Run()
	o := outcome{out: buf.String()}
	done := false
	for _, l := range strings.Split(o.out, "\n") {
		switch {
		case strings.HasPrefix(l, "ZZ-FAIL "):
			o.fail = "assertion failed: " + strings.TrimPrefix(l, "ZZ-FAIL ")
		case strings.HasPrefix(l, "ZZ-ASSUME"):
			o.assume = true
			done = true
		case strings.HasPrefix(l, "ZZ-DONE"):
			done = true
		case strings.HasPrefix(l, "ZZ-OBS "):
			o.obs = append(o.obs, strings.TrimPrefix(l, "ZZ-OBS "))
		case strings.HasPrefix(l, "ZZ-REACH "):
			o.reach = append(o.reach, strings.TrimPrefix(l, "ZZ-REACH "))
		case strings.HasPrefix(l, "WARNING: DATA RACE"):
			o.fail = "data race reported by the race detector"
		case strings.HasPrefix(l, "panic:") || strings.HasPrefix(l, "fatal error:") || strings.HasPrefix(l, "runtime: goroutine stack exceeds"):
			if o.fail == "" {
				o.fail = l
			}
		case strings.HasPrefix(l, "ZZ-BAD"):
			return outcome{out: o.out}
		}
	}
	if o.fail == "" && !done {
		if ctx.Err() != nil {
			o.fail = fmt.Sprintf("did not finish within %v", timeout)
		} else if err != nil {
			o.fail = "process ended abnormally: " + err.Error()
		}
	}
	return o
}

type limBuf struct {
	bytes.Buffer
	mu sync.Mutex
}

func (b *limBuf) Write(p []byte) (int, error) {
	b.mu.Lock()
	defer b.mu.Unlock()
	if b.Len() < 1<<20 {
		b.Buffer.Write(p)
	}
	return len(p), nil
}

// confirm replays a violation against the real code.
func (n *Native) confirm(v *Violation, budget time.Duration) (how string, err error) {
	pkg := v.Harness[:strings.LastIndex(v.Harness, ".")]
	j := jobT{Harness: v.Harness, Inputs: v.Inputs, Thorough: v.Thorough}
	hang := v.Kind == "deadlock" || v.Kind == "steps"
	to := 20 * time.Second
	if hang {
		to = 6 * time.Second
	}
	race := strings.HasPrefix(v.Msg, "data race")
	t0 := time.Now()
	accept := func(o outcome) bool {
		if o.fail == "" {
			return false
		}
		if race {
			return strings.Contains(o.fail, "race")
		}
		if strings.HasPrefix(o.fail, "did not finish") {
			return hang
		}
		return true
	}
	if !race {
		for _, vr := range []variant{{}, {ideal: true}} {
			bin, e := n.build(pkg, vr)
			if e != nil {
				return "", e
			}
			o := n.exec(bin, j, to, false)
			if accept(o) {
				return fmt.Sprintf("native replay (%s): %s", vr, o.fail), nil
			}
		}
	}
	if v.Choices == 0 && !race {
		return "", nil
	}
	vr := variant{ideal: true, jitter: true, race: race}
	bin, e := n.build(pkg, vr)
	if e != nil {
		return "", e
	}
	var mu sync.Mutex
	tries := 0
	found := ""
	var wg sync.WaitGroup
	for w := 0; w < 8; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			for {
				mu.Lock()
				if found != "" || time.Since(t0) > budget || tries >= 4000 {
					mu.Unlock()
					return
				}
				tries++
				jj := j
				jj.Seed = int64(tries)
				jj.Jitter = tries%4 != 0
				mu.Unlock()
				o := n.exec(bin, jj, 3*time.Second+to/4, race)
				if accept(o) {
					mu.Lock()
					if found == "" {
						found = fmt.Sprintf("native replay (%s, try %d): %s", vr, jj.Seed, o.fail)
					}
					mu.Unlock()
				}
			}
		}(w)
	}
	wg.Wait()
	return found, nil
}
