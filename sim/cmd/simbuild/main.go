// simbuild makes the simulation binary from the working tree of the
// repository: N renamed copies of the code under test (one per simulated
// process), instrumented with preemption points, plus the simulated kernel and
// the plan interpreter, compiled against a patched standard library overlay.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"io/fs"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
)

func die(format string, a ...any) {
	fmt.Fprintf(os.Stderr, "simbuild: "+format+"\n", a...)
	os.Exit(3)
}

func writeIfChanged(path string, b []byte) error {
	if old, err := os.ReadFile(path); err == nil && bytes.Equal(old, b) {
		return nil
	}
	if err := os.MkdirAll(filepath.Dir(path), 0o755); err != nil {
		return err
	}
	return os.WriteFile(path, b, 0o644)
}

const importRoot = "github.com/onsi/ginkgo/v2"

// edit is a textual edit at a byte offset.
type edit struct {
	off, end int
	text     string
}

func applyEdits(src []byte, edits []edit) []byte {
	sort.SliceStable(edits, func(i, j int) bool { return edits[i].off < edits[j].off })
	var out bytes.Buffer
	pos := 0
	for _, e := range edits {
		out.Write(src[pos:e.off])
		out.WriteString(e.text)
		pos = e.end
	}
	out.Write(src[pos:])
	return out.Bytes()
}

// rewrite renames imports for copy `name` and, if yields is set, puts a
// SimYield before every statement.  Line numbers are preserved.
func rewrite(path string, src []byte, name string, yields, cliMain bool) ([]byte, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, path, src, parser.ParseComments)
	if err != nil {
		return nil, err
	}
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	var edits []edit
	for _, im := range f.Imports {
		p, _ := strconv.Unquote(im.Path.Value)
		np := ""
		switch {
		case p == importRoot || strings.HasPrefix(p, importRoot+"/"):
			np = "sim/" + name + "/ginkgo/v2" + strings.TrimPrefix(p, importRoot)
		case p == "flag":
			np = "sim/" + name + "/flag"
		case p == "go.uber.org/automaxprocs":
			np = "unsafe"
		}
		if np != "" {
			edits = append(edits, edit{off(im.Path.Pos()), off(im.Path.End()), strconv.Quote(np)})
		}
	}
	if cliMain && f.Name.Name == "main" {
		edits = append(edits, edit{off(f.Name.Pos()), off(f.Name.End()), "ginkgocli"})
		for _, d := range f.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Name.Name == "main" && fd.Recv == nil {
				edits = append(edits, edit{off(fd.Name.Pos()), off(fd.Name.End()), "Main"})
			}
		}
	}
	n := 0
	if yields {
		list := func(l []ast.Stmt) {
			for _, s := range l {
				if _, ok := s.(*ast.EmptyStmt); ok {
					continue
				}
				edits = append(edits, edit{off(s.Pos()), off(s.Pos()), "simrt.SimYield();"})
				n++
			}
		}
		ast.Inspect(f, func(x ast.Node) bool {
			switch b := x.(type) {
			case *ast.BlockStmt:
				// the body of a switch or select holds clauses, not statements
				for _, s := range b.List {
					switch s.(type) {
					case *ast.CaseClause, *ast.CommClause:
						return true
					}
				}
				list(b.List)
			case *ast.CaseClause:
				list(b.Body)
			case *ast.CommClause:
				list(b.Body)
			}
			return true
		})
	}
	if n > 0 {
		edits = append(edits, edit{off(f.Name.End()), off(f.Name.End()), `;import simrt "runtime"`})
	}
	return applyEdits(src, edits), nil
}

var skipDirs = map[string]bool{"integration": true, "docs": true, "test_helpers": true, "_fixtures": true, ".git": true, ".github": true, "testdata": true, "performance": true, "dsl": true, "extensions": true}

var noYield = []string{"types", "formatter"}

func copyRepo(repo, dst, name string, cli bool) error {
	keep := map[string]bool{}
	err := filepath.WalkDir(repo, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(repo, p)
		if d.IsDir() {
			if rel != "." && (skipDirs[d.Name()] || strings.HasPrefix(d.Name(), ".")) {
				return filepath.SkipDir
			}
			if rel == "ginkgo" && !cli {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(rel, ".go") || strings.HasSuffix(rel, "_test.go") {
			// embedded files
			return nil
		}
		src, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		y := true
		for _, ny := range noYield {
			if strings.HasPrefix(rel, ny+"/") {
				y = false
			}
		}
		out, err := rewrite(p, src, name, y, filepath.Dir(rel) == "ginkgo")
		if err != nil {
			return err
		}
		dp := filepath.Join(dst, rel)
		keep[dp] = true
		return writeIfChanged(dp, out)
	})
	if err != nil {
		return err
	}
	return prune(dst, keep)
}

func prune(dst string, keep map[string]bool) error {
	return filepath.WalkDir(dst, func(p string, d fs.DirEntry, err error) error {
		if err == nil && !d.IsDir() && !keep[p] {
			return os.Remove(p)
		}
		return nil
	})
}

func main() {
	repo := flag.String("repo", "/repo", "repository")
	simDir := flag.String("sim", "/verif/sim", "simulator sources")
	out := flag.String("out", "", "build directory")
	goroot := flag.String("goroot", runtime.GOROOT(), "GOROOT")
	copies := flag.Int("copies", 5, "number of test process copies")
	flag.Parse()
	if *out == "" {
		die("need -out")
	}
	ov, err := buildStdOverlay(*goroot, filepath.Join(*simDir, "std"), filepath.Join(*out, "std"))
	if err != nil {
		die("%v", err)
	}
	js, _ := json.Marshal(map[string]any{"Replace": ov})
	if err := writeIfChanged(filepath.Join(*out, "overlay.json"), js); err != nil {
		die("%v", err)
	}
	mod := filepath.Join(*out, "mod")
	gomod, err := os.ReadFile(filepath.Join(*repo, "go.mod"))
	if err != nil {
		die("%v", err)
	}
	gomod = bytes.Replace(gomod, []byte("module "+importRoot), []byte("module sim"), 1)
	gosum, _ := os.ReadFile(filepath.Join(*repo, "go.sum"))
	writeIfChanged(filepath.Join(mod, "go.mod"), gomod)
	writeIfChanged(filepath.Join(mod, "go.sum"), gosum)
	flagSrc, err := os.ReadFile(filepath.Join(*goroot, "src/flag/flag.go"))
	if err != nil {
		die("%v", err)
	}
	names := []string{"c"}
	for i := 1; i <= *copies; i++ {
		names = append(names, fmt.Sprintf("p%d", i))
	}
	var wg sync.WaitGroup
	errs := make(chan error, len(names))
	interp, _ := filepath.Glob(filepath.Join(*simDir, "interp", "*.go"))
	for _, n := range names {
		wg.Add(1)
		go func() {
			defer wg.Done()
			if err := copyRepo(*repo, filepath.Join(mod, n, "ginkgo", "v2"), n, n == "c"); err != nil {
				errs <- err
				return
			}
			writeIfChanged(filepath.Join(mod, n, "flag", "flag.go"), flagSrc)
			if n == "c" {
				return
			}
			for _, f := range interp {
				b, err := os.ReadFile(f)
				if err != nil {
					errs <- err
					return
				}
				b, err = rewrite(f, b, n, false, false)
				if err != nil {
					errs <- err
					return
				}
				writeIfChanged(filepath.Join(mod, n, "suite", filepath.Base(f)), b)
			}
		}()
	}
	wg.Wait()
	close(errs)
	for err := range errs {
		die("%v", err)
	}
	// shared packages and main
	keep := map[string]bool{}
	for _, sub := range []string{"simos", "plan"} {
		fs, _ := filepath.Glob(filepath.Join(*simDir, sub, "*.go"))
		for _, f := range fs {
			if strings.HasSuffix(f, "_test.go") {
				continue
			}
			b, err := os.ReadFile(f)
			if err != nil {
				die("%v", err)
			}
			dp := filepath.Join(mod, sub, filepath.Base(f))
			keep[dp] = true
			writeIfChanged(dp, b)
		}
	}
	fs, _ := filepath.Glob(filepath.Join(*simDir, "child", "*.go"))
	for _, f := range fs {
		b, _ := os.ReadFile(f)
		writeIfChanged(filepath.Join(mod, filepath.Base(f)), b)
	}
	var reg bytes.Buffer
	fmt.Fprintf(&reg, "package main\n\nimport (\n\t\"sim/plan\"\n\tcflag \"sim/c/flag\"\n\tcli \"sim/c/ginkgo/v2/ginkgo\"\n")
	for _, n := range names[1:] {
		fmt.Fprintf(&reg, "\t%s \"sim/%s/suite\"\n", n, n)
	}
	fmt.Fprintf(&reg, ")\n\nvar _ = cflag.Parse\n\nfunc cliMain() { cli.Main() }\n\nvar copies = []func(*plan.ProcEnv) int{\n")
	for _, n := range names[1:] {
		fmt.Fprintf(&reg, "\t%s.Main,\n", n)
	}
	fmt.Fprintf(&reg, "}\n")
	writeIfChanged(filepath.Join(mod, "zz_copies.go"), reg.Bytes())

	bin := filepath.Join(*out, "simchild")
	cmd := exec.Command(filepath.Join(*goroot, "bin", "go"), "build", "-trimpath", "-overlay", filepath.Join(*out, "overlay.json"), "-ldflags=-s -w", "-o", bin, ".")
	cmd.Dir = mod
	cmd.Env = append(os.Environ(), "CGO_ENABLED=0", "GOFLAGS=-mod=mod", "GOTOOLCHAIN=local", "GOPROXY=off", "GOENV=off", "GOWORK=off", "GOROOT="+*goroot, "GOEXPERIMENT=")
	b, err := cmd.CombinedOutput()
	if err != nil {
		die("build: %v\n%s", err, b)
	}
}
