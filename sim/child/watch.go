package main

import (
	"fmt"
	"go/build"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"time"

	"sim/plan"
	"sim/simos"
)

// The watched source tree of `ginkgo watch`: a GOPATH in the scratch directory
// whose files are edited while the command runs.

const wallBase = 1900000001e9

var (
	broken = map[int]bool{} // what the sources of a suite say
	red    = map[int]bool{}
	torn   = map[int]bool{}
	staged int
)

func src(path string) string { return filepath.Join(topDir, "src", path) }

func watchSetup() {
	os.Setenv("GO111MODULE", "off")
	build.Default.GOPATH = topDir
	for _, f := range pl.Watch.Files {
		os.MkdirAll(filepath.Dir(src(f.Path)), 0o700)
		writeFile(f, src(f.Path), wallBase)
	}
}

func content(f plan.File) string {
	if !strings.HasSuffix(f.Path, ".go") {
		return "data " + f.Mark + strings.Repeat("x", f.Pad)
	}
	dir := filepath.Base(filepath.Dir(f.Path))
	s := "package " + dir + "\n\n"
	if f.Mark == "syntax" {
		return s + "import (\n" + strings.Repeat("x", f.Pad)
	}
	for _, i := range f.Imports {
		s += "import _ \"" + i + "\"\n"
	}
	return s + "\n// mark " + f.Mark + ".\n//" + strings.Repeat("x", f.Pad) + "\n"
}

// writeFile puts a file in place in one step.
func writeFile(f plan.File, path string, now int64) {
	staged++
	tmp := filepath.Join(topDir, fmt.Sprintf("staged%d", staged))
	if err := os.WriteFile(tmp, []byte(content(f)), 0o600); err != nil {
		die("%v", err)
	}
	t := time.Unix(0, now-f.Ago*1e6)
	if err := os.Chtimes(tmp, t, t); err != nil {
		die("%v", err)
	}
	if err := os.Rename(tmp, path); err != nil {
		os.Remove(tmp)
	}
}

func applyEdit(e *plan.Edit) {
	now := wallBase + runtime.SimNow()
	switch e.Op {
	case "write":
		for _, f := range e.Files {
			writeFile(f, src(f.Path), now)
		}
	case "remove":
		os.Remove(src(e.Path))
	case "rmdir":
		staged++
		os.Rename(src(e.Path), filepath.Join(topDir, fmt.Sprintf("staged%d", staged)))
	case "mkdir":
		staged++
		tmp := filepath.Join(topDir, fmt.Sprintf("staged%d", staged))
		os.Mkdir(tmp, 0o700)
		for _, f := range e.Files {
			writeFile(f, filepath.Join(tmp, filepath.Base(f.Path)), now)
		}
		os.MkdirAll(filepath.Dir(src(e.Path)), 0o700)
		if os.Rename(tmp, src(e.Path)) != nil {
			os.RemoveAll(tmp)
		}
	}
}

// startWatched notes what the sources of a suite say when the compiler reads them.
func startWatched(p *simos.Proc, i int) bool {
	dir := src(pl.Suites[i].Path())
	l, err := os.ReadDir(dir)
	tests := false
	broken[i], red[i], torn[i] = false, false, false
	for _, e := range l {
		if n := e.Name(); strings.HasSuffix(n, ".go") && n[0] != '.' && n[0] != '_' {
			b, _ := os.ReadFile(filepath.Join(dir, n))
			tests = tests || strings.HasSuffix(n, "_test.go")
			broken[i] = broken[i] || strings.Contains(string(b), "// mark broken") || strings.Contains(string(b), "import (")
			torn[i] = torn[i] || strings.Contains(string(b), "// mark torn")
			red[i] = red[i] || torn[i] || strings.Contains(string(b), "// mark red")
		}
	}
	if err != nil || !tests {
		logEvent(p.Node, 0, i, "compile-gone", pl.Suites[i].Name, "", 0, 0, "")
		fmt.Println("no such suite", p.Dir)
		return false
	}
	return true
}

// watchedProgram stands for the test binary of a watched suite.
func watchedProgram(p *simos.Proc) int {
	i := suiteByDir(p.Dir)
	if i < 0 {
		return 1
	}
	s := pl.Suites[i]
	logEvent(p.Node, 1, i, "run-start", s.Name, "", 0, 0, "")
	bad, half := red[i], torn[i]
	time.Sleep(time.Duration(s.RunMs) * time.Millisecond)
	if path := argValue(p.Args, "test.coverprofile"); path != "" {
		b := plan.CoverProfile(s.Name, 1, 0, cover[i])
		if half {
			b = b[:len(b)/2]
		}
		os.WriteFile(path, []byte(b), 0o600)
	}
	logEvent(p.Node, 1, i, "run-end", s.Name, "", 0, 0, fmt.Sprint(bad))
	if bad {
		fmt.Println("watched suite " + s.Name + " failed")
		return 1
	}
	fmt.Println("watched suite " + s.Name + " passed")
	return 0
}
