// Command winbuild writes an overlay under which a build for this platform selects the
// files of the library that a build for Windows selects, with package syscall replaced
// by verif/winsys in those only Windows has.
//
//	winbuild MODFILE DIR
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/printer"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
)

type pkg struct {
	ImportPath, Dir string
	GoFiles         []string
}

func list(goos, modfile string) map[string]pkg {
	cmd := exec.Command("go", "list", "-e", "-modfile="+modfile, "-deps", "-json=ImportPath,Dir,GoFiles", "github.com/ilius/go-table/...")
	cmd.Env = append(os.Environ(), "GOOS="+goos, "CGO_ENABLED=0")
	cmd.Stderr = os.Stderr
	out, err := cmd.Output()
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	m := map[string]pkg{}
	dec := json.NewDecoder(strings.NewReader(string(out)))
	for dec.More() {
		var p pkg
		if dec.Decode(&p) != nil {
			os.Exit(2)
		}
		if p.ImportPath == "github.com/ilius/go-table" || strings.HasPrefix(p.ImportPath, "github.com/ilius/go-table/") {
			m[p.ImportPath] = p
		}
	}
	return m
}

func main() {
	modfile, dir := os.Args[1], os.Args[2]
	here, there := list("linux", modfile), list("windows", modfile)
	replace := map[string]string{}
	n := 0
	for path, w := range there {
		l := here[path]
		only := map[string]bool{}
		for _, f := range l.GoFiles {
			only[f] = true
		}
		for _, f := range w.GoFiles {
			if only[f] {
				delete(only, f)
				continue
			}
			src, err := os.ReadFile(filepath.Join(w.Dir, f))
			if err != nil {
				fmt.Fprintln(os.Stderr, err)
				os.Exit(2)
			}
			n++
			to := filepath.Join(dir, fmt.Sprintf("w%d.go", n))
			convert(string(src), to)
			replace[filepath.Join(w.Dir, fmt.Sprintf("zz_verif_%d.go", n))] = to
		}
		for f := range only { // not for Windows
			replace[filepath.Join(w.Dir, f)] = ""
		}
	}
	b, _ := json.MarshalIndent(map[string]any{"Replace": replace}, "", " ")
	if err := os.WriteFile(filepath.Join(dir, "overlay.json"), b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	fmt.Println(n)
}

func convert(src, to string) {
	var lines []string
	for _, l := range strings.Split(src, "\n") {
		if strings.HasPrefix(l, "//go:build ") || strings.HasPrefix(l, "// +build ") {
			l = "//"
		}
		lines = append(lines, l)
	}
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, to, strings.Join(lines, "\n"), parser.ParseComments)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	for _, im := range f.Imports {
		if p, _ := strconv.Unquote(im.Path.Value); p == "syscall" {
			im.Path.Value = strconv.Quote("verif/winsys")
			if im.Name == nil {
				im.Name = ast.NewIdent("syscall")
			}
		}
	}
	out, err := os.Create(to)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	defer out.Close()
	printer.Fprint(out, fset, f)
}
