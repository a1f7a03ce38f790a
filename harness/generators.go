//go:build regen

package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"

	"verif/checks"
)

// prepareGenerators builds the program of every "//go:generate go run" line of
// the repository, once.
func prepareGenerators(repo, tmp, gocmd string) error {
	p := checks.GenPlan{Repo: repo, Harness: os.Getenv("VERIF_HARNESS"), Go: gocmd, Cache: filepath.Join(tmp, "gocache"), Tmp: tmp}
	bins := map[string]string{}
	err := filepath.Walk(repo, func(path string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() && strings.HasPrefix(fi.Name(), ".") && path != repo {
			return filepath.SkipDir
		}
		if !fi.Mode().IsRegular() || !strings.HasSuffix(path, ".go") || strings.HasSuffix(path, "_test.go") {
			return nil
		}
		b, err := os.ReadFile(path)
		if err != nil {
			return err
		}
		dir, _ := filepath.Rel(repo, filepath.Dir(path))
		for _, l := range strings.Split(string(b), "\n") {
			if !strings.HasPrefix(l, "//go:generate ") {
				continue
			}
			f := strings.Fields(l)[1:]
			if len(f) < 3 || f[0] != "go" || f[1] != "run" {
				continue
			}
			f = f[2:]
			n := 0 // flags, then files or one package
			for n < len(f) && strings.HasPrefix(f[n], "-") {
				n++
			}
			if n == len(f) {
				continue
			}
			if !strings.HasSuffix(f[n], ".go") {
				n++
			} else {
				for n < len(f) && strings.HasSuffix(f[n], ".go") {
					n++
				}
			}
			what := f[:n]
			key := dir + " " + strings.Join(what, " ")
			if bins[key] == "" {
				bin := filepath.Join(tmp, fmt.Sprintf("generator%d", len(bins)))
				args := append([]string{"build", "-mod=readonly", "-cover", "-o", bin}, what...)
				cmd := exec.Command(gocmd, args...)
				cmd.Dir = filepath.Join(repo, dir)
				cmd.Env = append(os.Environ(), "GOFLAGS=")
				if out, err := cmd.CombinedOutput(); err != nil {
					p.Error = fmt.Sprintf("go %s in %s: %s", strings.Join(args, " "), dir, out)
				}
				bins[key] = bin
			}
			p.Gens = append(p.Gens, checks.Generator{Dir: dir, Line: strings.TrimPrefix(l, "//go:generate "), Bin: bins[key], Args: f[n:]})
		}
		return nil
	})
	if err != nil {
		return err
	}
	b, err := json.Marshal(p)
	if err != nil {
		return err
	}
	file := filepath.Join(tmp, "generators.json")
	os.Setenv(checks.GenEnv, file)
	return os.WriteFile(file, b, 0o644)
}
