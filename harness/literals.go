//go:build !js

package main

import (
	_ "embed"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"verif/rnd"
)

// the constants of the tree the monitors were built for
//
//go:embed literals.json
var knownLiterals []byte

// fileLiterals are the constants of a file and how often each occurs.
type fileLiterals struct {
	Ints map[int]int
	Strs map[string]int
}

// literals lists the constants in the source of the library, tests left out.
func literals(repo string) map[string]*fileLiterals {
	all := map[string]*fileLiterals{}
	var cur *fileLiterals
	add := func(v constant.Value) {
		switch v.Kind() {
		case constant.Int:
			if n, ok := constant.Int64Val(v); ok && n >= 0 && n <= 1<<31 {
				cur.Ints[int(n)]++
			}
		case constant.String:
			cur.Strs[constant.StringVal(v)]++
		}
	}
	var eval func(e ast.Expr) constant.Value
	eval = func(e ast.Expr) (v constant.Value) {
		defer func() {
			if recover() != nil {
				v = constant.MakeUnknown()
			}
		}()
		switch e := e.(type) {
		case *ast.BasicLit:
			return constant.MakeFromLiteral(e.Value, e.Kind, 0)
		case *ast.ParenExpr:
			return eval(e.X)
		case *ast.BinaryExpr:
			x, y := eval(e.X), eval(e.Y)
			if x.Kind() != constant.Int || y.Kind() != constant.Int {
				return constant.MakeUnknown()
			}
			switch e.Op {
			case token.SHL, token.SHR:
				s, _ := constant.Uint64Val(y)
				if s > 40 {
					return constant.MakeUnknown()
				}
				return constant.Shift(x, e.Op, uint(s))
			case token.QUO:
				return constant.BinaryOp(x, token.QUO_ASSIGN, y)
			case token.ADD, token.SUB, token.MUL, token.REM, token.OR, token.AND, token.XOR:
				return constant.BinaryOp(x, e.Op, y)
			}
		}
		return constant.MakeUnknown()
	}
	filepath.Walk(repo, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		if fi.IsDir() {
			if n := fi.Name(); p != repo && (strings.HasPrefix(n, ".") || n == "vendor" || n == "testdata") {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		f, err := parser.ParseFile(token.NewFileSet(), p, nil, 0)
		if err != nil {
			return nil
		}
		name, _ := filepath.Rel(repo, p)
		cur = &fileLiterals{map[int]int{}, map[string]int{}}
		all[name] = cur
		ast.Inspect(f, func(n ast.Node) bool {
			switch e := n.(type) {
			case *ast.ImportSpec:
				return false
			case *ast.BasicLit:
				add(eval(e))
			case *ast.BinaryExpr:
				add(eval(e))
			}
			return true
		})
		return nil
	})
	return all
}

// newLiterals are those the monitors were not built with.
func newLiterals(repo string) (d rnd.Dict) {
	var known map[string]*fileLiterals
	if err := json.Unmarshal(knownLiterals, &known); err != nil {
		panic(err)
	}
	ints, strs := map[int]bool{}, map[string]bool{}
	for name, now := range literals(repo) {
		old := known[name]
		if old == nil {
			old = &fileLiterals{}
		}
		for n, k := range now.Ints {
			if k > old.Ints[n] && n > 2 {
				ints[n] = true
			}
		}
		for s, k := range now.Strs {
			if k > old.Strs[s] && s != "" && len(s) < 500 {
				strs[s] = true
			}
		}
	}
	for n := range ints {
		d.Ints = append(d.Ints, n)
	}
	for s := range strs {
		d.Strs = append(d.Strs, s)
	}
	sort.Ints(d.Ints)
	sort.Strings(d.Strs)
	if len(d.Ints) > 64 {
		d.Ints = d.Ints[:64]
	}
	if len(d.Strs) > 64 {
		d.Strs = d.Strs[:64]
	}
	return
}

func printLiterals(repo string) {
	b, _ := json.MarshalIndent(literals(repo), "", "")
	fmt.Println(string(b))
}
