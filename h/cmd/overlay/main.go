// Command overlay writes a `go build -overlay` file which makes the packages
// below REPO import the scheduling shims instead of sync and sync/atomic.
// Nothing else about the sources changes.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

var shims = map[string][2]string{
	"sync":        {"sync", "verif.local/h/xsync"},
	"sync/atomic": {"atomic", "verif.local/h/xatomic"},
}

func main() {
	repo, out := os.Args[1], os.Args[2]
	repl := map[string]string{}
	n := 0
	err := filepath.WalkDir(repo, func(p string, d os.DirEntry, err error) error {
		if err != nil {
			return err
		}
		if d.IsDir() {
			if p != repo && (strings.HasPrefix(d.Name(), ".") || strings.HasPrefix(d.Name(), "_") || d.Name() == "testdata" || d.Name() == "vendor") {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		src, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, p, src, parser.ImportsOnly)
		if err != nil {
			return nil // let the compiler complain
		}
		type edit struct {
			from, to int
			text     string
		}
		var edits []edit
		for _, im := range f.Imports {
			path, _ := strconv.Unquote(im.Path.Value)
			sh, ok := shims[path]
			if !ok {
				continue
			}
			text := strconv.Quote(sh[1])
			if im.Name == nil {
				text = sh[0] + " " + text
			}
			from := fset.Position(im.Path.Pos()).Offset
			edits = append(edits, edit{from, from + len(im.Path.Value), text})
		}
		_ = ast.Node(f)
		if len(edits) == 0 {
			return nil
		}
		for i := len(edits) - 1; i >= 0; i-- {
			e := edits[i]
			src = append(append(append([]byte{}, src[:e.from]...), e.text...), src[e.to:]...)
		}
		n++
		dst := filepath.Join(out, fmt.Sprintf("f%d.go", n))
		if err := os.WriteFile(dst, src, 0o644); err != nil {
			return err
		}
		repl[p] = dst
		return nil
	})
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
	b, _ := json.MarshalIndent(map[string]any{"Replace": repl}, "", " ")
	if err := os.WriteFile(filepath.Join(out, "overlay.json"), b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
}
