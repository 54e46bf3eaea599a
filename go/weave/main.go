// Command weave rewrites the non-test Go files of some packages of the working
// tree so that every statement is preceded by a scheduling point, and writes a
// "go build -overlay" file mapping the originals to the rewritten copies. The
// working tree itself is never touched. Insertions stay on the line they are
// made on, so line numbers in stack traces are those of the original.
//
//	weave -repo /repo -out DIR -base overlay-in.json
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/build"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

type insertion struct {
	off  int
	text string
	ord  int
}

var siteNames []string

func site(fset *token.FileSet, repo string, pos token.Pos) int {
	p := fset.Position(pos)
	rel, err := filepath.Rel(repo, p.Filename)
	if err != nil {
		rel = p.Filename
	}
	siteNames = append(siteNames, fmt.Sprintf("%s:%d", rel, p.Line))
	return len(siteNames) - 1
}

func weaveFile(repo, path string) (string, error) {
	src, err := os.ReadFile(path)
	if err != nil {
		return "", err
	}
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, path, src, parser.ParseComments)
	if err != nil {
		return "", err
	}
	var ins []insertion
	add := func(pos token.Pos, text string) {
		ins = append(ins, insertion{fset.Position(pos).Offset, text, len(ins)})
	}
	stmts := func(list []ast.Stmt) {
		for _, s := range list {
			if _, ok := s.(*ast.EmptyStmt); ok {
				continue
			}
			// Labeled and case-ending statements are fine: a call may
			// precede a label, a break or a fallthrough.
			add(s.Pos(), fmt.Sprintf("simrt.Y(%d);", site(fset, repo, s.Pos())))
		}
	}
	// Bodies of switch and select hold clauses, not statements.
	clauseBlocks := map[*ast.BlockStmt]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.SwitchStmt:
			clauseBlocks[n.Body] = true
		case *ast.TypeSwitchStmt:
			clauseBlocks[n.Body] = true
		case *ast.SelectStmt:
			clauseBlocks[n.Body] = true
		case *ast.BlockStmt:
			if clauseBlocks[n] {
				break
			}
			if len(n.List) == 0 {
				add(n.Lbrace+1, fmt.Sprintf("simrt.Y(%d);", site(fset, repo, n.Lbrace)))
			}
			stmts(n.List)
		case *ast.CaseClause:
			stmts(n.Body)
		case *ast.CommClause:
			stmts(n.Body)
		}
		return true
	})
	add(f.Name.End(), `; import simrt "verif/simrt"`)
	sort.SliceStable(ins, func(i, j int) bool {
		if ins[i].off != ins[j].off {
			return ins[i].off < ins[j].off
		}
		return ins[i].ord < ins[j].ord
	})
	var b strings.Builder
	last := 0
	for _, in := range ins {
		b.Write(src[last:in.off])
		b.WriteString(in.text)
		last = in.off
	}
	b.Write(src[last:])
	b.WriteString("\nvar _ = simrt.Y\n")
	return b.String(), nil
}

func main() {
	repo := flag.String("repo", "/repo", "working tree")
	out := flag.String("out", "", "directory for the rewritten files")
	base := flag.String("base", "", "overlay file to extend")
	goos := flag.String("goos", "wasip1", "")
	goarch := flag.String("goarch", "wasm", "")
	flag.Parse()
	ov := struct{ Replace map[string]string }{map[string]string{}}
	if *base != "" {
		b, err := os.ReadFile(*base)
		if err != nil {
			fatal(err)
		}
		if err := json.Unmarshal(b, &ov); err != nil {
			fatal(err)
		}
	}
	ctx := build.Default
	ctx.GOOS, ctx.GOARCH, ctx.CgoEnabled = *goos, *goarch, false
	n := 0
	var dirs []string
	err := filepath.WalkDir(*repo, func(path string, d os.DirEntry, err error) error {
		if err != nil {
			return err
		}
		if d.IsDir() {
			if b := d.Name(); path != *repo && (strings.HasPrefix(b, ".") || strings.HasPrefix(b, "_") || b == "testdata") {
				return filepath.SkipDir
			}
			dirs = append(dirs, path)
		}
		return nil
	})
	if err != nil {
		fatal(err)
	}
	for _, abs := range dirs {
		names, err := filepath.Glob(filepath.Join(abs, "*.go"))
		if err != nil {
			fatal(err)
		}
		sort.Strings(names)
		for _, name := range names {
			if strings.HasSuffix(name, "_test.go") {
				continue
			}
			if ok, err := ctx.MatchFile(abs, filepath.Base(name)); err != nil || !ok {
				continue
			}
			text, err := weaveFile(*repo, name)
			if err != nil {
				// Leave it alone: the compiler will say what is wrong.
				fmt.Fprintln(os.Stderr, "weave:", err)
				continue
			}
			dst := filepath.Join(*out, fmt.Sprintf("w%03d_%s", n, filepath.Base(name)))
			n++
			if err := os.WriteFile(dst, []byte(text), 0o644); err != nil {
				fatal(err)
			}
			ov.Replace[name] = dst
		}
	}
	b, _ := json.MarshalIndent(ov, "", " ")
	if err := os.WriteFile(filepath.Join(*out, "overlay.json"), b, 0o644); err != nil {
		fatal(err)
	}
	b, _ = json.Marshal(siteNames)
	if err := os.WriteFile(filepath.Join(*out, "sites.json"), b, 0o644); err != nil {
		fatal(err)
	}
}

func fatal(err error) {
	fmt.Fprintln(os.Stderr, "weave:", err)
	os.Exit(2)
}
