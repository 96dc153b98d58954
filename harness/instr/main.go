// instr writes copies of Go source files with a scheduling point inserted
// before every statement, for use in a build overlay.
//
//	instr OUTDIR FILE...
//
// It prints a JSON object mapping each original path to its copy.
package main

import (
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
)

const imp = `import verifyield "github.com/fakeyanss/jt808-server-go/internal/verifyield"`

var shared = regexp.MustCompile(`(?i)mutex|atomic|cache|session|device\b|conn\b|chan |ring|\.Run\(|serial|buf`)

func main() {
	out := os.Args[1]
	res := map[string]string{}
	site := 0
	for _, f := range os.Args[2:] {
		src, err := os.ReadFile(f)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(1)
		}
		fset := token.NewFileSet()
		file, err := parser.ParseFile(fset, f, src, parser.ParseComments)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(1)
		}
		var offs []int
		call := map[int]string{}
		// functions that deal with what requests share are where a long stop is worth trying
		hot := map[*ast.FuncDecl]bool{}
		for _, d := range file.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok {
				hot[fd] = shared.Match(src[fset.Position(fd.Pos()).Offset:fset.Position(fd.End()).Offset])
			}
		}
		inHot := func(p token.Pos) bool {
			for fd, h := range hot {
				if h && fd.Pos() <= p && p < fd.End() {
					return true
				}
			}
			return false
		}
		add := func(list []ast.Stmt) {
			for _, s := range list {
				switch s.(type) {
				case *ast.CaseClause, *ast.CommClause, *ast.EmptyStmt:
				default:
					o := fset.Position(s.Pos()).Offset
					offs = append(offs, o)
					call[o] = "Y"
					if inHot(s.Pos()) {
						call[o] = "Z"
					}
				}
			}
		}
		ast.Inspect(file, func(n ast.Node) bool {
			switch b := n.(type) {
			case *ast.BlockStmt:
				add(b.List)
			case *ast.CaseClause:
				add(b.Body)
			case *ast.CommClause:
				add(b.Body)
			}
			return true
		})
		if len(offs) == 0 {
			continue
		}
		sort.Ints(offs)
		var b strings.Builder
		pe := fset.Position(file.Name.End()).Offset
		b.Write(src[:pe])
		b.WriteString("; " + imp + ";")
		last := pe
		for _, o := range offs {
			b.Write(src[last:o])
			site++
			fmt.Fprintf(&b, "verifyield.%s(%d); ", call[o], site)
			last = o
		}
		b.Write(src[last:])
		h := sha256.Sum256([]byte(f))
		dst := filepath.Join(out, fmt.Sprintf("%x_%s", h[:6], filepath.Base(f)))
		if err := os.WriteFile(dst, []byte(b.String()), 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(1)
		}
		res[f] = dst
	}
	json.NewEncoder(os.Stdout).Encode(res)
}
