// instr rewrites Go files so that every statement is preceded by a call of vhook.P("pkg/file.go:line"). It is
// used (through go build -overlay) to enumerate crash points and preemption points of the current source tree.
package main

import (
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

func main() {
	pkg := flag.String("pkg", "", "package path relative to the module")
	out := flag.String("out", "", "output directory")
	vt := flag.Bool("vtime", false, "replace the package time by a virtual one")
	flag.Parse()
	for _, fn := range flag.Args() {
		src, err := os.ReadFile(fn)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(1)
		}
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, fn, src, parser.ParseComments)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(1)
		}
		if *vt {
			ch := false
			for _, im := range f.Imports {
				if im.Path.Value == `"time"` {
					n := "time "
					if im.Name != nil {
						n = ""
					}
					o := fs.Position(im.Path.Pos()).Offset
					src = append(append(append([]byte{}, src[:o]...), []byte(n+`"github.com/solarisdb/solaris/verifharness/vtime"`)...), src[o+len(im.Path.Value):]...)
					ch = true
					break
				}
			}
			if ch {
				fs = token.NewFileSet()
				if f, err = parser.ParseFile(fs, fn, src, parser.ParseComments); err != nil {
					fmt.Fprintln(os.Stderr, err)
					os.Exit(1)
				}
			}
		}
		var pts []int
		goStart, goEnd := map[int]bool{}, []int{}
		add := func(l []ast.Stmt) {
			for _, s := range l {
				if _, ok := s.(*ast.EmptyStmt); ok {
					continue
				}
				pts = append(pts, fs.Position(s.Pos()).Offset)
				if g, ok := s.(*ast.GoStmt); ok {
					goStart[fs.Position(g.Pos()).Offset] = true
					goEnd = append(goEnd, fs.Position(g.End()).Offset)
				}
			}
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.BlockStmt:
				isClauses := false
				for _, s := range x.List {
					switch s.(type) {
					case *ast.CaseClause, *ast.CommClause:
						isClauses = true
					}
				}
				if !isClauses {
					add(x.List)
				}
			case *ast.CaseClause:
				add(x.Body)
			case *ast.CommClause:
				add(x.Body)
			}
			return true
		})
		ends := map[int]bool{}
		for _, e := range goEnd {
			ends[e] = true
			pts = append(pts, e)
		}
		sort.Ints(pts)
		var sb strings.Builder
		last := 0
		if len(pts) > 0 {
			e := fs.Position(f.Name.End()).Offset
			sb.Write(src[:e])
			sb.WriteString(`;import vhook_ "github.com/solarisdb/solaris/verifharness/vhook"`)
			last = e
		}
		for i, p := range pts {
			if i > 0 && p == pts[i-1] {
				continue
			}
			sb.Write(src[last:p])
			last = p
			if ends[p] {
				sb.WriteString(";vhook_.GoEnd(vg_)}")
				continue
			}
			line := fs.File(f.Pos()).Line(token.Pos(fs.File(f.Pos()).Base() + p))
			fmt.Fprintf(&sb, "vhook_.P(%q);", fmt.Sprintf("%s/%s:%d", *pkg, filepath.Base(fn), line))
			if goStart[p] {
				sb.WriteString("{vg_ := vhook_.GoBegin();")
			}
		}
		sb.Write(src[last:])
		if err := os.WriteFile(filepath.Join(*out, filepath.Base(fn)), []byte(sb.String()), 0644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(1)
		}
	}
}
