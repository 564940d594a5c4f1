// Command instr makes copies of Go packages in which another schedule can be forced at every statement.
//
//	instr [-time] OUTDIR DIR...
//
// Every statement of a function body is preceded by a call of zsched.Y, and the package sync is replaced by zsync,
// whose locks are the scheduler's.  Nothing else changes.  It prints a JSON object: "files" from original to copy, or
// "unable" with a reason when a package starts goroutines or uses channels, which the scheduler does not manage.
//
// With -time nothing changes but that the package time is replaced by ztime, whose clock the driver can move.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

const root = "github.com/moov-io/dukpt/zz_verif/"

type edit struct {
	at, del int
	text    string
}

func main() {
	clock := os.Args[1] == "-time"
	if clock {
		os.Args = os.Args[1:]
	}
	out := os.Args[1]
	files := map[string]string{}
	for n, dir := range os.Args[2:] {
		names, err := filepath.Glob(filepath.Join(dir, "*.go"))
		check(err)
		for _, f := range names {
			if strings.HasSuffix(f, "_test.go") {
				continue
			}
			src, err := os.ReadFile(f)
			check(err)
			make := instrument
			if clock {
				make = retime
			}
			text, why := make(f, src)
			if why != "" {
				check(json.NewEncoder(os.Stdout).Encode(map[string]any{"unable": why}))
				return
			}
			if text == "" {
				continue
			}
			to := filepath.Join(out, fmt.Sprintf("%d-%s", n, filepath.Base(f)))
			check(os.WriteFile(to, []byte(text), 0o644))
			files[f] = to
		}
	}
	check(json.NewEncoder(os.Stdout).Encode(map[string]any{"files": files}))
}

func check(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "instr:", err)
		os.Exit(1)
	}
}

func instrument(name string, src []byte) (text, unable string) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, name, src, parser.ParseComments)
	if err != nil {
		return "", err.Error()
	}
	at := func(p token.Pos) int { return fset.Position(p).Offset }
	var edits []edit
	yields := 0
	list := func(ss []ast.Stmt) {
		for _, s := range ss {
			if _, ok := s.(*ast.EmptyStmt); ok {
				continue
			}
			edits = append(edits, edit{at(s.Pos()), 0, "zsched.Y(); "})
			yields++
		}
	}
	no := func(n ast.Node, what string) {
		unable = fmt.Sprintf("%s: %s", fset.Position(n.Pos()), what)
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.BlockStmt:
			if len(n.List) > 0 {
				if _, ok := n.List[0].(*ast.CaseClause); ok {
					break
				}
				if _, ok := n.List[0].(*ast.CommClause); ok {
					break
				}
			}
			list(n.List)
		case *ast.CaseClause:
			list(n.Body)
		case *ast.CommClause:
			list(n.Body)
		case *ast.GoStmt:
			no(n, "starts a goroutine")
		case *ast.SelectStmt, *ast.SendStmt, *ast.ChanType:
			no(n, "uses channels")
		case *ast.ImportSpec:
			if n.Path.Value == `"sync"` {
				t := `"` + root + `zsync"`
				if n.Name == nil {
					t = "sync " + t
				}
				edits = append(edits, edit{at(n.Path.Pos()), len(n.Path.Value), t})
			}
			if n.Path.Value == `"C"` {
				no(n, "uses cgo")
			}
		}
		return unable == ""
	})
	if unable != "" || len(edits) == 0 {
		return "", unable
	}
	if yields > 0 {
		edits = append(edits, edit{at(f.Name.End()), 0, `; import "` + root + `zsched"`})
	}
	sort.SliceStable(edits, func(i, j int) bool { return edits[i].at > edits[j].at })
	b := string(src)
	for _, e := range edits {
		b = b[:e.at] + e.text + b[e.at+e.del:]
	}
	return b, ""
}

func retime(name string, src []byte) (text, unable string) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, name, src, parser.ImportsOnly)
	if err != nil {
		return "", err.Error()
	}
	for _, i := range f.Imports {
		if i.Path.Value == `"time"` {
			at := fset.Position(i.Path.Pos()).Offset
			t := `"` + root + `ztime"`
			if i.Name == nil {
				t = "time " + t
			}
			return string(src[:at]) + t + string(src[at+len(i.Path.Value):]), ""
		}
	}
	return "", ""
}
