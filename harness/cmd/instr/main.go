// Command instr writes instrumented copies of the library's source files and
// the overlay file that makes the go command build them instead.
//
//	instr -repo /repo -out DIR [-points]
//
// Package sync is replaced by verif/vsync, and with -points a scheduling point
// is put in front of every statement. The text is otherwise unchanged and stays
// on its line.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"io/fs"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

type insertion struct {
	off  int
	text string
	del  int
}

var site int

func instrument(src []byte, name string, points bool) ([]byte, bool, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, name, src, parser.ParseComments)
	if err != nil {
		return nil, false, err
	}
	tf := fset.File(f.Pos())
	off := func(p token.Pos) int { return tf.Offset(p) }
	var ins []insertion
	for _, im := range f.Imports {
		if im.Path.Value == `"sync"` {
			text := `"verif/vsync"`
			if im.Name == nil {
				text = `sync "verif/vsync"`
			}
			ins = append(ins, insertion{off(im.Path.Pos()), text, len(im.Path.Value)})
		}
	}
	n := 0
	if points {
		add := func(list []ast.Stmt) {
			after := false
			for _, s := range list {
				if _, ok := s.(*ast.EmptyStmt); ok {
					continue
				}
				id := fmt.Sprint(site)
				syncs := synchronizes(s)
				if syncs || after {
					id += "|__vp.Sync"
				}
				after = syncs
				ins = append(ins, insertion{off(s.Pos()), "__vp.Point(" + id + "); ", 0})
				n++
				site++
			}
		}
		ast.Inspect(f, func(nd ast.Node) bool {
			switch x := nd.(type) {
			case *ast.BlockStmt:
				// the body of a switch or select holds clauses, not statements
				if len(x.List) > 0 {
					switch x.List[0].(type) {
					case *ast.CaseClause, *ast.CommClause:
						return true
					}
				}
				add(x.List)
			case *ast.CaseClause:
				add(x.Body)
			case *ast.CommClause:
				add(x.Body)
			}
			return true
		})
	}
	chans := packageChannels(f)
	if n > 0 || len(chans) > 0 {
		ins = append(ins, insertion{off(f.Name.End()), `; import __vp "verif/vsync"`, 0})
	}
	for _, c := range chans {
		ins = append(ins, insertion{len(src), "\nfunc init() { __vp.Channel(&" + c + ") }\n", 0})
	}
	if len(ins) == 0 {
		return src, false, nil
	}
	sort.SliceStable(ins, func(i, j int) bool { return ins[i].off < ins[j].off })
	var b strings.Builder
	last := 0
	for _, i := range ins {
		b.Write(src[last:i.off])
		b.WriteString(i.text)
		last = i.off + i.del
	}
	b.Write(src[last:])
	return []byte(b.String()), true, nil
}

// packageChannels are the variables of the package that are initialised with
// make(chan T, ...). They are made again for every case: a channel belongs to
// the bubble it was made in, and waiting for one from outside stops the clock.
func packageChannels(f *ast.File) (names []string) {
	for _, d := range f.Decls {
		g, ok := d.(*ast.GenDecl)
		if !ok || g.Tok != token.VAR {
			continue
		}
		for _, s := range g.Specs {
			v := s.(*ast.ValueSpec)
			if len(v.Values) != len(v.Names) || v.Type != nil {
				continue
			}
			for i, x := range v.Values {
				call, ok := x.(*ast.CallExpr)
				if !ok || len(call.Args) == 0 || v.Names[i].Name == "_" {
					continue
				}
				fn, ok := call.Fun.(*ast.Ident)
				ch, ok2 := call.Args[0].(*ast.ChanType)
				if ok && ok2 && fn.Name == "make" && ch.Dir == ast.SEND|ast.RECV {
					names = append(names, v.Names[i].Name)
				}
			}
		}
	}
	return names
}

var syncNames = map[string]bool{
	"Lock": true, "Unlock": true, "RLock": true, "RUnlock": true, "TryLock": true, "Wait": true, "Signal": true, "Broadcast": true, "Do": true,
	"Load": true, "Store": true, "Add": true, "Swap": true, "CompareAndSwap": true, "Done": true, "Put": true, "close": true,
}

// synchronizes tells whether a statement itself (not what it encloses) calls
// anything that is named like an operation of sync or sync/atomic, or uses a
// channel.
func synchronizes(s ast.Stmt) bool {
	found := false
	visit := func(n ast.Node) {
		ast.Inspect(n, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.FuncLit, *ast.BlockStmt:
				return false
			case *ast.CallExpr:
				switch f := x.Fun.(type) {
				case *ast.SelectorExpr:
					found = found || syncNames[f.Sel.Name]
				case *ast.Ident:
					found = found || syncNames[f.Name]
				}
			case *ast.SendStmt, *ast.SelectStmt, *ast.GoStmt:
				found = true
			case *ast.UnaryExpr:
				found = found || x.Op == token.ARROW
			}
			return true
		})
	}
	visit(s)
	return found
}

func main() {
	repo := flag.String("repo", "/repo", "")
	out := flag.String("out", "", "")
	points := flag.Bool("points", false, "")
	flag.Parse()
	replace := map[string]string{}
	err := filepath.WalkDir(*repo, func(path string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		if d.IsDir() && path != *repo && (strings.HasPrefix(d.Name(), ".") || d.Name() == "testdata" || d.Name() == "vendor") {
			return filepath.SkipDir
		}
		if d.IsDir() || !strings.HasSuffix(path, ".go") || strings.HasSuffix(path, "_test.go") {
			return nil
		}
		src, err := os.ReadFile(path)
		if err != nil {
			return err
		}
		res, changed, err := instrument(src, path, *points)
		if err != nil {
			return err
		}
		if !changed {
			return nil
		}
		rel, _ := filepath.Rel(*repo, path)
		dst := filepath.Join(*out, strings.ReplaceAll(rel, string(filepath.Separator), "__"))
		replace[path] = dst
		return os.WriteFile(dst, res, 0o644)
	})
	if err != nil {
		fmt.Fprintln(os.Stderr, "instr:", err)
		os.Exit(1)
	}
	data, _ := json.MarshalIndent(map[string]any{"Replace": replace}, "", " ")
	if err := os.WriteFile(filepath.Join(*out, "overlay.json"), data, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, "instr:", err)
		os.Exit(1)
	}
}
