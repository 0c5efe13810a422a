// Command instr writes a copy of Go packages in which synchronisation goes
// through a controllable package: sync.Mutex, RWMutex, WaitGroup and Once
// become their zsync counterparts, go statements become zsync.Go, and loops
// over maps with plain keys run in sorted order.  It changes nothing else.
//
//	instr -out DIR -zsync IMPORTPATH -list FILE PKGPATH...
//
// FILE holds the output of go list -export -deps -json.  On stdout: a JSON
// object from original file to rewritten file.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/format"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

type pkg struct {
	ImportPath, Export, Dir string
	GoFiles                 []string
	ImportMap               map[string]string
}

var wrapped = map[string]bool{"Mutex": true, "RWMutex": true, "WaitGroup": true, "Once": true}

func main() {
	out := flag.String("out", "", "")
	zs := flag.String("zsync", "", "")
	list := flag.String("list", "", "")
	flag.StringVar(&moveFrom, "movefrom", "", "")
	flag.StringVar(&moveTo, "moveto", "", "")
	flag.StringVar(&moveDir, "movedir", "", "")
	flag.Parse()
	pkgs := map[string]*pkg{}
	f, err := os.Open(*list)
	die(err)
	for d := json.NewDecoder(f); ; {
		p := &pkg{}
		if err := d.Decode(p); err == io.EOF {
			break
		} else {
			die(err)
		}
		pkgs[p.ImportPath] = p
	}
	res := map[string]string{}
	for _, a := range flag.Args() {
		p := pkgs[a]
		if p == nil {
			die(fmt.Errorf("no package %s", a))
		}
		rewrite(p, pkgs, *out, *zs, res)
	}
	b, _ := json.Marshal(res)
	os.Stdout.Write(b)
}

func die(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "instr:", err)
		os.Exit(1)
	}
}

// A package of another module that is to be rewritten becomes a package of
// this one.
var moveFrom, moveTo, moveDir string

type edit struct {
	from, to int
	text     string
}

func rewrite(p *pkg, pkgs map[string]*pkg, out, zs string, res map[string]string) {
	fset := token.NewFileSet()
	var files []*ast.File
	var names []string
	for _, n := range p.GoFiles {
		if !filepath.IsAbs(n) {
			n = filepath.Join(p.Dir, n)
		}
		f, err := parser.ParseFile(fset, n, nil, parser.ParseComments)
		die(err)
		files = append(files, f)
		names = append(names, n)
	}
	lookup := func(path string) (io.ReadCloser, error) {
		if m := p.ImportMap[path]; m != "" {
			path = m
		}
		q := pkgs[path]
		if q == nil || q.Export == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(q.Export)
	}
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{}}
	conf := types.Config{Importer: importer.ForCompiler(fset, "gc", lookup), Error: func(error) {}}
	conf.Check(p.ImportPath, fset, files, info)
	for i, f := range files {
		src, err := os.ReadFile(names[i])
		die(err)
		var ed []edit
		off := func(x token.Pos) int { return fset.Position(x).Offset }
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		syncLeft, used := 0, false
		ast.Inspect(f, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.SelectorExpr:
				id, ok := x.X.(*ast.Ident)
				if !ok {
					return true
				}
				pn, ok := info.Uses[id].(*types.PkgName)
				if !ok || pn.Imported().Path() != "sync" {
					return true
				}
				if !wrapped[x.Sel.Name] {
					syncLeft++
					return true
				}
				ed = append(ed, edit{off(id.Pos()), off(id.End()), "zsync"})
				used = true
			case *ast.GoStmt:
				c := x.Call
				args := []string{text(c.Fun)}
				for _, a := range c.Args {
					args = append(args, text(a))
				}
				if c.Ellipsis.IsValid() || strings.Contains(text(c), "go ") || strings.Contains(text(c), "sync.") || strings.Contains(text(c), "range ") {
					// Nested constructs: keep the call, make only
					// the start controllable when it has no
					// arguments to evaluate.
					if len(c.Args) == 0 {
						ed = append(ed, edit{off(x.Pos()), off(c.Fun.Pos()), "zsync.Go("}, edit{off(c.Fun.End()), off(c.End()), ")"})
						used = true
					}
					return true
				}
				ed = append(ed, edit{off(x.Pos()), off(x.End()), "zsync.Go(" + strings.Join(args, ", ") + ")"})
				used = true
				return false
			case *ast.RangeStmt:
				if e, ok := mapRange(x, info, off, text); ok {
					ed = append(ed, e...)
					used = true
				}
			}
			return true
		})
		moved := p.ImportPath == moveFrom && moveFrom != ""
		for _, im := range f.Imports {
			if moveFrom != "" && im.Path.Value == `"`+moveFrom+`"` {
				name := ""
				if im.Name == nil {
					name = filepath.Base(moveFrom) + " "
				}
				ed = append(ed, edit{off(im.Path.Pos()), off(im.Path.End()), name + `"` + moveTo + `"`})
				moved = true
			}
		}
		if !used && !moved {
			continue
		}
		// imports
		for _, im := range f.Imports {
			if im.Path.Value == `"sync"` && syncLeft == 0 && used {
				ed = append(ed, edit{off(im.Pos()), off(im.End()), ""})
			}
		}
		at := off(f.Name.End())
		if used {
			ed = append(ed, edit{at, at, "; import zsync \"" + zs + "\""})
		}
		sort.SliceStable(ed, func(a, b int) bool { return ed[a].from < ed[b].from })
		var b bytes.Buffer
		last := 0
		for _, e := range ed {
			if e.from < last {
				die(fmt.Errorf("%s: overlapping edits", names[i]))
			}
			b.Write(src[last:e.from])
			b.WriteString(e.text)
			last = e.to
		}
		b.Write(src[last:])
		if _, err := format.Source(b.Bytes()); err != nil {
			die(fmt.Errorf("%s: %v\n%s", names[i], err, b.String()))
		}
		dst := filepath.Join(out, strings.ReplaceAll(strings.Trim(names[i], "/"), "/", "__"))
		die(os.WriteFile(dst, b.Bytes(), 0644))
		if p.ImportPath == moveFrom {
			res[filepath.Join(moveDir, filepath.Base(names[i]))] = dst
			continue
		}
		res[names[i]] = dst
	}
}

// pure expressions can be evaluated more than once.
func pure(e ast.Expr) bool {
	switch x := e.(type) {
	case *ast.Ident:
		return true
	case *ast.SelectorExpr:
		return pure(x.X)
	case *ast.IndexExpr:
		return pure(x.X) && pure(x.Index)
	case *ast.BasicLit:
		return true
	case *ast.ParenExpr:
		return pure(x.X)
	}
	return false
}

var serial int

func mapRange(x *ast.RangeStmt, info *types.Info, off func(token.Pos) int, text func(ast.Node) string) ([]edit, bool) {
	t := info.TypeOf(x.X)
	if t == nil {
		return nil, false
	}
	m, ok := t.Underlying().(*types.Map)
	if !ok || x.Key == nil || x.Tok != token.DEFINE || !pure(x.X) {
		return nil, false
	}
	b, ok := m.Key().(*types.Basic)
	if !ok {
		return nil, false
	}
	serial++
	k := text(x.Key)
	ok2 := fmt.Sprintf("zvOK%d", serial)
	kv := k
	if k == "_" {
		kv = fmt.Sprintf("zvKey%d", serial)
	}
	v := "_"
	if x.Value != nil {
		v = text(x.Value)
	}
	mt := text(x.X)
	raw := fmt.Sprintf("zvRaw%d", serial)
	head := fmt.Sprintf("for _, %s := range zsync.Keys(%s) { %s := %s.(%s); %s, %s := %s[%s]; if !%s { continue };", raw, mt, kv, raw, b.Name(), v, ok2, mt, kv, ok2)
	return []edit{{off(x.Pos()), off(x.Body.Lbrace) + 1, head}}, true
}
