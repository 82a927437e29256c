// Command instr writes an instrumented copy of the code under test into a
// directory, and an overlay file that makes "go build" use it:
//
//   - mcsched.P(n) before every statement,
//   - loops over maps visit the keys in the order mcsched decides,
//   - package sync is replaced by verifmc/mcsched/mcsync, go statements by mcsched.Go.
//
// The text is only extended, on the same line, so that positions stay true.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

type pkg struct {
	Dir        string
	ImportPath string
	Name       string
	GoFiles    []string
	Export     string
	Standard   bool
	Module     *struct{ Path string }
}

const module = "github.com/senghoo/modsecurity-go"

var points []string

type insert struct {
	off int
	seq int
	del int
	s   string
}

func main() {
	out := os.Args[1]
	cmd := exec.Command("go", "list", "-export", "-deps", "-json=Dir,ImportPath,Name,GoFiles,Export,Standard,Module",
		module+"/modsecurity/...", module+"/seclang/...", module+"/utils/...")
	cmd.Stderr = os.Stderr
	data, err := cmd.Output()
	if err != nil {
		fmt.Fprintln(os.Stderr, "instr: go list:", err)
		os.Exit(1)
	}
	exports := map[string]string{}
	var pkgs []*pkg
	for dec := json.NewDecoder(bytes.NewReader(data)); ; {
		p := new(pkg)
		if err := dec.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			fmt.Fprintln(os.Stderr, "instr:", err)
			os.Exit(1)
		}
		exports[p.ImportPath] = p.Export
		if p.Module != nil && p.Module.Path == module {
			pkgs = append(pkgs, p)
		}
	}
	fset := token.NewFileSet()
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		f := exports[path]
		if f == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(f)
	})
	replace := map[string]string{}
	for _, p := range pkgs {
		var files []*ast.File
		var names []string
		for _, f := range p.GoFiles {
			name := filepath.Join(p.Dir, f)
			af, err := parser.ParseFile(fset, name, nil, parser.SkipObjectResolution)
			if err != nil {
				fmt.Fprintln(os.Stderr, "instr:", err)
				os.Exit(1)
			}
			files = append(files, af)
			names = append(names, name)
		}
		info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}}
		conf := types.Config{Importer: imp, Error: func(error) {}}
		if _, err := conf.Check(p.ImportPath, fset, files, info); err != nil {
			fmt.Fprintln(os.Stderr, "instr: types:", err)
		}
		for i, af := range files {
			src, err := os.ReadFile(names[i])
			if err != nil {
				fmt.Fprintln(os.Stderr, "instr:", err)
				os.Exit(1)
			}
			res := instrument(fset, af, src, info)
			dst := filepath.Join(out, fmt.Sprintf("%s_%s", strings.ReplaceAll(strings.TrimPrefix(p.ImportPath, module+"/"), "/", "_"), filepath.Base(names[i])))
			if err := os.WriteFile(dst, res, 0644); err != nil {
				fmt.Fprintln(os.Stderr, "instr:", err)
				os.Exit(1)
			}
			replace[names[i]] = dst
		}
	}
	ov, _ := json.Marshal(map[string]interface{}{"Replace": replace})
	os.WriteFile(filepath.Join(out, "overlay.json"), ov, 0644)
	os.WriteFile(filepath.Join(out, "points.txt"), []byte(strings.Join(points, "\n")), 0644)
}

// waits returns the waiting for the channel operations of a statement.
func waits(s ast.Stmt, text func(ast.Node) string) string {
	res := ""
	simple := func(e ast.Expr) bool { // no harm in evaluating it twice
		ok := true
		ast.Inspect(e, func(n ast.Node) bool {
			switch n.(type) {
			case nil, *ast.Ident, *ast.SelectorExpr, *ast.ParenExpr, *ast.StarExpr:
			default:
				ok = false
			}
			return ok
		})
		return ok
	}
	ast.Inspect(s, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.FuncLit, *ast.BlockStmt, *ast.CommClause, *ast.CaseClause, *ast.DeferStmt, *ast.GoStmt, *ast.ForStmt, *ast.LabeledStmt:
			return false
		case *ast.SelectStmt:
			return false
		case *ast.SendStmt:
			if simple(n.Chan) {
				res += "mcsched.WaitSend(" + text(n.Chan) + ");"
			}
		case *ast.UnaryExpr:
			if n.Op == token.ARROW && simple(n.X) {
				res += "mcsched.WaitReceive(" + text(n.X) + ");"
			}
		}
		return true
	})
	return res
}

func instrument(fset *token.FileSet, f *ast.File, src []byte, info *types.Info) []byte {
	var ins []insert
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	add := func(p token.Pos, s string) { ins = append(ins, insert{off(p), len(ins), 0, s}) }
	base := strings.TrimPrefix(fset.Position(f.Pos()).Filename, "/repo/")
	text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
	point := func(p token.Pos) string {
		points = append(points, fmt.Sprintf("%s:%d", base, fset.Position(p).Line))
		return fmt.Sprintf("mcsched.P(%d);", len(points)-1)
	}
	labelled := map[ast.Stmt]bool{}
	nmap := 0
	list := func(l []ast.Stmt) {
		for _, s := range l {
			switch s.(type) {
			case *ast.CaseClause, *ast.CommClause:
				continue
			}
			add(s.Pos(), point(s.Pos())+waits(s, text))
			if ls, ok := s.(*ast.LabeledStmt); ok {
				labelled[ls.Stmt] = true
			}
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.GenDecl:
			if n.Tok == token.CONST || n.Tok == token.IMPORT {
				return false
			}
		case *ast.BlockStmt:
			list(n.List)
		case *ast.CaseClause:
			list(n.Body)
		case *ast.CommClause:
			list(n.Body)
		case *ast.ForStmt:
			add(n.Body.Lbrace+1, point(n.Pos()))
		case *ast.GoStmt:
			if tv := info.Types[n.Call.Fun]; !tv.IsBuiltin() && !n.Call.Ellipsis.IsValid() {
				// go F(a, b) -> mcsched.GoCall(F, a, b)
				ins = append(ins, insert{off(n.Pos()), len(ins), 2, "mcsched.GoCall("})
				o, sep := off(n.Call.Lparen), ","
				if len(n.Call.Args) == 0 {
					sep = ""
				}
				ins = append(ins, insert{o, len(ins), 1, sep})
			}
		case *ast.RangeStmt:
			if labelled[n] || n.Tok == token.ASSIGN {
				break
			}
			m, ok := info.Types[n.X]
			if !ok || m.Type == nil {
				break
			}
			mt, ok := m.Type.Underlying().(*types.Map)
			if !ok {
				break
			}
			kt, ok := mt.Key().(*types.Basic)
			if !ok || (kt.Kind() != types.String && kt.Kind() != types.Int) {
				break
			}
			fn, zero := "StringKeys", `""`
			if kt.Kind() == types.Int {
				fn, zero = "IntKeys", "0"
			}
			nmap++
			mv, kv, okv := fmt.Sprintf("mcm%d", nmap), fmt.Sprintf("mck%d", nmap), fmt.Sprintf("mco%d", nmap)
			k, v := "", ""
			if n.Key != nil {
				k = text(n.Key)
			}
			if n.Value != nil {
				v = text(n.Value)
			}
			head := fmt.Sprintf("{ %s := %s; ", mv, text(n.X))
			if k != "" && k != "_" {
				kv = k
			}
			if v != "" && v != "_" {
				head += fmt.Sprintf("%s := %s[%s]; ", v, mv, zero)
			}
			head += fmt.Sprintf("for _, %s := range mcsched.%s(%s) ", kv, fn, mv)
			body := fmt.Sprintf("_, %s := %s[%s]; if !%s { continue };", okv, mv, kv, okv)
			if v != "" && v != "_" {
				body = fmt.Sprintf("var %s bool; %s, %s = %s[%s]; if !%s { continue };", okv, v, okv, mv, kv, okv)
			}
			o := off(n.Pos())
			ins = append(ins, insert{o, len(ins), off(n.Body.Lbrace) - o, head})
			add(n.Body.Lbrace+1, body)
			add(n.End(), "}")
		}
		return true
	})
	for _, im := range f.Imports {
		if im.Path.Value == `"sync"` {
			name := "sync "
			if im.Name != nil {
				name = ""
			}
			o := off(im.Path.Pos())
			ins = append(ins, insert{o, len(ins), len(`"sync"`), name + `"verifmc/mcsched/mcsync"`})
		}
	}
	add(f.Name.End(), `; import mcsched "verifmc/mcsched"`)
	sort.SliceStable(ins, func(i, j int) bool { return ins[i].off < ins[j].off })
	var out bytes.Buffer
	pos := 0
	for _, i := range ins {
		if i.off > pos {
			out.Write(src[pos:i.off])
			pos = i.off
		}
		out.WriteString(i.s)
		if i.off+i.del > pos {
			pos = i.off + i.del
		}
	}
	out.Write(src[pos:])
	out.WriteString("\nvar _ = mcsched.P\n")
	return out.Bytes()
}
