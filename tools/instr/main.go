// Command instr writes instrumented copies of the module's sources and a build
// overlay that puts them, the run-time support and the harnesses in place.
//
//	instr -repo /repo -rt /verif/rt -out DIR [-yield] [-plain] [-nodes a,b -proto DIR] [-add SRC=DST]...
//
// For each node there is a copy of the module of its own (verifnode/NODE), with
// its own clock, devices, signals and message types, so that one process can
// run several commands which share nothing but the network.
//
// It judges nothing and knows no identifier of the code under test: it inserts
// yield points between statements and redirects a few imports (sync, clock,
// decoder, audio device) and calls (net.Listen, net.Dial, os.Exit).
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

const mod = "github.com/LogicalOverflow/music-sync"
const rt = mod + "/verifrt"

var imports = map[string][2]string{ // path -> default name, replacement
	"sync": {"sync", rt + "/vsync"},
	"github.com/aristanetworks/goarista/monotime": {"monotime", rt + "/vmono"},
	"github.com/faiface/beep/mp3":                 {"mp3", rt + "/vmp3"},
	"github.com/hajimehoshi/oto":                  {"oto", rt + "/voto"},
}

// import path -> function -> replacement
var calls = map[string]map[string]string{
	"net":                        {"Listen": "verifvnet.Listen", "Dial": "verifvnet.Dial", "DialTimeout": "verifvnet.DialTimeout"},
	"os":                         {"Exit": "verifrt.Exit"},
	"github.com/gliderlabs/ssh":  {"Handle": "verifvssh.Handle", "ListenAndServe": "verifvssh.ListenAndServe"},
	"github.com/chzyer/readline": {"NewEx": "verifvline.NewEx"},
	"github.com/gdamore/tcell":   {"NewScreen": "verifvscreen.NewScreen"},
	"os/signal":                  {"Notify": "verifvsignal.Notify", "Stop": "verifvsignal.Stop", "NotifyContext": "verifvsignal.NotifyContext"},
}

// something exported by a package, to keep its import used
var keep = map[string]string{
	"net": "var _ %s.Conn", "os": "var _ %s.FileInfo", "github.com/gliderlabs/ssh": "var _ %s.Session",
	"github.com/chzyer/readline": "var _ %s.Config",
	"github.com/gdamore/tcell":   "var _ %s.Screen",
	"os/signal":                  "var _ = %s.Ignore",
}

// import path of a replacement's package
var homes = map[string]string{
	"verifrt": rt, "verifvnet": rt + "/vnet", "verifvssh": rt + "/vssh", "verifvscreen": rt + "/vscreen", "verifvhook": rt + "/vhook", "verifvline": rt + "/vline",
	"verifvsignal": rt + "/vsignal",
}

// methods whose only argument is passed through a function
var wraps = map[string]string{"SetNewSongHandler": "verifvhook.NewSong", "SetPauseToggleHandler": "verifvhook.Pause"}

// functions whose only argument is also passed to another
var told = map[string]string{"ssh.RegisterCommand": "verifvhook.Command"}

type adds []string

func (a *adds) String() string     { return "" }
func (a *adds) Set(s string) error { *a = append(*a, s); return nil }

var (
	repo   = flag.String("repo", "/repo", "")
	rtdir  = flag.String("rt", "/verif/rt", "")
	out    = flag.String("out", "", "")
	yield  = flag.Bool("yield", true, "insert yield points")
	virt   = flag.Bool("virt", true, "redirect imports and calls")
	keepIO = flag.String("keep", "", "comma-separated import paths not to redirect")
	nodes  = flag.String("nodes", "", "comma-separated nodes")
	protod = flag.String("proto", "", "directory of package github.com/golang/protobuf/proto")
	add    adds
)

// own are the parts of the run-time support each node has a copy of.
var own = []string{"vmono", "voto", "vscreen", "vsignal"}

// forNode makes the imports of a file those of a node.
func forNode(src []byte, node string) []byte {
	home := mod + "/verifnode/" + node
	s := strings.ReplaceAll(string(src), `"`+mod+`/`, `"`+home+`/`)
	s = strings.ReplaceAll(s, `"`+home+`/verifrt`, `"`+rt)
	for _, p := range own {
		s = strings.ReplaceAll(s, `"`+rt+`/`+p+`"`, `"`+home+`/verifrt/`+p+`"`)
	}
	return []byte(strings.ReplaceAll(s, `"github.com/golang/protobuf/proto"`, `"`+home+`/proto"`))
}

func main() {
	flag.Var(&add, "add", "SRC=DST: add file SRC as DST (relative to the repository)")
	flag.Parse()
	overlay := map[string]string{}
	copies := func(rel string, src []byte) {
		for _, n := range strings.Split(*nodes, ",") {
			if n == "" {
				continue
			}
			dst := filepath.Join(*out, n+"__"+strings.ReplaceAll(rel, "/", "__"))
			must(os.WriteFile(dst, forNode(src, n), 0o644))
			overlay[filepath.Join(*repo, "verifnode", n, rel)] = dst
		}
	}
	for _, n := range strings.Split(*nodes, ",") {
		if n == "" {
			continue
		}
		for _, p := range own {
			fs, _ := filepath.Glob(filepath.Join(*rtdir, p, "*.go"))
			for _, f := range fs {
				overlay[filepath.Join(*repo, "verifnode", n, "verifrt", p, filepath.Base(f))] = f
			}
		}
		fs, _ := filepath.Glob(filepath.Join(*protod, "*.go"))
		for _, f := range fs {
			if !strings.HasSuffix(f, "_test.go") {
				overlay[filepath.Join(*repo, "verifnode", n, "proto", filepath.Base(f))] = f
			}
		}
	}
	must(os.MkdirAll(*out, 0o755))
	for _, k := range strings.Split(*keepIO, ",") {
		delete(imports, k)
		delete(calls, k)
	}
	if *yield || *virt {
		must(filepath.Walk(*repo, func(p string, fi os.FileInfo, err error) error {
			if err != nil {
				return err
			}
			rel, _ := filepath.Rel(*repo, p)
			if fi.IsDir() {
				if b := fi.Name(); rel != "." && (strings.HasPrefix(b, ".") || strings.HasPrefix(b, "_") || b == "testdata" || b == "shell_parser" && *nodes == "" || b == "testutil" || b == "vendor") {
					return filepath.SkipDir
				}
				return nil
			}
			if !strings.HasSuffix(p, ".go") {
				return nil
			}
			if strings.HasSuffix(p, ".pb.go") || filepath.Base(filepath.Dir(p)) == "shell_parser" {
				if *nodes != "" && !strings.HasSuffix(p, "_test.go") {
					src, err := os.ReadFile(p)
					must(err)
					copies(rel, src)
				}
				return nil
			}
			dst := filepath.Join(*out, strings.ReplaceAll(rel, "/", "__"))
			if strings.HasSuffix(p, "_test.go") {
				overlay[p] = ""
				return nil
			}
			src, err := instrument(p)
			if err != nil {
				return err
			}
			must(os.WriteFile(dst, src, 0o644))
			overlay[p] = dst
			if m, ok := asLibrary(src); ok { // a command: also as a package harnesses can call
				d := filepath.Dir(rel)
				d = filepath.Join(*repo, "verifmain", d[strings.LastIndexAny(d, "-/")+1:])
				must(os.WriteFile(dst+".lib", m, 0o644))
				node := filepath.Join("main", d[strings.LastIndexAny(d, "-/")+1:])
				copies(filepath.Join(node, filepath.Base(rel)), m)
				copies(filepath.Join(node, "verif_entry.go"), []byte("package vmain\n\n// Main runs the command.\nfunc Main() { main() }\n"))
				overlay[filepath.Join(d, filepath.Base(rel))] = dst + ".lib"
				entry := filepath.Join(*out, "entry.lib")
				must(os.WriteFile(entry, []byte("package vmain\n\n// Main runs the command.\nfunc Main() { main() }\n"), 0o644))
				overlay[filepath.Join(d, "verif_entry.go")] = entry
			} else {
				copies(rel, src)
			}
			return nil
		}))
	}
	must(filepath.Walk(*rtdir, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return err
		}
		rel, _ := filepath.Rel(*rtdir, p)
		overlay[filepath.Join(*repo, "verifrt", rel)] = p
		return nil
	}))
	for _, a := range add {
		i := strings.Index(a, "=")
		overlay[filepath.Join(*repo, a[i+1:])] = a[:i]
	}
	b, _ := json.MarshalIndent(map[string]interface{}{"Replace": overlay}, "", " ")
	must(os.WriteFile(filepath.Join(*out, "overlay.json"), b, 0o644))
}

func must(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "instr:", err)
		os.Exit(2)
	}
}

// asLibrary renames package main.
func asLibrary(src []byte) ([]byte, bool) {
	i := bytes.Index(append([]byte("\n"), src...), []byte("\npackage main\n"))
	if i < 0 {
		return nil, false
	}
	r := append([]byte{}, src[:i]...)
	r = append(r, "package vmain\n"...)
	return append(r, src[i+len("package main\n"):]...), true
}

func instrument(path string) ([]byte, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, path, nil, parser.ParseComments)
	if err != nil {
		return nil, err
	}
	f.Comments = keepDirectives(f)
	names := map[string]string{} // local name -> import path, for call redirection
	needs := map[string]bool{}
	var tails []string
	for _, im := range f.Imports {
		p, _ := strconv.Unquote(im.Path.Value)
		if *virt {
			if r, ok := imports[p]; ok {
				if im.Name == nil {
					im.Name = ast.NewIdent(r[0])
				}
				im.Path.Value = strconv.Quote(r[1])
				im.EndPos = 0
			}
			if _, ok := calls[p]; ok {
				n := filepath.Base(p)
				if im.Name != nil {
					n = im.Name.Name
				}
				names[n] = p
			}
		}
	}
	if len(names) > 0 {
		used := map[string]bool{}
		ast.Inspect(f, func(n ast.Node) bool {
			s, ok := n.(*ast.SelectorExpr)
			if !ok {
				return true
			}
			x, ok := s.X.(*ast.Ident)
			if !ok || x.Obj != nil {
				return true
			}
			p, ok := names[x.Name]
			if !ok {
				return true
			}
			if r, ok := calls[p][s.Sel.Name]; ok {
				used[x.Name] = true
				parts := strings.Split(r, ".")
				x.Name, s.Sel.Name = parts[0], parts[1]
				needs[parts[0]] = true
			}
			return true
		})
		for n := range used {
			tails = append(tails, fmt.Sprintf(keep[names[n]], n))
		}
	}
	if *virt {
		ast.Inspect(f, func(n ast.Node) bool {
			if c, ok := n.(*ast.CallExpr); ok && len(c.Args) == 1 {
				if s, ok := c.Fun.(*ast.SelectorExpr); ok && wraps[s.Sel.Name] != "" {
					parts := strings.Split(wraps[s.Sel.Name], ".")
					needs[parts[0]] = true
					c.Args[0] = &ast.CallExpr{Fun: &ast.SelectorExpr{X: ast.NewIdent(parts[0]), Sel: ast.NewIdent(parts[1])}, Args: []ast.Expr{c.Args[0]}}
				}
			}
			return true
		})
	}
	if *virt {
		for _, d := range f.Decls { // functions told about
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Recv != nil || fd.Body == nil || told[f.Name.Name+"."+fd.Name.Name] == "" || len(fd.Type.Params.List) != 1 || len(fd.Type.Params.List[0].Names) != 1 {
				continue
			}
			parts := strings.Split(told[f.Name.Name+"."+fd.Name.Name], ".")
			needs[parts[0]] = true
			fd.Body.List = append([]ast.Stmt{&ast.ExprStmt{X: &ast.CallExpr{Fun: &ast.SelectorExpr{X: ast.NewIdent(parts[0]), Sel: ast.NewIdent(parts[1])},
				Args: []ast.Expr{ast.NewIdent(fd.Type.Params.List[0].Names[0].Name)}}}}, fd.Body.List...)
		}
	}
	if *yield && f.Name.Name != "verifrt" {
		for _, d := range f.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Body != nil && fd.Name.Name != "init" {
				enter := func(b *ast.BlockStmt) {
					entries++
					b.List = append([]ast.Stmt{&ast.ExprStmt{X: &ast.CallExpr{Fun: &ast.SelectorExpr{X: ast.NewIdent("verifrt"), Sel: ast.NewIdent("F")},
						Args: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: fmt.Sprint(entries % 4096)}}}}}, b.List...)
				}
				enter(fd.Body)
				ast.Inspect(fd.Body, func(n ast.Node) bool {
					switch b := n.(type) {
					case *ast.FuncLit:
						enter(b.Body)
					case *ast.BlockStmt:
						b.List = weave(b.List)
					case *ast.CaseClause:
						b.Body = weave(b.Body)
					case *ast.CommClause:
						b.Body = weave(b.Body)
					}
					return true
				})
				needs["verifrt"] = true
			}
		}
	}
	var buf bytes.Buffer
	if err := format.Node(&buf, fset, f); err != nil {
		return nil, err
	}
	s := buf.String()
	var extra []string
	for _, n := range []string{"verifrt", "verifvnet", "verifvssh", "verifvscreen", "verifvhook", "verifvline", "verifvsignal"} {
		if needs[n] {
			extra = append(extra, fmt.Sprintf("import %s %q", n, homes[n]))
		}
	}
	if needs["verifrt"] {
		tails = append(tails, "var _ = verifrt.Y")
	}
	if len(extra) > 0 {
		// insert after the package clause
		i := strings.Index("\n"+s, "\npackage ")
		j := i + strings.Index(s[i:], "\n")
		s = s[:j+1] + strings.Join(extra, "\n") + "\n" + s[j+1:]
	}
	if len(tails) > 0 {
		s += "\n" + strings.Join(tails, "\n") + "\n"
	}
	return []byte(s), nil
}

// keepDirectives drops comments (they would move between inserted statements), except directives.
func keepDirectives(f *ast.File) []*ast.CommentGroup {
	var r []*ast.CommentGroup
	for _, g := range f.Comments {
		if g.Pos() < f.Package {
			for _, c := range g.List {
				if strings.HasPrefix(c.Text, "//go:build") || strings.HasPrefix(c.Text, "// +build") {
					r = append(r, g)
					break
				}
			}
		}
	}
	f.Doc = nil
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.FuncDecl:
			x.Doc = nil
		case *ast.GenDecl:
			x.Doc = nil
		case *ast.TypeSpec:
			x.Doc, x.Comment = nil, nil
		case *ast.ValueSpec:
			x.Doc, x.Comment = nil, nil
		case *ast.Field:
			x.Doc, x.Comment = nil, nil
		case *ast.ImportSpec:
			x.Doc, x.Comment = nil, nil
		}
		return true
	})
	return r
}

// entries counts the functions, which are told apart by their numbers.
var entries int

func yieldStmt() ast.Stmt {
	return &ast.ExprStmt{X: &ast.CallExpr{Fun: &ast.SelectorExpr{X: ast.NewIdent("verifrt"), Sel: ast.NewIdent("Y")}}}
}

func weave(l []ast.Stmt) []ast.Stmt {
	r := make([]ast.Stmt, 0, 2*len(l))
	for _, s := range l {
		switch s.(type) {
		case *ast.CaseClause, *ast.CommClause: // the list of a switch or select body
			r = append(r, s)
			continue
		case *ast.LabeledStmt, *ast.EmptyStmt:
			r = append(r, s)
			continue
		}
		if isYield(s) {
			r = append(r, s)
			continue
		}
		r = append(r, yieldStmt(), split(s))
	}
	return r
}

func isYield(s ast.Stmt) bool {
	e, ok := s.(*ast.ExprStmt)
	if !ok {
		return false
	}
	c, ok := e.X.(*ast.CallExpr)
	if !ok {
		return false
	}
	sel, ok := c.Fun.(*ast.SelectorExpr)
	if !ok {
		return false
	}
	x, ok := sel.X.(*ast.Ident)
	return ok && x.Name == "verifrt" && (sel.Sel.Name == "Y" || sel.Sel.Name == "F")
}

// simple expressions may be evaluated twice: identifiers and field selections.
func simple(e ast.Expr) bool {
	switch x := e.(type) {
	case *ast.Ident:
		return x.Name != "_"
	case *ast.SelectorExpr:
		return simple(x.X)
	case *ast.ParenExpr:
		return simple(x.X)
	}
	return false
}

// split separates the read from the write of a read-modify-write statement.
func split(s ast.Stmt) ast.Stmt {
	t := ast.NewIdent("verifTmp")
	two := func(lhs, rhs ast.Expr) ast.Stmt {
		return &ast.BlockStmt{List: []ast.Stmt{
			&ast.AssignStmt{Lhs: []ast.Expr{t}, Tok: token.DEFINE, Rhs: []ast.Expr{rhs}},
			yieldStmt(),
			&ast.AssignStmt{Lhs: []ast.Expr{lhs}, Tok: token.ASSIGN, Rhs: []ast.Expr{t}},
		}}
	}
	switch x := s.(type) {
	case *ast.IncDecStmt:
		if _, ok := x.X.(*ast.SelectorExpr); ok && simple(x.X) {
			op := token.ADD
			if x.Tok == token.DEC {
				op = token.SUB
			}
			return two(x.X, &ast.BinaryExpr{X: x.X, Op: op, Y: &ast.BasicLit{Kind: token.INT, Value: "1"}})
		}
	case *ast.AssignStmt:
		if len(x.Lhs) != 1 || len(x.Rhs) != 1 || !simple(x.Lhs[0]) {
			return s
		}
		_, field := x.Lhs[0].(*ast.SelectorExpr)
		switch x.Tok {
		case token.ADD_ASSIGN, token.SUB_ASSIGN:
			if field {
				op := token.ADD
				if x.Tok == token.SUB_ASSIGN {
					op = token.SUB
				}
				return two(x.Lhs[0], &ast.BinaryExpr{X: x.Lhs[0], Op: op, Y: &ast.ParenExpr{X: x.Rhs[0]}})
			}
		case token.ASSIGN:
			if c, ok := x.Rhs[0].(*ast.CallExpr); ok {
				if id, ok := c.Fun.(*ast.Ident); ok && id.Name == "append" {
					return two(x.Lhs[0], c)
				}
			}
		}
	}
	return s
}
