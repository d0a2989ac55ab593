// mkoverlay writes instrumented or adapted copies of the library's sources and
// the overlay file that makes the go command use them.  Modes:
//
//	trace    hooks at every block, short-circuit operand and variable index
//	sched    scheduling points; package sync replaced; package variables registered
//	globals  package variables registered only
//	asm      the file selection of an old toolchain on amd64 (legacy assembly)
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/build"
	"go/build/constraint"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

const mod = "github.com/bwesterb/go-ristretto"

func die(f string, a ...any) {
	fmt.Printf(f+"\n", a...)
	os.Exit(1)
}

var (
	mode   = flag.String("mode", "", "")
	repo   = flag.String("repo", "/repo", "")
	dir    = flag.String("dir", "", "where to write the copies")
	out    = flag.String("out", "", "overlay file")
	tags   = flag.String("tags", "", "build tags")
	goarch = flag.String("goarch", "amd64", "")
)

var replace = map[string]string{}

func put(path string, content []byte) {
	f := filepath.Join(*dir, strings.ReplaceAll(strings.TrimPrefix(path, *repo+"/"), "/", "__"))
	if err := os.WriteFile(f, content, 0o644); err != nil {
		die("%v", err)
	}
	replace[path] = f
}

func main() {
	flag.Parse()
	switch *mode {
	case "asm":
		asm()
	case "trace", "sched", "globals":
		instrument()
	default:
		die("unknown mode %q", *mode)
	}
	b, _ := json.MarshalIndent(map[string]any{"Replace": replace}, "", " ")
	if err := os.WriteFile(*out, b, 0o644); err != nil {
		die("%v", err)
	}
}

// ---- asm -------------------------------------------------------------------

func asm() {
	d := filepath.Join(*repo, "edwards25519")
	ents, err := os.ReadDir(d)
	if err != nil {
		die("%v", err)
	}
	var have bool
	for _, e := range ents {
		n := e.Name()
		if !(strings.HasSuffix(n, ".go") || strings.HasSuffix(n, ".s")) || strings.HasSuffix(n, "_test.go") {
			continue
		}
		p := filepath.Join(d, n)
		src, _ := os.ReadFile(p)
		eval := func(old bool) bool {
			ok := true
			var plus, goline bool
			pl := true
			for _, line := range strings.Split(string(src), "\n") {
				t := strings.TrimSpace(line)
				if t == "" {
					continue
				}
				if !strings.HasPrefix(t, "//") {
					break
				}
				if !constraint.IsGoBuild(t) && !constraint.IsPlusBuild(t) {
					continue
				}
				x, err := constraint.Parse(t)
				if err != nil {
					continue
				}
				r := x.Eval(func(tag string) bool {
					switch {
					case tag == "amd64" || tag == "linux" || tag == "gc" || tag == "unix":
						return true
					case strings.HasPrefix(tag, "go1."):
						v, _ := strconv.Atoi(tag[4:])
						return !old || v < 13
					}
					return false
				})
				if constraint.IsGoBuild(t) {
					ok, goline = r, true
				} else {
					pl, plus = pl && r, true
				}
			}
			if !goline && plus {
				ok = pl
			}
			return ok
		}
		now, then := eval(false), eval(true)
		if then && strings.HasSuffix(n, ".s") {
			have = true
		}
		if now == then {
			continue
		}
		if !then {
			replace[p] = "" // as if the file did not exist
			continue
		}
		var b bytes.Buffer
		for _, line := range strings.SplitAfter(string(src), "\n") {
			t := strings.TrimSpace(line)
			if constraint.IsGoBuild(t) || constraint.IsPlusBuild(t) {
				b.WriteString("\n")
				continue
			}
			b.WriteString(line)
		}
		put(p, b.Bytes())
	}
	if !have {
		die("no assembly in this tree")
	}
}

// ---- instrumentation -----------------------------------------------------------

type edit struct {
	off  int
	del  int
	text string
	seq  int
	end  bool // closes something that ends here
}

type file struct {
	path  string
	src   []byte
	ast   *ast.File
	edits []edit
}

type inst struct {
	fset *token.FileSet
	info *types.Info
	pkg  *types.Package
	path string
	f    *file
	seq  int
	site *int
	name []string
	base int
}

func exports() func(path string) (io.ReadCloser, error) {
	args := []string{"list", "-export", "-deps", "-f", "{{.ImportPath}}\t{{.Export}}"}
	if *tags != "" {
		args = append(args, "-tags", *tags)
	}
	args = append(args, mod, mod+"/edwards25519")
	c := exec.Command("go", args...)
	var eb bytes.Buffer
	c.Stderr = &eb
	o, err := c.Output()
	if err != nil {
		die("go list: %v %s", err, eb.String())
	}
	m := map[string]string{}
	for _, l := range strings.Split(string(o), "\n") {
		p := strings.SplitN(l, "\t", 2)
		if len(p) == 2 && p[1] != "" {
			m[p[0]] = p[1]
		}
	}
	return func(path string) (io.ReadCloser, error) {
		f, ok := m[path]
		if !ok {
			if f, ok = m["vendor/"+path]; !ok {
				return nil, fmt.Errorf("no export data for %s", path)
			}
		}
		return os.Open(f)
	}
}

func instrument() {
	look := exports()
	ctx := build.Default
	ctx.GOARCH = *goarch
	if *tags != "" {
		ctx.BuildTags = strings.Split(*tags, ",")
	}
	site := 1
	for _, sub := range []string{"edwards25519", ""} {
		d := filepath.Join(*repo, sub)
		bp, err := ctx.ImportDir(d, 0)
		if err != nil {
			die("%v", err)
		}
		in := &inst{fset: token.NewFileSet(), site: &site, base: site, path: strings.TrimSuffix(mod+"/"+sub, "/")}
		in.info = &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{}}
		var files []*file
		var asts []*ast.File
		for _, n := range bp.GoFiles {
			p := filepath.Join(d, n)
			src, err := os.ReadFile(p)
			if err != nil {
				die("%v", err)
			}
			a, err := parser.ParseFile(in.fset, p, src, parser.ParseComments)
			if err != nil {
				die("%v", err)
			}
			files = append(files, &file{path: p, src: src, ast: a})
			asts = append(asts, a)
		}
		conf := types.Config{Importer: importer.ForCompiler(in.fset, "gc", look), Error: func(error) {}}
		pkg, err := conf.Check(in.path, in.fset, asts, in.info)
		if err != nil {
			die("type check: %v", err)
		}
		in.pkg = pkg
		if *mode != "globals" {
			for _, f := range files {
				in.f = f
				in.file()
			}
		}
		in.globals(d, files)
	}
}

func (in *inst) newSite(pos token.Pos, what string) int {
	p := in.fset.Position(pos)
	in.name = append(in.name, fmt.Sprintf("%s:%d:%d %s", strings.TrimPrefix(p.Filename, *repo+"/"), p.Line, p.Column, what))
	*in.site++
	return *in.site - 1
}

func (in *inst) off(p token.Pos) int { return in.fset.Position(p).Offset }

func (in *inst) ins(p token.Pos, text string) {
	in.seq++
	in.f.edits = append(in.f.edits, edit{off: in.off(p), text: text, seq: in.seq})
}
func (in *inst) insEnd(p token.Pos, text string) {
	in.seq++
	in.f.edits = append(in.f.edits, edit{off: in.off(p), text: text, seq: in.seq, end: true})
}
func (in *inst) del(p token.Pos, n int, text string) {
	in.seq++
	in.f.edits = append(in.f.edits, edit{off: in.off(p), del: n, text: text, seq: in.seq})
}

func (in *inst) isConst(e ast.Expr) bool {
	tv, ok := in.info.Types[e]
	return ok && tv.Value != nil
}

func (in *inst) file() {
	f := in.f
	before := len(f.edits)
	tail := ""
	for _, d := range f.ast.Decls {
		switch d := d.(type) {
		case *ast.FuncDecl:
			if d.Body == nil {
				continue
			}
			if *mode == "trace" {
				in.trace(d, &tail)
			} else {
				in.sched(d)
			}
		case *ast.GenDecl:
			if *mode == "trace" {
				in.trace(d, &tail)
			}
		}
	}
	if *mode == "sched" {
		for _, im := range f.ast.Imports {
			if im.Path.Value == `"sync"` {
				name := ""
				if im.Name == nil {
					name = "sync "
				}
				in.del(im.Path.Pos(), len(im.Path.Value), name+`"verif/mc/hook/vsync"`)
			}
		}
	}
	if len(f.edits) == before {
		return
	}
	in.insEnd(f.ast.Name.End(), "; import verifhook \"verif/mc/hook\"")
	es := f.edits
	sort.SliceStable(es, func(i, j int) bool {
		a, b := es[i], es[j]
		if a.off != b.off {
			return a.off < b.off
		}
		if a.end != b.end {
			return a.end
		}
		if a.end {
			return a.seq > b.seq
		}
		return a.seq < b.seq
	})
	var b bytes.Buffer
	pos := 0
	for _, e := range es {
		if e.off < pos {
			die("overlapping edits in %s", f.path)
		}
		b.Write(f.src[pos:e.off])
		b.WriteString(e.text)
		pos = e.off + e.del
	}
	b.Write(f.src[pos:])
	b.WriteString("\nvar _ = verifhook.NumGlobals\n" + tail)
	put(f.path, b.Bytes())
}

func (in *inst) block(b *ast.BlockStmt, what string) {
	if b != nil {
		in.ins(b.Lbrace+1, fmt.Sprintf(" verifhook.B(%d);", in.newSite(b.Lbrace, what)))
	}
}

func arrayLike(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Array, *types.Struct:
		return true
	case *types.Basic:
		return u.Info()&types.IsString != 0
	}
	return false
}

func (in *inst) trace(n ast.Node, tail *string) {
	idx := func(e ast.Expr) {
		if e == nil || in.isConst(e) {
			return
		}
		in.ins(e.Pos(), fmt.Sprintf("verifhook.I(%d, int(", in.newSite(e.Pos(), "index")))
		in.insEnd(e.End(), "))")
	}
	ast.Inspect(n, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.FuncDecl:
			in.block(n.Body, "func "+n.Name.Name)
		case *ast.FuncLit:
			in.block(n.Body, "func literal")
		case *ast.IfStmt:
			in.block(n.Body, "if")
			if e, ok := n.Else.(*ast.BlockStmt); ok {
				in.block(e, "else")
			}
		case *ast.ForStmt:
			in.block(n.Body, "for")
		case *ast.RangeStmt:
			in.block(n.Body, "range")
		case *ast.CaseClause:
			in.ins(n.Colon+1, fmt.Sprintf(" verifhook.B(%d);", in.newSite(n.Colon, "case")))
		case *ast.CommClause:
			in.ins(n.Colon+1, fmt.Sprintf(" verifhook.B(%d);", in.newSite(n.Colon, "case")))
		case *ast.LabeledStmt:
			in.ins(n.Colon+1, fmt.Sprintf(" verifhook.B(%d);", in.newSite(n.Colon, "label")))
			// a labelled loop must stay directly behind its label
			switch n.Stmt.(type) {
			case *ast.ForStmt, *ast.RangeStmt, *ast.SwitchStmt, *ast.TypeSwitchStmt, *ast.SelectStmt, *ast.BlockStmt:
				in.f.edits = in.f.edits[:len(in.f.edits)-1]
			}
		case *ast.BinaryExpr:
			if in.isConst(n) {
				return false
			}
			switch n.Op {
			case token.LAND, token.LOR:
				in.ins(n.Y.Pos(), fmt.Sprintf("(verifhook.C(%d) && (", in.newSite(n.Y.Pos(), n.Op.String())))
				in.insEnd(n.Y.End(), "))")
			case token.EQL, token.NEQ:
				tx, ty := in.info.TypeOf(n.X), in.info.TypeOf(n.Y)
				if tx != nil && ty != nil && arrayLike(tx) && types.Identical(tx, ty) {
					not := ""
					if n.Op == token.NEQ {
						not = "!"
					}
					in.ins(n.Pos(), fmt.Sprintf("%sverifhook.AE(%d, ", not, in.newSite(n.OpPos, "comparison")))
					in.del(n.OpPos, 2, ",")
					in.insEnd(n.End(), ")")
				}
			}
		case *ast.CallExpr:
			if s, ok := n.Fun.(*ast.SelectorExpr); ok {
				if id, ok := s.X.(*ast.Ident); ok {
					if pn, ok := in.info.Uses[id].(*types.PkgName); ok && pn.Imported().Path() == "bytes" && (s.Sel.Name == "Equal" || s.Sel.Name == "Compare") {
						h := map[string]string{"Equal": "BE", "Compare": "BC"}[s.Sel.Name]
						st := in.newSite(n.Pos(), "bytes."+s.Sel.Name)
						in.del(n.Pos(), int(n.Lparen+1-n.Pos()), fmt.Sprintf("verifhook.%s(%d, ", h, st))
						*tail += "var _ = " + id.Name + "." + s.Sel.Name + "\n"
					}
				}
			}
		case *ast.IndexExpr:
			t := in.info.TypeOf(n.X)
			if t == nil {
				return true
			}
			switch u := t.Underlying().(type) {
			case *types.Array, *types.Slice, *types.Pointer:
				idx(n.Index)
			case *types.Basic:
				if u.Info()&types.IsString != 0 {
					idx(n.Index)
				}
			}
		case *ast.SliceExpr:
			idx(n.Low)
			idx(n.High)
			idx(n.Max)
		}
		return true
	})
}

// shared tells whether the function touches package-level variables or synchronisation.
func (in *inst) shared(n ast.Node) bool {
	r := false
	ast.Inspect(n, func(n ast.Node) bool {
		id, ok := n.(*ast.Ident)
		if !ok {
			return true
		}
		switch o := in.info.Uses[id].(type) {
		case *types.Var:
			if o.Pkg() != nil && strings.HasPrefix(o.Pkg().Path(), mod) && o.Parent() == o.Pkg().Scope() {
				r = true
			}
		case *types.PkgName:
			if p := o.Imported().Path(); p == "sync" || p == "sync/atomic" || p == "unsafe" {
				r = true
			}
		}
		return true
	})
	return r
}

func (in *inst) sched(d *ast.FuncDecl) {
	p := func(pos token.Pos, what string) string {
		return fmt.Sprintf(" verifhook.P(%d);", in.newSite(pos, what))
	}
	in.ins(d.Body.Lbrace+1, p(d.Body.Lbrace, "func "+d.Name.Name))
	if d.Name.Name == "init" && d.Recv == nil {
		return
	}
	all := in.shared(d.Body)
	ast.Inspect(d, func(n ast.Node) bool {
		var list []ast.Stmt
		switch n := n.(type) {
		case *ast.GoStmt, *ast.SelectStmt, *ast.SendStmt:
			die("%s: concurrency inside the library is not modelled by the scheduler", in.fset.Position(n.Pos()))
		case *ast.UnaryExpr:
			if n.Op == token.ARROW {
				die("%s: concurrency inside the library is not modelled by the scheduler", in.fset.Position(n.Pos()))
			}
		case *ast.BlockStmt:
			list = n.List
		case *ast.CaseClause:
			list = n.Body
		}
		if all {
			for _, s := range list {
				switch s.(type) {
				case *ast.CaseClause, *ast.CommClause:
					continue
				}
				in.ins(s.Pos(), p(s.Pos(), "statement"))
			}
		}
		return true
	})
}

func (in *inst) globals(d string, files []*file) {
	var b bytes.Buffer
	fmt.Fprintf(&b, "package %s\n\nimport verifhook \"verif/mc/hook\"\n\nfunc init() {\n", in.pkg.Name())
	var names []string
	for _, n := range in.pkg.Scope().Names() {
		if _, ok := in.pkg.Scope().Lookup(n).(*types.Var); ok && n != "_" {
			names = append(names, n)
		}
	}
	fmt.Fprintf(&b, "\tverifhook.Globals(%q", in.path)
	for _, n := range names {
		fmt.Fprintf(&b, ", &%s", n)
	}
	b.WriteString(")\n")
	if len(in.name) > 0 {
		fmt.Fprintf(&b, "\tverifhook.Site(%d", in.base)
		for _, s := range in.name {
			fmt.Fprintf(&b, ",\n\t\t%q", s)
		}
		b.WriteString(")\n")
	}
	b.WriteString("}\n")
	put(filepath.Join(d, "zz_verif_hooks.go"), b.Bytes())
}
