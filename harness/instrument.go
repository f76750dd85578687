package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

const schedPath = "verifharness/conc/sched"

// An Instrumented is the library compiled for the scheduler: copies of its
// files with scheduling points, the scheduler's locks and a function that runs
// the initialisation of its mutable package-level variables again.
type Instrumented struct {
	Overlay string   // file for -overlay
	Free    []string // what keeps the scheduler from controlling the library
	Vars    []string // mutable package-level variables
	Points  int      // inserted scheduling points
}

type edit struct {
	off  int
	text string
	del  int
	seq  int
}

// instrument writes the copies below dir.
func instrument(repo, dir string) (*Instrumented, error) {
	cmd := exec.Command("go", "list", "-json=Dir,GoFiles,CgoFiles", "github.com/netascode/xmldot")
	cmd.Stderr = os.Stderr
	out, err := cmd.Output()
	if err != nil {
		return nil, err
	}
	var pkg struct {
		Dir               string
		GoFiles, CgoFiles []string
	}
	if err := json.Unmarshal(out, &pkg); err != nil {
		return nil, err
	}
	// export data of what the library imports
	cmd = exec.Command("go", "list", "-export", "-deps", "-f", "{{.ImportPath}}\t{{.Export}}", "github.com/netascode/xmldot")
	cmd.Stderr = os.Stderr
	out, err = cmd.Output()
	if err != nil {
		return nil, err
	}
	export := map[string]string{}
	for _, l := range strings.Split(string(out), "\n") {
		if p, f, ok := strings.Cut(l, "\t"); ok {
			export[p] = f
		}
	}
	fset := token.NewFileSet()
	imp := importer.ForCompiler(fset, "gc", func(p string) (io.ReadCloser, error) { return os.Open(export[p]) })
	var files []*ast.File
	src := map[*ast.File][]byte{}
	for _, f := range pkg.GoFiles {
		b, err := os.ReadFile(filepath.Join(pkg.Dir, f))
		if err != nil {
			return nil, err
		}
		a, err := parser.ParseFile(fset, filepath.Join(pkg.Dir, f), b, parser.ParseComments)
		if err != nil {
			return nil, err
		}
		files = append(files, a)
		src[a] = b
	}
	info := &types.Info{Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{}, Types: map[ast.Expr]types.TypeAndValue{}, Selections: map[*ast.SelectorExpr]*types.Selection{}}
	conf := types.Config{Importer: imp}
	tp, err := conf.Check("github.com/netascode/xmldot", fset, files, info)
	if err != nil {
		return nil, err
	}

	in := &Instrumented{}
	free := func(n ast.Node, what string) {
		in.Free = append(in.Free, fmt.Sprintf("%s at %s", what, fset.Position(n.Pos())))
	}

	// package-level variables that can change after initialisation
	isGlobal := func(o types.Object) bool { v, ok := o.(*types.Var); return ok && v.Parent() == tp.Scope() }
	mutable := map[types.Object]bool{}
	var root func(e ast.Expr) types.Object
	root = func(e ast.Expr) types.Object {
		switch e := e.(type) {
		case *ast.Ident:
			if o := info.Uses[e]; o != nil && isGlobal(o) {
				return o
			}
		case *ast.SelectorExpr:
			return root(e.X)
		case *ast.IndexExpr:
			return root(e.X)
		case *ast.SliceExpr:
			return root(e.X)
		case *ast.StarExpr:
			return root(e.X)
		case *ast.ParenExpr:
			return root(e.X)
		}
		return nil
	}
	write := func(e ast.Expr) {
		if o := root(e); o != nil {
			mutable[o] = true
		}
	}
	mark := func(e ast.Expr) {
		if o := root(e); o != nil && !fixedType(o.Type()) {
			mutable[o] = true
		}
	}
	reference := func(e ast.Expr) bool {
		t := info.Types[e].Type
		if t == nil {
			return false
		}
		switch t.Underlying().(type) {
		case *types.Map, *types.Slice, *types.Pointer, *types.Chan, *types.Interface:
			return true
		}
		return false
	}
	for _, f := range files {
		ast.Inspect(f, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.AssignStmt:
				for _, l := range n.Lhs {
					write(l)
				}
				for _, r := range n.Rhs { // an alias of a shared object
					if reference(r) {
						mark(r)
					}
				}
			case *ast.IncDecStmt:
				write(n.X)
			case *ast.UnaryExpr:
				if n.Op == token.AND {
					write(n.X)
				}
				if n.Op == token.ARROW {
					free(n, "channel receive")
				}
			case *ast.ReturnStmt:
				for _, r := range n.Results {
					if reference(r) {
						mark(r)
					}
				}
			case *ast.CallExpr:
				for _, a := range n.Args {
					if reference(a) {
						mark(a)
					}
				}
				if s, ok := n.Fun.(*ast.SelectorExpr); ok {
					if sel := info.Selections[s]; sel != nil && sel.Kind() == types.MethodVal {
						mark(s.X)
					}
				}
			case *ast.SendStmt:
				free(n, "channel send")
			case *ast.SelectStmt:
				free(n, "select")
			case *ast.GoStmt:
				free(n, "go statement")
			case *ast.RangeStmt:
				if t := info.Types[n.X].Type; t != nil {
					if _, ok := t.Underlying().(*types.Chan); ok {
						free(n, "range over a channel")
					}
				}
			}
			return true
		})
	}
	for _, n := range tp.Scope().Names() {
		if o := tp.Scope().Lookup(n); isGlobal(o) && !fixedType(o.Type()) && holdsSync(o.Type(), 0) {
			mutable[o] = true
		}
	}
	for o := range mutable {
		in.Vars = append(in.Vars, o.Name())
	}
	sort.Strings(in.Vars)

	object := func(call *ast.CallExpr) types.Object {
		switch f := ast.Unparen(call.Fun).(type) {
		case *ast.SelectorExpr:
			return info.Uses[f.Sel]
		case *ast.Ident:
			return info.Uses[f]
		case *ast.IndexExpr:
			if s, ok := f.X.(*ast.SelectorExpr); ok {
				return info.Uses[s.Sel]
			}
		}
		return nil
	}
	overlay := map[string]string{}
	var initCalls []string
	resets := map[types.Object]string{}
	nInit := 0
	for fi, f := range files {
		b := src[f]
		tf := fset.File(f.Pos())
		var edits []edit
		insert := func(pos token.Pos, text string) {
			edits = append(edits, edit{off: tf.Offset(pos), text: text, seq: len(edits)})
		}
		needSched := false
		// touches says whether the statement itself, without its blocks, uses shared state
		touches := func(s ast.Stmt) (touch, sync, pause bool) {
			ast.Inspect(s, func(n ast.Node) bool {
				switch n := n.(type) {
				case *ast.BlockStmt, *ast.FuncLit, *ast.CaseClause, *ast.CommClause:
					return false
				case *ast.Ident:
					if o := info.Uses[n]; o != nil && mutable[o] && !isLock(o.Type()) {
						touch = true
					}
				case *ast.CallExpr:
					o := object(n)
					if o == nil || o.Pkg() == nil {
						break
					}
					switch o.Pkg().Path() {
					case "sync/atomic":
						sync = true
					case "sync":
						if fn, ok := o.(*types.Func); ok {
							switch recvName(fn) {
							case "Map":
								sync = true
							case "WaitGroup", "Cond":
								free(n, "sync."+recvName(fn))
							}
						}
					case "runtime":
						pause = pause || o.Name() == "Gosched"
					case "time":
						pause = pause || o.Name() == "Sleep"
					}
				}
				return true
			})
			return
		}
		list := func(stmts []ast.Stmt) {
			for _, s := range stmts {
				if _, ok := s.(*ast.DeclStmt); ok {
					if d, ok := s.(*ast.DeclStmt).Decl.(*ast.GenDecl); !ok || d.Tok != token.VAR {
						continue
					}
				}
				touch, sync, pause := touches(s)
				point := ""
				switch {
				case pause:
					point = "verifsched.Pause(); "
				case sync:
					point = "verifsched.Yield(); "
				case touch:
					point = "verifsched.Touch(); "
				default:
					continue
				}
				insert(s.Pos(), point)
				in.Points++
				needSched = true
				if l, ok := s.(*ast.LabeledStmt); ok {
					s = l.Stmt
				}
				if l, ok := s.(*ast.ForStmt); ok && l.Body != nil {
					insert(l.Body.Lbrace+1, " "+point)
				}
			}
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.BlockStmt:
				list(n.List)
			case *ast.CaseClause:
				list(n.Body)
			case *ast.CommClause:
				list(n.Body)
			case *ast.CallExpr:
				if o := object(n); o != nil && o.Pkg() != nil && o.Pkg().Path() == "sync/atomic" {
					if t := info.Types[n].Type; t != nil {
						if tup, ok := t.(*types.Tuple); !ok || tup.Len() == 1 {
							if !info.Types[n].IsVoid() {
								insert(n.Pos(), "verifsched.After(")
								insert(n.End(), ")")
								needSched = true
							}
						}
					}
				}
			case *ast.FuncDecl:
				if n.Recv == nil && n.Name.Name == "init" {
					name := fmt.Sprintf("verifInit%d", nInit)
					nInit++
					edits = append(edits, edit{off: tf.Offset(n.Name.Pos()), del: len("init"), text: name, seq: len(edits)})
					initCalls = append(initCalls, name)
				}
			}
			return true
		})
		var tail bytes.Buffer
		for _, d := range f.Decls {
			g, ok := d.(*ast.GenDecl)
			if !ok {
				continue
			}
			if g.Tok == token.IMPORT {
				for _, s := range g.Specs {
					sp := s.(*ast.ImportSpec)
					if sp.Path.Value == `"sync"` {
						name := "sync "
						if sp.Name != nil {
							name = ""
						}
						edits = append(edits, edit{off: tf.Offset(sp.Path.Pos()), del: len(sp.Path.Value), text: name + `"` + schedPath + `"`, seq: len(edits)})
					}
				}
			}
			if g.Tok != token.VAR {
				continue
			}
			for si, s := range g.Specs {
				sp := s.(*ast.ValueSpec)
				any := false
				for _, n := range sp.Names {
					any = any || mutable[info.Defs[n]]
				}
				if !any {
					continue
				}
				text := func(n ast.Node) string { return string(b[tf.Offset(n.Pos()):tf.Offset(n.End())]) }
				var lhs, rhs []string
				for i, n := range sp.Names {
					if n.Name == "_" && len(sp.Values) != 1 {
						continue
					}
					lhs = append(lhs, n.Name)
					switch {
					case len(sp.Values) == len(sp.Names):
						rhs = append(rhs, text(sp.Values[i]))
					case len(sp.Values) == 0:
						rhs = append(rhs, "*new("+text(sp.Type)+")")
					}
				}
				if len(sp.Values) == 1 && len(sp.Names) > 1 {
					rhs = []string{text(sp.Values[0])}
				}
				name := fmt.Sprintf("verifReset%d_%d_%d", fi, int(g.Pos()), si)
				fmt.Fprintf(&tail, "\nfunc %s() { %s = %s }\n", name, strings.Join(lhs, ", "), strings.Join(rhs, ", "))
				for _, n := range sp.Names {
					if o := info.Defs[n]; o != nil {
						resets[o] = name
					}
				}
			}
		}
		if needSched {
			insert(f.Name.End(), "; import verifsched \""+schedPath+"\"")
		}
		if fi == len(files)-1 {
			// in the order in which Go initialises the package
			var calls []string
			seen := map[string]bool{}
			add := func(c string) {
				if c != "" && !seen[c] {
					seen[c] = true
					calls = append(calls, c)
				}
			}
			var zero []string
			for o, c := range resets {
				has := false
				for _, io := range info.InitOrder {
					for _, l := range io.Lhs {
						has = has || l == o
					}
				}
				if !has {
					zero = append(zero, c)
				}
			}
			sort.Strings(zero)
			for _, c := range zero {
				add(c)
			}
			for _, io := range info.InitOrder {
				for _, l := range io.Lhs {
					add(resets[l])
				}
			}
			for _, c := range initCalls {
				add(c)
			}
			fmt.Fprintf(&tail, "\nfunc init() { %s }\n\n// VerifReset initialises the mutable variables of the package again.\nfunc VerifReset() { %s }\n", strings.Join(callAll(initCalls), "; "), strings.Join(callAll(calls), "; "))
		}
		if len(edits) == 0 && tail.Len() == 0 {
			continue
		}
		sort.SliceStable(edits, func(i, j int) bool {
			if edits[i].off != edits[j].off {
				return edits[i].off < edits[j].off
			}
			return edits[i].seq < edits[j].seq
		})
		var o bytes.Buffer
		at := 0
		for _, e := range edits {
			o.Write(b[at:e.off])
			o.WriteString(e.text)
			at = e.off + e.del
		}
		o.Write(b[at:])
		o.Write(tail.Bytes())
		name := filepath.Join(dir, filepath.Base(tf.Name()))
		if err := os.WriteFile(name, o.Bytes(), 0o644); err != nil {
			return nil, err
		}
		overlay[tf.Name()] = name
	}
	j, _ := json.Marshal(map[string]any{"Replace": overlay})
	in.Overlay = filepath.Join(dir, "overlay.json")
	return in, os.WriteFile(in.Overlay, j, 0o644)
}

func callAll(names []string) []string {
	var out []string
	for _, n := range names {
		out = append(out, n+"()")
	}
	return out
}

func recvName(f *types.Func) string {
	r := f.Signature().Recv()
	if r == nil {
		return ""
	}
	return goTypeName(r.Type())
}

func goTypeName(t types.Type) string {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	if n, ok := t.(*types.Named); ok {
		return n.Obj().Name()
	}
	return ""
}

func inPackage(t types.Type, path string) bool {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == path
}

// isLock: locks make their own scheduling points.
func isLock(t types.Type) bool {
	return inPackage(t, "sync") && (goTypeName(t) == "Mutex" || goTypeName(t) == "RWMutex" || goTypeName(t) == "Once")
}

// fixedType: values that do not change once they are made.
func fixedType(t types.Type) bool {
	return inPackage(t, "strings") && goTypeName(t) == "Replacer" || inPackage(t, "regexp") || t.String() == "error"
}

// holdsSync says whether a type contains a lock or an atomic value.
func holdsSync(t types.Type, depth int) bool {
	if depth > 4 {
		return false
	}
	if inPackage(t, "sync") || inPackage(t, "sync/atomic") {
		return true
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if holdsSync(u.Field(i).Type(), depth+1) {
				return true
			}
		}
	case *types.Array:
		return holdsSync(u.Elem(), depth+1)
	case *types.Pointer:
		return holdsSync(u.Elem(), depth+1)
	}
	return false
}
