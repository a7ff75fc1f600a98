// instr rewrites the Go packages of a module so that they can run as simulated processes.
//
//	instr -repo DIR -out DIR -slots N
//
// For each slot it emits a copy of every package where
//   - imports of os, time, ... go to the shims of the slot,
//   - ranges over maps go through rt.Range,
//   - functions and loops start with rt.Tick,
//   - package variables are re-initialised and init functions re-run by SimReset,
//   - package main becomes importable, with main renamed to SimMain.
//
// The rewriting is by byte offsets, so line numbers stay as they are.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type pkgInfo struct {
	ImportPath string
	Dir        string
	Name       string
	GoFiles    []string
	Imports    []string
	Export     string
	Standard   bool
	Module     *struct{ Path string }
}

var shims = map[string]bool{
	"os": true, "path/filepath": true, "io/ioutil": true, "time": true, "fmt": true, "log": true,
	"sync": true, "runtime": true, "syscall": true, "os/signal": true,
	"math/rand": true, "math/rand/v2": true, "maps": true, "flag": true, "crypto/rand": true,
}

var denied = map[string]bool{
	"os/exec": true, "os/user": true, "net": true, "unsafe": true,
	"plugin": true, "testing": true, "C": true, "log/slog": true,
}

var concurrent bool // the module starts goroutines

type edit struct {
	from, to int
	text     string // "\x00P" is replaced by the import prefix of the slot
}

type srcFile struct {
	name  string
	src   []byte
	ast   *ast.File
	edits []edit
	cuts  []edit            // replaced ranges of the main text; edits inside them are dropped there
	extra map[string]string // additional imports: path -> alias
	tail  strings.Builder
}

func fatal(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "instr: "+f+"\n", a...)
	os.Exit(2)
}

func main() {
	repo := flag.String("repo", "/repo", "module to instrument")
	out := flag.String("out", "", "output directory (gen)")
	prefix := flag.String("prefix", "vsim/gen", "import path of the output directory")
	slots := flag.Int("slots", 3, "number of copies")
	shimdir := flag.String("shims", "", "directory of shim sources")
	flag.Parse()

	cmd := exec.Command("go", "list", "-e", "-deps", "-export", "-json=ImportPath,Dir,Name,GoFiles,Imports,Export,Standard,Module", "./...", "flag")
	cmd.Dir = *repo
	cmd.Stderr = os.Stderr
	b, err := cmd.Output()
	if err != nil {
		fatal("go list: %v", err)
	}
	var modPath string
	gm, err := os.ReadFile(filepath.Join(*repo, "go.mod"))
	if err != nil {
		fatal("%v", err)
	}
	for _, l := range strings.Split(string(gm), "\n") {
		if strings.HasPrefix(l, "module ") {
			modPath = strings.TrimSpace(l[7:])
		}
	}
	pkgs := map[string]*pkgInfo{}
	var order []string
	dec := json.NewDecoder(bytes.NewReader(b))
	for {
		var p pkgInfo
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			fatal("go list output: %v", err)
		}
		pkgs[p.ImportPath] = &p
		order = append(order, p.ImportPath) // deps come first
	}

	inModule := func(ip string) bool {
		return ip == modPath || strings.HasPrefix(ip, modPath+"/") || ip == "flag"
	}
	rel := func(ip string) string { // directory below the slot
		if ip == modPath {
			return "coin"
		}
		if ip == "flag" {
			return "shim/flag"
		}
		return "m/" + strings.TrimPrefix(ip, modPath+"/")
	}
	fset := token.NewFileSet()
	gc := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		p := pkgs[path]
		if p == nil || p.Export == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(p.Export)
	})
	checked := map[string]*types.Package{}
	imp := importerFunc(func(path string) (*types.Package, error) {
		if c := checked[path]; c != nil {
			return c, nil
		}
		return gc.Import(path)
	})

	concurrent = false
	for _, ip := range order {
		if inModule(ip) && ip != "flag" {
			for _, f := range pkgs[ip].GoFiles {
				if a, err := parser.ParseFile(token.NewFileSet(), filepath.Join(pkgs[ip].Dir, f), nil, 0); err == nil {
					ast.Inspect(a, func(n ast.Node) bool {
						switch n := n.(type) {
						case *ast.GoStmt:
							concurrent = true
						case *ast.SelectorExpr: // wg.Go(f)
							concurrent = concurrent || n.Sel.Name == "Go" || n.Sel.Name == "AfterFunc"
							if n.Sel.Name == "Pipe" {
								shims["io"] = true // its ends block each other
							}
						}
						return true
					})
				}
			}
		}
	}

	type outPkg struct {
		info  *pkgInfo
		files []*srcFile
		main  bool
		deps  []string // in-module deps, transitively, topological
	}
	var outs []*outPkg
	outBy := map[string]*outPkg{}

	for _, ip := range order {
		if !inModule(ip) || strings.HasSuffix(ip, "/assert") {
			continue
		}
		pi := pkgs[ip]
		if len(pi.GoFiles) == 0 {
			continue
		}
		op := &outPkg{info: pi, main: pi.Name == "main"}
		var asts []*ast.File
		sort.Strings(pi.GoFiles)
		for _, f := range pi.GoFiles {
			fn := filepath.Join(pi.Dir, f)
			src, err := os.ReadFile(fn)
			if err != nil {
				fatal("%v", err)
			}
			a, err := parser.ParseFile(fset, fn, src, parser.ParseComments)
			if err != nil {
				fatal("%v", err)
			}
			op.files = append(op.files, &srcFile{name: f, src: src, ast: a})
			asts = append(asts, a)
		}
		info := &types.Info{
			Types: map[ast.Expr]types.TypeAndValue{},
			Defs:  map[*ast.Ident]types.Object{},
			Uses:  map[*ast.Ident]types.Object{},
		}
		conf := types.Config{Importer: imp, Sizes: types.SizesFor("gc", "amd64"),
			Error: func(err error) {}}
		tp, err := conf.Check(ip, fset, asts, info)
		if err != nil {
			fatal("type check %s: %v", ip, err)
		}
		checked[ip] = tp
		instrument(fset, pi, op.files, info, tp, inModule, rel, ip == "flag")
		seen := map[string]bool{}
		for _, i := range pi.Imports {
			if d := outBy[i]; d != nil {
				for _, dd := range append(append([]string{}, d.deps...), i) {
					if !seen[dd] {
						seen[dd] = true
						op.deps = append(op.deps, dd)
					}
				}
			}
		}
		outs = append(outs, op)
		outBy[ip] = op
	}

	os.RemoveAll(*out)
	for s := 0; s < *slots; s++ {
		pfx := fmt.Sprintf("%s/s%d", *prefix, s)
		dir := filepath.Join(*out, fmt.Sprintf("s%d", s))
		for _, op := range outs {
			d := filepath.Join(dir, rel(op.info.ImportPath))
			if err := os.MkdirAll(d, 0o755); err != nil {
				fatal("%v", err)
			}
			for _, f := range op.files {
				text := strings.ReplaceAll(f.full(), "\x00P", pfx)
				if err := os.WriteFile(filepath.Join(d, f.name), []byte(text), 0o644); err != nil {
					fatal("%v", err)
				}
			}
		}
		// shims
		err := filepath.Walk(*shimdir, func(p string, fi os.FileInfo, err error) error {
			if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") {
				return err
			}
			b, err := os.ReadFile(p)
			if err != nil {
				return err
			}
			r, _ := filepath.Rel(*shimdir, p)
			o := filepath.Join(dir, r)
			if err := os.MkdirAll(filepath.Dir(o), 0o755); err != nil {
				return err
			}
			return os.WriteFile(o, bytes.ReplaceAll(b, []byte("vsim/shimsrc/"), []byte(pfx+"/")), 0o644)
		})
		if err != nil {
			fatal("%v", err)
		}
		// registry
		var w strings.Builder
		w.WriteString("package s" + strconv.Itoa(s) + "\n\nimport (\n\t\"vsim/simrt\"\n")
		fmt.Fprintf(&w, "\trt %q\n\tshimreset %q\n", pfx+"/rt", pfx+"/shim/reset")
		used := map[string]string{}
		n := 0
		var mains []*outPkg
		for _, op := range outs {
			if op.main {
				mains = append(mains, op)
				for _, d := range append(append([]string{}, op.deps...), op.info.ImportPath) {
					if used[d] == "" {
						used[d] = fmt.Sprintf("p%d", n)
						n++
						fmt.Fprintf(&w, "\t%s %q\n", used[d], pfx+"/"+rel(d))
					}
				}
			}
		}
		w.WriteString(")\n\nvar Slot = &simrt.Slot{\n\tBind: func(p *simrt.Proc) { rt.Bind(p); if p != nil { shimreset.Reset() } },\n\tCmds: map[string]func(){\n")
		for _, op := range mains {
			fmt.Fprintf(&w, "\t\t%q: func() {\n", filepath.Base(op.info.ImportPath))
			for _, d := range append(append([]string{}, op.deps...), op.info.ImportPath) {
				fmt.Fprintf(&w, "\t\t\t%s.SimReset()\n", used[d])
			}
			fmt.Fprintf(&w, "\t\t\t%s.SimMain()\n\t\t},\n", used[op.info.ImportPath])
		}
		w.WriteString("\t},\n}\n")
		if err := os.WriteFile(filepath.Join(dir, "slot.go"), []byte(w.String()), 0o644); err != nil {
			fatal("%v", err)
		}
	}
}

type importerFunc func(path string) (*types.Package, error)

func (f importerFunc) Import(path string) (*types.Package, error) { return f(path) }

// full is the whole instrumented file.
func (f *srcFile) full() string {
	main := &srcFile{name: f.name, src: f.src}
	for _, e := range f.edits {
		in := false
		for _, c := range f.cuts {
			in = in || e.from >= c.from && e.to <= c.to
		}
		if !in {
			main.edits = append(main.edits, e)
		}
	}
	main.edits = append(main.edits, f.cuts...)
	text := main.apply(0, len(f.src)) + f.tail.String()
	var imps strings.Builder
	var ps []string
	for p := range f.extra {
		ps = append(ps, p)
	}
	sort.Strings(ps)
	for _, p := range ps {
		fmt.Fprintf(&imps, "; import %s \"%s\"", f.extra[p], p)
	}
	return strings.Replace(text, "/rt\"", "/rt\""+imps.String(), 1)
}

func (f *srcFile) apply(from, to int) string {
	es := append([]edit{}, f.edits...)
	sort.SliceStable(es, func(i, j int) bool { return es[i].from < es[j].from })
	var w strings.Builder
	pos := from
	for _, e := range es {
		if e.from < from || e.to > to || (e.from == to && e.to == to && to != len(f.src)) {
			continue
		}
		if e.from < pos {
			fatal("%s: overlapping edits", f.name)
		}
		w.Write(f.src[pos:e.from])
		w.WriteString(e.text)
		pos = e.to
	}
	w.Write(f.src[pos:to])
	return w.String()
}

func instrument(fset *token.FileSet, pi *pkgInfo, files []*srcFile, info *types.Info, tp *types.Package,
	inModule func(string) bool, rel func(string) string, isFlag bool) {
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	byName := map[string]*srcFile{}
	ninit := 0
	var inits []string
	embeds := map[string]string{} // var name -> pattern
	for _, f := range files {
		byName[fset.Position(f.ast.Pos()).Filename] = f
		// package clause
		name := f.ast.Name.Name
		if name == "main" {
			name = "maincmd"
		}
		f.edits = append(f.edits, edit{off(f.ast.Name.Pos()), off(f.ast.Name.End()),
			name + "; import simrt__ \"\x00P/rt\""})
		f.tail.WriteString("\nvar _ = simrt__.Tick\n")
		for _, i := range f.ast.Imports {
			path, _ := strconv.Unquote(i.Path.Value)
			np := ""
			alias := ""
			switch {
			case denied[path] && !isFlag:
				fatal("%s imports %s, which the simulator does not model", f.name, path)
			case inModule(path):
				np = "\x00P/" + rel(path)
				if i.Name == nil {
					alias = tp.Name()
					for _, im := range tp.Imports() {
						if im.Path() == path {
							alias = im.Name()
						}
					}
					alias += " "
				}
			case shims[path]:
				np = "\x00P/shim/" + path
				if i.Name == nil && strings.HasSuffix(path, "/v2") {
					alias = "rand "
				}
			}
			if np != "" {
				f.edits = append(f.edits, edit{off(i.Path.Pos()), off(i.Path.End()), alias + "\"" + np + "\""})
			}
		}
		// go:embed comments
		for _, cg := range f.ast.Comments {
			for _, c := range cg.List {
				if strings.HasPrefix(c.Text, "//go:embed ") {
					f.edits = append(f.edits, edit{off(c.Pos()), off(c.Pos()) + len("//go:embed"), "// embed"})
					for _, d := range f.ast.Decls {
						if gd, ok := d.(*ast.GenDecl); ok && gd.Tok == token.VAR && gd.Pos() > c.End() {
							if vs := gd.Specs[0].(*ast.ValueSpec); len(vs.Names) == 1 {
								embeds[vs.Names[0].Name] = strings.TrimSpace(c.Text[len("//go:embed "):])
							}
							break
						}
					}
				}
			}
		}
		// with goroutines about, any statement may be followed by another goroutine's
		stmt := func(f *srcFile, s ast.Stmt) {
			switch s.(type) {
			case *ast.CaseClause, *ast.CommClause, *ast.EmptyStmt:
				return
			}
			f.edits = append(f.edits, edit{off(s.Pos()), off(s.Pos()), "simrt__.Tick();"})
		}
		tick := func(b *ast.BlockStmt) {
			if b == nil || isFlag {
				return
			}
			o := off(b.Lbrace) + 1
			f.edits = append(f.edits, edit{o, o, "simrt__.Tick();"})
		}
		two := map[ast.Expr]bool{}
		comm := map[ast.Node]bool{} // the operations of select cases
		var selects []*ast.SelectStmt
		goes := func(f *srcFile, n *ast.GoStmt) {
			fn := ""
			if t := info.TypeOf(n.Call.Fun); t != nil {
				if sig, ok := t.Underlying().(*types.Signature); ok && !sig.Variadic() && sig.Results().Len() <= 2 {
					fn = fmt.Sprintf("Go%d%s", sig.Params().Len(), strings.Repeat("r", sig.Results().Len()))
				}
			}
			switch fn {
			case "Go0", "Go0r", "Go0rr", "Go1", "Go1r", "Go1rr", "Go2", "Go2r", "Go2rr", "Go3", "Go3r", "Go4", "Go5":
				f.edits = append(f.edits,
					edit{off(n.Pos()), off(n.Pos()) + 2, "simrt__." + fn + "("},
					edit{off(n.Call.Fun.End()), off(n.Call.Fun.End()), ")"})
			default:
				f.edits = append(f.edits,
					edit{off(n.Pos()), off(n.Pos()) + 2, "simrt__.GoF(func() { "},
					edit{off(n.End()), off(n.End()), " })"})
			}
		}
		ast.Inspect(f.ast, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.BlockStmt:
				if concurrent && !isFlag {
					for _, s := range n.List {
						stmt(f, s)
					}
				}
			case *ast.CommClause:
				if concurrent && !isFlag {
					for _, s := range n.Body {
						stmt(f, s)
					}
				}
			case *ast.CaseClause:
				if concurrent && !isFlag {
					for _, s := range n.Body {
						stmt(f, s)
					}
				}
			case *ast.FuncDecl:
				if n.Recv == nil && n.Name.Name == "init" {
					nn := fmt.Sprintf("simInit_%d", ninit)
					ninit++
					inits = append(inits, nn)
					f.edits = append(f.edits, edit{off(n.Name.Pos()), off(n.Name.End()), nn})
				}
				if n.Recv == nil && n.Name.Name == "main" && tp.Name() == "main" {
					f.edits = append(f.edits, edit{off(n.Name.Pos()), off(n.Name.End()), "SimMain"})
				}
				if n.Body != nil {
					tick(n.Body)
				}
			case *ast.FuncLit:
				tick(n.Body)
			case *ast.ForStmt:
				tick(n.Body)
			case *ast.RangeStmt:
				tick(n.Body)
				if t := info.TypeOf(n.X); t != nil {
					if isMap(t) {
						f.edits = append(f.edits,
							edit{off(n.X.Pos()), off(n.X.Pos()), "simrt__.Range("},
							edit{off(n.X.End()), off(n.X.End()), ")"})
					}
				}
				if t := info.TypeOf(n.X); t != nil && isChan(t) {
					f.edits = append(f.edits,
						edit{off(n.X.Pos()), off(n.X.Pos()), "simrt__.ChanRange("},
						edit{off(n.X.End()), off(n.X.End()), ")"})
				}
			case *ast.GoStmt:
				goes(f, n)
			case *ast.SendStmt:
				if comm[n] {
					return true
				}
				f.edits = append(f.edits,
					edit{off(n.Pos()), off(n.Pos()), "simrt__.Send("},
					edit{off(n.Arrow), off(n.Arrow) + 2, ")("},
					edit{off(n.End()), off(n.End()), ")"})
			case *ast.AssignStmt:
				if len(n.Lhs) == 2 && len(n.Rhs) == 1 {
					two[ast.Unparen(n.Rhs[0])] = true
				}
			case *ast.ValueSpec:
				if len(n.Names) == 2 && len(n.Values) == 1 {
					two[ast.Unparen(n.Values[0])] = true
				}
			case *ast.UnaryExpr:
				if n.Op == token.ARROW && !comm[n] {
					fn := "simrt__.Recv("
					if two[n] {
						fn = "simrt__.Recv2("
					}
					f.edits = append(f.edits,
						edit{off(n.Pos()), off(n.Pos()) + 2, fn},
						edit{off(n.End()), off(n.End()), ")"})
				}
			case *ast.SelectStmt:
				selects = append(selects, n)
				for _, c := range n.Body.List {
					switch s := c.(*ast.CommClause).Comm.(type) {
					case *ast.SendStmt:
						comm[s] = true
					case *ast.ExprStmt:
						comm[ast.Unparen(s.X)] = true
					case *ast.AssignStmt:
						comm[ast.Unparen(s.Rhs[0])] = true
					}
				}
			case *ast.CallExpr:
				if id, ok := ast.Unparen(n.Fun).(*ast.Ident); ok && len(n.Args) == 1 {
					if b, ok := info.Uses[id].(*types.Builtin); ok && (b.Name() == "close" || b.Name() == "len" && isChan(info.TypeOf(n.Args[0]))) {
						f.edits = append(f.edits, edit{off(n.Fun.Pos()), off(n.Fun.End()), map[string]string{"close": "simrt__.Close", "len": "simrt__.Len"}[b.Name()]})
					}
				}
			}
			return true
		})
		for i := len(selects) - 1; i >= 0; i-- { // inner ones come after outer ones
			sel := selects[i]
			var names, vals []string
			def := false
			for j, c := range sel.Body.List {
				cc := c.(*ast.CommClause)
				if cc.Comm == nil {
					def = true
					continue
				}
				name := fmt.Sprintf("sim%d_%d__", i, j)
				text := func(e ast.Expr) string { return f.apply(off(e.Pos()), off(e.End())) }
				recv := func(e ast.Expr) string {
					return "simrt__.RecvCase(" + text(ast.Unparen(e).(*ast.UnaryExpr).X) + ")"
				}
				n := strconv.Itoa(len(names))
				head := ""
				switch s := cc.Comm.(type) {
				case *ast.SendStmt:
					vals = append(vals, "simrt__.SendCase("+text(s.Chan)+")("+text(s.Value)+")")
				case *ast.ExprStmt:
					vals = append(vals, recv(s.X))
				case *ast.AssignStmt:
					vals = append(vals, recv(s.Rhs[0]))
					head = text(s.Lhs[0])
					r := name + ".V"
					if len(s.Lhs) == 2 {
						head += ", " + text(s.Lhs[1])
						r += ", " + name + ".OK"
					}
					head += " " + s.Tok.String() + " " + r + ";"
				}
				f.cuts = append(f.cuts, edit{off(cc.Pos()), off(cc.Colon) + 1, "case " + n + ": " + head})
				names = append(names, name)
			}
			head := "switch "
			if len(names) > 0 {
				head += strings.Join(names, ", ") + " := " + strings.Join(vals, ", ") + "; "
			}
			head += "simrt__.Select(" + strings.Join(append([]string{strconv.FormatBool(def)}, names...), ", ") + ") {"
			// the text between stays on as many lines
			f.cuts = append(f.cuts, edit{off(sel.Select), off(sel.Body.Lbrace) + 1, strings.ReplaceAll(head, "\n", " ")})
		}
	}
	// compiled expressions built from constants and each other keep their initialisers
	isRex := func(t types.Type) bool {
		s := t.String()
		return s == "*regexp.Regexp" || strings.HasSuffix(s, "/rex.Exp") || strings.HasSuffix(s, "*rex.Exp")
	}
	keep := map[types.Object]bool{}
	for _, in := range info.InitOrder {
		pure := true
		for _, v := range in.Lhs {
			pure = pure && isRex(v.Type())
		}
		ast.Inspect(in.Rhs, func(n ast.Node) bool {
			id, ok := n.(*ast.Ident)
			if !ok {
				return true
			}
			switch o := info.Uses[id].(type) {
			case *types.Var:
				if !keep[o] && !(o.Pkg() != tp && isRex(o.Type())) {
					pure = false
				}
			case *types.Func:
				if p := o.Pkg(); p == nil || p.Name() != "rex" && p.Path() != "regexp" && p.Path() != "strings" && p.Path() != "fmt" {
					pure = false
				}
			}
			return true
		})
		for _, v := range in.Lhs {
			keep[v] = pure
		}
	}
	// the declarations lose their initialisers, which run in SimReset instead
	cutVars := map[types.Object]bool{}
	for _, f := range files {
		f := f
		for _, d := range f.ast.Decls {
			gd, ok := d.(*ast.GenDecl)
			if !ok || gd.Tok != token.VAR {
				continue
			}
			for _, sp := range gd.Specs {
				vs := sp.(*ast.ValueSpec)
				if len(vs.Values) == 0 {
					continue
				}
				ok := true
				var parts []string
				for _, n := range vs.Names {
					o := info.Defs[n]
					if n.Name == "_" || o == nil || keep[o] || !nameable(o.Type(), tp, map[types.Type]bool{}) {
						ok = false
						break
					}
				}
				if !ok {
					continue
				}
				for _, n := range vs.Names {
					o := info.Defs[n]
					ts := types.TypeString(o.Type(), func(p *types.Package) string {
						if p == tp {
							return ""
						}
						path := p.Path()
						if inModule(path) {
							path = "\x00P/" + rel(path)
						} else if shims[path] {
							path = "\x00P/shim/" + path
						}
						if f.extra == nil {
							f.extra = map[string]string{}
						}
						if f.extra[path] == "" {
							f.extra[path] = fmt.Sprintf("simt%d__", len(f.extra))
						}
						return f.extra[path]
					})
					parts = append(parts, n.Name+" "+ts)
					cutVars[o] = true
				}
				text := strings.Join(parts, "; ")
				if !gd.Lparen.IsValid() {
					text = "(" + text + ")"
				}
				from, to := off(vs.Pos()), off(vs.End())
				// keep the number of lines
				text += strings.Repeat("\n", bytes.Count(f.src[from:to], []byte("\n")))
				f.cuts = append(f.cuts, edit{from, to, text})
			}
		}
	}
	// package variables
	done := map[types.Object]bool{}
	nreset := 0
	var calls []string
	for _, in := range info.InitOrder {
		var lhs []string
		all := true
		blank := true
		for _, v := range in.Lhs {
			done[v] = true
			lhs = append(lhs, v.Name())
			if v.Name() != "_" {
				blank = false
			}
			if !keep[v] {
				all = false
			}
		}
		if all || blank {
			continue
		}
		f := byName[fset.Position(in.Rhs.Pos()).Filename]
		fn := fmt.Sprintf("simReset_%d", nreset)
		nreset++
		fmt.Fprintf(&f.tail, "\nfunc %s() { %s = %s }\n", fn, strings.Join(lhs, ", "), f.apply(off(in.Rhs.Pos()), off(in.Rhs.End())))
		calls = append(calls, fn)
	}
	// zero values first
	var zero []string
	scope := tp.Scope()
	for _, n := range scope.Names() {
		v, ok := scope.Lookup(n).(*types.Var)
		if !ok || done[v] {
			continue
		}
		if pat, ok := embeds[n]; ok {
			zero = append(zero, fmt.Sprintf("simrt__.Embed(&%s, %q)", n, pat))
			continue
		}
		zero = append(zero, fmt.Sprintf("simrt__.Zero(&%s)", n))
	}
	f := files[0]
	fmt.Fprintf(&f.tail, "\n// SimReset gives the package the state it has at process start.\nfunc SimReset() {\n")
	for _, z := range zero {
		fmt.Fprintf(&f.tail, "\t%s\n", z)
	}
	for _, c := range append(calls, inits...) {
		fmt.Fprintf(&f.tail, "\t%s()\n", c)
	}
	f.tail.WriteString("}\n")
}

func isChan(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Chan)
	return ok
}

func isMap(t types.Type) bool {
	if _, ok := t.Underlying().(*types.Map); ok {
		return true
	}
	if tp, ok := t.(*types.TypeParam); ok {
		if iface, ok := tp.Constraint().Underlying().(*types.Interface); ok {
			for i := 0; i < iface.NumEmbeddeds(); i++ {
				e := iface.EmbeddedType(i)
				if u, ok := e.(*types.Union); ok && u.Len() == 1 {
					e = u.Term(0).Type()
				}
				if _, ok := e.Underlying().(*types.Map); ok {
					return true
				}
			}
		}
	}
	return false
}

// nameable tells whether the type can be written in another file of the package.
func nameable(t types.Type, tp *types.Package, seen map[types.Type]bool) bool {
	if seen[t] {
		return true
	}
	seen[t] = true
	switch t := t.(type) {
	case *types.Basic:
		return t.Kind() != types.UntypedNil && t.Info()&types.IsUntyped == 0
	case *types.Named:
		o := t.Obj()
		if o.Pkg() != nil && o.Pkg() != tp && (!o.Exported() || strings.Contains(o.Pkg().Path(), "internal/")) {
			return false
		}
		if o.Pkg() != nil && o.Parent() != o.Pkg().Scope() {
			return false
		}
		for i := 0; i < t.TypeArgs().Len(); i++ {
			if !nameable(t.TypeArgs().At(i), tp, seen) {
				return false
			}
		}
		return true
	case *types.Alias:
		o := t.Obj()
		return o.Pkg() == nil || o.Pkg() == tp || o.Exported()
	case *types.Pointer:
		return nameable(t.Elem(), tp, seen)
	case *types.Slice:
		return nameable(t.Elem(), tp, seen)
	case *types.Array:
		return nameable(t.Elem(), tp, seen)
	case *types.Chan:
		return nameable(t.Elem(), tp, seen)
	case *types.Map:
		return nameable(t.Key(), tp, seen) && nameable(t.Elem(), tp, seen)
	case *types.Signature:
		if t.TypeParams().Len() > 0 {
			return false
		}
		for i := 0; i < t.Params().Len(); i++ {
			if !nameable(t.Params().At(i).Type(), tp, seen) {
				return false
			}
		}
		for i := 0; i < t.Results().Len(); i++ {
			if !nameable(t.Results().At(i).Type(), tp, seen) {
				return false
			}
		}
		return true
	case *types.Struct:
		for i := 0; i < t.NumFields(); i++ {
			if !nameable(t.Field(i).Type(), tp, seen) {
				return false
			}
		}
		return true
	case *types.Interface:
		for i := 0; i < t.NumMethods(); i++ {
			if !nameable(t.Method(i).Type(), tp, seen) {
				return false
			}
		}
		return true
	}
	return false
}
