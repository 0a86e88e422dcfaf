// Command instr reads the current non-test sources of a Go module and writes instrumented copies of
// them, so that the simulator decides every interleaving, clock read and random byte. It never writes
// into the source tree.
//
//	instr overlay -repo /repo -out DIR     writes DIR/files/... and DIR/overlay.json
//	instr bbolt   -repo /repo -out DIR     writes an instrumented copy of the bbolt module
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type edit struct {
	off, end int
	text     string
	seq      int
}

type file struct {
	fset    *token.FileSet
	ast     *ast.File
	src     []byte
	info    *types.Info
	edits   []edit
	yield   bool
	bit     int
	time    string // name the time package is imported under, if any selector was rewritten
	ctx     string // and the context package
	runtime string // and the runtime package
	tail    func() string

	written map[*ast.IndexExpr]bool
	body    bool // inside of a function declaration
}

func (f *file) off(p token.Pos) int { return f.fset.Position(p).Offset }
func (f *file) ins(p token.Pos, text string) {
	f.edits = append(f.edits, edit{f.off(p), f.off(p), text, len(f.edits)})
}
func (f *file) rep(a, b token.Pos, text string) {
	f.edits = append(f.edits, edit{f.off(a), f.off(b), text, len(f.edits)})
}
func (f *file) text(n ast.Node) string { return string(f.src[f.off(n.Pos()):f.off(n.End())]) }

var importSub = map[string][2]string{
	"sync":                       {"sync", "verifsim/simrt/ssync"},
	"crypto/rand":                {"rand", "verifsim/simrt/srand"},
	"math/rand":                  {"rand", "verifsim/simrt/smrand"},
	"math/rand/v2":               {"rand", "verifsim/simrt/smrand2"},
	"maps":                       {"maps", "verifsim/simrt/smaps"},
	"golang.org/x/crypto/pbkdf2": {"pbkdf2", "verifsim/simrt/spbkdf2"},
}

var timeSub = map[string]string{
	"Now": "TimeNow", "Since": "TimeSince", "Until": "TimeUntil", "Sleep": "TimeSleep", "After": "TimeAfter",
	"AfterFunc": "TimeAfterFunc", "NewTimer": "NewTimer", "Timer": "Timer", "NewTicker": "NewTicker", "Ticker": "Ticker", "Tick": "TimeTick",
}

var contextSub = map[string]string{
	"WithTimeout": "CtxWithTimeout", "WithDeadline": "CtxWithDeadline",
	"AfterFunc":        "CtxAfterFunc",
	"WithTimeoutCause": "CtxWithTimeoutCause", "WithDeadlineCause": "CtxWithDeadlineCause",
}

func (f *file) run() []byte {
	a := f.ast
	for _, is := range a.Imports {
		p, _ := strconv.Unquote(is.Path.Value)
		s, ok := importSub[p]
		if !ok {
			continue
		}
		name := s[0]
		if is.Name != nil {
			name = is.Name.Name
		}
		f.rep(is.Pos(), is.End(), name+" "+strconv.Quote(s[1]))
	}
	f.ins(a.Name.End(), "; import simrt \"verifsim/simrt\"")
	for _, d := range a.Decls {
		_, f.body = d.(*ast.FuncDecl)
		f.walk(d)
	}
	tail := "\nvar _ = simrt.Y\n"
	if f.time != "" {
		tail += "var _ " + f.time + ".Duration\n"
	}
	if f.runtime != "" {
		tail += "var _ = " + f.runtime + ".NumCPU\n"
	}
	if f.ctx != "" {
		tail += "var _ " + f.ctx + ".Context\n"
	}
	f.sortEdits()
	if f.tail != nil {
		tail += f.tail()
	}
	return []byte(f.apply(0, len(f.src)) + tail)
}

func (f *file) sortEdits() {
	sort.SliceStable(f.edits, func(i, j int) bool {
		if f.edits[i].off != f.edits[j].off {
			return f.edits[i].off < f.edits[j].off
		}
		return f.edits[i].seq < f.edits[j].seq
	})
}

// apply returns the part of the source from offset a to b with the edits made.
func (f *file) apply(a, b int) string {
	var out []byte
	pos := a
	for _, e := range f.edits {
		if e.off < a || e.end > b || e.off == b && b < len(f.src) {
			continue
		}
		if e.off < pos {
			fatal("overlapping edits in %s at %d", f.fset.Position(f.ast.Pos()).Filename, e.off)
		}
		out = append(out, f.src[pos:e.off]...)
		out = append(out, e.text...)
		pos = e.end
	}
	return string(append(out, f.src[pos:b]...))
}

var errType = types.Universe.Lookup("error").Type()

// pkgState reports whether a variable of the package is of a type that keeps calls or data: then all instances
// that use it are part of one process, and end together.
func pkgState(info *types.Info) bool {
	for id, o := range info.Defs {
		v, ok := o.(*types.Var)
		if !ok || v.IsField() || id.Name == "_" || v.Pkg() == nil || v.Parent() != v.Pkg().Scope() {
			continue
		}
		if keeps(v.Type(), map[types.Type]bool{}) {
			return true
		}
	}
	return false
}

func keeps(t types.Type, seen map[types.Type]bool) bool {
	if seen[t] {
		return false
	}
	seen[t] = true
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
		if p := n.Obj().Pkg().Path(); p == "sync" || p == "sync/atomic" {
			return true
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Map, *types.Chan:
		return true
	case *types.Pointer:
		return keeps(u.Elem(), seen)
	case *types.Slice:
		return keeps(u.Elem(), seen)
	case *types.Array:
		return keeps(u.Elem(), seen)
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if keeps(u.Field(i).Type(), seen) {
				return true
			}
		}
	}
	return false
}

// resets makes the package register a function that gives its variables their initial values again, as
// many simulated runs follow one another in a process. Error values are left alone, as their identity
// matters.
func resets(files []*file, info *types.Info) {
	at := func(p token.Pos) int {
		for i, f := range files {
			if f.ast.FileStart <= p && p < f.ast.FileEnd {
				return i
			}
		}
		return 0
	}
	bodies := make([][]func() string, len(files))
	var calls []string
	add := func(i int, body func() string) {
		name := fmt.Sprintf("simReset%d_%d", i, len(bodies[i]))
		calls = append(calls, name+"()")
		bodies[i] = append(bodies[i], func() string { return "func " + name + "() { " + body() + " }\n" })
	}
	for i, f := range files {
		for _, d := range f.ast.Decls {
			g, ok := d.(*ast.GenDecl)
			if !ok || g.Tok != token.VAR {
				continue
			}
			for _, s := range g.Specs {
				vs := s.(*ast.ValueSpec)
				if len(vs.Values) > 0 || vs.Type == nil || types.Identical(info.TypeOf(vs.Type), errType) {
					continue
				}
				for _, n := range vs.Names {
					if n.Name != "_" {
						f, n, vs := f, n, vs
						add(i, func() string {
							return "var z " + f.apply(f.off(vs.Type.Pos()), f.off(vs.Type.End())) + "; " + n.Name + " = z"
						})
					}
				}
			}
		}
	}
	for _, in := range info.InitOrder {
		var names []string
		use := false
		for _, v := range in.Lhs {
			names = append(names, v.Name())
			use = use || v.Name() != "_" && !types.Identical(v.Type(), errType)
		}
		if !use {
			continue
		}
		i := at(in.Lhs[0].Pos())
		f, in := files[i], in
		add(i, func() string {
			return strings.Join(names, ", ") + " = " + f.apply(f.off(in.Rhs.Pos()), f.off(in.Rhs.End()))
		})
	}
	var inits []string
	if pkgState(info) {
		inits = append(inits, "simrt.PkgState = true")
	}
	for i, f := range files {
		for _, d := range f.ast.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv == nil && fd.Name.Name == "init" {
				name := fmt.Sprintf("simInit%d_%d", i, len(inits))
				inits = append(inits, name+"()")
				f.rep(fd.Name.Pos(), fd.Name.End(), name)
			}
		}
	}
	for i, f := range files {
		i := i
		f.tail = func() string {
			s := ""
			for _, b := range bodies[i] {
				s += b()
			}
			if i == 0 && len(calls)+len(inits) > 0 {
				s += "func init() { " + strings.Join(inits, "; ") + "; simrt.OnReset(func() { " + strings.Join(append(append([]string{}, calls...), inits...), "; ") + " }) }\n"
			}
			return s
		}
	}
}

func (f *file) stmts(list []ast.Stmt) {
	for _, s := range list {
		if f.yield {
			switch s.(type) {
			case *ast.CaseClause, *ast.CommClause:
				continue
			}
			if _, empty := s.(*ast.EmptyStmt); !empty {
				f.ins(s.Pos(), fmt.Sprintf("simrt.Y(%d);", f.bit))
			}
		}
	}
}

func (f *file) walk(n ast.Node) {
	ast.Inspect(n, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BlockStmt:
			f.stmts(x.List)
		case *ast.CaseClause:
			f.stmts(x.Body)
		case *ast.SelectStmt:
			f.selectStmt(x)
			return false
		case *ast.SelectorExpr:
			if id, ok := x.X.(*ast.Ident); ok {
				if pn, ok := f.info.Uses[id].(*types.PkgName); ok && pn.Imported().Path() == "time" {
					if to, ok := timeSub[x.Sel.Name]; ok {
						f.time = id.Name
						f.rep(x.Pos(), x.End(), "simrt."+to)
						return false
					}
				} else if ok && pn.Imported().Path() == "context" {
					if to, ok := contextSub[x.Sel.Name]; ok {
						f.ctx = id.Name
						f.rep(x.Pos(), x.End(), "simrt."+to)
						return false
					}
				} else if ok && pn.Imported().Path() == "runtime" && x.Sel.Name == "Gosched" {
					f.runtime = id.Name
					f.rep(x.Pos(), x.End(), "simrt.Gosched")
					return false
				}
			}
		case *ast.GoStmt:
			f.goStmt(x)
			return true
		case *ast.SendStmt:
			f.ins(x.Pos(), "simrt.SChan(")
			f.rep(x.Arrow, x.Arrow+2, ").Send(")
			f.ins(x.End(), ")")
		case *ast.AssignStmt:
			for _, l := range x.Lhs {
				f.write(l)
			}
			if len(x.Lhs) == 2 && len(x.Rhs) == 1 {
				if u, ok := ast.Unparen(x.Rhs[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
					f.rep(u.OpPos, u.X.Pos(), "simrt.Recv2(")
					f.ins(u.X.End(), ")")
					for _, l := range x.Lhs {
						f.walk(l)
					}
					f.walk(u.X)
					return false
				}
			}
		case *ast.UnaryExpr:
			if x.Op == token.ARROW {
				f.rep(x.OpPos, x.X.Pos(), "simrt.Recv(")
				f.ins(x.X.End(), ")")
			}
		case *ast.RangeStmt:
			return f.rangeStmt(x)
		case *ast.IndexExpr:
			if f.isMap(x.X) {
				fn := "simrt.MapRead("
				if f.written[x] {
					fn = "simrt.MapWrite("
				}
				f.ins(x.X.Pos(), fn)
				f.ins(x.X.End(), ")")
			}
		case *ast.CallExpr:
			if id, ok := ast.Unparen(x.Fun).(*ast.Ident); ok && len(x.Args) > 0 && (id.Name == "delete" || id.Name == "clear") {
				if _, b := f.info.Uses[id].(*types.Builtin); b && f.isMap(x.Args[0]) {
					f.ins(x.Args[0].Pos(), "simrt.MapWrite(")
					f.ins(x.Args[0].End(), ")")
				}
			}
			for _, a := range x.Args {
				f.value(a)
			}
		case *ast.ReturnStmt:
			for _, r := range x.Results {
				f.value(r)
			}
		case *ast.IncDecStmt:
			f.write(x.X)
		}
		return true
	})
}

// value puts a scheduling point behind a call whose result is used by the statement it is part of.
func (f *file) value(e ast.Expr) {
	c, ok := ast.Unparen(e).(*ast.CallExpr)
	if !ok || !f.yield || !f.body {
		return
	}
	if tv, ok := f.info.Types[c.Fun]; !ok || !tv.IsValue() {
		return // a conversion or a builtin function
	}
	tv, ok := f.info.Types[c]
	if !ok || !tv.IsValue() {
		return
	}
	if _, tuple := tv.Type.(*types.Tuple); tuple {
		return
	}
	f.ins(e.Pos(), fmt.Sprintf("simrt.V(%d,", f.bit))
	f.ins(e.End(), ")")
}

// render returns the instrumented text of an expression that is moved elsewhere.
func (f *file) render(e ast.Expr) string {
	old := f.edits
	f.edits = nil
	f.walk(e)
	f.sortEdits()
	s, pos := "", f.off(e.Pos())
	for _, d := range f.edits {
		s += string(f.src[pos:d.off]) + d.text
		pos = d.end
	}
	s += string(f.src[pos:f.off(e.End())])
	f.edits = old
	return s
}

// selectStmt turns a select statement into a switch over the index of the communication that happened.
func (f *file) selectStmt(x *ast.SelectStmt) {
	var vars, inits []string
	def := false
	for _, c := range x.Body.List {
		cc := c.(*ast.CommClause)
		n := len(vars)
		head := fmt.Sprintf("case %d:", n)
		v := fmt.Sprintf("simC%d", n)
		var recv ast.Expr
		switch s := cc.Comm.(type) {
		case nil:
			def = true
			f.stmts(cc.Body)
			for _, s := range cc.Body {
				f.walk(s)
			}
			continue
		case *ast.ExprStmt:
			recv = s.X
		case *ast.AssignStmt:
			recv = s.Rhs[0]
			var l []string
			for _, e := range s.Lhs {
				f.write(e)
				l = append(l, f.render(e))
			}
			head += strings.Join(l, ",") + s.Tok.String() + v + ".V"
			if len(l) == 2 {
				head += "," + v + ".OK"
			}
			head += ";"
		case *ast.SendStmt:
			inits = append(inits, "simrt.SChan("+f.render(s.Chan)+").To("+f.render(s.Value)+")")
		}
		if recv != nil {
			inits = append(inits, "simrt.RCase("+f.render(ast.Unparen(recv).(*ast.UnaryExpr).X)+")")
		}
		vars = append(vars, v)
		f.rep(cc.Case, cc.Colon+1, head)
		f.stmts(cc.Body)
		for _, s := range cc.Body {
			f.walk(s)
		}
	}
	h := "switch "
	if len(vars) > 0 {
		h += strings.Join(vars, ",") + ":=" + strings.Join(inits, ",") + ";"
	}
	f.rep(x.Select, x.Body.Lbrace, h+"simrt.Select("+strings.Join(append([]string{fmt.Sprint(def)}, vars...), ",")+")")
	if !def {
		f.ins(x.Body.Rbrace, `;default: panic("select")`+"\n")
	}
}

// isMap reports whether the expression is a map, in code that gets scheduling points.
func (f *file) isMap(e ast.Expr) bool {
	tv, ok := f.info.Types[e]
	if !f.yield || !ok || !tv.IsValue() {
		return false
	}
	_, ok = tv.Type.Underlying().(*types.Map)
	return ok
}

// write notes that the expression is assigned to.
func (f *file) write(e ast.Expr) {
	if x, ok := ast.Unparen(e).(*ast.IndexExpr); ok {
		if f.written == nil {
			f.written = map[*ast.IndexExpr]bool{}
		}
		f.written[x] = true
	}
}

func (f *file) goStmt(x *ast.GoStmt) {
	if id, ok := ast.Unparen(x.Call.Fun).(*ast.Ident); ok {
		if _, b := f.info.Uses[id].(*types.Builtin); b {
			return
		}
	}
	fn := "simrt.GoCall("
	if x.Call.Ellipsis.IsValid() {
		fn = "simrt.GoCallSlice("
	}
	f.rep(x.Go, x.Call.Fun.Pos(), fn)
	sep := ","
	if len(x.Call.Args) == 0 {
		sep = ""
	}
	f.rep(x.Call.Lparen, x.Call.Lparen+1, sep)
	if x.Call.Ellipsis.IsValid() {
		f.rep(x.Call.Ellipsis, x.Call.Ellipsis+3, "")
	}
}

func isBlank(e ast.Expr) bool {
	if e == nil {
		return true
	}
	id, ok := e.(*ast.Ident)
	return ok && id.Name == "_"
}

func (f *file) rangeStmt(x *ast.RangeStmt) bool {
	tv := f.info.TypeOf(x.X)
	if tv == nil {
		return true
	}
	switch tv.Underlying().(type) {
	case *types.Map:
		bind := ""
		if !isBlank(x.Key) || !isBlank(x.Value) {
			k, v := "_", ""
			if !isBlank(x.Key) {
				k = f.text(x.Key)
			}
			if !isBlank(x.Value) {
				v = f.text(x.Value)
			}
			if v == "" {
				bind = k + x.Tok.String() + "simE.K;"
			} else {
				bind = k + "," + v + x.Tok.String() + "simE.K,simE.V();"
			}
		}
		f.rep(x.For, x.X.Pos(), "for _, simE := range simrt.MapEntries(")
		f.rep(x.X.End(), x.Body.Lbrace+1, ") { if !simE.Live() { continue };"+bind)
		f.walk(x.X)
		f.stmts(x.Body.List)
		for _, s := range x.Body.List {
			f.walk(s)
		}
		return false
	case *types.Chan:
		bind := "_, simOk := simrt.Recv2(simC); if !simOk { break };"
		if !isBlank(x.Key) {
			if x.Tok == token.DEFINE {
				bind = f.text(x.Key) + ", simOk := simrt.Recv2(simC); if !simOk { break };"
			} else {
				bind = "simV, simOk := simrt.Recv2(simC); if !simOk { break };" + f.text(x.Key) + "= simV;"
			}
		}
		f.rep(x.For, x.X.Pos(), "for simC := (")
		f.rep(x.X.End(), x.Body.Lbrace+1, "); ; { "+bind)
		f.walk(x.X)
		f.stmts(x.Body.List)
		for _, s := range x.Body.List {
			f.walk(s)
		}
		return false
	}
	return true
}

func fatal(s string, a ...any) {
	fmt.Fprintf(os.Stderr, "instr: "+s+"\n", a...)
	os.Exit(2)
}

type pkg struct {
	ImportPath, Dir, Export, Name string
	GoFiles                       []string
	Standard                      bool
	ImportMap                     map[string]string
	Module                        *struct{ Path, Dir, GoVersion string }
}

func list(dir string) []pkg {
	cmd := exec.Command("go", "list", "-export", "-deps", "-json=ImportPath,Dir,Export,Name,GoFiles,Standard,ImportMap,Module", "./...")
	cmd.Dir = dir
	cmd.Stderr = os.Stderr
	out, err := cmd.Output()
	if err != nil {
		fatal("go list in %s: %v", dir, err)
	}
	dec := json.NewDecoder(strings.NewReader(string(out)))
	var ps []pkg
	for {
		var p pkg
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			fatal("%v", err)
		}
		ps = append(ps, p)
	}
	return ps
}

// Packages have a bit each, so that schedules can concentrate on some of them.
var bits = map[string]int{".": 1, "crypto": 2, "data": 4, "id": 8, "index": 16, "io": 32, "key": 64, "log": 128}

func pkgBit(rel string) int {
	if b, ok := bits[rel]; ok {
		return b
	}
	return 256
}

func instrument(all []pkg, p pkg, yield bool, bit int) map[string][]byte {
	exp := map[string]string{}
	for _, q := range all {
		exp[q.ImportPath] = q.Export
	}
	fset := token.NewFileSet()
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		if m, ok := p.ImportMap[path]; ok {
			path = m
		}
		e := exp[path]
		if e == "" {
			return nil, fmt.Errorf("no export data for %q", path)
		}
		return os.Open(e)
	})
	var files []*ast.File
	var names []string
	var srcs [][]byte
	for _, g := range p.GoFiles {
		name := filepath.Join(p.Dir, g)
		b, err := os.ReadFile(name)
		if err != nil {
			fatal("%v", err)
		}
		a, err := parser.ParseFile(fset, name, b, parser.ParseComments)
		if err != nil {
			fatal("%v", err)
		}
		files, names, srcs = append(files, a), append(names, name), append(srcs, b)
	}
	info := &types.Info{Uses: map[*ast.Ident]types.Object{}, Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}}
	conf := types.Config{Importer: imp, Error: func(err error) { fmt.Fprintln(os.Stderr, "instr: type check:", err) }}
	if p.Module != nil && p.Module.GoVersion != "" {
		conf.GoVersion = "go" + p.Module.GoVersion
	}
	if _, err := conf.Check(p.ImportPath, fset, files, info); err != nil {
		fatal("type checking %s failed", p.ImportPath)
	}
	out := map[string][]byte{}
	var fs []*file
	for i, a := range files {
		fs = append(fs, &file{fset: fset, ast: a, src: srcs[i], info: info, yield: yield, bit: bit})
	}
	if yield {
		resets(fs, info)
	}
	for i, f := range fs {
		out[names[i]] = f.run()
	}
	return out
}

func main() {
	if len(os.Args) < 2 {
		fatal("usage")
	}
	fs := flag.NewFlagSet("instr", flag.ExitOnError)
	repo := fs.String("repo", "/repo", "")
	out := fs.String("out", "", "")
	fs.Parse(os.Args[2:])
	switch os.Args[1] {
	case "overlay":
		all := list(*repo)
		rep := map[string]string{}
		for _, p := range all {
			if p.Standard || p.Module == nil || p.Module.Dir != *repo {
				continue
			}
			if p.Name == "main" {
				continue
			}
			rel, _ := filepath.Rel(*repo, p.Dir)
			for name, b := range instrument(all, p, true, pkgBit(rel)) {
				rel, _ := filepath.Rel(*repo, name)
				to := filepath.Join(*out, "files", rel)
				write(to, b)
				rep[name] = to
			}
		}
		b, _ := json.MarshalIndent(map[string]any{"Replace": rep}, "", " ")
		write(filepath.Join(*out, "overlay.json"), b)
	case "bbolt":
		all := list(*repo)
		for _, p := range all {
			if p.Standard || p.ImportPath != "go.etcd.io/bbolt" {
				continue
			}
			for name, b := range instrument(all, p, false, 0) {
				s := string(b)
				switch filepath.Base(name) {
				case "db.go":
					s = sub(s, "db.ops.writeAt = db.file.WriteAt", "db.ops.writeAt = simrt.DiskWriteAt(db.file); simrt.DiskOpened(db.file, db.simAbandon)")
					s = sub(s, "db.file.Truncate(int64(sz))", "simrt.DiskTruncate(db.file, int64(sz))")
					s = sub(s, "db.file.Sync()", "simrt.DiskSync(db.file)")
					s += "\nfunc (db *DB) simAbandon() {\n\tif db.dataref != nil { _ = munmap(db) }\n\tif db.file != nil { _ = db.file.Close() }\n}\n"
				case "bolt_linux.go":
					s = sub(s, "syscall.Fdatasync(int(db.file.Fd()))", "simrt.DiskSync(db.file)")
					s = sub(s, "\"syscall\"", "_ \"syscall\"")
				case "boltsync_unix.go":
					s = sub(s, "db.file.Sync()", "simrt.DiskSync(db.file)")
				}
				write(filepath.Join(*out, filepath.Base(name)), []byte(s))
			}
		}
		write(filepath.Join(*out, "go.mod"), []byte("module go.etcd.io/bbolt\n\ngo 1.19\n\nrequire golang.org/x/sys v0.0.0-20220919091848-fb04ddd9f9c8\n"))
	default:
		fatal("unknown mode")
	}
}

func sub(s, a, b string) string {
	if !strings.Contains(s, a) {
		fatal("pattern %q not found", a)
	}
	return strings.ReplaceAll(s, a, b)
}

func write(name string, b []byte) {
	if err := os.MkdirAll(filepath.Dir(name), 0o755); err != nil {
		fatal("%v", err)
	}
	if old, err := os.ReadFile(name); err == nil && string(old) == string(b) {
		return
	}
	if err := os.WriteFile(name, b, 0o644); err != nil {
		fatal("%v", err)
	}
}
