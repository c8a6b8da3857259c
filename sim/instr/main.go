// Command instr rewrites the Go packages of /repo, without touching /repo, so
// that every source of nondeterminism they use is owned by the simulator
// runtime (package zzrt):
//
//   - a yield point in front of every statement,
//   - go statements, channel operations, select,
//   - map iteration order,
//   - sync, os, io/ioutil, path/filepath (file system part), math/rand, time,
//     runtime.NumCPU & co.
//
// The rewriting is done by text edits on the syntax tree, so line numbers are
// preserved.  The result is an overlay file for "go build -overlay".
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/constant"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"
)

const rtSuffix = "/zzverif/simrt"

type listPkg struct {
	ImportPath string
	Dir        string
	Name       string
	GoFiles    []string
	Export     string
	Standard   bool
	Module     *struct {
		Path string
		Main bool
	}
	DepOnly bool
	Error   *struct{ Err string }
}

func fatal(format string, args ...interface{}) {
	fmt.Fprintf(os.Stderr, "instr: "+format+"\n", args...)
	os.Exit(3)
}

func main() {
	repo := flag.String("repo", "/repo", "module to instrument")
	modfile := flag.String("modfile", "", "alternative go.mod")
	out := flag.String("out", "", "output directory")
	simrt := flag.String("simrt", "", "directory with the simulator runtime")
	harness := flag.String("harness", "", "directory with the harness")
	flag.Parse()
	loadSupported(*simrt)

	args := []string{"list", "-export", "-deps", "-json=ImportPath,Dir,Name,GoFiles,Export,Standard,Module,DepOnly,Error"}
	if *modfile != "" {
		args = append(args, "-modfile="+*modfile)
	}
	args = append(args, "./...")
	cmd := exec.Command("go", args...)
	cmd.Dir = *repo
	cmd.Stderr = os.Stderr
	data, err := cmd.Output()
	if err != nil {
		fatal("go list: %v", err)
	}
	var pkgs []*listPkg
	exports := map[string]string{}
	dec := json.NewDecoder(bytes.NewReader(data))
	for {
		var p listPkg
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			fatal("go list output: %v", err)
		}
		if p.Export != "" {
			exports[p.ImportPath] = p.Export
		}
		q := p
		pkgs = append(pkgs, &q)
	}
	overlay := map[string]string{}
	modPath := ""
	stats := map[string]int{}
	for _, p := range pkgs {
		if p.Module == nil || !p.Module.Main || p.Name == "main" {
			continue
		}
		if strings.Contains(p.ImportPath, "/zzverif/") {
			continue
		}
		modPath = p.Module.Path
		if err := instrumentPackage(p, modPath, exports, *out, overlay, stats); err != nil {
			fatal("%s: %v", p.ImportPath, err)
		}
	}
	if modPath == "" {
		fatal("no package to instrument in %s", *repo)
	}
	add := func(dir, sub string) {
		files, _ := filepath.Glob(filepath.Join(dir, "*.go"))
		for _, f := range files {
			abs, _ := filepath.Abs(f)
			overlay[filepath.Join(*repo, "zzverif", sub, filepath.Base(f))] = abs
		}
	}
	add(*simrt, "simrt")
	add(*harness, "harness")
	dict := filepath.Join(*out, "zzdict.go")
	if err := os.WriteFile(dict, []byte(dictionary()), 0644); err != nil {
		fatal("%v", err)
	}
	overlay[filepath.Join(*repo, "zzverif", "harness", "zzdict.go")] = dict
	j, _ := json.MarshalIndent(map[string]interface{}{"Replace": overlay}, "", " ")
	if err := os.WriteFile(filepath.Join(*out, "overlay.json"), j, 0644); err != nil {
		fatal("%v", err)
	}
	s, _ := json.Marshal(stats)
	os.WriteFile(filepath.Join(*out, "instr_stats.json"), s, 0644)
}

// -------------------------------------------------------------- dictionary

// The constants of the source are values that the code may treat specially:
// the harness mixes them into its inputs.
var (
	dictStrings = map[string]bool{}
	dictInts    = map[int64]bool{}
	dictFloats  = map[float64]bool{}
)

func collectConstants(a *ast.File, info *types.Info) {
	ast.Inspect(a, func(n ast.Node) bool {
		if _, ok := n.(*ast.ImportSpec); ok {
			return false
		}
		e, ok := n.(ast.Expr)
		if !ok {
			return true
		}
		v := info.Types[e].Value
		if v == nil {
			return true
		}
		switch v.Kind() {
		case constant.String:
			s := constant.StringVal(v)
			ok := len(s) <= 24 && utf8.ValidString(s)
			for _, r := range s {
				ok = ok && unicode.IsPrint(r)
			}
			if ok {
				dictStrings[s] = true
			}
		case constant.Int:
			if i, ok := constant.Int64Val(v); ok {
				dictInts[i] = true
			}
		case constant.Float:
			if f, _ := constant.Float64Val(v); !math.IsInf(f, 0) {
				dictFloats[f] = true
			}
		}
		return true
	})
}

func dictionary() string {
	var sb strings.Builder
	sb.WriteString("package main\n\nvar dictStrings = []string{")
	var ss []string
	for s := range dictStrings {
		ss = append(ss, s)
	}
	sort.Strings(ss)
	for _, s := range ss {
		fmt.Fprintf(&sb, "%q, ", s)
	}
	sb.WriteString("}\n\nvar dictInts = []int{")
	var is []int
	for i := range dictInts {
		is = append(is, int(i))
	}
	sort.Ints(is)
	for _, i := range is {
		fmt.Fprintf(&sb, "%d, ", i)
	}
	sb.WriteString("}\n\nvar dictFloats = []float64{")
	var fs []float64
	for f := range dictFloats {
		fs = append(fs, f)
	}
	sort.Float64s(fs)
	for _, f := range fs {
		fmt.Fprintf(&sb, "%v, ", f)
	}
	sb.WriteString("}\n")
	return sb.String()
}

// ---------------------------------------------------------------- editing

type edit struct {
	lo, hi int
	text   string
	seq    int
}

type file struct {
	src   []byte
	edits []edit
	fset  *token.FileSet
	tfile *token.File
	ast   *ast.File
	info  *types.Info
	used  bool // whether zzrt is referenced
	stats map[string]int
	uniq  int
}

func (f *file) off(p token.Pos) int { return f.tfile.Offset(p) }

func (f *file) insert(at int, text string) { f.replace(at, at, text) }

func (f *file) replace(lo, hi int, text string) {
	if lo < hi {
		// drop whatever was planned inside the replaced range
		kept := f.edits[:0]
		for _, e := range f.edits {
			if e.lo >= lo && e.hi <= hi && !(e.lo == e.hi && (e.lo == lo || e.lo == hi)) {
				continue
			}
			kept = append(kept, e)
		}
		f.edits = kept
	}
	f.edits = append(f.edits, edit{lo, hi, text, len(f.edits)})
}

// render returns the text of [lo, hi) with the edits applied.
func (f *file) render(lo, hi int) string {
	var es []edit
	for _, e := range f.edits {
		if e.lo >= lo && e.hi <= hi {
			es = append(es, e)
		}
	}
	sort.SliceStable(es, func(i, j int) bool {
		if es[i].lo != es[j].lo {
			return es[i].lo < es[j].lo
		}
		// insertions come before replacements at the same offset
		return es[i].hi == es[i].lo && es[j].hi != es[j].lo
	})
	var sb strings.Builder
	pos := lo
	for _, e := range es {
		if e.lo < pos {
			fatal("overlapping edits at offset %d (%q) in %s", e.lo, e.text, f.tfile.Name())
		}
		sb.Write(f.src[pos:e.lo])
		sb.WriteString(e.text)
		pos = e.hi
	}
	sb.Write(f.src[pos:hi])
	return sb.String()
}

func instrumentPackage(p *listPkg, modPath string, exports map[string]string, out string, overlay map[string]string, stats map[string]int) error {
	fset := token.NewFileSet()
	var asts []*ast.File
	var srcs [][]byte
	for _, name := range p.GoFiles {
		path := filepath.Join(p.Dir, name)
		src, err := os.ReadFile(path)
		if err != nil {
			return err
		}
		a, err := parser.ParseFile(fset, path, src, parser.ParseComments|parser.SkipObjectResolution)
		if err != nil {
			return err
		}
		asts = append(asts, a)
		srcs = append(srcs, src)
	}
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		e, ok := exports[path]
		if !ok {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(e)
	})
	info := &types.Info{
		Types: map[ast.Expr]types.TypeAndValue{},
		Defs:  map[*ast.Ident]types.Object{},
		Uses:  map[*ast.Ident]types.Object{},
	}
	conf := types.Config{Importer: imp}
	if _, err := conf.Check(p.ImportPath, fset, asts, info); err != nil {
		return err
	}
	for _, a := range asts {
		collectConstants(a, info)
	}
	for i, a := range asts {
		f := &file{src: srcs[i], fset: fset, tfile: fset.File(a.Pos()), ast: a, info: info, stats: stats}
		text, err := f.instrument(modPath)
		if err != nil {
			return err
		}
		name := strings.ReplaceAll(strings.TrimPrefix(p.ImportPath, modPath), "/", "_") + "__" + p.GoFiles[i]
		dst := filepath.Join(out, "src"+name)
		if err := os.WriteFile(dst, []byte(text), 0644); err != nil {
			return err
		}
		overlay[filepath.Join(p.Dir, p.GoFiles[i])] = dst
		stats["files"]++
	}
	return nil
}

func (f *file) instrument(modPath string) (string, error) {
	f.stmts()
	f.walk()
	f.imports()
	if f.used {
		at := f.off(f.ast.Name.End())
		f.insert(at, fmt.Sprintf("; import zzrt %q", modPath+rtSuffix))
	}
	return f.render(0, len(f.src)), nil
}

// stmts inserts yield points.
func (f *file) stmts() {
	clauses := map[*ast.BlockStmt]bool{} // bodies of switch and select
	list := func(l []ast.Stmt) {
		for _, s := range l {
			if _, ok := s.(*ast.EmptyStmt); ok {
				continue
			}
			f.insert(f.off(s.Pos()), "zzrt.Y();")
			f.used = true
			f.stats["yield"]++
		}
	}
	ast.Inspect(f.ast, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.BlockStmt:
			if !clauses[n] {
				list(n.List)
			}
		case *ast.CaseClause:
			list(n.Body)
		case *ast.CommClause:
			list(n.Body)
		case *ast.ForStmt:
			if len(n.Body.List) == 0 {
				f.insert(f.off(n.Body.Lbrace)+1, "zzrt.Y();")
				f.used = true
			}
		case *ast.SwitchStmt:
			clauses[n.Body] = true
		case *ast.TypeSwitchStmt:
			clauses[n.Body] = true
		case *ast.SelectStmt:
			clauses[n.Body] = true
		}
		return true
	})
}

func (f *file) text(n ast.Node) string { return f.render(f.off(n.Pos()), f.off(n.End())) }

func (f *file) isChan(e ast.Expr) bool {
	t := f.info.TypeOf(e)
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Chan)
	return ok
}

func (f *file) isMap(e ast.Expr) bool {
	t := f.info.TypeOf(e)
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Map)
	return ok
}

func (f *file) isBuiltin(e ast.Expr, name string) bool {
	id, ok := ast.Unparen(e).(*ast.Ident)
	if !ok {
		return false
	}
	b, ok := f.info.Uses[id].(*types.Builtin)
	return ok && (name == "" || b.Name() == name)
}

func unparenArrow(e ast.Expr) *ast.UnaryExpr {
	u, ok := ast.Unparen(e).(*ast.UnaryExpr)
	if ok && u.Op == token.ARROW {
		return u
	}
	return nil
}

func (f *file) walk() {
	recv2 := map[*ast.UnaryExpr]bool{} // v, ok := <-ch
	inComm := map[ast.Node]bool{}      // statements and receives handled by the select rewriting
	var stack []ast.Node
	ast.Inspect(f.ast, func(n ast.Node) bool {
		if n != nil {
			switch n := n.(type) {
			case *ast.AssignStmt:
				if len(n.Lhs) == 2 && len(n.Rhs) == 1 {
					if u := unparenArrow(n.Rhs[0]); u != nil {
						recv2[u] = true
					}
				}
			case *ast.ValueSpec:
				if len(n.Names) == 2 && len(n.Values) == 1 {
					if u := unparenArrow(n.Values[0]); u != nil {
						recv2[u] = true
					}
				}
			case *ast.CommClause:
				switch c := n.Comm.(type) {
				case *ast.SendStmt:
					inComm[c] = true
				case *ast.ExprStmt:
					inComm[unparenArrow(c.X)] = true
				case *ast.AssignStmt:
					inComm[unparenArrow(c.Rhs[0])] = true
				}
			}
			stack = append(stack, n)
			return true
		}
		n = stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		switch n := n.(type) {
		case *ast.SelectorExpr:
			f.selector(n)
		case *ast.UnaryExpr:
			if n.Op == token.ARROW && !inComm[n] {
				name := "zzrt.Recv("
				if recv2[n] {
					name = "zzrt.Recv2("
				}
				f.replace(f.off(n.Pos()), f.off(n.X.Pos()), name)
				f.insert(f.off(n.X.End()), ")")
				f.used = true
				f.stats["recv"]++
			}
		case *ast.SendStmt:
			if !inComm[n] {
				f.insert(f.off(n.Chan.Pos()), "zzrt.SendTo(")
				f.replace(f.off(n.Chan.End()), f.off(n.Value.Pos()), ")(")
				f.insert(f.off(n.Value.End()), ")")
				f.used = true
				f.stats["send"]++
			}
		case *ast.CallExpr:
			if f.isBuiltin(n.Fun, "close") {
				f.replace(f.off(n.Fun.Pos()), f.off(n.Fun.End()), "zzrt.Close")
				f.used = true
				f.stats["close"]++
			}
		case *ast.GoStmt:
			if f.isBuiltin(n.Call.Fun, "") {
				f.replace(f.off(n.Pos()), f.off(n.Call.Pos()), "zzrt.GoFn(func() { ")
				f.insert(f.off(n.Call.End()), "})")
			} else {
				f.replace(f.off(n.Pos()), f.off(n.Call.Fun.Pos()), "zzrt.GoAny(")
				f.insert(f.off(n.Call.Fun.End()), ")")
			}
			f.used = true
			f.stats["go"]++
		case *ast.RangeStmt:
			switch {
			case f.isMap(n.X):
				f.rangeStmt(n, "Map")
			case f.isChan(n.X):
				f.rangeStmt(n, "Chan")
			}
		case *ast.SelectStmt:
			f.selectStmt(n)
		}
		return true
	})
}

func (f *file) rangeStmt(n *ast.RangeStmt, kind string) {
	f.used = true
	f.stats["range"+kind]++
	f.uniq++
	it := fmt.Sprintf("zzit%d", f.uniq)
	isBlank := func(e ast.Expr) bool {
		id, ok := e.(*ast.Ident)
		return e == nil || ok && id.Name == "_"
	}
	head := func(text string) { f.replace(f.off(n.For)+3, f.off(n.X.Pos()), text) }
	if n.Tok == token.DEFINE {
		vars, refs := "", ""
		vs := []ast.Expr{n.Key}
		if kind == "Map" {
			vs = append(vs, n.Value)
		}
		for i, e := range vs {
			name, ref := "_", "nil"
			if !isBlank(e) {
				name = e.(*ast.Ident).Name
				ref = "&" + name
			}
			vars += ", " + name
			if i > 0 {
				refs += ", "
			}
			refs += ref
		}
		head(fmt.Sprintf(" %s%s := zzrt.%sIter(", it, vars, kind))
		f.insert(f.off(n.X.End()), fmt.Sprintf("); %s.Next(%s); ", it, refs))
		return
	}
	args := "nil, nil"
	if kind == "Chan" {
		args = "nil"
	}
	assign := ""
	if !isBlank(n.Key) {
		assign += f.text(n.Key) + " = " + it + ".K(); "
	}
	if kind == "Map" && !isBlank(n.Value) {
		assign += f.text(n.Value) + " = " + it + ".V(); "
	}
	head(fmt.Sprintf(" %s := zzrt.%sIter1(", it, kind))
	f.insert(f.off(n.X.End()), fmt.Sprintf("); %s.Next(%s); ", it, args))
	f.insert(f.off(n.Body.Lbrace)+1, assign)
}

func (f *file) selectStmt(n *ast.SelectStmt) {
	f.used = true
	f.stats["select"]++
	f.uniq++
	var names, exprs []string
	hasDefault := false
	type change struct {
		lo, hi int
		text   string
	}
	var changes []change
	for _, s := range n.Body.List {
		c := s.(*ast.CommClause)
		if c.Comm == nil {
			hasDefault = true
			continue
		}
		i := len(names)
		name := fmt.Sprintf("zzc%d_%d", f.uniq, i)
		names = append(names, name)
		body := ""
		switch s := c.Comm.(type) {
		case *ast.SendStmt:
			exprs = append(exprs, fmt.Sprintf("zzrt.SendCase(%s)(%s)", f.text(s.Chan), f.text(s.Value)))
		case *ast.ExprStmt:
			exprs = append(exprs, fmt.Sprintf("zzrt.RecvCase(%s)", f.text(unparenArrow(s.X).X)))
		case *ast.AssignStmt:
			exprs = append(exprs, fmt.Sprintf("zzrt.RecvCase(%s)", f.text(unparenArrow(s.Rhs[0]).X)))
			lhs := f.render(f.off(s.Lhs[0].Pos()), f.off(s.Lhs[len(s.Lhs)-1].End()))
			get := "Get()"
			if len(s.Lhs) == 2 {
				get = "Get2()"
			}
			body = fmt.Sprintf(" %s %s %s.%s;", lhs, s.Tok, name, get)
		}
		changes = append(changes, change{f.off(c.Case), f.off(c.Colon) + 1, fmt.Sprintf("case %d:%s", i, body)})
	}
	for _, c := range changes {
		f.replace(c.lo, c.hi, c.text)
	}
	head := "switch "
	if len(names) > 0 {
		head += strings.Join(names, ", ") + " := " + strings.Join(exprs, ", ") + "; "
	}
	head += fmt.Sprintf("zzrt.Select(%v%s) {", hasDefault, strings.Join(append([]string{""}, names...), ", "))
	f.replace(f.off(n.Select), f.off(n.Body.Lbrace)+1, head)
	if !hasDefault {
		f.insert(f.off(n.Body.Rbrace), "default: panic(\"unreachable\"); ")
	}
}

// ------------------------------------------------------------- selectors

var prefixes = map[string]string{
	"sync":          "Sync",
	"os":            "Os",
	"io/ioutil":     "Ioutil",
	"path/filepath": "Filepath",
	"math/rand":     "Rand",
	"math/rand/v2":  "RandV2",
	"time":          "Time",
	"runtime":       "Runtime",
	"context":       "Context",
	"crypto/rand":   "Cryptorand",
}

// types that keep their name, because they may be embedded
var plain = map[string]string{
	"sync.Mutex": "Mutex", "sync.RWMutex": "RWMutex", "sync.WaitGroup": "WaitGroup", "sync.Once": "Once",
	"sync.Cond": "Cond", "sync.Pool": "Pool", "sync.Map": "Map", "os.File": "File", "time.Timer": "Timer", "time.Ticker": "Ticker",
}

var supported map[string]bool // names declared by the simulator runtime

func loadSupported(dir string) {
	supported = map[string]bool{}
	files, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	fset := token.NewFileSet()
	for _, name := range files {
		a, err := parser.ParseFile(fset, name, nil, parser.SkipObjectResolution)
		if err != nil {
			fatal("%v", err)
		}
		for _, d := range a.Decls {
			switch d := d.(type) {
			case *ast.FuncDecl:
				if d.Recv == nil {
					supported[d.Name.Name] = true
				}
			case *ast.GenDecl:
				for _, s := range d.Specs {
					switch s := s.(type) {
					case *ast.TypeSpec:
						supported[s.Name.Name] = true
					case *ast.ValueSpec:
						for _, id := range s.Names {
							supported[id.Name] = true
						}
					}
				}
			}
		}
	}
}

func (f *file) pkgOf(e ast.Expr) *types.PkgName {
	id, ok := e.(*ast.Ident)
	if !ok {
		return nil
	}
	p, _ := f.info.Uses[id].(*types.PkgName)
	return p
}

func replacement(path, name string) string {
	if p, ok := plain[path+"."+name]; ok && supported[p] {
		return p
	}
	if pre, ok := prefixes[path]; ok && supported[pre+name] {
		return pre + name
	}
	return ""
}

func (f *file) selector(n *ast.SelectorExpr) {
	p := f.pkgOf(n.X)
	if p == nil {
		return
	}
	if r := replacement(p.Imported().Path(), n.Sel.Name); r != "" {
		f.replace(f.off(n.Pos()), f.off(n.End()), "zzrt."+r)
		f.used = true
		f.stats["sel:"+p.Imported().Path()+"."+n.Sel.Name]++
	}
}

// imports blanks the imports that are not used any more.
func (f *file) imports() {
	left := map[string]int{}
	repl := map[string]int{}
	ast.Inspect(f.ast, func(n ast.Node) bool {
		if s, ok := n.(*ast.SelectorExpr); ok {
			if p := f.pkgOf(s.X); p != nil {
				path := p.Imported().Path()
				if replacement(path, s.Sel.Name) != "" {
					repl[path]++
				} else {
					left[path]++
				}
			}
		}
		return true
	})
	for _, s := range f.ast.Imports {
		path, _ := strconv.Unquote(s.Path.Value)
		if _, ok := prefixes[path]; !ok {
			continue
		}
		if s.Name != nil && s.Name.Name == "." {
			fatal("%s: dot import of %s cannot be put under the simulator", f.tfile.Name(), path)
		}
		if repl[path] > 0 && left[path] == 0 {
			if s.Name != nil {
				f.replace(f.off(s.Name.Pos()), f.off(s.Name.End()), "_")
			} else {
				f.insert(f.off(s.Path.Pos()), "_ ")
			}
		}
	}
}
