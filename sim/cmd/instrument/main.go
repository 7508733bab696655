// Command instrument rewrites the non-test Go files under ROOT/sql into OUT and
// writes OUT/overlay.json for "go build -overlay". Nothing in ROOT changes.
//
// The rewrite is textual insertion at positions taken from the syntax tree, so
// line numbers stay those of the original file:
//   - a scheduling point before every statement (function entry only in
//     generated parser files),
//   - package sync -> the simulator's sync,
//   - time.Now/Since/Until/Sleep/... -> the virtual clock,
//   - range over maps and maps.Keys/Values/All -> simulator-chosen order,
//   - go statements -> simulated tasks,
//   - channel sends, receives, ranges, selects and close -> simulated blocking,
//   - the global generators of math/rand and math/rand/v2 -> seeded ones.
//
// Files named after OUT are left as they are (the caller's fallback when a
// rewritten file does not compile).
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

const (
	rtPath   = "verif.local/sim/simrt"
	syncPath = "verif.local/sim/ssync"
	modPath  = "github.com/cybergarage/go-sqlparser"
)

type edit struct {
	pos  int
	end  int
	text string
	ord  int
}

type siteInfo struct {
	ID   int    `json:"id"`
	File string `json:"file"`
	Line int    `json:"line"`
	Fn   string `json:"fn"`
}

var (
	nextSite = 64 // 0..63 reserved for the simulator's own points
	sites    []siteInfo
)

func fatal(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "instrument: "+f+"\n", a...)
	os.Exit(3)
}

func main() {
	root, out := os.Args[1], os.Args[2]
	plain := map[string]bool{}
	for _, a := range os.Args[3:] {
		plain[a] = true
	}
	pkgs := listPackages(root)
	exports := listExports(root)
	overlay := map[string]string{}
	fset := token.NewFileSet()
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		e, ok := exports[path]
		if !ok || e == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(e)
	})
	nfiles := 0
	for _, p := range pkgs {
		var files []*ast.File
		var names []string
		src := map[string][]byte{}
		for _, n := range p.GoFiles {
			fn := filepath.Join(p.Dir, n)
			b, err := os.ReadFile(fn)
			if err != nil {
				fatal("%v", err)
			}
			f, err := parser.ParseFile(fset, fn, b, parser.ParseComments|parser.SkipObjectResolution)
			if err != nil {
				fatal("%v", err)
			}
			src[fn] = b
			files = append(files, f)
			names = append(names, fn)
		}
		generated := false
		for _, f := range files {
			if ast.IsGenerated(f) {
				generated = true
			}
		}
		info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}}
		if !generated {
			conf := types.Config{Importer: imp, Error: func(err error) {}}
			if _, err := conf.Check(p.ImportPath, fset, files, info); err != nil {
				// keep going: what is not typed is not rewritten by type
				fmt.Fprintf(os.Stderr, "instrument: type check %s: %v\n", p.ImportPath, err)
			}
		}
		for i, f := range files {
			fn := names[i]
			rel, _ := filepath.Rel(root, fn)
			if plain[rel] {
				continue
			}
			res := rewrite(fset, f, src[fn], info, rel, ast.IsGenerated(f) || len(src[fn]) > 400000)
			dst := filepath.Join(out, "src", rel)
			if err := os.MkdirAll(filepath.Dir(dst), 0o755); err != nil {
				fatal("%v", err)
			}
			if err := os.WriteFile(dst, res, 0o644); err != nil {
				fatal("%v", err)
			}
			overlay[fn] = dst
			nfiles++
		}
	}
	// deterministic sync.Pool for the standard library under the race detector:
	// no reuse, so no accidental happens-before edge through e.g. fmt's pool.
	goroot := strings.TrimSpace(run(root, "go", "env", "GOROOT"))
	pool := filepath.Join(goroot, "src", "sync", "pool.go")
	if b, err := os.ReadFile(pool); err == nil {
		s := string(b)
		if strings.Count(s, "if runtime_randn(4) == 0 {") == 1 {
			s = strings.Replace(s, "if runtime_randn(4) == 0 {", "if true {", 1)
			dst := filepath.Join(out, "src", "pool.go")
			if err := os.WriteFile(dst, []byte(s), 0o644); err != nil {
				fatal("%v", err)
			}
			overlay[pool] = dst
		}
	}
	ob, _ := json.MarshalIndent(map[string]any{"Replace": overlay}, "", " ")
	if err := os.WriteFile(filepath.Join(out, "overlay.json"), ob, 0o644); err != nil {
		fatal("%v", err)
	}
	sb, _ := json.Marshal(sites)
	if err := os.WriteFile(filepath.Join(out, "sites.json"), sb, 0o644); err != nil {
		fatal("%v", err)
	}
	fmt.Printf("instrumented %d files, %d sites\n", nfiles, len(sites))
}

type pkg struct {
	ImportPath string
	Dir        string
	GoFiles    []string
}

func run(dir, name string, args ...string) string {
	c := exec.Command(name, args...)
	c.Dir = dir
	c.Stderr = os.Stderr
	b, err := c.Output()
	if err != nil {
		fatal("%s %v: %v", name, args, err)
	}
	return string(b)
}

func listPackages(root string) []pkg {
	dec := json.NewDecoder(strings.NewReader(run(root, "go", "list", "-deps", "-json=ImportPath,Dir,GoFiles", "./sql/...")))
	var ps []pkg
	for {
		var p pkg
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			fatal("%v", err)
		}
		if p.ImportPath != modPath && !strings.HasPrefix(p.ImportPath, modPath+"/") {
			continue
		}
		ps = append(ps, p)
	}
	sort.Slice(ps, func(i, j int) bool { return ps[i].ImportPath < ps[j].ImportPath })
	return ps
}

func listExports(root string) map[string]string {
	m := map[string]string{}
	for _, l := range strings.Split(run(root, "go", "list", "-export", "-deps", "-f", "{{.ImportPath}}\t{{.Export}}", "./sql/..."), "\n") {
		if i := strings.IndexByte(l, '\t'); i > 0 {
			m[l[:i]] = l[i+1:]
		}
	}
	return m
}

var timeFns = map[string]string{"Now": "Now", "Since": "Since", "Until": "Until", "Sleep": "SleepD", "After": "After", "NewTimer": "NewTimer", "AfterFunc": "AfterFunc", "Timer": "Timer"}
var randFns = map[string]bool{
	"ExpFloat64": true, "Float32": true, "Float64": true, "Int": true, "Int31": true, "Int31n": true, "Int63": true, "Int63n": true, "Intn": true,
	"NormFloat64": true, "Perm": true, "Shuffle": true, "Uint32": true, "Uint64": true, "Read": true, "Seed": true,
	"Int32": true, "Int32N": true, "Int64": true, "Int64N": true, "IntN": true, "Uint": true, "Uint32N": true, "Uint64N": true, "UintN": true,
}
var mapFns = map[string]string{"Keys": "MapKeys", "Values": "MapValues", "All": "MapAll"}

// core is the underlying type, through a type parameter with a single term.
func core(t types.Type) types.Type {
	u := t.Underlying()
	i, ok := u.(*types.Interface)
	if !ok {
		return u
	}
	if _, ok := t.(*types.TypeParam); !ok || i.NumEmbeddeds() != 1 {
		return u
	}
	switch e := i.EmbeddedType(0).(type) {
	case *types.Union:
		if e.Len() == 1 {
			return e.Term(0).Type().Underlying()
		}
	default:
		return e.Underlying()
	}
	return u
}

func rewrite(fset *token.FileSet, f *ast.File, src []byte, info *types.Info, rel string, entryOnly bool) []byte {
	var edits []edit
	ord := 0
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	add := func(pos, end int, text string) {
		edits = append(edits, edit{pos, end, text, ord})
		ord++
	}
	usesRT := false
	site := func(p token.Pos, fn string) string {
		usesRT = true
		id := nextSite
		nextSite++
		if nextSite >= 1<<16 {
			fatal("too many sites")
		}
		sites = append(sites, siteInfo{id, rel, fset.Position(p).Line, fn})
		return fmt.Sprintf("simrt_.Y(%d); ", id)
	}

	// imports
	imports := map[string]string{} // local name -> path
	for _, im := range f.Imports {
		path, _ := strconv.Unquote(im.Path.Value)
		name := filepath.Base(path)
		if path == "math/rand/v2" {
			name = "rand"
		}
		if im.Name != nil {
			name = im.Name.Name
		}
		imports[name] = path
		switch path {
		case "sync":
			if im.Name == nil {
				add(off(im.Path.Pos()), off(im.Path.End()), "sync "+strconv.Quote(syncPath))
			} else {
				add(off(im.Path.Pos()), off(im.Path.End()), strconv.Quote(syncPath))
			}
		}
	}
	isPkg := func(id *ast.Ident, path string) bool {
		if imports[id.Name] != path {
			return false
		}
		if o, ok := info.Uses[id]; ok {
			_, isName := o.(*types.PkgName)
			return isName
		}
		return true
	}
	inSelect, comma := map[ast.Node]bool{}, map[ast.Node]bool{}
	var deferred []ast.Node     // select and go statements, rewritten with their contents' edits in place
	keep := map[string]string{} // import local name -> a use that keeps it imported

	curFn := "init"
	var visitList func(list []ast.Stmt)
	visitList = func(list []ast.Stmt) {
		if entryOnly {
			return
		}
		for _, s := range list {
			switch s.(type) {
			case *ast.EmptyStmt, *ast.CaseClause, *ast.CommClause:
				continue
			}
			add(off(s.Pos()), off(s.Pos()), site(s.Pos(), curFn))
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.FuncDecl:
			curFn = n.Name.Name
			if n.Recv != nil && len(n.Recv.List) == 1 {
				t := n.Recv.List[0].Type
				if s, ok := t.(*ast.StarExpr); ok {
					t = s.X
				}
				if id, ok := t.(*ast.Ident); ok {
					curFn = id.Name + "." + curFn
				}
			}
			if entryOnly && n.Body != nil && len(n.Body.List) > 0 && !strings.HasSuffix(rel, "_listener.go") && !strings.Contains(n.Name.Name, "empred") {
				// generated parser: rule functions only, not the thousands of accessors
				if strings.HasPrefix(curFn, "SQLiteParser.") || strings.HasPrefix(curFn, "New") || strings.HasPrefix(curFn, "SQLiteLexer.") {
					p := n.Body.List[0].Pos()
					add(off(p), off(p), site(p, curFn))
				}
			}
		case *ast.BlockStmt:
			visitList(n.List)
		case *ast.CaseClause:
			visitList(n.Body)
		case *ast.SelectStmt:
			if !entryOnly && len(n.Body.List) > 0 {
				deferred = append(deferred, n)
			}
		case *ast.CommClause:
			// the channel operation belongs to the select
			switch c := n.Comm.(type) {
			case *ast.SendStmt:
				inSelect[c] = true
			case *ast.ExprStmt:
				inSelect[ast.Unparen(c.X)] = true
			case *ast.AssignStmt:
				inSelect[ast.Unparen(c.Rhs[0])] = true
			}
			visitList(n.Body)
		case *ast.SendStmt:
			if !inSelect[n] {
				usesRT = true
				add(off(n.Pos()), off(n.Pos()), "simrt_.Send(")
				add(off(n.Arrow), off(n.Arrow)+2, ")(")
				add(off(n.End()), off(n.End()), ")")
			}
		case *ast.AssignStmt:
			if len(n.Lhs) == 2 && len(n.Rhs) == 1 {
				if u, ok := ast.Unparen(n.Rhs[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
					comma[u] = true
				}
			}
		case *ast.ValueSpec:
			if len(n.Names) == 2 && len(n.Values) == 1 {
				if u, ok := ast.Unparen(n.Values[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
					comma[u] = true
				}
			}
		case *ast.UnaryExpr:
			if n.Op == token.ARROW && !inSelect[n] {
				usesRT = true
				fn := "simrt_.Recv("
				if comma[n] {
					fn = "simrt_.Recv2("
				}
				add(off(n.OpPos), off(n.OpPos)+2, fn)
				add(off(n.End()), off(n.End()), ")")
			}
		case *ast.CallExpr:
			if id, ok := n.Fun.(*ast.Ident); ok && id.Name == "close" && len(n.Args) == 1 {
				if _, isB := info.Uses[id].(*types.Builtin); isB {
					usesRT = true
					add(off(id.Pos()), off(id.End()), "simrt_.CloseChan")
				}
			}
		case *ast.RangeStmt:
			if tv, ok := info.Types[n.X]; ok && tv.Type != nil {
				if _, isChan := core(tv.Type).(*types.Chan); isChan {
					usesRT = true
					add(off(n.X.Pos()), off(n.X.Pos()), "simrt_.ChanAll(")
					add(off(n.X.End()), off(n.X.End()), ")")
				}
				if _, isMap := core(tv.Type).(*types.Map); isMap && n.Key != nil {
					usesRT = true
					fn := "MapKeys"
					if n.Value != nil {
						fn = "MapAll"
					}
					add(off(n.X.Pos()), off(n.X.Pos()), "simrt_."+fn+"(")
					add(off(n.X.End()), off(n.X.End()), ")")
				}
			}
		case *ast.GoStmt:
			usesRT = true
			// go f(a, b)  =>  simrt_.Go(func() func() { f_, a_ := f, a; return func() { f_(a_) } }())
			call := n.Call
			if fl, ok := call.Fun.(*ast.FuncLit); ok && len(call.Args) == 0 {
				// keep inner edits: only wrap
				add(off(n.Pos()), off(fl.Pos()), "simrt_.Go(")
				add(off(fl.End()), off(n.End()), ")")
				return true
			}
			deferred = append(deferred, n)
			return true
		case *ast.SelectorExpr:
			id, ok := n.X.(*ast.Ident)
			if !ok {
				return true
			}
			if isPkg(id, "time") {
				if r, ok := timeFns[n.Sel.Name]; ok {
					usesRT = true
					add(off(n.Pos()), off(n.End()), "simrt_."+r)
					keep[id.Name] = "var _ " + id.Name + ".Duration"
					return false
				}
			}
			for v, path := range []string{"math/rand", "math/rand/v2"} {
				if isPkg(id, path) && randFns[n.Sel.Name] {
					usesRT = true
					add(off(n.Pos()), off(n.End()), fmt.Sprintf("simrt_.RandV%d().%s", v+1, n.Sel.Name))
					keep[id.Name] = "var _ " + id.Name + ".Source"
					return false
				}
			}
			if isPkg(id, "maps") {
				if r, ok := mapFns[n.Sel.Name]; ok {
					usesRT = true
					add(off(n.Pos()), off(n.End()), "simrt_."+r)
					keep[id.Name] = "var _ = " + id.Name + ".Clone[map[int]int]"
					return false
				}
			}
		}
		return true
	})
	moved := func(e ast.Expr) string {
		lo, hi := off(e.Pos()), off(e.End())
		var in, rest []edit
		for _, x := range edits {
			if x.pos >= lo && x.end <= hi {
				in = append(in, x)
			} else {
				rest = append(rest, x)
			}
		}
		edits = rest
		sortEdits(in)
		var t []byte
		last := lo
		for _, x := range in {
			t = append(append(t, src[last:x.pos]...), x.text...)
			last = x.end
		}
		return string(append(t, src[last:hi]...))
	}
	doGo := func(n *ast.GoStmt) {
		// go f(a, b)  =>  simrt_.Go(func() func() { f_, a_ := f, a; return func() { f_(a_) } }())
		call := n.Call
		var lhs, rhs, args []string
		if _, isLit := call.Fun.(*ast.FuncLit); !isLit {
			lhs = append(lhs, "f_")
			rhs = append(rhs, moved(call.Fun))
		}
		for i, a := range call.Args {
			if tv, ok := info.Types[a]; ok && (tv.Value != nil || tv.IsNil()) {
				args = append(args, moved(a))
				continue
			}
			nm := fmt.Sprintf("a%d_", i)
			lhs = append(lhs, nm)
			rhs = append(rhs, moved(a))
			args = append(args, nm)
		}
		ell := ""
		if call.Ellipsis.IsValid() {
			ell = "..."
		}
		fun := "f_"
		if _, isLit := call.Fun.(*ast.FuncLit); isLit {
			fun = moved(call.Fun)
		}
		asg := ""
		if len(lhs) > 0 {
			asg = strings.Join(lhs, ", ") + " := " + strings.Join(rhs, ", ") + "; "
		}
		add(off(n.Pos()), off(n.End()), "simrt_.Go(func() func() { "+asg+"return func() { "+fun+"("+strings.Join(args, ", ")+ell+") } }())")
	}
	for k := len(deferred) - 1; k >= 0; k-- {
		if g, ok := deferred[k].(*ast.GoStmt); ok {
			doGo(g)
			continue
		}
		// select { case v := <-c: .. }  =>  switch s0_ := simrt_.SelRecv(c); simrt_.Select(false, s0_) { default: v := s0_.Val; .. }
		usesRT = true
		n := deferred[k].(*ast.SelectStmt)
		var names, inits []string
		def := "false"
		for _, c := range n.Body.List {
			if c.(*ast.CommClause).Comm == nil {
				def = "true"
			}
		}
		for i, c := range n.Body.List {
			c := c.(*ast.CommClause)
			if c.Comm == nil {
				continue
			}
			v := fmt.Sprintf("s%d_", len(names))
			head := fmt.Sprintf("case %d:", len(names))
			if def == "false" && i == len(n.Body.List)-1 {
				head = "default:"
			}
			names = append(names, v)
			recv := func(e ast.Expr) {
				inits = append(inits, "simrt_.SelRecv("+moved(ast.Unparen(e).(*ast.UnaryExpr).X)+")")
			}
			switch m := c.Comm.(type) {
			case *ast.SendStmt:
				inits = append(inits, "simrt_.SelSend("+moved(m.Chan)+")("+moved(m.Value)+")")
			case *ast.ExprStmt:
				recv(m.X)
			case *ast.AssignStmt:
				recv(m.Rhs[0])
				var lhs []string
				for _, l := range m.Lhs {
					lhs = append(lhs, moved(l))
				}
				rhs := []string{v + ".Val", v + ".Ok"}[:len(lhs)]
				head += " " + strings.Join(lhs, ", ") + " " + m.Tok.String() + " " + strings.Join(rhs, ", ") + ";"
			}
			lo, hi := off(c.Case), off(c.Colon)+1
			var rest []edit
			for _, x := range edits {
				if x.pos < lo || x.end > hi || x.pos == hi {
					rest = append(rest, x)
				}
			}
			edits = rest
			add(lo, hi, head+strings.Repeat("\n", strings.Count(string(src[lo:hi]), "\n")))
		}
		init := ""
		if len(names) > 0 {
			init = strings.Join(names, ", ") + " := " + strings.Join(inits, ", ") + "; "
		}
		add(off(n.Select), off(n.Body.Lbrace), "switch "+init+"simrt_.Select("+strings.Join(append([]string{def}, names...), ", ")+") ")
	}
	if usesRT {
		add(off(f.Name.End()), off(f.Name.End()), "; import simrt_ "+strconv.Quote(rtPath))
	}
	sortEdits(edits)
	var out []byte
	last := 0
	for _, e := range edits {
		if e.pos < last {
			fatal("%s: overlapping edits at offset %d", rel, e.pos)
		}
		out = append(out, src[last:e.pos]...)
		out = append(out, e.text...)
		last = e.end
	}
	out = append(out, src[last:]...)
	var ks []string
	for _, v := range keep {
		ks = append(ks, v)
	}
	sort.Strings(ks)
	for _, v := range ks {
		out = append(out, []byte("\n"+v+"\n")...)
	}
	return out
}

func sortEdits(edits []edit) {
	sort.SliceStable(edits, func(i, j int) bool {
		if edits[i].pos != edits[j].pos {
			return edits[i].pos < edits[j].pos
		}
		// pure insertions before replacements at the same place; in order added
		ri, rj := edits[i].end > edits[i].pos, edits[j].end > edits[j].pos
		if ri != rj {
			return !ri
		}
		return edits[i].ord < edits[j].ord
	})
}
