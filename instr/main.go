// Command instr copies the library under test and rewrites it for the
// schedule explorer: every statement becomes a scheduling point, the
// synchronisation packages are replaced by controlled ones, go statements
// start controlled goroutines and package variables are made resettable.
//
// With -free (or when the source uses primitives the explorer does not
// control) the sources are copied as they are, for uncontrolled runs.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type pkg struct {
	Dir        string
	ImportPath string
	Name       string
	GoFiles    []string
	OtherFiles []string
	SFiles     []string
	EmbedFiles []string
}

type edit struct {
	off int
	end int
	txt string
}

var sites []string

func die(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "instr: "+f+"\n", a...)
	os.Exit(1)
}

func main() {
	repo := flag.String("repo", "/repo", "")
	out := flag.String("out", "", "")
	shim := flag.String("shim", "", "")
	free := flag.Bool("free", false, "")
	flag.Parse()
	cmd := exec.Command("go", "list", "-json", "./...")
	cmd.Dir = *repo
	cmd.Stderr = os.Stderr
	b, err := cmd.Output()
	if err != nil {
		die("go list: %v", err)
	}
	var pkgs []pkg
	dec := json.NewDecoder(strings.NewReader(string(b)))
	for dec.More() {
		var p pkg
		if err := dec.Decode(&p); err != nil {
			die("%v", err)
		}
		pkgs = append(pkgs, p)
	}
	sort.Slice(pkgs, func(i, j int) bool { return len(pkgs[i].ImportPath) < len(pkgs[j].ImportPath) })
	module := modulePath(filepath.Join(*repo, "go.mod"))
	root := *out
	if err := os.RemoveAll(root); err != nil {
		die("%v", err)
	}
	mk(root)
	for _, f := range []string{"go.mod", "go.sum"} {
		if b, err := os.ReadFile(filepath.Join(*repo, f)); err == nil {
			write(filepath.Join(root, f), b)
		}
	}
	uncontrolled := map[string]bool{}
	if *free {
		uncontrolled["-free"] = true
	}
	type result struct {
		path string
		data []byte
	}
	var plain, inst []result
	sites = append(sites, "?")
	for _, p := range pkgs {
		rel, err := filepath.Rel(*repo, p.Dir)
		if err != nil || p.Name == "main" {
			continue
		}
		dst := filepath.Join(root, rel)
		vars := []string{}
		for _, f := range p.GoFiles {
			src, err := os.ReadFile(filepath.Join(p.Dir, f))
			if err != nil {
				die("%v", err)
			}
			plain = append(plain, result{filepath.Join(dst, f), src})
			data, vs := rewrite(module, filepath.Join(rel, f), src, uncontrolled)
			vars = append(vars, vs...)
			inst = append(inst, result{filepath.Join(dst, f), data})
		}
		for _, f := range append(append(append([]string{}, p.OtherFiles...), p.SFiles...), p.EmbedFiles...) {
			b, err := os.ReadFile(filepath.Join(p.Dir, f))
			if err != nil {
				die("%v", err)
			}
			plain = append(plain, result{filepath.Join(dst, f), b})
			inst = append(inst, result{filepath.Join(dst, f), b})
		}
		if len(vars) > 0 {
			t := "package " + p.Name + "\n\nimport mcs \"" + module + "/mcs\"\n\nfunc init() {\n\tmcs.Register(" + strconv.Quote(module)
			for _, v := range vars {
				t += ", &" + v
			}
			t += ")\n}\n"
			inst = append(inst, result{filepath.Join(dst, "zz_mcs_vars.go"), []byte(t)})
		}
	}
	use := inst
	if len(uncontrolled) > 0 {
		use = plain
		sites = nil
	}
	for _, r := range use {
		mk(filepath.Dir(r.path))
		write(r.path, r.data)
	}
	// the runtime
	filepath.Walk(*shim, func(path string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(path, ".go") {
			return err
		}
		rel, _ := filepath.Rel(*shim, path)
		b, err := os.ReadFile(path)
		if err != nil {
			die("%v", err)
		}
		b = []byte(strings.ReplaceAll(string(b), "github.com/qmuntal/gltf/mcs", module+"/mcs"))
		d := filepath.Join(root, "mcs", rel)
		mk(filepath.Dir(d))
		write(d, b)
		return nil
	})
	t := "package mcs\n\n// Sites names the scheduling points.\nvar Sites = []string{\n"
	for _, s := range sites {
		t += "\t" + strconv.Quote(s) + ",\n"
	}
	var why []string
	for k := range uncontrolled {
		why = append(why, k)
	}
	sort.Strings(why)
	t += "}\n\n// Uncontrolled says why the explorer does not control this build.\nconst Uncontrolled = " + strconv.Quote(strings.Join(why, ", ")) + "\n"
	write(filepath.Join(root, "mcs", "sites.go"), []byte(t))
}

func modulePath(f string) string {
	b, err := os.ReadFile(f)
	if err != nil {
		die("%v", err)
	}
	for _, l := range strings.Split(string(b), "\n") {
		if s := strings.Fields(l); len(s) >= 2 && s[0] == "module" {
			return strings.Trim(s[1], `"`)
		}
	}
	die("no module path")
	return ""
}

func mk(d string) {
	if err := os.MkdirAll(d, 0o755); err != nil {
		die("%v", err)
	}
}

func write(f string, b []byte) {
	if err := os.WriteFile(f, b, 0o644); err != nil {
		die("%v", err)
	}
}

// rewrite instruments one file; vs are the package variables it declares.
func rewrite(module, name string, src []byte, uncontrolled map[string]bool) ([]byte, []string) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, name, src, parser.ParseComments|parser.SkipObjectResolution)
	if err != nil {
		die("%v", err)
	}
	tf := fset.File(f.Pos())
	off := func(p token.Pos) int { return tf.Offset(p) }
	var edits []edit
	add := func(at, end int, txt string) { edits = append(edits, edit{at, end, txt}) }
	add(off(f.Name.End()), off(f.Name.End()), "; import mcs \""+module+"/mcs\"")
	last := f.Name.End()
	for _, d := range f.Decls {
		if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.IMPORT {
			last = g.End()
		}
	}
	add(off(last), off(last), "; var _ = mcs.Y")
	syncName := map[string]bool{}
	for _, im := range f.Imports {
		p, _ := strconv.Unquote(im.Path.Value)
		switch p {
		case "sync", "sync/atomic":
			alias := ""
			base := p[strings.LastIndex(p, "/")+1:]
			if im.Name == nil {
				alias = base + " "
			}
			if im.Name != nil && im.Name.Name == "." {
				uncontrolled["dot import of "+p] = true
			}
			if p == "sync" {
				if im.Name != nil {
					base = im.Name.Name
				}
				syncName[base] = true
			}
			add(off(im.Path.Pos()), off(im.Path.End()), alias+strconv.Quote(module+"/mcs/"+p[strings.LastIndex(p, "/")+1:]))
		case "context", "os/signal", "C":
			uncontrolled["import of "+p] = true
		}
	}
	point := func(s ast.Stmt) {
		switch s.(type) {
		case *ast.EmptyStmt:
			return
		}
		pos := fset.Position(s.Pos())
		add(off(s.Pos()), off(s.Pos()), fmt.Sprintf("mcs.Y(%d); ", len(sites)))
		sites = append(sites, fmt.Sprintf("%s:%d", name, pos.Line))
	}
	list := func(l []ast.Stmt) {
		for _, s := range l {
			point(s)
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.BlockStmt:
			if n != nil && !isClauses(n) {
				list(n.List)
			}
		case *ast.CaseClause:
			list(n.Body)
		case *ast.GoStmt:
			// go f(a, b) evaluates f, a and b first
			c := n.Call
			if fl, ok := c.Fun.(*ast.FuncLit); ok && len(c.Args) == 0 {
				add(off(n.Go), off(fl.Pos()), "mcs.Go(")
				add(off(fl.End()), off(n.End()), ")")
				return true
			}
			pre, call := "", ""
			txt := func(e ast.Expr) string { return string(src[off(e.Pos()):off(e.End())]) }
			pre += "mcsF := " + txt(c.Fun) + "; "
			for i, a := range c.Args {
				pre += fmt.Sprintf("mcsA%d := %s; ", i, txt(a))
				if i > 0 {
					call += ", "
				}
				call += fmt.Sprintf("mcsA%d", i)
			}
			if c.Ellipsis.IsValid() {
				call += "..."
			}
			add(off(n.Go), off(n.End()), "{ "+pre+"mcs.Go(func() { mcsF("+call+") }) }")
			return false
		case *ast.ChanType, *ast.SelectStmt, *ast.SendStmt:
			uncontrolled["channels"] = true
		case *ast.UnaryExpr:
			if n.Op == token.ARROW {
				uncontrolled["channels"] = true
			}
		case *ast.SelectorExpr:
			if id, ok := n.X.(*ast.Ident); ok && (n.Sel.Name == "Cond" || n.Sel.Name == "NewCond") && syncName[id.Name] {
				uncontrolled["sync.Cond"] = true
			}
			if id, ok := n.X.(*ast.Ident); ok && id.Name == "runtime" && (n.Sel.Name == "Gosched" || n.Sel.Name == "SetFinalizer" || n.Sel.Name == "AddCleanup") {
				uncontrolled["runtime."+n.Sel.Name] = true
			}
			if id, ok := n.X.(*ast.Ident); ok && id.Name == "time" && (n.Sel.Name == "Sleep" || n.Sel.Name == "AfterFunc") {
				uncontrolled["time."+n.Sel.Name] = true
			}
		}
		return true
	})
	var vs []string
	for _, d := range f.Decls {
		g, ok := d.(*ast.GenDecl)
		if !ok || g.Tok != token.VAR {
			continue
		}
		for _, s := range g.Specs {
			for _, id := range s.(*ast.ValueSpec).Names {
				if id.Name != "_" {
					vs = append(vs, id.Name)
				}
			}
		}
	}
	sort.SliceStable(edits, func(i, j int) bool { return edits[i].off < edits[j].off })
	var out []byte
	at := 0
	for _, e := range edits {
		if e.off < at {
			continue // inside a replaced range
		}
		out = append(out, src[at:e.off]...)
		out = append(out, e.txt...)
		at = e.end
	}
	out = append(out, src[at:]...)
	return out, vs
}

func isClauses(b *ast.BlockStmt) bool {
	for _, s := range b.List {
		switch s.(type) {
		case *ast.CaseClause, *ast.CommClause:
			return true
		}
	}
	return false
}
