package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"io/fs"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

var repoDir = repoRoot()

const modPath = "github.com/singchia/geminio"

// Tree is the build the engine and the native replay share: /repo's current
// files, rewritten, plus the harness packages, as an overlay.
type Tree struct {
	work    string
	overlay map[string]string // path -> replacement file
	content map[string][]byte
	modfile string
	points  int
	hnames  []string          // harness functions, "pkg.Func"
	hpkg    map[string]string // harness function -> package dir name
}

var skipDirs = map[string]bool{"examples": true, "example": true, "test": true, "tools": true, "docs": true, "bench": true, "batch": true, ".git": true, "zzverif": true}

var syncCalls = map[string]bool{"Lock": true, "RLock": true, "TryLock": true, "TryRLock": true, "EmitEvent": true,
	"Ack": true, "New": true, "Add": true, "Done": true, "Cancel": true, "Error": false, "Close": true, "Write": true,
	"Load": true, "LoadOrStore": true, "LoadAndDelete": true, "CompareAndSwap": true, "CompareAndSwapPointer": true,
	"CompareAndSwapInt32": true, "CompareAndSwapUint32": true, "LoadPointer": true, "LoadUint32": true, "LoadInt32": true, "SwapPointer": true, "Unlock": false}

// touchesSync reports whether the statement itself (not nested blocks or
// function literals) does something another goroutine can observe.
func touchesSync(s ast.Stmt) bool {
	switch x := s.(type) {
	case *ast.GoStmt, *ast.SelectStmt, *ast.SendStmt:
		return true
	case *ast.DeferStmt, *ast.BlockStmt, *ast.LabeledStmt, *ast.CaseClause, *ast.CommClause:
		return false
	case *ast.RangeStmt:
		return exprSync(x.X)
	case *ast.IfStmt:
		return (x.Init != nil && touchesSync(x.Init)) || exprSync(x.Cond)
	case *ast.ForStmt:
		return x.Init != nil && touchesSync(x.Init) || x.Cond != nil && exprSync(x.Cond)
	case *ast.SwitchStmt:
		return x.Init != nil && touchesSync(x.Init) || x.Tag != nil && exprSync(x.Tag)
	case *ast.TypeSwitchStmt:
		return false
	}
	return nodeSync(s)
}

func exprSync(e ast.Expr) bool { return nodeSync(e) }

func nodeSync(n ast.Node) bool {
	hit := false
	ast.Inspect(n, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.FuncLit:
			return false
		case *ast.UnaryExpr:
			if x.Op == token.ARROW {
				hit = true
			}
		case *ast.CallExpr:
			switch f := x.Fun.(type) {
			case *ast.Ident:
				if f.Name == "close" {
					hit = true
				}
			case *ast.SelectorExpr:
				if syncCalls[f.Sel.Name] {
					if id, ok := f.X.(*ast.Ident); ok && (id.Name == "errors" || id.Name == "binary" || id.Name == "time") {
						break
					}
					hit = true
				}
			}
		}
		return !hit
	})
	return hit
}

// touchesMem reports whether the statement itself reads or writes a field,
// other than by naming a package's member or calling a method.
func touchesMem(s ast.Stmt, pkgs map[string]bool) bool {
	var n ast.Node
	switch x := s.(type) {
	case *ast.AssignStmt, *ast.ExprStmt, *ast.IncDecStmt, *ast.ReturnStmt:
		n = s
	case *ast.IfStmt:
		if x.Init != nil && touchesMem(x.Init, pkgs) {
			return true
		}
		n = x.Cond
	case *ast.RangeStmt:
		n = x.X
	default:
		return false
	}
	hit := false
	ast.Inspect(n, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.FuncLit:
			return false
		case *ast.CallExpr:
			for _, a := range x.Args {
				ast.Inspect(a, func(n ast.Node) bool {
					if se, ok := n.(*ast.SelectorExpr); ok && !hit {
						id, isID := se.X.(*ast.Ident)
						hit = !isID || !pkgs[id.Name]
					}
					_, fl := n.(*ast.FuncLit)
					return !hit && !fl
				})
			}
			if se, ok := x.Fun.(*ast.SelectorExpr); ok {
				if in, ok := se.X.(*ast.SelectorExpr); ok {
					id, isID := in.X.(*ast.Ident)
					hit = hit || !isID || !pkgs[id.Name]
				}
			}
			return false
		case *ast.SelectorExpr:
			id, isID := x.X.(*ast.Ident)
			hit = hit || !isID || !pkgs[id.Name]
		}
		return !hit
	})
	return hit
}

// splitRMW turns x.f += e, x.f++ and x.f = ... x.f ... into a read and a write.
func splitRMW(s ast.Stmt, src []byte, off func(token.Pos) int) (string, string, bool) {
	chain := func(e ast.Expr) bool {
		for {
			switch x := e.(type) {
			case *ast.SelectorExpr:
				e = x.X
				if _, ok := e.(*ast.Ident); ok {
					return true
				}
				continue
			}
			return false
		}
	}
	text := func(e ast.Expr) string { return string(src[off(e.Pos()):off(e.End())]) }
	switch x := s.(type) {
	case *ast.IncDecStmt:
		if chain(x.X) {
			op := " + 1"
			if x.Tok == token.DEC {
				op = " - 1"
			}
			return text(x.X) + op, text(x.X) + " = zzvt", true
		}
	case *ast.AssignStmt:
		if len(x.Lhs) != 1 || len(x.Rhs) != 1 || !chain(x.Lhs[0]) {
			return "", "", false
		}
		l, r := text(x.Lhs[0]), text(x.Rhs[0])
		switch x.Tok {
		case token.ASSIGN:
			found, bad := false, false
			ast.Inspect(x.Rhs[0], func(n ast.Node) bool {
				switch y := n.(type) {
				case *ast.FuncLit:
					bad = true
				case *ast.BinaryExpr:
					if y.Op == token.LAND || y.Op == token.LOR || y.Op.Precedence() == 3 {
						bad = true
					}
				case *ast.SelectorExpr:
					if text(y) == l {
						found = true
					}
				}
				return true
			})
			if found && !bad {
				return r, l + " = zzvt", true
			}
		case token.DEFINE:
		default:
			lit := false
			ast.Inspect(x.Rhs[0], func(n ast.Node) bool {
				if _, ok := n.(*ast.FuncLit); ok {
					lit = true
				}
				return true
			})
			if lit {
				return "", "", false
			}
			op := strings.TrimSuffix(x.Tok.String(), "=")
			return l + " " + op + " (" + r + ")", l + " = zzvt", true
		}
	}
	return "", "", false
}

// rewrite instruments one file; points are numbered from *n.
func rewrite(path string, src []byte, n *int, withPoints, withSync bool) ([]byte, bool, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, path, src, parser.ParseComments)
	if err != nil {
		return nil, false, err
	}
	type ins struct {
		off  int
		end  int
		text string
	}
	var edits []ins
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	used := false
	if withPoints {
		pkgs := map[string]bool{}
		for _, im := range f.Imports {
			p := strings.Trim(im.Path.Value, `"`)
			name := p[strings.LastIndex(p, "/")+1:]
			if im.Name != nil {
				name = im.Name.Name
			}
			pkgs[name] = true
		}
		var inList func(l []ast.Stmt)
		inList = func(l []ast.Stmt) {
			for _, s := range l {
				t := s
				for {
					if ls, ok := t.(*ast.LabeledStmt); ok {
						t = ls.Stmt
						continue
					}
					break
				}
				if touchesSync(t) {
					*n++
					edits = append(edits, ins{off(s.Pos()), off(s.Pos()), fmt.Sprintf("zzv.P(%d); ", *n)})
					used = true
				} else if touchesMem(t, pkgs) {
					*n++
					edits = append(edits, ins{off(s.Pos()), off(s.Pos()), fmt.Sprintf("zzv.M(%d); ", *n)})
					used = true
				}
				if gs, ok := t.(*ast.GoStmt); ok {
					// a goroutine may start late
					if fl, ok := gs.Call.Fun.(*ast.FuncLit); ok {
						*n++
						p := off(fl.Body.Lbrace) + 1
						edits = append(edits, ins{p, p, fmt.Sprintf(" zzv.P(%d); ", *n)})
						used = true
					} else if len(gs.Call.Args) == 0 {
						*n++
						edits = append(edits, ins{off(gs.Pos()), off(gs.Call.Fun.Pos()), "{ zzf := "})
						edits = append(edits, ins{off(gs.Call.Lparen), off(gs.Call.Rparen) + 1, fmt.Sprintf("; go func() { zzv.P(%d); zzf() }() }", *n)})
						used = true
					}
				}
				if pre, post, ok := splitRMW(t, src, off); ok {
					*n++
					edits = append(edits, ins{off(t.Pos()), off(t.End()), fmt.Sprintf("{ zzvt := %s; zzv.M(%d); %s }", pre, *n, post)})
					used = true
				}
			}
		}
		ast.Inspect(f, func(nd ast.Node) bool {
			switch x := nd.(type) {
			case *ast.BlockStmt:
				inList(x.List)
			case *ast.CaseClause:
				inList(x.Body)
			case *ast.CommClause:
				inList(x.Body)
			}
			return true
		})
	}
	changed := used
	if withSync {
		for _, im := range f.Imports {
			if im.Path.Value == `"sync"` {
				text := `"` + modPath + `/zzverif/vsync"`
				if im.Name == nil {
					text = "sync " + text
				}
				edits = append(edits, ins{off(im.Path.Pos()), off(im.Path.End()), text})
				changed = true
			}
		}
	}
	if withSync && (strings.HasPrefix(path, repoDir+"/server/") || strings.HasPrefix(path, repoDir+"/client/")) {
		// listening and dialling happen in memory
		name := ""
		for _, im := range f.Imports {
			if im.Path.Value == `"net"` {
				name = "net"
				if im.Name != nil {
					name = im.Name.Name
				}
			}
		}
		vnet := false
		ast.Inspect(f, func(nd ast.Node) bool {
			if x, ok := nd.(*ast.SelectorExpr); ok {
				if id, ok := x.X.(*ast.Ident); ok && id.Name == name && name != "" {
					switch x.Sel.Name {
					case "Listen", "Dial", "DialTimeout":
						edits = append(edits, ins{off(id.Pos()), off(id.End()), "zzvnet"})
						vnet = true
					}
				}
			}
			return true
		})
		if vnet {
			p := off(f.Name.End())
			edits = append(edits, ins{p, p, `; import zzvnet "` + modPath + `/zzverif/vnet"`})
			e := len(src)
			edits = append(edits, ins{e, e, "\nvar _ = " + name + ".ErrClosed\n"})
			changed = true
		}
	}
	if used {
		p := off(f.Name.End())
		edits = append(edits, ins{p, p, `; import zzv "` + modPath + `/zzverif/v"`})
	}
	if !changed {
		return src, false, nil
	}
	sort.SliceStable(edits, func(i, j int) bool { return edits[i].off < edits[j].off })
	var out bytes.Buffer
	at := 0
	for _, e := range edits {
		out.Write(src[at:e.off])
		out.WriteString(e.text)
		at = e.end
	}
	out.Write(src[at:])
	return out.Bytes(), true, nil
}

func (t *Tree) put(target, name string, b []byte) error {
	p := filepath.Join(t.work, "src", name)
	if err := os.MkdirAll(filepath.Dir(p), 0o755); err != nil {
		return err
	}
	if err := os.WriteFile(p, b, 0o644); err != nil {
		return err
	}
	t.overlay[target] = p
	t.content[target] = b
	return nil
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

// BuildTree regenerates everything from /repo's working tree.
func BuildTree(work string) (*Tree, error) {
	t := &Tree{work: work, overlay: map[string]string{}, content: map[string][]byte{}, hpkg: map[string]string{}}
	err := filepath.WalkDir(repoDir, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		if d.IsDir() {
			if p != repoDir && skipDirs[d.Name()] {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		src, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		out, ch, err := rewrite(p, src, &t.points, true, true)
		if err != nil {
			return err
		}
		if ch {
			return t.put(p, "repo"+strings.TrimPrefix(p, repoDir), out)
		}
		return nil
	})
	if err != nil {
		return nil, err
	}
	// dependencies whose mutexes must be visible
	mod, err := os.ReadFile(filepath.Join(repoDir, "go.mod"))
	if err != nil {
		return nil, err
	}
	sum, err := os.ReadFile(filepath.Join(repoDir, "go.sum"))
	if err != nil {
		return nil, err
	}
	mc := os.Getenv("GOMODCACHE")
	if mc == "" {
		mc = "/root/go/pkg/mod"
	}
	m := string(mod) + "\n"
	m += "replace github.com/singchia/go-timer/v2 => " + filepath.Join(verifDir(), "stubs/go-timer") + "\n"
	for _, dep := range []string{"github.com/singchia/yafsm", "github.com/jumboframes/armorigo"} {
		ver := ""
		for _, l := range strings.Split(string(mod), "\n") {
			fs := strings.Fields(l)
			for i := range fs {
				if fs[i] == dep && i+1 < len(fs) {
					ver = fs[i+1]
				}
			}
		}
		if ver == "" {
			continue
		}
		src := filepath.Join(mc, dep+"@"+ver)
		dst := filepath.Join(work, "mod", filepath.Base(dep))
		err := filepath.WalkDir(src, func(p string, d fs.DirEntry, err error) error {
			if err != nil {
				return err
			}
			q := filepath.Join(dst, strings.TrimPrefix(p, src))
			if d.IsDir() {
				return os.MkdirAll(q, 0o755)
			}
			if strings.HasSuffix(p, "_test.go") || !(strings.HasSuffix(p, ".go") || d.Name() == "go.mod") {
				return nil
			}
			b, err := os.ReadFile(p)
			if err != nil {
				return err
			}
			if strings.HasSuffix(p, ".go") {
				n := 0
				if b, _, err = rewrite(p, b, &n, false, true); err != nil {
					return err
				}
			}
			return os.WriteFile(q, b, 0o644)
		})
		if err != nil {
			return nil, err
		}
		m += "replace " + dep + " => " + dst + "\n"
	}
	t.modfile = filepath.Join(work, "go.mod")
	if err := os.WriteFile(t.modfile, []byte(m), 0o644); err != nil {
		return nil, err
	}
	if err := os.WriteFile(filepath.Join(work, "go.sum"), sum, 0o644); err != nil {
		return nil, err
	}
	// harness packages
	hd := filepath.Join(verifDir(), "harness")
	err = filepath.WalkDir(hd, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		if d.IsDir() || !strings.HasSuffix(p, ".go") {
			return nil
		}
		rel := strings.TrimPrefix(p, hd+"/")
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		target := filepath.Join(repoDir, "zzverif", rel)
		if strings.HasPrefix(rel, "inpkg/") {
			target = filepath.Join(repoDir, strings.TrimPrefix(rel, "inpkg/"))
		}
		if strings.HasPrefix(rel, "h/") {
			f, err := parser.ParseFile(token.NewFileSet(), p, b, 0)
			if err != nil {
				return err
			}
			for _, dl := range f.Decls {
				if fd, ok := dl.(*ast.FuncDecl); ok && fd.Recv == nil && strings.HasPrefix(fd.Name.Name, "H_") {
					t.hnames = append(t.hnames, fd.Name.Name)
				}
			}
		}
		return t.put(target, "zz/"+rel, b)
	})
	if err != nil {
		return nil, err
	}
	sort.Strings(t.hnames)
	var rt bytes.Buffer
	rt.WriteString("package run\n\nimport (\n\t\"os\"\n\t\"testing\"\n\t\"testing/synctest\"\n\n\t\"" + modPath + "/zzverif/h\"\n\t\"" + modPath + "/zzverif/v\"\n)\n\nvar reg = map[string]func(){\n")
	for _, n := range t.hnames {
		fmt.Fprintf(&rt, "\t%q: h.%s,\n", n, n)
	}
	rt.WriteString("}\n\nfunc TestReplay(t *testing.T) {\n\tf := reg[os.Getenv(\"VERIF_H\")]\n\tif f == nil {\n\t\tos.Exit(4)\n\t}\n\tsynctest.Test(t, func(t *testing.T) {\n\t\tv.Begin()\n\t\tf()\n\t\tv.End()\n\t})\n}\n")
	if err := t.put(filepath.Join(repoDir, "zzverif/run/run_test.go"), "zz/run/run_test.go", rt.Bytes()); err != nil {
		return nil, err
	}
	if err := t.put(filepath.Join(repoDir, "zzverif/run/run.go"), "zz/run/run.go", []byte("package run\n")); err != nil {
		return nil, err
	}
	b, _ := json.Marshal(map[string]any{"Replace": t.overlay})
	return t, os.WriteFile(filepath.Join(work, "overlay.json"), b, 0o644)
}

// repoRoot is /repo; seed.sh points it at a scratch copy with a planted bug.
func repoRoot() string {
	if d := os.Getenv("GOSYM_REPO"); d != "" {
		return d
	}
	return "/repo"
}
