package main

// Loading: the real sources of /repo are read, a small environment rewrite is
// applied in memory (net.Listen & co. -> zzvrt stand-ins, yield markers), and
// the result is type-checked and turned into SSA.  The very same rewritten
// files are given to the Go compiler for native replay.

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
)

const modPath = "github.com/fwhezfwhez/tcpx"

type Work struct {
	dir     string // scratch directory
	repo    string
	overlay map[string]string // repo path -> real file
	modfile string
	env     []string
}

var rewriteCalls = map[string]string{
	"net.Listen":       "Listen",
	"net.ListenPacket": "ListenPacket",
	"net.Dial":         "Dial",
	"net.DialTimeout":  "DialTimeout",
	"tls.Listen":       "TLSListen",
	"tls.Dial":         "TLSDial",
	"tls.NewListener":  "TLSNewListener",

	"tls.LoadX509KeyPair": "LoadX509KeyPair",
	"signal.Stop":         "SignalStop",
	"os.Exit":          "OSExit",
	"signal.Notify":    "SignalNotify",
}

type edit struct {
	pos int
	end int
	txt string
}

func applyEdits(src []byte, eds []edit) []byte {
	sort.SliceStable(eds, func(i, j int) bool { return eds[i].pos < eds[j].pos })
	var out []byte
	last := 0
	for _, e := range eds {
		out = append(out, src[last:e.pos]...)
		out = append(out, e.txt...)
		last = e.end
	}
	return append(out, src[last:]...)
}

var yieldNames = map[string]bool{
	"Lock": true, "RLock": true, "TryLock": true, "Load": true, "Store": true, "LoadOrStore": true, "LoadAndDelete": true,
	"Delete": true, "Range": true, "Swap": true, "CompareAndSwap": true, "AddInt32": true, "AddInt64": true,
	"LoadInt32": true, "StoreInt32": true, "CompareAndSwapInt32": true, "Wait": true, "Do": true,
	"LoadInt64": true, "StoreInt64": true, "CompareAndSwapInt64": true, "SwapInt32": true, "Add": true,
}

// needsYield: does the statement itself (not nested blocks or function
// literals) contain a synchronisation operation?
func needsYield(s ast.Stmt) bool {
	found := false
	var visit func(n ast.Node) bool
	visit = func(n ast.Node) bool {
		if found || n == nil {
			return false
		}
		switch x := n.(type) {
		case *ast.FuncLit:
			return false
		case *ast.BlockStmt:
			return false
		case *ast.DeferStmt, *ast.GoStmt:
			return false
		case *ast.SendStmt:
			found = true
		case *ast.SelectStmt:
			found = true
		case *ast.UnaryExpr:
			if x.Op == token.ARROW {
				found = true
			}
		case *ast.CallExpr:
			switch f := x.Fun.(type) {
			case *ast.Ident:
				if f.Name == "close" {
					found = true
				}
			case *ast.SelectorExpr:
				if yieldNames[f.Sel.Name] {
					found = true
				}
			}
		}
		return !found
	}
	ast.Inspect(s, visit)
	return found
}

// rewriteFile returns the rewritten source, and the list of yield sites.
func rewriteFile(path string, src []byte, siteBase *int) ([]byte, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, path, src, parser.ParseComments)
	if err != nil {
		return nil, err
	}
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	// import names
	imp := map[string]string{}
	for _, im := range f.Imports {
		p, _ := strconv.Unquote(im.Path.Value)
		name := p[strings.LastIndex(p, "/")+1:]
		if im.Name != nil {
			name = im.Name.Name
		}
		imp[name] = p
	}
	pkgShort := map[string]string{"net": "net", "crypto/tls": "tls", "os": "os", "os/signal": "signal"}
	var eds []edit
	keep := map[string]string{}
	used := false
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.SelectorExpr:
			id, ok := x.X.(*ast.Ident)
			if !ok || id.Obj != nil {
				return true
			}
			p, ok := imp[id.Name]
			if !ok {
				return true
			}
			short, ok := pkgShort[p]
			if !ok {
				return true
			}
			if to, ok := rewriteCalls[short+"."+x.Sel.Name]; ok {
				eds = append(eds, edit{off(x.Pos()), off(x.End()), "zzvrt." + to})
				keep[id.Name+"."+x.Sel.Name] = id.Name
				used = true
			}
		case *ast.BlockStmt:
			for _, s := range x.List {
				switch s.(type) {
				case *ast.CommClause, *ast.CaseClause:
					continue
				}
				if needsYield(s) {
					*siteBase++
					eds = append(eds, edit{off(s.Pos()), off(s.Pos()), fmt.Sprintf("zzvrt.Y(%d); ", *siteBase)})
					used = true
				}
			}
		case *ast.CaseClause:
			for _, s := range x.Body {
				if needsYield(s) {
					*siteBase++
					eds = append(eds, edit{off(s.Pos()), off(s.Pos()), fmt.Sprintf("zzvrt.Y(%d); ", *siteBase)})
					used = true
				}
			}
		case *ast.CommClause:
			for _, s := range x.Body {
				if needsYield(s) {
					*siteBase++
					eds = append(eds, edit{off(s.Pos()), off(s.Pos()), fmt.Sprintf("zzvrt.Y(%d); ", *siteBase)})
					used = true
				}
			}
		}
		return true
	})
	if !used {
		return src, nil
	}
	// labelled statements: a yield between label and loop would break
	// "continue L"; the edit is at the position of the labelled statement
	// itself because LabeledStmt is the list element, so it precedes the label.
	e := off(f.Name.End())
	eds = append(eds, edit{e, e, "; import zzvrt \"" + modPath + "/zzvrt\""})
	out := applyEdits(src, eds)
	var ks []string
	for k := range keep {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		out = append(out, []byte("\nvar _ = "+k+"\n")...)
	}
	return out, nil
}

func prepareWork(repo, verif, scratch string) (*Work, error) {
	w := &Work{dir: scratch, repo: repo, overlay: map[string]string{}}
	os.MkdirAll(filepath.Join(scratch, "src"), 0o755)
	ents, err := os.ReadDir(repo)
	if err != nil {
		return nil, err
	}
	site := 0
	for _, e := range ents {
		n := e.Name()
		if e.IsDir() || !strings.HasSuffix(n, ".go") || strings.HasSuffix(n, "_test.go") {
			continue
		}
		p := filepath.Join(repo, n)
		src, err := os.ReadFile(p)
		if err != nil {
			return nil, err
		}
		out, err := rewriteFile(p, src, &site)
		if err != nil {
			return nil, err
		}
		dst := filepath.Join(scratch, "src", n)
		if err := os.WriteFile(dst, out, 0o644); err != nil {
			return nil, err
		}
		w.overlay[p] = dst
	}
	for _, d := range []string{"zzvrt", "zzvh"} {
		hd := filepath.Join(verif, "harness", d)
		hs, err := os.ReadDir(hd)
		if err != nil {
			return nil, err
		}
		for _, e := range hs {
			if strings.HasSuffix(e.Name(), ".go") {
				w.overlay[filepath.Join(repo, d, e.Name())] = filepath.Join(hd, e.Name())
			}
		}
	}
	// module files
	w.modfile = filepath.Join(scratch, "tcpx.mod")
	gm, err := os.ReadFile(filepath.Join(repo, "go.mod"))
	if err != nil {
		return nil, err
	}
	if err := os.WriteFile(w.modfile, gm, 0o644); err != nil {
		return nil, err
	}
	gs, err := os.ReadFile(filepath.Join(repo, "go.sum"))
	if err != nil {
		return nil, err
	}
	if err := os.WriteFile(filepath.Join(scratch, "tcpx.sum"), gs, 0o644); err != nil {
		return nil, err
	}
	w.env = append(os.Environ(), "GOTOOLCHAIN=local", "GOWORK=off", "GO111MODULE=on", "GOPROXY=off", "GOFLAGS=-mod=mod -modfile="+w.modfile, "PWD="+repo)
	if !strings.Contains(string(gm), "github.com/BurntSushi/toml") {
		c := exec.Command("go", "mod", "edit", "-require=github.com/BurntSushi/toml@v0.3.1", w.modfile)
		c.Env = append(os.Environ(), "GOFLAGS=", "GOTOOLCHAIN=local", "GOWORK=off")
		c.Dir = scratch
		if out, err := c.CombinedOutput(); err != nil {
			return nil, fmt.Errorf("go mod edit: %v %s", err, out)
		}
	}
	ov, _ := json.Marshal(map[string]interface{}{"Replace": w.overlay})
	if err := os.WriteFile(filepath.Join(scratch, "overlay.json"), ov, 0o644); err != nil {
		return nil, err
	}
	return w, nil
}

type Prog struct {
	prog *ssa.Program
	pkgs map[string]*ssa.Package
	fset *token.FileSet
}

func loadProgram(w *Work) (*Prog, error) {
	fset := token.NewFileSet()
	cfg := &packages.Config{
		Mode:       packages.LoadAllSyntax,
		Dir:        w.repo,
		Env:        w.env,
		Fset:       fset,
		BuildFlags: []string{"-overlay=" + filepath.Join(w.dir, "overlay.json")},
		Overlay:    map[string][]byte{},
	}
	for k, v := range w.overlay {
		b, err := os.ReadFile(v)
		if err != nil {
			return nil, err
		}
		cfg.Overlay[k] = b
	}
	cfg.BuildFlags = nil
	pkgs, err := packages.Load(cfg, "./zzvh")
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("load errors: %s", strings.Join(errs, "\n"))
	}
	prog := ssa.NewProgram(fset, ssa.InstantiateGenerics)
	pr := &Prog{prog: prog, pkgs: map[string]*ssa.Package{}, fset: fset}
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		if p.Types != nil && !p.IllTyped {
			pr.pkgs[p.PkgPath] = prog.CreatePackage(p.Types, p.Syntax, p.TypesInfo, true)
		}
	})
	return pr, nil
}
