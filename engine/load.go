package main

// Loading of /repo (plus overlays) and SSA construction.

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
)

const modPath = "github.com/bwesterb/go-xmssmt"

type Program struct {
	Prog      *ssa.Program
	Main      *ssa.Package
	ByPath    map[string]*ssa.Package
	built     map[*ssa.Package]bool
	Dropped   map[string]string // harness files that did not type-check
	HarnessOf map[string]string // harness name -> file
	Overlay   map[string][]byte
}

type Config struct {
	Repo  string
	Verif string
	Work  string // scratch dir
	Model bool   // rewrite os/mmap/lockfile imports to the model packages
}

func goEnv() []string {
	env := []string{}
	for _, e := range os.Environ() {
		k := strings.SplitN(e, "=", 2)[0]
		switch k {
		case "GOFLAGS", "GOTOOLCHAIN", "GOPROXY", "GOWORK", "GOMODCACHE", "GOCACHE", "HOME":
			continue
		}
		env = append(env, e)
	}
	home := os.Getenv("HOME")
	if home == "" {
		home = "/root"
	}
	gc := os.Getenv("GOCACHE")
	if gc == "" {
		gc = "/root/.cache/go-build"
	}
	return append(env, "HOME="+home, "GOTOOLCHAIN=local", "GOPROXY=off", "GOFLAGS=-mod=mod", "GOWORK=off",
		"GOMODCACHE=/root/go/pkg/mod", "GOCACHE="+gc, "GONOSUMDB=*", "GONOSUMCHECK=1")
}

// prepareMod copies go.mod and go.sum so that /repo's are never touched.
func prepareMod(cfg *Config) (string, error) {
	for _, f := range []string{"go.mod", "go.sum"} {
		b, err := os.ReadFile(filepath.Join(cfg.Repo, f))
		if err != nil {
			return "", err
		}
		if err := os.WriteFile(filepath.Join(cfg.Work, f), b, 0644); err != nil {
			return "", err
		}
	}
	return filepath.Join(cfg.Work, "go.mod"), nil
}

// modelImports maps real packages to the model packages.
var modelImports = map[string]string{
	"os":                             modPath + "/internal/vstubs/vos",
	"io/ioutil":                      modPath + "/internal/vstubs/vioutil",
	"github.com/edsrzf/mmap-go":      modPath + "/internal/vstubs/vmmap",
	"github.com/nightlyone/lockfile": modPath + "/internal/vstubs/vlockfile",
}

// rewriteImports returns the source with imports of modelled packages replaced.
func rewriteImports(name string, src []byte) ([]byte, bool, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, name, src, parser.ImportsOnly)
	if err != nil {
		return nil, false, err
	}
	type edit struct {
		s, e int
		txt  string
	}
	var edits []edit
	for _, im := range f.Imports {
		p, _ := strconv.Unquote(im.Path.Value)
		np, ok := modelImports[p]
		if !ok {
			continue
		}
		local := filepath.Base(p)
		if p == "github.com/edsrzf/mmap-go" {
			local = "mmap"
		}
		s := fset.Position(im.Path.Pos()).Offset
		e := fset.Position(im.Path.End()).Offset
		if im.Name != nil {
			edits = append(edits, edit{s, e, strconv.Quote(np)})
		} else {
			edits = append(edits, edit{s, e, local + " " + strconv.Quote(np)})
		}
	}
	if len(edits) == 0 {
		return src, false, nil
	}
	sort.Slice(edits, func(i, j int) bool { return edits[i].s > edits[j].s })
	out := string(src)
	for _, ed := range edits {
		out = out[:ed.s] + ed.txt + out[ed.e:]
	}
	return []byte(out), true, nil
}

// addScheduler makes the sources of the package and the harnesses use a
// scheduler that follows the decisions of a counterexample.
func addScheduler(cfg *Config, ov map[string][]byte) error {
	b, err := os.ReadFile(filepath.Join(cfg.Verif, "vnd", "vsync.go"))
	if err != nil {
		return err
	}
	ov[filepath.Join(cfg.Repo, "internal/vsync/vsync.go")] = b
	srcs, _ := filepath.Glob(filepath.Join(cfg.Repo, "*.go"))
	for f := range ov {
		if filepath.Dir(f) == filepath.Clean(cfg.Repo) {
			srcs = append(srcs, f)
		}
	}
	done := map[string]bool{}
	for _, f := range srcs {
		if done[f] || strings.HasSuffix(f, "_test.go") {
			continue
		}
		done[f] = true
		b, ok := ov[f]
		if !ok {
			if b, err = os.ReadFile(f); err != nil {
				return err
			}
		}
		nb, err := rewriteSync(f, b)
		if err != nil {
			return err
		}
		ov[f] = nb
	}
	return nil
}

const vsyncPath = modPath + "/internal/vsync"

func rewriteSync(name string, src []byte) ([]byte, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, name, src, parser.ParseComments)
	if err != nil {
		return nil, err
	}
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	type edit struct {
		s, e int
		txt  string
	}
	var edits []edit
	pkg := off(f.Name.End())
	for _, im := range f.Imports {
		if im.Path.Value == `"sync"` {
			txt := strconv.Quote(vsyncPath)
			if im.Name == nil {
				txt = "sync " + txt
			}
			edits = append(edits, edit{off(im.Path.Pos()), off(im.Path.End()), txt})
		}
	}
	uses := false
	ast.Inspect(f, func(n ast.Node) bool {
		g, ok := n.(*ast.GoStmt)
		if !ok {
			return true
		}
		uses = true
		// { f, a, b := f, a, b; vsync.Go(func() { f(a, b) }) }
		var l []string
		pre, post := "vh_f", ""
		for i := range g.Call.Args {
			l = append(l, fmt.Sprintf("vh_a%d", i))
		}
		if len(l) > 0 {
			pre += ", " + strings.Join(l, ", ")
			post = strings.Join(l, ", ")
			if g.Call.Ellipsis.IsValid() {
				post += "..."
			}
		}
		edits = append(edits, edit{off(g.Pos()), off(g.Call.Fun.Pos()), "{ " + pre + " := "})
		if len(l) > 0 {
			edits = append(edits, edit{off(g.Call.Fun.End()), off(g.Call.Args[0].Pos()), ", "})
			edits = append(edits, edit{off(g.Call.Args[len(l)-1].End()), off(g.Call.End()), "; vh_sched.Go(func() { vh_f(" + post + ") }) }"})
		} else {
			edits = append(edits, edit{off(g.Call.Fun.End()), off(g.Call.End()), "; vh_sched.Go(func() { vh_f() }) }"})
		}
		return true
	})
	if uses {
		edits = append(edits, edit{pkg, pkg, "; import vh_sched " + strconv.Quote(vsyncPath)})
	}
	sort.SliceStable(edits, func(i, j int) bool { return edits[i].s > edits[j].s })
	out := string(src)
	for _, ed := range edits {
		out = out[:ed.s] + ed.txt + out[ed.e:]
	}
	return []byte(out), nil
}

// buildOverlay collects harnesses, stubs and rewritten sources.
func buildOverlay(cfg *Config, native bool, skip map[string]bool) (map[string][]byte, error) {
	ov := map[string][]byte{}
	add := func(dst, src string) error {
		b, err := os.ReadFile(src)
		if err != nil {
			return err
		}
		ov[dst] = b
		return nil
	}
	hs, _ := filepath.Glob(filepath.Join(cfg.Verif, "harness", "*.go"))
	sort.Strings(hs)
	for _, h := range hs {
		base := filepath.Base(h)
		if skip[base] {
			continue
		}
		dst := "zz_vh_" + base
		if err := add(filepath.Join(cfg.Repo, dst), h); err != nil {
			return nil, err
		}
	}
	vndFile := "vnd_engine.go"
	if native {
		vndFile = "vnd_native.go"
	}
	if err := add(filepath.Join(cfg.Repo, "internal/vnd/vnd.go"), filepath.Join(cfg.Verif, "vnd", vndFile)); err != nil {
		return nil, err
	}
	stubs, _ := filepath.Glob(filepath.Join(cfg.Verif, "stubs", "*", "*.go"))
	for _, s := range stubs {
		dir := filepath.Base(filepath.Dir(s))
		if err := add(filepath.Join(cfg.Repo, "internal/vstubs", dir, filepath.Base(s)), s); err != nil {
			return nil, err
		}
	}
	srcs, _ := filepath.Glob(filepath.Join(cfg.Repo, "*.go"))
	for _, s := range srcs {
		if strings.HasSuffix(s, "_test.go") {
			if native {
				// neutralise the repository's own tests during replay
				b, err := os.ReadFile(s)
				if err == nil {
					pk := "xmssmt"
					if strings.Contains(string(b), "package xmssmt_test") {
						pk = "xmssmt_test"
					}
					ov[s] = []byte("package " + pk + "\n")
				}
			}
			continue
		}
		b, err := os.ReadFile(s)
		if err != nil {
			return nil, err
		}
		if cfg.Model {
			nb, ch, err := rewriteImports(s, b)
			if err != nil {
				return nil, err
			}
			if ch {
				ov[s] = nb
			}
		}
	}
	return ov, nil
}

func loadProgram(cfg *Config) (*Program, error) {
	modfile, err := prepareMod(cfg)
	if err != nil {
		return nil, err
	}
	skip := map[string]bool{}
	dropped := map[string]string{}
	for try := 0; ; try++ {
		ov, err := buildOverlay(cfg, false, skip)
		if err != nil {
			return nil, err
		}
		pcfg := &packages.Config{
			Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
				packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
			Dir:        cfg.Repo,
			Env:        append(goEnv(), "CGO_ENABLED=0"),
			Overlay:    ov,
			BuildFlags: []string{"-modfile=" + modfile},
		}
		pats := []string{"."}
		seen := map[string]bool{}
		for p := range ov {
			rel, _ := filepath.Rel(cfg.Repo, filepath.Dir(p))
			if strings.HasPrefix(rel, "internal/vstubs/") && !seen[rel] {
				seen[rel] = true
				pats = append(pats, "./"+rel)
			}
		}
		sort.Strings(pats)
		pkgs, err := packages.Load(pcfg, pats...)
		if err != nil {
			return nil, err
		}
		// type errors
		bad := map[string]string{}
		var other []string
		packages.Visit(pkgs, nil, func(p *packages.Package) {
			if p.Module == nil || p.Module.Path != modPath {
				return
			}
			for _, e := range p.Errors {
				fn := filepath.Base(strings.SplitN(e.Pos, ":", 2)[0])
				if strings.HasPrefix(fn, "zz_vh_") {
					b := strings.TrimPrefix(fn, "zz_vh_")
					if bad[b] == "" {
						bad[b] = e.Error()
					}
				} else {
					other = append(other, e.Error())
				}
			}
		})
		if len(bad) > 0 && try < 6 {
			for k, v := range bad {
				skip[k] = true
				dropped[k] = v
			}
			continue
		}
		if len(other) > 0 {
			return nil, fmt.Errorf("type errors: %s", strings.Join(other, "; "))
		}
		p := &Program{ByPath: map[string]*ssa.Package{}, built: map[*ssa.Package]bool{}, Dropped: dropped, HarnessOf: map[string]string{}, Overlay: ov}
		var fset *token.FileSet
		for _, q := range pkgs {
			fset = q.Fset
		}
		p.Prog = ssa.NewProgram(fset, ssa.InstantiateGenerics|ssa.SanityCheckFunctions&0)
		var create func(q *packages.Package)
		done := map[*packages.Package]bool{}
		create = func(q *packages.Package) {
			if done[q] {
				return
			}
			done[q] = true
			for _, i := range q.Imports {
				create(i)
			}
			if q.Types == nil {
				return
			}
			sp := p.Prog.CreatePackage(q.Types, q.Syntax, q.TypesInfo, true)
			p.ByPath[q.PkgPath] = sp
			if q.PkgPath == modPath {
				p.Main = sp
				for i, f := range q.Syntax {
					fn := filepath.Base(q.CompiledGoFiles[i])
					for _, d := range f.Decls {
						if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv == nil && strings.HasPrefix(fd.Name.Name, "VH_") {
							p.HarnessOf[fd.Name.Name] = fn
						}
					}
				}
			}
		}
		for _, q := range pkgs {
			create(q)
		}
		if p.Main == nil {
			return nil, fmt.Errorf("main package not loaded")
		}
		return p, nil
	}
}

func (p *Program) ensureBuilt(pkg *ssa.Package) {
	if pkg == nil {
		return
	}
	buildMu.Lock()
	defer buildMu.Unlock()
	if !p.built[pkg] {
		p.built[pkg] = true
		pkg.Build()
	}
}
