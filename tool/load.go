package main

import (
	"fmt"
	"go/ast"
	"go/build"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// The loader type-checks the repository's packages from source, exactly the
// files the go command would build on this platform, and its dependencies for
// their declarations only. It needs neither a build cache nor a subprocess
// (besides "go env").

const modPath = "github.com/shabbyrobe/xmlwriter"

type loaded struct {
	fset  *token.FileSet
	prog  *ssa.Program
	root  *ssa.Package
	pkgs  map[string]*ssa.Package // repository packages and stubs, by path
	tpkgs map[string]*types.Package
	infos map[string]*types.Info
	files map[string][]*ast.File
	names []string // files analysed
}

type loader struct {
	fset     *token.FileSet
	repo     string
	goroot   string
	modcache string
	mods     map[string]string // module path -> dir
	pkgs     map[string]*types.Package
	infos    map[string]*types.Info
	files    map[string][]*ast.File
	parsed   map[string]*parsedPkg
	mu       sync.Mutex
	ctx      build.Context
}

type parsedPkg struct {
	path    string
	dir     string
	files   []*ast.File
	imports map[string]string // import path -> resolved path
	err     error
	names   []string
	local   bool
}

func goenv(k string) string {
	if v := os.Getenv(k); v != "" && k != "GOROOT" {
		return v
	}
	cmd := exec.Command("go", "env", k)
	cmd.Env = append(os.Environ(), "GOTOOLCHAIN=local", "GOFLAGS=-mod=mod", "GOPROXY=off")
	out, err := cmd.Output()
	if err != nil {
		return ""
	}
	return strings.TrimSpace(string(out))
}

func escapeMod(p string) string {
	var b strings.Builder
	for _, r := range p {
		if r >= 'A' && r <= 'Z' {
			b.WriteByte('!')
			r += 'a' - 'A'
		}
		b.WriteRune(r)
	}
	return b.String()
}

func (l *loader) readMods() error {
	data, err := os.ReadFile(filepath.Join(l.repo, "go.mod"))
	if err != nil {
		return err
	}
	in := false
	for _, line := range strings.Split(string(data), "\n") {
		if i := strings.Index(line, "//"); i >= 0 {
			line = line[:i]
		}
		f := strings.Fields(line)
		if len(f) == 0 {
			continue
		}
		switch {
		case f[0] == "require" && len(f) == 2 && f[1] == "(":
			in = true
			continue
		case f[0] == ")":
			in = false
			continue
		case f[0] == "require" && len(f) >= 3:
			f = f[1:]
		case !in:
			continue
		}
		if len(f) >= 2 {
			l.mods[f[0]] = filepath.Join(l.modcache, escapeMod(f[0])+"@"+f[1])
		}
	}
	return nil
}

func (l *loader) dirOf(path, fromDir string) (string, string, bool, error) {
	if path == modPath || strings.HasPrefix(path, modPath+"/") {
		return path, filepath.Join(l.repo, strings.TrimPrefix(path, modPath)), true, nil
	}
	if strings.HasPrefix(fromDir, l.goroot) {
		v := filepath.Join(l.goroot, "src", "vendor", path)
		if st, err := os.Stat(v); err == nil && st.IsDir() {
			return "vendor/" + path, v, false, nil
		}
	}
	d := filepath.Join(l.goroot, "src", path)
	if st, err := os.Stat(d); err == nil && st.IsDir() {
		return path, d, false, nil
	}
	best := ""
	for m := range l.mods {
		if (path == m || strings.HasPrefix(path, m+"/")) && len(m) > len(best) {
			best = m
		}
	}
	if best != "" {
		return path, filepath.Join(l.mods[best], strings.TrimPrefix(path, best)), false, nil
	}
	return "", "", false, fmt.Errorf("cannot resolve import %q", path)
}

func (l *loader) parse(path, dir string, local bool) *parsedPkg {
	p := &parsedPkg{path: path, dir: dir, local: local, imports: map[string]string{}}
	ctx := l.ctx
	bp, err := ctx.ImportDir(dir, 0)
	if err != nil {
		p.err = err
		return p
	}
	mode := parser.SkipObjectResolution
	if local {
		mode |= parser.ParseComments
	}
	for _, n := range bp.GoFiles {
		fn := filepath.Join(dir, n)
		f, err := parser.ParseFile(l.fset, fn, nil, mode)
		if err != nil {
			p.err = err
			return p
		}
		p.files = append(p.files, f)
		p.names = append(p.names, fn)
	}
	return p
}

func (l *loader) parseAll(roots []string) error {
	type job struct {
		path, dir string
		local     bool
	}
	var wg sync.WaitGroup
	sem := make(chan bool, runtime.NumCPU())
	var firstErr error
	var visit func(path, fromDir string) (string, error)
	visit = func(path, fromDir string) (string, error) {
		rp, dir, local, err := l.dirOf(path, fromDir)
		if err != nil {
			return "", err
		}
		l.mu.Lock()
		_, ok := l.parsed[rp]
		if !ok {
			l.parsed[rp] = &parsedPkg{}
		}
		l.mu.Unlock()
		if ok {
			return rp, nil
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			sem <- true
			p := l.parse(rp, dir, local)
			<-sem
			for _, f := range p.files {
				for _, im := range f.Imports {
					ip := strings.Trim(im.Path.Value, `"`)
					if ip == "unsafe" || ip == "C" {
						continue
					}
					r, err := visit(ip, dir)
					if err != nil && p.err == nil {
						p.err = err
					}
					p.imports[ip] = r
				}
			}
			l.mu.Lock()
			l.parsed[rp] = p
			if p.err != nil && firstErr == nil {
				firstErr = fmt.Errorf("%s: %v", rp, p.err)
			}
			l.mu.Unlock()
		}()
		return rp, nil
	}
	for _, r := range roots {
		if _, err := visit(r, l.repo); err != nil {
			return err
		}
	}
	wg.Wait()
	return firstErr
}

type pkgImporter struct {
	l *loader
	p *parsedPkg
}

func (i pkgImporter) Import(path string) (*types.Package, error) {
	if path == "unsafe" {
		return types.Unsafe, nil
	}
	return i.l.check(i.p.imports[path])
}

func (l *loader) check(path string) (*types.Package, error) {
	if p := l.pkgs[path]; p != nil {
		return p, nil
	}
	pp := l.parsed[path]
	if pp == nil {
		return nil, fmt.Errorf("package %q not loaded", path)
	}
	info := &types.Info{
		Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{},
		Implicits: map[ast.Node]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}, Scopes: map[ast.Node]*types.Scope{},
		Instances: map[*ast.Ident]types.Instance{}, FileVersions: map[*ast.File]string{},
	}
	var firstErr error
	conf := types.Config{
		Importer:         pkgImporter{l, pp},
		IgnoreFuncBodies: !pp.local,
		FakeImportC:      true,
		Sizes:            types.SizesFor("gc", "amd64"),
		Error: func(err error) {
			if firstErr == nil {
				firstErr = err
			}
		},
	}
	if pp.local {
		conf.GoVersion = "go1.21"
	}
	if !pp.local {
		info = nil
	}
	pkg, _ := conf.Check(strings.TrimPrefix(path, "vendor/"), l.fset, pp.files, info)
	if firstErr != nil && pp.local {
		return nil, firstErr
	}
	l.pkgs[path] = pkg
	if pp.local {
		l.infos[path] = info
		l.files[path] = pp.files
	}
	return pkg, nil
}

// localPackages lists the directories of the repository with Go packages.
func localPackages(repo string) ([]string, error) {
	var out []string
	err := filepath.Walk(repo, func(p string, st os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if st.IsDir() {
			n := st.Name()
			if p != repo && (strings.HasPrefix(n, ".") || strings.HasPrefix(n, "_") || n == "testdata" || n == "vendor") {
				return filepath.SkipDir
			}
			bp, err := build.Default.ImportDir(p, 0)
			if err == nil && len(bp.GoFiles) > 0 {
				rel, _ := filepath.Rel(repo, p)
				path := modPath
				if rel != "." {
					path += "/" + filepath.ToSlash(rel)
				}
				out = append(out, path)
			}
		}
		return nil
	})
	sort.Strings(out)
	return out, err
}

func load(repo string, all bool) (*loaded, error) {
	goroot := goenv("GOROOT")
	if goroot == "" {
		goroot = runtime.GOROOT()
	}
	l := &loader{fset: token.NewFileSet(), repo: repo, goroot: goroot, modcache: goenv("GOMODCACHE"),
		mods: map[string]string{}, pkgs: map[string]*types.Package{}, infos: map[string]*types.Info{},
		files: map[string][]*ast.File{}, parsed: map[string]*parsedPkg{}}
	l.ctx = build.Default
	l.ctx.GOROOT = goroot
	l.ctx.CgoEnabled = false
	l.ctx.GOPATH = ""
	l.ctx.Compiler = "gc"
	if err := l.readMods(); err != nil {
		return nil, err
	}
	roots := []string{modPath}
	if all {
		var err error
		roots, err = localPackages(repo)
		if err != nil {
			return nil, err
		}
	}
	if err := l.parseAll(append(append([]string{}, roots...), stubImports...)); err != nil {
		return nil, err
	}
	ld := &loaded{fset: l.fset, pkgs: map[string]*ssa.Package{}, tpkgs: l.pkgs, infos: l.infos, files: l.files}
	for _, r := range roots {
		if _, err := l.check(r); err != nil {
			return nil, err
		}
	}
	// the stub package gives Go bodies for a few library functions
	if err := l.addStubs(); err != nil {
		return nil, err
	}
	prog := ssa.NewProgram(l.fset, ssa.InstantiateGenerics|ssa.BareInits)
	ld.prog = prog
	created := map[*types.Package]bool{}
	var create func(p *types.Package)
	create = func(p *types.Package) {
		if p == nil || created[p] || p == types.Unsafe {
			return
		}
		created[p] = true
		for _, im := range p.Imports() {
			create(im)
		}
		if info := l.infos[p.Path()]; info != nil {
			sp := prog.CreatePackage(p, l.files[p.Path()], info, true)
			ld.pkgs[p.Path()] = sp
		} else {
			prog.CreatePackage(p, nil, nil, true)
		}
	}
	for _, r := range append(append([]string{}, roots...), stubPath) {
		create(l.pkgs[r])
	}
	for _, sp := range ld.pkgs {
		sp.Build()
	}
	ld.root = ld.pkgs[modPath]
	for _, r := range roots {
		ld.names = append(ld.names, l.parsed[r].names...)
	}
	return ld, nil
}
