package main

// Loading the code under test and the harnesses, and building SSA.

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
	"golang.org/x/tools/go/types/typeutil"
)

const repoMod = "github.com/fredbi/go-typeset"

type embedVar struct {
	pkg   string
	name  string
	files []string // relative to the package directory
	dir   string
	isFS  bool
}

type Engine struct {
	repo    string
	verif   string
	overlay map[string]string // virtual path -> real path
	fset    *token.FileSet
	prog    *ssa.Program
	pkgs    []*packages.Package
	harness map[string]*ssa.Package // short name -> package
	merging bool

	tmu             sync.Mutex
	tmap            typeutil.Map
	embeds          []embedVar
	errorStringType types.Type
	loadErrs        []string
	modPath         map[string]bool
}

func isStdPath(p string) bool {
	i := strings.IndexByte(p, '/')
	first := p
	if i >= 0 {
		first = p[:i]
	}
	return !strings.Contains(first, ".")
}

func (e *Engine) inRepo(p string) bool {
	return strings.HasPrefix(p, repoMod) && !strings.Contains(p, "/zzverif") && p != symPath
}

func (e *Engine) canon(t types.Type) types.Type {
	e.tmu.Lock()
	defer e.tmu.Unlock()
	if c := e.tmap.At(t); c != nil {
		return c.(types.Type)
	}
	e.tmap.Set(t, t)
	return t
}

func (e *Engine) lookupMethod(t types.Type, pkg *types.Package, name string) *ssa.Function {
	ms := e.prog.MethodSets.MethodSet(t)
	sel := ms.Lookup(pkg, name)
	if sel == nil {
		return nil
	}
	return e.prog.MethodValue(sel)
}

func (e *Engine) implements(t, iface types.Type) bool {
	it, ok := iface.Underlying().(*types.Interface)
	return ok && types.Implements(t, it)
}

// buildOverlay maps the harness sources into virtual directories of the repository.
// Harness directory layout: /verif/harness/<name>/*.go, with an optional first-line
// marker "//place: <dir relative to repo>" selecting the directory.
func buildOverlay(repo, verif string, names []string) (map[string]string, map[string]string, error) {
	ov := map[string]string{}
	dirs := map[string]string{}
	add := func(virtual, real string) { ov[filepath.Join(repo, virtual)] = real }
	symFiles, _ := filepath.Glob(filepath.Join(verif, "harness", "sym", "*.go"))
	for _, f := range symFiles {
		add(filepath.Join("verifsym", filepath.Base(f)), f)
	}
	for _, n := range names {
		fs, _ := filepath.Glob(filepath.Join(verif, "harness", n, "*.go"))
		if len(fs) == 0 {
			return nil, nil, fmt.Errorf("no harness %q", n)
		}
		place := filepath.Join("zzverif", n)
		for _, f := range fs {
			b, err := os.ReadFile(f)
			if err != nil {
				return nil, nil, err
			}
			if s := string(b); strings.HasPrefix(s, "//place: ") {
				place = strings.TrimSpace(strings.TrimPrefix(strings.SplitN(s, "\n", 2)[0], "//place: "))
			}
		}
		for _, f := range fs {
			add(filepath.Join(place, filepath.Base(f)), f)
		}
		dirs[n] = place
	}
	return ov, dirs, nil
}

func Load(repo, verif string, names []string) (*Engine, error) {
	e := &Engine{repo: repo, verif: verif, harness: map[string]*ssa.Package{}, merging: true}
	ov, dirs, err := buildOverlay(repo, verif, names)
	if err != nil {
		return nil, err
	}
	e.overlay = ov
	content := map[string][]byte{}
	for v, r := range ov {
		b, err := os.ReadFile(r)
		if err != nil {
			return nil, err
		}
		content[v] = b
	}
	e.fset = token.NewFileSet()
	cfg := &packages.Config{
		Mode:    packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedEmbedFiles | packages.NeedModule,
		Dir:     repo,
		Fset:    e.fset,
		Overlay: content,
		Env:     append(os.Environ(), "GOFLAGS=-mod=readonly", "GOPROXY=off", "CGO_ENABLED=0"),
	}
	var pats []string
	for _, n := range names {
		pats = append(pats, repoMod+"/"+filepath.ToSlash(dirs[n]))
	}
	pkgs, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, err
	}
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, er := range p.Errors {
			e.loadErrs = append(e.loadErrs, p.PkgPath+": "+er.Error())
		}
	})
	if len(e.loadErrs) > 0 {
		return e, fmt.Errorf("load errors: %s", strings.Join(e.loadErrs, "; "))
	}
	e.pkgs = pkgs
	prog, spkgs := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	e.prog = prog
	for i, n := range names {
		_ = i
		for _, sp := range spkgs {
			if sp != nil && sp.Pkg.Path() == repoMod+"/"+filepath.ToSlash(dirs[n]) {
				e.harness[n] = sp
			}
		}
		if e.harness[n] == nil {
			return nil, fmt.Errorf("harness package %s not loaded", n)
		}
	}
	for _, p := range prog.AllPackages() {
		if p.Pkg.Path() == "errors" {
			if t, ok := p.Members["errorString"].(*ssa.Type); ok {
				e.errorStringType = e.canon(types.NewPointer(t.Type()))
			}
		}
	}
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		if len(p.EmbedFiles) > 0 {
			e.findEmbeds(p)
		}
	})
	return e, nil
}

func (e *Engine) findEmbeds(p *packages.Package) {
	for _, f := range p.Syntax {
		for _, d := range f.Decls {
			gd, ok := d.(*ast.GenDecl)
			if !ok || gd.Tok != token.VAR {
				continue
			}
			for _, sp := range gd.Specs {
				vs := sp.(*ast.ValueSpec)
				var pats []string
				for _, cg := range []*ast.CommentGroup{gd.Doc, vs.Doc} {
					if cg == nil {
						continue
					}
					for _, c := range cg.List {
						if strings.HasPrefix(c.Text, "//go:embed ") {
							pats = append(pats, strings.Fields(strings.TrimPrefix(c.Text, "//go:embed "))...)
						}
					}
				}
				if len(pats) == 0 {
					continue
				}
				ev := embedVar{pkg: p.PkgPath, name: vs.Names[0].Name, dir: filepath.Dir(p.GoFiles[0])}
				o := p.Types.Scope().Lookup(ev.name)
				if o != nil && strings.HasSuffix(o.Type().String(), "embed.FS") {
					ev.isFS = true
				}
				for _, ef := range p.EmbedFiles {
					rel, err := filepath.Rel(ev.dir, ef)
					if err != nil {
						continue
					}
					for _, pt := range pats {
						pt = strings.TrimPrefix(strings.Trim(pt, "\"`"), "all:")
						ok, _ := filepath.Match(pt, rel)
						if ok || strings.HasPrefix(rel, pt+"/") || rel == pt {
							ev.files = append(ev.files, filepath.ToSlash(rel))
							break
						}
					}
				}
				e.embeds = append(e.embeds, ev)
			}
		}
	}
}

func (vm *VM) initEmbeds() {
	for _, ev := range vm.eng.embeds {
		var g *ssa.Global
		for _, p := range vm.eng.prog.AllPackages() {
			if p.Pkg.Path() == ev.pkg {
				g, _ = p.Members[ev.name].(*ssa.Global)
			}
		}
		if g == nil {
			continue
		}
		cell := vm.global(g)
		if !ev.isFS {
			if len(ev.files) == 1 {
				b, _ := os.ReadFile(filepath.Join(ev.dir, ev.files[0]))
				if kindOf(g.Type().Underlying().(*types.Pointer).Elem()) == KString {
					*cell = vStr(string(b))
				} else {
					*cell = mkSlice(vm.strBytes(vStr(string(b))))
				}
			}
			continue
		}
		names := map[string]bool{}
		for _, f := range ev.files {
			names[f] = true
			for d := filepath.Dir(f); d != "." && d != "/"; d = filepath.Dir(d) {
				names[d+"/"] = true
			}
		}
		var list []string
		for n := range names {
			list = append(list, n)
		}
		split := func(n string) (string, string) {
			n = strings.TrimSuffix(n, "/")
			i := strings.LastIndexByte(n, '/')
			if i < 0 {
				return ".", n
			}
			return n[:i], n[i+1:]
		}
		sort.Slice(list, func(i, j int) bool {
			di, ei := split(list[i])
			dj, ej := split(list[j])
			return di < dj || di == dj && ei < ej
		})
		// FS{files *[]file}; file{name string; data string; hash [16]byte}
		sl := &Slice{A: &Agg{}}
		for _, n := range list {
			data := ""
			if !strings.HasSuffix(n, "/") {
				b, _ := os.ReadFile(filepath.Join(ev.dir, n))
				data = string(b)
			}
			hash := &Agg{E: make([]V, 16)}
			sl.A.E = append(sl.A.E, V{X: &Agg{E: []V{vStr(n), vStr(data), {X: hash}}}})
		}
		sl.Len, sl.Cap = len(sl.A.E), len(sl.A.E)
		fp := new(V)
		*fp = V{X: sl}
		cell.X.(*Agg).E[0] = V{X: fp}
	}
}

// setFile replaces the content of an embedded file for the rest of the path.
func (e *Engine) setFile(vm *VM, pkg, name string, content V) {
	for _, ev := range e.embeds {
		if ev.pkg != repoMod+"/"+pkg || !ev.isFS {
			continue
		}
		for _, p := range e.prog.AllPackages() {
			if p.Pkg.Path() != ev.pkg {
				continue
			}
			g, _ := p.Members[ev.name].(*ssa.Global)
			fp := vm.global(g).X.(*Agg).E[0].X.(*V)
			for _, f := range elems(*fp) {
				ag := f.X.(*Agg)
				if s, _ := ag.E[0].X.(string); s == name {
					vm.set(&ag.E[1], content)
					return
				}
			}
		}
	}
	panic(vm.unsupp("embedded file %s of %s not found", name, pkg))
}

// packages whose initialisers are executed.
func initAllowed(p string) bool {
	if !isStdPath(p) {
		return true
	}
	switch p {
	case "io", "io/fs", "unicode", "unicode/utf8", "unicode/utf16", "strings", "bytes", "strconv", "sort", "slices", "maps", "math", "math/bits",
		"container/list", "container/heap", "container/ring", "bufio", "path", "embed", "cmp", "iter", "internal/oserror", "internal/stringslite",
		"regexp", "regexp/syntax", "text/tabwriter", "hash/fnv", "hash", "encoding/binary", "html":
		return true
	}
	return false
}

// runInit executes the initialiser of a package and, first, of its imports.
func (vm *VM) runInit(p *ssa.Package) {
	f := p.Func("init")
	if f == nil {
		return
	}
	vm.initPkg(vm.fnOf(f))
}

func (vm *VM) initPkg(f *Fn) {
	pkg := pkgOf(f.f)
	if !initAllowed(pkg.Pkg.Path()) {
		return
	}
	func() {
		sp, depth := vm.sp, vm.depth
		defer func() {
			if r := recover(); r != nil {
				vm.sp, vm.depth = sp, depth
				switch x := r.(type) {
				case abort:
					vm.notes = append(vm.notes, "init of "+pkg.Pkg.Path()+": "+x.why)
				case targetPanic:
					vm.notes = append(vm.notes, "init of "+pkg.Pkg.Path()+" panics: "+x.msg)
				default:
					panic(r)
				}
			}
		}()
		vm.invoke(f, nil, nil)
	}()
}
