package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Prog is the type-checked program in SSA form: the packages of the repository
// from source, everything they import from its export data.
type Prog struct {
	Dir   string
	Mod   string
	Fset  *token.FileSet
	Pkgs  []*packages.Package
	SSA   *ssa.Program
	SPkgs map[string]*ssa.Package // by import path
	Funcs []*ssa.Function         // every function of the repository, including closures
	// types whose values are stored in a sync.Map, by class of the map
	named map[string]*types.Named
}

func repoDir() string {
	if d := os.Getenv("SA_REPO"); d != "" {
		return d
	}
	return "/repo"
}

func Load() (*Prog, error) {
	dir := repoDir()
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedDeps | packages.NeedExportFile | packages.NeedTypes | packages.NeedSyntax |
			packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir:   dir,
		Tests: false,
		Fset:  token.NewFileSet(),
		Env:   append(os.Environ(), "GOFLAGS=-mod=readonly -buildvcs=false"),
	}
	// Full dependency type-checking from source is avoided by loading only the
	// root packages with syntax; LoadAllSyntax would need the dependencies' code.
	cfg.Mode &^= packages.NeedDeps
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	var errs []string
	for _, p := range pkgs {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	}
	if len(errs) > 0 {
		return nil, fmt.Errorf("the repository does not type-check: %s", strings.Join(errs, "; "))
	}
	if len(pkgs) == 0 {
		return nil, fmt.Errorf("no packages found in %s", dir)
	}
	sort.Slice(pkgs, func(i, j int) bool { return pkgs[i].PkgPath < pkgs[j].PkgPath })
	prog, spkgs := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	p := &Prog{Dir: dir, Fset: cfg.Fset, Pkgs: pkgs, SSA: prog, SPkgs: map[string]*ssa.Package{}, named: map[string]*types.Named{}}
	for i, sp := range spkgs {
		if sp == nil {
			return nil, fmt.Errorf("no SSA for %s", pkgs[i].PkgPath)
		}
		p.SPkgs[pkgs[i].PkgPath] = sp
		if pkgs[i].Module != nil && p.Mod == "" {
			p.Mod = pkgs[i].Module.Path
		}
	}
	prog.Build()
	seen := map[*ssa.Function]bool{}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || seen[f] || f.Blocks == nil {
			return
		}
		seen[f] = true
		p.Funcs = append(p.Funcs, f)
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	for _, sp := range spkgs {
		for _, m := range sp.Members {
			switch m := m.(type) {
			case *ssa.Function:
				add(m)
			case *ssa.Type:
				t := m.Type()
				if n, ok := t.(*types.Named); ok {
					p.named[n.Obj().Pkg().Path()+"."+n.Obj().Name()] = n
					for i := 0; i < n.NumMethods(); i++ {
						add(prog.FuncValue(n.Method(i)))
					}
				}
			}
		}
	}
	// instantiated generics and other functions made while building
	for f := range ssautil.AllFunctions(prog) {
		if f.Blocks != nil && f.Synthetic == "" || (f.Origin() != nil && f.Blocks != nil) {
			add(f)
		}
	}
	sort.SliceStable(p.Funcs, func(i, j int) bool {
		if p.Funcs[i].Pos() != p.Funcs[j].Pos() {
			a, b := p.Fset.Position(p.Funcs[i].Pos()), p.Fset.Position(p.Funcs[j].Pos())
			if a.Filename != b.Filename {
				return a.Filename < b.Filename
			}
			return a.Offset < b.Offset
		}
		return p.Funcs[i].String() < p.Funcs[j].String()
	})
	return p, nil
}

func (p *Prog) pos(pos token.Pos) string {
	if !pos.IsValid() {
		return "?"
	}
	q := p.Fset.Position(pos)
	f := q.Filename
	if r, err := filepath.Rel(p.Dir, f); err == nil && !strings.HasPrefix(r, "..") {
		f = r
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

// isRepoPkg tells whether a package is part of the repository.
func (p *Prog) isRepoPkg(pkg *types.Package) bool {
	return pkg != nil && (pkg.Path() == p.Mod || strings.HasPrefix(pkg.Path(), p.Mod+"/"))
}

func (p *Prog) pkgOf(rel string) *ssa.Package {
	return p.SPkgs[p.Mod+"/"+rel]
}

// typ looks up a named type of the repository by package (relative) and name.
func (p *Prog) typ(rel, name string) *types.Named {
	return p.named[p.Mod+"/"+rel+"."+name]
}

// method finds a method of a named type (pointer receiver or not).
func (p *Prog) method(n *types.Named, name string) *ssa.Function {
	if n == nil {
		return nil
	}
	obj, _, _ := types.LookupFieldOrMethod(types.NewPointer(n), true, n.Obj().Pkg(), name)
	f, ok := obj.(*types.Func)
	if !ok {
		return nil
	}
	return p.SSA.FuncValue(f)
}

func (p *Prog) fn(rel, name string) *ssa.Function {
	sp := p.pkgOf(rel)
	if sp == nil {
		return nil
	}
	return sp.Func(name)
}

// fullName names functions the same way whether methods have a pointer
// receiver or not, and whether generics are instantiated or not:
// "os.OpenFile", "sync.Mutex.Lock", "pkg/path.Type.Method".
func fullName(f *ssa.Function) string {
	if f == nil {
		return ""
	}
	if o := f.Origin(); o != nil {
		f = o
	}
	if o, ok := f.Object().(*types.Func); ok {
		return objName(o)
	}
	return f.String()
}

func objName(o *types.Func) string {
	pkg := ""
	if o.Pkg() != nil {
		pkg = o.Pkg().Path() + "."
	}
	sig := o.Type().(*types.Signature)
	if r := sig.Recv(); r != nil {
		t := r.Type()
		if pt, ok := t.(*types.Pointer); ok {
			t = pt.Elem()
		}
		switch t := types.Unalias(t).(type) {
		case *types.Named:
			if t.Obj().Pkg() != nil {
				return t.Obj().Pkg().Path() + "." + t.Obj().Name() + "." + o.Name()
			}
			return t.Obj().Name() + "." + o.Name()
		default:
			return pkg + "(iface)." + o.Name()
		}
	}
	return pkg + o.Name()
}

// shortName drops the directories of package paths.
func shortName(s string) string {
	if i := strings.LastIndex(s, "/"); i >= 0 {
		return s[i+1:]
	}
	return s
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func namedOf(t types.Type) *types.Named {
	if t == nil {
		return nil
	}
	t = types.Unalias(t)
	if p, ok := t.(*types.Pointer); ok {
		t = types.Unalias(p.Elem())
	}
	n, _ := t.(*types.Named)
	return n
}

// typeName is the package-qualified name of a (pointer to a) named type.
func typeName(t types.Type) string {
	n := namedOf(t)
	if n == nil {
		return ""
	}
	if n.Obj().Pkg() == nil {
		return n.Obj().Name()
	}
	return n.Obj().Pkg().Path() + "." + n.Obj().Name()
}
