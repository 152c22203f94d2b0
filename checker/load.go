package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/trustbloc/vc-go"

// Program is the resolved program every rule is decided on.
type Program struct {
	Dir   string
	Pkgs  []*packages.Package // module packages, no tests
	SSA   *ssa.Program
	ByPkg map[string]*ssa.Package
	Funcs []*ssa.Function // all module functions with bodies (methods, closures and instances included)
	funcs map[string]*ssa.Function
	impls map[*types.Func][]*ssa.Function
	types []types.Type
}

func goEnv() []string {
	env := os.Environ()
	root := os.Getenv("VERIF_GOROOT")

	if root == "" {
		root = "/opt/veriftools/go1.23.12"
	}

	var out []string

	for _, e := range env {
		k := strings.SplitN(e, "=", 2)[0]
		switch k {
		case "GOROOT", "GOFLAGS", "GOPROXY", "GOTOOLCHAIN", "GOWORK", "PATH":
			continue
		}

		out = append(out, e)
	}

	out = append(out, "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off")

	if _, err := os.Stat(root + "/bin/go"); err == nil {
		out = append(out, "GOROOT="+root, "PATH="+root+"/bin:"+os.Getenv("PATH"))
	} else {
		out = append(out, "PATH="+os.Getenv("PATH"))
	}

	return out
}

// Load type-checks the module at dir from source and builds SSA for it.
func Load(dir string) (*Program, error) {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo |
			packages.NeedTypesSizes | packages.NeedModule,
		Dir:   dir,
		Env:   goEnv(),
		Tests: false,
	}

	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, fmt.Errorf("load: %w", err)
	}

	if len(pkgs) == 0 {
		return nil, fmt.Errorf("load: no packages in %s", dir)
	}

	var errs []string

	for _, p := range pkgs {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	}

	if len(errs) > 0 {
		return nil, fmt.Errorf("the tree does not type-check: %s", strings.Join(errs, "; "))
	}

	prog, ssaPkgs := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	prog.Build()

	P := &Program{Dir: dir, SSA: prog, ByPkg: map[string]*ssa.Package{}, funcs: map[string]*ssa.Function{}}

	for i, p := range pkgs {
		if ssaPkgs[i] == nil {
			return nil, fmt.Errorf("no SSA for %s", p.PkgPath)
		}

		P.Pkgs = append(P.Pkgs, p)
		P.ByPkg[p.PkgPath] = ssaPkgs[i]
	}

	for fn := range ssautil.AllFunctions(prog) {
		if !inModule(fn) || fn.Blocks == nil {
			continue
		}

		P.Funcs = append(P.Funcs, fn)
		P.funcs[fn.String()] = fn
	}

	// methods of unexported or unused types are not always reachable from AllFunctions: add every declared one.
	for _, p := range ssaPkgs {
		for _, m := range p.Members {
			t, ok := m.(*ssa.Type)
			if !ok {
				continue
			}

			named, ok := t.Type().(*types.Named)
			if !ok || named.TypeParams().Len() > 0 {
				continue
			}

			for i := 0; i < named.NumMethods(); i++ {
				fn := prog.FuncValue(named.Method(i))
				if fn != nil && fn.Blocks != nil && P.funcs[fn.String()] == nil {
					P.addWithAnons(fn)
				}
			}
		}
	}

	sort.Slice(P.Funcs, func(i, j int) bool {
		a, b := P.Funcs[i], P.Funcs[j]
		if a.String() != b.String() {
			return a.String() < b.String()
		}

		return a.Pos() < b.Pos()
	})

	return P, nil
}

func (p *Program) addWithAnons(fn *ssa.Function) {
	p.Funcs = append(p.Funcs, fn)
	p.funcs[fn.String()] = fn

	for _, a := range fn.AnonFuncs {
		p.addWithAnons(a)
	}
}

func fnPkgPath(fn *ssa.Function) string {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}

	if o := fn.Origin(); o != nil {
		fn = o
	}

	if fn.Pkg != nil {
		return fn.Pkg.Pkg.Path()
	}

	if fn.Object() != nil && fn.Object().Pkg() != nil {
		return fn.Object().Pkg().Path()
	}

	return ""
}

func inModule(fn *ssa.Function) bool {
	return inModulePath(fnPkgPath(fn))
}

func inModulePath(p string) bool { return p == modPath || strings.HasPrefix(p, modPath+"/") }

// isTestSupport tells packages that exist only for tests.
func isTestSupport(path string) bool {
	rel := strings.TrimPrefix(path, modPath)
	for _, s := range []string{"/internal/testutil", "/testsupport", "/legacy/mock", "/mock", "/proof/testsupport", "/verifiable/test-suite", "/testutil", "/sdjwt/integration"} {
		if strings.Contains(rel, s) {
			return true
		}
	}

	return false
}

// Fn finds a function by its short name: "pkg/path.Func" or "pkg/path.(*T).Method" / "pkg/path.T.Method",
// with pkg/path relative to the module.
func (p *Program) Fn(short string) *ssa.Function {
	dot := strings.LastIndex(short, "/")
	i := strings.Index(short[dot+1:], ".")
	if i < 0 {
		return nil
	}

	pkgPath := short[:dot+1+i]
	name := short[dot+1+i+1:]
	full := modPath

	if pkgPath != "" {
		full += "/" + pkgPath
	}

	pkg := p.ByPkg[full]
	if pkg == nil {
		return nil
	}

	ptr := false
	tn := ""
	fnName := name

	if strings.HasPrefix(name, "(*") {
		ptr = true
		j := strings.Index(name, ")")
		tn, fnName = name[2:j], name[j+2:]
	} else if k := strings.Index(name, "."); k >= 0 {
		tn, fnName = name[:k], name[k+1:]
	}

	if tn == "" {
		return pkg.Func(fnName)
	}

	obj := pkg.Pkg.Scope().Lookup(tn)
	if obj == nil {
		return nil
	}

	var T types.Type = obj.Type()
	if ptr {
		T = types.NewPointer(T)
	}

	sel := p.SSA.MethodSets.MethodSet(T).Lookup(pkg.Pkg, fnName)
	if sel == nil {
		return nil
	}

	fn := p.SSA.MethodValue(sel)
	if fn != nil && fn.Synthetic != "" && fn.Object() != nil {
		// wrapper: prefer the declared body
		if f, ok := fn.Object().(*types.Func); ok {
			if d := p.SSA.FuncValue(f); d != nil {
				return d
			}
		}
	}

	return fn
}

// shortName renders a function name without the module prefix.
func shortName(fn *ssa.Function) string {
	return short(fn.String())
}

func short(s string) string {
	return strings.ReplaceAll(s, modPath+"/", "")
}

// namedType finds a named type of a module package.
func (p *Program) namedType(pkgPath, name string) types.Type {
	pkg := p.ByPkg[modPath+"/"+pkgPath]
	if pkg == nil {
		return nil
	}

	o := pkg.Pkg.Scope().Lookup(name)
	if o == nil {
		return nil
	}

	return o.Type()
}
