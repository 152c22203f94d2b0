package main

import (
	"sort"

	"golang.org/x/tools/go/ssa"
)

// methodsNamed lists the declared methods of that name of the types of a package.
func (p *Program) methodsNamed(pkg, name string) []*ssa.Function {
	var out []*ssa.Function

	for _, f := range p.Funcs {
		if f.Signature.Recv() != nil && f.Parent() == nil && f.Synthetic == "" && f.Name() == name && fnPkgPath(f) == modPath+"/"+pkg {
			out = append(out, f)
		}
	}

	return out
}

// pkgFuncs lists the functions of a package, closures included.
func (p *Program) pkgFuncs(pkg *ssa.Package) []*ssa.Function {
	var out []*ssa.Function

	for _, f := range p.Funcs {
		if pkg != nil && fnPkgPath(f) == pkg.Pkg.Path() {
			out = append(out, f)
		}
	}

	return out
}

// reach lists the functions of a package that fn may call or mention, itself included.
func (p *Program) reach(fn *ssa.Function, pkg string) []*ssa.Function {
	pr := &pruner{p: p, callees: map[*ssa.Function][]*ssa.Function{}, direct: map[*ssa.Function]bool{}}
	seen := map[*ssa.Function]bool{fn: true}
	work := []*ssa.Function{fn}

	for len(work) > 0 {
		f := work[0]
		work = work[1:]

		for _, g := range pr.refs(f) {
			if !seen[g] && (pkg == "" || fnPkgPath(g) == modPath+"/"+pkg) {
				seen[g] = true
				work = append(work, g)
			}
		}
	}

	var out []*ssa.Function
	for f := range seen {
		out = append(out, f)
	}

	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })

	return out
}

// callersOf lists the static call sites of a function in the module.
func (p *Program) callersOf(fn *ssa.Function) []ssa.CallInstruction {
	var out []ssa.CallInstruction

	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if ci, ok := ins.(ssa.CallInstruction); ok && ci.Common().StaticCallee() == fn {
					out = append(out, ci)
				}
			}
		}
	}

	return out
}

// targets are the functions a call may reach directly: its static callee, or what implements the interface method.
func (p *Program) targets(ci ssa.CallInstruction) []*ssa.Function {
	c := ci.Common()

	if c.IsInvoke() {
		return p.implementations(c.Value.Type(), c.Method)
	}

	if f := c.StaticCallee(); f != nil {
		return []*ssa.Function{f}
	}

	return nil
}
