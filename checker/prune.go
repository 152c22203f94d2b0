package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// pruner decides which module functions an execution need not enter: those that cannot reach any of the calls a rule
// is about and are not small. They are treated as uninterpreted calls. The decision depends on what the functions
// reach and on their size, not on their names.
type pruner struct {
	p       *Program
	anchors []string
	limit   int
	reach   map[*ssa.Function]bool
	size    map[*ssa.Function]int
	callees map[*ssa.Function][]*ssa.Function
	direct  map[*ssa.Function]bool
}

// refs returns the module functions a function may call: static callees, closures and function values it mentions, and
// module implementations of interface methods it invokes.
func (pr *pruner) refs(fn *ssa.Function) []*ssa.Function {
	if r, ok := pr.callees[fn]; ok {
		return r
	}

	pr.callees[fn] = nil

	seen := map[*ssa.Function]bool{}

	var out []*ssa.Function

	add := func(f *ssa.Function) {
		if f != nil && !seen[f] && f.Blocks != nil && (inModule(f) || f.Synthetic != "") {
			seen[f] = true
			out = append(out, f)
		}
	}

	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			if ci, ok := ins.(ssa.CallInstruction); ok {
				c := ci.Common()

				name := calleeName(c)
				for _, a := range pr.anchors {
					if nameMatch(name, a) {
						pr.direct[fn] = true
					}
				}

				if c.IsInvoke() {
					for _, f := range pr.p.implementations(c.Value.Type(), c.Method) {
						add(f)
					}
				}
			}

			for _, op := range ins.Operands(nil) {
				if op == nil || *op == nil {
					continue
				}

				if f, ok := (*op).(*ssa.Function); ok {
					add(f)
				}
			}
		}
	}

	pr.callees[fn] = out

	return out
}

func (p *Program) implementations(iface types.Type, m *types.Func) []*ssa.Function {
	it, ok := iface.Underlying().(*types.Interface)
	if !ok {
		return nil
	}

	if p.impls == nil {
		p.impls = map[*types.Func][]*ssa.Function{}
	}

	if r, ok := p.impls[m]; ok {
		return r
	}

	var out []*ssa.Function

	for _, t := range p.moduleTypes() {
		for _, tt := range []types.Type{t, types.NewPointer(t)} {
			if !types.Implements(tt, it) {
				continue
			}

			if sel := p.SSA.MethodSets.MethodSet(tt).Lookup(m.Pkg(), m.Name()); sel != nil {
				if f := p.SSA.MethodValue(sel); f != nil {
					out = append(out, f)
				}
			}

			break
		}
	}

	p.impls[m] = out

	return out
}

// moduleTypes lists the named non-interface types of the analysed packages.
func (p *Program) moduleTypes() []types.Type {
	if p.types != nil {
		return p.types
	}

	for _, pk := range p.SSA.AllPackages() {
		if !inModulePath(pk.Pkg.Path()) {
			continue
		}

		sc := pk.Pkg.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}

			if nt, ok := tn.Type().(*types.Named); ok && nt.TypeParams().Len() > 0 {
				continue
			}

			if _, isI := tn.Type().Underlying().(*types.Interface); !isI {
				p.types = append(p.types, tn.Type())
			}
		}
	}

	return p.types
}

func (pr *pruner) closure(fn *ssa.Function) (reach bool, size int) {
	if r, ok := pr.reach[fn]; ok {
		return r, pr.size[fn]
	}

	seen := map[*ssa.Function]bool{fn: true}
	work := []*ssa.Function{fn}

	for len(work) > 0 {
		f := work[len(work)-1]
		work = work[:len(work)-1]
		size += len(f.Blocks)

		if f != fn && f.Synthetic == "" {
			for _, a := range pr.anchors {
				if nameMatch(funcName(f), a) {
					reach = true
				}
			}
		}

		for _, g := range pr.refs(f) {
			if !seen[g] {
				seen[g] = true
				work = append(work, g)
			}
		}

		if pr.direct[f] {
			reach = true
		}
	}

	pr.reach[fn], pr.size[fn] = reach, size

	return reach, size
}

func (p *Program) prune(anchors []string, limit int) func(*ssa.Function) bool {
	pr := &pruner{p: p, anchors: anchors, limit: limit, reach: map[*ssa.Function]bool{}, size: map[*ssa.Function]int{},
		callees: map[*ssa.Function][]*ssa.Function{}, direct: map[*ssa.Function]bool{}}

	return func(fn *ssa.Function) bool {
		n := funcName(fn)
		for _, a := range anchors {
			if nameMatch(n, a) {
				return false
			}
		}

		reach, size := pr.closure(fn)

		return !reach && size > limit
	}
}
