package main

import (
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C25", "path-sensitive abstract interpretation of every function of the library from its entry, with the documents it is given unknown: each instruction that can panic is guarded on every path", c25)
}

// docTypes are struct types whose pointer members are optional although no tag says so.
var docTypes = []string{"verifiable.CredentialContents"}

// notUntrusted are exported types that hold what the library stored itself.
var notUntrusted = []string{"verifiable.ExpirableSchemaCache"}

const safeLimit = 40_000

func c25(c *Ctx) {
	var all, exported []*ssa.Function

	for _, f := range c.P.Funcs {
		pkg := fnPkgPath(f)
		if f.Blocks == nil || f.Synthetic != "" || f.Parent() != nil || f.Object() == nil || isTestSupport(pkg) ||
			strings.HasPrefix(short(pkg), "legacy/") || sortMethod(f) || ofType(f, notUntrusted) {
			continue
		}

		all = append(all, f)

		if f.Object().Exported() {
			exported = append(exported, f)
		}
	}

	byName := func(fs []*ssa.Function) {
		sort.Slice(fs, func(i, j int) bool { return funcName(fs[i]) < funcName(fs[j]) })
	}

	byName(all)
	byName(exported)

	if en := os.Getenv("ENTRY"); en != "" {
		all = []*ssa.Function{c.P.Fn(en)}
		exported = all
	}

	api := map[string]bool{}

	for _, f := range c.P.Funcs {
		if f.Object() != nil && f.Object().Exported() && f.Parent() == nil {
			api[funcName(f)] = true
		}
	}

	opaque := func(f *ssa.Function, more map[string]bool) (out []string) {
		for _, m := range []map[string]bool{api, more} {
			for n := range m {
				if n != funcName(f) {
					out = append(out, n)
				}
			}
		}

		return out
	}

	// callees first: a function with too many paths is analysed on its own and not looked into from its callers
	single := map[string]bool{}

	for _, f := range c.calleesFirst(exported) {
		if os.Getenv("ENTRY") == "" && !oneOfFn(f, all) {
			continue
		}

		ops := opaque(f, single)

		try := &Ctx{P: c.P, Prop: c.Prop, seen: map[string]bool{}}
		fits := try.safeFn(short(funcName(f)), f, ops, docTypes, safeLimit)

		if !fits {
			single[funcName(f)] = true
		}

		if !fits || api[funcName(f)] {
			c.safeFn(short(funcName(f)), f, ops, docTypes, 0)
		}
	}

	// what runs only as a goroutine or callback: callers first
	order := c.calleesFirst(exported)
	for i := len(order) - 1; i >= 0 && os.Getenv("ENTRY") == ""; i-- {
		f := order[i]
		top := f

		for top.Parent() != nil {
			top = top.Parent()
		}

		if c.Funcs[shortName(f)] || !oneOfFn(top, all) || f.Blocks == nil || lessFunc(f.Signature) {
			continue
		}

		c.safeFn(short(funcName(f)), f, opaque(f, single), docTypes, 0)
	}

	c.oblige(c.Obligations > 1000 || os.Getenv("ENTRY") != "", "coverage", "hardly anything was analysed: the rule would be vacuous", modPath, nil)
}

func oneOfFn(f *ssa.Function, fs []*ssa.Function) bool {
	for _, g := range fs {
		if f == g {
			return true
		}
	}

	return false
}

// calleesFirst lists what the functions may call, callees before callers.
func (c *Ctx) calleesFirst(roots []*ssa.Function) (out []*ssa.Function) {
	pr := &pruner{p: c.P, callees: map[*ssa.Function][]*ssa.Function{}, direct: map[*ssa.Function]bool{}}
	seen := map[*ssa.Function]bool{}

	var visit func(f *ssa.Function)

	visit = func(f *ssa.Function) {
		if seen[f] {
			return
		}

		seen[f] = true

		for _, g := range pr.refs(f) {
			visit(g)
		}

		out = append(out, f)
	}

	for _, f := range roots {
		visit(f)
	}

	return out
}

// sortMethod: called by the sort package, with indexes in range.
func sortMethod(f *ssa.Function) bool {
	r := f.Signature.Recv()
	if r == nil || !oneOf(f.Name(), []string{"Less", "Swap"}) {
		return false
	}

	m := types.NewMethodSet(r.Type())

	return m.Lookup(nil, "Len") != nil && m.Lookup(nil, "Less") != nil && m.Lookup(nil, "Swap") != nil
}

// lessFunc: an order or exchange handed to sort or rand, which call it with indexes in range.
func lessFunc(s *types.Signature) bool {
	if s.Params().Len() != 2 || s.Results().Len() > 1 {
		return false
	}

	isInt := func(v *types.Var) bool { return types.Identical(v.Type(), types.Typ[types.Int]) }

	return isInt(s.Params().At(0)) && isInt(s.Params().At(1))
}

func ofType(f *ssa.Function, names []string) bool {
	if r := f.Signature.Recv(); r != nil {
		for _, n := range names {
			if strings.HasSuffix(typeName(r.Type()), n) {
				return true
			}
		}
	}

	return false
}
