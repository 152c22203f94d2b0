package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C35", "dataflow from the parameters of every exported option constructor into the options structure, must-pass analysis of every function that takes a list of options (each one applied or handed on), and reachability of a use of every field an option can set", c35)
}

// optionStruct: t is an exported kind of functional option; its options structure.
func optionStruct(t types.Type) *types.Named {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil || !inModulePath(n.Obj().Pkg().Path()) || !n.Obj().Exported() || isTestSupport(n.Obj().Pkg().Path()) {
		return nil
	}

	sig, ok := n.Underlying().(*types.Signature)
	if !ok || sig.Params().Len() != 1 || sig.Results().Len() > 1 {
		return nil
	}

	if sig.Results().Len() == 1 && !isError(sig.Results().At(0).Type()) {
		return nil
	}

	p, ok := sig.Params().At(0).Type().Underlying().(*types.Pointer)
	if !ok {
		return nil
	}

	s, ok := types.Unalias(p.Elem()).(*types.Named)
	if !ok {
		return nil
	}

	if _, ok := s.Underlying().(*types.Struct); !ok {
		return nil
	}

	return s
}

func c35(c *Ctx) {
	c.Funcs = map[string]bool{}

	var fs []*ssa.Function

	for _, f := range c.P.Funcs {
		if f.Synthetic == "" && f.Parent() == nil && f.Blocks != nil && !isTestSupport(fnPkgPath(f)) && !strings.Contains(fnPkgPath(f), "/legacy/test") {
			fs = append(fs, f)
		}
	}

	sort.Slice(fs, func(i, j int) bool { return fs[i].String() < fs[j].String() })

	set := map[*types.Named]map[string][]string{} // options structure -> constructor -> fields
	makers, takers := 0, 0

	for _, f := range fs {
		if isExportedFn(f) && f.Signature.Results().Len() == 1 {
			if s := optionStruct(f.Signature.Results().At(0).Type()); s != nil {
				makers++

				if set[s] == nil {
					set[s] = map[string][]string{}
				}

				set[s][shortName(f)] = c.optionMaker(f, s)
			}
		}
	}

	for _, f := range fs {
		for i, p := range f.Params {
			if sl, ok := p.Type().Underlying().(*types.Slice); ok && optionStruct(sl.Elem()) != nil {
				takers++

				c.Funcs[shortName(f)] = true
				s := optionStruct(sl.Elem())
				c.optionTaker(f, i, set[s])

				if isExportedFn(f) && set[s][shortName(f)] == nil && !makesOption(f) {
					c.optionsUsed(f, s, set[s])
				}
			}
		}
	}

	for _, f := range fs {
		c.parametersUsed(f)
	}

	c.oblige(makers >= 60 && takers >= 30, "coverage", "hardly any options were found: the rule would be vacuous", modPath, nil)
}

// parametersUsed: an exported function looks at all it is given. A method that looks at nothing is there to do nothing.
func (c *Ctx) parametersUsed(f *ssa.Function) {
	if !isExportedFn(f) {
		return
	}

	ps := f.Params

	if r := f.Signature.Recv(); r != nil {
		if n := namedOf(r.Type()); n == nil || !n.Obj().Exported() {
			return
		}

		ps = ps[1:]
	}

	unused := map[*ssa.Parameter]bool{}

	for _, p := range ps {
		unused[p] = p.Name() != "_" && p.Name() != ""

		for _, r := range *p.Referrers() {
			if _, ok := r.(*ssa.DebugRef); !ok {
				unused[p] = false
			}
		}
	}

	some := f.Signature.Recv() == nil
	for _, p := range ps {
		some = some || !unused[p]
	}

	if !some {
		return
	}

	for _, p := range ps {
		c.oblige(!unused[p], "parameter:"+shortName(f)+":"+p.Name(), shortName(f)+" does nothing with its parameter "+p.Name(), c.P.pos(f.Pos()), nil)
	}
}

// optionMaker: what the caller gives is kept in the options structure.
func (c *Ctx) optionMaker(f *ssa.Function, s *types.Named) (fields []string) {
	c.Funcs[shortName(f)] = true

	own := false

	for _, g := range withAnons(f) {
		own = own || g != f && optionBody(g, s)
	}

	if !own {
		c.sample("%s makes no option of its own", shortName(f))
		return nil
	}

	has := map[string]bool{}

	for _, st := range optionStores(f, s, nil) {
		has[st.field] = true
	}

	for k := range has {
		fields = append(fields, k)
	}

	sort.Strings(fields)
	c.oblige(len(fields) > 0, "sets:"+shortName(f), "the option "+shortName(f)+" sets nothing", c.P.pos(f.Pos()), nil)

	for _, p := range f.Params {
		kept := false
		names, other := map[string]bool{}, ""

		for _, st := range optionStores(f, s, p) {
			kept = kept || st.field != ""

			if s, ok := st.in.(*ssa.Store); ok {
				if fa, ok := s.Addr.(*ssa.FieldAddr); ok {
					names[strings.ToLower(structField(fa.X.Type(), fa.Field))] = true

					if t, ok := fa.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct); ok {
						for i := 0; i < t.NumFields(); i++ {
							if strings.EqualFold(t.Field(i).Name(), p.Name()) {
								other = t.Field(i).Name()
							}
						}
					}
				}
			}
		}

		c.oblige(other == "" || names[strings.ToLower(other)], "swapped:"+shortName(f)+":"+p.Name(), "what "+shortName(f)+" is given as "+p.Name()+" is kept, but not as "+other, c.P.pos(f.Pos()), nil)

		c.oblige(kept || p.Name() == "_", "keeps:"+shortName(f)+":"+p.Name(), "what "+shortName(f)+" is given as "+p.Name()+" is not kept in the options", c.P.pos(f.Pos()), nil)
	}

	return fields
}

func isPtrTo(t types.Type, s *types.Named) bool {
	p, ok := t.Underlying().(*types.Pointer)
	return ok && types.Identical(p.Elem(), s)
}

type optionStore struct {
	field string
	in    ssa.Instruction
}

// optionStores: what is kept of a value (or, with nil, of anything) in what the closures of f are called with.
func optionStores(f *ssa.Function, st *types.Named, v ssa.Value) (out []optionStore) {
	taint := map[ssa.Value]bool{}
	if v != nil {
		taint[v] = true
	}

	fns := withHelpers(f)

	for changed := true; changed; {
		changed = false

		mark := func(v ssa.Value) {
			if v != nil && !taint[v] {
				taint[v] = true
				changed = true
			}
		}

		for _, g := range fns {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					some := false

					for _, op := range in.Operands(nil) {
						some = some || *op != nil && taint[*op]
					}

					if !some {
						continue
					}

					switch x := in.(type) {
					case *ssa.MakeClosure:
						for i, bd := range x.Bindings {
							if taint[bd] {
								mark(x.Fn.(*ssa.Function).FreeVars[i])
							}
						}
					case *ssa.MapUpdate:
						if taint[x.Key] || taint[x.Value] {
							mark(x.Map)
						}
					case *ssa.Store:
						if taint[x.Val] {
							if a := rootAlloc(x.Addr); a != nil {
								mark(a)
							}
						}
					}

					if ci, ok := in.(ssa.CallInstruction); ok {
						h := ci.Common().StaticCallee()
						for i, a := range ci.Common().Args {
							if h != nil && taint[a] && i < len(h.Params) && contains(fns, h) {
								mark(h.Params[i])
							}
						}
					}

					if b, ok := in.(*ssa.Call); !ok || !isLenCall(b) {
						mark(valueOf(in))
					}
				}
			}
		}
	}

	for _, g := range fns {
		if g == f {
			continue
		}

		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Store:
					if name := fieldOfOptions(x.Addr, st, fns); name != "" && (v == nil || taint[x.Val]) {
						out = append(out, optionStore{name, in})
					}
				case *ssa.MapUpdate:
					if name := fieldOfOptions(x.Map, st, fns); name != "" && (v == nil || taint[x.Key] || taint[x.Value]) {
						out = append(out, optionStore{name, in})
					}
				case *ssa.Call:
					some := v == nil
					for _, a := range x.Call.Args {
						some = some || taint[a]
					}

					if h := x.Call.StaticCallee(); h == nil || len(x.Call.Args) == 0 || !some || contains(fns, h) {
						continue
					}

					// a method of the structure, or of one of its fields
					if name := fieldOfOptions(x.Call.Args[0], st, fns); name != "" {
						out = append(out, optionStore{name, in})
					} else if _, ok := x.Call.Args[0].(*ssa.Parameter); ok && isPtrTo(x.Call.Args[0].Type(), st) {
						out = append(out, optionStore{"*", in})
					}
				}
			}
		}
	}

	return out
}

// fieldOfOptions: the address is in a field of the options structure that one of the functions is called with.
func fieldOfOptions(v ssa.Value, st *types.Named, fns []*ssa.Function) string {
	for i := 0; i < 50; i++ {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			if _, ok := x.X.(*ssa.Parameter); ok && isPtrTo(x.X.Type(), st) {
				return structField(x.X.Type(), x.Field)
			}

			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.UnOp:
			if x.Op != token.MUL {
				return ""
			}

			v = x.X
		case *ssa.Field:
			v = x.X
		case *ssa.Parameter: // of a helper: what it is called with
			if v = argumentFor(x, fns); v == nil {
				return ""
			}
		default:
			return ""
		}
	}

	return ""
}

// argumentFor is what one of the functions calls the parameter's function with.
func argumentFor(p *ssa.Parameter, fns []*ssa.Function) ssa.Value {
	for _, g := range fns {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok || ci.Common().StaticCallee() != p.Parent() {
					continue
				}

				for i, q := range p.Parent().Params {
					if p == q && i < len(ci.Common().Args) {
						return ci.Common().Args[i]
					}
				}
			}
		}
	}

	return nil
}

// optionTaker: each of the options is applied, or all are handed on, and nothing an option has set is replaced then.
func (c *Ctx) optionTaker(f *ssa.Function, i int, set map[string][]string) {
	list := Param(i)
	elem := LoopElem(list)
	mark := func(e *Exec, s *State, op string, t *Term) {
		s.facts[e.in.mk(Term{Op: op, Args: []*Term{t}, Typ: types.Typ[types.Bool]})] = true
	}
	is := func(op string, p Pat) Pat { return func(t *Term) bool { return t.Op == op && p(t.Args[0]) } }
	st := optionStruct(f.Params[i].Type().Underlying().(*types.Slice).Elem())

	g := Gate{Name: "applies:" + shortName(f), Entry: shortName(f), NoHavoc: []string{"~."}, Max: 40,
		OpaqueFn: func(g *ssa.Function) bool { return !helpsWithOptions(f, g, st) }}

	if appliesOptions(f, st) {
		g.Reqs = []GateReq{{ID: "all", Why: "every option in " + f.Params[i].Name() + " was applied or handed on", Each: true, Over: list, Any: []Lit{
			True(is("applied", elem)), NilLit(elem), True(is("handed", list)), Empty(list), NilLit(list),
		}}}
	}

	uses := 0
	fields := map[string]bool{}

	for _, fs := range set {
		for _, name := range fs {
			fields[name] = true
		}
	}

	after := func(s *State) bool {
		for t, v := range s.facts {
			if v && t.Op == "applied" {
				return true
			}
		}

		return false
	}

	g.OnInstr = func(e *Exec, fr *Frame, s *State, in ssa.Instruction) {
		hand := func(v ssa.Value) bool {
			ok := handsOn(e, s, e.snap(s, e.val(fr, s, v), 0), list, mark)
			if ok {
				uses++
			}

			return ok
		}

		switch x := in.(type) {
		case ssa.CallInstruction:
			cc := x.Common()

			if h := cc.StaticCallee(); h != nil {
				for j, a := range cc.Args {
					if j < len(h.Params) && h != f && optionsOf(h.Params[j].Type()) == st && inModule(h) {
						c.oblige(hand(a) || len(g.Reqs) > 0, "handed:"+shortName(f)+":"+shortName(h), shortName(f)+" calls "+shortName(h)+" without the options it was given", c.P.pos(in.Pos()), nil)
					}
				}
			} else if !cc.IsInvoke() {
				if v := e.val(fr, s, cc.Value); v != nil && elem(v) {
					mark(e, s, "applied", v)

					uses++
				}
			}
		case *ssa.MakeClosure:
			for _, b := range x.Bindings {
				hand(b)
			}
		case *ssa.Store:
			fa, ok := x.Addr.(*ssa.FieldAddr)
			if ok && optionsOf(x.Val.Type()) == st {
				hand(x.Val)
			}

			if ok && isPtrTo(fa.X.Type(), st) && fields[structField(fa.X.Type(), fa.Field)] && after(s) {
				now := func(t *Term) bool { return t.Op == "field" && t.Name == structField(fa.X.Type(), fa.Field) }
				old := e.load(s, e.val(fr, s, fa), x.Val.Type())
				same := func(t *Term) bool { return t == old || now(t) }
				kept := Has(same)(e.snap(s, e.val(fr, s, x.Val), 0))

				for _, l := range []Lit{NilLit(same), Empty(same), Eq(same, ConstStr("")), Eq(same, ConstInt(0)), False(same)} {
					kept = kept || s.holds(l)
				}

				c.oblige(kept, "replaced:"+shortName(f)+":"+structField(fa.X.Type(), fa.Field), shortName(f)+" replaces "+structField(fa.X.Type(), fa.Field)+", which an option may have set", c.P.pos(in.Pos()), nil)
			}
		}
	}

	c.gateFn(g, f)
	c.oblige(uses > 0, "ignored:"+shortName(f), shortName(f)+" does nothing with the options it is given", c.P.pos(f.Pos()), nil)
}

// optionsOf: t is a list of options; the structure they set.
func optionsOf(t types.Type) *types.Named {
	if sl, ok := t.Underlying().(*types.Slice); ok {
		return optionStruct(sl.Elem())
	}

	return nil
}

// appliesOptions: f applies options itself, or has a helper apply them one by one.
func appliesOptions(f *ssa.Function, st *types.Named) bool {
	for _, g := range withAnons(f) {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}

				cc := ci.Common()

				if h := cc.StaticCallee(); h != nil {
					for j, p := range h.Params {
						if j < len(cc.Args) && optionStruct(p.Type()) == st && inModule(h) {
							return true
						}
					}
				} else if !cc.IsInvoke() && optionStruct(cc.Value.Type()) == st {
					return true
				}
			}
		}
	}

	return false
}

func handsOn(e *Exec, s *State, t *Term, list Pat, mark func(*Exec, *State, string, *Term)) (found bool) {
	if t == nil {
		return false
	}

	t.walk(func(x *Term) bool {
		if list(x) {
			mark(e, s, "handed", x)

			found = true
		}

		return x.Op != "call"
	})

	return found
}

// helpsWithOptions: g is a helper of f that is given options, or the structure they set.
func helpsWithOptions(f, g *ssa.Function, st *types.Named) bool {
	if !inModule(g) || g.Blocks == nil {
		return false
	}

	if g.Parent() != nil || g == f {
		return true
	}

	if isExportedFn(g) {
		return false
	}

	for _, p := range g.Params {
		if sl, ok := p.Type().Underlying().(*types.Slice); ok && optionStruct(sl.Elem()) == st {
			return false // handed on to it; decided there
		}

		if optionStruct(p.Type()) == st {
			return true
		}
	}

	return false
}

func makesOption(f *ssa.Function) bool {
	return f.Signature.Results().Len() == 1 && optionStruct(f.Signature.Results().At(0).Type()) != nil
}

// notFor: the options that have no meaning for a function that takes them along with others.
var notFor = map[string]string{
	"(*verifiable.Credential).CheckProof":                           "Validation$|Schema|RelatedResource|TypesCheck",         // checks proofs only
	"(*verifiable.Credential).ValidateCredential":                   "Proof|DataIntegrity|RelatedResource|DisableValidation", // checks no proofs, fetches nothing, was asked to validate
	"(*presexch.PresentationDefinition).CreateVP":                   "SelectiveDisclosureApply",                              // always applies it
	"(*presexch.PresentationDefinition).CreateVPArray":              "SelectiveDisclosureApply",                              // always applies it
	"(*presexch.PresentationDefinition).MatchSubmissionRequirement": "PresentationFormat",                                    // makes no presentation
}

// optionsUsed: what an option sets is looked at by the functions that take the option, or by those that work with what
// they make.
func (c *Ctx) optionsUsed(f *ssa.Function, s *types.Named, set map[string][]string) {
	within := c.P.reach(f, "")
	if strings.HasPrefix(f.Name(), "New") {
		within = c.P.Funcs
	}

	reads := map[string]bool{}

	for _, g := range within {
		if strings.Contains(fnPkgPath(g), "/legacy/test") || g.Parent() != nil && optionBody(g, s) {
			continue
		}

		for name := range fieldReads(g, s) {
			reads[name] = true
		}
	}

	makers := make([]string, 0, len(set))
	for by := range set {
		makers = append(makers, by)
	}

	sort.Strings(makers)

	for _, by := range makers {
		if p := notFor[shortName(f)]; p != "" && nameMatch(by, "~"+p) {
			continue
		}

		for _, name := range set[by] {
			if name != "*" {
				c.oblige(reads[name], "used:"+shortName(f)+":"+by, shortName(f)+" takes the option "+by+", but nothing it does looks at "+s.Obj().Name()+"."+name, c.P.pos(f.Pos()), nil)
			}
		}
	}
}

// optionBody: g is an option of the structure itself.
func optionBody(g *ssa.Function, s *types.Named) bool {
	return len(g.Params) == 1 && isPtrTo(g.Params[0].Type(), s)
}

func fieldReads(g *ssa.Function, s *types.Named) map[string]bool {
	reads := map[string]bool{}

	for _, b := range g.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.FieldAddr:
				if !isPtrTo(x.X.Type(), s) {
					continue
				}

				for _, r := range *x.Referrers() {
					if st, ok := r.(*ssa.Store); ok && st.Addr == x {
						continue
					}

					if _, ok := r.(*ssa.DebugRef); !ok {
						reads[structField(x.X.Type(), x.Field)] = true
					}
				}
			case *ssa.Field:
				if types.Identical(x.X.Type(), s) {
					reads[structField(x.X.Type(), x.Field)] = true
				}
			}
		}
	}

	return reads
}

// namedOf is the named type behind t, through a pointer.
func namedOf(t types.Type) *types.Named {
	if p, ok := types.Unalias(t).(*types.Pointer); ok {
		t = p.Elem()
	}

	n, _ := types.Unalias(t).(*types.Named)

	return n
}

func isLenCall(c *ssa.Call) bool {
	b, ok := c.Call.Value.(*ssa.Builtin)
	return ok && (b.Name() == "len" || b.Name() == "cap")
}
