package main

import (
	"fmt"
	"go/types"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C24", "must-pass dataflow over the stages that create a presentation: each stage keeps a credential only where its condition was established for that credential, every stage is fed by the previous one for the same descriptor, and the submission's mappings point at the position of the credential they are about", c24)
}

// peTypes tells the kinds of parameters and results of presentation-exchange functions apart.
type peKind int

const (
	peCreds peKind = 1 << iota
	peCarrier
	peSchemas
	peFormat
	peConstraints
	peCarrierMap
	peSolution
)

func ptrElem(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}

	return t
}

// carrier: an unexported structure that carries a credential through the stages.
func carrier(t types.Type) bool {
	n, ok := types.Unalias(ptrElem(t)).(*types.Named)
	if !ok || n.Obj().Pkg() == nil || n.Obj().Pkg().Path() != modPath+"/"+pePkg || n.Obj().Exported() {
		return false
	}

	st, ok := n.Underlying().(*types.Struct)
	if !ok {
		return false
	}

	for i := 0; i < st.NumFields(); i++ {
		if strings.HasSuffix(typeName(st.Field(i).Type()), "verifiable.Credential") {
			return true
		}
	}

	return false
}

func isCredential(t types.Type) bool { return strings.HasSuffix(typeName(t), "verifiable.Credential") }

func peKindOf(t types.Type) peKind {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		switch {
		case isCredential(u.Elem()):
			return peCreds
		case carrier(u.Elem()):
			return peCarrier
		case strings.HasSuffix(typeName(u.Elem()), "presexch.Schema"):
			return peSchemas
		}
	case *types.Map:
		if peKindOf(u.Elem()) == peCarrier {
			return peCarrierMap
		}
	case *types.Pointer:
		switch {
		case strings.HasSuffix(typeName(t), "presexch.Format"):
			return peFormat
		case strings.HasSuffix(typeName(t), "presexch.Constraints"):
			return peConstraints
		}
	}

	return 0
}

// peStages finds the functions with the given kinds of parameters and results; at maps a kind to its parameter's position.
func (c *Ctx) peStages(in, out peKind) (fs []*ssa.Function) {
	for _, f := range c.P.Funcs {
		if fnPkgPath(f) != modPath+"/"+pePkg || f.Parent() != nil || f.Blocks == nil || f.Object() == nil || f.Object().Exported() {
			continue
		}

		var have, res peKind
		for _, p := range f.Params {
			have |= peKindOf(p.Type())
		}

		r := f.Signature.Results()
		for i := 0; i < r.Len(); i++ {
			res |= peKindOf(r.At(i).Type())
		}

		if have&in == in && res&out == out {
			fs = append(fs, f)
		}
	}

	fs = c.outer(fs)

	sort.Slice(fs, func(i, j int) bool { return fs[i].String() < fs[j].String() })

	return fs
}

// outer leaves out the functions that only the others of them call: they are parts of those.
func (c *Ctx) outer(fs []*ssa.Function) (out []*ssa.Function) {
	for _, f := range fs {
		part := false

		for _, g := range fs {
			if g == f || part {
				continue
			}

			inG, n := map[*ssa.Function]bool{}, 0

			for _, h := range withHelpers(g) {
				inG[h] = true
			}

			if !inG[f] {
				continue
			}

			part = true

			for _, ci := range c.P.callersOf(f) {
				n++
				part = part && inG[ci.Parent()]
			}

			for _, h := range withHelpers(f) {
				part = part && h != g // they call each other
			}

			part = part && n > 0
		}

		if !part {
			out = append(out, f)
		}
	}

	return out
}

func peParam(f *ssa.Function, k peKind) int {
	for i, p := range f.Params {
		if peKindOf(p.Type()) == k {
			return i
		}
	}

	return -1
}

func peResult(f *ssa.Function, k peKind) int {
	r := f.Signature.Results()
	for i := 0; i < r.Len(); i++ {
		if peKindOf(r.At(i).Type())&k != 0 {
			return i
		}
	}

	return -1
}

// credOf is the credential of an element a stage keeps.
func credOf(t *Term) *Term {
	if isCredential(t.Typ) {
		return t
	}

	st := structOfVal(ptrElem(t.Typ))
	if st == nil {
		return orNil(nil)
	}

	for i := 0; i < st.NumFields(); i++ {
		if isCredential(st.Field(i).Type()) {
			return orNil(getField(t, st.Field(i).Name()))
		}
	}

	return orNil(nil)
}

func c24(c *Ctx) {
	evals, _ := c.fieldEvaluators()

	opq := []string{"~Credential\\)\\.MarshalAsJSONLD$", "~Credential\\)\\.CreateDisplayCredential$", "~\\)\\.MarshalJSON$"}
	for _, f := range evals {
		opq = append(opq, funcName(f))
	}

	constraints := c.peStages(peConstraints|peCreds, peCarrier)
	schemas := c.peStages(peSchemas|peCreds, peCreds)
	formats := c.peStages(peFormat|peCreds, peCreds)
	limits := c.peStages(peCarrier, peCarrier)
	merges := c.peStages(peCarrierMap, peCreds)

	// parts of another stage
	for _, l := range []*[]*ssa.Function{&constraints, &schemas, &formats, &limits, &merges} {
		var all, keep []*ssa.Function
		for _, m := range [][]*ssa.Function{constraints, schemas, formats, limits, merges} {
			all = append(all, m...)
		}

		outer := c.outer(all)

		for _, f := range *l {
			for _, g := range outer {
				if f == g {
					keep = append(keep, f)
					break
				}
			}
		}

		*l = keep
	}

	for n, l := range map[string][]*ssa.Function{"constraints": constraints, "schema": schemas, "format": formats, "limit": limits, "merge": merges} {
		c.oblige(len(l) == 1, "stage|"+n, "the stage that applies the "+n+" was not found exactly once", pePkg, nil)
	}

	if len(c.Findings) > 0 {
		return
	}

	c.peStage("constraints", constraints[0], opq, func(f *ssa.Function) []GateReq {
		cred := LoopElem(Param(peParam(f, peCreds)))
		return constraintCondsOf(Param(peParam(f, peConstraints)), cred, evals)
	})
	c.peStage("schema", schemas[0], opq, func(f *ssa.Function) []GateReq {
		return schemaConds(Param(peParam(f, peSchemas)))
	})
	c.peStage("format", formats[0], opq, func(f *ssa.Function) []GateReq {
		cred := LoopElem(Param(peParam(f, peCreds)))
		want := func(n string) Pat {
			return func(t *Term) bool {
				return t.Op == "elem" && Has(func(u *Term) bool { return u.Op == "field" && u.Name == n })(t) && Has(Param(peParam(f, peFormat)))(t)
			}
		}
		alg := func(t *Term) bool { return Has(cred)(t) && Has(Call("~\\)\\.Algorithm$"))(t) }
		proof := func(t *Term) bool { return Has(cred)(t) && Has(ConstStr("type"))(t) }

		return []GateReq{{ID: "format", Why: "the credential's proof type or algorithm is one the format asks for", Each: true, Over: func(*Term) bool { return false },
			Any: []Lit{Eq(proof, want("ProofType")), True(Call("strings.EqualFold", alg, want("Alg"))), True(Call("strings.EqualFold", want("Alg"), alg)), Eq(alg, want("Alg"))}}}
	})
	c.peLimit(limits[0], opq)

	for _, entry := range []string{"CreateVP", "CreateVPArray", "MatchSubmissionRequirement"} {
		var merge *ssa.Function
		if entry != "MatchSubmissionRequirement" {
			merge = merges[0]
		}

		c.pePipeline(entry, formats[0], schemas[0], constraints[0], limits[0], merge)
	}
}

var formatMembers = []string{"Jwt", "JwtVC", "JwtVP", "Ldp", "LdpVC", "LdpVP"}

// alternatives of a value that was merged from several paths.
func alternatives(t *Term) []*Term {
	if t.Op != "choice" {
		return []*Term{t}
	}

	var out []*Term
	for _, a := range t.Args {
		out = append(out, alternatives(a)...)
	}

	return out
}

// ownerOf: the values of which t is the given member, as one comparable string.
func ownerOf(t *Term, member string) string {
	set := map[string]bool{}

	for _, a := range alternatives(t) {
		if a.Op != "field" || a.Name != member {
			return ""
		}

		for _, b := range alternatives(a.Args[0]) {
			set[b.String()+"@"+fmt.Sprint(b.id)] = true
		}
	}

	var ks []string
	for k := range set {
		ks = append(ks, k)
	}

	sort.Strings(ks)

	return strings.Join(ks, ";")
}

// pePipeline: the stages are applied one after the other, for the same descriptor, and the results are what is presented.
func (c *Ctx) pePipeline(entry string, format, schema, cons, limit, merge *ssa.Function) {
	stages := []*ssa.Function{format, schema, cons, limit}
	opq := []string{"~Credential\\)\\.MarshalAsJSONLD$", "~\\)\\.MarshalJSON$", "~GenerateBBSSelectiveDisclosure$", "verifiable.NewPresentation", "~\\)\\.String$", "~requirementlogic\\..*\\)\\.Next$"}
	pure := []string{}

	for _, f := range stages {
		opq = append(opq, funcName(f))
		pure = append(pure, funcName(f))
	}

	call := func(f *ssa.Function) Pat { return Call("~^" + regexp.QuoteMeta(shortName(f)) + "$") }
	descFormat := func(n string) Pat {
		return func(t *Term) bool {
			for _, a := range alternatives(t) {
				if a.Op != "field" || a.Name != n || Param(0)(a.Args[0]) {
					return false
				}
			}

			return true
		}
	}
	fm := descFormat("Format")
	solution := Has(Call("~requirementlogic\\..*\\)\\.Next$"))
	kept := Res(call(limit), peResult(limit, peCarrier))
	noFormat := func(f Pat) func(e *Exec, s *State) bool {
		return func(e *Exec, s *State) bool {
			if s.holds(NilLit(f)) {
				return true
			}

			for _, n := range formatMembers {
				if !s.holds(NilLit(Fld(f, n))) {
					return false
				}
			}

			return true
		}
	}
	never := func(*Term) bool { return false }
	matches := func(t *Term) bool {
		m, ok := t.Typ.Underlying().(*types.Map)
		return ok && carriesList(m.Elem())
	}
	track := []GateReq{
		{ID: "no-descriptor-format", Each: true, Over: never, Fn: noFormat(fm)},
		{ID: "no-format", Each: true, Over: never, Fn: noFormat(func(t *Term) bool { return t.Op == "field" && t.Name == "Format" && Param(0)(t.Args[0]) })},
		{ID: "no-schema", Each: true, Over: never, Any: []Lit{NilLit(descFormat("Schema")), Empty(descFormat("Schema"))}},
	}
	var split []Lit
	for _, n := range formatMembers {
		split = append(split, NonNil(Fld(fm, n)))
	}

	mapped, selected := 0, 0
	name := "pipeline|"
	creds := Param(1)

	_ = fm

	// chain checks what a list of constraint results was made from and returns the descriptor it is about.
	chain := func(e *Exec, s *State, where string, args []*Term) {
		tr := e.traceString(s, 60)
		owner := ownerOf(args[peParam(cons, peConstraints)], "Constraints")
		c.oblige(owner != "", name+"constraints", "the constraints that are applied are not those of a descriptor", where, tr)

		list := args[peParam(cons, peCreds)]
		if r := Res(call(schema), peResult(schema, peCreds)); r(list) {
			a := list.Args[0].Args
			c.oblige(ownerOf(a[peParam(schema, peSchemas)], "Schema") == owner, name+"schema", "the schemas that are applied are not those of the descriptor whose constraints are applied", where, tr)
			list = a[peParam(schema, peCreds)]
		} else {
			c.oblige(e.tracked(s, "no-schema"), name+"schema-skipped", "a descriptor's schemas are not applied", where, tr)
		}

		if r := Res(call(format), peResult(format, peCreds)); r(list) {
			a := list.Args[0].Args
			f := a[peParam(format, peFormat)]
			own := ownerOf(f, "Format")

			if own != owner {
				c.oblige(Fld(Param(0), "Format")(f) && e.tracked(s, "no-descriptor-format"), name+"format", "the format that is applied is neither the descriptor's nor the definition's default for it", where, tr)
			}

			list = a[peParam(format, peCreds)]
		} else {
			c.oblige(e.tracked(s, "no-format") && e.tracked(s, "no-descriptor-format"), name+"format-skipped", "the format of a descriptor or definition is not applied", where, tr)
		}

		for _, a := range alternatives(list) {
			c.oblige(creds(a) || a.Op == "loopvar" && Has(LoopElem(creds))(a) && Has(Call("~GenerateBBSSelectiveDisclosure$"))(a), name+"given", "the credentials that are examined are not the ones that were given", where, tr)
		}
	}

	reqs := []GateReq{{ID: "schema-valid", Why: "the definition itself passed validation", Any: []Lit{
		True(Call("~gojsonschema\\.Result\\)\\.Valid$", Has(Call("~gojsonschema\\.Validate$", nil, Has(Param(0))))))}}}
	if merge != nil {
		c.gate(Gate{Name: entry, Entry: "presexch.(*PresentationDefinition)." + entry, Opaque: opq, NoHavoc: pure, Reqs: []GateReq{{ID: "matched", Why: "every descriptor of the chosen combination has a match", Each: true, Over: solution,
			Any: []Lit{NonEmpty(kept), True(HasKey(matches, LoopElem(solution)))}}}})
	}

	c.gate(Gate{Name: entry, Entry: "presexch.(*PresentationDefinition)." + entry, Opaque: opq, NoHavoc: pure, Track: track, Reqs: reqs, Split: split,
		OnCall: func(e *Exec, fr *Frame, s *State, in ssa.CallInstruction, n string, args []*Term, res *Term) {
			where := shortName(fr.fn) + " (" + c.P.pos(in.Pos()) + ")"

			switch sc := in.Common().StaticCallee(); sc {
			case cons:
				chain(e, s, where, args)
			case limit:
				for _, a := range alternatives(args[peParam(limit, peCarrier)]) {
					c.oblige(Res(call(cons), peResult(cons, peCarrier))(a), name+"limited", "what is limited is not the result of applying the constraints", where, nil)
				}
			}
		},
		OnInstr: func(e *Exec, fr *Frame, s *State, in ssa.Instruction) {
			where := shortName(fr.fn) + " (" + c.P.pos(in.Pos()) + ")"

			if fa, ok := in.(*ssa.FieldAddr); ok && carriesList(ptrElem(fa.X.Type())) {
				v := e.val(fr, s, fa.X)
				c.oblige(v.Op != "nil" && e.isNil(s, v) != yes, name+"unmatched", "a combination is presented although one of its descriptors has no match", where, e.traceString(s, 60))
			}

			if mu, ok := in.(*ssa.MapUpdate); ok {
				mt := mu.Map.Type().Underlying().(*types.Map)
				k, v := e.snap(s, e.val(fr, s, mu.Key), 0), e.snap(s, e.val(fr, s, mu.Value), 0)

				switch {
				case strings.HasSuffix(typeName(mt.Elem()), "presexch.InputDescriptor"):
					c.oblige(ownerOf(k, "ID") == ownerString(v) || v.Op == "mapget" && v.Args[1] == k, name+"by-id", "a descriptor is filed under an identifier that is not its own", where, nil)
				case peKindOf(mt.Elem()) == peCarrier:
					selected++
					c.oblige(Has(func(t *Term) bool { return t.Op == "mapget" && t.Args[1] == k })(v), name+"selected", "the credentials of one descriptor are presented for another", where, nil)
				case carriesList(mt.Elem()):
					selected++
					c.oblige(Has(kept)(v), name+"kept", "what is kept for a descriptor did not pass through every stage", where, nil)
					c.oblige(s.holds(NonEmpty(kept)), name+"non-empty", "a descriptor counts as matched although no credential was kept for it", where, e.traceString(s, 60))

					owner := ""
					Has(func(t *Term) bool {
						if t.Op == "call" && call(cons)(t) {
							owner = ownerOf(t.Args[peParam(cons, peConstraints)], "Constraints")
						}

						return owner != ""
					})(v)

					c.oblige(owner != "" && (ownerOf(k, "ID") == owner || strings.Contains(owner, "{"+k.String()+"}")), name+"own", "what is kept for a descriptor was examined for another", where, nil)
				case isInteger(mt.Elem()) && fr.fn == merge:
					c.oblige(positionOf(v, k), name+"position", "the position that is noted for a credential is not the one it was put at", where, nil)
				}
			}

			for _, t := range appended(e, fr, s, in, "presexch.MatchedInputDescriptor") {
				selected++
				ok, n := true, 0
				owner := ownerOf(getFieldOr(t, "ID"), "ID")

				Has(func(x *Term) bool {
					if x.Op == "call" && call(cons)(x) {
						n++
						ok = ok && ownerOf(x.Args[peParam(cons, peConstraints)], "Constraints") == owner
					}

					return false
				})(getFieldOr(t, "MatchedVCs"))

				c.oblige(ok && n > 0, name+"matched-own", "the credentials reported for a descriptor were not examined for it", where, nil)
			}

			for _, t := range appended(e, fr, s, in, "presexch.InputDescriptorMapping") {
				mapped++
				id := getFieldOr(t, "ID")
				nested := getFieldOr(t, "PathNested")
				key := func(x *Term) bool { return x == id }

				c.oblige(getFieldOr(nested, "ID") == id, name+"mapping-id", "a mapping and its nested mapping name different descriptors", where, nil)

				el := Has(func(x *Term) bool { return x.Op == "elem" && x.Args[0].Op == "mapget" && key(x.Args[0].Args[1]) })
				pos := func(p *Term) bool {
					return Has(func(x *Term) bool {
						return x.Op == "mapget" && isInteger(x.Typ) && el(x.Args[1]) || x.Op == "bin" && positionOf(x, nil) && el(x)
					})(p)
				}
				c.oblige(pos(getFieldOr(t, "Path")) || pos(getFieldOr(nested, "Path")), name+"mapping-path", "a mapping's path does not point at the position of its credential", where, nil)
			}
		},
	})

	c.oblige(selected > 0 && (mapped > 0 || merge == nil), name+entry, "no place was found at which "+entry+" selects credentials: the rule would be vacuous", entry, nil)
}

// ownerString is the form in which ownerOf names a value.
func ownerString(t *Term) string {
	var ks []string
	for _, b := range alternatives(t) {
		ks = append(ks, b.String()+"@"+fmt.Sprint(b.id))
	}

	sort.Strings(ks)

	return strings.Join(ks, ";")
}

// carriesList: a structure with a list of carriers.
func carriesList(t types.Type) bool {
	st := structOfVal(ptrElem(t))
	if st == nil {
		return false
	}

	for i := 0; i < st.NumFields(); i++ {
		if peKindOf(st.Field(i).Type()) == peCarrier {
			return true
		}
	}

	return false
}

// positionOf: the value is the index at which a carrier's credential was just put; key, if given, identifies that carrier.
func positionOf(t, key *Term) bool {
	return Has(func(x *Term) bool {
		if x.Op != "bin" || x.Name != "+" || !isConstInt(x.Args[1], -1) || x.Args[0].Op != "len" || x.Args[0].Args[0].Op != "append" {
			return false
		}

		el := x.Args[0].Args[0].Args[1]
		if el.Op == "slicelit" && len(el.Args) == 1 {
			el = el.Args[0]
		}

		return el.Op == "field" && isCredential(el.Typ) && (key == nil || key.Op == "field" && key.Args[0] == el.Args[0])
	})(t)
}

// peStage: at every place where the stage keeps a credential, that credential satisfied the stage's conditions.
func (c *Ctx) peStage(name string, f *ssa.Function, opq []string, conds func(f *ssa.Function) []GateReq) {
	creds := Param(peParam(f, peCreds))
	kept := 0

	for _, cond := range conds(f) {
		cond := cond
		c.gateFn(Gate{Name: "stage|" + name, Entry: shortName(f), Opaque: opq, Track: []GateReq{cond}, OnInstr: func(e *Exec, fr *Frame, s *State, in ssa.Instruction) {
			el := appended(e, fr, s, in, "verifiable.Credential")
			if peResult(f, peCarrier) >= 0 {
				el = nil
				if ci, ok := in.(*ssa.Call); ok {
					if sl, ok := ci.Type().Underlying().(*types.Slice); ok && carrier(sl.Elem()) {
						el = appended(e, fr, s, in, typeName(sl.Elem()))
					}
				}
			}

			for _, t := range el {
				kept++
				where := shortName(fr.fn) + " (" + c.P.pos(in.Pos()) + ")"

				c.oblige(e.tracked(s, cond.ID), "stage|"+name+"|"+cond.ID, "a credential is kept although this was not established: "+cond.Why, where, e.traceString(s, 60))
				c.oblige(LoopElem(creds)(credOf(t)), "stage|"+name+"|own", "the credential that is kept is not the one that was examined", where, nil)
			}
		}}, f)
	}

	if k := peKindOf(f.Signature.Results().At(peResult(f, peCreds|peCarrier)).Type()); k == peCreds {
		c.gateFn(Gate{Name: "stage|" + name, Entry: shortName(f), Opaque: opq, Reqs: []GateReq{{ID: "filtered", Why: "what is returned was selected, not merely passed on", Exit: func(e *Exec, x Exit) bool {
			for _, a := range alternatives(x.res[peResult(f, peCreds)]) {
				for a.Op == "slice" {
					a = a.Args[0]
				}

				if creds(a) {
					return false
				}
			}

			return true
		}}}}, f)
	}

	c.oblige(kept > 0, "stage|"+name+"|kept", "no place was found at which the stage keeps a credential: the rule would be vacuous", shortName(f), nil)
}

// carrierFields are the names of a carrier's credential, its constraints and its serialised form.
func carrierFields(t types.Type) (cred, cons, src string) {
	st := structOfVal(ptrElem(t))
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)

		switch {
		case isCredential(f.Type()):
			cred = f.Name()
		case peKindOf(f.Type()) == peConstraints:
			cons = f.Name()
		case isBytes(f.Type()):
			src = f.Name()
		}
	}

	return
}

// peLimit: what is kept for a descriptor that limits disclosure was limited, and a claim it only wants a predicate of is not revealed.
func (c *Ctx) peLimit(f *ssa.Function, opq []string) {
	in := Param(peParam(f, peCarrier))
	nCred, nCons, nSrc := carrierFields(f.Params[peParam(f, peCarrier)].Type().Underlying().(*types.Slice).Elem())
	el := LoopElem(in)
	cred, cons, src := Fld(el, nCred), Fld(el, nCons), Fld(el, nSrc)
	limit := Fld(cons, "LimitDisclosure")
	field := LoopElem(Fld(cons, "Fields"))
	pred := Fld(field, "Predicate")
	req := ConstStr("required")
	contents := func(n string) Pat {
		return func(t *Term) bool { return t.Op == "field" && t.Name == n && Has(cred)(t) }
	}
	subjectID := func(t *Term) bool {
		return Has(contents("Subject"))(t) && (t.Op == "field" && t.Name == "ID" || Has(ConstStr("id"))(t) || t.Op == "assert")
	}
	proofType := func(t *Term) bool { return Has(cred)(t) && Has(ConstStr("type"))(t) }
	noLimit := []Lit{NilLit(cons), NilLit(limit), Neq(limit, req)}
	set := Call("~Credential\\)\\.SetSDJWTDisclosures$")

	disc := func(t *Term) bool { return t.Op == "elem" && Has(cred)(t) && typeIs(t, "common.DisclosureClaim") }

	digestOf := func(t *Term) bool {
		return Has(Fld(disc, "Disclosure"))(t) && Has(Call("~\\)\\.Sum$|common\\.GetHash$"))(t)
	}
	conds := []GateReq{
		{ID: "limitable", Why: "where disclosure must be limited, the credential can be limited: it is a predicate, SD-JWT, BBS+ or self-issued", Each: true, Over: func(*Term) bool { return false },
			Any: append([]Lit{Eq(pred, req), NonNil(contents("SDJWTHashAlg")), Eq(proofType, ConstStr("BbsBlsSignature2020")), Eq(subjectID, Fld(contents("Issuer"), "ID"))}, noLimit...)},
		{ID: "unlimited", Each: true, Over: func(*Term) bool { return false }, Any: noLimit},
		{ID: "set", Each: true, Over: func(*Term) bool { return false }, Any: []Lit{OK(set)}},
		{ID: "asked", Each: true, Over: func(*Term) bool { return false }, Any: []Lit{True(HasKey(Any, digestOf))}},
		{ID: "named", Each: true, Over: func(*Term) bool { return false }, Any: []Lit{Eq(Fld(disc, "Name"), func(t *Term) bool { _, k := constStr(t); return !k })}},
		{ID: "no-predicate", Each: true, Over: func(*Term) bool { return false }, Any: []Lit{NilLit(pred), Neq(pred, req)}},
	}
	inFields := func(s *State) bool {
		return s.holds(Less(Any, Len(Fld(cons, "Fields")))) || s.holds(True(func(t *Term) bool { return t.Op == "next" && Fld(cons, "Fields")(t.Args[0]) }))
	}
	kept, written, disclosed := 0, 0, 0
	name := "stage|limit|"
	anySrc := func(t *Term) bool { return src(t) || Has(cred)(t) && Has(Call("~Marshal(AsJSONLD|JSON)$"))(t) }

	c.gateFn(Gate{Name: "stage|limit", Entry: shortName(f), Opaque: append([]string{"~Credential\\)\\.SetSDJWTDisclosures$", "verifiable.ParseCredential", "~GenerateBBSSelectiveDisclosure$", "~CreateUnsecuredJWTVC$"}, opq...), Track: conds,
		OnCall: func(e *Exec, fr *Frame, s *State, in ssa.CallInstruction, n string, args []*Term, res *Term) {
			where := shortName(fr.fn) + " (" + c.P.pos(in.Pos()) + ")"

			if nameMatch(n, "~tidwall/sjson\\.Set(Raw)?(Bytes)?$") && len(args) > 2 && inFields(s) {
				if v, ok := constBool(args[2]); !ok || !v {
					written++
					c.oblige(e.tracked(s, "no-predicate"), name+"predicate", "a claim's value is revealed although the descriptor may only want a predicate of it", where, e.traceString(s, 60))
				}
			}

			if nameMatch(n, "~SetSDJWTDisclosures$") {
				c.oblige(!cred(args[0]), name+"copy", "the disclosures of the caller's own credential are replaced", where, nil)
			}
		},
		OnInstr: func(e *Exec, fr *Frame, s *State, in ssa.Instruction) {
			where := shortName(fr.fn) + " (" + c.P.pos(in.Pos()) + ")"

			for _, t := range appended(e, fr, s, in, "common.DisclosureClaim") {
				disclosed++
				byDigest := t.Op == "mapget" && s.holds(True(HasKey(is(t.Args[0]), is(t.Args[1]))))
				c.oblige(byDigest || e.tracked(s, "asked") && e.tracked(s, "named"), name+"asked", "a disclosure is kept that is not one of the requested claims'", where, e.traceString(s, 60))
				c.oblige(Has(Fld(cred, "JWTEnvelope"))(t) || t.Op == "mapget", name+"own", "a disclosure is kept that is not one of this credential", where, nil)
			}

			ci, ok := in.(*ssa.Call)
			if !ok {
				return
			}

			sl, ok := ci.Type().Underlying().(*types.Slice)
			if !ok || !carrier(sl.Elem()) {
				return
			}

			for _, t := range appended(e, fr, s, in, typeName(sl.Elem())) {
				kept++
				c.oblige(e.tracked(s, "limitable"), name+"limitable", "a credential is kept although this was not established: "+conds[0].Why, where, e.traceString(s, 60))

				if st := structOfVal(ptrElem(sl.Elem())); st != nil {
					for i := 0; i < st.NumFields(); i++ {
						if !isString(st.Field(i).Type()) {
							continue
						}

						id := getFieldOr(t, st.Field(i).Name())
						plain := contents("ID")(id) && !s.holds(NonEmpty(contents("ID"))) && !s.holds(Neq(contents("ID"), ConstStr("")))
						c.oblige(!plain, name+"identity", "credentials are told apart by an identifier that they need not have", where, e.traceString(s, 60))
					}
				}

				k := credOf(t)
				for _, r := range roots(k) {
					switch {
					case r.Op == "mut" && set(r.Args[0]):
						c.oblige(e.tracked(s, "set"), name+"set", "a credential is kept although limiting its disclosures failed", where, e.traceString(s, 60))
					case cred(r) || anySrc(r):
						c.oblige(e.tracked(s, "unlimited"), name+"whole", "the whole credential is kept although disclosure may have to be limited", where, e.traceString(s, 60))
					case Has(set)(r):
						c.oblige(e.tracked(s, "set"), name+"set", "a credential is kept although limiting its disclosures failed", where, e.traceString(s, 60))
					default:
						c.oblige(!revealsSubject(r, contents("Subject")) && !Has(Or(anySrc, MapGet(Any, ConstStr("credentialSubject"))))(r), name+"template",
							"what a limited credential starts from contains more of the subject than its identifier", where, nil)
					}
				}
			}
		}}, f)

	c.oblige(kept > 0 && written > 0 && disclosed > 0, name+"kept", "no place was found at which the stage keeps a credential: the rule would be vacuous", shortName(f), nil)
}

func isBytes(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}

	b, ok := s.Elem().Underlying().(*types.Basic)

	return ok && b.Kind() == types.Byte
}

// roots are the values a value was made from by setting members of it, re-parsing it or choosing between several.
func roots(t *Term) []*Term {
	switch {
	case t.Op == "loopvar":
		return roots(t.Args[0])
	case t.Op == "choice":
		var out []*Term
		for _, a := range t.Args {
			out = append(out, roots(a)...)
		}

		return out
	case t.Op == "res":
		return roots(t.Args[0])
	case t.Op == "call" && nameMatch(t.Name, "~tidwall/sjson\\.Set(Raw)?(Bytes)?$|verifiable\\.ParseCredential$|CreateUnsecuredJWTVC$"):
		return roots(t.Args[0])
	case t.Op == "call" && nameMatch(t.Name, "~GenerateBBSSelectiveDisclosure$"):
		return roots(t.Args[1])
	case t.Op == "mut" && nameMatch(t.Args[0].Name, "encoding/json.Unmarshal"):
		return roots(t.Args[0].Args[0])
	case t.Op == "ref" && t.Args[0].Op == "mut":
		return roots(t.Args[0])
	}

	return []*Term{t}
}

// revealsSubject: the value contains more of a subject than its identifier.
func revealsSubject(t *Term, subjects Pat) bool {
	found := false
	subj := func(x *Term) bool { return subjects(x) || x.Op == "elem" && subjects(x.Args[0]) }

	t.walk(func(x *Term) bool {
		for _, a := range x.Args {
			if subj(a) && !(x.Op == "field" && x.Name == "ID" || subj(x) || x.Op == "len") {
				found = true
			}
		}

		return !found
	})

	return found || subj(t)
}
