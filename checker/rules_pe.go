package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C23", "must-pass dataflow over presentation-exchange matching: at every point where a match is recorded the mapping, the parsing of the credential it selects, the schemas and the constraints of its own descriptor were established, every returned result covers every descriptor, and a field constraint is satisfied only by a selected value that passed its filter", c23)
}

const pePkg = "presexch"

// fieldEvaluators are the functions that evaluate one field constraint; outer are those that are called from elsewhere.
func (c *Ctx) fieldEvaluators() (all, outer []*ssa.Function) {
	set := map[*ssa.Function]bool{}

	for _, f := range c.P.Funcs {
		if fnPkgPath(f) != modPath+"/"+pePkg || f.Parent() != nil || f.Blocks == nil {
			continue
		}

		r := f.Signature.Results()
		if r.Len() != 1 || !isErrorType(r.At(0).Type()) {
			continue
		}

		field := false

		for _, p := range f.Params {
			if strings.HasSuffix(typeName(p.Type()), "presexch.Field") {
				field = true
			}
		}

		if !field {
			continue
		}

		for _, g := range c.P.reach(f, pePkg) {
			for _, b := range g.Blocks {
				for _, ins := range b.Instrs {
					if ci, ok := ins.(ssa.CallInstruction); ok {
						if sc := ci.Common().StaticCallee(); sc != nil && nameMatch(funcName(sc), "~theory/jsonpath\\.Path\\)\\.Select$") {
							set[f] = true
						}
					}
				}
			}
		}
	}

	for f := range set {
		all = append(all, f)
		out := false

		for _, ci := range c.P.callersOf(f) {
			out = out || !set[ci.Parent()]
		}

		if out {
			outer = append(outer, f)
		}
	}

	sort.Slice(all, func(i, j int) bool { return all[i].String() < all[j].String() })
	sort.Slice(outer, func(i, j int) bool { return outer[i].String() < outer[j].String() })

	return all, outer
}

// appended reports the elements an append adds, if the list has that element type.
func appended(e *Exec, fr *Frame, s *State, in ssa.Instruction, elem string) []*Term {
	ci, ok := in.(*ssa.Call)
	if !ok {
		return nil
	}

	if b, ok := ci.Call.Value.(*ssa.Builtin); !ok || b.Name() != "append" {
		return nil
	}

	sl, ok := ci.Type().Underlying().(*types.Slice)
	if !ok || !strings.HasSuffix(typeName(sl.Elem()), elem) {
		return nil
	}

	t := e.snap(s, e.val(fr, s, ci.Call.Args[1]), 0)
	if t.Op == "slicelit" {
		return t.Args
	}

	return []*Term{e.in.mk(Term{Op: "elem", Args: []*Term{t, e.in.mk(Term{Op: "unknown"})}, Typ: sl.Elem()})}
}

// constraintConds: the conditions under which a credential satisfies a descriptor's schemas and constraints.
func constraintConds(descriptor, cred Pat, evaluators []*ssa.Function) []GateReq {
	return constraintCondsOf(Fld(descriptor, "Constraints"), cred, evaluators)
}

func constraintCondsOf(cons, cred Pat, evaluators []*ssa.Function) []GateReq {
	of := func(n string) Pat {
		return func(t *Term) bool { return t.Op == "field" && t.Name == n && cons(t.Args[0]) }
	}
	sii := of("SubjectIsIssuer")
	content := func(n string) Pat {
		return func(t *Term) bool { return t.Op == "field" && t.Name == n && Has(cred)(t) }
	}
	subjectID := func(t *Term) bool {
		return Has(content("Subject"))(t) && (t.Op == "field" && t.Name == "ID" || Has(ConstStr("id"))(t) || t.Op == "assert")
	}
	eval := func(t *Term) bool {
		if t.Op != "call" {
			return false
		}

		for _, f := range evaluators {
			if nameMatch(t.Name, funcName(f)) {
				// on the constraint's own field and on the document of this credential
				return containsArg(t, LoopElem(of("Fields"))) && containsArg(t, Has(cred))
			}
		}

		return false
	}
	none := NilLit(cons)

	return []GateReq{
		{ID: "subject-is-issuer", Why: "where the descriptor requires it, a subject of the credential is its issuer", Each: true, Over: of("Fields"),
			Any: []Lit{none, NilLit(sii), Neq(sii, ConstStr("required")), Eq(subjectID, Fld(content("Issuer"), "ID"))}},
		{ID: "fields", Why: "the credential satisfies every field of the descriptor's constraints", Each: true, Over: of("Fields"), Any: []Lit{none, OK(eval)}},
	}
}

func schemaConds(schemas Pat, off ...Lit) []GateReq {
	el := LoopElem(schemas)
	has := True(HasKey(Any, Fld(el, "URI")))

	return []GateReq{
		{ID: "schema", Why: "the credential is of one of the descriptor's schemas", Any: append([]Lit{has}, off...), Each: true, Over: func(*Term) bool { return false }},
		{ID: "required-schemas", Why: "the credential is of every schema the descriptor marks as required", Any: append([]Lit{has, False(Fld(el, "Required"))}, off...), Each: true, Over: schemas},
	}
}

func c23(c *Ctx) {
	all, outer := c.fieldEvaluators()
	c.oblige(len(outer) > 0, "match|evaluators", "no function was found that evaluates a field constraint", pePkg, nil)

	opq := []string{"verifiable.ParseCredential", "~Credential\\)\\.MarshalAsJSONLD$", "~Credential\\)\\.CreateDisplayCredential$", "jwt.Parse", "~\\)\\.MarshalJSON$"}
	for _, f := range all {
		opq = append(opq, funcName(f))
	}

	vps := Param(1)
	vp := LoopElem(vps)
	desc := LoopElem(Fld(Param(0), "InputDescriptors"))
	path := func(t *Term) bool { return t.Op == "field" && t.Name == "Path" }
	eval := func(t *Term) bool {
		return t.Op == "call" && strings.Contains(t.Name, "gval.Evaluable") || nameMatch(t.Name, "~gval\\.Evaluable")
	}
	evalOK := OK(And(eval, Has(Call("~NewEvaluable$", nil, Has(path)))))
	parse := Call("verifiable.ParseCredential", Has(eval), FldOf("presexch.MatchOptions", "CredentialOptions"))
	vc := Res(parse, 0)
	each := func(id, why string, any ...Lit) GateReq {
		return GateReq{ID: id, Why: why, Any: any, Each: true, Over: func(*Term) bool { return false }}
	}
	mapping := func(t *Term) bool { return t.Op == "elem" && typeIs(t, "presexch.InputDescriptorMapping") }
	off := True(FldOf("presexch.MatchOptions", "DisableSchemaValidation"))
	oneOf := func(list Pat, vals ...string) []Lit {
		var out []Lit
		for _, v := range vals {
			out = append(out, member(list, ConstStr(v))...)
		}

		return out
	}

	conds := []GateReq{
		each("context", "the presentation has the context of a submission", oneOf(Fld(vp, "Context"), "https://identity.foundation/presentation-exchange/submission/v1", "https://identity.foundation/credential-manifest/application/v1")...),
		each("type", "the presentation has the type of a submission", oneOf(Fld(vp, "Type"), "PresentationSubmission", "CredentialApplication")...),
		each("descriptor", "the mapping refers to the descriptor it is checked against", Eq(Fld(desc, "ID"), Fld(mapping, "ID"))),
		each("selected", "the mapping's path selected a value without error", evalOK),
		each("parsed", "what the mapping selects was parsed, under the caller's options, without error", OK(parse)),
	}
	conds = append(conds, schemaConds(Fld(desc, "Schema"), off)...)
	conds = append(conds, constraintConds(desc, vc, all)...)

	matches := 0
	sets := map[*Term][]*Term{} // maps and the keys put into them
	result := func(t *Term) bool { return t.Op == "field" && t.Name == "DescriptorID" }

	const entry = "presexch.(*PresentationDefinition).Match"

	recorded := func(cond *GateReq) func(e *Exec, fr *Frame, s *State, in ssa.Instruction) {
		return func(e *Exec, fr *Frame, s *State, in ssa.Instruction) {
			if mu, ok := in.(*ssa.MapUpdate); ok {
				m := e.val(fr, s, mu.Map)
				sets[m] = append(sets[m], e.snap(s, e.val(fr, s, mu.Key), 0))
			}

			for _, t := range appended(e, fr, s, in, "presexch.MatchValue") {
				matches++
				where := shortName(fr.fn) + " (" + c.P.pos(in.Pos()) + ")"

				if cond != nil {
					c.oblige(e.tracked(s, cond.ID), "match|recorded|"+cond.ID, "a match is recorded although this was not established: "+cond.Why, where, e.traceString(s, 60))
					continue
				}

				get := func(n string) *Term { return orNil(getField(t, n)) }
				c.oblige(Has(vc)(get("Credential")), "match|recorded|credential", "the credential of a match is not the one that was parsed and checked", where, nil)
				c.oblige(Fld(mapping, "ID")(get("DescriptorID")) || Fld(desc, "ID")(get("DescriptorID")), "match|recorded|id", "the descriptor id of a match is not the one of its mapping", where, nil)
				c.oblige(Fld(vp, "ID")(get("PresentationID")), "match|recorded|presentation", "the presentation id of a match is not the one of its presentation", where, nil)
			}
		}
	}

	// one pass per condition: tracked together they multiply the states
	for i := range conds {
		c.gate(Gate{Name: "match", Entry: entry, Opaque: opq, Track: conds[i : i+1], OnInstr: recorded(&conds[i])})
	}

	c.gate(Gate{Name: "match", Entry: entry, Opaque: opq, OnInstr: recorded(nil),
		Reqs: []GateReq{
			{ID: "all-presentations", Why: "every presentation was considered", Any: []Lit{Forall(vps, Any, true)}},
			{ID: "covered", Why: "every descriptor of the definition has a match", Fn: func(e *Exec, s *State) bool {
				ids := Fld(Param(0), "InputDescriptors")
				full := func(m *Term) bool {
					return s.holds(Forall(ids, HasKey(func(t *Term) bool { return t == m }, Fld(desc, "ID")), true))
				}

				for f, v := range s.facts {
					if !v || f.Op != "forall" {
						continue
					}

					over, cond := f.Args[0], f.Args[1]
					if !ids(over) && !full(over) {
						continue
					}

					if eqPat(Or(Fld(desc, "ID"), func(t *Term) bool { return t.Op == "key" && t.Args[0] == over }), result)(cond) {
						return true
					}

					if cond.Op == "has" && ids(over) { // a set of the ids that were matched
						keys := sets[cond.Args[0]]
						ok := len(keys) > 0

						for _, k := range keys {
							ok = ok && result(k)
						}

						if ok {
							return true
						}
					}
				}

				return false
			}},
		}})
	c.oblige(matches > 0, "match|recorded", "no place was found at which a match is recorded: the rule would be vacuous", pePkg, nil)

	for _, f := range outer {
		c.fieldGate(f)
	}
}

func orNil(t *Term) *Term {
	if t == nil {
		return &Term{Op: "none"}
	}

	return t
}

// fieldGate: a field is satisfied only by a value its path selects, which passes its filter.
func (c *Ctx) fieldGate(f *ssa.Function) {
	fi := -1

	for i, p := range f.Params {
		if strings.HasSuffix(typeName(p.Type()), "presexch.Field") {
			fi = i
		}
	}

	field := Param(fi)
	fld := func(n string) Pat { return Fld(field, n) }
	// the path may be rewritten, to a constant even
	parse := Call("~theory/jsonpath\\.Parse$", Or(Has(LoopElem(fld("Path"))), Has(func(t *Term) bool { return t.Op == "param" && isString(t.Typ) }), func(t *Term) bool { _, ok := constStr(t); return ok }))
	sel := Call("~theory/jsonpath\\.Path\\)\\.Select$", Has(parse), func(t *Term) bool { return t.Op == "param" })
	filter := fld("Filter")
	allOf := func(t *Term) bool { return t.Op == "field" && t.Name == "AllOf" && Has(filter)(t) }
	none := []Lit{Empty(fld("Path"))}
	skipped := append([]Lit{NilLit(filter)}, none...)
	// nothing was selected for an optional field
	optional := func(e *Exec, s *State) bool {
		return s.holds(Empty(sel)) && s.holds(True(fld("Optional")))
	}
	loader := func(schema Pat) Pat { return Has(Call("~gojsonschema\\.New(Go|Bytes|String|Raw)Loader$", schema)) }
	part := loader(Has(LoopElem(allOf)))
	validate := func(schema Pat) Pat { return Call("~gojsonschema\\.Validate$", schema, loader(Has(sel))) }
	list := loader(Has(filter))
	ok := func(schema Pat) []Lit { return append([]Lit{OK(validate(schema))}, skipped...) }
	valid := func(schema Pat) []Lit {
		return append([]Lit{True(Call("~gojsonschema\\.Result\\)\\.Valid$", Res(validate(schema), 0)))}, skipped...)
	}
	schema := Or(LoopElem(list), list)
	taken := &Term{Op: "mark", Name: "allOf"}

	c.gateFn(Gate{Name: "field", Entry: shortName(f), Split: []Lit{Empty(sel), True(fld("Optional"))},
		OnInstr: func(e *Exec, fr *Frame, s *State, in ssa.Instruction) {
			for _, t := range appended(e, fr, s, in, "gojsonschema.JSONLoader") {
				if part(t) {
					s.facts[taken] = true
				}

				c.oblige(part(t) || loader(func(t *Term) bool { return Has(filter)(t) })(t), "field|schemas", "a field's filter is evaluated against something that is not the whole filter or one of its allOf parts",
					shortName(fr.fn)+" ("+c.P.pos(in.Pos())+")", nil)
			}
		},
		Reqs: []GateReq{
			{ID: "path", Why: "one of the field's paths is well-formed", Any: append([]Lit{OK(parse)}, none...)},
			{ID: "value", Why: "the path selects something in the credential, or the field is optional", Any: append([]Lit{NonEmpty(sel), Less(ConstInt(0), Len(sel)), True(fld("Optional"))}, none...)},
			{ID: "parts", Why: "every allOf part of the filter is among the schemas the value is validated against", Each: true, Over: allOf,
				Any: append(ok(part), Lit{func(t *Term) bool { return t == taken }, true}), Fn: optional},
			{ID: "validated", Why: "the selected value was validated against the field's filter without error", Each: true, Over: list, Any: ok(schema), Fn: optional},
			{ID: "valid", Why: "the selected value is valid under the field's filter", Each: true, Over: list, Any: valid(schema), Fn: optional},
			{ID: "some", Why: "the selected value was validated against at least one schema", Any: skipped, Fn: func(e *Exec, s *State) bool {
				if optional(e, s) || s.holds(OK(validate(Not(LoopElem(list))))) {
					return true
				}

				for f, v := range s.facts {
					if v && f.Op == "forall" && list(f.Args[0]) && (f.Args[0].Op == "append" || s.holds(NonEmpty(func(t *Term) bool { return t == f.Args[0] }))) {
						return true
					}
				}

				return false
			}},
		}}, f)
}

func fld2(p Pat, n string) Pat {
	return func(t *Term) bool { return t.Op == "field" && t.Name == n && Has(p)(t) }
}
