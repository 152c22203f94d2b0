package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C37", "must-pass dataflow over presentation parsing: on every path that accepts a presentation whose holder is to be checked, every proof of every credential was compared with the methods of all proofs of the presentation, and the holder with the issuer where they share one", c37)
}

func c37(c *Ctx) {
	const proofsFn, contentsFn = "~^\\(\\*verifiable\\.Credential\\)\\.Proofs$", "~^\\(\\*verifiable\\.Credential\\)\\.Contents$"

	isProofs := func(t *Term) bool {
		if t.Typ == nil {
			return false
		}

		sl, ok := t.Typ.Underlying().(*types.Slice)
		n := namedOf(t.Typ)

		return ok && (n == nil || n.Obj().Name() == "") && namedOf(sl.Elem()) != nil && namedOf(sl.Elem()).Obj().Name() == "Proof"
	}
	isCreds := func(t *Term) bool {
		if t.Typ == nil {
			return false
		}

		sl, ok := t.Typ.Underlying().(*types.Slice)

		return ok && isPtr(sl.Elem()) && namedOf(sl.Elem()) != nil && namedOf(sl.Elem()).Obj().Name() == "Credential"
	}
	cred := LoopElem(isCreds)
	credProofs := Call(proofsFn, cred)
	vpProofs := And(isProofs, Not(Has(Call(proofsFn))))
	member := func(of Pat) Pat {
		return Has(func(t *Term) bool {
			if t.Op != "mapget" || !of(t.Args[0]) {
				return false
			}

			k, _ := constStr(t.Args[1])

			return k == "verificationMethod"
		})
	}
	did := func(of Pat) Pat {
		m := member(of)

		return func(t *Term) bool {
			if t.Op == "elem" {
				return isConstInt(t.Args[1], 0) && Call("~^strings\\.Split(N|AfterN)?$", m, ConstStr("#"))(t.Args[0])
			}

			return Res(Call("strings.Cut", m, ConstStr("#")), 0)(t)
		}
	}
	ofProof, ofCred := did(LoopElem(vpProofs)), did(LoopElem(credProofs))
	subjects := And(func(t *Term) bool { return t.Op == "field" && t.Name == "Subject" }, Has(Call(contentsFn, cred)))
	subject := func(t *Term) bool { return t.Op == "field" && t.Name == "ID" && LoopElem(subjects)(t.Args[0]) }
	issuerID := func(t *Term) bool {
		return t.Op == "field" && t.Name == "ID" && Has(func(t *Term) bool { return t.Op == "field" && t.Name == "Issuer" && Has(Call(contentsFn, cred))(t) })(t.Args[0])
	}

	issuer := func(t *Term) bool { // or no issuer, which the holder is not
		some := false

		for _, a := range alternatives(t) {
			some = some || issuerID(a)

			if !issuerID(a) && !ConstStr("")(a) {
				return false
			}
		}

		return some
	}

	// the sets of methods and subjects, by what they are filled with
	filled := map[*Term]map[string]bool{}
	fill := func(m *Term, k *Term) {
		if filled[m] == nil {
			filled[m] = map[string]bool{}
		}

		switch {
		case ofProof(k):
			filled[m]["method"] = true
		case subject(k):
			filled[m]["subject"] = true
		default:
			filled[m]["other"] = true
		}
	}
	setOf := func(what string) Pat {
		return func(t *Term) bool { return filled[t][what] && len(filled[t]) == 1 }
	}
	has := func(m, k Pat) Pat {
		return func(t *Term) bool { return (t.Op == "has" || t.Op == "mapget") && m(t.Args[0]) && k(t.Args[1]) }
	}
	holder := Has(func(t *Term) bool {
		if t.Op != "mapget" {
			return false
		}

		k, _ := constStr(t.Args[1])

		return k == "holder"
	})
	skip := []Lit{
		False(Opt("verifiable.presentationOpts", "checkHolder")), Empty(vpProofs),
		Empty(setOf("subject")), Less(ConstInt(1), Len(setOf("subject"))), Less(Len(setOf("subject")), ConstInt(1)), {eqPat(Len(setOf("subject")), ConstInt(1)), false},
		{Less(Len(setOf("subject")), ConstInt(2)).P, false},
	}
	with := func(l ...Lit) []Lit { return append(l, skip...) }

	var compares []*ssa.Function

	reach := c.P.reach(c.P.Fn("verifiable.ParsePresentation"), "verifiable")

	for changed := true; changed; {
		changed = false

		for _, f := range reach {
			if containsFn(compares, f) || isExportedFn(f) {
				continue
			}

			if callsNamed(f, proofsFn) || callsOneOf(f, compares) {
				compares = append(compares, f)
				changed = true
			}
		}
	}

	c.gate(Gate{Name: "holder", Entry: "verifiable.ParsePresentation", NoHavoc: []string{"~^[^d].*"},
		// what makes the lists of credentials and proofs is not of interest, nor anything else that can fail
		OpaqueFn: func(g *ssa.Function) bool {
			if g.Parent() != nil {
				return false
			}

			lists := func(rs *types.Tuple) (found bool) {
				for i := 0; i < rs.Len(); i++ {
					t := &Term{Typ: rs.At(i).Type()}
					found = found || isProofs(t) || isCreds(t)
				}

				return found
			}

			return isExportedFn(g) || lists(g.Signature.Results()) || !containsFn(compares, g) && g.Signature.Results().Len() > 0 && isError(g.Signature.Results().At(g.Signature.Results().Len()-1).Type())
		},
		OnInstr: func(e *Exec, fr *Frame, s *State, in ssa.Instruction) {
			if mu, ok := in.(*ssa.MapUpdate); ok {
				fill(e.val(fr, s, mu.Map), e.snap(s, e.val(fr, s, mu.Key), 0))
			}
		},
		Reqs: []GateReq{
			{ID: "credentials", Why: "there is a credential if the caller requires one", Any: []Lit{False(Opt("verifiable.presentationOpts", "requireVC")), NonEmpty(isCreds), Less(ConstInt(0), Len(isCreds))}},
			{ID: "methods", Why: "the DIDs of the methods of all proofs of the presentation were collected", Each: true, Over: vpProofs,
				Any: append(skip[:2:2], True(has(setOf("method"), ofProof)), Eq(member(LoopElem(vpProofs)), ConstStr("")), Empty(member(LoopElem(vpProofs))))},
			{ID: "subjects", Why: "the subjects of all credentials were collected", Each: true, Over: subjects, Outer: isCreds, Any: append(skip[:2:2], True(has(setOf("subject"), subject)))},
			{ID: "self-asserted", Why: "each proof of each credential is made with no method of the presentation, or the holder is the issuer", Each: true, Over: credProofs, Outer: isCreds, Any: with(False(has(setOf("method"), ofCred))),
				Fn: func(e *Exec, s *State) bool {
					return e.inLoop(s, credProofs) && s.holds(Eq(holder, issuer)) && (s.holds(Neq(holder, ConstStr(""))) || s.holds(NonEmpty(holder)))
				}},
		}})
}

func callsOneOf(f *ssa.Function, gs []*ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if ci, ok := in.(ssa.CallInstruction); ok && containsFn(gs, ci.Common().StaticCallee()) {
				return true
			}
		}
	}

	return false
}
