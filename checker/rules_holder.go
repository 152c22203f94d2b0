package main

import (
	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C19", "must-pass dataflow over the holder's and the credential's presentation functions: what is serialised are the selected disclosures, each shown to be one of the credential's own and named by the caller's selection; required names are shown to be present and conflicting options to be refused", c19)
}

func c19(c *Ctx) {
	opq := []string{"CombinedFormatForPresentation).Serialize", "holder.CreateHolderVerification", "jwt.NewJoseSigned"}
	own := sdSplit(Param(0))
	fromOwn := func(e *Exec, s *State, m *Term) bool { return e.derives(s, m, own) }
	ser := Call("CombinedFormatForPresentation).Serialize")
	known := func(t *Term) bool { return t.Op == "makemap" || Has(own)(t) }
	info := Opt("holder.options", "holderVerificationInfo")

	c.gate(Gate{Name: "present", Entry: "sdjwt/holder.CreatePresentation", Opaque: opq,
		OnCall: func(e *Exec, fr *Frame, s *State, in ssa.CallInstruction, cn string, args []*Term, res *Term) {
			if res == nil || !ser(res) {
				return
			}

			where := shortName(in.Parent()) + " at " + c.P.pos(in.Pos())
			cf := peel(res.Args[0])
			tok, ds, hb := getField(cf, "SDJWT"), getField(cf, "Disclosures"), getField(cf, "HolderVerification")
			c.oblige(tok != nil && Has(own)(tok), "present|token", "the presented token is not the one given", where, nil)
			c.oblige(ds != nil && Alts(Param(1))(ds), "present|disclosures", "the presented disclosures are not exactly the selected ones", where, nil)

			bound := hb != nil

			if bound {
				for _, a := range alts(hb) {
					if ConstStr("")(a) {
						bound = bound && s.holds(NilLit(info))
					} else {
						bound = bound && Has(info)(a) && Has(Or(Call("holder.CreateHolderVerification"), Call("jwt.NewJoseSigned")))(a)
					}
				}
			}

			c.oblige(bound, "present|binding", "the presentation lacks the holder binding that was asked for, or has one that was not", where, e.traceString(s, 20))
		},
		Reqs: []GateReq{
			{ID: "own", Why: "every selected disclosure is one of the credential's own", Each: true, Over: Param(1), Any: append(member(Has(own), LoopElem(Param(1))), True(HasKey(known, LoopElem(Param(1)))))},
			{ID: "own-list", Why: "selected disclosures are looked up among those of the given credential", Fn: func(e *Exec, s *State) bool {
				for _, f := range s.find(true, func(t *Term) bool { return t.Op == "forall" && Has(HasKey(known, Any))(t) && Param(1)(t.Args[0]) }) {
					ok := false

					f.walk(func(t *Term) bool {
						if HasKey(known, Any)(t) && fromOwn(e, s, t.Args[0]) {
							ok = true
						}

						return true
					})

					if ok {
						return true
					}
				}

				return s.holds(Empty(Param(1))) || len(s.find(true, func(t *Term) bool { return t.Op == "forall" && Param(1)(t.Args[0]) && Has(own)(t.Args[1]) })) > 0
			}},
			{ID: "binding-error", Why: "the holder binding asked for was created without error", Any: []Lit{NilLit(info), OK(Call("holder.CreateHolderVerification")), OK(Call("jwt.NewJoseSigned"))}},
			{ID: "result", Why: "the result is the serialised presentation", Exit: func(e *Exec, x Exit) bool { return ser(x.res[0]) }},
		}})

	c.selection()
}

// selection: marshalling and displaying with selected claims uses only disclosures whose names were selected.
func (c *Ctx) selection() {
	type sel struct {
		name, entry, typ, all string
		lists                 []string
		required              string
	}

	for _, u := range []sel{
		{"marshal", "verifiable.(*Credential).MarshalWithDisclosure", "verifiable.marshalDisclosureOpts", "includeAllDisclosures", []string{"discloseIfAvailable", "discloseRequired"}, "discloseRequired"},
		{"display", "verifiable.(*Credential).CreateDisplayCredential", "verifiable.displayCredOpts", "displayAll", []string{"displayGiven"}, ""},
		{"display-map", "verifiable.(*Credential).CreateDisplayCredentialMap", "verifiable.displayCredOpts", "displayAll", []string{"displayGiven"}, ""},
	} {
		opt := func(n string) Pat { return Opt(u.typ, n) }
		all := opt(u.all)

		var lists []Pat
		for _, l := range u.lists {
			lists = append(lists, opt(l))
		}

		list := Or(lists...)
		named := func(e *Exec, s *State, d *Term) bool {
			name := Or(Fld(is(d), "Name"), Fld(is(peel(d)), "Name"))

			for f, v := range s.facts {
				if !v {
					continue
				}

				ok := false

				f.walk(func(t *Term) bool {
					if (t.Op == "has" || t.Op == "mapget") && len(t.Args) > 1 && name(t.Args[1]) && e.derives(s, t.Args[0], list) {
						ok = true
					}

					return !ok
				})

				if ok && (f.Op == "has" || f.Op == "mapget" || eqPat(Any, is(d))(f)) {
					return true
				}
			}

			for _, l := range member(list, name) {
				if s.holds(l) {
					return true
				}
			}

			return false
		}

		vcDisclosures := Or(FldOf("verifiable.JWTEnvelope", "SDJWTDisclosures"), Res(Call("common.GetDisclosureClaims"), 0))
		sites := 0

		var reqs []GateReq
		for _, l := range u.lists {
			reqs = append(reqs, GateReq{ID: "conflict-" + l, Why: "selecting everything was not combined with naming claims (" + l + ")", Any: []Lit{False(all), Empty(opt(l)), NotLess(ConstInt(0), Len(opt(l)))}})
		}

		if u.required != "" {
			r := opt(u.required)
			// (a map looked up by the required names, or the list itself)
			over := func(t *Term) bool { return t.Op == "makemap" || r(t) }
			reqs = append(reqs, GateReq{ID: "required", Why: "every required claim has a disclosure", Any: []Lit{True(all), Empty(r),
				Forall(over, func(t *Term) bool { return t.Op == "isnil" }, false), Forall(r, func(t *Term) bool { return t.Op == "has" }, true)}})
		}

		uses := func(res *Term) *Term {
			switch {
			case Call("CombinedFormatForPresentation).Serialize")(res):
				return getField(peel(res.Args[0]), "Disclosures")
			case Call("holder.CreatePresentation")(res):
				return res.Args[1]
			case Call("common.GetDisclosedClaims")(res):
				return res.Args[0]
			}

			return nil
		}

		c.gate(Gate{Name: u.name, Entry: u.entry,
			Opaque:  []string{"CombinedFormatForPresentation).Serialize", "holder.CreatePresentation", "holder.CreateHolderVerification", "common.GetDisclosureClaims", "common.GetDisclosedClaims", "issuer.NewFromVC"},
			Anchors: []string{"CombinedFormatForPresentation).Serialize", "holder.CreatePresentation", "common.GetDisclosedClaims", "common.GetDisclosureClaims"},
			Split:   []Lit{True(all)},
			OnInstr: func(e *Exec, fr *Frame, s *State, in ssa.Instruction) {
				x, ok := in.(*ssa.Call)
				if !ok {
					return
				}

				b, ok := x.Call.Value.(*ssa.Builtin)
				if !ok || b.Name() != "append" || len(x.Call.Args) < 2 {
					return
				}

				add := e.snap(s, e.val(fr, s, x.Call.Args[1]), 0)
				if add.Op != "slicelit" {
					return
				}

				for _, d := range add.Args {
					if d.Op == "field" && d.Name == "Disclosure" {
						// an element of an already filtered list was checked when it entered that list
						if d = d.Args[0]; !LoopElem(vcDisclosures)(d) {
							continue
						}
					} else if !typeIs(d, "common.DisclosureClaim") || d.Op == "struct" {
						continue
					}

					c.oblige(s.holds(True(all)) || named(e, s, d), u.name+"|selected", "a disclosure is used whose claim was not selected", shortName(in.Parent())+" at "+c.P.pos(in.Pos()), e.traceString(s, 20))
				}
			},
			OnCall: func(e *Exec, fr *Frame, s *State, in ssa.CallInstruction, cn string, args []*Term, res *Term) {
				if res == nil {
					return
				}

				ds := uses(res)
				if ds == nil {
					return
				}

				sites++

				where := shortName(in.Parent()) + " at " + c.P.pos(in.Pos())

				for _, a := range alts(ds) {
					if a.Op == "nil" {
						continue
					}

					whole := vcDisclosures(a)
					c.oblige(Has(vcDisclosures)(a), u.name+"|source", "disclosures are used that are not the credential's own", where, nil)
					c.oblige(!whole || s.holds(True(all)), u.name+"|whole", "all disclosures are used although that was not asked for", where, e.traceString(s, 20))
				}
			},
			Reqs: reqs})

		c.oblige(sites > 0, u.name+"|sites", "no place uses the selected disclosures", u.entry, nil)
	}
}
