package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C22", "must-pass dataflow over DID-configuration verification: every success path verified the proof of a linked credential that was selected, and at every point where a linked credential is selected all domain-linkage conditions were established on that very credential", c22)
}

func c22(c *Ctx) {
	did, domain := Param(1), Param(2)
	linked := func(t *Term) bool { return t.Op == "field" && t.Name == "LinkedDIDs" }
	parse := Call("verifiable.ParseCredential", HasAll(LoopElem(linked)))
	vc := Has(Res(parse, 0))
	of := func(name string) Pat { return func(t *Term) bool { return t.Op == "field" && t.Name == name && vc(t) } }
	subjects := func(t *Term) bool {
		if t.Op == "assert" {
			t = t.Args[0]
		}

		return of("Subject")(t)
	}
	subj0 := func(t *Term) bool { return t.Op == "elem" && isConstInt(t.Args[1], 0) && subjects(t.Args[0]) }
	origin := func(t *Term) bool {
		return t.Op == "mapget" && ConstStr("origin")(t.Args[1]) && Fld(subj0, "CustomFields")(t.Args[0])
	}
	u1 := Call("~^net/url\\.Parse$", Has(origin))
	u2 := Call("~^net/url\\.Parse$", domain)
	same := func(f func(u Pat) Pat) Lit { return Eq(f(Res(u1, 0)), f(Res(u2, 0))) }
	fld := func(n string) func(Pat) Pat { return func(u Pat) Pat { return Fld(u, n) } }

	env := of("JWTEnvelope")
	isJWT := Lit{func(t *Term) bool { return t.Op == "isnil" && env(t.Args[0]) }, true}
	tok := Call("jwt.Parse", Has(env))
	hdr := Has(Res(tok, 0))
	claims := Call("~\\)\\.JWTClaims$", vc)

	track := func(id, why string, any ...Lit) GateReq {
		return GateReq{ID: id, Why: why, Each: true, Over: linked, Any: any}
	}
	jwtOnly := func(id, why string, any ...Lit) GateReq { return track(id, why, append(any, isJWT)...) }

	conds := []GateReq{
		track("parsed", "it parsed without error", OK(parse)),
		track("issuer", "its issuer is the DID in question", Eq(Fld(of("Issuer"), "ID"), did)),
		track("type", "it is a domain-linkage credential", Eq(func(t *Term) bool { return Has(of("Types"))(t) }, ConstStr("DomainLinkageCredential"))),
		track("no-id", "it has no id", Eq(of("ID"), ConstStr("")), Empty(of("ID"))),
		track("issued", "it has an issuance date", NonNil(of("Issued"))),
		track("expires", "it has an expiration date", NonNil(of("Expired"))),
		track("subject", "its subject is the DID in question", Eq(Fld(subj0, "ID"), did)),
		track("one-subject", "it has exactly one subject", Less(Len(subjects), ConstInt(2)), NotLess(ConstInt(1), Len(subjects)), Eq(Len(subjects), ConstInt(1))),
		track("subject-did", "its subject is a DID", OK(Call("~/doc/did\\.Parse$", Fld(subj0, "ID"))), OK(Call("~/doc/did\\.Parse$", did))),
		track("origin", "its origin is a URL", OK(u1)),
		track("domain", "the domain is a URL", OK(u2)),
		track("host", "origin and domain have the same host", same(fld("Host"))),
		track("scheme", "origin and domain have the same scheme", same(fld("Scheme"))),
		jwtOnly("token", "its token parsed without error", OK(tok)),
		jwtOnly("alg", "its token names an algorithm", True(func(t *Term) bool {
			return t.Op == "res" && t.Num == 2 && Call("~Headers\\)\\.Algorithm$", hdr)(t.Args[0])
		})),
		jwtOnly("kid", "its token names a key", True(func(t *Term) bool { return t.Op == "res" && t.Num == 2 && Call("~Headers\\)\\.KeyID$", hdr)(t.Args[0]) })),
		jwtOnly("typ", "its token's type, if there is one, is JWT", False(func(t *Term) bool { return t.Op == "res" && t.Num == 2 && Call("~Headers\\)\\.Type$", hdr)(t.Args[0]) }),
			Eq(Res(Call("~Headers\\)\\.Type$", hdr), 0), ConstStr("JWT"))),
		jwtOnly("claims-iss", "its token's issuer claim is the DID", Eq(Fld(Has(Res(claims, 0)), "Issuer"), did)),
		jwtOnly("claims-sub", "its token's subject claim is the DID", Eq(Fld(Has(Res(claims, 0)), "Subject"), did)),
	}
	// members of header and payload
	only := func(id, why string, m Pat, names ...string) GateReq {
		known := func(t *Term) bool { s, ok := constStr(t); return ok && contains(names, s) }
		list := func(t *Term) bool {
			for _, a := range t.Args {
				if !known(a) {
					return false
				}
			}

			return t.Op == "slicelit"
		}
		key := func(t *Term) bool { return t.Op == "key" && m(t.Args[0]) }

		return GateReq{ID: id, Why: why, Each: true, Over: m, Any: append(member(list, key), Eq(key, known), Eq(key, LoopElem(list)), isJWT)}
	}
	conds = append(conds,
		only("header-members", "its token's header has no members but alg, kid and typ", Fld(Res(tok, 0), "Headers"), "alg", "kid", "typ"),
		only("payload-members", "its token's payload has no members but those of a domain-linkage token", Fld(Res(tok, 0), "Payload"), "exp", "iss", "nbf", "sub", "vc", "iat"))
	doc := And(Has(Call("~json\\.Unmarshal$", Param(0))), func(t *Term) bool { return t.Op == "mut" })
	selected := 0
	// an element of a list to which only linked credentials were added
	chosen := func(t *Term) bool {
		if t.Op != "elem" || t.Args[0].Op != "loopvar" {
			return false
		}

		l := t.Args[0]
		for _, u := range l.Updates {
			if u != l && !(u.Op == "append" && u.Args[0] == l && Has(LoopElem(linked))(u.Args[1])) {
				return false
			}
		}

		return len(l.Updates) > 0
	}

	checker, unchecked := c.optionOf("verifiable.WithProofChecker"), c.optionOf("verifiable.WithDisabledProofCheck")

	c.gate(Gate{Name: "verify", Entry: "didconfig/verifier.VerifyDIDAndDomain",
		Opaque: []string{"verifiable.ParseCredential", "jwt.Parse", "~\\)\\.JWTClaims$", "~Headers\\)\\.(Algorithm|KeyID|Type)$"},
		Track:  conds,
		Reqs: []GateReq{
			{ID: "context-member", Why: "the configuration has a context", Any: []Lit{True(HasKey(doc, ConstStr("@context")))}},
			{ID: "linked-member", Why: "the configuration has linked DIDs", Any: []Lit{True(HasKey(doc, ConstStr("linked_dids")))}},
			only("members", "the configuration has no other members", doc, "@context", "linked_dids"),
			{ID: "proof", Why: "the proof of a selected credential was checked: it was parsed, without error and with proof checking against the given DID resolver, from the bytes that were selected", Fn: func(e *Exec, s *State) bool {
				opts := func(t *Term) bool {
					checks := false

					t.walk(func(x *Term) bool {
						if checker(x) {
							for _, a := range x.Args {
								checks = checks || Has(FldOf("verifier.didConfigOpts", "didResolver"))(e.snap(s, a, 0))
							}
						}

						return true
					})

					return checks && !Has(unchecked)(t)
				}

				return s.holds(OK(Call("verifiable.ParseCredential", chosen, opts)))
			}},
		},
		OnInstr: func(e *Exec, fr *Frame, s *State, in ssa.Instruction) {
			ci, ok := in.(*ssa.Call)
			if !ok {
				return
			}
			if b, ok := ci.Call.Value.(*ssa.Builtin); !ok || b.Name() != "append" {
				return
			}

			el := e.snap(s, e.val(fr, s, ci.Call.Args[1]), 0)
			if !Has(LoopElem(linked))(el) || strings.Contains(typeName(ci.Type()), "interface") {
				return
			}

			selected++
			for _, r := range conds {
				c.oblige(e.tracked(s, r.ID), "verify|select|"+r.ID, "a linked credential is selected although this was not established: "+r.Why,
					shortName(fr.fn)+" ("+c.P.pos(in.Pos())+")", e.traceString(s, 60))
			}
		}})

	// the client asks the domain itself, for the DID and the domain it was given
	body := Has(Fld(Res(Call("~lient\\)\\.Do$", FldOf("client.Client", "httpClient"), Has(Call("~^net/http\\.NewRequest", nil, nil, Has(Param(2))))), 0), "Body"))
	c.gate(Gate{Name: "client", Entry: "didconfig/client.(*Client).VerifyDIDAndDomain", Opaque: []string{"verifier.VerifyDIDAndDomain"}, Reqs: []GateReq{
		{ID: "verified", Why: "the configuration fetched from the domain was verified for the given DID and domain without error", Any: []Lit{
			OK(Call("verifier.VerifyDIDAndDomain", body, Param(1), Param(2), Has(FldOf("client.Client", "didConfigOpts"))))}},
	}})

	c.oblige(selected > 0, "verify|selection", "no place was found at which a linked credential is selected: the rule would be vacuous", "didconfig/verifier", nil)
}

// optionOf matches a functional option made by the given exported function.
func (c *Ctx) optionOf(maker string) Pat {
	makers := map[*ssa.Function]bool{}

	if f := c.P.Fn(maker); f != nil {
		for _, g := range withHelpers(f) {
			makers[g] = true
		}
	}

	return func(t *Term) bool {
		return (t.Op == "closure" || t.Op == "func") && t.Fn != nil && t.Fn.Parent() != nil && makers[t.Fn.Parent()]
	}
}
