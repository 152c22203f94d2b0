package main

import "golang.org/x/tools/go/ssa"

func init() {
	register("C10", "must-pass dataflow over ParsePresentation: every success exit has a JWT, CWT, linked-data or data-integrity check of the presented document unless the caller disabled proof checking, and every embedded credential was parsed without error under the same proof checker", c10)
	register("C09", "must-pass dataflow over CheckProof and ParseCredential: every success exit has a JWT, CWT, linked-data or data-integrity check of the credential's own envelope with its issuer as expected signer, unless the caller disabled proof checking", c09)
}

// Opt matches the option member of that name of a structure of type typ (its package-relative name), also when the
// structure was filled in by option functions.
func Opt(typ, name string) Pat {
	return cur(func(t *Term) bool { return t.Op == "field" && t.Name == name && typeIs(t.Args[0], typ) })
}

// cur matches what a location that matches p holds, also when a loop may have assigned it.
func cur(p Pat) Pat {
	return Alts(func(t *Term) bool {
		return p(t) || (t.Op == "loopvar" && len(t.Args) > 0 && t.Args[0] != nil && p(t.Args[0]))
	})
}

var proofAnchors = []string{"jwt.CheckProof", "cwt.CheckProof", "lddocument.DocumentVerifier).VerifyObject", "dataintegrity.Verifier).VerifyProof",
	"jwt.ParseAndCheckProof", "cwt.ParseAndCheckProof"}

// credChecked are the ways a credential's proof can have been checked; vc is the credential.
func credProofReqs(vc Pat, opt func(string) Pat) []GateReq {
	contents := Fld(vc, "credentialContents")
	issuer := Fld(contents, "Issuer")
	id := Has(Fld(issuer, "ID"))
	jwtEnv, cwtEnv := Fld(vc, "JWTEnvelope"), Fld(vc, "CWTEnvelope")
	js := Fld(vc, "credentialJSON")
	msg := Fld(cwtEnv, "Sign1MessageParsed")

	jwtOK := OK(Call("jwt.CheckProof", Fld(jwtEnv, "JWT"), Has(opt("jwtProofChecker")), id, IsNilT))
	input := And(Has(Call("go-cose.Headers).MarshalProtected", Has(msg))), Has(ConstStr("Signature1")), Has(Fld(msg, "Payload")))
	cwtOK := OK(Call("cwt.CheckProof", msg, Has(opt("cwtProofChecker")), id, input, Fld(msg, "Signature")))
	ldOK := OK(Call("DocumentVerifier).VerifyObject", Has(opt("ldProofChecker")), Has(js), id))
	diOK := OK(Call("dataintegrity.Verifier).VerifyProof", Has(Fld(opt("verifyDataIntegrity"), "Verifier")), Has(js)))
	proofs := Has(MapGet(Has(js), ConstStr("proof")))

	return []GateReq{
		{ID: "issuer", Why: "the credential names an issuer", Any: []Lit{NonNil(issuer)}},
		{ID: "proof", Why: "the credential's proof was checked with its issuer as the expected signer", Any: []Lit{jwtOK, cwtOK, ldOK, diOK}},
		{ID: "jwt-envelope", Why: "a credential with a JWT envelope is accepted through that JWT's proof", Any: []Lit{NilLit(jwtEnv), jwtOK}},
		{ID: "cwt-envelope", Why: "a credential with a CWT envelope is accepted through that message's proof", Any: []Lit{NilLit(cwtEnv), NonNil(jwtEnv), cwtOK}},
		{ID: "embedded", Why: "a credential without envelope is accepted through its embedded proofs", Any: []Lit{NonNil(jwtEnv), NonNil(cwtEnv), ldOK, diOK}},
		{ID: "proof-member", Why: "an embedded proof member is present and not null", Any: []Lit{NonNil(jwtEnv), NonNil(cwtEnv), NonNil(MapGet(Has(js), ConstStr("proof"))), ldOK}},
		{ID: "di-issuer", Why: "the verification method of each data integrity proof belongs to the credential's issuer", Any: []Lit{
			jwtOK, cwtOK, ldOK, Forall(proofs, eqPat(Has(FldOf("models.Proof", "VerificationMethod")), id), true)}},
		{ID: "di-options", Why: "the data integrity proof is checked with the purpose, domain and challenge the caller expects", Fn: func(e *Exec, s *State) bool {
			if s.holds(jwtOK) || s.holds(cwtOK) || s.holds(ldOK) {
				return true
			}

			for _, f := range s.find(true, diOK.P) {
				ok := false

				f.walk(func(t *Term) bool {
					if Call("dataintegrity.Verifier).VerifyProof")(t) && len(t.Args) > 2 {
						o := t.Args[2]
						di := opt("verifyDataIntegrity")
						ok = true

						for _, n := range []string{"Domain", "Challenge"} {
							if v := getField(o, n); v == nil || !Fld(di, n)(v) {
								ok = false
							}
						}

						if v := getField(o, "Purpose"); v == nil || !Alts(Or(cur(Fld(di, "Purpose")), ConstStr("assertionMethod")))(v) {
							ok = false
						}
					}

					return true
				})

				if ok {
					return true
				}
			}

			return false
		}},
	}
}

func c09(c *Ctx) {
	opq := []string{"jwt.CheckProof", "cwt.CheckProof", "DocumentVerifier).VerifyObject", "dataintegrity.Verifier).VerifyProof"}
	c.gate(Gate{Name: "check", Entry: "verifiable.(*Credential).CheckProof", Opaque: opq, Reqs: credProofReqs(Param(0), func(n string) Pat { return Opt("verifiable.credentialOpts", n) })})

	// parsing: the same conditions for the credential a parser produced, unless the caller disabled proof checking
	opt := func(n string) Pat { return Opt("verifiable.credentialOpts", n) }
	disabled := True(opt("disabledProofCheck"))
	parsed := Res(Call("~Parser\\).Parse$"), 0)

	var reqs []GateReq
	for _, r := range credProofReqs(parsed, opt) {
		if r.Fn != nil {
			fn := r.Fn
			r.Fn = func(e *Exec, s *State) bool { return s.holds(disabled) || fn(e, s) }
		} else {
			r.Any = append(append([]Lit{}, r.Any...), disabled)
		}

		reqs = append(reqs, r)
	}

	reqs = append(reqs, GateReq{ID: "returned", Why: "the returned credential is the parsed one, parsed without error", Exit: func(e *Exec, x Exit) bool {
		return x.res[0].Op != "nil"
	}}, GateReq{ID: "parse-error", Why: "the parser reported no error", Any: []Lit{OK(Call("~Parser\\).Parse$"))}})

	c.gate(Gate{Name: "parse", Entry: "verifiable.ParseCredential", Opaque: append([]string{"~Parser\\).Parse$"}, opq...), NoHavoc: []string{"~Parser\\).Parse$"}, Anchors: append([]string{"go-cose.Headers).MarshalProtected"}, proofAnchors...), Reqs: reqs})

	// the parsed contents are those of the envelope whose proof is checked
	c.gate(Gate{Name: "json-parser", Entry: "verifiable.(*CredentialJSONParser).Parse", Anchors: []string{"jose.ParseJWS"}, Reqs: []GateReq{
		{ID: "same-token", Why: "the contents of a credential with a JWT envelope were decoded from that envelope's token", Exit: func(e *Exec, x Exit) bool {
			r := e.snap(x.st, x.res[0], 0)
			env, js := getField(r, "JWTEnvelope"), getField(r, "credentialJSON")

			if env == nil || js == nil {
				return false
			}

			if env.Op == "nil" {
				return true
			}

			tok := getField(env, "JWT")

			return tok != nil && Has(parsedJWS(is(tok)))(js)
		}},
		{ID: "contents", Why: "the returned contents were decoded without error from the returned JSON", Exit: sameContents},
	}})

	c.gate(Gate{Name: "cbor-parser", Entry: "verifiable.(*CredentialCBORParser).Parse", Anchors: []string{"cbor/v2.Unmarshal"}, Reqs: []GateReq{
		{ID: "same-message", Why: "the contents of a credential with a CWT envelope were decoded from that envelope's message", Exit: func(e *Exec, x Exit) bool {
			r := e.snap(x.st, x.res[0], 0)
			env, js := getField(r, "CWTEnvelope"), getField(r, "credentialJSON")

			if env == nil || js == nil {
				return false
			}

			msg := getField(env, "Sign1MessageParsed")
			if msg == nil {
				return false
			}

			return e.derives(x.st, js, Has(is(peel(msg))))
		}},
		{ID: "contents", Why: "the returned contents were decoded without error from the returned JSON", Exit: sameContents},
	}})
}

// sameContents: the credential's contents derive from its JSON form.
func sameContents(e *Exec, x Exit) bool {
	r := e.snap(x.st, x.res[0], 0)
	js, cc := getField(r, "credentialJSON"), getField(r, "credentialContents")

	return js != nil && cc != nil && Has(is(js))(cc)
}

// derives: the value, or what a map or slice built here was filled with, derives from p.
func (e *Exec) derives(s *State, t *Term, p Pat) bool {
	if Has(p)(t) {
		return true
	}

	parts := map[*Term]bool{t: true}

	t.walk(func(x *Term) bool {
		switch x.Op {
		case "call":
			return false
		case "makemap", "makeslice", "alloc":
			parts[x] = true
		}

		return true
	})

	for k, v := range s.mem {
		if k.Op == "filled" && parts[k.Args[0]] && v != nil && Has(p)(v) {
			return true
		}

		if (k.Op == "mapget" || k.Op == "elem") && parts[k.Args[0]] && (Has(p)(k.Args[1]) || (v != nil && Has(p)(v))) {
			return true
		}
	}

	return false
}

func c10(c *Ctx) {
	opt := func(n string) Pat { return Opt("verifiable.presentationOpts", n) }
	disabled := True(opt("disabledProofCheck"))
	data := Has(Param(0))
	chk := Has(opt("proofChecker"))
	jwtOK := OK(Call("jwt.CheckProof", data, chk, IsNilT))
	cwtOK := OK(Call("cwt.CheckProof", data, chk))
	ldOK := OK(Call("DocumentVerifier).VerifyObject", chk, data))
	diOK := OK(Call("dataintegrity.Verifier).VerifyProof", Has(Fld(opt("verifyDataIntegrity"), "Verifier")), data))

	raw := Has(ConstStr("verifiableCredential"))
	rawCreds := func(t *Term) bool {
		t = peel(t)
		return t.Op == "mapget" && ConstStr("verifiableCredential")(t.Args[1])
	}
	inner := func(el Pat) []Lit {
		return []Lit{OK(Call("verifiable.ParseCredential", el)), OK(Call("verifiable.ParseCredentialJSON", el))}
	}
	isCredParse := func(name string) bool {
		return nameMatch(name, "verifiable.ParseCredential") || nameMatch(name, "verifiable.ParseCredentialJSON")
	}

	c.gate(Gate{Name: "parse", Entry: "verifiable.ParsePresentation",
		Opaque:  []string{"jwt.CheckProof", "cwt.CheckProof", "DocumentVerifier).VerifyObject", "dataintegrity.Verifier).VerifyProof", "verifiable.ParseCredential", "verifiable.ParseCredentialJSON"},
		Anchors: append([]string{"verifiable.ParseCredential", "verifiable.ParseCredentialJSON"}, proofAnchors...),
		OnCall: func(e *Exec, fr *Frame, s *State, in ssa.CallInstruction, name string, args []*Term, res *Term) {
			if !isCredParse(name) || res == nil || len(res.Args) < 2 {
				return
			}

			fx, known := optEffects(e, s, res.Args[1])
			where := shortName(in.Parent()) + " at " + c.P.pos(in.Pos())
			checker, off := false, false

			for _, f := range fx {
				switch f.field {
				case "jwtProofChecker", "cwtProofChecker", "ldProofChecker":
					checker = checker || chk(f.val)
				case "disabledProofCheck":
					off = true

					c.oblige(s.holds(disabled) || opt("disabledProofCheck")(f.val) || f.val == e.boolT(false), "creds|disable",
						"a credential inside a presentation is parsed without proof check although the caller did not ask for that", where, nil)
				}
			}

			c.oblige(known, "creds|options", "the options under which a credential inside a presentation is parsed cannot be determined", where, nil)
			c.oblige(checker, "creds|checker", "a credential inside a presentation is parsed without the caller's proof checker", where, nil)
			c.oblige(off || !s.holds(disabled), "creds|choice", "a credential inside a presentation is proof checked although the caller disabled it", where, nil)
		},
		Reqs: []GateReq{
			{ID: "proof", Why: "the presentation's proof was checked under the caller's proof checker", Any: []Lit{disabled, jwtOK, cwtOK, ldOK, diOK}},
			{ID: "creds", Why: "every credential in it was parsed without error", Each: true, Over: raw,
				Any: append(inner(Has(LoopElem(raw))), append(inner(Has(rawCreds)), NilLit(rawCreds), Empty(raw))...)},
		}})
}

type optEffect struct {
	field string
	val   *Term
}

// optEffects are the members that a list of option functions (closures built here) sets, later ones last.
func optEffects(e *Exec, s *State, list *Term) (out []optEffect, known bool) {
	known = true

	var closure func(t *Term)
	closure = func(t *Term) {
		if t == nil || t.Op == "nil" {
			return
		}

		if (t.Op != "closure" && t.Op != "func") || t.Fn == nil || len(t.Fn.Params) == 0 {
			known = false
			return
		}

		for _, b := range t.Fn.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}

				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok || !rootsAtParam(fa) {
					continue
				}

				so := structOf(fa.X.Type())
				if so == nil {
					continue
				}

				out = append(out, optEffect{so.Field(fa.Field).Name(), captured(e, s, t, st.Val)})
			}
		}
	}

	var walk func(t *Term)
	walk = func(t *Term) {
		switch {
		case t == nil || t.Op == "nil":
		case t.Op == "append":
			for _, a := range t.Args {
				walk(a)
			}
		case t.Op == "slicelit":
			for _, a := range t.Args {
				closure(a)
			}
		case t.Op == "closure" || t.Op == "func":
			closure(t)
		case t.Op == "choice":
			for _, a := range t.Args {
				walk(a)
			}
		default:
			known = false
		}
	}

	walk(list)

	return out, known
}

// captured is what a value inside a closure body is, in terms of what the closure captured.
func captured(e *Exec, s *State, cl *Term, v ssa.Value) *Term {
	switch x := v.(type) {
	case *ssa.Const:
		return e.cnst(x)
	case *ssa.UnOp:
		if t := captured(e, s, cl, x.X); t != nil {
			if l := e.peek(s, t); l != nil {
				return l
			}

			return t
		}
	case *ssa.FreeVar:
		for i, f := range cl.Fn.FreeVars {
			if f == x && i < len(cl.Args) {
				return cl.Args[i]
			}
		}
	case *ssa.MakeInterface:
		return captured(e, s, cl, x.X)
	case *ssa.ChangeInterface:
		return captured(e, s, cl, x.X)
	}

	return e.in.mk(Term{Op: "unknown", Name: "captured"})
}
