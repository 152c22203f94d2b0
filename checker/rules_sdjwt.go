package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C15", "must-pass dataflow over SD-JWT verification: every success path has passed the signature check under the configured verifier, the algorithm allow-list, the time validation with the configured leeway, the type comparison and the duplicate check, all on the same token", c15)
	register("C16", "must-pass dataflow over disclosure processing: every acceptance of a disclosure is dominated by the digest, uniqueness, shape and name checks; all entry points that accept disclosures pass through it with the disclosures they use", c16)
	register("C17", "must-pass dataflow over holder-binding verification: every success path either has no binding (and none is required) or has verified the binding under the token's confirmation key, its algorithm, its times, nonce and audience", c17)
}

// member matches list membership: an element of the list equals v.
func member(list, v Pat) []Lit {
	return []Lit{
		Eq(v, LoopElem(list)),
		True(Call("~slices\\.Contains", list, v)),
		NotLess(Call("~slices\\.Index", list, v), ConstInt(0)),
	}
}

var sdOpaque = []string{"jwt.ParseAndCheckProof", "jwt.Parse", "jwt.CheckProof", "common.VerifyDisclosuresInSDJWT", "common.GetDisclosureClaims", "common.GetDisclosedClaims",
	"checker.NewEmbeddedJWKProofChecker"}

func sdSplit(p Pat) Pat { return Call("strings.Split", p, ConstStr("~")) }

// sdToken matches the issuer-signed part of a combined format.
func sdToken(p Pat) Pat {
	return And(Has(sdSplit(p)), func(t *Term) bool { return t.Op == "elem" && isConstInt(t.Args[1], 0) })
}

// timesOK: the registered time claims of a token were decoded and validated.
func timesOK(payload, leeway Pat) []GateReq {
	zeroOrNow := func(t *Term) bool {
		v := getField(t, "Time")
		if v == nil {
			return isZeroStruct(t)
		}

		return isZeroStruct(v) || Call("time.Now")(v)
	}

	return []GateReq{
		{ID: "times-decoded", Why: "the time claims were decoded from the token's payload without error", Any: []Lit{OK(Call("mapstructure.Decoder).Decode", nil, payload))}},
		{ID: "times", Why: "the not-before, issued-at and expiry times were validated against the current time with the configured leeway", Any: []Lit{
			OK(Call("jwt.Claims).ValidateWithLeeway", Has(Call("mapstructure.NewDecoder")), zeroOrNow, leeway))}},
	}
}

func isZeroStruct(t *Term) bool {
	switch t.Op {
	case "struct":
		for _, a := range t.Args {
			if !isZeroStruct(a) {
				return false
			}
		}

		return true
	case "zero", "nil":
		return true
	}

	if s, ok := constStr(t); ok {
		return s == ""
	}

	n, ok := constInt(t)

	return ok && n == 0
}

func algOK(prefix string, headers, allowed Pat) []GateReq {
	alg := Res(Call("jose.Headers).Algorithm", headers), 0)

	return []GateReq{
		{ID: prefix + "alg-present", Why: "the token names an algorithm", Any: []Lit{True(Res(Call("jose.Headers).Algorithm", headers), 1))}},
		{ID: prefix + "alg-none", Why: "the token's algorithm is not none", Any: []Lit{Neq(alg, ConstStr("none"))}},
		{ID: prefix + "alg-allowed", Why: "the token's algorithm is on the configured list", Any: member(allowed, alg)},
	}
}

func c15(c *Ctx) {
	opt := func(n string) Pat { return Opt("verifier.parseOpts", n) }
	checked := Call("jwt.ParseAndCheckProof", sdToken(Param(0)), opt("sigVerifier"), func(t *Term) bool { b, ok := constBool(t); return ok && b })
	tok := Res(checked, 0)
	disc := Has(sdSplit(Param(0)))
	h := Fld(tok, "Headers")

	reqs := []GateReq{
		{ID: "signature", Why: "the issuer-signed token was parsed and its proof checked under the configured signature verifier and its own issuer", Any: []Lit{OK(checked)}},
		{ID: "typ", Why: "the type header is the expected one when one is expected", Any: []Lit{
			Empty(opt("expectedTypHeader")), Eq(Res(Call("jose.Headers).Type", h), 0), opt("expectedTypHeader"))}},
		{ID: "unique", Why: "no disclosure is repeated", Each: true, Over: disc, Any: []Lit{False(HasKey(Any, LoopElem(disc)))}},
		{ID: "unique-kept", Why: "every disclosure is remembered by the duplicate check", Any: []Lit{Forall(disc, HasKey(Any, LoopElem(disc)), true)}},
	}
	reqs = append(reqs, algOK("", h, opt("issuerSigningAlgorithms"))...)
	reqs = append(reqs, timesOK(Fld(tok, "Payload"), opt("leewayForClaimsValidation"))...)
	c.gate(Gate{Name: "parse", Entry: "sdjwt/verifier.Parse", Opaque: sdOpaque, Reqs: reqs})

	// the holder's parser, with the stricter validation the caller may ask for
	opt = func(n string) Pat { return Opt("holder.parseOpts", n) }
	v5 := opt("sdjwtV5Validation")
	checked = Call("jwt.ParseAndCheckProof", sdToken(Param(0)), opt("sigVerifier"), func(t *Term) bool { b, ok := constBool(t); return ok && b })
	h = Fld(Res(checked, 0), "Headers")
	reqs = []GateReq{
		{ID: "signature", Why: "the issuer-signed token was parsed and its proof checked under the configured signature verifier and its own issuer", Any: []Lit{OK(checked)}},
		{ID: "typ", Why: "the type header is the expected one when one is expected", Any: []Lit{
			Empty(opt("expectedTypHeader")), Eq(Res(Call("jose.Headers).Type", h), 0), opt("expectedTypHeader")), False(v5)}},
	}

	for _, r := range append(algOK("", h, opt("issuerSigningAlgorithms")), timesOK(Fld(Res(checked, 0), "Payload"), opt("leewayForClaimsValidation"))...) {
		r.Any = append(r.Any, False(v5))
		reqs = append(reqs, r)
	}

	c.gate(Gate{Name: "holder", Entry: "sdjwt/holder.Parse", Opaque: sdOpaque, Reqs: reqs})
}

func c17(c *Ctx) {
	opt := func(n string) Pat { return Opt("verifier.parseOpts", n) }
	tok := Res(Call("jwt.ParseAndCheckProof", sdToken(Param(0))), 0)
	split := sdSplit(Param(0))
	hb := func(t *Term) bool {
		if t.Op != "elem" || !split(t.Args[0]) {
			return false
		}

		i := t.Args[1]

		return i.Op == "bin" && i.Name == "+" && isConstInt(i.Args[1], -1) && Len(split)(i.Args[0])
	}
	hbv := Alts(Or(hb, ConstStr("")))
	none := []Lit{Empty(hb), NotLess(ConstInt(1), Len(split)), Lit{func(t *Term) bool {
		return t.Op == "bin" && t.Name == "<" && Len(split)(t.Args[0]) && ConstInt(2)(t.Args[1])
	}, true}}
	btok := Res(Call("jwt.Parse", hbv), 0)
	cnf := func(t *Term) bool {
		return t.Op == "mapget" && ConstStr("cnf")(t.Args[1]) && sdPayloadOf(tok)(t.Args[0])
	}
	key := Has(Call("jwk.JWK).UnmarshalJSON", nil, Has(Call("encoding/json.Marshal", Has(MapGet(Has(cnf), ConstStr("jwk")))))))
	payload := Fld(btok, "Payload")
	bound := func(n string) Pat {
		return func(t *Term) bool {
			return t.Op == "field" && t.Name == n && Has(Call("mapstructure.NewDecoder"))(t)
		}
	}

	var reqs []GateReq
	add := func(id, why string, any ...Lit) {
		reqs = append(reqs, GateReq{ID: id, Why: why, Any: append(any, none...)})
	}

	reqs = append(reqs, GateReq{ID: "required", Why: "a binding is present when holder verification is required", Any: []Lit{False(opt("holderVerificationRequired")), NonEmpty(hbv)}})

	add("confirmation-key", "the issuer-signed token's confirmation claim holds a JWK that decoded", OK(Call("jwk.JWK).UnmarshalJSON", nil, Has(Call("encoding/json.Marshal", Has(MapGet(Has(cnf), ConstStr("jwk"))))))))
	add("jwk-present", "the confirmation claim names a JWK", True(HasKey(Has(cnf), ConstStr("jwk"))), NonNil(MapGet(Has(cnf), ConstStr("jwk"))))
	add("signature", "the binding's signature verified under the confirmation key", OK(Call("jwt.CheckProof", hbv, Has(Call("checker.NewEmbeddedJWKProofChecker", key)))))
	add("parsed", "the binding parsed as a JWT", OK(Call("jwt.Parse", hbv)))
	add("nonce", "the binding's nonce is the expected one", Empty(opt("expectedNonceForHolderVerification")), Eq(bound("Nonce"), opt("expectedNonceForHolderVerification")))
	add("audience", "the binding's audience is the expected one", Empty(opt("expectedAudienceForHolderVerification")), Eq(bound("Audience"), opt("expectedAudienceForHolderVerification")))

	for _, r := range append(algOK("", Fld(btok, "Headers"), opt("holderSigningAlgorithms")), timesOK(payload, opt("leewayForClaimsValidation"))...) {
		add(r.ID, "of the binding: "+r.Why, r.Any...)
	}

	c.gate(Gate{Name: "parse", Entry: "sdjwt/verifier.Parse", Opaque: sdOpaque, Reqs: reqs,
		OnInstr: func(e *Exec, fr *Frame, s *State, in ssa.Instruction) {
			if l, ok := in.(*ssa.Lookup); ok && ConstStr("cnf")(e.val(fr, s, l.Index)) {
				c.oblige(e.derives(s, e.val(fr, s, l.X), Fld(tok, "Payload")), "parse|confirmation-claim", "the confirmation claim is looked up in something else than the issuer-signed token's payload",
					shortName(fr.fn)+" at "+c.P.pos(in.Pos()), nil)
			}
		},
		OnCall: func(e *Exec, fr *Frame, s *State, in ssa.CallInstruction, name string, args []*Term, res *Term) {
			// the nonce and audience compared are decoded from the binding
			if !nameMatch(name, "mapstructure.Decoder).Decode") || res == nil || len(res.Args) < 2 {
				return
			}

			c.oblige(Alts(Or(payload, Fld(tok, "Payload")))(res.Args[1]), "parse|decoded", "claims are decoded from something that is neither the issuer-signed token's nor the binding's payload",
				shortName(in.Parent())+" at "+c.P.pos(in.Pos()), nil)
		}})
}

// sdPayloadOf matches the payload of a token or the credential in it, or a copy of one.
func sdPayloadOf(tok Pat) Pat {
	// a member of a copy is known by the copy only
	return Has(Or(Fld(tok, "Payload"), func(x *Term) bool { return x.Op == "mapget" && x.Args[0].Op == "makemap" }))
}

// sdAlgs are the hash algorithms that may be declared, by name and crypto.Hash value.
var sdAlgs = map[int64]string{5: "sha-256", 6: "sha-384", 7: "sha-512"}

// sdHash: the digest algorithm used is the declared one.
func sdHashOK(s *State, n int64) bool {
	alg := Has(func(t *Term) bool { return t.Op == "mapget" && ConstStr("_sd_alg")(t.Args[1]) })

	for _, f := range s.find(true, func(t *Term) bool { return eqPat(alg, Any)(t) }) {
		o := f.Args[1]
		if !Has(alg)(f.Args[0]) {
			o = f.Args[0]
		}

		if v, ok := constStr(o); ok && strings.EqualFold(v, sdAlgs[n]) {
			return true
		}

		if Call("crypto.Hash).String", ConstInt(n))(o) {
			return true
		}
	}

	return false
}

func c16(c *Ctx) {
	rec := c.claimWalker()
	if rec == nil {
		c.Obligations++
		c.fail("walker", "the function that resolves digests of a claim value is not found", "sdjwt/common", nil)

		return
	}

	recName := shortName(rec)
	ds := Param(0)
	d := LoopElem(ds)
	dec := Call("~base64\\.Encoding\\)\\.DecodeString$", func(t *Term) bool {
		return Has(func(x *Term) bool { return x.Op == "global" && strings.Contains(x.Name, "RawURLEncoding") })(t) || strings.Contains(t.String(), "RawURLEncoding")
	}, d)
	arr := func(t *Term) bool { return t.Op == "mut" && Has(Call("encoding/json.Unmarshal", Has(Res(dec, 0))))(t) }
	at := func(i int64) Pat {
		return func(t *Term) bool { return t.Op == "elem" && arr(t.Args[0]) && ConstInt(i)(t.Args[1]) }
	}
	digest := func(t *Term) bool {
		return Call("~base64\\.Encoding\\)\\.EncodeToString$", nil, Call("hash.Hash).Sum", Call("crypto.Hash).New"), nil, d))(t)
	}
	table := func(t *Term) bool { return t.Op == "makemap" || t.Op == "maplit" && t.Args[0].Op == "makemap" }
	walked := Call(recName, Has(Fld(Param(1), "Payload")), func(t *Term) bool {
		v := getField(peel(t), "disclosures")
		return v != nil && table(v)
	})

	each := func(id, why string, any ...Lit) GateReq {
		return GateReq{ID: id, Why: why, Each: true, Over: ds, Any: any}
	}

	c.gate(Gate{Name: "verify", Entry: "sdjwt/common.VerifyDisclosuresInSDJWT", Opaque: []string{recName},
		OnInstr: func(e *Exec, fr *Frame, s *State, in ssa.Instruction) {
			st, ok := in.(*ssa.Store)
			if !ok {
				return
			}

			fa, ok := st.Addr.(*ssa.FieldAddr)
			if !ok || !typeIs(&Term{Typ: fa.X.Type()}, "common.DisclosureClaim") {
				return
			}

			v := e.val(fr, s, st.Val)
			where := shortName(in.Parent()) + " at " + c.P.pos(in.Pos())
			ln := func(i int64) bool { return s.holds(Eq(Len(arr), ConstInt(i))) }

			switch structOf(fa.X.Type()).Field(fa.Field).Name() {
			case "Digest":
				c.oblige(digest(v), "verify|digest", "a disclosure's digest is not the hash of the disclosure itself", where, e.traceString(s, 30))
				v.walk(func(x *Term) bool {
					if Call("crypto.Hash).New")(x) {
						n, ok := constInt(x.Args[0])
						c.oblige(ok && sdAlgs[n] != "" && sdHashOK(s, n), "verify|hash", "disclosures are hashed with an algorithm that is not the declared, supported one", where, e.traceString(s, 30))
					}

					return true
				})
			case "Name":
				c.oblige(Has(at(1))(v) && ln(3) || v == e.strT(""), "verify|name", "a disclosure's claim name is not the second of its three elements", where, e.traceString(s, 30))
			case "Value":
				c.oblige((at(2)(v) && ln(3)) || (at(1)(v) && ln(2)) || v.Op == "nil", "verify|value", "a disclosure's value is not its last element", where, e.traceString(s, 30))
			case "Elements":
				c.oblige(Len(arr)(v), "verify|elements", "a disclosure's number of elements is not that of its array", where, nil)
			case "IsValueParsed":
				b, ok := constBool(v)
				c.oblige(ok && !b, "verify|parsed-flag", "a disclosure is marked as found before its digest was", where, nil)
			}
		},
		Reqs: []GateReq{
			{ID: "walk", Why: "the digests of the token's whole payload were resolved without error", Any: []Lit{OK(walked)}},
			each("decoded", "each disclosure is base64url", OK(dec)),
			each("array", "each disclosure is a JSON array", OK(Call("encoding/json.Unmarshal", Has(Res(dec, 0))))),
			each("size", "each disclosure has at least two elements", NotLess(Len(arr), ConstInt(2)), Eq(Len(arr), ConstInt(2)), Eq(Len(arr), ConstInt(3))),
			each("salt", "each disclosure's salt is a string", True(func(t *Term) bool { return t.Op == "istype" && t.Name == "string" && at(0)(t.Args[0]) })),
			each("name", "the claim name of each disclosure is a string", Eq(Len(arr), ConstInt(2)), Neq(Len(arr), ConstInt(3)), True(func(t *Term) bool { return t.Op == "istype" && t.Name == "string" && at(1)(t.Args[0]) })),
			each("name-reserved", "no disclosure is named like the member that holds digests", Eq(Len(arr), ConstInt(2)), Neq(Len(arr), ConstInt(3)), Neq(Has(at(1)), ConstStr("_sd"))),
			{ID: "recorded", Why: "each disclosure was recorded under its digest", Any: []Lit{Forall(ds, HasKey(table, digest), true)}},
			{ID: "found", Why: "the digest of each disclosure was found in the token or in another accepted disclosure", Any: []Lit{
				Forall(table, func(t *Term) bool { return t.Op == "field" && t.Name == "IsValueParsed" }, true)}},
			{ID: "hash", Why: "the declared hash algorithm is a supported one", Fn: func(e *Exec, s *State) bool {
				for n := range sdAlgs {
					if sdHashOK(s, n) {
						return true
					}
				}

				return false
			}},
		}})

	c.walkerRules(rec)
	c.sdUsers()
	c.sdCredential()
}

// claimWalker is the function that resolves the digests in a claim value: it recurses and looks up array digests.
func (c *Ctx) claimWalker() *ssa.Function {
	if f := c.P.Fn("sdjwt/common.discloseClaimValue"); f != nil && f.Blocks != nil {
		return f
	}

	return nil
}

func (c *Ctx) walkerRules(rec *ssa.Function) {
	claim := Has(Param(0))
	arrDigest := Has(func(t *Term) bool { return t.Op == "mapget" && ConstStr("...")(t.Args[1]) && claim(t.Args[0]) })
	objDigest := Has(func(t *Term) bool {
		return (t.Op == "mapget" && ConstStr("_sd")(t.Args[1]) && claim(t.Args[0])) || t.Op == "makeslice"
	})
	seen := func(t *Term) bool { return FldOf("common.recursiveData", "nestedSD")(t) || t.Op == "loopvar" }
	sets := 0

	c.gateFn(Gate{Name: "resolve", Entry: shortName(rec),
		OnInstr: func(e *Exec, fr *Frame, s *State, in ssa.Instruction) {
			where := shortName(in.Parent()) + " at " + c.P.pos(in.Pos())

			switch x := in.(type) {
			case *ssa.MapUpdate:
				m, k := e.val(fr, s, x.Map), e.val(fr, s, x.Key)
				if m.Op != "makemap" || ConstStr("_sd")(k) || !(Has(Param(0))(k) || Has(FldOf("common.DisclosureClaim", "Name"))(k) || Has(func(t *Term) bool { return t.Op == "key" })(k)) {
					return
				}

				c.oblige(s.holds(False(HasKey(is(m), is(k)))), "resolve|overwrite", "a claim may be overwritten by another of the same name at the same level", where, e.traceString(s, 30))
			case *ssa.Store:
				fa, ok := x.Addr.(*ssa.FieldAddr)
				if !ok || !typeIs(&Term{Typ: fa.X.Type()}, "common.DisclosureClaim") || structOf(fa.X.Type()).Field(fa.Field).Name() != "IsValueParsed" {
					return
				}

				base := e.val(fr, s, fa.X)
				if base.Op != "mapget" {
					c.oblige(false, "resolve|accepted", "a disclosure is accepted that was not looked up by its digest", where, e.traceString(s, 30))
					return
				}

				sets++

				d := base.Args[1]
				c.oblige(arrDigest(d) || objDigest(d), "resolve|digest-source", "a disclosure is accepted under a digest that is not one of the claim's", where, nil)
				c.oblige(s.holds(True(HasKey(is(base.Args[0]), is(d)))), "resolve|known", "a disclosure is accepted that was not supplied", where, nil)

				once := s.holds(Lit{func(t *Term) bool {
					return t.Op == "forall" && seen(t.Args[0]) && eqPat(is(d), LoopElem(seen))(t.Args[1])
				}, false}) || s.holds(False(Call("~slices\\.Contains", seen, is(d)))) || s.holds(False(HasKey(seen, is(d))))
				c.oblige(once, "resolve|once", "a digest may occur more than once", where, e.traceString(s, 30))

				rec := false

				for k, v := range s.mem {
					if k.Op == "field" && k.Name == "nestedSD" && v != nil && Has(is(d))(v) {
						rec = true
					}
				}

				c.oblige(rec || s.holds(True(HasKey(seen, is(d)))), "resolve|remembered", "an accepted digest is not remembered, so it could be accepted again", where, nil)

				want := int64(3)
				if arrDigest(d) {
					want = 2
				}

				c.oblige(s.holds(Eq(Fld(is(base), "Elements"), ConstInt(want))), "resolve|shape", "a disclosure of the wrong shape for the place of its digest may be accepted", where, e.traceString(s, 30))
			}
		}}, rec)

	c.oblige(sets > 0, "resolve|sites", "no place accepts disclosures", funcName(rec), nil)
}

// sdUsers: every entry point that accepts disclosures verifies the very disclosures it uses against the token.
func (c *Ctx) sdUsers() {
	for _, u := range []struct{ name, entry string }{{"verifier", "sdjwt/verifier.Parse"}, {"holder", "sdjwt/holder.Parse"}} {
		split := Has(sdSplit(Param(0)))
		tok := Res(Call("jwt.ParseAndCheckProof", sdToken(Param(0))), 0)
		verified := func(ds Pat) Lit { return OK(Call("common.VerifyDisclosuresInSDJWT", ds, tok)) }

		c.gate(Gate{Name: u.name, Entry: u.entry, Opaque: sdOpaque, Reqs: []GateReq{
			{ID: "verified", Why: "the disclosures were verified against the issuer-signed token", Any: []Lit{verified(split)}},
			{ID: "used", Why: "the disclosures used are those that were verified, with the declared hash algorithm", Fn: func(e *Exec, s *State) bool {
				for _, f := range s.find(true, NilLit(ErrOf(Call("common.GetDisclosureClaims", split))).P) {
					ok := false

					f.walk(func(x *Term) bool {
						if Call("common.GetDisclosureClaims", split)(x) {
							n, isN := constInt(x.Args[1])
							if s.holds(verified(is(x.Args[0]))) && isN && sdHashOK(s, n) {
								ok = true
							}
						}

						return true
					})

					if ok {
						return true
					}
				}

				return false
			}},
		}})
	}
}

// sdCredential: the disclosures of a parsed credential were verified against the token they came with.
func (c *Ctx) sdCredential() {
	c.gate(Gate{Name: "credential", Entry: "verifiable.(*CredentialJSONParser).Parse", Anchors: []string{"common.VerifyDisclosuresInSDJWT", "common.GetDisclosureClaims", "jose.ParseJWS"},
		Opaque: sdOpaque, Split: []Lit{OK(Call("common.VerifyDisclosuresInSDJWT")), Empty(And(func(t *Term) bool { return typeName(t.Typ) == "[]string" }, Has(Call("strings.Split"))))}, Reqs: []GateReq{
			{ID: "disclosures", Why: "the disclosures of the returned credential were verified against the token it was decoded from", Exit: func(e *Exec, x Exit) bool {
				env := getField(e.snap(x.st, x.res[0], 0), "JWTEnvelope")
				if env == nil || env.Op == "nil" {
					return true
				}

				ds := getField(peel(env), "SDJWTDisclosures")
				if ds == nil {
					return false
				}

				for _, a := range alts(ds) {
					if a.Op == "nil" {
						continue
					}

					ok := false

					a.walk(func(t *Term) bool {
						if Call("common.GetDisclosureClaims")(t) {
							list := t.Args[0]
							ok = x.st.holds(OK(Call("common.VerifyDisclosuresInSDJWT", is(list)))) || x.st.holds(Empty(is(list)))
						}

						return true
					})

					if !ok {
						return false
					}
				}

				return true
			}},
		}})
}
