package main

func init() {
	register("C06", "must-pass dataflow over the DID-based key resolver: every returned key is the element of the resolved document whose identifier equals the requested one, with a relationship other than key agreement", c06)
	register("C07", "must-pass dataflow over the JWT entry points, with the third-party JWS parser modelled as calling the verifier it is given: header checks, issuer presence and the proof check of the same token on every success exit", c07)
	register("C08", "must-pass dataflow over the CWT entry points: decode, signing input, issuer binding and proof check of the same message on every success exit", c08)
}

func c06(c *Ctx) {
	resolve := Call("didResolver).Resolve", nil, Param(2))
	elem := func(t *Term) bool {
		return t.Op == "elem" && Has(Call("did.Doc).VerificationMethods", Has(resolve)))(t)
	}
	vmOf := Or(elem, Fld(elem, "VerificationMethod"))

	c.gate(Gate{Name: "vdr", Entry: "vermethod.(*VDRResolver).ResolveVerificationMethod", Reqs: []GateReq{
		{ID: "resolved", Why: "the DID document of the expected key controller was resolved without error", Any: []Lit{OK(resolve)}},
		{ID: "id", Why: "the returned method's identifier equals the requested one", Any: []Lit{Eq(Fld(vmOf, "ID"), Param(1))}},
		{ID: "not-key-agreement", Why: "the method is not a key-agreement one", Any: []Lit{Neq(Fld(elem, "Relationship"), ConstInt(5))}},
		{ID: "same-method", Why: "the returned type, value and JWK all belong to the method whose identifier and relationship were checked", Exit: func(e *Exec, x Exit) bool {
			r := peel(e.snap(x.st, x.res[0], 0))
			if r.Op != "struct" {
				return false
			}

			var el *Term

			for _, f := range x.st.find(true, eqPat(Fld(vmOf, "ID"), Param(1))) {
				f.walk(func(t *Term) bool {
					if el == nil && elem(t) {
						el = t
					}

					return true
				})
			}

			typ, val, jwk := getField(r, "Type"), getField(r, "Value"), getField(r, "JWK")

			return el != nil && typ != nil && val != nil && jwk != nil &&
				Fld(Has(is(el)), "Type")(typ) && Fld(Has(is(el)), "Value")(val) && Call("VerificationMethod).JSONWebKey", Has(is(el)))(jwk)
		}},
	}})
}

// parsedJWS matches the JWS parsed from a serialised token.
func parsedJWS(tok Pat) Pat { return Call("jose.ParseJWS", tok) }

func jwsHeaders(tok Pat) Pat { return Fld(Res(parsedJWS(tok), 0), "ProtectedHeaders") }
func jwsPayload(tok Pat) Pat { return Fld(Res(parsedJWS(tok), 0), "Payload") }

// jwtProofChecked: the checker accepted the headers, signing input and signature of this very token.
func jwtProofChecked(chk, tok, iss Pat) Pat {
	return Call("jwt.ProofChecker).CheckJWTProof", chk, jwsHeaders(tok), iss,
		Call("jws.signingInput", parsedJWS(tok)), Call("jws.signature", parsedJWS(tok)))
}

func headerReqs(h Pat) []GateReq {
	typ := MapGet(h, ConstStr("typ"))
	cty := MapGet(h, ConstStr("cty"))

	return []GateReq{
		{ID: "alg", Why: "the header names an algorithm", Any: []Lit{True(HasKey(h, ConstStr("alg"))), NonNil(MapGet(h, ConstStr("alg")))}},
		{ID: "typ", Why: "a declared type is JWT or an explicit +JWT/+SD-JWT type", Any: []Lit{
			False(HasKey(h, ConstStr("typ"))), Eq(Has(typ), ConstStr("JWT")), Eq(Has(typ), ConstStr("SD-JWT"))}},
		{ID: "typ-string", Why: "a declared type is a string", Any: []Lit{
			False(HasKey(h, ConstStr("typ"))), True(func(t *Term) bool { return t.Op == "istype" && typ(t.Args[0]) })}},
		{ID: "nested", Why: "the token does not declare a nested JWT", Any: []Lit{False(HasKey(h, ConstStr("cty"))), Neq(cty, ConstStr("JWT"))}},
	}
}

func kidIssuer(h Pat) Pat { return Has(Res(Call("jose.Headers).KeyID", h), 0)) }

func c07(c *Ctx) {
	c.gate(Gate{Name: "headers", Entry: "jwt.CheckHeaders", Reqs: headerReqs(Param(0))})

	tok := Param(0)
	parseReqs := append(headerReqs(jwsHeaders(tok)),
		GateReq{ID: "parsed", Why: "the token parsed as a JWS", Any: []Lit{OK(parsedJWS(tok))}},
		GateReq{ID: "compact", Why: "the token is a compact JWS", Any: []Lit{True(Call("jose.IsCompactJWS", tok))}},
	)
	returned := GateReq{ID: "returned", Why: "the returned headers and payload are those of this token", Exit: func(e *Exec, x Exit) bool {
		r := e.snap(x.st, x.res[0], 0)
		h := getField(r, "Headers")

		return h != nil && jwsHeaders(tok)(h) && jwsPayload(tok)(x.res[1])
	}}
	claims := GateReq{ID: "claims", Why: "the returned claims were decoded from this token's payload without error (unless the caller declined the decoding)", Exit: func(e *Exec, x Exit) bool {
		p := getField(e.snap(x.st, x.res[0], 0), "Payload")
		if p == nil {
			return false
		}

		for _, a := range alts(p) {
			if a.Op == "nil" {
				continue
			}

			if !Has(jwsPayload(tok))(a) {
				return false
			}
		}

		return true
	}}

	c.gate(Gate{Name: "parse", Entry: "jwt.Parse", Reqs: append(append([]GateReq{}, parseReqs...), returned, claims)})

	iss := And(Call("gjson.Result).String"), Has(Call("gjson.Result).Get", Has(jwsPayload(tok)), ConstStr("iss"))))
	detached := GateReq{ID: "detached", Why: "a detached payload, when given, is the one the proof is checked over", Fn: func(e *Exec, s *State) bool {
		for _, f := range s.find(true, NilLit(ErrOf(jwtProofChecked(Any, tok, Any))).P) {
			if Has(Call("jose.WithJWSDetachedPayload"))(f) {
				return true
			}
		}

		if !s.holds(OK(jwtProofChecked(Any, tok, Any))) {
			return false
		}

		return s.holds(NilLit(func(t *Term) bool { return typeName(t.Typ) == "[]byte" }))
	}}

	c.gate(Gate{Name: "parse-and-check", Entry: "jwt.ParseAndCheckProof", Reqs: append(append([]GateReq{}, parseReqs...), returned, claims, detached,
		GateReq{ID: "proof", Why: "the given proof checker accepted this token's headers, signing input and signature", Any: []Lit{OK(jwtProofChecked(Param(1), tok, nil))}},
		GateReq{ID: "issuer-present", Why: "an issuer claim is present when the proof must be bound to it", Any: []Lit{
			False(Param(2)), True(Call("gjson.Result).Exists", Has(Call("gjson.Result).Get", Has(jwsPayload(tok)), ConstStr("iss")))))}},
		GateReq{ID: "issuer-bound", Why: "the proof was checked for the token's own issuer when the caller asks for it", Any: []Lit{
			False(Param(2)), OK(jwtProofChecked(Param(1), tok, iss))}},
		GateReq{ID: "kid-bound", Why: "without an issuer check the proof was checked for the DID of the token's key id", Any: []Lit{
			True(Param(2)), OK(jwtProofChecked(Param(1), tok, kidIssuer(jwsHeaders(tok))))}},
	)})

	expected := Param(2)
	deref := func(t *Term) bool { return t.Op == "deref" && expected(t.Args[0]) }
	c.gate(Gate{Name: "check", Entry: "jwt.CheckProof", Reqs: []GateReq{
		{ID: "proof", Why: "the given proof checker accepted this token's headers, signing input and signature", Any: []Lit{OK(jwtProofChecked(Param(1), tok, nil))}},
		{ID: "issuer-bound", Why: "the proof was checked for the expected issuer, or for the DID of the key id when none is given", Any: []Lit{
			OK(jwtProofChecked(Param(1), tok, Or(deref, expected, Has(expected)))),
			OK(jwtProofChecked(Param(1), tok, kidIssuer(jwsHeaders(tok))))}},
		{ID: "expected-not-overridden", Why: "an expected issuer is never replaced by the token's key id", Any: []Lit{
			NilLit(expected), OK(jwtProofChecked(Param(1), tok, Or(deref, expected, Has(expected))))}},
		{ID: "kid-required", Why: "without an expected issuer the token names a key id", Any: []Lit{
			NonNil(expected), True(Res(Call("jose.Headers).KeyID", jwsHeaders(tok)), 1))}},
		{ID: "detached", Why: "a detached payload, when given, is the one the proof is checked over", Fn: func(e *Exec, s *State) bool {
			if s.holds(NilLit(Param(3))) {
				return true
			}

			for _, f := range s.find(true, NilLit(ErrOf(jwtProofChecked(Any, tok, Any))).P) {
				if Has(Call("jose.WithJWSDetachedPayload", Param(3)))(f) {
					return true
				}
			}

			return false
		}},
	}})
}

// cwtProofChecked: the checker accepted the algorithm and key references of the message, its signing input and signature.
func cwtProofChecked(chk, msg, iss, input, sig Pat) Pat {
	fromMsg := func(t *Term) bool { return Has(msg)(t) || isConst(t) }

	return func(t *Term) bool {
		if !Call("cwt.ProofChecker).CheckCWTProof", chk, nil, iss, input, sig)(t) || len(t.Args) < 5 {
			return false
		}

		req := t.Args[1]
		for _, n := range []string{"KeyID", "KeyMaterial"} {
			f := getField(req, n)
			if f == nil || !Alts(fromMsg)(f) {
				return false
			}
		}

		kid, km := getField(req, "KeyID"), getField(req, "KeyMaterial")
		isKid := Has(func(t *Term) bool { return t.Op == "mapget" && ConstInt(4)(t.Args[1]) })
		if !Alts(Or(isKid, ConstStr("")))(kid) || !Has(MapGet(Any, ConstStr("COSE_Key")))(km) {
			return false
		}

		a := getField(req, "Algo")

		return a != nil && Res(Call("go-cose.ProtectedHeader).Algorithm", Has(msg)), 0)(a)
	}
}

func c08(c *Ctx) {
	decode := Call("go-cose.Sign1Message).UnmarshalCBOR", nil, Param(0))
	msg := Or(decode, func(t *Term) bool { return t.Op == "mut" && Has(decode)(t) })
	hasMsg := Has(msg)
	input := And(hasMsg, Has(Call("go-cose.Headers).MarshalProtected")), Has(ConstStr("Signature1")), Has(Fld(hasMsg, "Payload")))
	sig := Fld(hasMsg, "Signature")
	iss := func(t *Term) bool {
		return t.Op == "assert" && Has(func(x *Term) bool {
			return x.Op == "mapget" && ConstInt(1)(x.Args[1]) && Has(Call("cbor/v2.Unmarshal", Fld(hasMsg, "Payload")))(x.Args[0])
		})(t)
	}

	c.gate(Gate{Name: "parse-and-check", Entry: "cwt.ParseAndCheckProof", Max: 0, Reqs: []GateReq{
		{ID: "decoded", Why: "the input decoded as a COSE Sign1 message", Any: []Lit{OK(decode)}},
		{ID: "alg", Why: "the message's protected algorithm was read without error", Any: []Lit{OK(Call("go-cose.ProtectedHeader).Algorithm", hasMsg))}},
		{ID: "proof", Why: "the given proof checker accepted the message's key references, its signing input and its signature", Any: []Lit{
			OK(cwtProofChecked(Param(1), msg, nil, input, sig))}},
		{ID: "issuer-bound", Why: "the proof was checked for the message's own issuer when the caller asks for it", Any: []Lit{
			False(Param(2)), OK(cwtProofChecked(Param(1), msg, Alts(Or(Has(iss), kidOf(msg))), input, sig))}},
		{ID: "issuer-present", Why: "an issuer claim that is a string is present when the proof must be bound to it", Any: []Lit{
			False(Param(2)), True(func(t *Term) bool {
				return t.Op == "istype" && t.Name == "string" && Has(Call("cbor/v2.Unmarshal", Fld(hasMsg, "Payload")))(t.Args[0])
			})}},
		{ID: "claims-decoded", Why: "the payload was decoded without error when the issuer is taken from it", Any: []Lit{
			False(Param(2)), OK(Call("cbor/v2.Unmarshal", Fld(hasMsg, "Payload")))}},
		{ID: "input-built", Why: "the signing input was built without error", Any: []Lit{OK(Call("cbor/v2.Marshal", Has(ConstStr("Signature1"))))}},
		{ID: "returned", Why: "the returned message and payload are the checked ones", Exit: func(e *Exec, x Exit) bool {
			return Has(Or(decode, is(x.res[0])))(x.res[1]) && Fld(Any, "Payload")(x.res[1])
		}},
	}})

	m := Param(0)
	c.gate(Gate{Name: "check", Entry: "cwt.CheckProof", Reqs: []GateReq{
		{ID: "proof", Why: "the given proof checker accepted the message's key references with the given signing input and signature", Any: []Lit{
			OK(cwtProofChecked(Param(1), m, nil, Param(3), Param(4)))}},
		{ID: "alg", Why: "the message's protected algorithm was read without error", Any: []Lit{OK(Call("go-cose.ProtectedHeader).Algorithm", Has(m)))}},
		{ID: "kid-kept", Why: "a key id in the message is the one the proof is checked under", Any: []Lit{
			Empty(kidOf(m)), OK(Call("cwt.ProofChecker).CheckCWTProof", nil, func(t *Term) bool {
				k := getField(t, "KeyID")
				return k != nil && kidOf(m)(k)
			}))}},
		{ID: "issuer-bound", Why: "an expected issuer is the one the proof is checked for", Any: []Lit{
			NilLit(Param(2)), OK(cwtProofChecked(Param(1), m, Has(Param(2)), Param(3), Param(4))),
			Empty(Has(Param(2)))}},
	}})
}

func kidOf(msg Pat) Pat {
	return Has(func(t *Term) bool { return t.Op == "mapget" && ConstInt(4)(t.Args[1]) && Has(msg)(t.Args[0]) })
}
