package main

// Rules on proof/checker: C01, C02, C03.

func init() {
	register("C01", "must-pass dataflow: every success exit of the JWT proof checkers is preceded by key resolution for the expected issuer, algorithm and key agreement, and a nil error from a verifier selected for that key's type over the given signature and message", c01)
	register("C02", "must-pass dataflow: every success exit of the CWT proof checker is preceded by key resolution (or a COSE key when no issuer is expected), algorithm and key agreement, and signature verification over the given signature and message", c02)
	register("C03", "must-pass dataflow: every success exit of the linked-data proof checker is preceded by key resolution for the expected issuer, proof type and key agreement, and signature verification over the given signature and message", c03)
}

// find returns the terms of established conditions of the given polarity that match.
func (s *State) find(pos bool, p Pat) []*Term {
	var out []*Term

	for f, v := range s.facts {
		if v == pos && p(f) {
			out = append(out, f)
		}
	}

	sortTerms(out)

	return out
}

func (s *State) holds(l Lit) bool { return len(s.find(l.Pos, l.P)) > 0 }

// peel returns what a pointer snapshot refers to.
func peel(t *Term) *Term {
	for t.Op == "ref" {
		t = t.Args[0]
	}

	return t
}

// getField reads a field of a struct snapshot or access path.
func getField(t *Term, name string) *Term {
	t = peel(t)
	if t.Op == "struct" {
		if st := structOfVal(t.Typ); st != nil {
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i).Name() == name && i < len(t.Args) {
					return t.Args[i]
				}
			}
		}
	}

	return nil
}

func is(x *Term) Pat { return func(t *Term) bool { return t == x } }

// sigCheck describes one kind of proof check.
type sigCheck struct {
	vm       Pat // the verification method the key must come from
	sig, msg Pat
	algEq    func(desc Pat) Pat // the condition that selects a proof descriptor by the proof's algorithm
	ex       bool               // an extended verifier registered with the descriptor may check instead
}

// keyBound: the key handed to the verifier is built from the verification method, with the key type that the matched
// descriptor gives for it.
func keyBound(key *Term, vm Pat) bool {
	for _, k := range alts(key) {
		if !Has(vm)(k) {
			return false
		}

		typ := getField(k, "Type")
		if typ == nil {
			return false
		}

		ok := Fld(LoopElem(Call("SupportedVerificationMethods")), "KMSKeyType")(typ)
		if !ok {
			return false
		}
	}

	return true
}

func sigReqs(sc sigCheck) []GateReq {
	supElem := LoopElem(Call("SupportedVerificationMethods"))
	vmOrMade := func(name string) Pat {
		return func(t *Term) bool {
			return t.Op == "field" && t.Name == name && Has(sc.vm)(t.Args[0])
		}
	}
	// the JWK of the verification method: vm.JWK, or the JWK made from an explicit key
	jwkP := func(t *Term) bool { return Has(sc.vm)(t) && !Has(Call("Verify"))(t) }

	verified := func(e *Exec, s *State) bool {
		for _, f := range s.find(true, NilLit(ErrOf(Call("signatureVerifier).Verify"))).P) {
			call := f.Args[0]
			if call.Op == "res" {
				call = call.Args[0]
			}

			if len(call.Args) < 4 {
				continue
			}

			recv, sig, msg, key := call.Args[0], call.Args[1], call.Args[2], call.Args[3]
			if !sc.sig(sig) || !sc.msg(msg) || !keyBound(key, sc.vm) {
				continue
			}

			// the verifier was selected because it supports a key type of this very key
			for _, sel := range s.find(true, Call("signatureVerifier).SupportedKeyType", is(recv))) {
				kt := sel.Args[1]
				if Has(sc.vm)(kt) || Has(supElem)(kt) {
					return true
				}
			}
		}

		if !sc.ex {
			return false
		}

		for _, f := range s.find(true, NilLit(ErrOf(Call("signatureVerifierEx).Verify"))).P) {
			call := f.Args[0]
			if call.Op == "res" {
				call = call.Args[0]
			}

			if len(call.Args) >= 5 && sc.sig(call.Args[1]) && sc.msg(call.Args[2]) && keyBound(call.Args[3], sc.vm) &&
				call.Args[4] == e.proofParam && Has(LoopElem(FldOf("ProofCheckerBase", "supportedLDProofs")))(call.Args[0]) {
				return true
			}
		}

		return false
	}

	desc := func(e *Exec, s *State) bool {
		// the descriptor whose supported methods were consulted is the one selected by the algorithm
		for _, f := range s.find(true, sc.algEq(Any)) {
			var d *Term

			f.walk(func(t *Term) bool {
				if d == nil && t.Op == "call" && Or(Call("JWTAlgorithm"), Call("CWTAlgorithm"), Call("ProofType"))(t) {
					d = t.Args[0]
				}

				return true
			})

			if d == nil {
				continue
			}

			if s.holds(Eq(Fld(LoopElem(Call("SupportedVerificationMethods", is(d))), "VerificationMethodType"), Any)) {
				return true
			}
		}

		return false
	}

	return []GateReq{
		{ID: "signature-verified", Why: "the signature verifier selected for the key's type returned no error for the given signature, message and the key of the resolved verification method", Fn: verified},
		{ID: "descriptor-selected-by-algorithm", Why: "a registered proof type was selected by equality with the proof's own algorithm and its supported methods were consulted", Fn: desc},
		{ID: "vm-type-match", Why: "the verification method's type equals a supported one", Any: []Lit{
			Eq(Fld(supElem, "VerificationMethodType"), func(t *Term) bool {
				return vmOrMade("Type")(t) || ConstStr("JsonWebKey2020")(t)
			})}},
		{ID: "jwk-required", Why: "a method that requires a JWK has one", Any: []Lit{
			False(Fld(supElem, "RequireJWK")), NonNil(jwkP)}},
		{ID: "jwk-kty", Why: "the JWK's key type equals the supported one", Any: []Lit{
			Eq(Fld(supElem, "JWKKeyType"), vmOrMade("Kty")), NilLit(jwkP)}},
		{ID: "jwk-crv", Why: "the JWK's curve equals the supported one", Any: []Lit{
			Eq(Fld(supElem, "JWKCurve"), vmOrMade("Crv")), NilLit(jwkP)}},
	}
}

func c01(c *Ctx) {
	hdr := Param(1)
	alg := func(desc Pat) Pat {
		return eqPat(Call("JWTProofDescriptor).JWTAlgorithm", func(t *Term) bool {
			return Has(LoopElem(FldOf("ProofCheckerBase", "supportedJWTProofs")))(t)
		}), Res(Call("jose.Headers).Algorithm", hdr), 0))
	}
	resolved := Res(Call("ResolveVerificationMethod", nil, Res(Call("jose.Headers).KeyID", hdr), 0), Param(2)), 0)

	reqs := append(sigReqs(sigCheck{vm: resolved, sig: Param(4), msg: Param(3), algEq: alg}),
		GateReq{ID: "resolved", Why: "the key was resolved for the token's key id and the expected issuer without error", Any: []Lit{
			OK(Call("ResolveVerificationMethod", nil, Res(Call("jose.Headers).KeyID", hdr), 0), Param(2)))}},
		GateReq{ID: "alg-present", Why: "the token names an algorithm", Any: []Lit{
			True(Res(Call("jose.Headers).Algorithm", hdr), 1)), NonEmpty(Res(Call("jose.Headers).Algorithm", hdr), 0))}},
	)
	c.gate(Gate{Name: "jwt", Entry: "proof/checker.(*ProofChecker).CheckJWTProof", Reqs: reqs})

	reqs = append(sigReqs(sigCheck{vm: FldOf("EmbeddedVMProofChecker", "vm"), sig: Param(4), msg: Param(3), algEq: alg}),
		GateReq{ID: "alg-present", Why: "the token names an algorithm", Any: []Lit{
			True(Res(Call("jose.Headers).Algorithm", hdr), 1))}})
	c.gate(Gate{Name: "jwt-embedded", Entry: "proof/checker.(*EmbeddedVMProofChecker).CheckJWTProof", Reqs: reqs})
}

func c02(c *Ctx) {
	req := Param(1)
	alg := func(desc Pat) Pat {
		return eqPat(Call("JWTProofDescriptor).CWTAlgorithm", func(t *Term) bool {
			return Has(LoopElem(FldOf("ProofCheckerBase", "supportedCWTProofs")))(t)
		}), Fld(req, "Algo"))
	}
	byKid := Call("ResolveVerificationMethod", nil, Fld(req, "KeyID"), Param(2))
	resolved := Res(byKid, 0)
	// a COSE key decoded from the request's key material
	coseKey := func(t *Term) bool { return t.Op == "field" && t.Name == "KeyMaterial" && req(t.Args[0]) }
	vm := Or(resolved, coseKey)

	reqs := append(sigReqs(sigCheck{vm: vm, sig: Param(4), msg: Param(3), algEq: alg}),
		GateReq{ID: "resolved", Why: "the key was resolved for the message's key id and the expected issuer, or is an explicit COSE key with no expected issuer", Any: []Lit{
			OK(byKid), Empty(Param(2))}},
		GateReq{ID: "key-named", Why: "the message has a key id or a COSE key", Any: []Lit{
			NonEmpty(Fld(req, "KeyID")), NonEmpty(Fld(req, "KeyMaterial"))}},
		GateReq{ID: "kid-not-overridden", Why: "a message with a key id is checked under the key resolved for it", Any: []Lit{
			OK(byKid), Empty(Fld(req, "KeyID"))}},
		GateReq{ID: "alg-present", Why: "the message names an algorithm (zero is none)", Any: []Lit{
			Neq(Fld(req, "Algo"), ConstInt(0))}},
	)
	c.gate(Gate{Name: "cwt", Entry: "proof/checker.(*ProofChecker).CheckCWTProof", Reqs: reqs, Min: 2})
}

func c03(c *Ctx) {
	typ := func(desc Pat) Pat {
		return eqPat(Call("LDProofDescriptor).ProofType", func(t *Term) bool {
			return Has(LoopElem(FldOf("ProofCheckerBase", "supportedLDProofs")))(t)
		}), Fld(Param(1), "Type"))
	}
	// PublicKeyID() is inlined: its value derives from the proof
	fromProof := Has(Param(1))
	res := Call("ResolveVerificationMethod", nil, fromProof, Param(2))

	reqs := append(sigReqs(sigCheck{vm: Res(res, 0), sig: Param(4), msg: Param(3), algEq: typ, ex: true}),
		GateReq{ID: "resolved", Why: "the key was resolved for the proof's verification method and the expected issuer", Any: []Lit{OK(res)}},
	)
	c.gate(Gate{Name: "ld", Entry: "proof/checker.(*ProofChecker).CheckLDProof", Reqs: reqs, Min: 2})
}
