package main

func init() {
	register("C11", "must-pass dataflow over the document verifier: every success exit has a non-empty list of proofs obtained from this document, and for every element of it a successful check of the signature value of that proof over the verify data built from this document and that proof, for the expected issuer", c11)
}

func c11(c *Ctx) {
	opq := []string{"~proof\\.GetProofs$", "~proof\\.CreateVerifyData$", "ProofChecker).CheckLDProof", "~PublicKeyID$"}

	reqs := func(doc Pat) []GateReq {
		got := Call("proof.GetProofs", doc)
		proofs := Res(got, 0)
		el := LoopElem(proofs)
		data := Call("proof.CreateVerifyData", And(Has(el), Has(FldOf("lddocument.DocumentVerifier", "proofChecker"))), doc, el)

		check := func(iss Pat) Pat {
			return ErrOf(Call("ProofChecker).CheckLDProof", FldOf("lddocument.DocumentVerifier", "proofChecker"), el, iss, Res(data, 0), Has(el)))
		}
		given := Has(Param(2))

		return []GateReq{
			{ID: "proofs", Why: "the document's proofs were obtained without error", Any: []Lit{OK(got)}},
			{ID: "nonempty", Why: "the document has at least one proof", Any: []Lit{NonEmpty(proofs)}},
			{ID: "each-data", Why: "the data each proof signs was built without error from this document and that proof's options", Each: true, Over: proofs, Any: []Lit{OK(data)}},
			{ID: "each-proof", Why: "each proof's own signature was checked over that data", Each: true, Over: proofs, Any: []Lit{NilLit(check(Any))}},
			{ID: "each-issuer", Why: "each proof was checked for the issuer the caller expects", Each: true, Over: proofs, Fn: func(e *Exec, s *State) bool {
				if s.holds(NilLit(check(given))) {
					return true
				}

				return s.holds(NilLit(Param(2))) && s.holds(NilLit(check(Has(Call("~PublicKeyID$", el)))))
			}},
			{ID: "each-signature", Why: "each proof's own signature value is what is checked", Each: true, Over: proofs, Any: []Lit{
				NilLit(ErrOf(Call("ProofChecker).CheckLDProof", nil, el, nil, Res(data, 0), Or(
					Fld(Has(el), "ProofValue"), Res(Call("~GetJWTSignature$", Fld(Has(el), "JWS")), 0)))))}},
		}
	}

	c.gate(Gate{Name: "object", Entry: "verifiable/lddocument.(*DocumentVerifier).VerifyObject", Opaque: opq, Reqs: reqs(Param(1))})
	c.gate(Gate{Name: "bytes", Entry: "verifiable/lddocument.(*DocumentVerifier).Verify", Opaque: opq, Reqs: append(reqs(Any),
		GateReq{ID: "decoded", Why: "the verified document was decoded from the given bytes without error", Any: []Lit{OK(Call("encoding/json.Unmarshal", Param(1)))}})})

	// what is signed is canonicalised by the suite registered for the proof's own type
	sup := Has(Fld(Param(1), "Type"))
	c.gate(Gate{Name: "canonical", Entry: "proof/checker.(*ProofCheckerBase).GetLDPCanonicalDocument", Reqs: []GateReq{
		{ID: "type", Why: "the proof's type is a registered one", Any: []Lit{Eq(Fld(Param(1), "Type"), Has(Call("~ProofType$"))), {HasKey(Any, sup), true}, NonNil(sup)}},
		{ID: "document", Why: "the returned canonical form is that of the given document, made by the descriptor registered for the proof's type", Exit: func(e *Exec, x Exit) bool {
			return Res(Call("~GetCanonicalDocument$", nil, Param(2)), 0)(x.res[0])
		}},
	}})
	c.gate(Gate{Name: "digest", Entry: "proof/checker.(*ProofCheckerBase).GetLDPDigest", Reqs: []GateReq{
		{ID: "document", Why: "the returned digest is that of the given document, made by the descriptor registered for the proof's type", Exit: func(e *Exec, x Exit) bool {
			return Call("~GetDigest$", nil, Param(2))(x.res[0])
		}},
	}})
}
