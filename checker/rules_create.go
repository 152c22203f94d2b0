package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C34", "provenance and must-pass dataflow over everything that creates a JWT, COSE or linked-data envelope: what was signed, with which parameters, is what is emitted, and every member asked for is in the signed part", c34)
}

func c34(c *Ctx) {
	c.createLD()
	c.createJWT()
	c.createCWT()
	c.proofCreator()
}

const ldSign = `~^\(\*verifiable/lddocument\.DocumentSigner\)\.Sign$`

// createLD: linked-data proofs.
func (c *Ctx) createLD() {
	ctx := func(n string) Pat { return FldOf("lddocument.SigningContext", n) }
	data := Call("~ld/proof.CreateVerifyData$")
	sign := Call("~SignLinkedDocument$")
	add := Call("~ld/proof.AddProof$", Param(2))

	// member of the proof -> member of the context
	members := [][2]string{{"Type", "SignatureType"}, {"SignatureRepresentation", "SignatureRepresentation"}, {"Created", "Created"}, {"Domain", "Domain"},
		{"Nonce", "Nonce"}, {"VerificationMethod", "VerificationMethod"}, {"Challenge", "Challenge"}, {"ProofPurpose", "Purpose"}, {"CapabilityChain", "CapabilityChain"}, {"Creator", "Creator"}}

	rep := ctx("SignatureRepresentation")
	reqs := []GateReq{
		{ID: "type", Why: "a proof type was given", Any: []Lit{NonEmpty(ctx("SignatureType"))}},
		{ID: "data", Why: "the data to be signed was made without error", Any: []Lit{OK(data)}},
		{ID: "signed", Why: "exactly that data was signed for the requested key type, without error", Any: []Lit{OK(Call("~SignLinkedDocument$", Any, Any, ctx("KeyType"), Res(data, 0)))}},
		{ID: "added", Why: "the proof was added to the document without error", Any: []Lit{OK(add)}},
		{ID: "jws-alg", Why: "the JWS header names the algorithm of the key", Any: []Lit{Neq(rep, ConstInt(1)), OK(Call("~LDPJWTAlg$", Any, Any, ctx("KeyType")))}},
	}

	// errors that a helper of the signer remembers
	var latched []string

	for typ, fields := range c.P.latches("verifiable/lddocument") {
		for _, f := range fields {
			latched = append(latched, f)
			reqs = append(reqs, GateReq{ID: "remembered-" + f, Why: "no error was remembered in " + f + " of " + typ + " while the data was made", Any: []Lit{NilLit(func(t *Term) bool {
				return t.Op == "mut" && t.Args[1].Op == "field" && t.Args[1].Name == f
			})}})
		}
	}

	signed := map[string]map[*Term]bool{} // what a member was when the verify data was made
	emitted := 0

	c.gate(Gate{Name: "ld", Entry: "verifiable/lddocument.(*DocumentSigner).Sign",
		NoHavoc: []string{"~ld/proof.CreateVerifyData$", "~SignLinkedDocument$", "~LDPJWTAlg$", "~ld/proof.AddProof$"},
		OnCall: func(e *Exec, fr *Frame, s *State, in ssa.CallInstruction, cn string, args []*Term, res *Term) {
			where := shortName(in.Parent()) + " at " + c.P.pos(in.Pos())

			switch {
			case nameMatch(cn, "~ld/proof.CreateVerifyData$") && len(args) > 2:
				c.oblige(Param(2)(args[1]), "ld|document", "the data to be signed is not made from the document the proof is added to", where, nil)

				for _, f := range latched {
					e.unknown(s, args[0], f, res)
				}

				p := e.snap(s, args[2], 0)

				for _, m := range members {
					v := getFieldOr(p, m[0])
					ok := Has(ctx(m[1]))(v)

					switch m[0] {
					case "Created": // or the current time, when none was asked for
						ok = ok || s.holds(NilLit(ctx("Created")))
					case "ProofPurpose":
						ok = ok || s.holds(Empty(ctx("Purpose"))) && !ConstStr("")(v)
					}

					c.oblige(ok, "ld|member|"+m[0], "the proof's "+m[0]+" is not the "+m[1]+" that was asked for", where, e.traceString(s, 20))

					if signed[m[0]] == nil {
						signed[m[0]] = map[*Term]bool{}
					}

					signed[m[0]][v] = true
				}
			case nameMatch(cn, "~ld/proof.AddProof$") && len(args) > 1:
				emitted++
				p := e.snap(s, args[1], 0)

				for _, m := range members {
					v := getFieldOr(p, m[0])
					ok := signed[m[0]][v]

					if !ok { // a join of paths
						ok = len(alts(v)) > 0

						for _, a := range alts(v) {
							ok = ok && signed[m[0]][a]
						}
					}

					c.oblige(ok, "ld|kept|"+m[0], "the emitted proof's "+m[0]+" is not what was signed", where, e.traceString(s, 20))
				}

				value, jws := getFieldOr(p, "ProofValue"), getFieldOr(p, "JWS")
				sig := HasAll(sign)

				asJWS, asValue := s.holds(Eq(rep, ConstInt(1))), s.holds(Eq(rep, ConstInt(0)))
				other := s.holds(Neq(rep, ConstInt(0))) && s.holds(Neq(rep, ConstInt(1))) // not a known representation

				c.oblige(other || asJWS && sig(jws) || asValue && sig(value) || !asJWS && !asValue && sig(value) && sig(jws), "ld|signature", "the emitted proof does not carry the signature where its representation says", where, e.traceString(s, 20))
				c.oblige(!asJWS || outside(Call("~LDPJWTAlg$"), sign)(jws), "ld|jws", "a JWS is emitted without the header of the algorithm it was signed with", where, nil)
			}
		},
		Split: []Lit{Eq(rep, ConstInt(0)), Eq(rep, ConstInt(1)), Neq(rep, ConstInt(0)), Neq(rep, ConstInt(1))},
		Reqs:  reqs})

	c.oblige(emitted > 0, "ld|emitted", "no place was found where a proof is added to a document", "verifiable/lddocument", nil)

	// functions that read a document's proofs
	var readers []string

	for _, f := range c.P.Funcs {
		if sg := f.Signature; fnPkgPath(f) == modPath+"/verifiable" && sg.Recv() == nil && sg.Params().Len() == 1 && sg.Results().Len() == 2 && types.IsInterface(sg.Params().At(0).Type()) {
			if sl, ok := sg.Results().At(0).Type().Underlying().(*types.Slice); ok && modelName(sl.Elem()) == "Proof" {
				readers = append(readers, funcName(f))
			}
		}
	}

	// what credentials and presentations hand to the signer
	vctx := func(n string) Pat { return FldOf("verifiable.LinkedDataProofContext", n) }

	for _, u := range [][2]string{{"verifiable.(*Credential).AddLinkedDataProof", "ldProofs"}, {"verifiable.(*Presentation).AddLinkedDataProof", "Proofs"}} {
		n, kept := 0, 0

		c.gate(Gate{Name: "add-ld", Entry: u[0], Opaque: append([]string{ldSign, "~NewDocumentSigner$"}, readers...), NoHavoc: []string{ldSign},
			OnCall: func(e *Exec, fr *Frame, s *State, in ssa.CallInstruction, cn string, args []*Term, res *Term) {
				if !nameMatch(cn, ldSign) || len(args) < 4 {
					return
				}

				n++
				where := shortName(in.Parent()) + " at " + c.P.pos(in.Pos())
				sc := e.snap(s, args[1], 0)

				for _, f := range []string{"SignatureType", "SignatureRepresentation", "KeyType", "Created", "VerificationMethod", "Challenge", "Domain", "Purpose", "CapabilityChain"} {
					c.oblige(Has(vctx(f))(getFieldOr(sc, f)), "add-ld|"+f, "the "+f+" of the proof context does not reach the signer", where, nil)
				}

				c.oblige(Has(vctx("ProofCreator"))(args[0]), "add-ld|creator", "the proof is not made by the given proof creator", where, nil)
				c.oblige(Param(2)(args[3]), "add-ld|opts", "the JSON-LD options do not reach the signer", where, nil)
				c.oblige(e.derives(s, e.snap(s, args[2], 0), Param(0)), "add-ld|document", "the document signed is not the one the proof is added to", where, nil)
			},
			OnInstr: func(e *Exec, fr *Frame, s *State, in ssa.Instruction) {
				st, ok := in.(*ssa.Store)
				if !ok {
					return
				}

				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok || structField(fa.X.Type(), fa.Field) != u[1] || !Param(0)(e.val(fr, s, fa.X)) {
					return
				}

				kept++
				c.oblige(e.tracked(s, "signed") && (Has(MapGet(Any, ConstStr("proof")))(e.val(fr, s, st.Val)) || s.holds(NilLit(MapGet(Any, ConstStr("proof"))))), "add-ld|kept|"+u[0],
					"what the object keeps as its proofs are not those of the signed document", shortName(in.Parent())+" at "+c.P.pos(in.Pos()), e.traceString(s, 20))
			},
			Reqs: []GateReq{{ID: "signed", Why: "the proof was made without error", Any: []Lit{OK(Call(ldSign))}}}})
		c.oblige(kept > 0, "add-ld|keeps|"+u[0], u[0]+" does not keep the proofs of the signed document", u[0], nil)
		c.oblige(n > 0, "add-ld|reached|"+u[0], "no call of the document signer was found in "+u[0], u[0], nil)
	}
}

const serialize = `~^\(\*jwt\.JSONWebToken\)\.Serialize$`

// member: a member of what a function returns.
func memberOf(e *Exec, x Exit, names ...string) *Term {
	if len(x.res) == 0 {
		return nil
	}

	t := e.snap(x.st, x.res[0], 0)
	for _, n := range names {
		if t == nil {
			return nil
		}

		t = getField(peel(t), n)
	}

	return t
}

// createJWT: signed and unsecured JWTs.
func (c *Ctx) createJWT() {
	jose := Call("~doc/jose\\.NewJWS$")

	// the token of the library is made from the claims given
	payload := func(t *Term) bool {
		return Alts(Res(Call("~json\\.Marshal$", HasAll(Param(0))), 0))(t)
	}

	for _, u := range []struct {
		fn      string
		headers Pat
	}{
		{"jwt.NewSigned", Fld(Param(1), "AdditionalHeaders")}, {"jwt.NewJoseSigned", Param(1)}, {"jwt.NewUnsecured", IsNilT},
	} {
		n := 0

		c.gate(Gate{Name: "jws", Entry: u.fn,
			OnCall: func(e *Exec, fr *Frame, s *State, in ssa.CallInstruction, cn string, args []*Term, res *Term) {
				if !nameMatch(cn, "~doc/jose\\.NewJWS$") || len(args) < 4 {
					return
				}

				n++
				where := shortName(in.Parent()) + " at " + c.P.pos(in.Pos())

				c.oblige(u.headers(args[0]), u.fn+"|headers", "the protected headers are not the ones that were asked for", where, nil)
				c.oblige(IsNilT(args[1]), u.fn+"|unprotected", "a token is created with unprotected headers", where, nil)
				c.oblige(payload(args[2]), u.fn+"|payload", "the payload that is signed is not the serialised form of the claims", where, nil)

				signer := e.snap(s, args[3], 0)

				switch u.fn {
				case "jwt.NewJoseSigned":
					c.oblige(Param(2)(args[3]), u.fn+"|signer", "the token is not signed by the given signer", where, nil)
				case "jwt.NewUnsecured":
					c.oblige(!Has(Param(0))(signer), u.fn+"|signer", "the signer depends on the claims", where, nil)
				default:
					hdr := Res(Call("~CreateJWTHeaders$", Param(2), Param(1)), 0)
					c.oblige(Has(Param(2))(signer) && holds(wholeOf(Param(1), "jwt.SignParameters"))(signer), u.fn+"|signer", "the token is not signed by the given proof creator with the given parameters", where, nil)
					c.oblige(Has(hdr)(signer), u.fn+"|signer-headers", "the headers the proof creator makes for these parameters are not the signer's headers", where, nil)
				}
			},
			Reqs: []GateReq{
				{ID: "marshalled", Why: "the claims were serialised without error", Any: []Lit{OK(Call("~json\\.Marshal$"))}},
				{ID: "made", Why: "the token was signed without error", Any: []Lit{OK(jose)}},
				{ID: "payload", Why: "the token's payload is the claims that were signed", Exit: func(e *Exec, x Exit) bool {
					v := memberOf(e, x, "Payload")
					if v == nil {
						return false
					}

					of := func(t *Term) bool { // signed is a serialised form of t
						return Has(And(jose, func(j *Term) bool { return Has(Call("~json\\.Marshal$", Has(is(t))))(j.Args[2]) }))(memberOf(e, x))
					}
					ok := len(alts(v)) > 0

					for _, a := range alts(v) {
						ok = ok && (of(a) || of(v))
					}

					return ok
				}},
				{ID: "headers", Why: "the token's headers are the protected headers of the signature", Exit: func(e *Exec, x Exit) bool {
					v := memberOf(e, x, "Headers")
					return v != nil && (Fld(Has(jose), "ProtectedHeaders")(v) || Has(jose)(v) && !Has(func(t *Term) bool { return t.Op == "field" && t.Name == "UnprotectedHeaders" })(v))
				}},
			}})
		c.oblige(n > 0, u.fn+"|reached", "no JWS is made in "+u.fn, u.fn, nil)
	}

	// the signer of a proof creator
	var holder *types.Named

	for _, f := range c.P.Funcs {
		if fnPkgPath(f) != modPath+"/jwt" || f.Name() != "Sign" || f.Signature.Recv() == nil || !helperCalls(f, "~SignJWT$") {
			continue
		}

		if t := f.Signature.Recv().Type(); holder == nil || types.IsInterface(t) {
			if p, ok := t.(*types.Pointer); ok {
				t = p.Elem()
			}

			holder, _ = t.(*types.Named)
		}

		c.gateFn(Gate{Name: "jws-signer", Reqs: []GateReq{
			{ID: "signs", Why: "the data is signed with the parameters the signer was made with", Exit: func(e *Exec, x Exit) bool {
				return Res(Call("~SignJWT$", Has(Param(0)), wholeOf(func(t *Term) bool { return t.Op == "field" && Has(Param(0))(t.Args[0]) }, "jwt.SignParameters"), Param(1)), 0)(x.res[0])
			}},
		}}, f)
	}

	c.oblige(holder != nil, "jws-signer|found", "no JOSE signer was found that signs with a proof creator", "jwt", nil)

	if holder != nil {
		for _, f := range c.P.methodsNamed("jwt", "Headers") {
			r := f.Signature.Recv().Type()
			if p, ok := r.(*types.Pointer); ok {
				r = p.Elem()
			}

			if !types.Identical(r, holder) || f.Synthetic != "" {
				continue
			}

			c.gateFn(Gate{Name: "jws-signer", Reqs: []GateReq{
				{ID: "headers", Why: "the headers are those the signer was made with", Exit: func(e *Exec, x Exit) bool { return Has(Param(0))(x.res[0]) }},
			}}, f)
		}
	}

	// what credentials and presentations put into a JWT
	opaque := []string{"~JWSAlgorithm\\)\\.Name$", "~^jwt\\.NewSigned$", "~^jwt\\.NewUnsecured$", serialize, `~^\(\*verifiable\.(Credential|Presentation)\)\.JWTClaims$`}
	alg := func(i int) Pat { return Res(Call("~JWSAlgorithm\\)\\.Name$", Param(i)), 0) }

	for _, u := range []struct {
		fn       string
		claims   Pat
		alg      int // parameter positions; -1: unsecured
		str, hdr []string
	}{
		{"verifiable.(*Credential).CreateSignedJWTVC", Res(Call("~JWTClaims$", Param(0), Param(1)), 0), 2, []string{"JWTEnvelope", "JWT"}, []string{"JWTEnvelope", "JWTHeaders"}},
		{"verifiable.(*Credential).CreateUnsecuredJWTVC", Res(Call("~JWTClaims$", Param(0), Param(1)), 0), -1, []string{"JWTEnvelope", "JWT"}, nil},
		{"verifiable.(*Presentation).CreateJWTVP", Res(Call("~JWTClaims$", Param(0), Param(1), Param(5)), 0), 2, []string{"JWT"}, nil},
		{"verifiable.(*JWTCredClaims).MarshalJWS", Param(0), 1, []string{}, nil},
		{"verifiable.(*JWTCredClaims).MarshalJWSString", Param(0), 1, []string{}, nil},
		{"verifiable.(*JWTCredClaims).MarshalUnsecuredJWT", Param(0), -1, []string{}, nil},
		{"verifiable.(*JWTPresClaims).MarshalJWS", Param(0), 1, []string{}, nil},
		{"verifiable.(*JWTPresClaims).MarshalUnsecuredJWT", Param(0), -1, []string{}, nil},
	} {
		params := func(t *Term) bool {
			id, a, extra := getFieldOr(t, "KeyID"), getFieldOr(t, "JWTAlg"), getFieldOr(t, "AdditionalHeaders")
			return id != nil && a != nil && Param(u.alg+2)(id) && alg(u.alg)(a) && (extra == nil || !Has(func(x *Term) bool { return x.Op == "param" })(extra))
		}

		token := Call("~^jwt\\.NewUnsecured$", u.claims)
		if u.alg >= 0 {
			token = Call("~^jwt\\.NewSigned$", u.claims, params, Param(u.alg+1))
		}

		ser := Call(serialize, Res(token, 0), IsFalse)
		reqs := []GateReq{
			{ID: "token", Why: "the token was made, from this object's claims with the key, algorithm and signer asked for, without error", Any: []Lit{OK(token)}},
			{ID: "emitted", Why: "what is emitted is that token, serialised with its payload", Exit: func(e *Exec, x Exit) bool {
				v := memberOf(e, x, u.str...)
				return v != nil && Alts(Res(ser, 0))(v)
			}},
		}

		if u.hdr != nil {
			reqs = append(reqs, GateReq{ID: "headers", Why: "the headers kept are the token's", Exit: func(e *Exec, x Exit) bool {
				v := memberOf(e, x, u.hdr...)
				return v != nil && Fld(Res(token, 0), "Headers")(v)
			}})
		}

		if u.fn == "verifiable.(*JWTCredClaims).MarshalJWS" {
			reqs = append(reqs, GateReq{ID: "headers", Why: "the headers returned are the token's", Exit: func(e *Exec, x Exit) bool { return Fld(Res(token, 0), "Headers")(x.res[1]) }})
		}

		if u.fn == "verifiable.(*Presentation).CreateJWTVP" {
			reqs = append(reqs, GateReq{ID: "one-envelope", Why: "a presentation enveloped as JWT has no other envelope", Exit: func(e *Exec, x Exit) bool {
				v := memberOf(e, x, "CWT")
				return v != nil && (v.Op == "nil" || v.Op == "zero" || x.st.holds(NilLit(is(v))))
			}})
		}

		c.gate(Gate{Name: u.fn, Entry: u.fn, Opaque: opaque, NoHavoc: opaque, Reqs: reqs})
	}

	// serialisation with the payload is the compact form of the very signature
	c.gate(Gate{Name: "serialize", Entry: "jwt.(*JSONWebToken).Serialize", Reqs: []GateReq{
		{ID: "compact", Why: "the token is serialised as the compact form of its signature, with the payload unless detached", Exit: func(e *Exec, x Exit) bool {
			return Has(Call("~SerializeCompact$", Has(Param(0)), Param(1)))(x.res[0])
		}},
	}})
	c.gate(Gate{Name: "holder-verification", Entry: "sdjwt/holder.CreateHolderVerification", Opaque: []string{"~^jwt\\.NewJoseSigned$", serialize}, NoHavoc: []string{"~^jwt\\.NewJoseSigned$", serialize}, Reqs: []GateReq{
		{ID: "emitted", Why: "the key binding is the given payload with the given headers under the given signer", Exit: func(e *Exec, x Exit) bool {
			b := func(n string) Pat { return Fld(Param(0), n) }
			return Res(Call(serialize, Res(Call("~^jwt\\.NewJoseSigned$", Has(b("Payload")), b("Headers"), b("Signer")), 0), IsFalse), 0)(x.res[0])
		}},
	}})
}

// outside: p matches somewhere, other than in what stop matches.
func outside(p, stop Pat) Pat {
	return Alts(func(t *Term) bool {
		found := false

		t.walk(func(x *Term) bool {
			found = found || p(x)
			return !found && !stop(x)
		})

		return found
	})
}

// unknown: what the call left in a member of the object is not known.
func (e *Exec) unknown(s *State, obj *Term, name string, by *Term) {
	if obj.Typ == nil {
		return
	}

	ty := obj.Typ
	if p, ok := ty.Underlying().(*types.Pointer); ok {
		ty = p.Elem()
	}

	if st := structOfVal(ty); st != nil {
		for i := range st.NumFields() {
			if f := st.Field(i); f.Name() == name {
				loc := e.field(obj, i, st)
				e.store(s, loc, e.in.mk(Term{Op: "mut", Args: []*Term{by, loc}, Typ: f.Type()}), f.Type())
			}
		}
	}
}

// latches: the fields of the package's types in which methods leave an error, by type name.
func (p *Program) latches(pkg string) map[string][]string {
	out := map[string][]string{}

	for _, f := range p.Funcs {
		if fnPkgPath(f) != modPath+"/"+pkg || f.Signature.Recv() == nil {
			continue
		}

		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok || !types.Identical(st.Val.Type(), types.Universe.Lookup("error").Type()) {
					continue
				}

				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok || fa.X != ssa.Value(f.Params[0]) {
					continue
				}

				n := structField(fa.X.Type(), fa.Field)
				if t := typeName(f.Signature.Recv().Type()); !contains(out[t], n) {
					out[t] = append(out[t], n)
				}
			}
		}
	}

	return out
}

// holds: the value, or a member of it, matches (not what a call in it was given).
func holds(p Pat) Pat {
	return func(t *Term) bool {
		found := false

		t.walk(func(x *Term) bool {
			found = found || p(x)
			return !found && x.Op != "call" && x.Op != "field"
		})

		return found
	}
}

// wholeOf: the value itself, or a struct of this type built from all of its members.
func wholeOf(p Pat, typ string) Pat {
	return func(t *Term) bool {
		if !typeIs(t, typ) {
			return false
		}

		st := structOfVal(t.Typ)
		if t.Op != "struct" || st == nil {
			return p(t)
		}

		for i, a := range t.Args {
			if a == nil || !Fld(p, st.Field(i).Name())(a) {
				return false
			}
		}

		return true
	}
}

// IsFalse matches the constant false.
func IsFalse(t *Term) bool { return t.Op == "const" && constText(t) == "" && t.String() == "false" }

// createCWT: COSE envelopes.
func (c *Ctx) createCWT() {
	const claimsOf = `~^\(\*verifiable\.(Credential|Presentation)\)\.CWTClaims$`
	const proofValue = "~verifiable/cwt\\.GetProofValue$"

	for _, u := range []struct {
		fn          string
		claims      Pat
		alg         int
		raw, parsed []string
	}{
		{"verifiable.(*Credential).CreateSignedCOSEVC", Res(Call("~CWTClaims$", Param(0)), 0), 1, []string{"CWTEnvelope", "Sign1MessageRaw"}, []string{"CWTEnvelope", "Sign1MessageParsed"}},
		{"verifiable.(*Presentation).CreateCWTVP", Res(Call("~CWTClaims$", Param(0), Param(1), Param(5)), 0), 2, []string{"CWT", "Raw"}, []string{"CWT", "Message"}},
		{"verifiable.(*CWTCredClaims).MarshaCOSE", Param(0), 1, []string{}, nil},
		{"verifiable.(*CWTPresClaims).MarshalCWT", Param(0), 1, []string{}, nil},
	} {
		payload := Res(Call("~cbor/v2\\.Marshal$", u.claims), 0)
		n, algSet := 0, false
		params := func(t *Term) bool {
			return Has(Param(u.alg+2))(getFieldOr(t, "KeyID")) && Param(u.alg)(getFieldOr(t, "CWTAlg"))
		}

		// the message as it was when the data to be signed was made
		made := map[*Term]map[*Term]bool{}
		signed := func(msg *Term, kept bool) bool {
			for m := range made[getFieldOr(msg, "Payload")] {
				if mh, h := getFieldOr(m, "Headers"), getFieldOr(msg, "Headers"); mh == h || kept && getField(mh, "Protected") != nil &&
					built(getField(mh, "Protected")) == built(getField(h, "Protected")) && built(getField(mh, "Unprotected")) == built(getField(h, "Unprotected")) {
					return true
				}
			}

			return false
		}
		sign := Call("~SignCWT$", Param(u.alg+1), params, Res(Call(proofValue), 0))
		final := func(msg *Term) bool {
			return msg != nil && signed(peel(msg), false) && Res(sign, 0)(getFieldOr(peel(msg), "Signature"))
		}
		keeps := func(msg *Term) bool {
			return msg != nil && signed(peel(msg), true) && Res(sign, 0)(getFieldOr(peel(msg), "Signature"))
		}

		reqs := []GateReq{
			{ID: "signed", Why: "the data was signed by the given proof creator for the given key and algorithm, without error", Any: []Lit{OK(sign)}},
			{ID: "emitted", Why: "what is emitted is the very message that was signed, with its signature", Exit: func(e *Exec, x Exit) bool {
				v := memberOf(e, x, u.raw...)
				return v != nil && Res(Call("~cbor/v2\\.Marshal$", final), 0)(v)
			}},
		}

		if u.parsed != nil {
			reqs = append(reqs, GateReq{ID: "parsed", Why: "the parsed message kept is the one that was signed", Exit: func(e *Exec, x Exit) bool { return keeps(memberOf(e, x, u.parsed...)) }})
		}

		if u.fn == "verifiable.(*Presentation).CreateCWTVP" {
			reqs = append(reqs, GateReq{ID: "one-envelope", Why: "a presentation enveloped as CWT has no other envelope", Exit: func(e *Exec, x Exit) bool {
				v := memberOf(e, x, "JWT")
				return v != nil && (ConstStr("")(v) || v.Op == "zero")
			}}, GateReq{ID: "content", Why: "the content kept is read from the signed payload", Exit: func(e *Exec, x Exit) bool {
				v := memberOf(e, x, "CWT", "VPMap")
				return v != nil && e.derives(x.st, v, Any)
			}})
		}

		c.gate(Gate{Name: u.fn, Entry: u.fn, Opaque: []string{claimsOf, proofValue}, NoHavoc: []string{claimsOf, proofValue, "~SignCWT$", "~cbor/v2\\.(Marshal|Unmarshal)$"},
			OnCall: func(e *Exec, fr *Frame, s *State, in ssa.CallInstruction, cn string, args []*Term, res *Term) {
				if nameMatch(cn, "~ProtectedHeader\\)\\.SetAlgorithm$") && len(args) > 1 && Param(u.alg)(args[1]) {
					algSet = true
				}

				if !nameMatch(cn, proofValue) || len(args) < 1 {
					return
				}

				n++
				where := shortName(in.Parent()) + " at " + c.P.pos(in.Pos())
				msg := peel(e.snap(s, args[0], 0))
				p, h := getFieldOr(msg, "Payload"), getFieldOr(msg, "Headers")

				if made[p] == nil {
					made[p] = map[*Term]bool{}
				}

				made[p][msg] = true

				c.oblige(payload(p), u.fn+"|payload", "the payload signed is not the serialised form of this object's claims", where, nil)

				prot := getFieldOr(h, "Protected")
				c.oblige(prot != nil && (algSet || Has(Param(u.alg))(prot)), u.fn+"|alg", "the protected header does not carry the algorithm asked for", where, nil)
				c.oblige(prot != nil && Has(Param(u.alg+2))(prot), u.fn+"|kid", "the protected header does not carry the key identifier asked for", where, nil)

				for _, kv := range mapLit(prot) {
					if isConstInt(kv[0], 1) {
						c.oblige(Has(Param(u.alg))(kv[1]), u.fn+"|alg-value", "the algorithm in the protected header is not the one asked for", where, nil)
					}

					if isConstInt(kv[0], 4) {
						c.oblige(Has(Param(u.alg+2))(kv[1]), u.fn+"|kid-value", "the key identifier in the protected header is not the one asked for", where, nil)
					}
				}
			},
			Reqs: reqs})
		c.oblige(n > 0, u.fn+"|reached", "no data to be signed is made in "+u.fn, u.fn, nil)
	}
}

// built: the map a value was built as, whatever was put into it.
func built(t *Term) *Term {
	if t = unref(t); t != nil && t.Op == "maplit" {
		return t.Args[0]
	}

	return t
}

// mapLit: the entries of a map that was built here.
func mapLit(t *Term) [][2]*Term {
	var out [][2]*Term

	if t = unref(t); t != nil && t.Op == "maplit" {
		for _, a := range t.Args {
			if a.Op == "kv" {
				out = append(out, [2]*Term{a.Args[0], a.Args[1]})
			}
		}
	}

	return out
}

// proofCreator: the key that signs is the one registered for what was asked.
func (c *Ctx) proofCreator() {
	for _, u := range []struct{ fn, getter, param, data string }{
		{"SignJWT", "~JWTAlgorithm$", "JWTAlg", ""}, {"SignCWT", "~CWTAlgorithm$", "CWTAlg", ""}, {"SignLinkedDocument", "~ProofType$", "Type", ""},
	} {
		asked, data := Fld(Param(1), u.param), Param(2)
		if u.fn == "SignLinkedDocument" {
			data = Param(3)
		}

		owner := func(t *Term) *Term { // the registration a descriptor or signer belongs to
			for t != nil && (t.Op == "field" || t.Op == "ref") {
				t = t.Args[0]
			}

			return t
		}

		var track []GateReq

		reqs := []GateReq{{ID: "signer", Why: "the signature is made by the signer registered with the descriptor that has the requested " + u.param, Exit: func(e *Exec, x Exit) bool {
			for _, r := range alts(x.res[0]) {
				ok := false

				if r.Op == "res" && r.Num == 0 || r.Op == "ext" {
					r = r.Args[0]
				}

				r.walk(func(t *Term) bool {
					if t.Op == "call" && nameMatch(t.Name, "~\\)\\.Sign$") && len(t.Args) > 1 && data(t.Args[1]) {
						own := owner(t.Args[0])
						ok = ok || own != nil && Has(Param(0))(own) && x.st.holds(Eq(asked, Call(u.getter, func(d *Term) bool { return owner(d) == own })))
					}

					return !ok
				})

				if !ok {
					return false
				}
			}

			return true
		}}}

		if u.fn == "SignLinkedDocument" {
			fits := Eq(Param(2), FldOf("proof.SupportedVerificationMethod", "KMSKeyType"))
			some := NonEmpty(func(t *Term) bool { // a list that only takes methods that fit (see below)
				return t.Typ != nil && strings.HasSuffix(t.Typ.String(), "]"+modPath+"/proof.SupportedVerificationMethod") && t.Op != "call" && t.Op != "param"
			})
			reqs = append(reqs, GateReq{ID: "key-type", Why: "the requested key type is one the proof type supports", Any: []Lit{fits, some}})
			track = []GateReq{{ID: "picked", Any: []Lit{fits}}}
		}

		c.gate(Gate{Track: track, OnInstr: func(e *Exec, fr *Frame, s *State, in ssa.Instruction) {
			call, ok := in.(*ssa.Call)
			if !ok || len(track) == 0 || !strings.HasSuffix(call.Type().String(), "]"+modPath+"/proof.SupportedVerificationMethod") {
				return
			}

			if b, ok := call.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
				c.oblige(e.tracked(s, "picked"), "SignLinkedDocument|picked", "a verification method is counted as supported although its key type is not the requested one", shortName(in.Parent())+" at "+c.P.pos(in.Pos()), e.traceString(s, 20))
			}
		}, Name: u.fn, Entry: "proof/creator.(*ProofCreator)." + u.fn, Reqs: reqs, NoHavoc: []string{u.getter, "~SupportedVerificationMethods$"}})
	}

	c.gate(Gate{Name: "headers", Entry: "proof/creator.(*ProofCreator).CreateJWTHeaders", Split: []Lit{Empty(Fld(Param(1), "KeyID"))}, Reqs: []GateReq{
		{ID: "alg", Why: "the algorithm header is the one asked for", Exit: func(e *Exec, x Exit) bool {
			for _, kv := range mapLit(e.snap(x.st, x.res[0], 0)) {
				if ConstStr("alg")(kv[0]) {
					return Fld(Param(1), "JWTAlg")(kv[1])
				}
			}

			return false
		}},
		{ID: "kid", Why: "the key identifier header is the one asked for", Exit: func(e *Exec, x Exit) bool {
			for _, kv := range mapLit(e.snap(x.st, x.res[0], 0)) {
				if ConstStr("kid")(kv[0]) {
					return Fld(Param(1), "KeyID")(kv[1])
				}
			}

			return x.st.holds(Empty(Fld(Param(1), "KeyID")))
		}},
	}})
}

// callsNamed: the function itself makes such a call.
func callsNamed(f *ssa.Function, name string) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if ci, ok := in.(ssa.CallInstruction); ok && nameMatch(calleeName(ci.Common()), name) {
				return true
			}
		}
	}

	return false
}

// helperCalls: f or a helper of its package calls the named function.
func helperCalls(f *ssa.Function, name string) bool {
	for _, g := range withHelpers(f) {
		if callsNamed(g, name) {
			return true
		}
	}

	return false
}
