package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C12", "must-pass dataflow over the data-integrity verifier: for every element of the document's proof array (at least one), every success path has established each of the listed constraints on that element, decoded from that element alone, and on options that no other element influenced", c12)
}

// didRel are the verification relationships (did-go) that authorise a key for a proof purpose.
var didRel = map[string][]int64{
	"assertionMethod":      {2, 0},
	"authentication":       {1},
	"capabilityDelegation": {3},
	"capabilityInvocation": {4},
}

func noLoopState(t *Term) bool {
	return !Has(func(x *Term) bool { return x.Op == "loopvar" })(t)
}

func c12(c *Ctx) {
	arr := Has(Call("gjson.GetBytes", Param(1), ConstStr("proof")))
	el := Has(LoopElem(arr))
	pf := func(n string) Pat { return And(FldOf("models.Proof", n), el, noLoopState) }
	op := func(n string) Pat { return And(FldOf("models.ProofOptions", n), noLoopState) }
	parse := func(n string) Pat { return Call("time.Parse", nil, pf(n)) }
	now := Call("time.Now")
	suiteV := MapGet(FldOf("dataintegrity.Verifier", "suites"), pf("CryptoSuite"))
	unsecured := Res(Call("sjson.DeleteBytes", Param(1), ConstStr("proof")), 0)
	verify := Call("suite.Verifier).VerifyProof", suiteV, unsecured, el, Any)

	each := func(id, why string, any ...Lit) GateReq {
		return GateReq{ID: id, Why: why, Each: true, Over: arr, Any: any}
	}

	vmOf := func(t *Term) *Term {
		var v *Term

		t.walk(func(x *Term) bool {
			if v == nil && Call("suite.Verifier).VerifyProof")(x) && len(x.Args) > 3 {
				v = getField(peel(x.Args[3]), "VerificationMethod")
			}

			return v == nil
		})

		return v
	}
	methods := Call("did.Doc).VerificationMethods")
	resolved := func(t *Term) bool {
		return Has(func(x *Term) bool {
			return methods(x) && Has(Call("~[Rr]esolver\\)\\.Resolve$", nil, Has(Or(pf("VerificationMethod"), op("VerificationMethodID")))))(x)
		})(t)
	}

	c.gate(Gate{Name: "verify", Entry: "dataintegrity.(*Verifier).VerifyProof", Opaque: []string{"suite.Verifier).VerifyProof"},
		OnCall: func(e *Exec, fr *Frame, s *State, in ssa.CallInstruction, name string, args []*Term, res *Term) {
			if !nameMatch(name, "did.Doc).VerificationMethods") || res == nil {
				return
			}

			// a method looked up under a relationship is used for a purpose that this relationship authorises
			where := shortName(in.Parent()) + " at " + c.P.pos(in.Pos())

			var rel []int64
			for _, a := range res.Args[1:] {
				a.walk(func(x *Term) bool {
					if v, ok := constInt(x); ok && x.Op == "const" {
						rel = append(rel, v)
					}

					return true
				})
			}

			if len(rel) == 0 {
				return
			}

			for _, r := range rel {
				ok := false

				for purpose, rs := range didRel {
					for _, x := range rs {
						if x == r && s.holds(Eq(Or(op("Purpose"), pf("ProofPurpose")), ConstStr(purpose))) {
							ok = true
						}
					}
				}

				c.oblige(ok, "verify|purpose-relationship", "a verification method listed under a relationship that does not authorise the expected purpose may be used", where, e.traceString(s, 40))
			}
		},
		Reqs: []GateReq{
			{ID: "present", Why: "the document has a proof member", Any: []Lit{True(Call("gjson.Result).Exists", Call("gjson.GetBytes", Param(1), ConstStr("proof")))), NonEmpty(arr)}},
			{ID: "nonempty", Why: "the document has at least one proof", Any: []Lit{NonEmpty(arr)}},
			{ID: "unsecured", Why: "the proof was removed from the document without error", Any: []Lit{OK(Call("sjson.DeleteBytes", Param(1), ConstStr("proof")))}},
			each("decoded", "each proof decodes", OK(Call("encoding/json.Unmarshal", el))),
			each("type", "each proof has the data integrity type", Eq(pf("Type"), ConstStr("DataIntegrityProof"))),
			each("method", "each proof names a verification method", NonEmpty(pf("VerificationMethod"))),
			each("purpose-given", "each proof names a purpose", NonEmpty(pf("ProofPurpose"))),
			each("suite", "each proof's cryptosuite is a registered one", True(HasKey(FldOf("dataintegrity.Verifier", "suites"), pf("CryptoSuite"))), NonNil(suiteV)),
			each("created", "a creation date is present when the suite needs one", False(Call("suite.Verifier).RequiresCreated", suiteV)), NonEmpty(pf("Created"))),
			each("created-time", "a creation date, when used, can be parsed", Empty(pf("Created")), False(Call("time.Time).IsZero", op("Created"))), OK(parse("Created"))),
			each("expires-time", "an expiry date, when present, can be parsed", Empty(pf("Expires")), OK(parse("Expires"))),
			each("expires", "the proof has not expired", Empty(pf("Expires")),
				False(Call("time.Time).After", now, Res(parse("Expires"), 0))), True(Call("time.Time).After", Res(parse("Expires"), 0), now)),
				False(Call("time.Time).Before", Res(parse("Expires"), 0), now)), True(Call("time.Time).Before", now, Res(parse("Expires"), 0)))),
			each("purpose", "each proof's purpose is the expected one", Eq(pf("ProofPurpose"), op("Purpose"))),
			{ID: "vm", Why: "the key is the caller's or one that the proof's controller lists for the purpose", Each: true, Over: arr, Fn: func(e *Exec, s *State) bool {
				for _, f := range s.find(true, NilLit(ErrOf(verify)).P) {
					v := vmOf(f)
					if v != nil && noLoopState(v) && Alts(Or(op("VerificationMethod"), resolved))(v) {
						return true
					}
				}

				return false
			}},
			each("vm-id", "a resolved key's identifier is the one the proof names", NonNil(op("VerificationMethod")),
				Eq(Has(Or(pf("VerificationMethod"), op("VerificationMethodID"))), Has(FldOf("did.VerificationMethod", "ID")))),
			each("signature", "the proof verified under the suite it names, over the document without its proofs", OK(verify)),
			{ID: "options", Why: "the suite verifies under the proof's own options or the ones the caller pinned, uninfluenced by other proofs", Each: true, Over: arr, Fn: func(e *Exec, s *State) bool {
				for _, f := range s.find(true, NilLit(ErrOf(verify)).P) {
					ok := false

					f.walk(func(x *Term) bool {
						if verify(x) {
							o := peel(x.Args[3])
							ok = noLoopState(x.Args[3])

							for n, p := range map[string]Pat{
								"Purpose":              Or(op("Purpose"), pf("ProofPurpose")),
								"Domain":               pf("Domain"),
								"Challenge":            pf("Challenge"),
								"VerificationMethodID": Or(op("VerificationMethodID"), pf("VerificationMethod")),
								"SuiteType":            Or(op("SuiteType"), pf("CryptoSuite")),
								"Created":              Or(op("Created"), Res(parse("Created"), 0)),
								"Expires":              Or(op("Expires"), Res(parse("Expires"), 0)),
							} {
								if v := getField(o, n); v == nil || !p(v) {
									ok = false
								}
							}
						}

						return true
					})

					if ok {
						return true
					}
				}

				return false
			}},
			each("domain", "each proof's domain is the expected one", Empty(op("Domain")), Eq(op("Domain"), pf("Domain"))),
			each("challenge", "each proof's challenge is the expected one", Empty(op("Challenge")), Eq(op("Challenge"), pf("Challenge"))),
		},
	})
}

func init() {
	register("C13", "must-pass dataflow over every data-integrity suite (all implementations of the suite interfaces): verification succeeds only past the signature verifier, over a message made of the hash of the canonical document and the canonical proof options, with the key of the verification method; creation signs the members it emits", c13)
	register("C14", "must-pass dataflow over the data-integrity signer: every success exit has passed each completeness check on the created proof, and returns the document with that proof added", c14)
}

// implementers are the module's concrete types (as pointer or value receivers) that implement a named interface.
func (c *Ctx) implementers(pkgPath, iface, method string) []*ssa.Function {
	it := c.P.namedType(pkgPath, iface)
	if it == nil {
		return nil
	}

	n, ok := it.(*types.Named)
	if !ok {
		return nil
	}

	m, _, _ := types.LookupFieldOrMethod(it, true, n.Obj().Pkg(), method)

	f, ok := m.(*types.Func)
	if !ok {
		return nil
	}

	var out []*ssa.Function
	for _, fn := range c.P.implementations(it, f) {
		if fn.Blocks != nil && !strings.Contains(funcName(fn), "mock") {
			out = append(out, fn)
		}
	}

	return out
}

// confMembers are the members of the proof options that are signed, with the option they come from.
var confMembers = map[string]string{"created": "Created", "expires": "Expires", "challenge": "Challenge", "domain": "Domain", "proofPurpose": "Purpose",
	"verificationMethod": "VerificationMethodID", "cryptosuite": "SuiteType"}

func c13(c *Ctx) {
	const pkg = "dataintegrity/suite"
	vs := c.implementers(pkg, "Verifier", "VerifyProof")
	ss := c.implementers(pkg, "Signer", "CreateProof")

	if len(vs) < 2 || len(ss) < 2 {
		c.Obligations++
		c.fail("suites", "the data-integrity suites are not found", pkg, nil)

		return
	}

	crv := func(n string) Lit { return Eq(Has(FldOf("jwk.JWK", "Crv")), ConstStr(n)) }
	canonCall := Call("~GetCanonicalDocument$")

	// message: every alternative hashes both canonical forms with one hash function
	message := func(doc Pat) Pat {
		return Alts(func(t *Term) bool {
			d, conf := false, false
			hashes := map[string]bool{}

			t.walk(func(x *Term) bool {
				if x.Op == "call" && nameMatch(x.Name, "hash.Hash).Sum") {
					canon := 0

					for _, a := range x.Args[1:] {
						a.walk(func(y *Term) bool {
							if canonCall(y) {
								canon++
								if isConf(y) {
									conf = true
								} else if doc(y) {
									d = true
								}

								return false
							}

							return true
						})
					}
				}

				if x.Op == "call" && strings.HasPrefix(short(x.Name), "crypto/sha") {
					hashes[x.Name] = true
				}

				return true
			})

			return d && conf && len(hashes) == 1
		})
	}

	for _, fn := range vs {
		name := shortName(fn)
		recvOf := map[string]map[string]bool{}
		doc := Has(Call("encoding/json.Unmarshal", Param(1)))
		key := Has(FldOf("models.ProofOptions", "VerificationMethod"))
		sig := Res(Call("~multibase\\.Decode$", Fld(Param(2), "ProofValue")), 1)
		verified := Call("~[Vv]erifier\\)\\.Verify$", nil, sig, message(doc), key)
		suitePrefix := strings.TrimRight(fn.Pkg.Pkg.Name(), "0123456789")

		own := func(t *Term) bool {
			s, ok := constStr(t)
			return ok && strings.HasPrefix(s, suitePrefix)
		}

		c.gateFn(Gate{Name: "verify " + name, Entry: name, Split: append(optSplit(Param(3)), crv("P-256"), crv("P-384")),
			Opaque: []string{"~crypto-ext/.*Verify$"},
			OnCall: func(e *Exec, fr *Frame, s *State, in ssa.CallInstruction, cn string, args []*Term, res *Term) {
				if res == nil || len(res.Args) < 4 || !nameMatch(cn, "~[Vv]erifier\\)\\.Verify$") {
					return
				}

				where := shortName(in.Parent()) + " at " + c.P.pos(in.Pos())
				k := peel(res.Args[3])
				kt, single := constStr(getFieldOr(k, "Type"))

				if !single {
					return
				}

				want := map[string]string{"ECDSAP256IEEEP1363": "P-256", "ECDSAP384IEEEP1363": "P-384", "ECDSAP256DER": "P-256", "ECDSAP384DER": "P-384"}[kt]
				for _, other := range []string{"P-256", "P-384"} {
					if other != want && want != "" {
						c.oblige(!s.holds(crv(other)), "verify|key-curve", "a key on curve "+other+" is verified as a "+kt+" key", where, nil)
					}
				}

				hash := map[string]string{"P-256": "sha256.New", "P-384": "sha512.New384"}[want]
				if hash == "" && strings.HasPrefix(kt, "ED25519") {
					hash = "sha256.New"
				}

				n, okHash := 0, true

				res.Args[2].walk(func(x *Term) bool {
					if x.Op == "call" && strings.HasPrefix(short(x.Name), "crypto/sha") {
						n++

						if hash != "" && !nameMatch(x.Name, hash) {
							okHash = false
						}
					}

					return true
				})

				c.oblige(n > 0 && okHash, "verify|hash", "the message verified under a "+kt+" key is not hashed with that key's hash function", where, nil)

				if res.Args[0].Op == "field" {
					if recvOf[res.Args[0].Name] == nil {
						recvOf[res.Args[0].Name] = map[string]bool{}
					}

					recvOf[res.Args[0].Name][kt] = true
				}
			},
			Reqs: []GateReq{
				{ID: "signature", Why: "the signature verifier accepted the proof value over the hashes of the canonical document and options, with the key of the verification method", Any: []Lit{OK(verified)}},
				{ID: "proof-value", Why: "the proof value decoded without error", Any: []Lit{OK(Call("~multibase\\.Decode$", Fld(Param(2), "ProofValue")))}},
				{ID: "document", Why: "the document decoded without error", Any: []Lit{OK(Call("encoding/json.Unmarshal", Param(1)))}},
				{ID: "canonical-document", Why: "the document was canonicalised without error", Any: []Lit{OK(And(canonCall, doc, Not(isConf)))}},
				{ID: "canonical-options", Why: "the proof options were canonicalised without error", Any: []Lit{OK(And(canonCall, isConf))}},
				{ID: "proof-type", Why: "the proof type is data integrity", Any: []Lit{Eq(Fld(Param(3), "ProofType"), ConstStr("DataIntegrityProof"))}},
				{ID: "suite-type", Why: "the suite type is one of this suite's", Any: []Lit{Eq(Fld(Param(3), "SuiteType"), own)}, Fn: func(e *Exec, s *State) bool {
					return s.holds(Empty(Fld(Param(3), "SuiteType"))) && s.holds(NilLit(Has(func(t *Term) bool {
						return t.Op == "kv" && ConstStr("cryptosuite")(t.Args[0]) && own(t.Args[1])
					})))
				}},
				{ID: "options", Why: "the signed proof options are the proof's own", Fn: func(e *Exec, s *State) bool {
					return confOK(s, s.find(true, NilLit(ErrOf(verified)).P), Param(3))
				}},
			}}, fn)

		for r, kts := range recvOf {
			c.oblige(len(kts) <= 1, "verify|slot", fmt.Sprintf("%s verifies keys of several types with one verifier (%s)", name, r), name, nil)
		}
	}

	for _, fn := range ss {
		name := shortName(fn)
		doc := Has(Call("encoding/json.Unmarshal", Param(1)))
		signed := Call("~Signer\\)\\.Sign$", nil, message(doc))
		opt := func(n string) Pat { return Fld(Param(2), n) }

		c.gateFn(Gate{Name: "create " + name, Entry: name, Split: optSplit(Param(2)), Reqs: []GateReq{
			{ID: "signed", Why: "a signature over the hashes of the canonical document and options was made", Any: []Lit{OK(signed)}},
			{ID: "document", Why: "the document decoded without error", Any: []Lit{OK(Call("encoding/json.Unmarshal", Param(1)))}},
			{ID: "options", Why: "the signed proof options are those requested", Fn: func(e *Exec, s *State) bool {
				return confOK(s, s.find(true, NilLit(ErrOf(signed)).P), Param(2))
			}},
			{ID: "proof-value", Why: "the emitted proof value is that signature", Exit: func(e *Exec, x Exit) bool {
				v := getField(peel(e.snap(x.st, x.res[0], 0)), "ProofValue")
				return v != nil && HasAll(Res(signed, 0))(v)
			}},
			{ID: "emitted", Why: "the emitted proof carries the members that were signed", Exit: func(e *Exec, x Exit) bool {
				p := peel(e.snap(x.st, x.res[0], 0))

				for n, want := range map[string]Pat{
					"Type":               ConstStr("DataIntegrityProof"),
					"CryptoSuite":        Or(opt("SuiteType"), func(t *Term) bool { _, c := constStr(t); return c }),
					"ProofPurpose":       opt("Purpose"),
					"Domain":             opt("Domain"),
					"Challenge":          opt("Challenge"),
					"VerificationMethod": Or(opt("VerificationMethodID"), Fld(opt("VerificationMethod"), "ID")),
					"Created":            Or(ConstStr(""), Call("time.Time).Format", opt("Created"))),
					"Expires":            Or(ConstStr(""), Call("time.Time).Format", opt("Expires"))),
				} {
					v := getField(p, n)
					if v == nil || !want(v) {
						return false
					}

					// the same value was signed, and nothing is emitted that was not
					for conf, o := range confMembers {
						if o == n || (o == "Purpose" && n == "ProofPurpose") || (o == "VerificationMethodID" && n == "VerificationMethod") || (o == "SuiteType" && n == "CryptoSuite") {
							ok := false

							for _, f := range x.st.find(true, NilLit(ErrOf(signed)).P) {
								ok = ok || sameSigned(x.st, f, conf, v)
							}

							if !ok {
								return false
							}
						}
					}
				}

				return true
			}},
		}}, fn)
	}
}

func getFieldOr(t *Term, n string) *Term {
	if v := getField(t, n); v != nil {
		return v
	}

	return &Term{Op: "unknown"}
}

// isConf: the canonicalised value is a map literal built here from proof options.
func isConf(t *Term) bool {
	return Has(func(x *Term) bool { return x.Op == "kv" && ConstStr("proofPurpose")(x.Args[0]) })(t)
}

// optSplit keeps paths apart by which options are set.
func optSplit(opts Pat) []Lit {
	var split []Lit
	for _, n := range []string{"SuiteType", "VerificationMethodID", "Domain", "Challenge"} {
		split = append(split, Empty(Fld(opts, n)), NonEmpty(Fld(opts, n)))
	}

	for _, n := range []string{"Created", "Expires"} {
		z := Call("time.Time).IsZero", Fld(opts, n))
		split = append(split, True(z), False(z))
	}

	return split
}

// sameSigned: the emitted member v is the value that the signed options have for it; a member that is not among them is
// emitted empty.
func sameSigned(s *State, f *Term, member string, v *Term) bool {
	ok, present := false, false
	empty := func(t *Term) bool { return ConstStr("")(t) || s.holds(Empty(is(t))) }

	f.walk(func(x *Term) bool {
		if x.Op == "kv" && ConstStr(member)(x.Args[0]) {
			present = true

			for _, a := range alts(x.Args[1]) {
				absent := a.Op == "mapget" && a.Args[0].Op == "makemap"
				if a == v || (absent && empty(v)) || s.holds(Eq(is(a), is(v))) {
					ok = true
				}
			}
			// a merged value: each emitted alternative was signed
			if v.Op == "choice" && x.Args[1] == v {
				ok = true
			}
		}

		return true
	})

	return ok || (!present && empty(v))
}

// confOK: each signed option is the like-named option of the proof; an option is left out only where it is not set.
func confOK(s *State, fs []*Term, opts Pat) bool {
	for _, f := range fs {
		got := map[string]bool{}
		ok := true

		unset := func(o string) bool {
			switch o {
			case "Created", "Expires":
				return s.holds(True(Call("time.Time).IsZero", Fld(opts, o))))
			case "Domain", "Challenge":
				return s.holds(Empty(Fld(opts, o)))
			}

			return false
		}

		f.walk(func(x *Term) bool {
			if x.Op != "kv" {
				return true
			}

			k, isS := constStr(x.Args[0])
			if !isS {
				return true
			}

			o := confMembers[k]
			if o == "" {
				return true
			}

			got[k] = true
			val := Or(Fld(opts, o), Call("time.Time).Format", Fld(opts, o)))

			switch k {
			case "verificationMethod":
				val = Or(val, Fld(Fld(opts, "VerificationMethod"), "ID"))
			case "cryptosuite":
				val = Or(val, func(t *Term) bool { _, c := constStr(t); return c })
			case "created", "expires", "domain", "challenge":
				// left out on the part of the paths where a condition on that value itself failed
				val = func(t *Term) bool {
					n := 0

					for _, a := range alts(t) {
						switch {
						case Or(Fld(opts, o), Call("time.Time).Format", Fld(opts, o)))(a):
							n++
						case a.Op == "mapget" && a.Args[0].Op == "makemap":
						default:
							return false
						}
					}

					return n > 0 || unset(o)
				}
			}

			ok = ok && val(x.Args[1])

			return true
		})

		for k, o := range confMembers {
			ok = ok && (got[k] || unset(o))
		}

		if ok {
			return true
		}
	}

	return false
}

func c14(c *Ctx) {
	sup := MapGet(FldOf("dataintegrity.Signer", "suites"), FldOf("models.ProofOptions", "SuiteType"))
	create := Call("suite.Signer).CreateProof", sup, Param(1))
	pf := func(n string) Pat { return And(FldOf("models.Proof", n), Has(create)) }
	op := func(n string) Pat { return FldOf("models.ProofOptions", n) }

	c.gate(Gate{Name: "add", Entry: "dataintegrity.(*Signer).AddProof", Opaque: []string{"suite.Signer).CreateProof"}, Reqs: []GateReq{
		{ID: "suite", Why: "the requested suite is a registered one", Any: []Lit{True(HasKey(FldOf("dataintegrity.Signer", "suites"), op("SuiteType"))), NonNil(sup)}},
		{ID: "created-proof", Why: "the suite created a proof of this document without error", Any: []Lit{OK(create)}},
		{ID: "type", Why: "the proof has a type", Any: []Lit{NonEmpty(pf("Type"))}},
		{ID: "purpose", Why: "the proof has a purpose", Any: []Lit{NonEmpty(pf("ProofPurpose"))}},
		{ID: "method", Why: "the proof has a verification method", Any: []Lit{NonEmpty(pf("VerificationMethod"))}},
		{ID: "created", Why: "the proof has a creation date when the suite requires one", Any: []Lit{NonEmpty(pf("Created")), False(Call("suite.Signer).RequiresCreated", sup))}},
		{ID: "domain", Why: "the proof carries the requested domain", Any: []Lit{Empty(op("Domain")), Eq(op("Domain"), pf("Domain"))}},
		{ID: "challenge", Why: "the proof carries the requested challenge", Any: []Lit{Empty(op("Challenge")), Eq(op("Challenge"), pf("Challenge"))}},
		{ID: "marshalled", Why: "the proof was serialised without error", Any: []Lit{OK(Call("encoding/json.Marshal", Has(create)))}},
		{ID: "returned", Why: "what is returned is this document with the created proof added as its proof member", Exit: func(e *Exec, x Exit) bool {
			return Res(Call("~sjson\\.Set", Param(1), ConstStr("proof"), Has(create)), 0)(x.res[0])
		}},
		{ID: "added", Why: "the proof was added without error", Any: []Lit{OK(Call("~sjson\\.Set", Param(1), ConstStr("proof")))}},
	}})
}
