package main

import (
	"fmt"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C18", "must-pass dataflow over SD-JWT issuance: default salts come from the cryptographic source, each disclosure is encoded from its own salt and hashed under the declared algorithm, claims enter the payload in clear only where an option says so, decoys are not returned, and no error is dropped", c18)
}

// loopCtx lists the loops that surround an instruction, outermost first, through the frames of the call stack.
func (e *Exec) loopCtx(fr *Frame, in ssa.Instruction) []string {
	var out []string

	for f, i := fr, in; f != nil && i != nil; f, i = f.up, f.call {
		var here []string

		for l := e.loopsOf(f.fn).inner[i.Block()]; l != nil; l = l.parent {
			here = append([]string{fmt.Sprintf("%s/%d", f.id, l.head.Index)}, here...)
		}

		out = append(here, out...)
	}

	return out
}

func dynOf(field Pat) Pat {
	return func(t *Term) bool {
		return t.Op == "call" && strings.HasPrefix(t.Name, "dyn:") && len(t.Args) > 0 && field(t.Args[0])
	}
}

// firstOf is the first element of a list that was built from a literal.
func firstOf(t *Term) *Term {
	for t != nil {
		t = peel(t)

		switch {
		case (t.Op == "append" || t.Op == "slicelit") && len(t.Args) > 0:
			if t.Op == "slicelit" {
				return t.Args[0]
			}

			if t.Args[0].Op == "nil" && len(t.Args) > 1 {
				return t.Args[1]
			}

			t = t.Args[0]
		default:
			return nil
		}
	}

	return nil
}

// issued decides what a disclosure's encoded form is: a disclosure (with its list), or anything else.
func issuedDisclosure(r *Term, salt Pat) (list *Term, ok bool) {
	ok = true

	for _, a := range alts(r) {
		good := false

		if Call("~base64\\.Encoding\\)\\.EncodeToString$", func(t *Term) bool { return strings.Contains(t.String(), "RawURLEncoding") })(a) && len(a.Args) > 1 {
			a.Args[1].walk(func(x *Term) bool {
				if x.Op != "call" {
					return true
				}

				for _, arg := range x.Args {
					if f := firstOf(arg); f != nil && salt(f) {
						good, list = true, arg
					}
				}

				return false
			})
		}

		ok = ok && good
	}

	return list, ok
}

func c18(c *Ctx) {
	c.saltSources()
	c.issuance()

	opt := func(n string) Pat { return Opt("issuer.newOpts", n) }
	salt := Res(dynOf(opt("getSalt")), 0)
	saltPass := Alts(salt)

	var recursive []*ssa.Function

	builders := c.P.methodsNamed("sdjwt/issuer", "CreateDisclosuresAndDigests")
	c.oblige(len(builders) >= 2, "builders", fmt.Sprintf("%d disclosure builders found, at least 2 expected", len(builders)), "sdjwt/issuer", nil)

	for _, b := range builders {
		for _, f := range c.P.reach(b, "sdjwt/issuer") {
			if callsSelf(f) {
				recursive = appendFn(recursive, f)
			}
		}
	}

	entries := append([]*ssa.Function{}, builders...)
	for _, f := range recursive {
		entries = appendFn(entries, f)
	}

	for _, fn := range entries {
		name := shortName(fn)
		saltAt := map[string]bool{}
		hashed := map[*Term]bool{}
		elemPath := func(t *Term) bool { return t.Op == "key" || t.Op == "idx" }
		ignored := func(s *State) bool {
			return s.holds(True(HasKey(opt("nonSDClaimsMap"), Has(elemPath)))) || s.holds(True(MapGet(opt("nonSDClaimsMap"), Has(elemPath))))
		}
		plain := func(t *Term) bool { return t.Op == "param" && t.Typ != nil && t.Typ.String() == "bool" }
		kept := func(s *State) bool {
			return s.holds(True(opt("structuredClaims"))) || s.holds(True(HasKey(opt("alwaysInclude"), Has(elemPath)))) || s.holds(True(MapGet(opt("alwaysInclude"), Has(elemPath))))
		}
		claim := func(t *Term) bool { return t.Op == "mapget" && t.Args[1].Op == "key" && Has(TypeIsParam)(t.Args[0]) }
		rec := func(t *Term) bool { return t.Op == "call" && t.Fn != nil && containsFn(recursive, t.Fn) }
		digest := func(alg Pat) Pat {
			return Call("~base64\\.Encoding\\)\\.EncodeToString$", nil, Call("hash.Hash).Sum", Call("crypto.Hash).New", alg)))
		}
		n := 0

		var lists []*Term

		var split []Lit
		for _, m := range []string{"nonSDClaimsMap", "alwaysInclude", "recursiveClaimMap"} {
			atIdx := Has(func(t *Term) bool { return t.Op == "idx" })
			for _, k := range []Pat{And(Has(elemPath), Not(atIdx)), atIdx} {
				split = append(split, True(Or(HasKey(opt(m), k), MapGet(opt(m), k))))
			}
		}

		c.gateFn(Gate{Name: name, Entry: name, Split: split,
			OnCall: func(e *Exec, fr *Frame, s *State, in ssa.CallInstruction, cn string, args []*Term, res *Term) {
				if res == nil {
					return
				}

				ctx := strings.Join(e.loopCtx(fr, in), " ")

				switch {
				case dynOf(opt("getSalt"))(res):
					saltAt[ctx] = true
				case digest(opt("HashAlg"))(res):
					lists = append(lists, res.Args[1].Args[1:]...)
				case digest(Any)(res):
					c.oblige(false, name+"|hash", "a disclosure is hashed with an algorithm other than the configured one", shortName(in.Parent())+" at "+c.P.pos(in.Pos()), nil)
				}
			},
			OnInstr: func(e *Exec, fr *Frame, s *State, in ssa.Instruction) {
				where := shortName(in.Parent()) + " at " + c.P.pos(in.Pos())

				switch x := in.(type) {
				case *ssa.Store:
					fa, ok := x.Addr.(*ssa.FieldAddr)
					if !ok || !typeIs(&Term{Typ: fa.X.Type()}, "issuer.DisclosureEntity") || structOf(fa.X.Type()).Field(fa.Field).Name() != "Result" {
						return
					}

					r := e.val(fr, s, x.Val)
					if saltPass(r) {
						return // a decoy; it must not be returned
					}

					n++

					_, ok = issuedDisclosure(r, saltPass)
					c.oblige(ok, name+"|encoded", "a disclosure is not the base64url form of an array that starts with its salt", where, e.traceString(s, 30))
					c.oblige(s.holds(OK(dynOf(opt("getSalt")))), name+"|salt-error", "a disclosure is created although its salt could not be generated", where, e.traceString(s, 30))

					marshalled := false

					for _, a := range alts(r) {
						a.walk(func(t *Term) bool {
							if t.Op == "res" && t.Num == 1 && t.Args[0].Op == "call" && len(t.Args[0].Args) > 0 && Has(saltPass)(t.Args[0]) && s.holds(OK(is(t.Args[0]))) {
								marshalled = true
							}

							return true
						})
					}

					c.oblige(marshalled, name+"|encode-error", "a disclosure is created although its encoding failed", where, e.traceString(s, 30))

					ctx := strings.Join(e.loopCtx(fr, in), " ")
					fresh := false

					for k := range saltAt {
						fresh = fresh || k == ctx || strings.HasPrefix(k, ctx+" ") || ctx == ""
					}

					c.oblige(fresh, name+"|salt-fresh", "several disclosures share one salt", where, nil)
				case *ssa.MapUpdate:
					m, k, v := e.val(fr, s, x.Map), e.val(fr, s, x.Key), e.val(fr, s, x.Value)
					if m.Op != "makemap" || k.Op == "const" {
						return
					}

					for _, a := range alts(v) {
						a = peel(a)

						switch {
						case claim(a):
							c.oblige(ignored(s) || s.holds(True(plain)), name+"|clear", "a claim enters the payload in clear although it is not listed as always visible", where, e.traceString(s, 30))
						case a.Op == "res" && rec(a.Args[0]):
							c.oblige(kept(s), name+"|structure", "an object enters the payload in clear although neither structured claims nor the object were asked for", where, e.traceString(s, 30))

							for _, arg := range a.Args[0].Args {
								if arg.Typ != nil && arg.Typ.String() == "bool" {
									b, isC := constBool(arg)
									c.oblige(isC && !b, name+"|plain", "the members of an object enter the payload in clear", where, e.traceString(s, 30))
								}
							}
						default:
							c.oblige(kept(s), name+"|array", "an array enters the payload in clear although neither structured claims nor the array were asked for", where, e.traceString(s, 30))
						}
					}
				case *ssa.Call:
					b, ok := x.Call.Value.(*ssa.Builtin)
					if !ok || b.Name() != "append" || len(x.Call.Args) < 2 {
						return
					}

					base, add := e.snap(s, e.val(fr, s, x.Call.Args[0]), 0), e.snap(s, e.val(fr, s, x.Call.Args[1]), 0)
					first := firstOf(base)
					if (first != nil && saltPass(first)) || typeName(x.Call.Args[0].Type()) != "[]interface{}" && typeName(x.Call.Args[0].Type()) != "[]any" {
						return
					}

					if Has(claim)(add) && !Has(Call("~EncodeToString$"))(add) {
						c.oblige(ignored(s), name+"|element", "an array element enters the payload in clear although it is not listed as always visible", where, e.traceString(s, 30))
					}
				}
			},
			Reqs: []GateReq{
				{ID: "disclosures", Why: "every returned disclosure is an encoded, salted claim and its digest was made part of the payload; decoys are not returned", Exit: func(e *Exec, x Exit) bool {
					// loops fill in what they collect when they end
					for _, l := range lists {
						l.walk(func(t *Term) bool {
							hashed[t] = true
							if r := getField(t, "Result"); t.Op == "struct" && r != nil {
								hashed[r] = true
							}

							return true
						})
					}

					ok := true

					x.res[0].walk(func(t *Term) bool {
						if t.Op == "call" {
							return false
						}

						if t.Op != "struct" || !typeIs(t, "issuer.DisclosureEntity") {
							return true
						}

						r := getField(t, "Result")
						if r == nil {
							ok = false
							return true
						}

						if _, good := issuedDisclosure(r, saltPass); !good {
							ok = false
						}

						if !hashed[r] && !hashed[t] {
							ok = false
						}

						return false
					})

					return ok
				}},
			}}, fn)

		c.oblige(n > 0, name+"|sites", "no disclosure is created here", name, nil)
	}
}

// TypeIsParam matches an entry parameter.
func TypeIsParam(t *Term) bool { return t.Op == "param" }

func appendFn(l []*ssa.Function, f *ssa.Function) []*ssa.Function {
	if containsFn(l, f) {
		return l
	}

	return append(l, f)
}

func containsFn(l []*ssa.Function, f *ssa.Function) bool {
	for _, x := range l {
		if x == f {
			return true
		}
	}

	return false
}

func callsSelf(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if ci, ok := in.(ssa.CallInstruction); ok && ci.Common().StaticCallee() == f {
				return true
			}
		}
	}

	return false
}

// saltSources: the default salt functions draw enough bytes from the cryptographic source.
func (c *Ctx) saltSources() {
	gens := c.P.methodsNamed("sdjwt/issuer", "GenerateSalt")
	c.oblige(len(gens) >= 2, "salts", fmt.Sprintf("%d salt generators found, at least 2 expected", len(gens)), "sdjwt/issuer", nil)

	for _, g := range gens {
		name := shortName(g)
		random := Or(Call("crypto/rand.Read"), Call("io.ReadFull", Has(func(t *Term) bool { return t.Op == "global" && strings.HasSuffix(t.Name, "crypto/rand.Reader") })))

		var size *Term

		bufs := map[*Term]bool{}

		c.gateFn(Gate{Name: name, Entry: name,
			OnCall: func(e *Exec, fr *Frame, s *State, in ssa.CallInstruction, cn string, args []*Term, res *Term) {
				if res != nil && random(res) {
					for _, a := range args {
						if a != nil && a.Op != "global" {
							bufs[a] = true
						}

						for v, t := range s.env {
							if t == a {
								if ms, ok := v.(*ssa.MakeSlice); ok {
									size = e.val(fr, s, ms.Len)
								}
							}
						}
					}
				}
			},
			Reqs: []GateReq{
				{ID: "random", Why: "the salt's bytes were read from the cryptographic random source without error", Any: []Lit{OK(random)}},
				{ID: "salt", Why: "the salt is the base64url form of those bytes", Exit: func(e *Exec, x Exit) bool {
					return Call("~base64\\.Encoding\\)\\.EncodeToString$", nil, Has(func(t *Term) bool { return bufs[t] || (t.Op == "mut" && random(t.Args[0])) }))(x.res[0]) || Call("encoding/hex.EncodeToString", Has(func(t *Term) bool { return bufs[t] }))(x.res[0])
				}},
			}}, g)

		// the size is at least 128 bits
		n, ok := int64(0), false
		if size != nil {
			n, ok = constInt(size)
			if !ok && size.Op == "field" {
				n, ok = c.fieldConst(g, size.Name)
			}
		}

		c.oblige(ok && n >= 16, name+"|size", "the salt has less than 128 random bits, or a size that is not fixed", name, nil)
	}
}

// fieldConst is the smallest constant that the package stores in that member of a method's receiver type.
func (c *Ctx) fieldConst(m *ssa.Function, field string) (int64, bool) {
	min, found := int64(0), false
	rt := m.Params[0].Type()

	for _, f := range c.P.pkgFuncs(m.Pkg) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}

				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok || typeName(fa.X.Type()) != typeName(rt) || structOf(fa.X.Type()).Field(fa.Field).Name() != field {
					continue
				}

				k, ok := st.Val.(*ssa.Const)
				if !ok || k.Value == nil {
					return 0, false
				}

				if n := k.Int64(); !found || n < min {
					min, found = n, true
				}
			}
		}
	}

	return min, found
}

func (c *Ctx) issuance() {
	opt := func(n string) Pat { return Opt("issuer.newOpts", n) }
	create := Call("CreateDisclosuresAndDigests")
	signed := Call("jwt.NewJoseSigned", Has(Res(create, 1)))

	c.gate(Gate{Name: "new", Entry: "sdjwt/issuer.New",
		Opaque:  []string{"CreateDisclosuresAndDigests", "jwt.NewJoseSigned", "common.KeyExistsInMap", "jwt.PayloadToMap", "json.MergeCustomFields"},
		NoHavoc: []string{"jwt.NewJoseSigned", "common.KeyExistsInMap"},
		OnCall: func(e *Exec, fr *Frame, s *State, in ssa.CallInstruction, cn string, args []*Term, res *Term) {
			if res == nil {
				return
			}

			where := shortName(in.Parent()) + " at " + c.P.pos(in.Pos())

			switch {
			case create(res):
				ok := false

				for _, a := range res.Args {
					if g := getField(peel(a), "getSalt"); g != nil {
						ok = true

						for _, x := range alts(g) {
							if x.Op == "closure" || x.Op == "func" {
								ok = ok && x.Fn != nil && strings.Contains(x.Fn.Name(), "GenerateSalt")
							} else {
								ok = ok && s.holds(NonNil(is(x)))
							}
						}
					}
				}

				c.oblige(ok, "new|salt", "disclosures are created without a salt function, or with one that is neither the caller's nor the default", where, e.traceString(s, 30))
				c.oblige(s.holds(False(Call("common.KeyExistsInMap", ConstStr("_sd")))), "new|reserved", "claims that contain the digest member are issued", where, e.traceString(s, 30))
			case Call("json.MergeCustomFields")(res):
				alg := getField(peel(res.Args[0]), "SDAlg")
				c.oblige(alg != nil && Call("strings.ToLower", Call("crypto.Hash).String", opt("HashAlg")))(alg), "new|alg", "the declared hash algorithm is not the one used", where, nil)
			}
		},
		Reqs: []GateReq{
			{ID: "created", Why: "the disclosures and digests were created without error", Any: []Lit{OK(create)}},
			{ID: "signed", Why: "the payload with the digests was signed without error", Any: []Lit{OK(signed)}},
			{ID: "result", Why: "the result is the signed token and the disclosures created for it", Exit: func(e *Exec, x Exit) bool {
				r := e.snap(x.st, x.res[0], 0)
				tok, ds := getField(r, "SignedJWT"), getField(r, "Disclosures")

				return tok != nil && ds != nil && (Res(signed, 0)(tok) || Has(signed)(tok)) && (ds.Op == "nil" || Has(Res(create, 0))(ds)) && !Has(Res(create, 1))(ds)
			}},
		}})

	token := Res(Call("issuer.New"), 0)
	set := func(key string) func(e *Exec, s *State) bool {
		return func(e *Exec, s *State) bool {
			for k, v := range s.mem {
				if k.Op == "mapget" && ConstStr(key)(k.Args[1]) && v != nil && e.derives(s, v, token) {
					return true
				}
			}

			return false
		}
	}

	c.gate(Gate{Name: "from-vc", Entry: "sdjwt/issuer.NewFromVC",
		Opaque:  []string{"issuer.New", "jwt.NewJoseSigned", "common.GetKeyFromVC", "ExtractCredentialClaims"},
		NoHavoc: []string{"issuer.New", "jwt.NewJoseSigned", "common.GetKeyFromVC", "ExtractCredentialClaims"},
		OnCall: func(e *Exec, fr *Frame, s *State, in ssa.CallInstruction, cn string, args []*Term, res *Term) {
			if res == nil || !Call("issuer.New")(res) {
				return
			}

			where := shortName(in.Parent()) + " at " + c.P.pos(in.Pos())
			c.oblige(Has(Call("common.GetKeyFromVC", ConstStr("credentialSubject")))(res.Args[1]), "from-vc|subject", "the claims made selectively disclosable are not the credential subject's", where, nil)
			c.oblige(Has(Param(3))(res.Args[4]), "from-vc|options", "the credential subject is issued under other options than the caller's", where, nil)
		},
		Reqs: []GateReq{
			{ID: "issued", Why: "the subject's claims were issued selectively without error", Any: []Lit{OK(Call("issuer.New"))}},
			{ID: "signed", Why: "the credential was signed without error", Any: []Lit{OK(Call("jwt.NewJoseSigned"))}},
			{ID: "subject", Why: "the credential's subject was replaced by the one with digests before signing", Fn: set("credentialSubject")},
			{ID: "alg", Why: "the hash algorithm of the digests was declared in the credential", Fn: set("_sd_alg")},
			{ID: "result", Why: "the result is the signed credential and the disclosures created for it", Exit: func(e *Exec, x Exit) bool {
				r := e.snap(x.st, x.res[0], 0)
				tok, ds := getField(r, "SignedJWT"), getField(r, "Disclosures")

				return tok != nil && ds != nil && Has(Call("jwt.NewJoseSigned", Has(Param(0))))(tok) && Has(Fld(token, "Disclosures"))(ds)
			}},
		}})
}
