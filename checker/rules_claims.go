package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C31", "must-pass dataflow and value provenance over the encoders and decoders of JWT and CWT claims: each registered claim is filled from, and refines, exactly its own credential member", c31)
}

// claimMembers are the members a registered claim stands for, by data model version ("" is both).
var claimMembers = []struct{ claim, v1, v2 string }{
	{"Issuer", "issuer", "issuer"}, {"ID", "id", "id"}, {"NotBefore", "issuanceDate", "validFrom"}, {"IssuedAt", "issuanceDate", "validFrom"}, {"Expiry", "expirationDate", "validUntil"},
}

func c31(c *Ctx) {
	c.claimRefiners()
	c.claimEncoders()
	c.presClaims()
}

// candidates are the package's functions with a parameter (or receiver) of that type which may fail.
func (c *Ctx) candidates(pkg, typ string) (fs []*ssa.Function) {
	for _, p := range c.P.SSA.AllPackages() {
		if p.Pkg == nil || short(p.Pkg.Path()) != pkg {
			continue
		}

		for _, f := range c.P.pkgFuncs(p) {
			if paramOf(f, typ) >= 0 && errAt(f) >= 0 && f.Blocks != nil && f.Synthetic == "" {
				fs = append(fs, f)
			}
		}
	}

	return
}

func exactly(t *Term) Pat { return func(x *Term) bool { return x == t } }

// theMap is the map itself, of a map with its entries.
func theMap(t *Term) *Term {
	if t != nil && t.Op == "maplit" {
		return t.Args[0]
	}

	return t
}

// memOf is what a map holds under a constant key on this path.
func memOf(s *State, m Pat, key string) []*Term {
	var out []*Term

	for l, v := range s.mem {
		if l.Op == "mapget" && ConstStr(key)(l.Args[1]) && m(l.Args[0]) {
			out = append(out, v)
		}
	}

	return out
}

func (c *Ctx) claimRefiners() {
	refine := func(p int) []GateReq {
		vc := Fld(Param(p), "VC")
		claims := Fld(Param(p), "Claims")

		var reqs []GateReq

		for _, m := range claimMembers {
			src := Fld(claims, m.claim)
			from := Has(src)
			if m.claim == "NotBefore" { // both stand for the same member
				from = Has(Or(src, Fld(claims, "IssuedAt")))
			}

			reqs = append(reqs, GateReq{ID: "refine-" + m.claim, Why: "the claim " + m.claim + " replaces the member it stands for",
				Any: []Lit{Eq(src, ConstStr("")), Empty(src), NilLit(src), NilLit(claims)},
				Fn: func(e *Exec, s *State) bool {
					for _, key := range []string{m.v1, m.v2} {
						for _, v := range append(memOf(s, vc, key), memOf(s, Has(MapGet(vc, ConstStr(key))), "id")...) {
							if from(e.snap(s, v, 0)) {
								return true
							}
						}
					}

					// an issuer that is neither a name nor an object stays what it is
					return m.claim == "Issuer" && len(s.find(false, func(t *Term) bool {
						return t.Op == "istype" && Has(MapGet(vc, ConstStr("issuer")))(t.Args[0])
					})) > 1
				}})
		}

		iss := Fld(claims, "Issuer")
		own := Has(MapGet(vc, ConstStr("issuer")))

		return append(reqs, GateReq{ID: "issuer-mismatch", Why: "the issuer claim and the credential's issuer do not name different DIDs", Any: []Lit{
			NilLit(claims), Empty(iss), False(HasKey(vc, ConstStr("issuer"))), False(Call("strings.HasPrefix", iss)), False(Call("strings.HasPrefix", Or(own, ConstStr("")))), Eq(iss, Or(own, ConstStr("")))}})
	}

	members := map[string][]string{}
	for _, m := range claimMembers {
		members[m.v1] = append(members[m.v1], m.claim)
		if m.v2 != m.v1 {
			members[m.v2] = append(members[m.v2], m.claim)
		}
	}

	var refiners []string

	for _, f := range c.candidates("verifiable", "verifiable.JWTCredClaims") {
		p := paramOf(f, "verifiable.JWTCredClaims")
		vc, claims := Fld(Param(p), "VC"), Fld(Param(p), "Claims")

		g := Gate{Name: "refine", Entry: funcName(f), Opaque: []string{"verifiable.HasBaseContext"}, Reqs: refine(p)}

		try := &Ctx{P: c.P, Prop: c.Prop, seen: map[string]bool{}}
		if try.gateFn(g, f); len(try.Findings) > 0 {
			continue
		}

		refiners = append(refiners, funcName(f))

		g.OnInstr = func(e *Exec, fr *Frame, s *State, in ssa.Instruction) {
			x, ok := in.(*ssa.MapUpdate)
			if !ok {
				return
			}

			key, isC := constStr(e.val(fr, s, x.Key))
			m := e.val(fr, s, x.Map)
			inner := Has(MapGet(vc, ConstStr("issuer")))(m)

			if !vc(m) && !inner {
				return
			}

			where := shortName(in.Parent()) + " at " + c.P.pos(in.Pos())
			if inner {
				c.oblige(isC && key == "id", "refine|issuer-member", "a claim replaces another member of the issuer than its identifier", where, nil)
				key = "issuer"
			}

			v := e.snap(s, e.val(fr, s, x.Value), 0)
			ok = false

			for _, cl := range members[key] {
				ok = ok || Has(Fld(claims, cl))(v)
			}

			c.oblige(isC && ok, "refine|member|"+key, "a member is replaced by something else than the claim that stands for it", where, nil)

			v2 := len(s.find(true, eqPat(Any, ConstStr(ctxV2)))) > 0 || s.holds(True(Call("verifiable.HasBaseContext", vc, ConstStr(ctxV2))))

			switch key {
			case "validFrom", "validUntil":
				c.oblige(v2, "refine|version|"+key, "a member of version 2 is set in a credential that is not known to be of version 2", where, nil)
			case "issuanceDate", "expirationDate":
				c.oblige(!v2, "refine|version|"+key, "a member of version 1 is set in a credential of version 2", where, nil)
			}
		}

		c.gateFn(g, f)
	}

	c.oblige(len(refiners) > 0, "refine|exists", "no function applies every registered claim to the credential it is about", "verifiable.JWTCredClaims", nil)
	c.refined(refiners)
}

// refined: the credential in decoded claims is used only after the claims were applied to it.
func (c *Ctx) refined(refiners []string) {
	n := 0

	for _, f := range c.P.Funcs {
		if short(fnPkgPath(f)) != "verifiable" {
			continue
		}

		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				a, ok := in.(*ssa.Alloc)
				if !ok || !strings.HasSuffix(pointee(a.Type()), "verifiable.JWTCredClaims") {
					continue
				}

				var calls, reads []ssa.Instruction

				stored := false

				for _, r := range *a.Referrers() {
					switch x := r.(type) {
					case *ssa.FieldAddr:
						if structOf(x.X.Type()).Field(x.Field).Name() != "VC" {
							continue
						}

						for _, u := range *x.Referrers() {
							if _, isStore := u.(*ssa.Store); isStore {
								stored = true
							} else {
								reads = append(reads, u)
							}
						}
					case ssa.CallInstruction:
						if oneOf(calleeName(x.Common()), refiners) {
							calls = append(calls, x)
						}
					}
				}

				if stored {
					continue
				}

				for _, u := range reads {
					n++
					done := false

					for _, call := range calls {
						done = done || call.Block() == u.Block() && indexIn(call) < indexIn(u) || call.Block() != u.Block() && call.Block().Dominates(u.Block())
					}

					c.oblige(done, "refined|"+shortName(f), "the credential in a token is used without the token's registered claims applied to it", shortName(f)+" at "+c.P.pos(u.Pos()), nil)
				}
			}
		}
	}

	c.oblige(n > 0, "refined|uses", "no use of decoded credential claims was found", "verifiable", nil)
}

func (c *Ctx) claimEncoders() {
	for _, enc := range []struct{ name, entry, claims string }{
		{"jwt", "verifiable.(*Credential).JWTClaims", "Claims"}, {"cwt", "verifiable.(*Credential).CWTClaims", "CWTClaims"},
	} {
		contents := func(n string) Pat { return Fld(Fld(Param(0), "credentialContents"), n) }
		date := func(n string) Pat { return Call("jwt.NewNumericDate", Has(contents(n))) }
		subject := Has(Call("verifiable.SubjectID", contents("Subject")))
		want := map[string]Pat{"Issuer": Fld(contents("Issuer"), "ID"), "ID": contents("ID"), "Subject": Alts(subject), "Expiry": date("Expired"), "IssuedAt": date("Issued"), "NotBefore": date("Issued")}
		empty := map[string]Lit{"Issuer": NilLit(contents("Issuer")), "Expiry": NilLit(contents("Expired")), "IssuedAt": NilLit(contents("Issued")), "NotBefore": NilLit(contents("Issued"))}

		var reqs []GateReq

		for n, p := range want {
			reqs = append(reqs, GateReq{ID: "claim-" + n, Why: "the claim " + n + " is the credential's own", Exit: func(e *Exec, x Exit) bool {
				cl := getField(e.snap(x.st, x.res[0], 0), enc.claims)
				for cl != nil && cl.Op == "ref" {
					cl = cl.Args[0]
				}

				if cl == nil {
					return false
				}

				v := getField(cl, n)
				if l, ok := empty[n]; ok && x.st.holds(l) {
					return v != nil && (v.Op == "nil" || ConstStr("")(v))
				}

				return v != nil && p(v)
			}})
		}

		var split []Lit
		for _, l := range empty {
			split = append(split, l)
		}

		minimise := False(Any) // this encoder never does
		if enc.name == "jwt" {
			minimise = True(Param(1))
			split = append(split, minimise)
		}

		type put struct {
			m          *Term
			key, where string
		}

		var puts []put

		made := map[*Term]bool{}
		carried := []string{"expirationDate", "issuanceDate", "validUntil", "validFrom", "id"}

		for _, k := range carried {
			reqs = append(reqs, GateReq{ID: "minimised-" + k, Why: "a minimised credential does not repeat what the claims carry", Exit: func(e *Exec, x Exit) bool {
				vc := theMap(getFieldDeep(e.snap(x.st, x.res[0], 0), "VC"))

				return vc != nil && (x.st.holds(Lit{P: minimise.P, Pos: !minimise.Pos}) || enc.name == "cwt" || x.st.holds(False(HasKey(exactly(vc), ConstStr(k)))))
			}})
		}

		reqs = append(reqs, GateReq{ID: "content", Why: "the claims carry the credential's own content", Exit: func(e *Exec, x Exit) bool {
			vc := theMap(getFieldDeep(e.snap(x.st, x.res[0], 0), "VC"))
			own := Fld(Param(0), "credentialJSON")
			made[vc] = true

			return vc != nil && (own(vc) || e.derives(x.st, vc, own) || x.st.holds(Forall(own, HasKey(exactly(vc), Any), true)))
		}})

		c.gate(Gate{Name: enc.name, Entry: enc.entry, Opaque: []string{"verifiable.SubjectID"}, Reqs: reqs, Split: split,
			OnInstr: func(e *Exec, fr *Frame, s *State, in ssa.Instruction) {
				var m, key *Term

				del := false

				switch x := in.(type) {
				case *ssa.MapUpdate:
					m, key = e.val(fr, s, x.Map), e.val(fr, s, x.Key)
				case *ssa.Call:
					if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "delete" {
						m, key, del = e.val(fr, s, x.Call.Args[0]), e.val(fr, s, x.Call.Args[1]), true
					}
				}

				k, isC := constStr(orNil(key))
				if m == nil || !isC {
					return
				}

				where := shortName(in.Parent()) + " at " + c.P.pos(in.Pos())

				if del {
					c.oblige(s.holds(minimise) && oneOf(k, carried), enc.name+"|dropped|"+k, "a member is dropped that no claim carries, or from a credential that is not minimised", where, nil)
				} else if !s.holds(minimise) || k != "issuer" {
					puts = append(puts, put{m, k, where})
				}
			}})

		for _, u := range puts {
			c.oblige(!made[u.m], enc.name+"|replaced|"+u.key, "a member of the credential is replaced in the claims", u.where, nil)
		}
	}
}

// presClaims: the claims of a presentation are its own, and refine its own members.
func (c *Ctx) presClaims() {
	for _, entry := range []string{"verifiable.(*Presentation).JWTClaims", "verifiable.(*Presentation).CWTClaims"} {
		own := func(n string) Pat { return Fld(Param(0), n) }
		plain := False(Param(2))

		claim := func(n string, want Pat, none Lit) GateReq {
			return GateReq{ID: "claim-" + n, Why: "the claim " + n + " is the presentation's own", Exit: func(e *Exec, x Exit) bool {
				v := getFieldDeep(e.snap(x.st, x.res[0], 0), n)

				return v != nil && (want(v) || x.st.holds(none) && (v.Op == "nil" || v.Op == "zero"))
			}}
		}

		member := func(k, n string) GateReq {
			return GateReq{ID: "vp-" + k, Why: "a presentation that is not minimised keeps its " + k, Exit: func(e *Exec, x Exit) bool {
				m := theMap(getFieldDeep(e.snap(x.st, x.res[0], 0), "Presentation"))
				if m == nil {
					return false
				}

				for _, v := range memOf(x.st, exactly(m), k) {
					if Alts(own(n))(e.snap(x.st, v, 0)) {
						return true
					}
				}

				return !x.st.holds(plain) || x.st.holds(Empty(own(n)))
			}}
		}

		c.gate(Gate{Name: "presentation", Entry: entry, Split: []Lit{plain, Empty(Param(1)), Empty(own("ID")), Empty(own("Holder"))},
			Opaque: []string{"verifiable.(*Credential).*"},
			Reqs: []GateReq{
				claim("Issuer", own("Holder"), False(Any)), claim("ID", own("ID"), False(Any)), claim("Audience", Alts(Has(Param(1))), Empty(Param(1))),
				member("id", "ID"), member("holder", "Holder"),
			}})
	}

	c.presRefiners()
}

// presRefiners: the decoded presentation is used only with its registered claims applied.
func (c *Ctx) presRefiners() {
	typ := "verifiable.JWTPresClaims"
	pairs := map[string]string{"holder": "Issuer", "id": "ID"}

	var refiners []string

	for _, f := range c.candidates("verifiable", typ) {
		p := paramOf(f, typ)
		vp, claims := Fld(Param(p), "Presentation"), Fld(Param(p), "Claims")

		g := Gate{Name: "refine-vp", Entry: funcName(f)}

		for k, cl := range pairs {
			g.Reqs = append(g.Reqs, GateReq{ID: "refine-" + cl, Why: "the claim " + cl + " replaces the member it stands for",
				Any: []Lit{Empty(Fld(claims, cl)), Eq(Fld(claims, cl), ConstStr("")), NilLit(claims)},
				Fn: func(e *Exec, s *State) bool {
					for _, v := range memOf(s, vp, k) {
						if Has(Fld(claims, cl))(e.snap(s, v, 0)) {
							return true
						}
					}

					return false
				}})
		}

		try := &Ctx{P: c.P, Prop: c.Prop, seen: map[string]bool{}}
		if try.gateFn(g, f); len(try.Findings) > 0 {
			continue
		}

		refiners = append(refiners, funcName(f))

		g.OnInstr = func(e *Exec, fr *Frame, s *State, in ssa.Instruction) {
			x, ok := in.(*ssa.MapUpdate)
			if !ok || !vp(e.val(fr, s, x.Map)) {
				return
			}

			key, isC := constStr(e.val(fr, s, x.Key))
			cl := pairs[key]
			v := e.snap(s, e.val(fr, s, x.Value), 0)

			c.oblige(isC && cl != "" && Has(Fld(claims, cl))(v), "refine-vp|member|"+key, "a member of the presentation is replaced by something else than the claim that stands for it",
				shortName(in.Parent())+" at "+c.P.pos(in.Pos()), nil)
		}

		c.gateFn(g, f)
	}

	c.oblige(len(refiners) > 0, "refine-vp|exists", "no function applies the registered claims to the presentation they are about", typ, nil)
	c.presRefined(typ, refiners)
}

// presRefined: every function that reads the presentation out of decoded claims calls a refiner first.
func (c *Ctx) presRefined(typ string, refiners []string) {
	n := 0

	for _, f := range c.P.Funcs {
		if short(fnPkgPath(f)) != "verifiable" || oneOf(funcName(f), refiners) {
			continue
		}

		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				a, ok := in.(*ssa.FieldAddr)
				if !ok || !strings.HasSuffix(pointee(a.X.Type()), typ) || structOf(a.X.Type()).Field(a.Field).Name() != "Presentation" {
					continue
				}

				if storesTo(a) || c.makesClaims(a.X, typ) { // claims made here
					continue
				}

				n++
				done := c.refinedBefore(a.X, a, refiners, typ, 0)

				c.oblige(done, "refined-vp|"+shortName(f), "the presentation in a token is used without the token's registered claims applied to it", shortName(f)+" at "+c.P.pos(a.Pos()), nil)
			}
		}
	}

	c.oblige(n > 0, "refined-vp|uses", "no use of a decoded presentation was found", typ, nil)
}

// makesClaims: the value comes from a function that puts a presentation into claims itself.
func (c *Ctx) makesClaims(v ssa.Value, typ string) bool {
	if x, ok := v.(*ssa.Extract); ok {
		v = x.Tuple
	}

	call, ok := v.(*ssa.Call)
	if !ok || call.Call.StaticCallee() == nil {
		return false
	}

	for _, f := range c.P.reach(call.Call.StaticCallee(), short(fnPkgPath(call.Call.StaticCallee()))) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				a, ok := in.(*ssa.FieldAddr)
				if ok && strings.HasSuffix(pointee(a.X.Type()), typ) && structOf(a.X.Type()).Field(a.Field).Name() == "Presentation" && storesTo(a) {
					return true
				}
			}
		}
	}

	return false
}

// storesTo: the address is only written.
func storesTo(a *ssa.FieldAddr) bool {
	for _, r := range *a.Referrers() {
		if st, ok := r.(*ssa.Store); !ok || st.Addr != a {
			return false
		}
	}

	return true
}

// refinedBefore: a refiner was called on v before in, here or in every caller that handed it in.
func (c *Ctx) refinedBefore(v ssa.Value, in ssa.Instruction, refiners []string, typ string, depth int) bool {
	if depth > 0 && c.makesClaims(v, typ) {
		return true
	}

	b := in.Block()

	for _, r := range *v.Referrers() {
		call, ok := r.(ssa.CallInstruction)
		if !ok || !oneOf(calleeName(call.Common()), refiners) {
			continue
		}

		if call.Block() == b && indexIn(call) < indexIn(in) || call.Block() != b && call.Block().Dominates(b) {
			return true
		}
	}

	p, ok := v.(*ssa.Parameter)
	if !ok || depth > 4 || isExportedFn(p.Parent()) {
		return false
	}

	callers := c.P.callersOf(p.Parent())

	for i, q := range p.Parent().Params {
		for _, ci := range callers {
			if q == p && !(i < len(ci.Common().Args) && c.refinedBefore(ci.Common().Args[i], ci, refiners, typ, depth+1)) {
				return false
			}
		}
	}

	return len(callers) > 0
}
