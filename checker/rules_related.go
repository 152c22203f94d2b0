package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C32", "must-pass dataflow over parsing and related-resource validation, goroutines included: every success path compared, for every declared resource, the digest that was computed from the fetched content with the declared one, under the declared algorithm, or delivered an error", c32)
}

func c32(c *Ctx) {
	const (
		validateFn = "verifiable.(*RelatedResourceValidator).Validate"
		fetchFn    = "verifiable.(*RelatedResourceValidator).Fetch"
		validate   = "~^\\(\\*verifiable\\.RelatedResourceValidator\\)\\.Validate$"
		fetch      = "~^\\(\\*verifiable\\.RelatedResourceValidator\\)\\.Fetch$"
	)

	// parsing runs the validation, on what it returns
	parsers := "~^\\(\\*?verifiable\\.\\w+\\)\\.Parse$"
	parsed := Call(parsers)
	c.gate(Gate{Name: "parse", Entry: "verifiable.ParseCredential", Opaque: []string{parsers, "~\\)\\.checkProof$", validate}, NoHavoc: []string{parsers, validate, "~\\)\\.checkProof$"},
		Reqs: []GateReq{
			{ID: "validated", Why: "the related resources of the parsed credential were validated, or the caller disabled that", Any: []Lit{
				True(Opt("verifiable.credentialOpts", "disableRelatedResourceCheck")),
				OK(Call(validate, nil, func(t *Term) bool { return t.Op == "slicelit" && len(t.Args) == 1 && Res(parsed, 0)(t.Args[0]) }))}},
			{ID: "same", Why: "the credential returned is the parsed one", Exit: func(e *Exec, x Exit) bool { return Alts(Res(parsed, 0))(e.snap(x.st, x.res[0], 0)) }},
		}})
	c.gate(Gate{Name: "presentation", Entry: "verifiable.ParsePresentation", Anchors: []string{validate, "verifiable.ParseCredential", "jose.ParseJWS"}, Opaque: []string{validate, "verifiable.ParseCredential"}, NoHavoc: []string{validate},
		Reqs: []GateReq{{ID: "validated", Why: "the related resources of the presented credentials were validated when the caller asked for that", Any: []Lit{
			False(Opt("verifiable.presentationOpts", "checkRelatedResource")), OK(Call(validate, nil, func(t *Term) bool { return t.Op != "slice" }))}}}})
	c.notByDefault("disableRelatedResourceCheck", "verifiable.WithDisabledRelatedResourceCheck")

	// fetching: what is returned was computed from the content at the URL
	url := Param(1)
	cache := Call("~expirable\\.LRU.*\\)\\.(Get|Peek)$", FldOf("verifiable.RelatedResourceValidatorOptions", "Cache"), url)
	resp := Call("~\\)\\.(Do|Get)$", nil, Or(url, Has(func(t *Term) bool {
		return t.Op == "call" && nameMatch(t.Name, "~^net/http\\.NewRequest") && containsArg(t, url)
	})))
	body := Call("io.ReadAll", Has(Fld(Res(resp, 0), "Body")))
	cached := Res(cache, 1)
	fresh := func(l ...Lit) []Lit { return append(l, True(cached)) }
	digest := func(t *Term, alg string) bool {
		t = unref(t)
		found := false

		t.walk(func(x *Term) bool {
			found = found || x.Op == "call" && nameMatch(x.Name, "~^crypto/sha(256|512)\\.Sum"+alg+"$") && len(x.Args) > 0 && Res(body, 0)(x.Args[0])
			return !found
		})

		return found
	}
	algs := []string{"256", "384", "512"}
	computed := func(t *Term) bool {
		for _, a := range algs {
			f := getFieldDeep(t, "Sha"+a+"Hash")
			if f == nil || !digest(f, a) {
				return false
			}
		}

		return true
	}
	c.gate(Gate{Name: "fetch", Entry: fetchFn, Reqs: []GateReq{
		{ID: "requested", Why: "the URL was requested without error, unless its digests are cached", Any: fresh(OK(resp))},
		{ID: "status", Why: "the server answered with OK", Any: fresh(Eq(Fld(Res(resp, 0), "StatusCode"), ConstInt(200)))},
		{ID: "read", Why: "the content was read without error", Any: fresh(OK(body))},
		{ID: "content", Why: "there is content", Any: fresh(NonEmpty(Res(body, 0)), Less(ConstInt(0), Len(Res(body, 0))))},
		{ID: "digests", Why: "the digests returned are those of the content, or the cached ones", Exit: func(e *Exec, x Exit) bool {
			r := e.snap(x.st, x.res[0], 0)
			return x.st.holds(True(cached)) && Res(cache, 0)(unref(r)) || computed(r)
		}},
	}, OnCall: func(e *Exec, fr *Frame, s *State, in ssa.CallInstruction, name string, args []*Term, res *Term) {
		if !nameMatch(name, "~expirable\\.LRU.*\\)\\.Add$") {
			return
		}

		c.oblige(len(args) == 3 && url(args[1]) && computed(e.snap(s, args[2], 0)), "fetch|cached", "something else than the digests of the content is cached for the URL", c.P.pos(in.Pos()), nil)
	}})

	pkg := c.P.Fn(validateFn).Pkg
	own := c.P.reach(c.P.Fn(fetchFn), "verifiable")

	for _, f := range c.P.pkgFuncs(pkg) {
		if oneOfFn(f, own) {
			continue
		}

		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok && strings.HasPrefix(calleeName(ci.Common()), "(*github.com/hashicorp/golang-lru/v2/expirable.LRU") {
					c.oblige(!nameMatch(calleeName(ci.Common()), "~\\)\\.Add$"), "cache|"+shortName(f), "digests are cached elsewhere than where they are computed", c.P.pos(in.Pos()), nil)
				}
			}
		}
	}

	c.relatedValidate(validateFn, fetch)
}

func unref(t *Term) *Term {
	for t != nil && (t.Op == "ref" || t.Op == "assert" || t.Op == "slice" && t.Args[1] == nil && t.Args[2] == nil) {
		t = t.Args[0]
	}

	return t
}

// notByDefault: the option is set by the named exported function only.
func (c *Ctx) notByDefault(field, maker string) {
	for _, f := range c.P.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}

				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok || structOf(fa.X.Type()).Field(fa.Field).Name() != field {
					continue
				}

				top := f
				for top.Parent() != nil {
					top = top.Parent()
				}

				// or by a helper that only it calls
				by := short(funcName(top)) == maker
				if m := c.P.Fn(maker); m != nil && !by && !isExportedFn(top) {
					for _, g := range withHelpers(m) {
						by = by || g == top
					}

					for _, ci := range c.P.callersOf(top) {
						by = by && short(funcName(ci.Parent())) == maker
					}
				}

				k, isConst := st.Val.(*ssa.Const)
				off := isConst && (k.Value == nil || k.Value.String() == "false")
				c.oblige(off || by, "option|"+field, "the check is disabled elsewhere than where the caller asks for it", shortName(f)+" ("+c.P.pos(in.Pos())+")", nil)
			}
		}
	}
}

func (c *Ctx) relatedValidate(validate, fetch string) {
	given := Param(1)
	resources := And(func(t *Term) bool { return t.Op == "field" && t.Name == "RelatedResources" }, Has(LoopElem(given)))
	el := Alts(LoopElem(resources))
	of := func(n string) Pat { return Fld(el, n) }
	sri, multi := of("DigestSRI"), of("DigestMultiBase")
	got := Call(fetch, nil, of("Id"))
	field := func(a string) Pat {
		return And(func(t *Term) bool { return t.Op == "field" && t.Name == "Sha"+a+"Hash" }, Has(Res(got, 0)))
	}
	split := Call("~^strings\\.Split(N)?$", sri, ConstStr("-"))
	part := func(i int) Pat {
		return func(t *Term) bool {
			if t.Op == "elem" {
				return isConstInt(t.Args[1], int64(i)) && split(t.Args[0])
			}

			return Res(Call("strings.Cut", sri, ConstStr("-")), i)(t)
		}
	}
	name := func(t *Term) bool { return Call("~^strings\\.ToLower$", part(0))(t) || part(0)(t) }
	decode := func(p Pat) Pat { return Call("~multibase\\.Decode$", p) }
	declared := func(p Pat) Pat {
		return func(t *Term) bool {
			if t.Op == "slice" && isConstInt(t.Args[1], 2) && t.Args[2] == nil {
				t = t.Args[0]
			}

			return Res(decode(p), 1)(t)
		}
	}
	bytesOf := func(i int64, p Pat) Pat {
		return func(t *Term) bool { return t.Op == "elem" && isConstInt(t.Args[1], i) && Res(decode(p), 1)(t.Args[0]) }
	}
	same := Eq
	stripped := func(t *Term) bool { return t.Op == "slice" }
	algIs := func(a string) []Lit {
		return []Lit{Eq(name, ConstStr("sha"+a)), True(Call("strings.EqualFold", name, ConstStr("sha"+a))), True(Call("strings.EqualFold", ConstStr("sha"+a), name))}
	}
	any := func(s *State, ls ...Lit) bool {
		for _, l := range ls {
			if s.holds(l) {
				return true
			}
		}

		return false
	}
	matched := func(s *State) bool {
		if !s.holds(OK(got)) {
			return false
		}

		for _, a := range []string{"256", "384", "512"} {
			for i, p := range []Pat{part(1), multi} {
				if !s.holds(OK(decode(p))) || !s.holds(same(field(a), declared(p))) {
					continue
				}

				// a multihash header may have been stripped
				if s.holds(same(field(a), And(stripped, declared(p)))) && (!s.holds(Eq(bytesOf(0, p), ConstInt(0x12))) || !s.holds(Eq(bytesOf(1, p), ConstInt(0x20)))) {
					continue
				}

				// exactly two parts
				if i == 0 && !any(s, Eq(Len(split), ConstInt(2)), True(Res(Call("strings.Cut", sri, ConstStr("-")), 2))) {
					continue
				}

				if i == 0 && any(s, algIs(a)...) || i == 1 && a == "256" && s.holds(Empty(sri)) {
					return true
				}
			}
		}

		return false
	}

	nonNil := func(e *Exec, s *State, t *Term) bool {
		var f func(t *Term) bool
		f = func(t *Term) bool { // or a join of errors, one of which is not nil
			if e.isNil(s, t) == no {
				return true
			}

			if t.Op == "call" && t.Name == "errors.Join" && len(t.Args) == 1 && t.Args[0].Op == "slicelit" {
				for _, a := range t.Args[0].Args {
					if f(a) {
						return true
					}
				}
			}

			return false
		}

		return f(t)
	}
	delivered := func(e *Exec, s *State) bool {
		for f, v := range s.facts {
			if !v {
				continue
			}

			if f.Op == "joined" {
				return true
			}

			if f.Op == "sent" && nonNil(e, s, f.Args[1]) {
				// the channel is one that is received from
				for g := range s.facts {
					if (g.Op == "collected" || g.Op == "received") && g.Args[0] == f.Args[0] {
						return true
					}
				}
			}
		}

		return false
	}
	chans := func(t *Term) bool {
		if t.Typ == nil || t.Op == "slice" { // all of them
			return false
		}

		sl, ok := t.Typ.Underlying().(*types.Slice)
		if !ok {
			return false
		}

		_, ok = sl.Elem().Underlying().(*types.Chan)

		return ok
	}

	// without channels, there is nothing to await
	awaited := []Lit{True(func(t *Term) bool { return t.Op == "received" && LoopElem(chans)(t.Args[0]) })}
	sends := false

	for _, f := range c.P.reach(c.P.Fn(validate), "verifiable") {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				_, ok := in.(*ssa.Send)
				sends = sends || ok
			}
		}

		c.errorsOf(f)
	}

	reqs := []GateReq{{ID: "every-resource", Why: "for every resource of every credential, the digest of what was fetched from its id equals the declared one, or an error was delivered", Each: true, Over: resources, Outer: given,
		Fn: func(e *Exec, s *State) bool { return matched(s) || delivered(e, s) }}}
	if sends {
		reqs = append(reqs, GateReq{ID: "every-error", Why: "the outcome of every goroutine was awaited", Each: true, Over: chans, Any: awaited})
	}

	c.gate(Gate{Name: "validate", Entry: validate, Opaque: []string{fetch, "~\\)\\.Contents$"}, NoHavoc: []string{fetch, "~\\)\\.Contents$"}, Goroutines: true,
		OnInstr: func(e *Exec, fr *Frame, s *State, in ssa.Instruction) {
			if st, ok := in.(*ssa.Store); ok && isError(st.Val.Type()) && collectedLater(st) && nonNil(e, s, e.val(fr, s, st.Val)) {
				s.facts[e.in.mk(Term{Op: "joined", Typ: types.Typ[types.Bool]})] = true
			}

			ci, ok := in.(*ssa.Call)
			if !ok {
				return
			}

			if calleeName(&ci.Call) == "errors.Join" && kept(ci) || isAppendOfErrors(ci) {
				if t := e.snap(s, e.val(fr, s, ci.Call.Args[len(ci.Call.Args)-1]), 0); t.Op == "slicelit" {
					for _, a := range t.Args {
						if nonNil(e, s, a) {
							s.facts[e.in.mk(Term{Op: "joined", Typ: types.Typ[types.Bool]})] = true
						}
					}
				}
			}

			if b, ok := ci.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" && chans(e.in.mk(Term{Op: "x", Typ: ci.Type()})) {
				t := e.snap(s, e.val(fr, s, ci.Call.Args[1]), 0)
				if t.Op == "slicelit" {
					for _, a := range t.Args {
						s.facts[e.in.mk(Term{Op: "collected", Args: []*Term{a}, Typ: types.Typ[types.Bool]})] = true
					}
				}
			}
		},
		Reqs: reqs})
}

// kept: the value outlives the expression it occurs in.
func kept(v ssa.Value) bool {
	for _, r := range *v.Referrers() {
		switch r.(type) {
		case *ssa.Phi, *ssa.Return, *ssa.Store:
			return true
		}
	}

	return false
}

func isAppendOfErrors(ci *ssa.Call) bool {
	b, ok := ci.Call.Value.(*ssa.Builtin)
	if !ok || b.Name() != "append" || !kept(ci) {
		return false
	}

	sl, ok := ci.Type().Underlying().(*types.Slice)

	return ok && isError(sl.Elem())
}

// collectedLater: the error is put into a slice that the function, or the one around it, joins or goes through.
func collectedLater(st *ssa.Store) bool {
	ix, ok := st.Addr.(*ssa.IndexAddr)
	if !ok {
		return false
	}

	if _, ok := ix.X.Type().Underlying().(*types.Slice); !ok {
		return false
	}

	where := valuePath(ix.X, 0)

	for f := st.Parent(); f != nil; f = f.Parent() {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Call:
					if calleeName(&x.Call) == "errors.Join" && len(x.Call.Args) == 1 && valuePath(x.Call.Args[0], 0) == where && kept(x) {
						return true
					}
				case *ssa.IndexAddr:
					if x != ix && f != st.Parent() && valuePath(x.X, 0) == where {
						return true
					}
				}
			}
		}
	}

	return false
}
