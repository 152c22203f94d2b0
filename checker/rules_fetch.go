package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C38", "must-release typestate and must-pass dataflow over every function that makes an HTTP exchange or uses the schema cache, and an effect analysis of the calls to the outside", c38)
}

// makesExchange: the call returns a response and an error.
func makesExchange(ci ssa.CallInstruction) bool {
	rs := ci.Common().Signature().Results()

	h := ci.Common().StaticCallee()

	return rs.Len() == 2 && rs.At(0).Type().String() == "*net/http.Response" && isError(rs.At(1).Type()) && (h == nil || !inModule(h))
}

func c38(c *Ctx) {
	c.Funcs = map[string]bool{}

	var fs []*ssa.Function

	for _, f := range c.P.Funcs {
		if f.Synthetic == "" && f.Blocks != nil && !isTestSupport(fnPkgPath(f)) && !strings.Contains(fnPkgPath(f), "/legacy/test") {
			fs = append(fs, f)
		}
	}

	sort.Slice(fs, func(i, j int) bool { return fs[i].String() < fs[j].String() })

	n := 0

	for _, f := range fs {
		c.outside(f)

		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok && makesExchange(ci) {
					n++

					c.Funcs[shortName(f)] = true
					c.exchangeIn(f, ci)
				}
			}
		}
	}

	for _, f := range fs {
		if callsNamed(f, schemaGet) || callsNamed(f, schemaPut) {
			c.Funcs[shortName(f)] = true
			c.schemaCacheIn(f)
		}
	}

	c.expirable()
	c.oblige(n >= 3, "coverage", "hardly any HTTP exchanges were found: the rule would be vacuous", modPath, nil)
}

func (c *Ctx) exchangeIn(f *ssa.Function, ci ssa.CallInstruction) {
	made := Call(calleeName(ci.Common()))
	resp := Res(made, 0)
	body := Fld(resp, "Body")
	released := func(s *State) bool {
		for t, v := range s.facts {
			if v && t.Op == "released" {
				return true
			}
		}

		return s.holds(NilLit(body))
	}
	c.oblige(configured(ci.Common()), "client:"+shortName(f), shortName(f)+" makes an exchange with another client than the one it was given", c.P.pos(ci.Pos()), nil)

	onCall := func(e *Exec, fr *Frame, s *State, in ssa.CallInstruction, name string, args []*Term, res *Term) {
		if strings.HasSuffix(name, ").Close") && len(args) > 0 && body(e.snap(s, args[0], 0)) {
			s.facts[e.in.mk(Term{Op: "released", Typ: types.Typ[types.Bool]})] = true
		}
	}

	c.gateFn(Gate{Name: "release:" + shortName(f), Entry: shortName(f), OpaqueFn: isExportedFn, Accept: func(*Exec, Exit) bool { return true }, OnCall: onCall,
		Reqs: []GateReq{{ID: "closed", Why: "the body of the response was closed", Exit: func(e *Exec, x Exit) bool {
			return !x.st.holds(OK(made)) || released(x.st)
		}}}}, f)
	c.gateFn(Gate{Name: "status:" + shortName(f), Entry: shortName(f), OpaqueFn: isExportedFn, Reqs: []GateReq{
		{ID: "ok", Why: "the exchange succeeded, or none was made", Exit: func(e *Exec, x Exit) bool {
			return x.st.holds(OK(made)) || !mentions(e, x, made)
		}},
		{ID: "code", Why: "the server's answer has the expected status", Exit: func(e *Exec, x Exit) bool {
			code := Fld(resp, "StatusCode")
			return !x.st.holds(OK(made)) || x.st.holds(Eq(code, ConstInt(200))) || x.st.holds(Eq(code, func(t *Term) bool { return t.Op == "param" }))
		}},
		{ID: "read", Why: "the content was read to its end without error", Exit: func(e *Exec, x Exit) bool {
			return !x.st.holds(OK(made)) || x.st.holds(OK(Call("~^io(/ioutil)?\\.ReadAll$", Has(body)))) || x.st.holds(OK(Call("~\\)\\.Decode$", Has(body))))
		}},
	}}, f)
}

func mentions(e *Exec, x Exit, p Pat) bool {
	for _, r := range x.res {
		if Has(p)(e.snap(x.st, r, 0)) {
			return true
		}
	}

	return false
}

// outside: nothing but exchanges with the caller's client reaches the outside.
func (c *Ctx) outside(f *ssa.Function) {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}

			h := ci.Common().StaticCallee()
			if h == nil || h.Pkg == nil {
				continue
			}

			name := funcName(h)
			bad := false

			switch h.Pkg.Pkg.Path() {
			case "os", "os/exec", "syscall", "net", "plugin", "os/signal", "io/ioutil":
				bad = name != "io/ioutil.ReadAll" && name != "io/ioutil.NopCloser"
			case "net/http":
				bad = nameMatch(name, "~^net/http\\.(Get|Post|PostForm|Head|Serve|ListenAndServe|Handle)")
			case "log":
				bad = nameMatch(name, "~\\.(Fatal|Panic)(f|ln)?$")
			case "runtime/debug", "runtime":
				bad = true
			}

			c.oblige(!bad, "outside:"+shortName(f)+":"+name, shortName(f)+" calls "+name+", which reaches outside of what the caller configured", c.P.pos(in.Pos()), nil)
		}
	}
}

// configured: the client is a member of what the function is called with, or a parameter.
func configured(cc *ssa.CallCommon) bool {
	v := cc.Value
	if !cc.IsInvoke() {
		if len(cc.Args) == 0 {
			return false
		}

		v = cc.Args[0]
	}

	seen := map[ssa.Value]bool{}

	var given func(v ssa.Value) bool
	given = func(v ssa.Value) bool {
		if seen[v] {
			return true
		}

		seen[v] = true

		switch x := v.(type) {
		case *ssa.Parameter, *ssa.FreeVar:
			return true
		case *ssa.UnOp:
			return given(x.X)
		case *ssa.FieldAddr:
			return given(x.X)
		case *ssa.Field:
			return given(x.X)
		case *ssa.ChangeInterface:
			return given(x.X)
		case *ssa.MakeInterface:
			return given(x.X)
		case *ssa.Phi:
			for _, e := range x.Edges {
				if !given(e) {
					return false
				}
			}

			return true
		case *ssa.Alloc: // a variable
			for _, r := range *x.Referrers() {
				if st, ok := r.(*ssa.Store); ok && st.Addr == x && !given(st.Val) {
					return false
				}
			}

			return true
		case *ssa.Call: // a helper that picks it
			h := x.Call.StaticCallee()
			return h != nil && inModule(h)
		}

		return false
	}

	return given(v)
}

const (
	schemaGet = "~verifiable\\.SchemaCache\\)\\.Get$"
	schemaPut = "~verifiable\\.SchemaCache\\)\\.Put$"
)

// schemaCacheIn: what is taken from the cache was found there, and what is put there was fetched from the address that is
// its key.
func (c *Ctx) schemaCacheIn(f *ssa.Function) {
	got := Call(schemaGet)
	fetched := func(t *Term) (url *Term) {
		t.walk(func(x *Term) bool {
			if x.Op == "call" && nameMatch(x.Name, "~^\\(\\*net/http\\.Client\\)\\.(Get|Do)$") && len(x.Args) == 2 {
				url = x.Args[1]
			}

			return true
		})

		return url
	}

	keys := map[*Term]bool{}

	c.gateFn(Gate{Name: "cache:" + shortName(f), Entry: shortName(f), OpaqueFn: isExportedFn, NoHavoc: []string{schemaGet},
		OnCall: func(e *Exec, fr *Frame, s *State, in ssa.CallInstruction, name string, args []*Term, res *Term) {
			switch {
			case nameMatch(name, schemaGet) && len(args) == 2:
				keys[args[1]] = true
			case nameMatch(name, schemaPut) && len(args) == 3:
				v := e.snap(s, args[2], 0)
				u := fetched(v)
				c.oblige(v.Op == "param" || u != nil && (u == args[1] || Has(func(t *Term) bool { return t == args[1] })(u)), "put:"+shortName(f), "something else than what was fetched from the address is cached for it", c.P.pos(in.Pos()), nil)
				keys[args[1]] = true
			}
		},
		Reqs: []GateReq{
			{ID: "found", Why: "what is returned from the cache was found there", Exit: func(e *Exec, x Exit) bool {
				for _, r := range x.res {
					if t := e.snap(x.st, r, 0); Has(Res(got, 0))(t) && !x.st.holds(True(Res(got, 1))) && !mentions(e, x, Res(got, 1)) {
						return false
					}
				}

				return true
			}},
			{ID: "key", Why: "the address looked up, the one fetched from and the one stored under are the same", Exit: func(e *Exec, x Exit) bool {
				for _, r := range x.res {
					if u := fetched(e.snap(x.st, r, 0)); u != nil && len(keys) > 0 && !keys[u] {
						return false
					}
				}

				return len(keys) <= 1
			}},
		}}, f)
}

// expirable: an element counts as found before it expires only, and is what was put.
func (c *Ctx) expirable() {
	const get, put = "verifiable.(*ExpirableSchemaCache).Get", "verifiable.(*ExpirableSchemaCache).Put"

	raw := Call("~verifiable\\.cache\\)\\.\\w+$", nil, nil, Has(Param(1)))
	stored := Res(raw, 0)
	expires := Has(And(func(t *Term) bool { return t.Op == "call" && nameMatch(t.Name, "~Uint64$") }, Has(stored)))
	now := Has(Call("time.Now"))
	since := func(n string, a, b Pat) Pat { return Call("~^\\(time\\.Time\\)\\."+n+"$", a, b) }

	var low *Term

	c.gate(Gate{Name: "expirable", Entry: get, Accept: func(e *Exec, x Exit) bool { return e.eval(x.st, x.res[1]) != no }, Reqs: []GateReq{
		{ID: "found", Why: "the element is in the cache", Any: []Lit{True(Res(raw, 1))}},
		{ID: "unexpired", Why: "it has not expired", Any: []Lit{NotLess(expires, now), Less(now, expires), Eq(now, expires), False(since("After", now, expires)), True(since("After", expires, now)), True(since("Before", now, expires)), False(since("Before", expires, now))}},
		{ID: "value", Why: "what is returned is the element", Exit: func(e *Exec, x Exit) bool {
			t := e.snap(x.st, x.res[0], 0)
			if t.Op == "slice" && stored(t.Args[0]) && t.Args[2] == nil {
				low = t.Args[1]
				return true
			}

			return false
		}},
	}})

	f := c.P.Fn(put)
	if f == nil {
		c.oblige(false, "expirable|put", put+" does not exist any more", "verifiable/credential.go", nil)
		return
	}

	expiry, copied := false, false

	given := func(v ssa.Value) bool {
		if fv, captured := v.(*ssa.FreeVar); captured {
			return fv.Name() == f.Params[2].Name()
		}

		// a parameter of a helper of its own stands for what it is called with
		p, isParam := v.(*ssa.Parameter)

		return v == f.Params[2] || isParam && p.Parent() != f && types.Identical(p.Type(), f.Params[2].Type())
	}

	for _, g := range withHelpers(f) {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(*ssa.Call)
				if !ok {
					continue
				}

				if nameMatch(calleeName(&ci.Call), "~(PutUint64|AppendUint64)$") {
					expiry = expiry || dependsOn(ci.Call.Args[len(ci.Call.Args)-1], func(v ssa.Value) bool {
						fa, ok := v.(*ssa.FieldAddr)
						return ok && structField(fa.X.Type(), fa.Field) == "expiration"
					})
				}

				if b, ok := ci.Call.Value.(*ssa.Builtin); ok && len(ci.Call.Args) == 2 && dependsOn(ci.Call.Args[1], given) {
					switch b.Name() {
					case "append":
						copied = true
					case "copy":
						sl, ok := ci.Call.Args[0].(*ssa.Slice)
						if ok && sl.Low != nil && low != nil {
							k, isConst := sl.Low.(*ssa.Const)
							copied = copied || isConst && low.Op == "const" && low.Val != nil && k.Value != nil && k.Value.ExactString() == low.Val.ExactString()
						}
					}
				}
			}
		}
	}

	c.oblige(expiry, "expirable|expiry", "when an element expires does not depend on the duration the cache was made with", c.P.pos(f.Pos()), nil)
	c.oblige(copied, "expirable|copied", "the element is not stored where it is read from", c.P.pos(f.Pos()), nil)
}

// dependsOn: some value that v is computed from.
func dependsOn(v ssa.Value, p func(ssa.Value) bool) bool {
	seen := map[ssa.Value]bool{}

	var walk func(v ssa.Value) bool
	walk = func(v ssa.Value) bool {
		if v == nil || seen[v] {
			return false
		}

		seen[v] = true

		if p(v) {
			return true
		}

		in, ok := v.(ssa.Instruction)
		if !ok {
			return false
		}

		for _, op := range in.Operands(nil) {
			if *op != nil && walk(*op) {
				return true
			}
		}

		if a, ok := v.(*ssa.Alloc); ok {
			for _, r := range *a.Referrers() {
				if st, ok := r.(*ssa.Store); ok && st.Addr == a && walk(st.Val) {
					return true
				}
			}
		}

		return false
	}

	return walk(v)
}
