package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C20", "must-pass dataflow over the status check: every success path has, for every status entry of the credential, validated the entry, resolved the list the entry refers to, compared the issuers, decoded that list within bounds and found the bit at the entry's own index clear; the entry validators and the bit-string codec are decided likewise, and each status type is tied to the validator that accepts it", c20)
	register("C21", "must-pass dataflow plus resource typestate over every place that receives an HTTP response: a usable result needs a nil transport error, a success status and a nil read error, and on every path on which a response was received its body is closed", c21)
}

func c20(c *Ctx) {
	entries := Fld(Fld(Param(1), "credentialContents"), "Status")
	el := LoopElem(entries)
	val := And(Has(Call("~ValidatorGetter|GetValidator$", nil, Fld(el, "Type"))), Has(FldOf("status.Client", "ValidatorGetter")))
	valCall := Call("~ValidatorGetter|GetValidator$", nil, Fld(el, "Type"))
	idx := Call("~Validator\\)\\.GetStatusListIndex$", val, el)
	uri := Call("~Validator\\)\\.GetStatusVCURI$", val, el)
	list := Call("~Resolver\\)\\.Resolve$", FldOf("status.Client", "Resolver"), Res(uri, 0))
	issuer := func(cred Pat) Pat {
		return func(t *Term) bool {
			return t.Op == "field" && t.Name == "ID" && t.Args[0].Op == "field" && t.Args[0].Name == "Issuer" && Has(cred)(t.Args[0])
		}
	}
	subject := func(t *Term) bool {
		return t.Op == "elem" && isConstInt(t.Args[1], 0) && t.Args[0].Op == "field" && t.Args[0].Name == "Subject" && Has(Res(list, 0))(t.Args[0])
	}
	encoded := func(t *Term) bool {
		return t.Op == "mapget" && ConstStr("encodedList")(t.Args[1]) && Has(Fld(subject, "CustomFields"))(t.Args[0])
	}
	multi := Call("~Validator\\)\\.MultiBaseEncoding$", val)
	bits := Call("~bitstring\\.Decode$", Has(encoded), Has(Call("~WithMultiBaseEncoding$", multi)))
	multiFree := Call("~bitstring\\.Decode$", Has(encoded))
	bit := Call("~bitstring\\.BitAt$", Res(bits, 0), Res(idx, 0))
	opq := []string{"~bitstring\\.Decode$", "~bitstring\\.BitAt$", "~bitstring\\.WithMultiBaseEncoding$"}
	_ = multiFree

	req := func(id, why string, any ...Lit) GateReq {
		return GateReq{ID: id, Why: why, Each: true, Over: entries, Any: any}
	}

	c.gate(Gate{Name: "status", Entry: "status.(*Client).VerifyStatus", Opaque: opq, Reqs: []GateReq{
		{ID: "present", Why: "the credential has at least one status entry", Any: []Lit{NonEmpty(entries)}},
		req("validator", "a validator for the entry's own type was obtained without error", OK(valCall)),
		req("well-formed", "the entry was validated by that validator", OK(Call("~Validator\\)\\.ValidateStatus$", val, el))),
		req("index", "the entry's index was read without error", OK(idx)),
		req("reference", "the entry's list reference was read without error", OK(uri)),
		req("resolved", "the status list was resolved from the entry's own reference without error", OK(list)),
		req("list-issuer", "the list names an issuer", NonNil(And(Has(Res(list, 0)), func(t *Term) bool { return t.Op == "field" && t.Name == "Issuer" }))),
		req("issuer", "the list's issuer is the credential's issuer", Eq(issuer(Res(list, 0)), issuer(Param(1)))),
		req("list-subject", "the list has a subject", NonEmpty(And(Has(Res(list, 0)), func(t *Term) bool { return t.Op == "field" && t.Name == "Subject" })),
			Less(ConstInt(0), Len(And(Has(Res(list, 0)), func(t *Term) bool { return t.Op == "field" && t.Name == "Subject" })))),
		req("encoded", "the list's encoded bits are a string", True(func(t *Term) bool { return t.Op == "istype" && t.Name == "string" && encoded(t.Args[0]) })),
		req("decoded", "the bits of the resolved list were decoded, in the encoding of the entry's type, without error", OK(bits)),
		req("bounds", "the bit at the entry's own index of the decoded list was read without error", OK(bit)),
		req("clear", "the bit at the entry's own index is clear", False(Res(bit, 0))),
	}})

	// the bit-string codec
	src := Param(0)
	multiOpt := func(t *Term) bool { return Opt("bitstring.options", "multiBaseEncoding")(t) }
	mb := Call("~multibase\\.Decode$", src)
	b64 := Call("~base64\\.Encoding\\)\\.DecodeString$", func(t *Term) bool { return strings.Contains(t.String(), "RawURLEncoding") }, src)
	raw := Alts(Or(Res(mb, 1), Res(b64, 0)))
	zip := Call("~gzip\\.NewReader$", Has(raw))
	c.gate(Gate{Name: "decode", Entry: "status/internal/bitstring.Decode", Reqs: []GateReq{
		{ID: "text", Why: "the text was decoded without error, as multibase exactly when the caller asks for it", Fn: func(e *Exec, s *State) bool {
			return s.holds(OK(mb)) && s.holds(True(multiOpt)) || s.holds(OK(b64)) && s.holds(False(multiOpt))
		}},
		{ID: "compressed", Why: "the decoded bytes were opened as a compressed stream without error", Any: []Lit{OK(zip)}},
		{ID: "read", Why: "the whole stream was decompressed without error", Any: []Lit{OK(Call("~ReadFrom$|io\\.ReadAll$|io\\.Copy$", Has(zip))), OK(Call("~ReadFrom$|io\\.Copy$", nil, Has(zip)))}},
		{ID: "result", Why: "what is returned are the decompressed bytes", Exit: func(e *Exec, x Exit) bool { return Alts(Has(Res(zip, 0)))(e.snap(x.st, x.res[0], 0)) }},
	}})

	i := Param(1)
	byteOf := func(t *Term) bool {
		return t.Op == "bin" && (t.Name == "/" && i(t.Args[0]) && isConstInt(t.Args[1], 8) || t.Name == ">>" && i(t.Args[0]) && isConstInt(t.Args[1], 3))
	}
	bitOf := func(t *Term) bool {
		return t.Op == "bin" && (t.Name == "%" && i(t.Args[0]) && isConstInt(t.Args[1], 8) || t.Name == "&" && i(t.Args[0]) && isConstInt(t.Args[1], 7))
	}
	theByte := func(t *Term) bool { return t.Op == "elem" && Param(0)(t.Args[0]) && byteOf(t.Args[1]) }
	c.gate(Gate{Name: "bit", Entry: "status/internal/bitstring.BitAt", Reqs: []GateReq{
		{ID: "not-negative", Why: "the index is not negative", Any: []Lit{NotLess(i, ConstInt(0)), NotLess(byteOf, ConstInt(0))}},
		{ID: "within", Why: "the index lies within the bit string", Any: []Lit{Less(byteOf, Len(Param(0)))}},
		{ID: "value", Why: "what is returned is whether the bit at that index is set", Exit: func(e *Exec, x Exit) bool {
			t := e.snap(x.st, x.res[0], 0)
			if b, ok := constBool(t); ok {
				for f, v := range x.st.facts {
					if set, ok := bitTest(f, theByte, bitOf); ok && (set == v) == b {
						return true
					}
				}

				return false
			}

			set, ok := bitTest(t, theByte, bitOf)

			return ok && set
		}},
	}})

	c.statusValidators()
	c.statusResolver()
	c.entrySize()
}

// entrySize: where entries of several bits are let through, all their bits are read, from where the entries before them end.
func (c *Ctx) entrySize() {
	sized := false

	var reads []ssa.Instruction

	whole := false

	for _, f := range c.P.Funcs {
		if f.Synthetic != "" || !nameMatch(fnPkgPath(f), "~(^|/)status(/|$)") || isTestSupport(fnPkgPath(f)) {
			continue
		}

		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if k, ok := (*op).(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String && constant.StringVal(k.Value) == "statusSize" {
						sized = true
					}
				}

				call, ok := in.(*ssa.Call)
				if !ok || !nameMatch(calleeName(&call.Call), "~bitstring\\.BitAt$") {
					continue
				}

				reads = append(reads, in)

				if dependsOn(call.Call.Args[1], func(v ssa.Value) bool {
					x, ok := v.(*ssa.BinOp)
					return ok && (x.Op == token.MUL || x.Op == token.SHL)
				}) {
					whole = true
				}
			}
		}
	}

	if !sized || len(reads) == 0 {
		return
	}

	c.oblige(whole, "size|one-bit", "an entry may say it has several bits (statusSize), but one bit is read, at its index instead of its index times its size", c.P.pos(reads[0].Pos()), nil)
}

// statusResolver: a status list comes from the reference it was asked for.
func (c *Ctx) statusResolver() {
	uri := Param(1)
	isDID := Call("~^strings\\.(HasPrefix|CutPrefix)$", uri, ConstStr("did:"))
	parsed := func(data Pat) Pat { return Call("verifiable.ParseCredential", data) }
	sent := func(url, body Pat) Pat {
		return Call("~^\\(\\*net/http\\.Client\\)\\.Do$", nil, Has(func(t *Term) bool {
			return t.Op == "call" && nameMatch(t.Name, "~^net/http\\.NewRequest") && containsArg(t, url) && (body == nil || containsArg(t, body))
		}))
	}
	fetched := func(url, body Pat) Pat { return Has(Fld(Res(sent(url, body), 0), "Body")) }

	// by DID: the document of the DID part names the hub; the entry with the asked-for object id is taken from its reply
	beforeQuery := func(t *Term) bool {
		return t.Op == "elem" && isConstInt(t.Args[1], 0) && Call("~^strings\\.Split(N)?$", uri, ConstStr("?"))(t.Args[0]) ||
			Res(Call("~^strings\\.Cut$", uri, ConstStr("?")), 0)(t)
	}
	doc := Call("~Registry\\)\\.Resolve$", FldOf("resolver.Resolver", "didResolver"), beforeQuery)
	ofDoc := Has(Fld(Res(doc, 0), "DIDDocument"))
	query := Has(Call("~^net/url\\.ParseQuery$", func(t *Term) bool {
		return t.Op == "elem" && isConstInt(t.Args[1], 1) && Has(uri)(t) || Res(Call("~^strings\\.Cut$", uri, ConstStr("?")), 1)(t)
	}))
	objID := func(p Pat) Pat {
		return Has(func(t *Term) bool { return t.Op == "mapget" && ConstStr("objectId")(t.Args[1]) && p(t.Args[0]) })
	}
	reply := fetched(ofDoc, And(ofDoc, query))
	entry := func(t *Term) bool {
		return t.Op == "elem" && t.Args[0].Op == "field" && t.Args[0].Name == "Entries" && reply(t)
	}
	data := And(Has(Fld(entry, "Data")), Has(reply))

	c.gate(Gate{Name: "resolve", Entry: "status/resolver.(*Resolver).Resolve", Opaque: []string{"verifiable.ParseCredential", "~\\(net/url"},
		Split: []Lit{True(isDID)},
		Reqs: []GateReq{
			{ID: "parsed", Why: "the list was parsed without error from what was fetched from the given reference", Fn: func(e *Exec, s *State) bool {
				return s.holds(OK(parsed(fetched(uri, nil)))) || s.holds(OK(parsed(data)))
			}},
			{ID: "did", Why: "a DID reference was resolved, without error, to the document of its DID", Any: []Lit{False(isDID), OK(doc)}},
			{ID: "hub-status", Why: "every message of the hub's reply has a success status", Any: []Lit{False(isDID),
				Forall(Any, eqPat(func(t *Term) bool { return t.Op == "field" && t.Name == "Code" && reply(t) }, ConstInt(200)), true)}},
			{ID: "object", Why: "the message taken from the hub's reply is the one the reference asks for", Any: []Lit{False(isDID),
				True(And(Or(Call("~^strings\\.EqualFold$"), eqPat(Any, Any)), func(t *Term) bool {
					a, b := t.Args[0], t.Args[1]
					return objID(Has(entry))(a) && objID(query)(b) || objID(Has(entry))(b) && objID(query)(a)
				}))}},
			{ID: "returned", Why: "what is returned is the list parsed from that", Exit: func(e *Exec, x Exit) bool { return Alts(Res(parsed(nil), 0))(x.res[0]) }},
		}})
}

func containsArg(t *Term, p Pat) bool {
	for _, a := range t.Args {
		if p(a) {
			return true
		}
	}

	return false
}

// bitTest: the condition says whether bit n of byte b is set (least significant bit first); set tells which way round.
func bitTest(t *Term, b, n Pat) (set, ok bool) {
	set = true

	for t.Op == "not" || t.Op == "un" && t.Name == "!" {
		set = !set
		t = t.Args[0]
	}

	if t.Op != "bin" || t.Name != "==" {
		return false, false
	}

	l, r := t.Args[0], t.Args[1]
	if _, ok := constInt(l); ok {
		l, r = r, l
	}

	if l.Op != "bin" || l.Name != "&" {
		return false, false
	}

	mask := func(m *Term) bool { // 1 << n
		return m.Op == "bin" && m.Name == "<<" && isConstInt(m.Args[0], 1) && n(m.Args[1])
	}
	shifted := func(m *Term) bool { return m.Op == "bin" && m.Name == ">>" && b(m.Args[0]) && n(m.Args[1]) }
	x, y := l.Args[0], l.Args[1]

	switch {
	case mask(y) && b(x), mask(x) && b(y):
		switch {
		case isConstInt(r, 0):
			return !set, true
		case mask(r):
			return set, true
		}
	case shifted(x) && isConstInt(y, 1), shifted(y) && isConstInt(x, 1):
		switch {
		case isConstInt(r, 0):
			return !set, true
		case isConstInt(r, 1):
			return set, true
		}
	}

	return false, false
}

// statusValidators decides every validator of status entries: what it accepts and which member it reads.
func (c *Ctx) statusValidators() {
	st := Param(1)
	custom := func(key string) Pat {
		return func(t *Term) bool {
			return t.Op == "mapget" && Fld(st, "CustomFields")(t.Args[0]) && ConstStr(key)(t.Args[1])
		}
	}
	str := func(key string) Pat {
		return func(t *Term) bool { return t.Op == "assert" && t.Name == "string" && custom(key)(t.Args[0]) }
	}
	isStr := func(key string) Lit {
		return True(func(t *Term) bool { return t.Op == "istype" && t.Name == "string" && custom(key)(t.Args[0]) })
	}
	multibase := map[string]bool{"StatusList2021Entry": false, "BitstringStatusListEntry": true}
	entryType := map[string]string{} // validator type -> entry type
	n := 0

	for _, f := range c.P.Funcs {
		if f.Signature.Recv() == nil || f.Parent() != nil || f.Synthetic != "" || !strings.HasPrefix(fnPkgPath(f), modPath+"/status/validator/") {
			continue
		}

		name := shortName(f)
		recv := name[:strings.LastIndex(name, ".")]

		switch f.Name() {
		case "ValidateStatus":
			n++

			reqs := []GateReq{{ID: "entry", Why: "there is a status entry", Any: []Lit{NonNil(st)}}}
			for _, k := range []string{"statusListCredential", "statusListIndex", "statusPurpose"} {
				reqs = append(reqs, GateReq{ID: "has-" + k, Why: "the entry has the member " + k, Any: []Lit{NonNil(custom(k)), isStr(k)}})
			}

			reqs = append(reqs, GateReq{ID: "type", Why: "the entry's type is one known status type", Exit: func(e *Exec, x Exit) bool {
				for k := range multibase {
					if x.st.holds(Eq(Fld(st, "Type"), ConstStr(k))) && (entryType[recv] == "" || entryType[recv] == k) {
						entryType[recv] = k
						return true
					}
				}

				return false
			}})
			size := custom("statusSize")
			f64 := func(t *Term) bool { return t.Op == "assert" && t.Name == "float64" && size(t.Args[0]) }
			num := Or(f64, Has(f64))
			reqs = append(reqs, GateReq{ID: "size", Why: "a declared status size is a positive number", Fn: func(e *Exec, s *State) bool {
				if s.holds(Eq(Fld(st, "Type"), ConstStr("StatusList2021Entry"))) {
					return true
				}

				return s.holds(NilLit(size)) || s.holds(False(HasKey(Fld(st, "CustomFields"), ConstStr("statusSize")))) ||
					s.holds(True(func(t *Term) bool { return t.Op == "istype" && t.Name == "float64" && size(t.Args[0]) })) &&
						(s.holds(NotLess(num, ConstInt(1))) || s.holds(Less(ConstInt(0), num)) || s.holds(Eq(num, ConstInt(1))))
			}})
			c.gateFn(Gate{Name: "validate", Entry: name, Reqs: reqs}, f)
		case "GetStatusVCURI":
			c.gateFn(Gate{Name: "reference", Entry: name, Reqs: []GateReq{
				{ID: "string", Why: "the list reference is a string", Any: []Lit{isStr("statusListCredential")}},
				{ID: "own", Why: "what is returned is the entry's own list reference", Exit: func(e *Exec, x Exit) bool { return str("statusListCredential")(x.res[0]) }},
			}}, f)
		case "GetStatusPurpose":
			c.gateFn(Gate{Name: "purpose", Entry: name, Reqs: []GateReq{
				{ID: "string", Why: "the purpose is a string", Any: []Lit{isStr("statusPurpose")}},
				{ID: "own", Why: "what is returned is the entry's own purpose", Exit: func(e *Exec, x Exit) bool { return str("statusPurpose")(x.res[0]) }},
			}}, f)
		case "GetStatusListIndex":
			num := Call("~^strconv\\.(Atoi|ParseInt|ParseUint)$", str("statusListIndex"))
			c.gateFn(Gate{Name: "index", Entry: name, Reqs: []GateReq{
				{ID: "string", Why: "the index is a string", Any: []Lit{isStr("statusListIndex")}},
				{ID: "number", Why: "the index parsed as a number without error", Any: []Lit{OK(num)}},
				{ID: "own", Why: "what is returned is the entry's own index", Exit: func(e *Exec, x Exit) bool { return Res(num, 0)(peel(x.res[0])) }},
			}}, f)
		}
	}

	for _, f := range c.P.Funcs {
		if f.Signature.Recv() == nil || f.Parent() != nil || f.Synthetic != "" || f.Name() != "MultiBaseEncoding" || !strings.HasPrefix(fnPkgPath(f), modPath+"/status/validator/") {
			continue
		}

		name := shortName(f)
		recv := name[:strings.LastIndex(name, ".")]
		c.gateFn(Gate{Name: "encoding", Entry: name, Reqs: []GateReq{
			{ID: "of-type", Why: "the encoding of the bit string is the one of the validator's status type (multibase for bit-string lists, plain base64url for 2021 lists)", Exit: func(e *Exec, x Exit) bool {
				b, ok := constBool(x.res[0])
				want, known := multibase[entryType[recv]]

				return ok && known && b == want
			}},
		}}, f)
	}

	c.oblige(n >= 1, "validators", "no validator of status entries was found", "status/validator", nil)

	// a status type selects the validator that accepts it
	c.gate(Gate{Name: "select", Entry: "status/validator.GetValidator", Reqs: []GateReq{
		{ID: "type", Why: "the validator chosen for a status type is the one that accepts that type", Exit: func(e *Exec, x Exit) bool {
			v := e.snap(x.st, x.res[0], 0)
			for _, a := range alts(v) {
				ty := a.Typ
				if a.Op == "res" || ty == nil {
					return false
				}

				want := ""
				for recv, k := range entryType {
					if typeIs(a, strings.TrimSuffix(strings.TrimPrefix(recv[strings.LastIndex(recv, "/")+1:], "(*"), ")")) {
						want = k
					}
				}

				if want == "" || !x.st.holds(Eq(Param(0), ConstStr(want))) {
					return false
				}
			}

			return true
		}},
	}})
}

// httpSource: the call hands out an HTTP response made outside the module.
func httpSource(ci ssa.CallInstruction) bool {
	if f := ci.Common().StaticCallee(); f != nil && inModule(f) {
		return false
	}

	return ci.Value() != nil && hasResponse(ci.Common().Signature().Results())
}

func hasResponse(ts *types.Tuple) bool {
	for i := 0; i < ts.Len(); i++ {
		if typeName(ts.At(i).Type()) == "*net/http.Response" {
			return true
		}
	}

	return false
}

func c21(c *Ctx) {
	roots := map[*ssa.Function]bool{}
	names := map[string]bool{}
	sites := 0

	var add func(f *ssa.Function, depth int)
	add = func(f *ssa.Function, depth int) {
		if hasResponse(f.Signature.Results()) && depth < 5 {
			// the response is handed on: whoever receives it owns it
			for _, ci := range c.P.callersOf(f) {
				add(ci.Parent(), depth+1)
			}

			return
		}

		roots[f] = true
	}

	for _, f := range c.P.Funcs {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if ci, ok := ins.(ssa.CallInstruction); ok && httpSource(ci) {
					sites++
					names[calleeName(ci.Common())] = true
					add(f, 0)
				}
			}
		}
	}

	c.count("response sources", sites)
	c.oblige(sites >= 1 && len(roots) >= 1, "sources", "no place that receives an HTTP response was found: the rule would be vacuous", "module", nil)

	anchors := []string{"~\\.Close$", "~^io\\.ReadAll$"}
	for n := range names {
		anchors = append(anchors, short(n))
	}

	sort.Strings(anchors)

	for _, f := range c.P.Funcs {
		if roots[f] {
			c.httpRoot(f, anchors)
		}
	}
}

// httpRoot decides one function that owns HTTP responses.
func (c *Ctx) httpRoot(f *ssa.Function, anchors []string) {
	resp := func(t *Term) bool { return t.Typ != nil && typeName(t.Typ) == "*net/http.Response" && t.Op != "param" }
	body := Has(Fld(resp, "Body"))
	mark := func(kind string) Pat { return func(t *Term) bool { return t.Op == "mark" && t.Name == kind } }
	set := func(e *Exec, s *State, kind string) {
		s.facts[e.in.mk(Term{Op: "mark", Name: kind, Typ: types.Typ[types.Bool]})] = true
	}
	source := func(t *Term) bool {
		ci, ok := t.Pos.(ssa.CallInstruction)

		return t.Op == "call" && ok && httpSource(ci)
	}
	code := Fld(resp, "StatusCode")
	onCall := func(e *Exec, fr *Frame, s *State, in ssa.CallInstruction, name string, args []*Term, res *Term) {
		if res != nil && source(res) {
			set(e, s, "received")

			for m := range s.facts {
				if mark("closed")(m) {
					delete(s.facts, m)
				}
			}
		}

		if nameMatch(name, "~\\.Close$") && len(args) > 0 && body(e.snap(s, args[0], 0)) {
			set(e, s, "closed")
		}
	}
	received := func(s *State) bool { return s.holds(True(mark("received"))) }
	failed := func(s *State) bool { return s.holds(NonNil(ErrOf(source))) || s.holds(NilLit(resp)) }
	opq := []string{"~^\\(\\*net/http"}
	split := []Lit{True(mark("received")), True(mark("closed")), NonNil(ErrOf(source)), NilLit(Fld(resp, "Body"))}

	// closed whenever a response was received
	c.gateFn(Gate{Name: "released", Entry: shortName(f), Opaque: opq, Anchors: anchors, OnCall: onCall, Split: split,
		Accept: func(e *Exec, x Exit) bool { return received(x.st) && !failed(x.st) },
		Reqs:   []GateReq{{ID: "closed", Why: "the body of a response it received was closed", Any: []Lit{True(mark("closed")), NilLit(Fld(resp, "Body"))}}}}, f)

	// used only when it is a success
	var params []int

	c.gateFn(Gate{Name: "used", Entry: shortName(f), Opaque: opq, Anchors: anchors, OnCall: onCall, Split: split,
		Accept: func(e *Exec, x Exit) bool { return e.succeeded(f, x) && received(x.st) },
		Reqs: []GateReq{
			{ID: "transport", Why: "the request succeeded without a transport error", Any: []Lit{OK(source)}},
			{ID: "status", Why: "the response has a success status", Fn: func(e *Exec, s *State) bool {
				ok := false

				for _, p := range []func(*Term) bool{eqPat(code, Any)} {
					for _, t := range s.find(true, p) {
						o := t.Args[1]
						if code(o) {
							o = t.Args[0]
						}

						if n, isC := constInt(o); isC && n >= 200 && n < 300 {
							ok = true
						}

						if o.Op == "param" {
							params = append(params, o.Num-1)
							ok = true
						}
					}
				}

				between := func(lo, hi int64) bool {
					return (s.holds(NotLess(code, ConstInt(lo))) || s.holds(Less(ConstInt(lo-1), code))) &&
						(s.holds(Less(code, ConstInt(hi))) || s.holds(NotLess(ConstInt(hi-1), code)))
				}

				return ok || between(200, 300)
			}},
			{ID: "read", Why: "its body was read without error", Any: []Lit{OK(Call("~^io\\.(ReadAll|ReadFull|Copy)|^io/ioutil\\.ReadAll$|ReadFrom$|Decoder\\)\\.Decode$", body)),
				OK(Call("~^io\\.Copy$|ReadFrom$", nil, body))}},
		}}, f)

	seen := map[int]bool{}
	for _, i := range params {
		if seen[i] {
			continue
		}

		seen[i] = true

		for _, ci := range c.P.callersOf(f) {
			ok := c.alwaysSuccess(ci, i, 0)

			c.oblige(ok, "used|expected-status", "the status code expected by "+shortName(f)+" is not a constant success code",
				shortName(ci.Parent())+" at "+c.P.pos(ci.Pos()), nil)
		}
	}
}

// alwaysSuccess: what is passed for the i-th parameter is a constant that stands for success.
func (c *Ctx) alwaysSuccess(ci ssa.CallInstruction, i, depth int) bool {
	a := ci.Common().Args
	if i >= len(a) || depth > 5 {
		return false
	}

	switch x := a[i].(type) {
	case *ssa.Const:
		return x.Value != nil && x.Int64() >= 200 && x.Int64() < 300
	case *ssa.Parameter:
		for j, p := range x.Parent().Params {
			if p != x || isExportedFn(x.Parent()) {
				continue
			}

			callers := c.P.callersOf(x.Parent())
			ok := len(callers) > 0

			for _, up := range callers {
				ok = ok && c.alwaysSuccess(up, j, depth+1)
			}

			return ok
		}
	}

	return false
}
