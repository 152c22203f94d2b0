package main

import (
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C29", "must-pass dataflow over every credential and presentation parser: each success exit that the caller did not exempt has a successful schema validation and JSON-LD validation of the parsed document under the selected mode, with the schema of its own base context", c29)
}

// optConst is the constant that an exported option function stores in a member of the options.
func (c *Ctx) optConst(maker, field string) (int64, bool) {
	fn := c.P.Fn(maker)
	if fn == nil {
		return 0, false
	}

	for _, f := range withHelpers(fn) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}

				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok || structOf(fa.X.Type()).Field(fa.Field).Name() != field {
					continue
				}

				if k, ok := st.Val.(*ssa.Const); ok && k.Value != nil {
					return k.Int64(), true
				}
			}
		}
	}

	return 0, false
}

const (
	ctxV1 = "https://www.w3.org/2018/credentials/v1"
	ctxV2 = "https://www.w3.org/ns/credentials/v2"
)

func c29(c *Ctx) {
	opt := func(n string) Pat { return Opt("verifiable.credentialOpts", n) }

	modes := map[string]int64{"combined": 0}

	for n, m := range map[string]string{"jsonld": "verifiable.WithJSONLDValidation", "base": "verifiable.WithBaseContextValidation", "extended": "verifiable.WithBaseContextExtendedValidation"} {
		k, ok := c.optConst(m, "modelValidationMode")
		c.oblige(ok && k != 0, "mode|"+n, "the option does not select a validation mode of its own", m, nil)
		modes[n] = k
	}

	mode := func(ns ...string) (ls []Lit) {
		for _, n := range ns {
			ls = append(ls, Eq(opt("modelValidationMode"), ConstInt(modes[n])))
		}

		return
	}

	reqs := func(js Pat, contents func(string) Pat, off ...Lit) []GateReq {
		any := func(ls ...[]Lit) []Lit {
			out := append([]Lit{}, off...)
			for _, l := range ls {
				out = append(out, l...)
			}

			return out
		}
		l1 := func(l Lit) []Lit { return []Lit{l} }

		validate := Call("gojsonschema.Validate", nil, Has(Call("gojsonschema.NewGoLoader", Has(js))))

		ld := Call("ValidateJSONLDMap", Has(js))
		types, ctx, custom, schemas := contents("Types"), contents("Context"), contents("CustomContext"), contents("Schemas")
		first := func(l Pat) Pat {
			return Alts(func(t *Term) bool { return t.Op == "elem" && l(t.Args[0]) && isConstInt(t.Args[1], 0) })
		}
		single := func(l Pat) []Lit {
			return []Lit{Eq(Len(l), ConstInt(1)), NotLess(ConstInt(1), Len(l)), Less(Len(l), ConstInt(2))}
		}
		listed := func(m, k Pat) []Lit { return []Lit{True(HasKey(m, k)), True(MapGet(m, k))} }
		eachListed := func(list, m Pat) []Lit {
			return []Lit{Forall(list, HasKey(m, LoopElem(list)), true), Forall(list, MapGet(m, LoopElem(list)), true), Empty(list)}
		}
		ldOpt := func(name string, v Pat) Lit { return OK(And(ld, Has(Call(name, v)))) }
		notBase, notExt, notLD := mode("combined", "jsonld", "extended"), mode("combined", "jsonld", "base"), mode("base", "extended")
		ctxIs := func(v string) Lit { return Eq(first(ctx), ConstStr(v)) }
		v1, v2 := HasAll(ConstStr(c.constOf("verifiable", "SchemaTemplateV1"))), HasAll(ConstStr(c.constOf("verifiable", "SchemaTemplateV2")))
		own := HasAll(Or(opt("defaultSchema"), opt("defaultSchemaLoader"), Fld(LoopElem(schemas), "ID"), Fld(first(schemas), "ID")))
		with := func(l Pat) Lit {
			return OK(Call("gojsonschema.Validate", l, Has(Call("gojsonschema.NewGoLoader", Has(js)))))
		}

		return []GateReq{
			{ID: "schema-run", Why: "the document was validated against a JSON schema", Any: any(mode("jsonld"), l1(OK(validate)))},
			{ID: "schema", Why: "the document is valid under the JSON schema", Any: any(mode("jsonld"), l1(True(Call("gojsonschema.Result).Valid", Has(validate)))))},
			{ID: "schema-v1", Why: "a document that is not of version 2 is validated against the schema of version 1 unless a schema of its own applies", Any: any(mode("jsonld"), l1(ctxIs(ctxV2)), l1(with(Or(v1, own))))},
			{ID: "schema-v2", Why: "a document of version 2 is validated against the schema of version 2 unless a schema of its own applies", Any: any(mode("jsonld"), l1(Neq(first(ctx), ConstStr(ctxV2))), l1(Empty(ctx)), l1(with(Or(v2, own))))},
			{ID: "schema-custom", Why: "no other schema replaces the data model's when the caller disabled that", Any: any(mode("jsonld"), l1(False(opt("disabledCustomSchema"))), l1(with(Or(v1, v2))))},
			{ID: "jsonld", Why: "the document passed JSON-LD validation", Any: any(notLD, l1(OK(ld)))},
			{ID: "jsonld-types", Why: "the document passed the JSON-LD type check the caller asked for", Any: any(notLD, l1(False(opt("enableJsonLDTypesCheck"))), l1(OK(Call("ValidateJSONLDTypes", Has(js)))))},
			{ID: "jsonld-strict", Why: "JSON-LD validation is strict when the caller asked for that", Any: any(notLD, l1(ldOpt("WithStrictValidation", opt("strictValidation"))))},
			{ID: "jsonld-loader", Why: "JSON-LD validation uses the caller's document loader", Any: any(notLD, l1(ldOpt("WithDocumentLoader", Has(Or(opt("jsonldDocumentLoader"), Opt("verifiable.jsonldCredentialOpts", "jsonldDocumentLoader"))))))},
			{ID: "jsonld-context", Why: "JSON-LD validation fixes the base context", Any: any(notLD, l1(ldOpt("WithStrictContextURIPosition", first(ctx))))},
			{ID: "version", Why: "the base context is that of a supported version", Any: any(notLD, l1(ctxIs(ctxV1)), l1(ctxIs(ctxV2)))},
			{ID: "base-types", Why: "base validation admits a single type", Any: any(notBase, single(types))},
			{ID: "base-type", Why: "base validation admits only the credential type", Any: any(notBase, l1(Eq(first(types), ConstStr("VerifiableCredential"))))},
			{ID: "base-contexts", Why: "base validation admits a single context", Any: any(notBase, single(ctx))},
			{ID: "base-context", Why: "base validation admits only the given context", Any: any(notBase, listed(opt("allowedContexts"), first(ctx)))},
			{ID: "base-inline", Why: "base validation admits no inline context", Any: any(notBase, l1(Empty(custom)), l1(NotLess(ConstInt(0), Len(custom))))},
			{ID: "ext-contexts", Why: "extended validation admits only the listed contexts", Any: any(notExt, eachListed(ctx, opt("allowedContexts")))},
			{ID: "ext-types", Why: "extended validation admits only the listed types", Any: any(notExt, eachListed(types, opt("allowedCustomTypes")))},
			{ID: "ext-inline", Why: "extended validation admits only the listed contexts after an inline one", Each: true, Over: custom, Any: any(notExt, listed(opt("allowedContexts"), Has(LoopElem(custom))),
				[]Lit{False(func(t *Term) bool { return t.Op == "istype" && LoopElem(custom)(t.Args[0]) }), Empty(custom)})},
		}
	}

	// the validators: functions of contents, document and options that establish all of this
	var valid []string

	pkg := c.P.Fn("verifiable.(*Credential).ValidateCredential").Pkg

	for _, f := range c.P.pkgFuncs(pkg) {
		ci, ji, oi := paramOf(f, "verifiable.CredentialContents"), paramOf(f, "verifiable.JSONObject"), paramOf(f, "verifiable.credentialOpts")
		if ci < 0 || ji < 0 || oi < 0 || errAt(f) < 0 {
			continue
		}

		try := &Ctx{P: c.P, Prop: c.Prop, seen: map[string]bool{}}
		try.gateFn(Gate{Name: "validator", Entry: funcName(f), Anchors: modelAnchors, Reqs: reqs(Param(ji), func(n string) Pat { return Fld(Param(ci), n) })}, f)

		if len(try.Findings) == 0 {
			valid = append(valid, funcName(f))
			c.sample("validator %s", funcName(f))
		}
	}

	c.gate(Gate{Name: "method", Entry: "verifiable.(*Credential).ValidateCredential", Anchors: modelAnchors,
		Reqs: reqs(Fld(Param(0), "credentialJSON"), func(n string) Pat { return Fld(Fld(Param(0), "credentialContents"), n) })})

	off := True(opt("disableValidation"))
	// what a signed token carries is not validated
	jws := OK(Call("jose.ParseJWS"))

	for name, entry := range map[string]string{"json": "verifiable.(*CredentialJSONParser).Parse", "cbor": "verifiable.(*CredentialCBORParser).Parse", "contents": "verifiable.ParseCredentialJSON"} {
		c.gate(Gate{Name: name, Entry: entry, Opaque: append([]string{"verifiable.ParseCredential"}, valid...), NoHavoc: valid, Anchors: append([]string{"jose.ParseJWS", "verifiable.ParseCredential"}, modelAnchors...), Reqs: []GateReq{
			{ID: "validated", Why: "the credential was validated unless the caller disabled that", Any: []Lit{off, jws, OK(Call("verifiable.ParseCredential")), OK(func(t *Term) bool { return t.Op == "call" && oneOf(t.Name, valid) })}},
			{ID: "same", Why: "the contents and document that were validated are those returned", Exit: func(e *Exec, x Exit) bool {
				r := e.snap(x.st, x.res[0], 0)

				for _, f := range x.st.find(true, func(t *Term) bool { return t.Op == "isnil" }) {
					call := f.Args[0]
					for call.Op == "res" {
						call = call.Args[0]
					}

					if call.Op != "call" || !oneOf(call.Name, valid) {
						continue
					}

					fn := call.Fn
					if fn == nil {
						fn = c.P.Fn(short(call.Name))
					}
					if fn == nil {
						continue
					}
					got := []*Term{getField(r, "credentialContents"), getField(r, "credentialJSON")}

					for i, typ := range []string{"verifiable.CredentialContents", "verifiable.JSONObject"} {
						a := e.snap(x.st, call.Args[paramOf(fn, typ)], 0)
						for a.Op == "ref" {
							a = a.Args[0]
						}

						if got[i] != nil && a != got[i] {
							dbgTerm("A", a)
							dbgTerm("B", got[i])
							return false
						}
					}
				}

				return true
			}},
		}})
	}

	c.presentationModel()
}

func (c *Ctx) presentationModel() {
	opt := func(n string) Pat { return Opt("verifiable.presentationOpts", n) }
	data := Has(Param(0))
	whole := func(t *Term) bool {
		t = peel(t)
		return t.Op != "maplit" && t.Op != "makemap" && data(t)
	}
	validate := Call("gojsonschema.Validate", nil, Has(Call("gojsonschema.NewGoLoader", whole)))
	ld := Call("ValidateJSONLDMap", whole)
	off := True(opt("disableJSONLDChecks"))

	versions := map[string]bool{}

	c.gate(Gate{Name: "presentation", Entry: "verifiable.ParsePresentation",
		Opaque:  []string{"jwt.CheckProof", "cwt.CheckProof", "DocumentVerifier).VerifyObject", "dataintegrity.Verifier).VerifyProof", "verifiable.ParseCredential", "verifiable.ParseCredentialJSON"},
		Anchors: append([]string{"verifiable.ParseCredential"}, modelAnchors...),
		OnCall: func(e *Exec, fr *Frame, s *State, in ssa.CallInstruction, name string, args []*Term, res *Term) {
			if !nameMatch(name, "gojsonschema.Validate") || len(args) == 0 {
				return
			}

			// the schema of a version names that version's context
			texts := c.stringsOf(args[0])
			for _, v := range []string{ctxV1, ctxV2} {
				if !strings.Contains(texts, v) {
					continue
				}

				other := ctxV1 + ctxV2
				other = strings.Replace(other, v, "", 1)
				ok := !strings.Contains(texts, other) && len(s.find(true, eqPat(Has(MapGet(Any, ConstStr("@context"))), ConstStr(v)))) > 0
				c.oblige(ok, "presentation|schema-"+v, "a presentation is validated against the schema of a version although its base context is not known to be that version's", shortName(in.Parent())+" at "+c.P.pos(in.Pos()), nil)
				versions[v] = true
			}
		},
		Reqs: []GateReq{
			{ID: "schema-run", Why: "the presentation was validated against a JSON schema", Any: []Lit{OK(validate)}},
			{ID: "schema", Why: "the presentation is valid under the JSON schema", Any: []Lit{True(Call("gojsonschema.Result).Valid", Has(validate)))}},
			{ID: "jsonld", Why: "the presentation passed JSON-LD validation unless the caller disabled that", Any: []Lit{off, OK(ld)}},
			{ID: "jsonld-strict", Why: "JSON-LD validation is strict when the caller asked for that", Any: []Lit{off, OK(And(ld, Has(Call("WithStrictValidation", opt("strictValidation")))))}},
			{ID: "jsonld-loader", Why: "JSON-LD validation uses the caller's document loader", Any: []Lit{off, OK(And(ld, Has(Call("WithDocumentLoader", Has(Or(opt("jsonldDocumentLoader"), Opt("verifiable.jsonldCredentialOpts", "jsonldDocumentLoader")))))))}},
		}})

	c.oblige(versions[ctxV1] && versions[ctxV2], "presentation|versions", "presentations of a supported version are not validated against a schema of that version", "verifiable.ParsePresentation", nil)
}

var modelAnchors = []string{"gojsonschema.Validate", "ValidateJSONLDMap", "~gojsonschema\\.New"}

func paramOf(f *ssa.Function, typ string) int {
	for i, p := range f.Params {
		n := pointee(p.Type())
		if n == typ || strings.HasSuffix(n, "/"+typ) || (strings.HasSuffix(typ, "JSONObject") && p.Type().Underlying().String() == "map[string]interface{}") {
			return i
		}
	}

	return -1
}

func typed(n string) Pat { return func(t *Term) bool { return typeIs(t, n) } }

// constOf is the value of a package's string constant.
func (c *Ctx) constOf(pkg, name string) string {
	for _, p := range c.P.SSA.AllPackages() {
		if p.Pkg != nil && strings.HasSuffix(p.Pkg.Path(), "/"+pkg) {
			if k, ok := p.Members[name].(*ssa.NamedConst); ok {
				return constant.StringVal(k.Value.Value)
			}
		}
	}

	return "?"
}

// pointee is the name of a type, or of what it points to.
func pointee(t types.Type) string {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}

	return typeName(t)
}

func oneOf(name string, pats []string) bool {
	for _, p := range pats {
		if nameMatch(name, p) {
			return true
		}
	}

	return false
}

func errAt(f *ssa.Function) int {
	r := f.Signature.Results()
	for i := r.Len() - 1; i >= 0; i-- {
		if isError(r.At(i).Type()) {
			return i
		}
	}

	return -1
}

// stringsOf is all the text a value is made from, through package variables and their initial values.
func (c *Ctx) stringsOf(t *Term) string {
	var sb strings.Builder

	seen := map[ssa.Value]bool{}

	var value func(v ssa.Value)
	value = func(v ssa.Value) {
		if v == nil || seen[v] {
			return
		}

		seen[v] = true

		switch x := v.(type) {
		case *ssa.Const:
			if x.Value != nil && x.Value.Kind() == constant.String {
				sb.WriteString(constant.StringVal(x.Value))
			}
		case *ssa.Global:
			if init := x.Pkg.Func("init"); init != nil {
				for _, b := range init.Blocks {
					for _, in := range b.Instrs {
						if st, ok := in.(*ssa.Store); ok && st.Addr == x {
							value(st.Val)
						}
					}
				}
			}
		case ssa.Instruction:
			for _, op := range x.Operands(nil) {
				if *op != nil {
					value(*op)
				}
			}
		}
	}

	t.walk(func(x *Term) bool {
		if k, ok := constStr(x); ok {
			sb.WriteString(k)
		}

		if x.Op == "global" {
			if i := strings.LastIndex(x.Name, "."); i > 0 {
				for _, p := range c.P.SSA.AllPackages() {
					if p.Pkg != nil && short(p.Pkg.Path()) == short(x.Name[:i]) {
						if g, ok := p.Members[x.Name[i+1:]].(*ssa.Global); ok {
							value(g)
						}
					}
				}
			}
		}

		return true
	})

	return sb.String()
}
