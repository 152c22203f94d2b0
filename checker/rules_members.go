package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C30", "extraction, from SSA, of which document member fills which field of the data model and which field is written back under which member, agreement of the two tables, must-pass dataflow that every non-empty field is written, and type flow of what is put into JSON objects", c30)
}

// modelled are the structures the library reads from documents and writes to them, with the fields no member stands for.
var modelled = map[string][]string{
	"CredentialContents": {},
	"Presentation":       {"JWT", "CWT"},
	"Issuer":             {},
	"Subject":            {},
	"TypedID":            {},
	"RelatedResource":    {},
}

type memberTable struct {
	keys   map[string]map[string]bool // field -> members
	fns    map[string]*ssa.Function   // where this is from
	where  map[string]token.Pos       // field, field+member -> instruction
	others map[string][]string        // member -> fields its value is made of
}

func newTable() *memberTable {
	return &memberTable{keys: map[string]map[string]bool{}, fns: map[string]*ssa.Function{}, where: map[string]token.Pos{}, others: map[string][]string{}}
}

func (t *memberTable) put(f, k string, at token.Pos) {
	if t.keys[f] == nil {
		t.keys[f] = map[string]bool{}
	}

	t.keys[f][k] = true
	t.where[f] = at
	t.where[f+" "+k] = at
}

func names(m map[string]bool) string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}

	sort.Strings(ks)

	return strings.Join(ks, ", ")
}

const customField = "CustomFields"

func modelledType(t types.Type) string {
	if t == nil {
		return ""
	}

	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}

	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil || n.Obj().Pkg().Path() != modPath+"/verifiable" {
		return ""
	}

	if _, ok := modelled[n.Obj().Name()]; ok {
		return n.Obj().Name()
	}

	return ""
}

func modelFields(p *Program, s string) (fs []string) {
	t := p.namedType("verifiable", s)
	if t == nil {
		return nil
	}

	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil
	}

	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i).Name()
		if !contains(modelled[s], f) {
			fs = append(fs, f)
		}
	}

	return fs
}

func isJSONObject(t types.Type) bool {
	m, ok := t.Underlying().(*types.Map)
	if !ok {
		return false
	}

	b, ok := m.Key().Underlying().(*types.Basic)

	return ok && b.Kind() == types.String && types.IsInterface(m.Elem())
}

// rootKeys: the members of the document itself that a value is made of.
func rootKeys(t *Term) map[string]bool {
	ks := map[string]bool{}

	var keyOf func(t *Term) (string, bool)
	keyOf = func(t *Term) (string, bool) {
		// the outermost document comes last
		if t.Op == "mapget" {
			for _, in := range t.Args[0].Args {
				if k, ok := keyOf(in); ok {
					return k, true
				}
			}

			if k, ok := keyOf(t.Args[0]); ok {
				return k, true
			}

			return constStr(t.Args[1])
		}

		if t.Op == "assert" || t.Op == "iface" || t.Op == "conv" || t.Op == "field" || t.Op == "elem" || t.Op == "res" {
			return keyOf(t.Args[0])
		}

		return "", false
	}

	t.walk(func(x *Term) bool {
		if k, ok := keyOf(x); ok {
			ks[k] = true
			return false
		}

		return true
	})

	return ks
}

// rootFields: the fields of one of the modelled structures that a value is made of, the outermost structure first.
func rootFields(s string, t *Term) map[string]bool {
	fs := map[string]bool{}

	t.walk(func(x *Term) bool {
		if x.Op != "field" {
			return true
		}

		inner := ""

		for y := x; y.Op == "field" || y.Op == "elem" || y.Op == "ref" && len(y.Args) == 1; y = y.Args[0] {
			if y.Op == "field" && modelledType(y.Args[0].Typ) == s {
				inner = y.Name
			}
		}

		if inner != "" {
			fs[inner] = true
			return false
		}

		return true
	})

	return fs
}

func (c *Ctx) inVerifiable() (fs []*ssa.Function) {
	for _, f := range c.P.Funcs {
		if fnPkgPath(f) == modPath+"/verifiable" && f.Synthetic == "" && f.Blocks != nil && f.Parent() == nil {
			fs = append(fs, f)
		}
	}

	sort.Slice(fs, func(i, j int) bool { return fs[i].String() < fs[j].String() })

	return fs
}

// filledStructs: the modelled structures a function makes and fills.
func filledStructs(f *ssa.Function) map[string]bool {
	out := map[string]bool{}

	for _, g := range withAnons(f) {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}

				if fa, ok := st.Addr.(*ssa.FieldAddr); ok {
					if s := modelledType(fa.X.Type()); s != "" && rootAlloc(fa.X) != nil {
						out[s] = true
					}
				}
			}
		}
	}

	return out
}

// writesConstKeys: it fills JSON objects, or has a helper fill the one it made.
func writesConstKeys(f *ssa.Function) bool {
	for _, g := range withAnons(f) {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.MapUpdate:
					if isJSONObject(x.Map.Type()) {
						return true
					}
				case *ssa.Call:
					h := x.Call.StaticCallee()
					if h == nil || h == f || isExportedFn(h) || fnPkgPath(h) != fnPkgPath(f) || h.Blocks == nil {
						continue
					}

					for i, p := range h.Params {
						if !isJSONObject(p.Type()) || i >= len(x.Call.Args) {
							continue
						}

						if _, given := x.Call.Args[i].(*ssa.Parameter); !given && writesConstKeys(h) {
							return true
						}
					}
				}
			}
		}
	}

	return false
}

func c30(c *Ctx) {
	c.codecs()
	c.genericJSON()
}

func (c *Ctx) codecs() {
	parse, ser := map[string]*memberTable{}, map[string]*memberTable{}
	for s := range modelled {
		parse[s], ser[s] = newTable(), newTable()
	}

	excluded := map[string]map[string]bool{}
	c.Funcs = map[string]bool{}

	for _, f := range c.inVerifiable() {
		if fs := filledStructs(f); len(fs) > 0 {
			c.parserTables(f, fs, parse, excluded)
		}

		if writesConstKeys(f) {
			c.serialiserTables(f, ser)
		}
	}

	var ss []string
	for s := range modelled {
		ss = append(ss, s)
	}

	sort.Strings(ss)

	for _, s := range ss {
		c.compare(s, parse[s], ser[s], excluded[s])
	}

	c.modifiers(parse["CredentialContents"])
	c.clones()
}

// modifiers: a method that gives back a credential with another value of a field changes the document alike, whichever
// of the members it is parsed from the document has.
func (c *Ctx) modifiers(p *memberTable) {
	n := 0

	for _, f := range c.inVerifiable() {
		if !isExportedFn(f) || f.Signature.Recv() == nil || modelName(f.Signature.Recv().Type()) != "Credential" ||
			f.Signature.Results().Len() != 1 || modelName(f.Signature.Results().At(0).Type()) != "Credential" {
			continue
		}

		fields := map[string]bool{}

		for _, g := range withHelpers(f) {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					if st, ok := in.(*ssa.Store); ok {
						if fa, ok := st.Addr.(*ssa.FieldAddr); ok && modelledType(fa.X.Type()) == "CredentialContents" && !copiesField(st.Val, fa) {
							fields[structField(fa.X.Type(), fa.Field)] = true
						}
					}
				}
			}
		}

		if len(fields) == 0 {
			continue
		}

		n++

		c.modifier(f, fields, p)
	}

	c.oblige(n >= 8, "modifiers", "hardly any method that changes a credential was found: the rule would be vacuous", modPath+"/verifiable", nil)
}

func modelName(t types.Type) string {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}

	if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == modPath+"/verifiable" {
		return n.Obj().Name()
	}

	return ""
}

func (c *Ctx) modifier(f *ssa.Function, fields map[string]bool, p *memberTable) {
	keyOf := map[string]string{}

	for name := range fields {
		for k := range p.keys[name] {
			if name != "SDJWTHashAlg" || k == "_sd_alg" {
				keyOf[k] = name
			}
		}
	}

	var reqs []GateReq

	for k, name := range keyOf {
		k := k

		reqs = append(reqs, GateReq{ID: "changes:" + k, Why: "member " + k + ", which " + name + " is parsed from, is written or removed", Fn: func(e *Exec, s *State) bool {
			for t := range s.facts {
				if t.Op == "has" && ConstStr(k)(t.Args[1]) {
					return true
				}
			}

			return false
		}})
	}

	sort.Slice(reqs, func(i, j int) bool { return reqs[i].ID < reqs[j].ID })

	own := map[*ssa.Function]bool{}
	for _, g := range withHelpers(f) {
		own[g] = true
	}

	type write struct {
		m   *Term
		key string
		val *Term
		at  token.Pos
	}

	var writes []write

	docs := map[*Term]bool{}                                                    // the documents of the credentials it gives back
	made, written := map[string]map[string]bool{}, map[string]map[string]bool{} // field -> parameters its value is made of

	note := func(m map[string]map[string]bool, name string, t *Term) {
		if m[name] == nil {
			m[name] = map[string]bool{}
		}

		t.walk(func(x *Term) bool {
			if x.Op == "param" && x.Name != f.Params[0].Name() {
				m[name][x.Name] = true
			}

			return true
		})
	}

	c.gateFn(Gate{Name: shortName(f), Entry: shortName(f), NoHavoc: []string{"~."}, Max: 60, Reqs: reqs, Opaque: []string{"~(^|/)util/json", "~^samber|/lo"},
		OnInstr: func(e *Exec, fr *Frame, s *State, in ssa.Instruction) {
			if st, ok := in.(*ssa.Store); ok && own[fr.fn] {
				if fa, ok := st.Addr.(*ssa.FieldAddr); ok && fields[structField(fa.X.Type(), fa.Field)] && modelledType(fa.X.Type()) == "CredentialContents" {
					note(made, structField(fa.X.Type(), fa.Field), e.snap(s, e.val(fr, s, st.Val), 0))
				}
			}

			if rt, ok := in.(*ssa.Return); ok && fr.fn == f && len(rt.Results) == 1 {
				for _, m := range documentsOf(e, s, e.val(fr, s, rt.Results[0])) {
					docs[m] = true
				}
			}

			mu, ok := in.(*ssa.MapUpdate)
			if !ok || !isJSONObject(mu.Map.Type()) {
				return
			}

			k, ok := constStr(e.val(fr, s, mu.Key))
			if !ok {
				return
			}

			for _, m := range alternatives(peel(e.val(fr, s, mu.Map))) {
				writes = append(writes, write{peel(m), k, e.snap(s, e.val(fr, s, mu.Value), 0), mu.Pos()})
			}
		}}, f)

	c.oblige(len(docs) > 0, "document:"+shortName(f), "the document of the credential "+shortName(f)+" gives back was not found", c.P.pos(f.Pos()), nil)

	for _, w := range writes {
		if !docs[w.m] { // the value of a member
			continue
		}

		c.oblige(keyOf[w.key] != "", "modifies:"+shortName(f)+":"+w.key, shortName(f)+" writes member "+w.key+", but the contents it changes are "+names(fields), c.P.pos(w.at), nil)

		if name := keyOf[w.key]; name != "" {
			note(written, name, w.val)
		}
	}

	for name := range fields {
		for par := range made[name] {
			c.oblige(written[name][par], "value:"+shortName(f)+":"+name, shortName(f)+" makes "+name+" of "+par+", but what it writes to the document is made of "+names(written[name]), c.P.pos(f.Pos()), nil)
		}
	}
}

// documentsOf: the JSON objects a structure holds.
func documentsOf(e *Exec, s *State, t *Term) (out []*Term) {
	for _, p := range alternatives(t) {
		if p.Typ == nil {
			continue
		}

		pt, ok := p.Typ.Underlying().(*types.Pointer)
		if !ok {
			continue
		}

		st, ok := pt.Elem().Underlying().(*types.Struct)
		if !ok {
			continue
		}

		for i := 0; i < st.NumFields(); i++ {
			if isJSONObject(st.Field(i).Type()) {
				for _, m := range alternatives(peel(e.load(s, e.field(p, i, st), st.Field(i).Type()))) {
					out = append(out, peel(m))
				}
			}
		}
	}

	return out
}

// copiesField: the value is that of the same field elsewhere.
func copiesField(v ssa.Value, fa *ssa.FieldAddr) bool {
	seen := map[ssa.Value]bool{}

	var from func(v ssa.Value) bool

	from = func(v ssa.Value) bool {
		if v == nil || seen[v] {
			return false
		}

		seen[v] = true

		switch x := v.(type) {
		case *ssa.FieldAddr:
			if x.Field == fa.Field && types.Identical(x.X.Type(), fa.X.Type()) {
				return true
			}
		case *ssa.Field:
			return structField(x.X.Type(), x.Field) == structField(fa.X.Type(), fa.Field)
		}

		in, ok := v.(ssa.Instruction)
		if !ok {
			return false
		}

		for _, op := range in.Operands(nil) {
			if *op != nil && from(*op) {
				return true
			}
		}

		return false
	}

	return from(v)
}

// withHelpers: f, its closures and the unexported functions of its package they call.
func withHelpers(f *ssa.Function) []*ssa.Function {
	out := withAnons(f)
	seen := map[*ssa.Function]bool{}

	for _, g := range out {
		seen[g] = true
	}

	for i := 0; i < len(out); i++ {
		for _, b := range out[i].Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}

				g := ci.Common().StaticCallee()
				if g == nil || g.Origin() == nil && g.Blocks == nil || seen[g] || isExportedFn(g) || fnPkgPath(g) != fnPkgPath(f) {
					continue
				}

				for _, h := range withAnons(g) {
					if !seen[h] {
						seen[h] = true
						out = append(out, h)
					}
				}
			}
		}
	}

	return out
}

// clones: an exact copy has every field.
func (c *Ctx) clones() {
	for _, f := range c.P.Funcs {
		if !isExportedFn(f) || f.Name() != "Clone" || !inModule(f) || f.Signature.Recv() == nil || f.Signature.Results().Len() != 1 || f.Synthetic != "" ||
			!types.Identical(f.Signature.Recv().Type(), f.Signature.Results().At(0).Type()) {
			continue
		}

		p, ok := f.Signature.Recv().Type().Underlying().(*types.Pointer)
		if !ok {
			continue
		}

		st, ok := p.Elem().Underlying().(*types.Struct)
		if !ok {
			continue
		}

		e := NewExec(c.P, &Config{NoHavoc: func(string) bool { return true }})
		n := 0

		for _, x := range e.Run(f) {
			if len(x.res) != 1 {
				continue
			}

			n++

			for i := 0; i < st.NumFields(); i++ {
				name := st.Field(i).Name()
				got := getField(e.snap(x.st, x.res[0], 0), name)
				c.oblige(got != nil && mentionsField(got, name), "clone:"+shortName(f)+":"+name, "the copy "+shortName(f)+" gives does not have "+name, c.P.pos(f.Pos()), nil)
			}
		}

		c.oblige(n > 0 && e.Err == nil, "clone:"+shortName(f), "no result of "+shortName(f)+" was found", c.P.pos(f.Pos()), nil)
	}
}

func mentionsField(t *Term, name string) bool {
	found := false

	t.walk(func(x *Term) bool {
		if x.Op == "field" && x.Name == name {
			found = true
		}

		return !found
	})

	return found
}

// parserTables adds what a function fills structures with.
func (c *Ctx) parserTables(f *ssa.Function, fs map[string]bool, parse map[string]*memberTable, excluded map[string]map[string]bool) {
	found := map[string]*memberTable{}
	ex := map[string]map[string]bool{}

	e := NewExec(c.P, &Config{MaxState: 40, Opaque: c.notJSONHelper(f), NoHavoc: func(string) bool { return true }, OnInstr: func(e *Exec, fr *Frame, s *State, in ssa.Instruction) {
		st, ok := in.(*ssa.Store)
		if !ok || fr.fn != f && fr.fn.Parent() != f {
			return
		}

		fa, ok := st.Addr.(*ssa.FieldAddr)
		if !ok {
			return
		}

		m := modelledType(fa.X.Type())
		if m == "" || !fs[m] || rootAlloc(fa.X) == nil {
			return
		}

		name := structField(fa.X.Type(), fa.Field)
		v := e.snap(s, e.val(fr, s, st.Val), 0)

		if found[m] == nil {
			found[m] = newTable()
		}

		if name == customField {
			v.walk(func(x *Term) bool {
				if x.Op == "call" && nameMatch(x.Name, `~(^|/)util/json\.(SplitJSONObj|CopyExcept)$`) && len(x.Args) > 1 {
					x.Args[1].walk(func(k *Term) bool {
						if str, ok := constStr(k); ok {
							if ex[m] == nil {
								ex[m] = map[string]bool{}
							}

							ex[m][str] = true
						}

						return true
					})
				}

				return true
			})

			if len(v.Args) > 0 {
				found[m].put(name, "*", st.Pos())
			}

			return
		}

		for k := range rootKeys(v) {
			found[m].put(name, k, st.Pos())
		}
	}})
	e.Run(f)

	if e.Err != nil {
		return
	}

	for m, t := range found {
		n := 0
		for name := range t.keys {
			if name != customField {
				n++
			}
		}

		if n == 0 || n == 1 && len(modelFields(c.P, m)) > 2 {
			continue
		}

		c.Funcs[shortName(f)] = true
		parse[m].fns[shortName(f)] = f

		for name, ks := range t.keys {
			for k := range ks {
				parse[m].put(name, k, t.where[name])
			}
		}

		for k := range ex[m] {
			if excluded[m] == nil {
				excluded[m] = map[string]bool{}
			}

			excluded[m][k] = true
		}
	}
}

// notJSONHelper: helpers that aren't given the document itself stand for what they are given.
func (c *Ctx) notJSONHelper(f *ssa.Function) func(*ssa.Function) bool {
	return func(g *ssa.Function) bool {
		if g.Parent() != nil {
			return false
		}

		if fnPkgPath(g) != modPath+"/verifiable" {
			return true
		}

		sig := g.Signature
		for i := 0; i < sig.Params().Len(); i++ {
			if isJSONObject(sig.Params().At(i).Type()) {
				return false
			}
		}

		return true
	}
}

// writer: the function gives back the JSON object it fills, or fills the one it is given.
func (c *Ctx) serialiserTables(f *ssa.Function, ser map[string]*memberTable) {
	found := map[string]*memberTable{}

	e := NewExec(c.P, &Config{MaxState: 40, Opaque: c.notModelHelper(f), NoHavoc: func(string) bool { return true },
		OnCall: func(e *Exec, fr *Frame, s *State, in ssa.CallInstruction, name string, args []*Term, res *Term) {
			if !nameMatch(name, `~^maps\.(Clone|Copy)`) {
				return
			}

			for _, a := range args {
				for m := range modelled {
					if rootFields(m, a)[customField] && len(rootFields(m, a)) == 1 {
						if found[m] == nil {
							found[m] = newTable()
						}

						found[m].put(customField, "*", in.Pos())
					}
				}
			}
		},
		OnInstr: func(e *Exec, fr *Frame, s *State, in ssa.Instruction) {
			mu, ok := in.(*ssa.MapUpdate)
			if !ok || !isJSONObject(mu.Map.Type()) {
				return
			}

			v := e.snap(s, e.val(fr, s, mu.Value), 0)
			key, isC := constStr(e.val(fr, s, mu.Key))

			for m := range modelled {
				for name := range rootFields(m, v) {
					if found[m] == nil {
						found[m] = newTable()
					}

					if !isC {
						if name == customField {
							found[m].put(name, "*", mu.Pos())
						}

						continue
					}

					if name == customField {
						continue
					}

					found[m].put(name, key, mu.Pos())

					if !contains(found[m].others[key], name) {
						found[m].others[key] = append(found[m].others[key], name)
					}
				}
			}
		}})
	e.Run(f)

	if e.Err != nil {
		return
	}

	for m, t := range found {
		n := 0
		for name := range t.keys {
			if name != customField {
				n++
			}
		}

		// not a serialiser of the structure, but something that mentions a field of it
		if n == 0 || n == 1 && len(modelFields(c.P, m)) > 2 || n*2 < len(modelFields(c.P, m))-2 {
			continue
		}

		c.Funcs[shortName(f)] = true
		ser[m].fns[shortName(f)] = f

		for name, ks := range t.keys {
			for k := range ks {
				ser[m].put(name, k, t.where[name+" "+k])
			}
		}

		for k, fs := range t.others {
			for _, n := range fs {
				if !contains(ser[m].others[k], n) {
					ser[m].others[k] = append(ser[m].others[k], n)
				}
			}
		}
	}
}

// notModelHelper: helpers that aren't given the structure or the JSON object stand for what they are given.
func (c *Ctx) notModelHelper(f *ssa.Function) func(*ssa.Function) bool {
	return func(g *ssa.Function) bool {
		if g.Parent() != nil {
			return false
		}

		if !inModule(g) || fnPkgPath(g) == modPath+"/verifiable" && isExportedFn(g) {
			return true
		}

		sig := g.Signature
		for i := 0; i < sig.Params().Len(); i++ {
			t := sig.Params().At(i).Type()
			if isJSONObject(t) {
				return false
			}

			// what it does with the elements is in the function it is given
			if _, ok := t.Underlying().(*types.Signature); ok {
				return false
			}

			if m := modelledType(t); m == "CredentialContents" || m == "Presentation" {
				return false
			}
		}

		return true
	}
}

func isExportedFn(f *ssa.Function) bool { return f.Object() != nil && f.Object().Exported() }

// groups: fields one member stands for together.
var sameMember = map[string]string{"CustomContext": "Context"}

func (c *Ctx) compare(s string, p, w *memberTable, excluded map[string]bool) {
	fields := modelFields(c.P, s)
	at := func(t *memberTable, k string) string {
		if pos, ok := t.where[k]; ok {
			return c.P.pos(pos)
		}

		for _, f := range t.fns {
			return c.P.pos(f.Pos())
		}

		return modPath + "/verifiable"
	}

	c.oblige(len(fields) > 0, "type:"+s, "the data model's "+s+" does not exist any more", modPath, nil)

	tagged := len(w.fns) == 0 && c.jsonTags(s, w)

	all := map[string]bool{}

	for _, f := range fields {
		ks := p.keys[f]
		c.oblige(len(ks) > 0, "parse:"+s+"."+f, "nothing of a document is parsed into "+s+"."+f, at(p, f), nil)
		c.oblige(len(w.keys[f]) > 0, "serialise:"+s+"."+f, s+"."+f+" is never serialised", at(w, f), nil)

		for k := range ks {
			all[k] = true

			if f == "SDJWTHashAlg" && k != "_sd_alg" { // older documents have it in the subject
				continue
			}

			c.oblige(w.keys[f][k] || len(w.keys[f]) == 0, "unwritten:"+s+"."+f+":"+k, "member "+k+" is parsed into "+s+"."+f+", which is serialised as "+names(w.keys[f]), at(w, f), nil)
		}

		for k := range w.keys[f] {
			c.oblige(ks[k] || len(ks) == 0, "unparsed:"+s+"."+f+":"+k, s+"."+f+" is serialised as "+k+", but it is parsed from "+names(ks), at(p, f), nil)
		}
	}

	for k, fs := range w.others {
		base := map[string]bool{}
		for _, f := range fs {
			if g := sameMember[f]; g != "" {
				f = g
			}

			base[f] = true
		}

		c.oblige(len(base) == 1, "mixed:"+s+":"+k, "member "+k+" is written from several fields of "+s+": "+names(base), at(w, fs[0]+" "+k), nil)
	}

	for k := range excluded {
		c.oblige(all[k], "custom:"+s+":"+k, "member "+k+" of "+s+" is neither parsed into a field nor kept as a custom field", at(p, customField), nil)
	}

	c.sample("%s: parsed by %s, serialised by %s", s, fnNames(p.fns), fnNames(w.fns))

	if tagged {
		return
	}

	for _, f := range w.fns {
		if !c.partOf(f, w.fns) {
			c.writesAll(s, f, fields, w)
		}
	}
}

func fnNames(m map[string]*ssa.Function) string {
	b := map[string]bool{}
	for k := range m {
		b[k] = true
	}

	return names(b)
}

// jsonTags: a structure that is marshalled as it is.
func (c *Ctx) jsonTags(s string, w *memberTable) bool {
	t := c.P.namedType("verifiable", s)
	if t == nil {
		return false
	}

	st := t.Underlying().(*types.Struct)
	n := 0

	for i := 0; i < st.NumFields(); i++ {
		tag := st.Tag(i)

		j := strings.Index(tag, `json:"`)
		if j < 0 {
			continue
		}

		name := strings.SplitN(strings.SplitN(tag[j+6:], `"`, 2)[0], ",", 2)[0]
		if name != "-" && name != "" {
			w.put(st.Field(i).Name(), name, st.Field(i).Pos())

			n++
		}
	}

	return n > 1
}

// partOf: a helper that is given the document others of the functions have begun.
func (c *Ctx) partOf(f *ssa.Function, fns map[string]*ssa.Function) bool {
	given := false
	for _, p := range f.Params {
		given = given || isJSONObject(p.Type())
	}

	if !given || isExportedFn(f) {
		return false
	}

	callers := c.P.callersOf(f)

	for _, ci := range callers {
		if fns[shortName(ci.Parent())] == nil || ci.Parent() == f {
			return false
		}
	}

	return len(callers) > 0
}

// writesAll: on every path on which the function gives back a document, each field is in it or empty.
func (c *Ctx) writesAll(s string, f *ssa.Function, fields []string, w *memberTable) {
	var reqs []GateReq

	for _, name := range fields {
		if name == customField || sameMember[name] != "" {
			continue
		}

		name := name
		keys := w.keys[name]
		of := func(t *Term) bool { return t.Op == "field" && t.Name == name && modelledType(t.Args[0].Typ) == s }
		empty := []Lit{Empty(of), NilLit(of), Eq(of, ConstStr(""))}

		reqs = append(reqs, GateReq{ID: name, Why: s + "." + name + " is in the document, or empty", Fn: func(e *Exec, st *State) bool {
			made := func(t *Term) bool { return t.Op != "field" && rootFields(s, e.snap(st, t, 0))[name] }

			for _, l := range append([]Lit{Empty(made), NilLit(made)}, empty...) {
				if st.holds(l) {
					return true
				}
			}

			for t, v := range st.facts {
				if v && t.Op == "has" {
					if k, ok := constStr(t.Args[1]); ok && keys[k] {
						return true
					}
				}
			}

			return false
		}})
	}

	// a function that is given several writes each of them
	if par := severalOf(f, s); par != "" {
		for i := range reqs {
			reqs[i].Each, reqs[i].Over = true, func(t *Term) bool { return t.Op == "param" && t.Name == par }
		}
	} else if contains(fields, customField) && len(w.keys[customField]) > 0 {
		of := func(t *Term) bool {
			return t.Op == "field" && t.Name == customField && modelledType(t.Args[0].Typ) == s
		}
		each := func(t *Term) bool { return t.Op == "has" && t.Args[1].Op == "key" && of(t.Args[1].Args[0]) }

		reqs = append(reqs, GateReq{ID: customField, Why: "every entry of " + s + "." + customField + " is in the document", Each: true, Over: of, Any: []Lit{
			{each, true}, NilLit(of), Empty(of), True(func(t *Term) bool { return t.Op == "copied" && of(t.Args[0]) }),
		}})
	}

	c.gateFn(Gate{Name: "writes", Entry: shortName(f), Opaque: []string{"~^sdjwt/"}, NoHavoc: []string{"~."}, Reqs: reqs, Max: 40,
		OnCall: func(e *Exec, fr *Frame, st *State, in ssa.CallInstruction, name string, args []*Term, res *Term) {
			if !nameMatch(name, `~^maps\.(Clone|Copy)`) {
				return
			}

			for _, a := range args {
				st.facts[e.in.mk(Term{Op: "copied", Args: []*Term{a}, Typ: types.Typ[types.Bool]})] = true
			}
		}}, f)
}

func severalOf(f *ssa.Function, s string) string {
	for _, p := range f.Params {
		if modelledType(p.Type()) == s {
			return ""
		}
	}

	for _, p := range f.Params {
		if sl, ok := p.Type().Underlying().(*types.Slice); ok && modelledType(sl.Elem()) == s {
			return p.Name()
		}
	}

	return ""
}

// genericJSON: what is put into a JSON object is of a type that a parsed document would have there, so that the object
// can be parsed again.
func (c *Ctx) genericJSON() {
	members := map[string]bool{}

	for _, f := range c.inVerifiable() {
		for _, g := range withAnons(f) {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					mu, ok := in.(*ssa.MapUpdate)
					if !ok || !isJSONObject(mu.Map.Type()) {
						continue
					}

					k, ok := mu.Key.(*ssa.Const)
					if !ok || k.Value == nil || k.Value.Kind() != constant.String {
						continue
					}

					members[constant.StringVal(k.Value)] = true

					for _, t := range dynTypes(mu.Value, map[ssa.Value]bool{}, 0) {
						c.oblige(genericType(t), "type:"+constant.StringVal(k.Value)+":"+shortName(f), "member "+constant.StringVal(k.Value)+" of a JSON object is given a value of the Go type "+short(typeName(t))+" in "+shortName(f)+", which parsing doesn't accept", c.P.pos(mu.Pos()), nil)
					}
				}
			}
		}
	}

	c.oblige(len(members) > 10, "coverage", "hardly any member is written to JSON objects: the rule would be vacuous", modPath, nil)
}

func genericType(t types.Type) bool {
	if types.IsInterface(t) {
		return true
	}

	// a type of its own doesn't match the types parsing tells apart
	switch u := types.Unalias(t).(type) {
	case *types.Basic:
		return u.Info()&(types.IsString|types.IsBoolean|types.IsNumeric) != 0 || u.Kind() == types.UntypedNil
	case *types.Map:
		return isJSONObject(u)
	case *types.Slice:
		return types.IsInterface(u.Elem())
	case *types.Signature:
		return true
	}

	return false
}

// dynTypes: the types of the values an interface value may hold.
func dynTypes(v ssa.Value, seen map[ssa.Value]bool, depth int) (out []types.Type) {
	if seen[v] || depth > 6 {
		return nil
	}

	seen[v] = true

	switch x := v.(type) {
	case *ssa.MakeInterface:
		return append([]types.Type{x.X.Type()}, elemTypes(x.X, seen, depth)...)
	case *ssa.ChangeInterface:
		return dynTypes(x.X, seen, depth)
	case *ssa.Phi:
		for _, e := range x.Edges {
			out = append(out, dynTypes(e, seen, depth)...)
		}
	case *ssa.Extract:
		if call, ok := x.Tuple.(*ssa.Call); ok {
			return resultTypes(call, x.Index, seen, depth)
		}
	case *ssa.Call:
		return resultTypes(x, 0, seen, depth)
	case *ssa.UnOp:
		if al, ok := x.X.(*ssa.Alloc); ok && x.Op == token.MUL {
			for _, r := range *al.Referrers() {
				if st, ok := r.(*ssa.Store); ok && st.Addr == al {
					out = append(out, dynTypes(st.Val, seen, depth)...)
				}
			}
		}
	}

	return out
}

func resultTypes(call *ssa.Call, i int, seen map[ssa.Value]bool, depth int) (out []types.Type) {
	f := call.Call.StaticCallee()
	if f == nil || f.Blocks == nil || !inModule(f) {
		return nil
	}

	for _, b := range f.Blocks {
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && i < len(r.Results) {
			out = append(out, dynTypes(r.Results[i], seen, depth+1)...)
		}
	}

	return out
}

// elemTypes: the types of the values a slice of interface values is filled with.
func elemTypes(v ssa.Value, seen map[ssa.Value]bool, depth int) (out []types.Type) {
	sl, ok := v.Type().Underlying().(*types.Slice)
	if !ok || !types.IsInterface(sl.Elem()) || depth > 6 {
		return nil
	}

	var follow func(v ssa.Value)

	done := map[ssa.Value]bool{}
	follow = func(v ssa.Value) {
		if done[v] {
			return
		}

		done[v] = true

		switch x := v.(type) {
		case *ssa.Phi:
			for _, e := range x.Edges {
				follow(e)
			}
		case *ssa.Slice:
			follow(x.X)
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
				for _, a := range x.Call.Args {
					follow(a)
				}

				return
			}

			for _, a := range x.Call.Args {
				var g *ssa.Function

				switch y := a.(type) {
				case *ssa.Function:
					g = y
				case *ssa.MakeClosure:
					g, _ = y.Fn.(*ssa.Function)
				}

				if g != nil && g.Blocks != nil {
					for _, b := range g.Blocks {
						if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(r.Results) > 0 {
							out = append(out, dynTypes(r.Results[0], seen, depth+1)...)
						}
					}
				}
			}

			if f := x.Call.StaticCallee(); f != nil && f.Blocks != nil && inModule(f) {
				for _, b := range f.Blocks {
					if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(r.Results) > 0 {
						follow(r.Results[0])
					}
				}
			}
		case *ssa.Alloc, *ssa.MakeSlice:
			for _, r := range *v.Referrers() {
				ia, ok := r.(*ssa.IndexAddr)
				if !ok {
					continue
				}

				for _, r := range *ia.Referrers() {
					if st, ok := r.(*ssa.Store); ok && st.Addr == ia {
						out = append(out, dynTypes(st.Val, seen, depth+1)...)
					}
				}
			}
		}
	}

	follow(v)

	return out
}
