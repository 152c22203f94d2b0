package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C39", "must-pass dataflow over the storage operations, with map writes as effects: what each operation that succeeds has written, removed or read, under which key, and that one that fails has changed nothing", c39)
}

const storePkg = "legacy/mem"

// storeMethod is the method of the store type (the one that can be put to, got from and queried) with this name.
func (c *Ctx) storeMethod(typeOf, name string) *ssa.Function {
	var recv types.Type

	for _, f := range c.P.Funcs {
		if f.Name() == typeOf && f.Signature.Recv() != nil && nameMatch(fnPkgPath(f), "~(^|/)"+storePkg+"$") {
			recv = f.Signature.Recv().Type()
		}
	}

	for _, f := range c.P.Funcs {
		if recv != nil && f.Name() == name && f.Signature.Recv() != nil && types.Identical(f.Signature.Recv().Type(), recv) {
			return f
		}
	}

	c.oblige(false, "missing|"+name, storePkg+" has no "+name+" any more", storePkg, nil)

	return nil
}

func c39(c *Ctx) {
	own := func(t *Term) bool { // the map the store keeps its entries in
		if t.Op != "field" || !Param(0)(t.Args[0]) || t.Typ == nil {
			return false
		}

		_, ok := t.Typ.Underlying().(*types.Map)

		return ok
	}

	effect := func(e *Exec, s *State, op string, args ...*Term) {
		s.facts[e.in.mk(Term{Op: op, Args: args})] = true
	}

	onInstr := func(e *Exec, fr *Frame, s *State, in ssa.Instruction) {
		switch x := in.(type) {
		case *ssa.MapUpdate:
			m, k, v := e.snap(s, e.val(fr, s, x.Map), 0), e.snap(s, e.val(fr, s, x.Key), 0), e.snap(s, e.val(fr, s, x.Value), 0)
			if own(m) {
				effect(e, s, "put", k, v)
			}
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "delete" && own(e.snap(s, e.val(fr, s, x.Call.Args[0]), 0)) {
				effect(e, s, "deleted", e.snap(s, e.val(fr, s, x.Call.Args[1]), 0))
			}
		}
	}

	put := func(k Pat, parts ...Pat) Lit {
		return Lit{func(t *Term) bool {
			if t.Op != "put" || !k(t.Args[0]) {
				return false
			}

			for _, p := range parts {
				if !Has(p)(t.Args[1]) {
					return false
				}
			}

			return true
		}, true}
	}
	deleted := func(k Pat) Lit { return Lit{func(t *Term) bool { return t.Op == "deleted" && k(t.Args[0]) }, true} }
	changed := func(s *State) bool {
		for f := range s.facts {
			if f.Op == "put" || f.Op == "deleted" {
				return true
			}
		}

		return false
	}
	named := func(k Pat) []Lit { return []Lit{NonEmpty(k), Neq(k, ConstStr(""))} }

	gate := func(name string, f *ssa.Function, reqs ...GateReq) {
		if f == nil {
			return
		}

		c.gateFn(Gate{Name: name, Entry: shortName(f), OnInstr: onInstr, NoHavoc: []string{"~.*"}, Reqs: reqs}, f)
		// and one that fails leaves everything as it was
		c.gateFn(Gate{Name: name + "-failed", Entry: shortName(f), OnInstr: onInstr, NoHavoc: []string{"~.*"}, Min: -1,
			Accept: func(e *Exec, x Exit) bool { return !e.succeeded(f, x) },
			Reqs:   []GateReq{{ID: "unchanged", Why: "nothing had been changed when it failed", Exit: func(_ *Exec, x Exit) bool { return !changed(x.st) }}}}, f)
	}

	// the same over several rounds of a loop: after a write to the map there is no way to an error
	for _, n := range []string{"Put", "Delete", "Batch"} {
		if f := c.storeMethod("Query", n); f != nil {
			bad, writes := failsAfterWrite(f)
			c.count("map writes", writes)
			c.oblige(bad == nil, n+"|after-write", n+" can fail after it has changed what is stored", c.P.pos(f.Pos()), nil)
		}
	}

	key := Param(1)
	colon := func(what Pat) []Lit {
		return []Lit{False(Call("strings.Contains", what, ConstStr(":"))), False(Call("~^strings\\.(ContainsRune|ContainsAny)$", what)), Less(Call("~^strings\\.Index(Byte|Rune|Any)?$", what), ConstInt(0))}
	}

	if f := c.storeMethod("Query", "Put"); f != nil {
		value, tags := Param(2), Param(3)
		tag := func(n string) Pat { return Fld(LoopElem(tags), n) }

		gate("put", f,
			GateReq{ID: "key", Why: "the key is not empty", Any: named(key)},
			GateReq{ID: "value", Why: "there is a value", Any: []Lit{{NilLit(value).P, false}}},
			GateReq{ID: "tag-names", Why: "no tag's name contains the separator of queries", Each: true, Over: tags, Any: colon(tag("Name"))},
			GateReq{ID: "tag-values", Why: "no tag's value contains the separator of queries", Each: true, Over: tags, Any: colon(tag("Value"))},
			GateReq{ID: "stored", Why: "the value and its tags were stored under the key", Any: []Lit{put(key, value, tags)}})
	}

	stored := func(k Pat) Pat { return MapGet(own, k) }

	for _, n := range []string{"Get", "GetTags"} {
		f := c.storeMethod("Query", n)
		if f == nil {
			continue
		}

		gate(n, f,
			GateReq{ID: "key", Why: "the key is not empty", Any: named(key)},
			GateReq{ID: "found", Why: "something is stored under the key", Any: []Lit{True(HasKey(own, key))}},
			GateReq{ID: "own", Why: "what is returned is what was stored under the key", Exit: func(e *Exec, x Exit) bool {
				t := e.snap(x.st, x.res[0], 0)
				return Has(stored(key))(t) && types.Identical(t.Typ, f.Signature.Results().At(0).Type())
			}})
	}

	if f := c.storeMethod("Query", "GetBulk"); f != nil {
		keys := Param(1)

		gate("GetBulk", f,
			GateReq{ID: "some", Why: "there is a key", Any: []Lit{NonEmpty(keys), Less(ConstInt(0), Len(keys))}},
			GateReq{ID: "keys", Why: "no key is empty", Each: true, Over: keys, Any: named(LoopElem(keys))})
		c.oblige(inPlace(f), "GetBulk|place", "a value is not returned at the place of its key", c.P.pos(f.Pos()), nil)
	}

	if f := c.storeMethod("Query", "Delete"); f != nil {
		gate("Delete", f,
			GateReq{ID: "key", Why: "the key is not empty", Any: named(key)},
			GateReq{ID: "deleted", Why: "what was stored under the key is gone", Any: []Lit{deleted(key)}})
	}

	if f := c.storeMethod("Query", "Batch"); f != nil {
		ops := Param(1)
		op := LoopElem(ops)

		gate("Batch", f,
			GateReq{ID: "some", Why: "there is an operation", Any: []Lit{NonEmpty(ops), Less(ConstInt(0), Len(ops))}},
			GateReq{ID: "keys", Why: "no operation's key is empty", Each: true, Over: ops, Any: named(Fld(op, "Key"))},
			GateReq{ID: "done", Why: "each operation was carried out, in order: its value and tags stored, or its key's entry removed where it has no value", Each: true, Over: ops, Fn: func(e *Exec, s *State) bool {
				if !e.inLoop(s, ops) {
					return false
				}

				none := NilLit(Fld(op, "Value"))

				return s.holds(none) && s.holds(deleted(Fld(op, "Key"))) && !s.holds(put(Fld(op, "Key"))) ||
					s.holds(Lit{none.P, false}) && s.holds(put(Fld(op, "Key"), Fld(op, "Value"), Fld(op, "Tags"))) && !s.holds(deleted(Fld(op, "Key")))
			}})
	}

	c.openStore(own, put)
	c.query()
}

// failsAfterWrite: an instruction that writes a map held in the receiver from which an error's return can be reached,
// and the number of writes.
func failsAfterWrite(f *ssa.Function) (ssa.Instruction, int) {
	writes := 0

	var bad ssa.Instruction

	var blocks []*ssa.BasicBlock

	for _, g := range withHelpers(f) {
		blocks = append(blocks, g.Blocks...)
	}

	for _, b := range blocks {
		for _, in := range b.Instrs {
			if !writesHeldMap(in, 3) {
				continue
			}

			writes++

			seen := map[*ssa.BasicBlock]bool{}
			work := append([]*ssa.BasicBlock{}, b.Succs...)
			fails := func(b *ssa.BasicBlock) bool {
				for _, in := range b.Instrs {
					switch x := in.(type) {
					case *ssa.Return: // a plain result
						if n := len(x.Results); n > 0 && someError(x.Results[n-1]) {
							return true
						}
					case *ssa.Store: // the result of a function that defers
						if a, ok := x.Addr.(*ssa.Alloc); ok && isErrorType(a.Type().Underlying().(*types.Pointer).Elem()) && someError(x.Val) {
							return true
						}
					}
				}

				return false
			}

			if fails(b) {
				bad = in
			}

			for len(work) > 0 {
				n := work[len(work)-1]
				work = work[:len(work)-1]

				if seen[n] {
					continue
				}

				seen[n] = true

				if fails(n) {
					bad = in
				}

				work = append(work, n.Succs...)
			}
		}
	}

	return bad, writes
}

// someError: the value is an error made or held somewhere, not nil and not a variable's.
func someError(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Const, *ssa.Phi:
		return false
	case *ssa.Call: // what writes says itself whether it failed before it did
		if writesHeldMap(x, 3) {
			return false
		}
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok && writesHeldMap(c, 3) {
			return false
		}
	case *ssa.UnOp:
		_, local := x.X.(*ssa.Alloc)
		return !local
	}

	return isErrorType(v.Type())
}

func writesHeldMap(in ssa.Instruction, depth int) bool {
	held := func(v ssa.Value) bool {
		return dependsOn(v, func(v ssa.Value) bool { _, ok := v.(*ssa.FieldAddr); return ok })
	}

	switch x := in.(type) {
	case *ssa.MapUpdate:
		return held(x.Map)
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok {
			return b.Name() == "delete" && held(x.Call.Args[0])
		}

		if g := x.Call.StaticCallee(); g != nil && depth > 0 && nameMatch(fnPkgPath(g), "~(^|/)"+storePkg+"$") {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					if writesHeldMap(in, depth-1) {
						return true
					}
				}
			}
		}
	}

	return false
}

// inPlace: a list's element is set to what is looked up under the element at the same place of the argument.
func inPlace(f *ssa.Function) bool {
	found := false

	for _, g := range withHelpers(f) {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}

				to, ok := st.Addr.(*ssa.IndexAddr)
				if !ok {
					continue
				}

				if ok := dependsOn(st.Val, func(v ssa.Value) bool {
					l, ok := v.(*ssa.Lookup)
					return ok && dependsOn(l.Index, func(v ssa.Value) bool {
						from, ok := v.(*ssa.IndexAddr)
						return ok && from.Index == to.Index
					})
				}); ok {
					found = true
				}
			}
		}
	}

	return found
}

// openStore: the store returned is the one registered under the name, or is registered under it now.
func (c *Ctx) openStore(own Pat, put func(Pat, ...Pat) Lit) {
	f := c.storeMethod("OpenStore", "OpenStore")
	if f == nil {
		return
	}

	key := Call("~^strings\\.(ToLower|ToUpper|ToLowerSpecial)$", Param(1))

	c.gateFn(Gate{Name: "open", Entry: shortName(f), NoHavoc: []string{"~.*"},
		OnInstr: func(e *Exec, fr *Frame, s *State, in ssa.Instruction) {
			if x, ok := in.(*ssa.MapUpdate); ok {
				if m := e.snap(s, e.val(fr, s, x.Map), 0); own(m) {
					s.facts[e.in.mk(Term{Op: "put", Args: []*Term{e.snap(s, e.val(fr, s, x.Key), 0), e.val(fr, s, x.Value)}})] = true
				}
			}
		},
		Reqs: []GateReq{
			{ID: "name", Why: "the name is not empty", Any: []Lit{NonEmpty(Param(1)), Neq(Param(1), ConstStr(""))}},
			{ID: "registered", Why: "what is returned is registered under the name", Exit: func(e *Exec, x Exit) bool {
				got := peel(x.res[0])
				if MapGet(own, key)(got) {
					return x.st.holds(Lit{NilLit(MapGet(own, key)).P, false})
				}

				return x.st.holds(Lit{func(t *Term) bool { return t.Op == "put" && key(t.Args[0]) && peel(t.Args[1]) == got }, true}) &&
					(x.st.holds(NilLit(MapGet(own, key))) || x.st.holds(False(HasKey(own, key))))
			}},
		}}, f)
}

// query: each criterion counts, and only what meets all of them is in the result.
func (c *Ctx) query() {
	f := c.storeMethod("Query", "Query")
	if f == nil {
		return
	}

	// results are kept per criterion
	kept := 0

	for _, g := range withHelpers(f) {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				mu, ok := in.(*ssa.MapUpdate)
				if !ok || !isString(mu.Map.Type().Underlying().(*types.Map).Key()) || !isCriteria(mu.Map) {
					continue
				}

				kept++

				c.oblige(wholeCriterion(mu.Key), "query|criteria", "what a criterion selects is kept under a part of it, where another criterion's may be", c.P.pos(mu.Pos()), nil)
			}
		}
	}

	c.count("criteria results", kept)
}

// isCriteria: the map is made here, and holds what is selected.
func isCriteria(v ssa.Value) bool {
	m := v.Type().Underlying().(*types.Map)
	n := namedOf(m.Elem())

	if n == nil {
		return false
	}

	st, ok := n.Underlying().(*types.Struct)
	if !ok {
		return false
	}

	for i := 0; i < st.NumFields(); i++ {
		if sl, ok := st.Field(i).Type().Underlying().(*types.Slice); ok && isString(sl.Elem()) {
			return true
		}
	}

	return false
}

// wholeCriterion: the key is an element of the split expression itself, not of a further split.
func wholeCriterion(k ssa.Value) bool {
	depth := 0

	dependsOn(k, func(v ssa.Value) bool {
		if call, ok := v.(*ssa.Call); ok && nameMatch(calleeName(&call.Call), "~^strings\\.(Split|SplitN|Cut|Fields)") {
			depth++
		}

		return false
	})

	return depth <= 1
}
