package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C36", "def-use analysis of every structure built member by member from another (which members the two share, which were carried over, and from where), and of arguments against the parameters they are given as", c36)
}

// copied is one member of a structure that was set, and the members of other structures the value comes from.
type copied struct {
	field string
	in    ssa.Instruction
	from  []memberRef
}

type memberRef struct {
	base  ssa.Value
	st    *types.Struct
	field string
	whole bool // the value is that member, unchanged
}

func c36(c *Ctx) {
	c.Funcs = map[string]bool{}

	var fs []*ssa.Function

	for _, f := range c.P.Funcs {
		if f.Synthetic == "" && f.Blocks != nil && !isTestSupport(fnPkgPath(f)) && !strings.Contains(fnPkgPath(f), "/legacy/test") {
			fs = append(fs, f)
		}
	}

	sort.Slice(fs, func(i, j int) bool { return fs[i].String() < fs[j].String() })

	n := 0

	args, getters := 0, 0

	for _, f := range fs {
		n += c.carriedOver(f)
		args += c.argumentsInPlace(f)
		getters += c.accessor(f)
	}

	c.oblige(args >= 100, "coverage|arguments", "hardly any arguments named like parameters were found: the rule would be vacuous", modPath, nil)
	c.oblige(getters >= 3, "coverage|accessors", "hardly any accessors were found: the rule would be vacuous", modPath, nil)
	c.oblige(n >= 10, "coverage", "hardly any structure built from another was found: the rule would be vacuous", modPath, nil)
}

// carriedOver: what is made from at least two members of a structure has all the members the two share.
func (c *Ctx) carriedOver(f *ssa.Function) (n int) {
	sets := map[ssa.Value][]copied{}

	var order []ssa.Value

	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			st, ok := in.(*ssa.Store)
			if !ok {
				continue
			}

			fa, ok := st.Addr.(*ssa.FieldAddr)
			if !ok {
				continue
			}

			base := canonical(fa.X)
			if sets[base] == nil {
				order = append(order, base)
			}

			sets[base] = append(sets[base], copied{structField(fa.X.Type(), fa.Field), in, membersIn(st.Val)})
		}
	}

	for _, base := range order {
		for _, cp := range sets[base] {
			for _, m := range cp.from {
				if other := fieldLike(cp.field, m.st); m.whole && !strings.EqualFold(m.field, cp.field) && other != nil {
					c.oblige(!types.Identical(other.Type(), cp.in.(*ssa.Store).Val.Type()), "misplaced:"+shortName(f)+":"+kindName(base.Type())+"."+cp.field, shortName(f)+" sets "+cp.field+" to "+m.field+" of what it copies, which has a "+other.Name()+" too", c.P.pos(cp.in.Pos()), nil)
				}
			}
		}

		if _, ok := base.(*ssa.Alloc); !ok {
			continue
		}

		dst := structOf(base.Type())
		if dst == nil {
			continue
		}

		type key struct {
			base ssa.Value
			st   *types.Struct
		}

		same := map[key]map[string]bool{}
		set := map[string]bool{}

		if !setElsewhere(base, set, map[ssa.Value]bool{}) {
			continue
		}

		for _, cp := range sets[base] {
			if k, ok := cp.in.(*ssa.Store).Val.(*ssa.Const); !ok || k.Value != nil {
				set[strings.ToLower(cp.field)] = true
			}

			for _, m := range cp.from {
				if m.base != base && shares(fieldLike(cp.field, dst), dst, fieldLike(m.field, m.st), m.st) {
					k := key{m.base, m.st}
					if same[k] == nil {
						same[k] = map[string]bool{}
					}

					same[k][cp.field] = true
				}
			}
		}

		for k, fields := range same {
			if len(fields) < 2 {
				continue
			}

			n++

			c.Funcs[shortName(f)] = true

			for i := 0; i < dst.NumFields(); i++ {
				for j := 0; j < k.st.NumFields(); j++ {
					d, s := dst.Field(i), k.st.Field(j)
					if shares(d, dst, s, k.st) {
						c.oblige(set[strings.ToLower(d.Name())], "carried:"+shortName(f)+":"+kindName(base.Type())+"."+d.Name(), shortName(f)+" makes a "+kindName(base.Type())+" of the members of another structure, but leaves out "+d.Name(), c.P.pos(sets[base][0].in.Pos()), nil)
					}
				}
			}
		}
	}

	return n
}

func kindName(t types.Type) string {
	if n := namedOf(t); n != nil {
		return n.Obj().Name()
	}

	return t.String()
}

// canonical: the same variable or member read twice is the same thing.
func canonical(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.UnOp:
			if x.Op != token.MUL {
				return v
			}

			a, ok := x.X.(*ssa.Alloc)
			if !ok {
				return v
			}

			v = a

			// a variable that is set once
			var st *ssa.Store

			for _, r := range *a.Referrers() {
				if s, ok := r.(*ssa.Store); ok && s.Addr == a {
					if st != nil {
						return v
					}

					st = s
				}
			}

			if st == nil {
				return v
			}

			v = st.Val
		case *ssa.ChangeType:
			v = x.X
		default:
			return v
		}
	}
}

// membersIn: the members of structures a value is made from.
func membersIn(v ssa.Value) (out []memberRef) {
	seen := map[ssa.Value]bool{}

	var walk func(v ssa.Value, depth int, whole bool)
	walk = func(v ssa.Value, depth int, whole bool) {
		if v == nil || seen[v] || depth > 6 {
			return
		}

		seen[v] = true

		switch x := v.(type) {
		case *ssa.UnOp:
			if fa, ok := x.X.(*ssa.FieldAddr); ok && x.Op == token.MUL {
				out = append(out, memberRef{canonical(fa.X), structOf(fa.X.Type()), structField(fa.X.Type(), fa.Field), whole})
				return
			}

			walk(canonical(x), depth+1, whole)
		case *ssa.Field:
			out = append(out, memberRef{canonical(x.X), structOf(x.X.Type()), structField(x.X.Type(), x.Field), whole})
		case *ssa.Call:
			for _, a := range x.Call.Args {
				walk(a, depth+1, false)
			}
		case *ssa.Phi:
			for _, e := range x.Edges {
				walk(e, depth+1, whole)
			}
		case *ssa.Convert:
			walk(x.X, depth+1, whole)
		case *ssa.ChangeType:
			walk(x.X, depth+1, whole)
		case *ssa.ChangeInterface:
			walk(x.X, depth+1, whole)
		case *ssa.MakeInterface:
			walk(x.X, depth+1, whole)
		case *ssa.TypeAssert:
			walk(x.X, depth+1, whole)
		case *ssa.Extract:
			walk(x.Tuple, depth+1, whole)
		case *ssa.Slice:
			walk(x.X, depth+1, whole)
		}
	}

	walk(v, 0, true)

	return out
}

// argumentsInPlace: an argument named like one parameter isn't given as another of the same type. The same for members
// set from members and parameters.
func (c *Ctx) argumentsInPlace(f *ssa.Function) (n int) {
	sets := map[ssa.Value][]*ssa.Store{}

	var order []ssa.Value

	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case ssa.CallInstruction:
				cc := x.Common()
				sig := cc.Signature()
				off := len(cc.Args) - sig.Params().Len()

				if off < 0 || off > 1 || cc.StaticCallee() == f {
					continue
				}

				var to []string
				for i := 0; i < sig.Params().Len(); i++ {
					to = append(to, sig.Params().At(i).Name())
				}

				n += c.inPlace(f, in, calleeText(cc), to, cc.Args[off:])
			case *ssa.Store:
				if fa, ok := x.Addr.(*ssa.FieldAddr); ok {
					base := canonical(fa.X)
					if sets[base] == nil {
						order = append(order, base)
					}

					sets[base] = append(sets[base], x)
				}
			}
		}
	}

	for _, base := range order {
		var to []string

		var from []ssa.Value

		for _, st := range sets[base] {
			fa := st.Addr.(*ssa.FieldAddr)
			to = append(to, structField(fa.X.Type(), fa.Field))
			from = append(from, st.Val)
		}

		n += c.inPlace(f, sets[base][0], "a "+kindName(base.Type()), to, from)
	}

	return n
}

func (c *Ctx) inPlace(f *ssa.Function, in ssa.Instruction, what string, to []string, from []ssa.Value) (n int) {
	names := make([]string, len(from))
	for i, v := range from {
		names[i] = nameOfValue(v)
	}

	for i := range from {
		for j := range from {
			if i == j || to[i] == "" || to[j] == "" || names[i] == "" || names[j] == "" || !types.Identical(from[i].Type(), from[j].Type()) {
				continue
			}

			if !strings.EqualFold(to[i], names[j]) || strings.EqualFold(to[i], names[i]) || len(to[i]) < 3 {
				continue
			}

			n++

			c.Funcs[shortName(f)] = true
			c.oblige(false, "place:"+shortName(f)+":"+what+":"+to[i], shortName(f)+" gives "+names[i]+" as "+to[i]+" of "+what+", and "+names[j]+" as "+to[j], c.P.pos(in.Pos()), nil)
		}

		if strings.EqualFold(to[i], names[i]) && to[i] != "" {
			n++
		}
	}

	return n
}

// nameOfValue is what the source calls a value: a parameter, a member or a method asked for it.
func nameOfValue(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.Parameter:
		return x.Name()
	case *ssa.FreeVar:
		return x.Name()
	case *ssa.UnOp:
		switch a := x.X.(type) {
		case *ssa.FieldAddr:
			return structField(a.X.Type(), a.Field)
		case *ssa.Alloc:
			return a.Comment
		case *ssa.FreeVar:
			return a.Name()
		}
	case *ssa.Field:
		return structField(x.X.Type(), x.Field)
	case *ssa.Convert:
		return nameOfValue(x.X)
	case *ssa.ChangeType:
		return nameOfValue(x.X)
	}

	return ""
}

func calleeText(cc *ssa.CallCommon) string {
	if cc.IsInvoke() {
		return cc.Method.Name()
	}

	if h := cc.StaticCallee(); h != nil {
		return shortName(h)
	}

	return "a function"
}

// onlyOfType: the structure has no other member of the member's type, which is one of the module's own.
func onlyOfType(v *types.Var, st *types.Struct) bool {
	n := namedOf(v.Type())
	if n == nil || n.Obj().Pkg() == nil || !inModulePath(n.Obj().Pkg().Path()) {
		return false
	}

	count := 0

	for i := 0; i < st.NumFields(); i++ {
		if types.Identical(st.Field(i).Type(), v.Type()) {
			count++
		}
	}

	return count == 1
}

func fieldLike(name string, st *types.Struct) *types.Var {
	for i := 0; st != nil && i < st.NumFields(); i++ {
		if strings.EqualFold(st.Field(i).Name(), name) {
			return st.Field(i)
		}
	}

	return nil
}

// shares: two structures have a member in common, by name or as the only one of its type.
func shares(d *types.Var, dst *types.Struct, s *types.Var, src *types.Struct) bool {
	if d == nil || s == nil {
		return false
	}

	return strings.EqualFold(d.Name(), s.Name()) || onlyOfType(d, dst) && onlyOfType(s, src) && types.Identical(d.Type(), s.Type())
}

// setElsewhere adds the members that helpers and closures set, and is false for what is copied as a whole.
func setElsewhere(v ssa.Value, set map[string]bool, seen map[ssa.Value]bool) bool {
	if seen[v] || v.Referrers() == nil {
		return true
	}

	seen[v] = true

	for _, r := range *v.Referrers() {
		switch x := r.(type) {
		case *ssa.Store:
			if a, ok := v.(*ssa.Alloc); ok && x.Addr == v && !isPtr(a.Type().Underlying().(*types.Pointer).Elem()) {
				return false
			}

			if a, ok := x.Addr.(*ssa.Alloc); ok && x.Val == v && !setElsewhere(a, set, seen) {
				return false
			}
		case *ssa.FieldAddr:
			if len(seen) == 1 {
				continue
			}

			for _, st := range *x.Referrers() {
				if s, ok := st.(*ssa.Store); ok && s.Addr == x {
					set[strings.ToLower(structField(x.X.Type(), x.Field))] = true
				}
			}
		case *ssa.MakeClosure:
			for i, b := range x.Bindings {
				if b == v && !setElsewhere(x.Fn.(*ssa.Function).FreeVars[i], set, seen) {
					return false
				}
			}
		case ssa.CallInstruction:
			if h := x.Common().StaticCallee(); h != nil && inModule(h) {
				for i, a := range x.Common().Args {
					if a == v && i < len(h.Params) && !setElsewhere(h.Params[i], set, seen) {
						return false
					}
				}
			}
		case *ssa.UnOp:
			if isPtr(x.Type()) && !setElsewhere(x, set, seen) {
				return false
			}
		}
	}

	return true
}

func isPtr(t types.Type) bool {
	_, ok := t.Underlying().(*types.Pointer)
	return ok
}

// accessor: a method named after a member gives that member, or sets it.
func (c *Ctx) accessor(f *ssa.Function) int {
	if f.Signature.Recv() == nil || f.Parent() != nil {
		return 0
	}

	st := structOf(f.Signature.Recv().Type())
	get := fieldLike(strings.TrimPrefix(f.Name(), "Get"), st)
	set := fieldLike(strings.TrimPrefix(f.Name(), "Set"), st)

	switch {
	case get != nil && len(f.Params) == 1 && f.Signature.Results().Len() == 1 && types.Identical(f.Signature.Results().At(0).Type(), get.Type()):
		same, other := touches(f, st, get)
		c.oblige(same || !other, "getter:"+shortName(f), shortName(f)+" gives another member than "+get.Name(), c.P.pos(f.Pos()), nil)

		return 1
	case set != nil && len(f.Params) == 2 && types.Identical(f.Params[1].Type(), set.Type()) && strings.HasPrefix(f.Name(), "Set"):
		same, other := touches(f, st, set)
		c.oblige(same || !other, "setter:"+shortName(f), shortName(f)+" sets another member than "+set.Name(), c.P.pos(f.Pos()), nil)

		return 1
	}

	return 0
}

// touches: the function, or a helper of it, uses the member, or others of the same type.
func touches(f *ssa.Function, st *types.Struct, m *types.Var) (same, other bool) {
	for _, g := range withHelpers(f) {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				var v *types.Var

				switch x := in.(type) {
				case *ssa.FieldAddr:
					if structOf(x.X.Type()) == st {
						v = st.Field(x.Field)
					}
				case *ssa.Field:
					if structOf(x.X.Type()) == st {
						v = st.Field(x.Field)
					}
				}

				if v != nil {
					same = same || v == m
					other = other || v != m && types.Identical(v.Type(), m.Type())
				}
			}
		}
	}

	return same, other
}
