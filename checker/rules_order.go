package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C33", "order-taint analysis over SSA: what every loop over a map leaves behind is shown to be the same for every iteration order, or sorted before it is used; results in map order are followed to the callers", c33)
}

// orderFree: what the order cannot matter for, with the reason.
var orderFree = []struct {
	what, why string
	list      bool // lists of them too
}{
	{"sdjwt/issuer.DisclosureEntity", "every disclosure has a random salt, so the list is different each time anyway", true},
	{"sdjwt/common.recursiveData", "digests found are a set, a disclosure is looked at once, a digest found twice is an error whichever comes first", false},
	{"sdjwt/common.DisclosureClaim", "a disclosure's value is made once, from the disclosure itself", false},
}

const unorderedStore = "/legacy/mem" // the storage interface leaves the order of results to the implementation

type orderRules struct {
	c       *Ctx
	e       *Exec
	results map[string]bool // functions whose results were followed already
	memo    map[string]int  // parameters the order of which doesn't matter: 1 yes, 2 no, 3 being decided
	used    map[string]bool
}

type oClass int

const (
	oLocal oClass = iota
	oElem
	oOuter
)

// oRegion is what is done for one element: a loop, or a function called in one.
type oRegion struct {
	fn       *ssa.Function
	blocks   map[*ssa.BasicBlock]bool
	keys     map[ssa.Value]bool
	elems    map[ssa.Value]bool
	bind     map[ssa.Value]oClass
	carried  map[ssa.Value]bool
	skip     map[ssa.Value]bool
	captured map[ssa.Value]ssa.Value // what the variables of the enclosing function are, in a loop over an iterator
	known    ssa.Value               // a value that is the same whichever element it is for
	depth    int
	stack    []*ssa.Function
}

func (r *oRegion) has(v ssa.Value) bool {
	in, ok := v.(ssa.Instruction)

	return ok && in.Block() != nil && in.Parent() == r.fn && (r.blocks == nil || r.blocks[in.Block()])
}

func c33(c *Ctx) {
	c.Funcs = map[string]bool{}
	o := &orderRules{c: c, e: NewExec(c.P, &Config{}), results: map[string]bool{}, memo: map[string]int{}, used: map[string]bool{}}
	n := 0

	for _, f := range c.P.Funcs {
		if f.Blocks == nil || isTestSupport(fnPkgPath(f)) || strings.HasSuffix(fnPkgPath(f), unorderedStore) || !inModule(f) || f.Synthetic != "" && f.Origin() == nil {
			continue
		}

		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Next:
					if rg, ok := x.Iter.(*ssa.Range); ok && !x.IsString {
						if _, ok := rg.X.Type().Underlying().(*types.Map); ok {
							n++
							c.Funcs[shortName(f)] = true

							o.mapLoop(f, x)
						}
					}
				case *ssa.Call:
					if seq, ok := x.Call.Value.(*ssa.Call); ok && nameMatch(calleeName(seq.Common()), `~^maps\.(Keys|Values|All)`) && len(x.Call.Args) == 1 {
						if mc, ok := x.Call.Args[0].(*ssa.MakeClosure); ok {
							n++
							c.Funcs[shortName(f)] = true

							o.iteratorLoop(f, x, mc, !nameMatch(calleeName(seq.Common()), `~^maps\.Values`))
						}

						continue
					}

					if nameMatch(calleeName(x.Common()), `~^slices\.Sorted(Stable)?Func`) && o.compares(x) {
						continue
					}

					if nameMatch(calleeName(x.Common()), `~^slices\.(Collect|AppendSeq|SortedFunc|SortedStableFunc)|samber/lo\.(Keys|Values|MapToSlice|Entries|UniqKeys|UniqValues|PickBy)|^reflect\.Value\.MapKeys|^\(reflect\.Value\)\.MapKeys|golang.org/x/exp/maps\.(Keys|Values)`) && fromMap(x) {
						n++
						c.Funcs[shortName(f)] = true

						why := o.uses(f, map[ssa.Value]bool{x: true}, nil, "", 0)
						o.decide(f, x.Pos(), "keys", why)
					}
				}
			}
		}
	}

	c.oblige(n >= 15, "coverage", "hardly any loop over a map was found: the rule would be vacuous", modPath, nil)
	c.count("loops over maps", n)

	for _, x := range orderFree {
		if o.used[x.what] {
			c.sample("not compared: %s (%s)", x.what, x.why)
		}
	}
}

// iteratorLoop: a loop over maps.Keys(m), maps.Values(m) or maps.All(m), the body of which is a function.
func (o *orderRules) iteratorLoop(f *ssa.Function, call *ssa.Call, mc *ssa.MakeClosure, keyed bool) {
	body, ok := mc.Fn.(*ssa.Function)
	if !ok || body.Blocks == nil {
		return
	}

	r := &oRegion{fn: body, keys: map[ssa.Value]bool{}, elems: map[ssa.Value]bool{}, bind: map[ssa.Value]oClass{}, carried: map[ssa.Value]bool{}, skip: map[ssa.Value]bool{}}
	r.captured = map[ssa.Value]ssa.Value{}

	for i, p := range body.Params {
		r.elems[p] = true

		if i == 0 && keyed {
			r.keys[p] = true
		}
	}

	for i, fv := range body.FreeVars {
		r.captured[fv] = mc.Bindings[i]
	}

	broken := false

	for _, b := range body.Blocks {
		ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok || len(ret.Results) != 1 {
			continue
		}

		if k, ok := ret.Results[0].(*ssa.Const); !ok || k.Value == nil || k.Value.ExactString() != "false" {
			continue
		}

		failed := false

		for _, in := range b.Instrs {
			if st, ok := in.(*ssa.Store); ok && isErrorType(st.Val.Type()) {
				failed = true
			}
		}

		broken = broken || !failed
	}

	o.decide(f, call.Pos(), "iterator", o.effects(r, nil, broken))
}

func fromMap(x *ssa.Call) bool {
	for _, a := range x.Call.Args {
		if call, ok := a.(*ssa.Call); ok && nameMatch(calleeName(call.Common()), `~^maps\.(Keys|Values)`) {
			return true
		}

		t := a.Type().Underlying()
		if sl, ok := t.(*types.Slice); ok { // func(in ...map[K]V)
			t = sl.Elem().Underlying()
		}

		if _, ok := t.(*types.Map); ok {
			return true
		}
	}

	return nameMatch(calleeName(x.Common()), `~MapKeys$`)
}

func (o *orderRules) decide(f *ssa.Function, at token.Pos, what string, why []string) {
	if len(why) == 0 {
		o.c.oblige(true, shortName(f)+"|"+what, "", "", nil)
		return
	}

	sort.Strings(why)

	o.c.oblige(false, shortName(f)+"|"+what, "the iteration order of a map decides what "+shortName(f)+" does: "+why[0], o.c.P.pos(at), why)
}

// exempt: the type is one the order does not matter for.
func (o *orderRules) exempt(t types.Type) bool {
	list := false

	for i := 0; i < 4 && t != nil; i++ {
		if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil {
			name := short(n.Obj().Pkg().Path() + "." + n.Obj().Name())

			for _, x := range orderFree {
				if x.what == name && (x.list || !list) {
					o.used[name] = true
					return true
				}
			}
		}

		switch u := t.Underlying().(type) {
		case *types.Pointer:
			t = u.Elem()
		case *types.Slice:
			t, list = u.Elem(), true
		default:
			return false
		}
	}

	return false
}

func (o *orderRules) mapLoop(f *ssa.Function, next *ssa.Next) {
	r := &oRegion{fn: f, keys: map[ssa.Value]bool{}, elems: map[ssa.Value]bool{}, bind: map[ssa.Value]oClass{}, carried: map[ssa.Value]bool{}, skip: map[ssa.Value]bool{}}

	for _, ref := range *next.Referrers() {
		if ex, ok := ref.(*ssa.Extract); ok {
			switch ex.Index {
			case 1:
				r.keys[ex] = true
				r.elems[ex] = true
			case 2:
				r.elems[ex] = true
			}
		}
	}

	why := o.loop(r, next.Block())
	o.decide(f, next.Iter.(*ssa.Range).Pos(), "range", why)
}

// loop: reasons for which the order of the elements matters.
func (o *orderRules) loop(r *oRegion, head *ssa.BasicBlock) (why []string) {
	r.blocks = loopBlocks(head)

	var done *ssa.BasicBlock

	for _, s := range head.Succs {
		if !r.blocks[s] {
			done = s
		}
	}

	exits, unique := o.exits(r, head)
	after := reach(done, r.blocks)

	broken := false

	for _, x := range exits {
		if unique[x] {
			continue
		}

		if leadsTo(x.to, after, r.blocks) {
			broken = true
		}
	}

	// what is carried from one element to the next
	for _, in := range head.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}

		if r.skip[phi] || isErrorType(phi.Type()) {
			continue
		}

		why = append(why, o.carry(r, head, phi, broken)...)
	}

	why = append(why, o.effects(r, r.blocks, broken)...)
	why = append(why, o.control(r)...)
	why = append(why, o.leave(r, head, done, exits, unique, after)...)

	return why
}

func loopBlocks(head *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
	body := map[*ssa.BasicBlock]bool{head: true}

	var add func(b *ssa.BasicBlock)
	add = func(b *ssa.BasicBlock) {
		if body[b] {
			return
		}

		body[b] = true

		for _, p := range b.Preds {
			add(p)
		}
	}

	for _, p := range head.Preds {
		if head.Dominates(p) {
			add(p)
		}
	}

	return body
}

func reach(b *ssa.BasicBlock, not map[*ssa.BasicBlock]bool) map[*ssa.BasicBlock]bool {
	out := map[*ssa.BasicBlock]bool{}

	var add func(b *ssa.BasicBlock)
	add = func(b *ssa.BasicBlock) {
		if b == nil || out[b] || not[b] {
			return
		}

		out[b] = true

		for _, s := range b.Succs {
			add(s)
		}
	}

	add(b)

	return out
}

func leadsTo(b *ssa.BasicBlock, to, not map[*ssa.BasicBlock]bool) bool {
	for x := range reach(b, not) {
		if to[x] {
			return true
		}
	}

	return false
}

type oExit struct{ from, to *ssa.BasicBlock }

// exits: the edges that leave the loop early; those taken for one particular key only are unique.
func (o *orderRules) exits(r *oRegion, head *ssa.BasicBlock) (xs []oExit, unique map[oExit]bool) {
	unique = map[oExit]bool{}

	for _, b := range r.fn.Blocks {
		if !r.blocks[b] || b == head {
			continue
		}

		for _, s := range b.Succs {
			if r.blocks[s] {
				continue
			}

			x := oExit{b, s}
			xs = append(xs, x)

			for _, g := range r.fn.Blocks {
				if !r.blocks[g] {
					continue
				}

				i, ok := g.Instrs[len(g.Instrs)-1].(*ssa.If)
				if !ok {
					continue
				}

				c, ok := i.Cond.(*ssa.BinOp)
				if !ok || c.Op != token.EQL && c.Op != token.NEQ {
					continue
				}

				if !(o.isKey(r, c.X) && !o.depends(r, c.Y) || o.isKey(r, c.Y) && !o.depends(r, c.X)) {
					continue
				}

				t := g.Succs[0]
				if c.Op == token.NEQ {
					t = g.Succs[1]
				}

				if g == b && t == s || len(t.Preds) == 1 && t.Dominates(b) {
					unique[x] = true
				}
			}
		}
	}

	return xs, unique
}

// isKey: different for different keys.
func (o *orderRules) isKey(r *oRegion, v ssa.Value) bool {
	if r.keys[v] {
		return true
	}

	switch x := v.(type) {
	case *ssa.Convert:
		return o.isKey(r, x.X)
	case *ssa.ChangeType:
		return o.isKey(r, x.X)
	case *ssa.MakeInterface:
		return o.isKey(r, x.X)
	case *ssa.BinOp:
		return x.Op == token.ADD && (o.isKey(r, x.X) && !o.depends(r, x.Y) || o.isKey(r, x.Y) && !o.depends(r, x.X))
	case *ssa.Phi: // one of several forms of it, e.g. with a prefix: taken to be the same for every element
		for _, e := range x.Edges {
			if !o.isKey(r, e) {
				return false
			}
		}

		return !r.carried[x] && len(x.Edges) > 0 && !samePhi(x)
	}

	return false
}

func samePhi(x *ssa.Phi) bool {
	for _, e := range x.Edges {
		if e == x {
			return true
		}
	}

	return false
}

// depends: on the element or on what earlier elements left.
func (o *orderRules) depends(r *oRegion, v ssa.Value) bool {
	return o.dep(r, v, map[ssa.Value]bool{}, true)
}

func (o *orderRules) dependsCarried(r *oRegion, v ssa.Value) bool {
	return o.dep(r, v, map[ssa.Value]bool{}, false)
}

func (o *orderRules) dep(r *oRegion, v ssa.Value, seen map[ssa.Value]bool, elems bool) bool {
	if v == nil || seen[v] {
		return false
	}

	seen[v] = true

	if r.known != nil && (v == r.known || sameAddr(v, r.known)) {
		return false
	}

	if r.elems[v] || r.keys[v] {
		return elems
	}

	if r.carried[v] {
		return true
	}

	if _, ok := r.bind[v]; ok && elems && r.bind[v] == oElem {
		return true
	}

	in, ok := v.(ssa.Instruction)
	if !ok {
		return false
	}

	if in.Parent() != r.fn || !r.has(v) && !laterThan(r, in) {
		return false
	}

	if al, ok := v.(*ssa.Alloc); ok {
		for _, ref := range *al.Referrers() {
			switch y := ref.(type) {
			case *ssa.Store:
				if y.Addr == al && o.dep(r, y.Val, seen, elems) {
					return true
				}
			case *ssa.IndexAddr:
				for _, r2 := range *y.Referrers() {
					if st, ok := r2.(*ssa.Store); ok && o.dep(r, st.Val, seen, elems) {
						return true
					}
				}
			case *ssa.FieldAddr:
				for _, r2 := range *y.Referrers() {
					if st, ok := r2.(*ssa.Store); ok && o.dep(r, st.Val, seen, elems) {
						return true
					}
				}
			}
		}
	}

	var ops [12]*ssa.Value
	for _, op := range in.Operands(ops[:0]) {
		if op != nil && *op != nil && o.dep(r, *op, seen, elems) {
			return true
		}
	}

	return false
}

// laterThan: the instruction is on the way out of the loop.
func laterThan(r *oRegion, in ssa.Instruction) bool {
	for b := in.Block(); b != nil; b = b.Idom() {
		if r.blocks[b] {
			return true
		}
	}

	return false
}

func (o *orderRules) class(r *oRegion, v ssa.Value) oClass {
	return o.classOf(r, v, map[ssa.Value]bool{})
}

func (o *orderRules) classOf(r *oRegion, v ssa.Value, seen map[ssa.Value]bool) oClass {
	if seen[v] {
		return oLocal
	}

	seen[v] = true

	if r.keys[v] || r.elems[v] {
		return oElem
	}

	if c, ok := r.bind[v]; ok {
		return c
	}

	switch x := v.(type) {
	case *ssa.Const, *ssa.Function, *ssa.Builtin:
		return oLocal
	case *ssa.Parameter, *ssa.FreeVar, *ssa.Global:
		return oOuter
	case *ssa.Phi:
		if !r.has(v) {
			return oOuter
		}

		out := oLocal
		for _, e := range x.Edges {
			if c := o.classOf(r, e, seen); c > out {
				out = c
			}
		}

		return out
	}

	if !r.has(v) {
		return oOuter
	}

	switch x := v.(type) {
	case *ssa.Extract:
		return o.classOf(r, x.Tuple, seen)
	case *ssa.Lookup:
		if o.isKey(r, x.Index) {
			return oElem
		}

		return o.classOf(r, x.X, seen)
	case *ssa.IndexAddr:
		if o.isKey(r, x.Index) {
			return oElem
		}

		return o.classOf(r, x.X, seen)
	case *ssa.FieldAddr:
		return o.classOf(r, x.X, seen)
	case *ssa.Field:
		return o.classOf(r, x.X, seen)
	case *ssa.Index:
		return o.classOf(r, x.X, seen)
	case *ssa.Slice:
		return o.classOf(r, x.X, seen)
	case *ssa.ChangeType:
		return o.classOf(r, x.X, seen)
	case *ssa.ChangeInterface:
		return o.classOf(r, x.X, seen)
	case *ssa.Convert:
		return o.classOf(r, x.X, seen)
	case *ssa.MakeInterface:
		return o.classOf(r, x.X, seen)
	case *ssa.TypeAssert:
		return o.classOf(r, x.X, seen)
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return oLocal
		}

		if al, ok := x.X.(*ssa.Alloc); ok && r.has(al) {
			out := oLocal

			for _, ref := range *al.Referrers() {
				if st, ok := ref.(*ssa.Store); ok && st.Addr == al {
					if c := o.classOf(r, st.Val, seen); c > out {
						out = c
					}
				}
			}

			return out
		}

		return o.classOf(r, x.X, seen)
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			return o.classOf(r, x.Call.Args[0], seen)
		}
	}

	return oLocal
}

// carry: what a variable that is kept from one element to the next holds at the end.
func (o *orderRules) carry(r *oRegion, head *ssa.BasicBlock, phi *ssa.Phi, broken bool) (why []string) {
	name := phi.Comment
	if name == "" {
		name = phi.Name()
	}

	leaves := map[ssa.Value]bool{}
	grown := map[ssa.Value]bool{phi: true}
	kind := "same"

	var flat func(v ssa.Value)

	seen := map[ssa.Value]bool{}
	flat = func(v ssa.Value) {
		if v == phi || seen[v] {
			return
		}

		seen[v] = true

		if p, ok := v.(*ssa.Phi); ok && r.blocks[p.Block()] {
			grown[p] = true

			for _, e := range p.Edges {
				flat(e)
			}

			return
		}

		if call, ok := v.(*ssa.Call); ok && r.has(call) {
			if b, ok := call.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
				if o.reaches(call.Call.Args[0], phi, r, map[ssa.Value]bool{}) {
					grown[call] = true
					kind = "append"

					flat(call.Call.Args[0])

					return
				}
			}
		}

		if b, ok := v.(*ssa.BinOp); ok && r.has(b) && commutes(b) {
			for _, pair := range [][2]ssa.Value{{b.X, b.Y}, {b.Y, b.X}} {
				if o.reaches(pair[0], phi, r, map[ssa.Value]bool{}) && !o.reaches(pair[1], phi, r, map[ssa.Value]bool{}) {
					if kind == "same" {
						kind = "sum"
					}

					flat(pair[0])

					return
				}
			}
		}

		leaves[v] = true
	}

	for i, p := range head.Preds {
		if r.blocks[p] {
			flat(phi.Edges[i])
		}
	}

	if len(leaves) == 0 && kind == "same" {
		return nil
	}

	r.carried[phi] = true

	if o.exempt(phi.Type()) {
		delete(r.carried, phi)
		return nil
	}

	outside := o.usedOutside(r, grown)

	if kind == "append" && len(leaves) == 0 {
		if !outside {
			return nil
		}

		if broken {
			return []string{"the loop may end before " + name + " has all elements"}
		}

		return o.uses(r.fn, grown, r.blocks, name, r.depth)
	}

	if !outside {
		return nil
	}

	if broken && (kind == "sum" || kind == "append") {
		return []string{"the loop may end before " + name + " counts all elements"}
	}

	if kind == "sum" && len(leaves) == 0 {
		return nil
	}

	if kind == "same" && len(leaves) == 1 {
		for v := range leaves {
			if !o.depends(r, v) || o.extreme(r, grown, v) {
				return nil
			}
		}
	}

	return []string{name + " depends on which element comes last"}
}

// reaches: the value is the variable, possibly with more appended or added to it.
func (o *orderRules) reaches(v ssa.Value, phi *ssa.Phi, r *oRegion, seen map[ssa.Value]bool) bool {
	if v == phi {
		return true
	}

	if seen[v] || !r.has(v) {
		return false
	}

	seen[v] = true

	switch x := v.(type) {
	case *ssa.Phi:
		for _, e := range x.Edges {
			if o.reaches(e, phi, r, seen) {
				return true
			}
		}
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			return o.reaches(x.Call.Args[0], phi, r, seen)
		}
	case *ssa.BinOp:
		return commutes(x) && (o.reaches(x.X, phi, r, seen) || o.reaches(x.Y, phi, r, seen))
	}

	return false
}

func commutes(b *ssa.BinOp) bool {
	t, ok := b.Type().Underlying().(*types.Basic)
	if !ok || t.Info()&(types.IsInteger|types.IsBoolean) == 0 {
		return false
	}

	switch b.Op {
	case token.ADD, token.MUL, token.OR, token.AND, token.XOR:
		return true
	}

	return false
}

// extreme: the largest or the smallest.
func (o *orderRules) extreme(r *oRegion, grown map[ssa.Value]bool, v ssa.Value) bool {
	is := func(x ssa.Value) bool { return x == v }
	has := func(x ssa.Value) bool { return grown[x] }

	for b := range r.blocks {
		for _, in := range b.Instrs {
			if ordered(in, is, has, 0) {
				return true
			}
		}
	}

	call, ok := v.(*ssa.Call)
	if !ok {
		return false
	}

	if b, ok := call.Call.Value.(*ssa.Builtin); ok && (b.Name() == "max" || b.Name() == "min") {
		return true
	}

	// a function that gives back one of two values, after comparing them
	f := call.Call.StaticCallee()
	if f == nil || len(f.Params) != 2 || len(call.Call.Args) != 2 || !has(call.Call.Args[0]) && !has(call.Call.Args[1]) {
		return false
	}

	compared := false

	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			compared = compared || ordered(in, func(x ssa.Value) bool { return x == f.Params[0] }, func(x ssa.Value) bool { return x == f.Params[1] }, 0)

			if ret, ok := in.(*ssa.Return); ok {
				leaves := leavesOf(ret.Results[0], map[ssa.Value]bool{})
				for l := range leaves {
					if l != f.Params[0] && l != f.Params[1] {
						return false
					}
				}
			}
		}
	}

	return compared
}

func leavesOf(v ssa.Value, seen map[ssa.Value]bool) map[ssa.Value]bool {
	out := map[ssa.Value]bool{}

	if seen[v] {
		return out
	}

	seen[v] = true

	if p, ok := v.(*ssa.Phi); ok {
		for _, e := range p.Edges {
			for l := range leavesOf(e, seen) {
				out[l] = true
			}
		}

		return out
	}

	out[v] = true

	return out
}

// ordered: the instruction compares one of the values with one of the others, perhaps in a function it calls.
func ordered(in ssa.Instruction, is, has func(ssa.Value) bool, depth int) bool {
	switch x := in.(type) {
	case *ssa.BinOp:
		switch x.Op {
		case token.LSS, token.GTR, token.LEQ, token.GEQ:
			return is(x.X) && has(x.Y) || is(x.Y) && has(x.X)
		}
	case *ssa.Call:
		f := x.Call.StaticCallee()
		if f == nil || depth > 2 || !isBool(x.Type()) || len(f.Params) != len(x.Call.Args) {
			return false
		}

		one, other := map[ssa.Value]bool{}, map[ssa.Value]bool{}

		for i, a := range x.Call.Args {
			one[f.Params[i]], other[f.Params[i]] = is(a), has(a)
		}

		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ordered(in, func(v ssa.Value) bool { return one[v] }, func(v ssa.Value) bool { return other[v] }, depth+1) {
					return true
				}
			}
		}
	}

	return false
}

func (o *orderRules) usedOutside(r *oRegion, vs map[ssa.Value]bool) bool {
	for v := range vs {
		for _, ref := range *v.Referrers() {
			if !r.blocks[ref.Block()] {
				if _, ok := ref.(*ssa.DebugRef); !ok {
					return true
				}
			}
		}
	}

	return false
}

// effects: what is left in memory that the loop did not make itself.
func (o *orderRules) effects(r *oRegion, blocks map[*ssa.BasicBlock]bool, broken bool) (why []string) {
	for _, b := range r.fn.Blocks {
		if blocks != nil && !blocks[b] {
			continue
		}

		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				why = append(why, o.store(r, x, broken)...)
			case *ssa.MapUpdate:
				why = append(why, o.mapUpdate(r, x, broken)...)
			case *ssa.Send:
				if o.class(r, x.Chan) == oOuter {
					why = append(why, "elements are sent to a channel")
				}
			case *ssa.Call:
				why = append(why, o.call(r, x)...)
			}
		}
	}

	return why
}

func sameAddr(a, b ssa.Value) bool {
	if a == b {
		return true
	}

	switch x := a.(type) {
	case *ssa.FieldAddr:
		y, ok := b.(*ssa.FieldAddr)
		return ok && x.Field == y.Field && sameAddr(x.X, y.X)
	case *ssa.UnOp:
		y, ok := b.(*ssa.UnOp)
		return ok && x.Op == y.Op && sameAddr(x.X, y.X)
	case *ssa.IndexAddr:
		y, ok := b.(*ssa.IndexAddr)
		return ok && sameAddr(x.X, y.X) && x.Index == y.Index
	}

	return false
}

func (o *orderRules) store(r *oRegion, st *ssa.Store, broken bool) []string {
	if o.class(r, st.Addr) != oOuter || isErrorType(st.Val.Type()) {
		return nil
	}

	if fa, ok := st.Addr.(*ssa.FieldAddr); ok && o.exempt(fa.X.Type()) {
		return nil
	}

	if o.exempt(st.Val.Type()) {
		return nil
	}

	name := addrName(st.Addr)

	isLoad := func(v ssa.Value) bool {
		u, ok := v.(*ssa.UnOp)
		return ok && u.Op == token.MUL && sameAddr(u.X, st.Addr)
	}

	switch v := st.Val.(type) {
	case *ssa.Call:
		if b, ok := v.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" && isLoad(v.Call.Args[0]) {
			return o.cell(r, st.Addr, name, broken)
		}
	case *ssa.BinOp:
		if commutes(v) && (isLoad(v.X) && !o.dependsCarried(r, v.Y) || isLoad(v.Y) && !o.dependsCarried(r, v.X)) {
			if broken {
				return []string{"the loop may end before " + name + " counts all elements"}
			}

			return nil
		}
	}

	if ia, ok := st.Addr.(*ssa.IndexAddr); ok {
		if !o.depends(r, ia.Index) && !o.depends(r, st.Val) {
			return nil
		}

		return o.cell(r, ia.X, name, broken)
	}

	if !o.depends(r, st.Val) {
		return nil
	}

	return []string{name + " depends on which element comes last"}
}

func addrName(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.FieldAddr:
		return structField(x.X.Type(), x.Field)
	case *ssa.IndexAddr:
		return addrName(x.X)
	case *ssa.UnOp:
		return addrName(x.X)
	case *ssa.Alloc:
		if x.Comment != "" {
			return x.Comment
		}
	case *ssa.Global, *ssa.Parameter, *ssa.FreeVar:
		return v.Name()
	}

	return v.Name()
}

// cell: a slice kept in a variable is filled in the order of the elements.
func (o *orderRules) cell(r *oRegion, addr ssa.Value, name string, broken bool) []string {
	if o.exempt(addr.Type()) {
		return nil
	}

	if broken {
		return []string{"the loop may end before " + name + " has all elements"}
	}

	if u, ok := addr.(*ssa.UnOp); ok && u.Op == token.MUL {
		addr = u.X
	}

	in := r.fn

	if v := r.captured[addr]; v != nil {
		addr, in = v, v.Parent()
	}

	if al, ok := addr.(*ssa.Alloc); ok && al.Parent() == in && r.depth == 0 {
		vs := map[ssa.Value]bool{}

		for _, ref := range *al.Referrers() {
			if u, ok := ref.(*ssa.UnOp); ok && u.Op == token.MUL {
				vs[u] = true
			}
		}

		return o.uses(in, vs, r.blocks, name, 0)
	}

	if ms, ok := addr.(*ssa.MakeSlice); ok && r.depth == 0 {
		return o.uses(r.fn, map[ssa.Value]bool{ms: true}, r.blocks, name, 0)
	}

	if sl, ok := addr.(*ssa.Slice); ok && r.depth == 0 {
		return o.uses(r.fn, map[ssa.Value]bool{sl: true}, r.blocks, name, 0)
	}

	return []string{name + " is filled in the order of the elements"}
}

func (o *orderRules) mapUpdate(r *oRegion, mu *ssa.MapUpdate, broken bool) []string {
	if o.class(r, mu.Map) != oOuter {
		return nil
	}

	if broken && (o.depends(r, mu.Key) || o.depends(r, mu.Value)) {
		return []string{"the loop may end before " + addrName(mu.Map) + " has all entries"}
	}

	if o.isKey(r, mu.Key) {
		if o.dependsCarried(r, mu.Value) {
			return []string{"the value of an entry depends on the elements before it"}
		}

		return nil
	}

	if !o.depends(r, mu.Value) {
		return nil
	}

	if o.onceOnly(r, mu) {
		if o.dependsCarried(r, mu.Value) {
			return []string{"the value of an entry depends on the elements before it"}
		}

		return nil
	}

	// counting
	if b, ok := mu.Value.(*ssa.BinOp); ok && commutes(b) {
		for _, pair := range [][2]ssa.Value{{b.X, b.Y}, {b.Y, b.X}} {
			l := pair[0]
			if ex, ok := l.(*ssa.Extract); ok {
				l = ex.Tuple
			}

			if lk, ok := l.(*ssa.Lookup); ok && lk.X == mu.Map && lk.Index == mu.Key && !o.depends(r, pair[1]) {
				return nil
			}
		}
	}

	return []string{"entries of " + addrName(mu.Map) + " may be written for several elements, and the last one stays"}
}

var orderWriters = `~\.(Write|WriteString|WriteByte|WriteRune|ReadFrom|Encode)$|^fmt\.Fprint|^io\.(Copy|WriteString)$`

// control: what is done for an element may not depend on the elements before it.
func (o *orderRules) control(r *oRegion) (why []string) {
	if r.blocks == nil {
		return nil
	}

	var (
		maps  []*ssa.MapUpdate
		cells []*ssa.Store
	)

	for b := range r.blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.MapUpdate:
				if o.class(r, x.Map) == oOuter {
					maps = append(maps, x)
				}
			case *ssa.Store:
				if o.class(r, x.Addr) == oOuter && !isErrorType(x.Val.Type()) && o.depends(r, x.Val) {
					cells = append(cells, x)
				}
			}
		}
	}

	// state: values that tell what was done for the elements before; by the key they were looked up with, if any
	state := map[ssa.Value]ssa.Value{}

	for b := range r.blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Lookup:
				for _, mu := range maps {
					if sameAddr(x.X, mu.Map) && !(o.isKey(r, x.Index) && o.isKey(r, mu.Key)) {
						state[x] = x.Index
					}
				}
			case *ssa.Call:
				if isLen(x) {
					for _, mu := range maps {
						if sameAddr(x.Call.Args[0], mu.Map) && o.depends(r, mu.Key) {
							state[x] = nil
						}
					}

					if r.carried[x.Call.Args[0]] {
						state[x] = nil
					}
				}
			case *ssa.UnOp:
				if x.Op == token.MUL {
					for _, st := range cells {
						if sameAddr(x.X, st.Addr) {
							state[x] = nil
						}
					}
				}
			case *ssa.Phi:
				if r.carried[x] && !isErrorType(x.Type()) {
					state[x] = nil
				}
			}
		}
	}

	for b := range r.blocks {
		br, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok || !r.blocks[b.Succs[0]] || !r.blocks[b.Succs[1]] { // where the loop is left: see leave
			continue
		}

		for v, key := range state {
			s := &oRegion{fn: r.fn, blocks: r.blocks, carried: map[ssa.Value]bool{v: true}, bind: map[ssa.Value]oClass{}}
			if !o.dependsCarried(s, br.Cond) {
				continue
			}

			// what is done depends on the key alone
			t := *r
			t.elems, t.keys = map[ssa.Value]bool{}, map[ssa.Value]bool{}

			for e := range r.elems {
				t.elems[e] = true
			}

			for e := range r.keys {
				t.keys[e] = true
			}

			if key != nil {
				delete(t.elems, key)
				delete(t.keys, key)

				t.skip = map[ssa.Value]bool{}
				for e := range r.skip {
					t.skip[e] = true
				}

				t.known = key
			}

			for _, succ := range b.Succs {
				if len(succ.Preds) != 1 || !r.blocks[succ] {
					continue
				}

				for c := range r.blocks {
					if !succ.Dominates(c) {
						continue
					}

					for _, in := range c.Instrs {
						if what := o.doneFor(&t, in); what != "" {
							why = append(why, what+" for some elements only, depending on the ones before")
						}
					}
				}
			}
		}
	}

	return why
}

// doneFor: the instruction leaves something of the element behind.
func (o *orderRules) doneFor(r *oRegion, in ssa.Instruction) string {
	switch x := in.(type) {
	case *ssa.MapUpdate:
		if o.class(r, x.Map) == oOuter && (o.depends(r, x.Key) || o.depends(r, x.Value)) {
			return "an entry of " + addrName(x.Map) + " is written"
		}
	case *ssa.Store:
		if o.class(r, x.Addr) == oOuter && !isErrorType(x.Val.Type()) && !o.exempt(x.Val.Type()) && o.depends(r, x.Val) {
			return addrName(x.Addr) + " is set"
		}
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok {
			switch b.Name() {
			case "delete":
				if o.class(r, x.Call.Args[0]) == oOuter && o.depends(r, x.Call.Args[1]) {
					return "an entry is deleted"
				}
			case "append":
				for _, a := range x.Call.Args[1:] {
					if o.depends(r, a) && !o.exempt(x.Type()) && o.class(r, x.Call.Args[0]) != oElem {
						return "an element is appended"
					}
				}
			}
		}
	}

	return ""
}

func isZero(v ssa.Value) bool {
	k, ok := v.(*ssa.Const)
	return ok && k.Value != nil && k.Value.ExactString() == "0"
}

// compares: the order a sort is given looks at both elements, and not just at their lengths.
func (o *orderRules) compares(call *ssa.Call) bool {
	var less *ssa.Function

	for _, a := range call.Call.Args {
		switch x := a.(type) {
		case *ssa.MakeClosure:
			less, _ = x.Fn.(*ssa.Function)
		case *ssa.Function:
			less = x
		}
	}

	if less == nil || less.Blocks == nil || !inModule(less) || len(less.Params) < 2 {
		return true
	}

	ps := less.Params[len(less.Params)-2:]
	r := &oRegion{fn: less, bind: map[ssa.Value]oClass{}, carried: map[ssa.Value]bool{}}

	for _, p := range ps {
		r.keys = map[ssa.Value]bool{p: true}
		r.elems = r.keys
		found := false

		for _, b := range less.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Return:
					found = found || o.depends(r, x.Results[0])
				case *ssa.If:
					found = found || o.depends(r, x.Cond)
				}
			}
		}

		if !found {
			return false
		}
	}

	lengths, others := 0, 0

	for _, b := range less.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.BinOp:
				if isLen(x.X) && isLen(x.Y) {
					lengths++
				} else if o.depends(r, x) {
					others++
				}
			case *ssa.Call:
				if _, ok := x.Call.Value.(*ssa.Builtin); !ok {
					others++
				}
			}
		}
	}

	return lengths == 0 || others > 0
}

func isLen(v ssa.Value) bool {
	call, ok := v.(*ssa.Call)
	if !ok {
		return false
	}

	b, ok := call.Call.Value.(*ssa.Builtin)

	return ok && b.Name() == "len"
}

// onceOnly tells that the entry is written only where a lookup found none, and that the loop is left
// where it found one: an entry is never written for two elements.
func (o *orderRules) onceOnly(r *oRegion, mu *ssa.MapUpdate) bool {
	for b := mu.Block(); b != nil; b = b.Idom() {
		d := b.Idom()
		if d == nil || !r.blocks[d] || len(b.Preds) != 1 || b.Preds[0] != d {
			continue
		}

		br, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}

		cond, there := br.Cond, d.Succs[0]
		if there == b {
			there = d.Succs[1]
			// the entry is written on the true branch: the condition has to be negated
			n, ok := cond.(*ssa.UnOp)
			if !ok || n.Op != token.NOT {
				continue
			}

			cond = n.X
		}

		ex, ok := cond.(*ssa.Extract)
		if !ok || ex.Index != 1 {
			continue
		}

		lk, ok := ex.Tuple.(*ssa.Lookup)
		if !ok || lk.X != mu.Map || !sameAddr(lk.Index, mu.Key) && lk.Index != mu.Key {
			continue
		}

		if r.blocks[there] {
			continue
		}

		return true
	}

	return false
}

func (o *orderRules) call(r *oRegion, call *ssa.Call) (why []string) {
	cc := call.Common()

	if b, ok := cc.Value.(*ssa.Builtin); ok {
		if b.Name() == "copy" && o.class(r, cc.Args[0]) == oOuter {
			return []string{addrName(cc.Args[0]) + " is filled in the order of the elements"}
		}

		return nil
	}

	name := calleeName(cc)

	args := cc.Args
	if cc.IsInvoke() {
		args = append([]ssa.Value{cc.Value}, args...)
	}

	f := cc.StaticCallee()
	if f == nil || f.Blocks == nil || !inModule(f) {
		if nameMatch(name, orderWriters) && len(args) > 0 && o.class(r, args[0]) == oOuter {
			return []string{"elements are written with " + short(name)}
		}

		return nil
	}

	if r.depth > 4 {
		return nil
	}

	for _, g := range r.stack {
		if g == f {
			return nil
		}
	}

	if f == r.fn {
		return nil
	}

	sub := &oRegion{fn: f, keys: map[ssa.Value]bool{}, elems: map[ssa.Value]bool{}, bind: map[ssa.Value]oClass{}, carried: map[ssa.Value]bool{}, skip: map[ssa.Value]bool{},
		depth: r.depth + 1, stack: append(append([]*ssa.Function{}, r.stack...), r.fn)}
	outer := false

	bind := func(p, a ssa.Value) {
		c := o.class(r, a)
		if c == oOuter && o.depends(r, a) && !pointerLike(a.Type()) {
			c = oElem
		}

		sub.bind[p] = c

		if o.isKey(r, a) {
			sub.keys[p] = true
		}

		if o.dependsCarried(r, a) && !pointerLike(a.Type()) {
			sub.carried[p] = true
		}

		if c == oLocal && o.depends(r, a) {
			sub.bind[p] = oElem
		}

		if c == oOuter && pointerLike(a.Type()) {
			outer = true
		}
	}

	for i, p := range f.Params {
		if i < len(args) {
			bind(p, args[i])
		}
	}

	if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
		for i, fv := range f.FreeVars {
			bind(fv, mc.Bindings[i])
		}
	}

	if !outer {
		return nil
	}

	return o.effects(sub, nil, false)
}

func pointerLike(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Slice, *types.Interface, *types.Chan, *types.Signature:
		return true
	}

	return false
}

// leave: what the function goes on with when it leaves the loop early.
func (o *orderRules) leave(r *oRegion, head, done *ssa.BasicBlock, exits []oExit, unique map[oExit]bool, after map[*ssa.BasicBlock]bool) (why []string) {
	classes := map[string]bool{}

	for _, x := range exits {
		if unique[x] {
			continue
		}

		out := map[*ssa.BasicBlock]bool{}

		var walk func(from, b *ssa.BasicBlock)
		walk = func(from, b *ssa.BasicBlock) {
			if r.blocks[b] {
				return
			}

			if after[b] {
				classes["end"] = true

				for i, p := range b.Preds {
					if p != from {
						continue
					}

					for _, in := range b.Instrs {
						phi, ok := in.(*ssa.Phi)
						if !ok {
							break
						}

						if !isErrorType(phi.Type()) && o.depends(r, phi.Edges[i]) && !o.exempt(phi.Type()) {
							why = append(why, "what follows the loop goes on with the first element that matches")
						}

						if k, ok := phi.Edges[i].(*ssa.Const); ok {
							classes["end"] = true
							_ = k
						}
					}
				}

				return
			}

			if out[b] {
				return
			}

			out[b] = true

			switch last := b.Instrs[len(b.Instrs)-1].(type) {
			case *ssa.Return:
				cl, first := o.returned(r, last)
				if first {
					why = append(why, "it returns the first element that matches")
				}

				classes[cl] = true
			case *ssa.Panic:
				classes["error"] = true
			}

			for _, s := range b.Succs {
				walk(b, s)
			}
		}

		walk(x.from, x.to)

		why = append(why, o.effects(r, out, false)...)
	}

	if len(classes) > 1 {
		var cs []string
		for c := range classes {
			cs = append(cs, c)
		}

		sort.Strings(cs)

		why = append(why, "it depends on which element comes first how the loop ends ("+strings.Join(cs, "; ")+")")
	}

	return why
}

func (o *orderRules) returned(r *oRegion, ret *ssa.Return) (class string, first bool) {
	n := len(ret.Results)
	if n == 0 {
		return "return", false
	}

	last := ret.Results[n-1]
	if isErrorType(last.Type()) {
		if k, ok := last.(*ssa.Const); !ok || !k.IsNil() {
			return "error", false
		}

		n--
	}

	class = "returns"

	for _, v := range ret.Results[:n] {
		if k, ok := v.(*ssa.Const); ok {
			class += " " + k.String()
			continue
		}

		if o.exempt(v.Type()) {
			continue
		}

		if o.depends(r, v) {
			first = true
		}
	}

	return class, first
}

// uses: reasons for which the order of the elements of a slice matters.
func (o *orderRules) uses(f *ssa.Function, vs map[ssa.Value]bool, inside map[*ssa.BasicBlock]bool, name string, depth int) (why []string) {
	if depth > 5 {
		return []string{name + " is handed on too far"}
	}

	type use struct {
		in ssa.Instruction
		v  ssa.Value
	}

	var (
		us    []use
		sorts []ssa.Instruction
		work  []ssa.Value
	)

	for v := range vs {
		if o.exempt(v.Type()) {
			return nil
		}

		work = append(work, v)
	}

	seen := map[ssa.Value]bool{}

	for len(work) > 0 {
		v := work[len(work)-1]
		work = work[:len(work)-1]

		if seen[v] || v.Referrers() == nil {
			continue
		}

		seen[v] = true

		for _, ref := range *v.Referrers() {
			if inside[ref.Block()] {
				continue
			}

			switch x := ref.(type) {
			case *ssa.DebugRef:
			case *ssa.Phi:
				work = append(work, x)
			case *ssa.Slice:
				if x.Low != nil && !isZero(x.Low) || x.High != nil {
					us = append(us, use{x, v})
				}

				work = append(work, x)
			case *ssa.ChangeType:
				work = append(work, x)
			case *ssa.MakeInterface:
				work = append(work, x)
			case *ssa.Store:
				if al, ok := x.Addr.(*ssa.Alloc); ok && x.Val == v {
					for _, r2 := range *al.Referrers() {
						if u, ok := r2.(*ssa.UnOp); ok && u.Op == token.MUL {
							work = append(work, u)
						}
					}

					continue
				}

				us = append(us, use{x, v})
			case *ssa.Call:
				cn := calleeName(x.Common())

				if nameMatch(cn, `~^sort\.(Strings|Ints|Float64s|Slice|SliceStable|Sort|Stable)$|^slices\.Sort`) && len(x.Call.Args) > 0 && x.Call.Args[0] == v && o.compares(x) {
					sorts = append(sorts, x)
					continue
				}

				if b, ok := x.Call.Value.(*ssa.Builtin); ok {
					switch b.Name() {
					case "len", "cap", "clear":
						continue
					case "append":
						work = append(work, x)
						continue
					}
				}

				us = append(us, use{x, v})
			default:
				us = append(us, use{ref, v})
			}
		}
	}

	before := func(a, b ssa.Instruction) bool {
		if a.Block() != b.Block() {
			return a.Block().Dominates(b.Block())
		}

		for _, in := range a.Block().Instrs {
			if in == a {
				return true
			}

			if in == b {
				return false
			}
		}

		return false
	}

	loops := map[*ssa.BasicBlock]bool{}

	for _, u := range us {
		sorted := false

		for _, s := range sorts {
			if before(s, u.in) {
				sorted = true
			}
		}

		if sorted {
			continue
		}

		switch x := u.in.(type) {
		case *ssa.BinOp: // compared with nil
			continue
		case *ssa.Slice:
			why = append(why, "some of "+name+" are picked by their position in "+shortName(f))
			continue
		case *ssa.Return:
			for i, v := range x.Results {
				if v == u.v {
					why = append(why, o.result(f, i, name, depth)...)
				}
			}

			continue
		case *ssa.IndexAddr, *ssa.Index:
			head := o.sliceLoop(f, u.in)
			if head == nil {
				why = append(why, "an element of "+name+" is picked by its position in "+shortName(f))
				continue
			}

			if loops[head] {
				continue
			}

			loops[head] = true

			why = append(why, o.overSlice(f, head, seen, depth)...)

			continue
		case *ssa.Call:
			cn := calleeName(x.Common())

			if nameMatch(cn, `~^slices\.(Contains|ContainsFunc|Max|Min)|samber/lo\.(Contains|Every|Some|None|ContainsBy|SliceToMap|Associate)$|^fmt\.Errorf$|[lL]og`) {
				continue
			}

			if g := x.Call.StaticCallee(); g != nil && g.Blocks != nil && inModule(g) {
				for i, a := range x.Call.Args {
					if a == u.v && i < len(g.Params) {
						why = append(why, o.param(g, i, depth)...)
					}
				}

				continue
			}

			why = append(why, name+" is handed to "+short(cn)+" in map order in "+shortName(f))

			continue
		case *ssa.Store:
			if toErrorText(x) {
				continue
			}

			if fa, ok := x.Addr.(*ssa.FieldAddr); ok && o.exempt(fa.X.Type()) {
				continue
			}
		case *ssa.MakeClosure:
			continue
		}

		why = append(why, name+" is used in map order in "+shortName(f)+" ("+strings.TrimPrefix(fmt.Sprintf("%T", u.in), "*ssa.")+")")
	}

	return why
}

// toErrorText: the value is printed in an error message only.
func toErrorText(st *ssa.Store) bool {
	ia, ok := st.Addr.(*ssa.IndexAddr)
	if !ok {
		return false
	}

	al, ok := ia.X.(*ssa.Alloc)
	if !ok {
		return false
	}

	for _, ref := range *al.Referrers() {
		if sl, ok := ref.(*ssa.Slice); ok {
			for _, r2 := range *sl.Referrers() {
				if call, ok := r2.(*ssa.Call); ok && nameMatch(calleeName(call.Common()), `~^fmt\.Errorf$|[lL]og`) {
					return true
				}
			}
		}
	}

	return false
}

// param: the order of what a function is given matters to it.
func (o *orderRules) param(g *ssa.Function, i, depth int) []string {
	k := fmt.Sprintf("%s#%d", funcName(g), i)

	switch o.memo[k] {
	case 1, 3:
		return nil
	case 2:
		return []string{"the order matters to " + shortName(g)}
	}

	o.memo[k] = 3
	why := o.uses(g, map[ssa.Value]bool{g.Params[i]: true}, nil, g.Params[i].Name(), depth+1)
	o.memo[k] = 1

	if len(why) > 0 {
		o.memo[k] = 2
	}

	return why
}

// result: a function gives back a slice in map order.
func (o *orderRules) result(f *ssa.Function, i int, name string, depth int) (why []string) {
	if isExportedFn(f) {
		return []string{name + " is returned in map order by " + shortName(f)}
	}

	k := fmt.Sprintf("%s#%d", funcName(f), i)
	if o.results[k] {
		return nil
	}

	o.results[k] = true

	for _, call := range o.c.P.callersOf(f) {
		v, ok := call.(*ssa.Call)
		if !ok || isTestSupport(fnPkgPath(v.Parent())) {
			continue
		}

		vs := map[ssa.Value]bool{}

		if f.Signature.Results().Len() == 1 {
			vs[v] = true
		} else {
			for _, ref := range *v.Referrers() {
				if ex, ok := ref.(*ssa.Extract); ok && ex.Index == i {
					vs[ex] = true
				}
			}
		}

		why = append(why, o.uses(v.Parent(), vs, nil, name, depth+1)...)
	}

	delete(o.results, k)

	return why
}

// sliceLoop: the loop an element is read in with the loop's own counter.
func (o *orderRules) sliceLoop(f *ssa.Function, in ssa.Instruction) *ssa.BasicBlock {
	var idx ssa.Value

	switch x := in.(type) {
	case *ssa.IndexAddr:
		idx = x.Index
	case *ssa.Index:
		idx = x.Index
	}

	if b, ok := idx.(*ssa.BinOp); ok && b.Op == token.ADD {
		idx = b.X
	}

	phi, ok := idx.(*ssa.Phi)
	if !ok {
		return nil
	}

	for _, p := range phi.Block().Preds {
		if phi.Block().Dominates(p) {
			return phi.Block()
		}
	}

	return nil
}

// overSlice: reasons for which the order matters to a loop over a slice.
func (o *orderRules) overSlice(f *ssa.Function, head *ssa.BasicBlock, vs map[ssa.Value]bool, depth int) []string {
	r := &oRegion{fn: f, keys: map[ssa.Value]bool{}, elems: map[ssa.Value]bool{}, bind: map[ssa.Value]oClass{}, carried: map[ssa.Value]bool{}, skip: map[ssa.Value]bool{}, depth: depth}
	r.blocks = loopBlocks(head)

	for b := range r.blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.IndexAddr:
				if vs[x.X] && o.sliceLoop(f, x) == head {
					for _, ref := range *x.Referrers() {
						if u, ok := ref.(*ssa.UnOp); ok && u.Op == token.MUL {
							r.keys[u], r.elems[u] = true, true
						}
					}

					r.elems[x] = true

					idx := x.Index
					if b, ok := idx.(*ssa.BinOp); ok {
						idx = b.X
					}

					r.skip[idx] = true
				}
			case *ssa.Index:
				if vs[x.X] {
					r.keys[x], r.elems[x] = true, true
				}
			}
		}
	}

	// the position itself is used
	for idx := range r.skip {
		for _, ref := range *idx.Referrers() {
			if !o.counting(ref, idx, vs) {
				return []string{"the positions of a slice in map order are used in " + shortName(f)}
			}
		}
	}

	return o.loop(r, head)
}

func (o *orderRules) counting(ref ssa.Instruction, idx ssa.Value, vs map[ssa.Value]bool) bool {
	switch x := ref.(type) {
	case *ssa.Phi, *ssa.DebugRef:
		return true
	case *ssa.IndexAddr:
		return vs[x.X]
	case *ssa.BinOp:
		switch x.Op {
		case token.LSS, token.GEQ, token.NEQ, token.EQL:
			return true
		case token.ADD:
			if k, ok := x.Y.(*ssa.Const); ok && k.Value != nil && x.Referrers() != nil {
				for _, r2 := range *x.Referrers() {
					if _, again := r2.(*ssa.BinOp); again && r2.(*ssa.BinOp).Op == token.ADD {
						return false
					}

					if !o.counting(r2, x, vs) {
						return false
					}
				}

				return true
			}
		}
	}

	return false
}
