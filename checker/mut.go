package main

import (
	"go/types"
	"os"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// mutation is a write through something the function was given (or that everybody shares).
type mutation struct {
	loc *Term // what is written: an access path that starts at a param, a freevar or a global
	in  ssa.Instruction
	fn  *ssa.Function // where
}

// effects of a function, as seen by its callers.
type effects struct {
	muts  map[*Term]*mutation
	alias map[int]at // what it was given that a result may refer to -> where
	big   bool
	steps int
}

// at: how many steps below the result at least what was given is, and how many of the first steps are in new objects. (A
// new map with a member of what was given: below 0, within 1.)
type at struct{ below, within int }

type mutAnalysis struct {
	c       *Ctx
	of      map[string]*effects
	fns     map[string]*ssa.Function
	running map[string]int // being worked on, at which depth
	stack   []string
	needs   map[string]int // the outermost depth it depends on
	partial map[string]int // not final -> found when
	epoch   int            // how often something that is not final has changed
	pending []string
	impls   map[string][]*ssa.Function
	steps   int
}

// get the effects of a function. Those of functions that call each other start as none and grow until nothing is added;
// what was found on the way, from effects that were not final, is found again then.
func (m *mutAnalysis) get(f *ssa.Function) *effects {
	n := funcName(f)

	if m.running[n] > 0 {
		m.dependsOn(m.running[n])
		return m.of[n]
	}

	if ef := m.of[n]; ef != nil {
		at, partial := m.partial[n]
		if !partial {
			return ef
		}

		// nothing it was found from has changed since
		if at == m.epoch {
			m.dependsOn(m.needs[n])
			return ef
		}
	}

	if f.Blocks == nil || isTestSupport(fnPkgPath(f)) || !inModule(f) {
		return nil
	}

	m.fns[n] = f
	m.stack = append(m.stack, n)
	depth := len(m.stack)
	m.running[n] = depth

	if m.of[n] == nil {
		m.of[n] = &effects{muts: map[*Term]*mutation{}, alias: map[int]at{}}
	}

	const none = 1 << 30

	m.needs[n] = none
	inner := len(m.pending)

	for round := 0; ; round++ {
		ef := m.run(f, m.steps)
		looped := m.needs[n] <= depth
		changed := ef.add(m.of[n])
		m.of[n] = ef

		if changed && looped {
			m.epoch++
		}

		if !looped || !changed || round == 5 {
			break
		}
	}

	m.stack = m.stack[:depth-1]
	delete(m.running, n)

	if m.needs[n] < depth {
		// not final before what it depends on is
		m.partial[n] = m.epoch
		m.pending = append(m.pending, n)
	} else {
		delete(m.partial, n)

		for _, g := range m.pending[inner:] {
			delete(m.partial, g)
		}

		m.pending = m.pending[:inner]
	}

	return m.of[n]
}

// dependsOn: all that is being worked on since that depth depends on what is not final.
func (m *mutAnalysis) dependsOn(depth int) {
	for _, g := range m.stack {
		if m.running[g] >= depth {
			m.needs[g] = min(m.needs[g], depth)
		}
	}
}

// add what was found in an earlier round; it tells whether this round has found more.
func (ef *effects) add(old *effects) bool {
	was := map[string]bool{}
	for l := range old.muts {
		was[l.String()] = true
	}

	more := len(ef.alias) != len(old.alias)

	now := map[string]bool{}
	for l := range ef.muts {
		now[l.String()] = true
		more = more || !was[l.String()]
	}

	for i, d := range ef.alias {
		o, ok := old.alias[i]
		more = more || !ok || d.below < o.below || d.within < o.within
	}

	for l, mu := range old.muts {
		if !now[l.String()] {
			ef.muts[l] = mu
		}
	}

	for i, d := range old.alias {
		ef.refers(i, d)
	}

	ef.big = ef.big || old.big
	ef.steps = max(ef.steps, old.steps)

	return more
}

func (ef *effects) refers(i int, a at) {
	if old, ok := ef.alias[i]; ok {
		a.below, a.within = min(a.below, old.below), min(a.within, old.within)
	}

	ef.alias[i] = a
}

// targets of a call: the functions of the library it may run.
func (m *mutAnalysis) targets(name string) []*ssa.Function {
	if f := m.fns[name]; f != nil {
		return []*ssa.Function{f}
	}

	return m.impls[name]
}

// interfaces finds the methods of the library behind each method of its interfaces.
func (m *mutAnalysis) interfaces() {
	m.impls = map[string][]*ssa.Function{}

	byName := map[string][]*ssa.Function{}

	for _, f := range m.c.P.Funcs {
		if f.Signature.Recv() != nil && f.Synthetic == "" && f.Blocks != nil && !isTestSupport(fnPkgPath(f)) {
			byName[f.Name()] = append(byName[f.Name()], f)
		}
	}

	for _, f := range m.c.P.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok || !ci.Common().IsInvoke() {
					continue
				}

				name := calleeName(ci.Common())
				if _, ok := m.impls[name]; ok {
					continue
				}

				m.impls[name] = nil

				iface, ok := ci.Common().Value.Type().Underlying().(*types.Interface)
				if !ok {
					continue
				}

				for _, g := range byName[ci.Common().Method.Name()] {
					if types.Implements(g.Signature.Recv().Type(), iface) {
						m.impls[name] = append(m.impls[name], g)
					}
				}
			}
		}
	}
}

// shallow: results that are copies, the elements of which are those of the argument.
func shallow(name string) bool {
	return nameMatch(name, `~(^|/)(maps|slices)\.Clone(\[|$)`)
}

// returnsGiven: an external function returning what it was given.
func returnsGiven(name string) bool {
	return nameMatch(name, `~(^|/)slices\.(Compact|CompactFunc|Delete|DeleteFunc|Clip|Grow)(\[|$)`)
}

// startsAt lists the objects an access path may start at.
func (m *mutAnalysis) startsAt(t *Term, f func(r *Term, depth int)) {
	type step struct {
		t *Term
		d int
	}

	seen := map[step]bool{}

	var visit func(t *Term, d int)
	visit = func(t *Term, d int) {
		if t == nil || d > 8 || seen[step{t, d}] || len(seen) > 400 {
			return
		}

		seen[step{t, d}] = true

		switch t.Op {
		case "field":
			if t.Args[0].Typ != nil {
				if _, ok := t.Args[0].Typ.Underlying().(*types.Pointer); ok {
					d++
				}
			}

			visit(t.Args[0], d)
		case "elem", "mapget":
			visit(t.Args[0], d+1)
		case "slice", "assert", "conv", "iface", "mkiface":
			visit(t.Args[0], d)
		case "choice":
			for _, a := range t.Args {
				visit(a, d)
			}
		case "loopvar":
			for _, a := range t.Args {
				visit(a, d)
			}

			for _, a := range t.Updates {
				visit(a, d)
			}
		case "append":
			visit(t.Args[0], d)
		case "mut":
			visit(t.Args[1], d)
		case "res":
			visit(t.Args[0], d)
		case "call":
			switch {
			case shallow(t.Name):
				if d > 1 {
					visit(t.Args[0], d-1)
				}
			case returnsGiven(t.Name):
				visit(t.Args[0], d)
			}

			for _, g := range m.targets(t.Name) {
				ef := m.get(g)
				if ef == nil {
					continue
				}

				for i, a := range ef.alias {
					if i < len(t.Args) && d > a.below && d > a.within {
						visit(t.Args[i], d-a.below)
					}
				}
			}
		case "maplit", "slicelit", "struct", "ref", "kv", "fill":
			// something new, made of these
			f(t, d)

			in := d
			if t.Op == "maplit" || t.Op == "slicelit" || t.Op == "ref" {
				in--
			}

			if in > 0 {
				for i, a := range t.Args {
					if t.Op == "maplit" && i == 0 || t.Op == "kv" && i == 0 || t.Op == "struct" && !byReference(a) {
						continue
					}

					visit(a, in)
				}
			}
		case "notmap":
			// a scalar, as far as this goes
		default:
			f(t, d)
		}
	}

	visit(t, 0)
}

// byReference: writing to the object behind the member doesn't change the structure it is a member of.
func byReference(t *Term) bool { return t != nil && (t.Typ == nil || canWriteThrough(t.Typ)) }

// shared: the object exists outside the function.
func sharedRoot(r *Term) bool {
	return r.Op == "param" || r.Op == "freevar" || r.Op == "gaddr" || r.Op == "global"
}

func (m *mutAnalysis) note(ef *effects, loc *Term, fn *ssa.Function, in ssa.Instruction) {
	hit := false

	m.startsAt(loc, func(r *Term, _ int) { hit = hit || sharedRoot(r) })

	if hit && ef.muts[loc] == nil && len(ef.muts) < 400 {
		ef.muts[loc] = &mutation{loc: loc, in: in, fn: fn}
	}
}

// heldBy: the object is reached from a parameter by members and elements alone.
func heldBy(t *Term, d int) bool {
	if t == nil || d > 12 {
		return false
	}

	switch t.Op {
	case "param":
		return true
	case "field", "elem", "mapget", "slice", "assert":
		return heldBy(t.Args[0], d+1)
	case "choice":
		for _, a := range t.Args {
			if heldBy(a, d+1) {
				return true
			}
		}
	}

	return false
}

// shortened: what is behind the end of the slice is overwritten.
func shortened(v ssa.Value) bool {
	sl, ok := v.(*ssa.Slice)
	return ok && sl.High != nil && sl.Max == nil
}

// optionList: options handed on with another one appended, by convention.
func optionList(t types.Type) bool {
	sl, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}

	_, ok = sl.Elem().Underlying().(*types.Signature)

	return ok
}

// extWrites: which argument an external function writes to.
func extWrites(name string) int {
	switch {
	case nameMatch(name, `~^sort\.(Slice|SliceStable|Strings|Ints|Float64s|Sort|Stable)$`), nameMatch(name, `~(^|/)slices\.(Sort\w*|Reverse|Delete\w*|Insert|Compact\w*|Replace)(\[|$)`),
		nameMatch(name, `~(^|/)maps\.(Copy|DeleteFunc|Clear)(\[|$)`):
		return 0
	case nameMatch(name, `~^encoding/json\.Unmarshal$|cbor\.\w*\)?\.Unmarshal$|^\(\*encoding/json\.Decoder\)\.Decode$`):
		return 1
	case nameMatch(name, `~^io\.ReadFull$|^crypto/rand\.Read$`):
		return 0
	}

	return -1
}

func (m *mutAnalysis) hook(ef *effects) func(e *Exec, fr *Frame, s *State, in ssa.Instruction) {
	return func(e *Exec, fr *Frame, s *State, in ssa.Instruction) {
		switch x := in.(type) {
		case *ssa.Store:
			m.note(ef, e.val(fr, s, x.Addr), fr.fn, in)
		case *ssa.MapUpdate:
			m.note(ef, e.in.mk(Term{Op: "mapget", Args: []*Term{e.val(fr, s, x.Map), e.val(fr, s, x.Key)}}), fr.fn, in)
		case ssa.CallInstruction:
			c := x.Common()
			if b, ok := c.Value.(*ssa.Builtin); ok {
				switch b.Name() {
				case "append":
					// the array behind the slice may have room, which whoever else holds the slice shares
					if base := e.val(fr, s, c.Args[0]); len(c.Args) > 1 && (heldBy(base, 0) && !optionList(c.Args[0].Type()) || shortened(c.Args[0])) {
						m.note(ef, e.in.mk(Term{Op: "elem", Args: []*Term{base, e.in.mk(Term{Op: "spare"})}}), fr.fn, in)
					}
				case "delete", "clear", "copy":
					m.note(ef, e.in.mk(Term{Op: "mapget", Args: []*Term{e.val(fr, s, c.Args[0]), e.in.mk(Term{Op: "unknown"})}}), fr.fn, in)
				}

				return
			}

			if c.IsInvoke() && nameMatch(calleeName(c), `~^\(hash\.Hash(32|64)?\)\.(Write|Reset)$`) {
				v := e.val(fr, s, c.Value)
				m.note(ef, e.in.mk(Term{Op: "elem", Args: []*Term{stripIface(v), e.in.mk(Term{Op: "unknown"})}}), fr.fn, in)
			}

			if i := extWrites(calleeName(c)); i >= 0 && i < len(c.Args) {
				v := e.val(fr, s, c.Args[i])
				m.note(ef, e.in.mk(Term{Op: "elem", Args: []*Term{stripIface(v), e.in.mk(Term{Op: "unknown"})}}), fr.fn, in)
			}
		}
	}
}

func stripIface(t *Term) *Term {
	for t.Op == "iface" || t.Op == "mkiface" {
		t = t.Args[0]
	}

	return t
}

// resolve replaces the parameters in a callee's access path by the arguments of a call.
func (m *mutAnalysis) resolve(e *Exec, s *State, t *Term, args []*Term, fn *ssa.Function, depth int) *Term {
	if t == nil || depth > 12 {
		return nil
	}

	switch t.Op {
	case "param":
		for i, p := range fn.Params {
			if p.Name() == t.Name && i < len(args) {
				return args[i]
			}
		}

		return nil
	case "field", "elem", "mapget", "slice", "assert", "conv":
		b := m.resolve(e, s, t.Args[0], args, fn, depth+1)
		if b == nil {
			return nil
		}

		n := e.in.mk(Term{Op: t.Op, Name: t.Name, Num: t.Num, Args: append([]*Term{b}, t.Args[1:]...), Typ: t.Typ})
		if t.Op == "field" || t.Op == "elem" || t.Op == "mapget" {
			if t.Typ != nil && depth > 0 {
				if v := e.known(s, e.load(s, n, t.Typ)); v != nil {
					if v.Op == "nil" {
						return nil // nothing can be written there
					}

					return v
				}
			}
		}

		return n
	case "choice", "loopvar", "mut", "append":
		var ts []*Term

		for _, a := range append(append([]*Term{}, t.Args...), t.Updates...) {
			if a.Typ != nil && !canWriteThrough(a.Typ) {
				continue // a scalar among the elements
			}

			if r := m.resolve(e, s, a, args, fn, depth+1); r != nil && (r.Typ == nil || canWriteThrough(r.Typ)) {
				ts = append(ts, r)
			}
		}

		if len(ts) == 0 {
			return nil
		}

		return e.choice(ts...)
	case "res", "call":
		as := make([]*Term, len(t.Args))
		some := false

		for i, a := range t.Args {
			as[i] = m.resolve(e, s, a, args, fn, depth+1)
			some = some || as[i] != nil

			if as[i] == nil {
				as[i] = e.in.mk(Term{Op: "unknown"})
			}
		}

		if !some {
			return nil
		}

		return e.in.mk(Term{Op: t.Op, Name: t.Name, Num: t.Num, Args: as, Typ: t.Typ})
	case "gaddr", "global":
		return t
	}

	return nil
}

func (m *mutAnalysis) onCall(ef *effects) func(e *Exec, fr *Frame, s *State, in ssa.CallInstruction, name string, args []*Term, res *Term) {
	return func(e *Exec, fr *Frame, s *State, in ssa.CallInstruction, name string, args []*Term, res *Term) {
		for _, fn := range m.targets(name) {
			callee := m.get(fn)
			if callee == nil {
				continue
			}

			for _, mu := range callee.muts {
				for _, alt := range alternatives(mu.loc) {
					if l := m.resolve(e, s, alt, args, fn, 0); l != nil {
						m.note(ef, l, fr.fn, in)
					}
				}
			}
		}
	}
}

// refersTo finds what the function was given in a result.
func (m *mutAnalysis) refersTo(ef *effects, f *ssa.Function, st *State, r *Term) {
	held := map[*Term][]*Term{}

	for k, v := range st.mem {
		if v != nil && (v.Typ == nil || canWriteThrough(v.Typ)) {
			if r := locRoot(k); r != v && isFresh(r) {
				held[r] = append(held[r], v)
			}
		}
	}

	seen := map[*Term]bool{}

	var visit func(t *Term, in at)
	visit = func(t *Term, in at) {
		if t == nil || seen[t] || len(seen) > 4000 {
			return
		}

		if t.Typ != nil && t.Op != "choice" && !canWriteThrough(t.Typ) {
			return
		}

		seen[t] = true

		switch t.Op {
		case "param":
			for i, p := range f.Params {
				if p.Name() == t.Name {
					ef.refers(i, in)
				}
			}
		case "choice", "loopvar", "append":
			for _, a := range t.Args {
				visit(a, in)
			}

			for _, a := range t.Updates {
				visit(a, in)
			}
		case "field", "elem", "mapget", "slice", "assert", "conv", "iface", "mkiface", "mut", "res", "call":
			m.startsAt(t, func(r *Term, d int) {
				if r != t {
					visit(r, at{in.below - d, in.within})
				}
			})
		case "notmap":
		default:
			for _, a := range t.Args {
				visit(a, at{in.below + 1, in.within + 1})
			}

			for _, a := range held[t] {
				visit(a, at{in.below + 1, in.within + 1})
			}
		}
	}

	visit(r, at{})
}

// run finds the effects of one function. Calls of functions whose results may refer to what they were given are looked
// into while that is affordable; the effects of the others stand for them.
func (m *mutAnalysis) run(f *ssa.Function, limit int) (ef *effects) {
	for _, size := range []int{2000, 200, 0} {
		ef = m.runWith(f, limit, size)

		if !ef.big {
			break
		}
	}

	return ef
}

func (m *mutAnalysis) runWith(f *ssa.Function, limit, size int) *effects {
	ef := &effects{muts: map[*Term]*mutation{}, alias: map[int]at{}}

	e := NewExec(m.c.P, &Config{MaxState: 12, Goroutines: true, NilMerge: true, OnInstr: m.hook(ef), OnCall: m.onCall(ef), Opaque: func(g *ssa.Function) bool {
		if isTestSupport(fnPkgPath(g)) {
			return true
		}

		if g == f || !inModule(g) || g.Blocks == nil || g.Parent() != nil {
			return false
		}

		k := m.get(g)

		return k == nil || m.running[funcName(g)] > 0 || k.big || len(k.alias) == 0 || k.steps > size
	}, NoHavoc: m.pure})
	e.maxStep = limit

	for _, x := range e.Run(f) {
		for _, r := range x.res {
			m.refersTo(ef, f, x.st, r)
			m.refersTo(ef, f, x.st, e.snap(x.st, r, 0))
		}
	}

	ef.big, ef.steps = e.Err != nil, e.steps

	return ef
}

// pure: the call leaves what it is given as it is.
func (m *mutAnalysis) pure(name string) bool {
	ts := m.targets(name)

	for _, g := range ts {
		ef := m.get(g)
		if ef == nil || len(ef.muts) > 0 {
			return false
		}
	}

	return len(ts) > 0
}

// mutations analyses every function of the library, callees first.
func (c *Ctx) mutations() *mutAnalysis {
	m := &mutAnalysis{c: c, of: map[string]*effects{}, fns: map[string]*ssa.Function{}, running: map[string]int{}, needs: map[string]int{}, partial: map[string]int{}, steps: 300_000}
	m.interfaces()

	var fs []*ssa.Function

	for _, f := range c.P.Funcs {
		if f.Blocks != nil && f.Synthetic == "" && f.Parent() == nil && f.Object() != nil && !isTestSupport(fnPkgPath(f)) {
			fs = append(fs, f)
		}
	}

	sort.Slice(fs, func(i, j int) bool { return funcName(fs[i]) < funcName(fs[j]) })

	for _, f := range c.calleesFirst(fs) {
		if oneOfFn(f, fs) {
			m.get(f)
		}
	}

	return m
}

// mayModify: what an exported function is there to modify, by the name a reader goes by.
func mayModify(f *ssa.Function, i int) bool {
	recv := f.Signature.Recv() != nil

	if recv && i == 0 {
		if !exportedType(f.Signature.Recv().Type()) || strings.Contains(fnPkgPath(f), "/internal/") {
			return true
		}

		for _, verb := range []string{"Set", "Add", "Reset", "Unmarshal", "Put", "Delete", "Batch", "Open", "Close", "Next", "Build", "Remove"} {
			if strings.HasPrefix(f.Name(), verb) && (len(f.Name()) == len(verb) || isUpper(f.Name()[len(verb)])) {
				return true
			}
		}

		return false
	}

	// filling in what it was given is what these helpers are for
	switch shortName(f) {
	case "util/json.UnmarshalWithCustomFields":
		return i == 1 || i == 2
	case "util/json.AddCustomFields":
		return i == 0
	}

	return false
}

func isUpper(b byte) bool { return b >= 'A' && b <= 'Z' }

func exportedType(t types.Type) bool {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}

	n, ok := t.(*types.Named)

	return ok && n.Obj().Exported()
}

func init() {
	register("C28", "interprocedural mod analysis: every store, map update, delete, copy and known external writer in every function of the library, with the access path it writes to traced back (through aliases, callees, interface implementations and recursion) to what an exported function was given", c28)
}

func c28(c *Ctx) {
	m := c.mutations()
	writes, unfinished := 0, 0

	if c.Funcs == nil {
		c.Funcs = map[string]bool{}
	}

	for n, ef := range m.of {
		f := m.fns[n]
		c.Funcs[shortName(f)] = true

		if d := os.Getenv("MUTFN"); d != "" && nameMatch(n, d) {
			println("FN", n, ef.big)

			for i, b := range ef.alias {
				println("  alias", i, b.below, b.within)
			}

			for l, mu := range ef.muts {
				println("  mut", shape(l, 4), cut(l.String(), 400), c.P.pos(mu.in.Pos()))
			}
		}

		if ef.big {
			unfinished++
		}

		if f.Object() == nil || !f.Object().Exported() || strings.Contains(fnPkgPath(f), "/test/") {
			continue
		}

		for i, p := range f.Params {
			if !canWriteThrough(p.Type()) {
				continue
			}

			hits := map[string]*mutation{}

			for l, mu := range ef.muts {
				for _, alt := range alternatives(l) {
					m.startsAt(alt, func(r *Term, _ int) {
						if r.Op == "param" && r.Name == p.Name() {
							hits[firstStep(alt)] = mu
						}
					})
				}
			}

			writes += len(hits)

			for step, mu := range hits {
				if mayModify(f, i) && !(i == 0 && proofOnly(f) && !proofStep(mu.loc)) {
					continue
				}

				what := "its argument " + strconv.Itoa(i+1)
				if f.Signature.Recv() != nil {
					what = "its argument " + strconv.Itoa(i)
				}

				if f.Signature.Recv() != nil && i == 0 {
					what = "what it's called on"
				}

				c.oblige(false, shortName(f)+":"+strconv.Itoa(i)+":"+step, shortName(f)+" modifies "+what+" ("+p.Name()+"): "+cut(mu.loc.String(), 200), c.P.pos(mu.in.Pos()), []string{"written in " + shortName(mu.fn)})
			}

			if len(hits) == 0 {
				c.oblige(true, "", "", "", nil)
			}
		}
	}

	c.oblige(len(m.of) > 400 && writes > 15 && unfinished*50 <= len(m.of), "coverage", "hardly anything was analysed: the rule would be vacuous", modPath, nil)
}

// proofOnly: methods that add or remove proofs, and change nothing else.
func proofOnly(f *ssa.Function) bool {
	return nameMatch(shortName(f), `~^\(\*verifiable\.(Credential|Presentation)\)\.(Add\w*Proof|ResetProofs)$`)
}

func proofStep(l *Term) bool {
	if l.Op == "mapget" {
		k, _ := constStr(l.Args[1])
		return k == "proof"
	}

	if l.Op == "field" && l.Typ != nil {
		return strings.HasSuffix(l.Typ.String(), "verifiable.Proof")
	}

	return false
}

// firstStep names a write by the first member on the way to what is written.
func firstStep(l *Term) string {
	step := ""

	for l != nil {
		switch l.Op {
		case "field":
			step = l.Name
		case "mapget":
			step = "key"

			if k, ok := constStr(l.Args[1]); ok {
				step = k
			}
		case "elem":
			step = "element"
		case "slice", "assert", "conv":
		default:
			return step
		}

		l = l.Args[0]
	}

	return step
}

func cut(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}

	return s
}
