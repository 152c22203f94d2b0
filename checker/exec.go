package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Exec is the disjunctive dataflow analysis: it follows the control flow graph of an entry function, descends into
// module callees that are not declared opaque, and computes for every way of leaving the entry which conditions are
// established on it. There is no solver: conditions are literals over value numbers.
type Exec struct {
	lives map[*ssa.Function]map[*ssa.BasicBlock]map[*ssa.Phi]bool

	P     *Program
	in    *interner
	cfg   *Config
	loops map[*ssa.Function]*loopInfo
	ids   map[string]int

	steps   int
	Stats   Stats
	Err     error
	stack   []*ssa.Function
	maxStep int

	writes map[*ssa.Function]bool

	proofParam *Term // the entry's second parameter
}

type Stats struct {
	Funcs map[string]bool
	Calls int
	Paths int
}

// Config tunes one analysis.
type Config struct {
	Opaque   func(fn *ssa.Function) bool // treat as an uninterpreted call
	MaxDepth int
	MaxState int
	Reqs     []*Req
	// OnInstr is called before an instruction takes effect.
	OnInstr func(e *Exec, fr *Frame, s *State, in ssa.Instruction)
	// OnCall is called for every opaque call with its result term.
	OnCall func(e *Exec, fr *Frame, s *State, in ssa.CallInstruction, name string, args []*Term, res *Term)
	// PureMut: the named opaque calls do not write through their pointer arguments.
	NoHavoc func(name string) bool
	// Goroutines: a goroutine's body is analysed as if it ran where it is started, and what is sent and received is recorded.
	Goroutines bool
	// NilMerge: where paths meet, what is known to be nil on one of them is nil.
	NilMerge bool
	// KeepDistinct keeps states with different returned pointers apart at returns.
	Intrinsic func(e *Exec, fr *Frame, s *State, name string, args []*Term, call ssa.CallInstruction) ([]callOut, bool)
}

type callOut struct {
	st  *State
	res *Term
}

type Frame struct {
	fn    *ssa.Function
	depth int
	id    string
	call  ssa.Instruction
	up    *Frame
	args  []*Term
}

type Exit struct {
	st    *State
	res   []*Term
	pos   token.Pos
	panic bool
}

func NewExec(p *Program, cfg *Config) *Exec {
	if cfg.MaxDepth == 0 {
		cfg.MaxDepth = 24
	}

	if cfg.MaxState == 0 {
		cfg.MaxState = 192
	}

	return &Exec{P: p, in: newInterner(), cfg: cfg, loops: map[*ssa.Function]*loopInfo{}, ids: map[string]int{},
		Stats: Stats{Funcs: map[string]bool{}}, maxStep: 30_000_000}
}

// ---- loops ----

type loopInfo struct {
	rpo    []*ssa.BasicBlock
	num    map[*ssa.BasicBlock]int
	loopOf map[*ssa.BasicBlock]*loop // by header
	inner  map[*ssa.BasicBlock]*loop // innermost loop containing the block
}

type loop struct {
	head   *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
	latch  map[*ssa.BasicBlock]bool
	parent *loop
}

func (e *Exec) loopsOf(fn *ssa.Function) *loopInfo {
	if li, ok := e.loops[fn]; ok {
		return li
	}

	li := &loopInfo{num: map[*ssa.BasicBlock]int{}, loopOf: map[*ssa.BasicBlock]*loop{}, inner: map[*ssa.BasicBlock]*loop{}}
	seen := map[*ssa.BasicBlock]bool{}

	var post []*ssa.BasicBlock

	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true

		for i := len(b.Succs) - 1; i >= 0; i-- {
			if !seen[b.Succs[i]] {
				dfs(b.Succs[i])
			}
		}

		post = append(post, b)
	}
	dfs(fn.Blocks[0])

	for i := len(post) - 1; i >= 0; i-- {
		li.num[post[i]] = len(li.rpo)
		li.rpo = append(li.rpo, post[i])
	}

	for _, b := range li.rpo {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := li.loopOf[s]
				if l == nil {
					l = &loop{head: s, body: map[*ssa.BasicBlock]bool{s: true}, latch: map[*ssa.BasicBlock]bool{}}
					li.loopOf[s] = l
				}

				l.latch[b] = true

				work := []*ssa.BasicBlock{b}
				for len(work) > 0 {
					x := work[len(work)-1]
					work = work[:len(work)-1]

					if l.body[x] {
						continue
					}

					l.body[x] = true
					work = append(work, x.Preds...)
				}
			}
		}
	}

	for _, b := range li.rpo {
		var best *loop
		for _, l := range li.loopOf {
			if l.body[b] && (best == nil || len(l.body) < len(best.body)) {
				best = l
			}
		}

		li.inner[b] = best
	}

	e.loops[fn] = li

	return li
}

type inState struct {
	pred *ssa.BasicBlock
	st   *State
}

type regionOut struct {
	exits map[*ssa.BasicBlock][]inState // edges leaving the region
	backs []inState                     // edges back to the region's entry
	rets  []Exit
}

// region processes the blocks of body (nil: the whole function) starting at entry with phis of entry already set.
func (e *Exec) region(fr *Frame, li *loopInfo, entry *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, ins []*State) regionOut {
	out := regionOut{exits: map[*ssa.BasicBlock][]inState{}}
	pending := map[*ssa.BasicBlock][]inState{}

	emit := func(from, to *ssa.BasicBlock, st *State) {
		switch {
		case body != nil && to == entry:
			out.backs = append(out.backs, inState{from, st})
		case body != nil && !body[to]:
			out.exits[to] = append(out.exits[to], inState{from, st})
		default:
			pending[to] = append(pending[to], inState{from, st})
		}
	}

	start := li.num[entry]

	for _, b := range li.rpo[start:] {
		if body != nil && !body[b] {
			continue
		}

		var states []*State

		if b == entry {
			states = ins
		} else {
			inc := pending[b]
			delete(pending, b)

			if len(inc) == 0 {
				continue
			}

			if l := li.loopOf[b]; l != nil {
				exits, rets := e.loop(fr, li, l, inc)
				out.rets = append(out.rets, rets...)

				var targets []*ssa.BasicBlock
				for to := range exits {
					targets = append(targets, to)
				}

				sort.Slice(targets, func(i, j int) bool { return targets[i].Index < targets[j].Index })

				for _, to := range targets {
					for _, x := range exits[to] {
						emit(x.pred, to, x.st)
					}
				}

				continue
			}

			states = e.enter(fr, b, inc)
		}

		e.block(fr, b, states, emit, &out)

		if e.Err != nil {
			return out
		}
	}

	return out
}

// enter evaluates the phis of b for each incoming edge and merges states when there are too many.
func (e *Exec) enter(fr *Frame, b *ssa.BasicBlock, inc []inState) []*State {
	var out []*State

	for _, in := range inc {
		st := in.st
		pi := -1

		for i, p := range b.Preds {
			if p == in.pred {
				pi = i
				break
			}
		}

		var vals []*Term

		var phis []*ssa.Phi

		for _, ins := range b.Instrs {
			phi, ok := ins.(*ssa.Phi)
			if !ok {
				break
			}

			phis = append(phis, phi)
			vals = append(vals, e.val(fr, st, phi.Edges[pi]))
		}

		for i, p := range phis {
			st.env[p] = vals[i]
		}

		out = append(out, st)
	}

	return e.reduce(fr, out, e.cfg.MaxState, b)
}

// reduce merges states when their number exceeds max: states with the same obligations met and the same nilness of
// errors and booleans are joined (facts and memory are intersected).
func (e *Exec) reduce(fr *Frame, sts []*State, max int, b *ssa.BasicBlock) []*State {
	if len(sts) <= max {
		return sts
	}

	for i, s := range sts {
		for j := range e.cfg.Reqs {
			e.checkReq(s, j)
		}

		sts[i] = s
	}

	// states that agree on the values still to be looked at are joined first
	group := func(all bool) (map[string][]*State, []string) {
		groups := map[string][]*State{}

		var order []string

		for _, s := range sts {
			var k strings.Builder

			fmt.Fprintf(&k, "%x;", s.sat)

			for d := s.defers; d != nil && d.frame == fr.id; d = d.prev {
				fmt.Fprintf(&k, "d%p;", d.ci)
			}

			var vs []string

			for v, t := range s.env {
				if phi, isPhi := v.(*ssa.Phi); isPhi && (isConst(t) || all) && e.live(fr, phi, b) {
					vs = append(vs, fmt.Sprint(v.Name(), "=", t.id))
				}
			}

			sort.Strings(vs)
			k.WriteString(strings.Join(vs, ","))

			if _, ok := groups[k.String()]; !ok {
				order = append(order, k.String())
			}

			groups[k.String()] = append(groups[k.String()], s)
		}

		return groups, order
	}

	groups, order := group(true)
	if len(order) > max*2 {
		groups, order = group(false)
	}

	var out []*State

	for _, k := range order {
		out = append(out, e.merge(groups[k]))
	}

	if len(out) > max*4 {
		m := map[uint64][]*State{}

		var ks []uint64

		for _, s := range out {
			if m[s.sat] == nil {
				ks = append(ks, s.sat)
			}

			m[s.sat] = append(m[s.sat], s)
		}

		out = nil

		for _, k := range ks {
			out = append(out, e.merge(m[k]))
		}
	}

	return out
}

// live: what the phi was is still looked at from b on, or in one of the callers after the call.
func (e *Exec) live(fr *Frame, phi *ssa.Phi, b *ssa.BasicBlock) bool {
	for f := fr; f != nil; f = f.up {
		if f.fn == phi.Parent() {
			return e.liveIn(f.fn)[b][phi]
		}

		if f.call == nil {
			return false
		}

		b = f.call.Block()
	}

	return false
}

// liveIn: the phis whose values are used in a block (after its own phis) or in what follows it.
func (e *Exec) liveIn(fn *ssa.Function) map[*ssa.BasicBlock]map[*ssa.Phi]bool {
	if l, ok := e.lives[fn]; ok {
		return l
	}

	out := map[*ssa.BasicBlock]map[*ssa.Phi]bool{}

	for _, b := range fn.Blocks {
		out[b] = map[*ssa.Phi]bool{}

		for _, in := range b.Instrs {
			if _, isPhi := in.(*ssa.Phi); isPhi {
				continue
			}

			for _, op := range in.Operands(nil) {
				if p, ok := (*op).(*ssa.Phi); ok {
					out[b][p] = true
				}
			}
		}
	}

	for changed := true; changed; {
		changed = false

		for i := len(fn.Blocks) - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			add := func(p *ssa.Phi) {
				if !out[b][p] {
					out[b][p], changed = true, true
				}
			}

			for _, s := range b.Succs {
				pi := predIndex(s, b)

				for _, in := range s.Instrs {
					phi, ok := in.(*ssa.Phi)
					if !ok {
						break
					}

					if p, ok := phi.Edges[pi].(*ssa.Phi); ok && out[s][phi] {
						add(p)
					}
				}

				for p := range out[s] {
					if p.Block() != s {
						add(p)
					}
				}
			}
		}
	}

	if e.lives == nil {
		e.lives = map[*ssa.Function]map[*ssa.BasicBlock]map[*ssa.Phi]bool{}
	}

	e.lives[fn] = out

	return out
}

func (e *Exec) merge(sts []*State) *State {
	if len(sts) == 1 {
		return sts[0]
	}

	out := sts[0].clone()

	for f, v := range out.facts {
		for _, s := range sts[1:] {
			if w, ok := s.facts[f]; ok && w == v {
				continue
			}

			if r := e.evalPos(s, f); r == b2t(v) && r != unknown {
				continue
			}

			delete(out.facts, f)

			break
		}
	}

	for k, v := range out.mem {
		for _, s := range sts[1:] {
			w, ok := s.mem[k]
			if !ok && !e.exists(s, k) {
				continue
			}

			if !ok {
				if isFresh(k) && e.peek(s, k) == v {
					continue
				}

				if !isFresh(k) {
					out.mem[k] = e.choice(v, k)
					break
				}

				w = e.peek(s, k)
			}

			if w != v {
				out.mem[k] = e.choice(e.known(sts[0], out.mem[k]), e.known(s, w))
			}
		}
	}

	for _, s := range sts[1:] {
		for k, w := range s.mem {
			if _, ok := out.mem[k]; ok {
				continue
			}

			if !e.exists(sts[0], k) {
				out.mem[k] = w
				continue
			}

			out.mem[k] = e.choice(e.known(sts[0], e.peek(sts[0], k)), e.known(s, w))
		}
	}

	for v, t := range out.env {
		for _, s := range sts[1:] {
			w, ok := s.env[v]
			if !ok {
				delete(out.env, v)
				break
			}

			if w != t {
				t = e.choice(e.known(sts[0], t), e.known(s, w))
				out.env[v] = t
			}
		}
	}

	for _, s := range sts[1:] {
		out.sat &= s.sat

		for t, n := range out.locks {
			if s.locks[t] != n {
				out.locks = cloneMap(out.locks)
				delete(out.locks, t)
			}
		}
	}

	return out
}

// known is the value, or nil where that's what it is known to be.
func (e *Exec) known(s *State, v *Term) *Term {
	if !e.cfg.NilMerge || v == nil || v.Typ == nil || v.Op == "nil" || v.Op == "alloc" || !canWriteThrough(v.Typ) {
		return v
	}

	if e.evalPos(s, e.isnil(v)) == yes {
		return e.nilT(v.Typ)
	}

	return v
}

// born marks that a fresh object exists in a state.
func (e *Exec) born(a *Term) *Term { return e.in.mk(Term{Op: "born", Args: []*Term{a}}) }

// exists: an object allocated on some other path does not exist in this state.
func (e *Exec) exists(s *State, k *Term) bool {
	if k.Op == "born" {
		return false
	}

	r := locRoot(k)
	switch r.Op {
	case "alloc", "makemap", "makeslice":
		_, ok := s.mem[e.born(r)]
		return ok
	}

	return true
}

// peek is what a location holds in a state, without changing it.
func (e *Exec) peek(s *State, k *Term) *Term {
	if v, ok := s.mem[k]; ok {
		return v
	}

	if k.Op == "mapget" {
		return k
	}

	typ := k.Typ
	if k.Op == "alloc" {
		if p, ok := k.Typ.Underlying().(*types.Pointer); ok {
			typ = p.Elem()
		}
	}

	if typ == nil {
		return k
	}

	return e.load(s, k, typ)
}

func (e *Exec) choice(ts ...*Term) *Term {
	set := map[*Term]bool{}

	var typ types.Type

	for _, t := range ts {
		if t == nil {
			continue
		}

		if t.Op == "choice" {
			for _, a := range t.Args {
				set[a] = true
			}
		} else {
			set[t] = true
		}

		if typ == nil || t.Op != "nil" {
			typ = t.Typ
		}
	}

	var out []*Term
	for t := range set {
		out = append(out, t)
	}

	sortTerms(out)

	if len(out) == 1 {
		return out[0]
	}

	return e.in.mk(Term{Op: "choice", Args: out, Typ: typ})
}

func (e *Exec) loop(fr *Frame, li *loopInfo, l *loop, inc []inState) (map[*ssa.BasicBlock][]inState, []Exit) {
	exits := map[*ssa.BasicBlock][]inState{}

	var rets []Exit

	// evaluate the initial values of the header's phis
	heads := e.enter(fr, l.head, inc)
	if len(heads) > 24 {
		heads = e.reduce(fr, heads, 24, l.head)
	}

	for _, st := range heads {
		o, done := e.unroll(fr, li, l, st)
		if !done {
			o = e.loopOne(fr, li, l, st)
		}

		for to, xs := range o.exits {
			exits[to] = append(exits[to], xs...)
		}

		rets = append(rets, o.rets...)

		if e.Err != nil {
			break
		}
	}

	return exits, rets
}

// maxUnroll bounds the loops that are followed iteration by iteration: those over collections written out in the
// source (option lists, parser lists, tables).
const maxUnroll = 6

// tripCount is the number of iterations of a counting loop whose bound is a constant on this path.
func (e *Exec) tripCount(fr *Frame, l *loop, st *State) (int64, bool) {
	ifi, ok := l.head.Instrs[len(l.head.Instrs)-1].(*ssa.If)
	if !ok {
		return 0, false
	}

	cmp, ok := ifi.Cond.(*ssa.BinOp)
	if !ok || cmp.Op != token.LSS || cmp.Block() != l.head {
		return 0, false
	}

	phi, ok := cmp.X.(*ssa.Phi)
	if !ok {
		add, isAdd := cmp.X.(*ssa.BinOp)
		if !isAdd || add.Op != token.ADD || add.Block() != l.head {
			return 0, false
		}

		if phi, ok = add.X.(*ssa.Phi); !ok {
			return 0, false
		}
	}

	if phi.Block() != l.head {
		return 0, false
	}

	if y, isI := cmp.Y.(ssa.Instruction); isI && l.body[y.Block()] {
		// the bound is computed anew in every round
		if st = e.headState(fr, l, st, cmp); st == nil {
			return 0, false
		}
	}

	init := e.val(fr, st, phi)
	if ix, _ := e.induction(l, phi, init, "?"); ix == nil {
		return 0, false
	}

	if i, ok := constInt(init); !ok || (i != 0 && i != -1) {
		return 0, false
	}

	return constInt(e.val(fr, st, cmp.Y))
}

// headState is the state at the loop's test, when what comes before it in the header only computes the bound.
func (e *Exec) headState(fr *Frame, l *loop, st *State, test ssa.Instruction) *State {
	st = st.clone()

	for _, in := range l.head.Instrs {
		if in == test {
			return st
		}

		switch x := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
			continue
		case *ssa.BinOp, *ssa.FieldAddr, *ssa.Field, *ssa.UnOp:
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); !ok || b.Name() != "len" {
				return nil
			}
		default:
			return nil
		}

		sts := e.instr(fr, st, in)
		if len(sts) != 1 {
			return nil
		}

		st = sts[0]
	}

	return nil
}

func (e *Exec) unroll(fr *Frame, li *loopInfo, l *loop, in *State) (regionOut, bool) {
	n, ok := e.tripCount(fr, l, in)
	if !ok || n > maxUnroll {
		return regionOut{}, false
	}

	all := regionOut{exits: map[*ssa.BasicBlock][]inState{}}
	heads := []*State{in.clone()}

	for k := int64(0); len(heads) > 0; k++ {
		if k > n {
			return regionOut{}, false
		}

		it := *fr
		it.id = fmt.Sprintf("%s'%d.%d", fr.id, l.head.Index, k)

		if k == 0 {
			it.id = fr.id
		}

		o := e.region(&it, li, l.head, l.body, heads)

		for to, xs := range o.exits {
			all.exits[to] = append(all.exits[to], xs...)
		}

		all.rets = append(all.rets, o.rets...)

		if e.Err != nil || len(o.backs) == 0 {
			break
		}

		heads = e.enter(fr, l.head, o.backs)
		if len(heads) > 24 {
			heads = e.reduce(fr, heads, 24, l.head)
		}
	}

	return all, true
}

func (e *Exec) loopOne(fr *Frame, li *loopInfo, l *loop, in *State) regionOut {
	lid := fmt.Sprintf("%s/%d", fr.id, l.head.Index)

	var phis []*ssa.Phi

	for _, ins := range l.head.Instrs {
		if p, ok := ins.(*ssa.Phi); ok {
			phis = append(phis, p)
		}
	}

	init := map[*ssa.Phi]*Term{}
	for _, p := range phis {
		init[p] = in.env[p]
	}

	var idx *Term

	idxPhi := map[*ssa.Phi]bool{}
	changed := map[*Term]bool{}

	var (
		out  regionOut
		base *State
	)

	for round := 0; ; round++ {
		base = in.clone()
		idx = nil

		for i, p := range phis {
			if t, ix := e.induction(l, p, init[p], lid); t != nil {
				base.env[p] = t
				idxPhi[p] = true

				if idx == nil {
					idx = ix
				}

				continue
			}

			base.env[p] = e.in.mk(Term{Op: "loopvar", Name: fmt.Sprintf("%s.%d", lid, i), Args: []*Term{init[p]}, Typ: p.Type()})
		}

		for loc := range changed {
			typ := loc.Typ

			if loc.Op == "alloc" && typ != nil {
				if pt, ok := typ.Underlying().(*types.Pointer); ok {
					typ = pt.Elem()
				}
			}

			base.mem[loc] = e.in.mk(Term{Op: "loopvar", Name: lid + ".m", Args: []*Term{loc, e.peek(in, loc)}, Typ: typ})
		}

		entry := base.clone()
		out = e.region(fr, li, l.head, l.body, []*State{entry})

		if e.Err != nil || round >= 4 {
			break
		}

		more := false

		for _, b := range out.backs {
			for k, v := range b.st.mem {
				if changed[k] || k.Op == "born" {
					continue
				}

				w, had := base.mem[k]
				if had && w == v {
					continue
				}

				if !had {
					if k.Op == "mapget" && v != nil && isFresh(k) {
						// writes of new map entries accumulate; they are kept as entries
						continue
					}

					if r := locRoot(k); r.Op == "alloc" && base.mem[e.born(r)] == nil && !knownRoot(base, r) {
						// made anew in every iteration
						continue
					}
				}

				changed[k] = true
				more = true
			}

			for k := range base.mem {
				if _, ok := b.st.mem[k]; !ok && !changed[k] {
					changed[k] = true
					more = true
				}
			}
		}

		if !more {
			break
		}
	}

	if e.Err != nil {
		return out
	}

	// what the loop assigns to its variables
	for _, p := range phis {
		lv := base.env[p]
		if lv.Op != "loopvar" {
			continue
		}

		for _, b := range out.backs {
			pi := predIndex(l.head, b.pred)
			lv.addUpdate(e.val(fr, b.st, p.Edges[pi]))
		}
	}

	for loc := range changed {
		lv := base.mem[loc]
		for _, b := range out.backs {
			if v := b.st.mem[loc]; v != nil && lv != nil && lv.Op == "loopvar" {
				lv.addUpdate(v)
			}
		}
	}

	// what new maps were filled with
	fill := map[*Term][]*Term{}

	for _, b := range out.backs {
		for k, v := range b.st.mem {
			if k.Op != "mapget" || v == nil || !isFresh(k) || changed[k] {
				continue
			}

			if w, had := base.mem[k]; had && w == v {
				continue
			}

			fill[k.Args[0]] = append(fill[k.Args[0]], v, k.Args[1])
		}
	}

	for m, vs := range fill {
		k := e.in.mk(Term{Op: "filled", Args: []*Term{m}})

		for _, xs := range out.exits {
			for _, x := range xs {
				old := x.st.mem[k]
				x.st.mem[k] = e.choice(append(append([]*Term{}, vs...), old)...)
			}
		}
	}

	// which obligations hold for every element
	var slots []slot

	for _, p := range phis {
		if lv := base.env[p]; !idxPhi[p] && lv.Op == "loopvar" {
			slots = append(slots, slot{p: p, lv: lv, init: lv.Args[0], typ: p.Type()})
		}
	}

	n := len(slots)

	for loc := range changed {
		// variables that a closure sets
		if lv := base.mem[loc]; lv != nil && lv.Op == "loopvar" && loc.Op == "alloc" && loc.Typ != nil {
			if pt, ok := loc.Typ.Underlying().(*types.Pointer); ok {
				slots = append(slots, slot{loc: loc, lv: lv, init: lv.Args[1], typ: pt.Elem()})
			}
		}
	}

	sort.Slice(slots[n:], func(i, j int) bool { return slots[n+i].loc.id < slots[n+j].loc.id })

	e.elemBits(fr, l, idx, out.backs, in, &out, lid, slots, base)

	return out
}

func knownRoot(s *State, r *Term) bool {
	for k := range s.mem {
		if locRoot(k) == r {
			return true
		}
	}

	for _, v := range s.env {
		if v == r {
			return true
		}
	}

	return false
}

func (t *Term) addUpdate(v *Term) {
	if v == t {
		return
	}

	for _, u := range t.Updates {
		if u == v {
			return
		}
	}

	t.Updates = append(t.Updates, v)
}

func predIndex(b, p *ssa.BasicBlock) int {
	for i, x := range b.Preds {
		if x == p {
			return i
		}
	}

	return 0
}

// induction recognises counters: phi [init, phi+1].
func (e *Exec) induction(l *loop, p *ssa.Phi, init *Term, lid string) (val, idx *Term) {
	if !isInteger(p.Type()) {
		return nil, nil
	}

	var step ssa.Value

	for i, pred := range l.head.Preds {
		if !l.body[pred] {
			continue
		}

		if step != nil && step != p.Edges[i] {
			return nil, nil
		}

		step = p.Edges[i]
	}

	bo, ok := step.(*ssa.BinOp)
	if !ok || (bo.Op != token.ADD && bo.Op != token.SUB) || bo.X != p {
		return nil, nil
	}

	c, ok := bo.Y.(*ssa.Const)
	if !ok || c.Value == nil || c.Value.Kind() != constant.Int {
		return nil, nil
	}

	k, ok := constant.Int64Val(c.Value)
	if bo.Op == token.SUB {
		k = -k
	}

	if !ok || (k != 1 && k != -1) {
		return nil, nil
	}

	start, isC := constInt(init)

	if k == -1 {
		// counts down from len(x)-1
		if init.Op == "bin" && init.Name == "+" && isConstInt(init.Args[1], -1) {
			ix := e.in.mk(Term{Op: "idx", Name: lid, Num: 1, Args: []*Term{init.Args[0]}, Typ: p.Type()})
			return ix, ix
		}

		return nil, nil
	}

	if !isC {
		return nil, nil
	}

	if start == -1 {
		ix := e.in.mk(Term{Op: "idx", Name: lid, Num: 1, Typ: p.Type()})
		return e.bin(token.ADD, ix, e.intT(-1), p.Type()), ix
	}

	if start < 0 {
		return nil, nil
	}

	ix := e.in.mk(Term{Op: "idx", Name: lid, Num: int(start) + 1, Typ: p.Type()})

	return ix, ix
}

// loopCollection tells what an exhausted loop has covered completely.
func (e *Exec) loopCollection(st *State, idx *Term, lid string) (over *Term, ok bool) {
	if idx != nil {
		for f, v := range st.facts {
			if f.Op == "bin" && f.Name == "<" && f.Args[0] == idx && !v {
				n := f.Args[1]
				if n.Op == "len" {
					return n.Args[0], idx.Num == 1
				}

				return n, idx.Num == 1
			}

			// counting down: not (-1 < i), i.e. i < 0
			if len(idx.Args) == 1 && f.Op == "bin" && f.Name == "<" && f.Args[0] == idx && v && isConstInt(f.Args[1], 0) {
				n := idx.Args[0]
				if n.Op == "len" {
					return n.Args[0], true
				}

				return n, true
			}
		}
	}

	for f, v := range st.facts {
		if f.Op == "next" && f.Name == lid && !v {
			return f.Args[0], true
		}
	}

	return nil, false
}

// loopSubject is the collection whose element an iteration is at.
func loopSubject(st *State, idx *Term, lid string) *Term {
	for f, v := range st.facts {
		if !v {
			continue
		}

		if f.Op == "next" && f.Name == lid {
			return f.Args[0]
		}

		if idx != nil && f.Op == "bin" && f.Name == "<" && f.Args[0] == idx {
			if f.Args[1].Op == "len" {
				return f.Args[1].Args[0]
			}

			return f.Args[1]
		}
	}

	return nil
}

func (e *Exec) elemBits(fr *Frame, l *loop, idx *Term, backs []inState, in *State, out *regionOut, lid string,
	slots []slot, base *State,
) {
	for _, b := range backs {
		for j, r := range e.cfg.Reqs {
			if r.Each {
				e.checkReq(b.st, j)
			}
		}
	}

	allBacks := backs

	type exitCase struct {
		x     inState
		backs []inState
	}

	done := e.closed(lid)

	for to, xs := range out.exits {
		var res []inState

		var cases []exitCase

		for _, x := range xs {
			x.st.facts[done] = true

			cases = append(cases, exitCase{x, allBacks})

			if over, complete := e.loopCollection(x.st, idx, lid); over == nil || !complete {
				continue
			}

			// accumulators: an exhausted loop either never added to one, or the accumulator is not empty now
			for _, p := range slots {
				keep, grown := e.accumulator(fr, l, p, allBacks)
				if keep == nil || grown == nil {
					continue
				}

				none := x.st.clone()
				p.set(none, p.init)

				cases[len(cases)-1].backs = allBacks
				if n := e.nonEmpty(p); n != nil {
					x.st.facts[n] = false
				}

				cases = append(cases, exitCase{inState{x.pred, none}, keep})

				break
			}
		}

		for _, cs := range cases {
			x, backs := cs.x, cs.backs
			st := x.st
			_ = to

			over, complete := e.loopCollection(st, idx, lid)

			about := over // what the loop is over, also when it was left early
			if about == nil {
				about = loopSubject(st, idx, lid)
			}

			// element-level obligations say nothing after the loop; their for-all counterparts do
			for j, r := range e.cfg.Reqs {
				if !r.Each {
					continue
				}

				if r.Over != nil && (about == nil && idx == nil || about != nil && !r.Over(about)) {
					continue // a loop over something else: what its iteration established on the way out holds
				}

				st.sat &^= 1 << j
				st.sat |= in.sat & (1 << j)

				if over == nil || !complete || r.Over == nil || !r.Over(over) {
					continue
				}

				all := true

				for _, b := range backs {
					if b.st.sat&(1<<j) == 0 {
						all = false
					}
				}

				if all {
					st.sat |= 1 << j
				}
			}

			// a loop around one over the collection: every iteration completed that one
			for j, r := range e.cfg.Reqs {
				if r.Outer == nil || over == nil || !complete || !r.Outer(over) {
					continue
				}

				all := true

				for _, b := range backs {
					all = all && b.st.sat&(1<<j) != 0
				}

				if all {
					st.sat |= 1 << j
				}
			}

			if over == nil {
				res = append(res, x)
				continue
			}

			if complete && len(backs) > 0 {
				e.addForall(st, over, backs, base)
			}

			// loop variables that the loop sets: one case per distinct outcome
			var vars []slot

			for _, p := range slots {
				if p.in(st) == p.lv && splittable(p.typ) {
					vars = append(vars, p)
				}
			}

			if len(vars) == 0 || len(backs) == 0 || len(backs) > 64 {
				res = append(res, x)
				continue
			}

			groups := map[string][]inState{}
			untouched := e.eval(st, e.bin(tokEQL, e.sizeOf(over), e.intT(0), types.Typ[types.Bool])) != no

			var order []string

			kept := false // an iteration may leave the variables alone

			for _, b := range backs {
				var k string

				same := true

				for _, p := range vars {
					v := p.next(e, fr, l, b)
					k += v.key + "@" + fmt.Sprint(v.id) + ";"
					same = same && v == p.lv
				}

				if same {
					untouched, kept = true, true
					continue
				}

				if groups[k] == nil {
					order = append(order, k)
				}

				groups[k] = append(groups[k], b)
			}

			// no iteration assigned
			if untouched {
				zero := st.clone()
				if kept || e.assume(zero, e.bin(tokEQL, e.sizeOf(over), e.intT(0), types.Typ[types.Bool]), true, token.NoPos) {
					for _, p := range vars {
						p.set(zero, p.init)
					}

					res = append(res, inState{x.pred, zero})
				}
			}

			for _, k := range order {
				b := groups[k][0]
				c := st.clone()

				ms := make([]*State, 0, len(groups[k]))
				for _, g := range groups[k] {
					ms = append(ms, g.st)
				}

				m := e.merge(ms)

				for f, v := range m.facts {
					if _, ok := c.facts[f]; !ok {
						c.facts[f] = v
					}
				}

				for j, r := range e.cfg.Reqs {
					if !r.Each && m.sat&(1<<j) != 0 {
						c.sat |= 1 << j
					}
				}

				for _, p := range vars {
					p.set(c, p.next(e, fr, l, b))
				}

				res = append(res, inState{x.pred, c})
			}
		}

		out.exits[to] = res
	}
}

// slot is a variable that a loop sets.
type slot struct {
	p        *ssa.Phi
	loc      *Term // for variables in memory
	lv, init *Term
	typ      types.Type
}

func (v slot) in(s *State) *Term {
	if v.p != nil {
		return s.env[v.p]
	}

	return s.mem[v.loc]
}

// next is what an iteration leaves in the variable.
func (v slot) next(e *Exec, fr *Frame, l *loop, b inState) *Term {
	if v.p != nil {
		return e.val(fr, b.st, v.p.Edges[predIndex(l.head, b.pred)])
	}

	if t := b.st.mem[v.loc]; t != nil {
		return t
	}

	return v.lv
}

// set chooses a value, also for the registers computed from the variable in the header.
func (v slot) set(s *State, t *Term) {
	if v.p != nil {
		s.env[v.p] = t
	} else {
		s.mem[v.loc] = t
	}

	for k, x := range s.env {
		if x == v.lv {
			s.env[k] = t
		}
	}
}

// accumulator: the loop only ever appends to p (or counts it up); keep are the iterations that leave it alone.
func (e *Exec) accumulator(fr *Frame, l *loop, p slot, backs []inState) (keep, grown []inState) {
	if _, ok := p.typ.Underlying().(*types.Slice); !ok && !isInteger(p.typ) {
		return nil, nil
	}

	if isInteger(p.typ) && !isConstInt(p.init, 0) {
		return nil, nil
	}

	for _, b := range backs {
		v := p.next(e, fr, l, b)

		switch {
		case v == p.lv:
			keep = append(keep, b)
		case grows(v, p.lv):
			grown = append(grown, b)
		default:
			return nil, nil
		}
	}

	return keep, grown
}

func grows(v, lv *Term) bool {
	switch v.Op {
	case "append":
		added := false
		for _, a := range v.Args[1:] {
			added = added || a.Op != "spread"
		}

		return added && (v.Args[0] == lv || grows(v.Args[0], lv))
	case "bin":
		if v.Name != "+" {
			return false
		}

		n, ok := constInt(v.Args[1])

		return ok && n > 0 && v.Args[0] == lv
	}

	return false
}

// nonEmpty is the condition that is false when a grown accumulator is looked at.
func (e *Exec) nonEmpty(p slot) *Term {
	if isInteger(p.typ) {
		return e.rawEq(p.lv, e.intT(0))
	}

	return e.rawEq(e.lenOf(p.lv), e.intT(0))
}

// sizeOf is the number of iterations over a collection (which may be given by its size).
func (e *Exec) sizeOf(over *Term) *Term {
	if isInteger(over.Typ) {
		return over
	}

	return e.lenOf(over)
}

func splittable(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Info()&(types.IsBoolean|types.IsString) != 0
	case *types.Pointer, *types.Interface:
		return true
	}

	return false
}

// addForall records what every iteration established.
func (e *Exec) addForall(st *State, over *Term, backs []inState, base *State) {
	first := backs[0].st

	for f, v := range first.facts {
		if _, ok := base.facts[f]; ok {
			continue
		}

		all := true

		for _, b := range backs[1:] {
			if w, ok := b.st.facts[f]; !ok || w != v {
				all = false
				break
			}
		}

		if all {
			st.facts[e.in.mk(Term{Op: "forall", Args: []*Term{over, f}, Typ: types.Typ[types.Bool]})] = v
		}
	}
}

// ---- blocks and instructions ----

func (e *Exec) block(fr *Frame, b *ssa.BasicBlock, states []*State, emit func(from, to *ssa.BasicBlock, st *State), out *regionOut) {
	for _, ins := range b.Instrs {
		if _, ok := ins.(*ssa.Phi); ok {
			continue
		}

		e.steps += len(states)
		if stepProf != nil {
			stepProf[shortName(fr.fn)] += len(states)
		}
		if e.steps > e.maxStep {
			e.Err = fmt.Errorf("analysis budget exhausted in %s", shortName(fr.fn))
			return
		}

		switch x := ins.(type) {
		case *ssa.If:
			for _, s := range states {
				e.hook(fr, s, ins)
				c := e.val(fr, s, x.Cond)
				pos := x.Cond.Pos()

				switch e.eval(s, c) {
				case yes:
					emit(b, b.Succs[0], s)
				case no:
					emit(b, b.Succs[1], s)
				default:
					t := s.clone()
					if e.assume(t, c, true, pos) {
						emit(b, b.Succs[0], t)
					}

					if e.assume(s, c, false, pos) {
						emit(b, b.Succs[1], s)
					}
				}
			}

			return
		case *ssa.Jump:
			for _, s := range states {
				emit(b, b.Succs[0], s)
			}

			return
		case *ssa.Return:
			for _, s := range states {
				e.hook(fr, s, ins)

				var res []*Term
				for _, r := range x.Results {
					res = append(res, e.val(fr, s, r))
				}

				e.Stats.Paths++
				out.rets = append(out.rets, Exit{st: s, res: res, pos: x.Pos()})
			}

			return
		case *ssa.Panic:
			for _, s := range states {
				e.hook(fr, s, ins)
				out.rets = append(out.rets, Exit{st: s, panic: true, pos: x.Pos()})
			}

			return
		}

		var next []*State

		for _, s := range states {
			e.hook(fr, s, ins)
			next = append(next, e.instr(fr, s, ins)...)

			if e.Err != nil {
				return
			}
		}

		states = next
		if len(states) > e.cfg.MaxState*2 {
			states = e.reduce(fr, states, e.cfg.MaxState, b)
		}

		if len(states) == 0 {
			return
		}
	}
}

func (e *Exec) hook(fr *Frame, s *State, ins ssa.Instruction) {
	if e.cfg.OnInstr != nil {
		e.cfg.OnInstr(e, fr, s, ins)
	}
}

// val is the value number of an SSA value.
func (e *Exec) val(fr *Frame, s *State, v ssa.Value) *Term {
	switch x := v.(type) {
	case *ssa.Const:
		return e.cnst(x)
	case *ssa.Function:
		return e.in.mk(Term{Op: "func", Fn: x, Typ: x.Type()})
	case *ssa.Global:
		return e.in.mk(Term{Op: "gaddr", Name: x.String(), Typ: x.Type()})
	case *ssa.Builtin:
		return e.in.mk(Term{Op: "builtin", Name: x.Name()})
	}

	if t, ok := s.env[v]; ok {
		return t
	}

	return e.in.mk(Term{Op: "unknown", Name: fmt.Sprintf("%s/%s", fr.id, v.Name()), Typ: v.Type()})
}

func (e *Exec) frameID(up *Frame, call ssa.Instruction, fn *ssa.Function) string {
	k := fmt.Sprintf("%p@%p", call, fn)
	if up != nil {
		k = up.id + ">" + k
	}

	if _, ok := e.ids[k]; !ok {
		e.ids[k] = len(e.ids) + 1
	}

	return fmt.Sprintf("f%d", e.ids[k])
}

func (e *Exec) allocTerm(fr *Frame, op string, ins ssa.Instruction, typ types.Type, args ...*Term) *Term {
	k := fmt.Sprintf("%s:%p", fr.id, ins)
	if _, ok := e.ids[k]; !ok {
		e.ids[k] = len(e.ids) + 1
	}

	return e.in.mk(Term{Op: op, Name: fr.id, Num: e.ids[k], Typ: typ, Args: args})
}

// nilDeref: the access goes through a pointer known to be nil, so the path ends here in a panic.
func (e *Exec) nilDeref(s *State, x ssa.Value, v *Term) bool {
	switch x.(type) {
	case *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Alloc, *ssa.Global, *ssa.FreeVar:
		return false
	}

	return v.Op == "nil" || e.isNil(s, v) == yes
}

func (e *Exec) instr(fr *Frame, s *State, ins ssa.Instruction) []*State {
	one := []*State{s}

	switch x := ins.(type) {
	case *ssa.Alloc:
		a := e.allocTerm(fr, "alloc", x, x.Type())
		e.killSub(s, a)
		delete(s.mem, a)
		s.mem[e.born(a)] = a
		s.env[x] = a
	case *ssa.BinOp:
		s.env[x] = e.bin(x.Op, e.val(fr, s, x.X), e.val(fr, s, x.Y), x.Type())
	case *ssa.UnOp:
		v := e.val(fr, s, x.X)

		switch x.Op {
		case token.MUL:
			if v.Op == "gaddr" {
				if w, ok := s.mem[v]; ok {
					s.env[x] = w
				} else {
					s.env[x] = e.in.mk(Term{Op: "global", Name: v.Name, Typ: x.Type()})
				}

				return one
			}

			if e.nilDeref(s, x.X, v) {
				return nil
			}

			s.env[x] = e.load(s, v, x.Type())
		case token.NOT:
			s.env[x] = e.not(v)
		case token.ARROW:
			if e.cfg.Goroutines {
				s.facts[e.in.mk(Term{Op: "received", Args: []*Term{v}, Typ: types.Typ[types.Bool]})] = true
			}

			s.env[x] = e.in.mk(Term{Op: "recv", Name: fmt.Sprintf("%s/%s", fr.id, x.Name()), Args: []*Term{v}, Typ: x.Type()})
		default:
			if c := v; x.Op == token.SUB && c.Op == "const" && c.Val != nil {
				s.env[x] = e.constVal(constant.UnaryOp(token.SUB, c.Val, 0), x.Type())
			} else {
				s.env[x] = e.in.mk(Term{Op: "un", Name: x.Op.String(), Args: []*Term{v}, Typ: x.Type()})
			}
		}
	case *ssa.ChangeType:
		s.env[x] = e.val(fr, s, x.X)
	case *ssa.ChangeInterface:
		s.env[x] = e.val(fr, s, x.X)
	case *ssa.MakeInterface:
		s.env[x] = e.val(fr, s, x.X)
	case *ssa.SliceToArrayPointer:
		s.env[x] = e.val(fr, s, x.X)
	case *ssa.MultiConvert:
		s.env[x] = e.val(fr, s, x.X)
	case *ssa.Convert:
		v := e.val(fr, s, x.X)
		if isInteger(x.Type()) && v.Op == "const" {
			s.env[x] = e.constVal(v.Val, x.Type())
		} else if isString(x.Type()) && isInteger(x.X.Type()) {
			s.env[x] = e.in.mk(Term{Op: "conv", Name: "string", Args: []*Term{v}, Typ: x.Type()})
		} else {
			s.env[x] = v
		}
	case *ssa.FieldAddr:
		b := e.val(fr, s, x.X)
		if e.nilDeref(s, x.X, b) {
			return nil
		}

		st := structOf(x.X.Type())
		f := st.Field(x.Field)
		s.env[x] = e.in.mk(Term{Op: "field", Name: f.Name(), Args: []*Term{b}, Typ: f.Type()})
	case *ssa.Field:
		s.env[x] = e.field(e.val(fr, s, x.X), x.Field, structOf(x.X.Type()))
	case *ssa.IndexAddr:
		et := x.Type().Underlying().(*types.Pointer).Elem()
		s.env[x] = e.elem(e.val(fr, s, x.X), e.val(fr, s, x.Index), et)
	case *ssa.Index:
		s.env[x] = e.elem(e.val(fr, s, x.X), e.val(fr, s, x.Index), x.Type())
	case *ssa.Lookup:
		m, k := e.val(fr, s, x.X), e.val(fr, s, x.Index)
		if isString(x.X.Type()) {
			s.env[x] = e.elem(m, k, x.Type())
			return one
		}

		vt := x.X.Type().Underlying().(*types.Map).Elem()

		return e.lookup(s, x, m, k, vt, x.CommaOk)
	case *ssa.MapUpdate:
		m, k, v := e.val(fr, s, x.Map), e.val(fr, s, x.Key), e.val(fr, s, x.Value)

		if e.cfg.NilMerge {
			v = e.notMap(s, v)
		}

		if _, isC := constStr(k); !isC {
			for l := range s.mem {
				if l.Op == "mapget" && l.Args[0] == m && l.Args[1] != k && !isFresh(m) {
					delete(s.mem, l)
				}
			}
		}

		s.mem[e.in.mk(Term{Op: "mapget", Args: []*Term{m, k}, Typ: x.Value.Type()})] = v
		has := e.in.mk(Term{Op: "has", Args: []*Term{m, k}, Typ: types.Typ[types.Bool]})
		if v, known := s.facts[has]; known && !v {
			// the absence of the key was established before it is overwritten
			for j := range e.cfg.Reqs {
				e.checkReq(s, j)
			}
		}

		s.facts[has] = true
	case *ssa.Store:
		a, v := e.val(fr, s, x.Addr), e.val(fr, s, x.Val)
		e.store(s, a, v, x.Val.Type())
	case *ssa.MakeMap:
		m := e.allocTerm(fr, "makemap", x, x.Type())
		e.killSub(s, m)

		for f := range s.facts {
			if f.Op == "has" && f.Args[0] == m {
				delete(s.facts, f)
			}
		}

		s.mem[e.born(m)] = m
		s.env[x] = m
	case *ssa.MakeSlice:
		m := e.allocTerm(fr, "makeslice", x, x.Type(), e.val(fr, s, x.Len))
		s.mem[e.born(m)] = m
		s.env[x] = m
	case *ssa.MakeChan:
		s.env[x] = e.allocTerm(fr, "makechan", x, x.Type())
	case *ssa.MakeClosure:
		var b []*Term
		for _, v := range x.Bindings {
			b = append(b, e.val(fr, s, v))
		}

		s.env[x] = e.in.mk(Term{Op: "closure", Fn: x.Fn.(*ssa.Function), Args: b, Typ: x.Type()})
	case *ssa.Slice:
		b := e.val(fr, s, x.X)

		var lo, hi *Term
		if x.Low != nil {
			lo = e.val(fr, s, x.Low)
		}

		if x.High != nil {
			hi = e.val(fr, s, x.High)
		}

		if lo == nil && hi == nil {
			if b.Op != "alloc" {
				s.env[x] = b
				return one
			}
		}

		s.env[x] = e.in.mk(Term{Op: "slice", Args: []*Term{b, lo, hi}, Typ: x.Type()})
	case *ssa.TypeAssert:
		return e.typeAssert(fr, s, x)
	case *ssa.Extract:
		t := e.val(fr, s, x.Tuple)
		s.env[x] = e.extract(t, x.Index, x.Type())
	case *ssa.Range:
		s.env[x] = e.in.mk(Term{Op: "range", Args: []*Term{e.val(fr, s, x.X)}, Typ: x.Type()})
	case *ssa.Next:
		r := e.val(fr, s, x.Iter)
		lid := fmt.Sprintf("%s/%d", fr.id, x.Block().Index)

		var coll *Term
		if r.Op == "range" {
			coll = r.Args[0]
		} else {
			coll = r
		}

		ok := e.in.mk(Term{Op: "next", Name: lid, Args: []*Term{coll}, Typ: types.Typ[types.Bool]})
		key := e.in.mk(Term{Op: "key", Name: lid, Args: []*Term{coll}})

		var val *Term
		if x.IsString {
			val = e.in.mk(Term{Op: "elem", Args: []*Term{coll, key}})
		} else {
			// (the tuple has no types for what the loop does not use)
			tt := x.Type().(*types.Tuple)
			kt, vt := tt.At(1).Type(), tt.At(2).Type()

			if rg, isR := x.Iter.(*ssa.Range); isR {
				if mt, isM := rg.X.Type().Underlying().(*types.Map); isM {
					kt, vt = mt.Key(), mt.Elem()
				}
			}

			key.Typ = kt
			val = e.in.mk(Term{Op: "mapget", Args: []*Term{coll, key}, Typ: vt})
		}

		s.env[x] = e.in.mk(Term{Op: "tuple", Args: []*Term{ok, key, val}})
	case *ssa.Call:
		return e.call(fr, s, x, x)
	case *ssa.Go:
		if e.cfg.Goroutines {
			return e.call(fr, s, x, nil)
		}

		// the goroutine's effects are not ordered with this path: only its arguments escape
		for _, a := range x.Call.Args {
			e.havoc(s, e.val(fr, s, a), e.in.mk(Term{Op: "go", Name: fr.id}), 0)
		}

		e.havoc(s, e.val(fr, s, x.Call.Value), e.in.mk(Term{Op: "go", Name: fr.id}), 0)
	case *ssa.Defer:
		fn, name, args, bindings := e.target(fr, s, x.Common())
		s.defers = &deferred{prev: s.defers, frame: fr.id, ci: x, fn: fn, name: name, args: args, bindings: bindings}
	case *ssa.RunDefers:
		return e.runDefers(fr, s)
	case *ssa.DebugRef:
	case *ssa.Send:
		if e.cfg.Goroutines {
			s.facts[e.in.mk(Term{Op: "sent", Args: []*Term{e.val(fr, s, x.Chan), e.snap(s, e.val(fr, s, x.X), 0)}, Typ: types.Typ[types.Bool]})] = true
		}
	case *ssa.Select:
		s.env[x] = e.in.mk(Term{Op: "unknown", Name: fr.id + "/" + x.Name(), Typ: x.Type()})
	default:
		if v, ok := ins.(ssa.Value); ok {
			s.env[v] = e.in.mk(Term{Op: "unknown", Name: fr.id + "/" + v.Name(), Typ: v.Type()})
		}
	}

	return one
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func (e *Exec) extract(t *Term, i int, typ types.Type) *Term {
	if t.Op == "tuple" {
		return t.Args[i]
	}

	return e.in.mk(Term{Op: "res", Num: i + 1, Args: []*Term{t}, Typ: typ})
}

func (e *Exec) lookup(s *State, x *ssa.Lookup, m, k *Term, vt types.Type, commaOk bool) []*State {
	loc := e.in.mk(Term{Op: "mapget", Args: []*Term{m, k}, Typ: vt})

	v, ok := s.mem[loc]
	if !ok {
		v = loc

		if m.Op == "nil" {
			v = e.zero(vt)
		}
	}

	if !commaOk {
		s.env[x] = v
		return []*State{s}
	}

	has := e.in.mk(Term{Op: "has", Args: []*Term{m, k}, Typ: types.Typ[types.Bool]})
	if m.Op == "nil" {
		has = e.boolT(false)
	}

	switch e.eval(s, has) {
	case yes:
		s.env[x] = e.in.mk(Term{Op: "tuple", Args: []*Term{v, e.boolT(true)}})
		return []*State{s}
	case no:
		s.env[x] = e.in.mk(Term{Op: "tuple", Args: []*Term{e.zero(vt), e.boolT(false)}})
		return []*State{s}
	}

	s.env[x] = e.in.mk(Term{Op: "tuple", Args: []*Term{v, has}})

	return []*State{s}
}

func (e *Exec) typeAssert(fr *Frame, s *State, x *ssa.TypeAssert) []*State {
	v := e.val(fr, s, x.X)
	n := typeName(x.AssertedType)
	iface := 0

	if _, ok := x.AssertedType.Underlying().(*types.Interface); ok {
		iface = 1
	}

	val := e.in.mk(Term{Op: "assert", Name: n, Args: []*Term{v}, Typ: x.AssertedType})
	is := e.in.mk(Term{Op: "istype", Name: n, Num: iface, Args: []*Term{v}, Typ: types.Typ[types.Bool]})

	// a value whose concrete type is known
	if t := concreteType(v); t != nil && iface == 0 {
		if types.Identical(t, x.AssertedType) {
			val, is = v, e.boolT(true)
		} else {
			val, is = e.zero(x.AssertedType), e.boolT(false)
		}
	}

	if v.Op == "nil" {
		is = e.boolT(false)
		val = e.zero(x.AssertedType)
	}

	if !x.CommaOk {
		s.env[x] = val
		e.assume(s, is, true, x.Pos())

		return []*State{s}
	}

	switch e.eval(s, is) {
	case no:
		val = e.zero(x.AssertedType)
	}

	s.env[x] = e.in.mk(Term{Op: "tuple", Args: []*Term{val, is}})

	return []*State{s}
}

// concreteType is the static non-interface type of the value behind an interface, when it is known for sure.
func concreteType(t *Term) types.Type {
	switch t.Op {
	case "alloc", "makemap", "makeslice", "struct":
		return t.Typ
	case "const":
		if t.Typ != nil {
			if b, ok := t.Typ.(*types.Basic); ok && b.Info()&types.IsUntyped != 0 {
				return nil
			}
		}

		return nil
	}

	return nil
}

// notMap marks a value that was found not to be a map, where it is put into another map: nothing can be written below it
// by a key.
func (e *Exec) notMap(s *State, v *Term) *Term {
	if v.Typ == nil || !types.IsInterface(v.Typ) {
		return v
	}

	for f, is := range s.facts {
		if !is && f.Op == "istype" && f.Args[0] == v && strings.HasPrefix(f.Name, "map[") {
			return e.in.mk(Term{Op: "notmap", Args: []*Term{v}, Typ: v.Typ})
		}
	}

	return v
}
