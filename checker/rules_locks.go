package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C27", "lockset typestate over the control-flow graph of every function (entry locksets from the callers, net effects of helpers, deferred releases), consistent-guard inference for fields and package-level variables that are modified, lock-order graph, and escape of captured variables into goroutines", c27)
}

// lock is a lock as a function sees it.
type lock struct {
	path  string // of the mutex, from parameters, globals or local values
	class string // type and field of the mutex
	mode  string // W, R; or -W, -R: released without having been taken here
}

func (l lock) String() string { return l.path + "|" + l.class + "|" + l.mode }

// lockState: what is held, and what is still to run when the function returns.
type lockState struct {
	held     map[lock]bool
	deferred []*ssa.Defer
}

func (s *lockState) key() string {
	var ks []string
	for l := range s.held {
		ks = append(ks, l.String())
	}

	sort.Strings(ks)

	for _, d := range s.deferred {
		ks = append(ks, d.String()+d.Call.String())
	}

	return strings.Join(ks, ";")
}

func (s *lockState) clone() *lockState {
	c := &lockState{held: map[lock]bool{}, deferred: append([]*ssa.Defer{}, s.deferred...)}
	for l := range s.held {
		c.held[l] = true
	}

	return c
}

type lockInfo struct {
	entry    map[lock]bool // held by every caller; nil: not known to be called
	net      []lock        // what it holds, or released, more than when it was entered
	acquires map[lock]bool // in it, or in what it calls
	at       map[ssa.Instruction][]*lockState
	private  bool // called only directly, by functions of the library
}

type lockAnalysis struct {
	c       *Ctx
	fns     []*ssa.Function
	info    map[*ssa.Function]*lockInfo
	calls   map[*ssa.Function][]ssa.CallInstruction // direct
	handed  map[*ssa.Function]*handed               // closures that are only handed to a function that calls them
	bySig   map[string][]*ssa.Function              // functions used as values
	report  bool
	edges   map[[2]string]string
	recv    map[*ssa.Function]bool
	initFns map[*ssa.Function]bool
}

type handed struct {
	call ssa.CallInstruction
	to   *ssa.Function
	arg  int
}

// lockOp recognises the operations of the sync mutexes.
func lockOp(c *ssa.CallCommon) (recv ssa.Value, op string) {
	n := calleeName(c)

	for _, t := range []string{"(*sync.Mutex).", "(*sync.RWMutex)."} {
		if strings.HasPrefix(n, t) && len(c.Args) == 1 {
			switch op := strings.TrimPrefix(n, t); op {
			case "Lock", "Unlock", "RLock", "RUnlock":
				return c.Args[0], op
			}
		}
	}

	return nil, ""
}

// valuePath names where a value comes from, so that two mentions of one object agree.
func valuePath(v ssa.Value, depth int) string {
	if depth > 12 {
		return "deep"
	}

	switch x := v.(type) {
	case *ssa.Parameter:
		return "p:" + funcName(x.Parent()) + ":" + x.Name()
	case *ssa.FreeVar:
		if b := binding(x); b != nil {
			return valuePath(b, depth+1)
		}
	case *ssa.Global:
		return "g:" + short(x.String())
	case *ssa.FieldAddr:
		return valuePath(x.X, depth+1) + "." + structField(x.X.Type(), x.Field)
	case *ssa.Field:
		return valuePath(x.X, depth+1) + "." + structField(x.X.Type(), x.Field)
	case *ssa.UnOp:
		if x.Op != token.MUL {
			break
		}

		a := x.X
		if fv, ok := a.(*ssa.FreeVar); ok {
			if b := binding(fv); b != nil {
				a = b
			}
		}

		if al, ok := a.(*ssa.Alloc); ok {
			if st := onlyStore(al); st != nil {
				return valuePath(st, depth+1)
			}
		}

		return valuePath(a, depth+1)
	case *ssa.ChangeType:
		return valuePath(x.X, depth+1)
	case *ssa.MakeInterface:
		return valuePath(x.X, depth+1)
	case *ssa.TypeAssert:
		return valuePath(x.X, depth+1)
	case *ssa.Phi:
		p := ""
		for i, e := range x.Edges {
			q := valuePath(e, depth+4)
			if i > 0 && p != q {
				p = ""
				break
			}

			p = q
		}

		if p != "" {
			return p
		}
	}

	if f := v.Parent(); f != nil {
		return "v:" + funcName(f) + ":" + v.Name()
	}

	return "v:" + v.Name()
}

func structField(t types.Type, i int) string {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}

	return t.Underlying().(*types.Struct).Field(i).Name()
}

// binding of a free variable where the closure is made.
func binding(fv *ssa.FreeVar) ssa.Value {
	f := fv.Parent()
	if f.Parent() == nil {
		return nil
	}

	for i, x := range f.FreeVars {
		if x != fv {
			continue
		}

		if mc := madeBy(f); mc != nil && i < len(mc.Bindings) {
			return mc.Bindings[i]
		}
	}

	return nil
}

func madeBy(f *ssa.Function) *ssa.MakeClosure {
	for _, b := range f.Parent().Blocks {
		for _, in := range b.Instrs {
			if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == f {
				return mc
			}
		}
	}

	return nil
}

// onlyStore is the one value a variable ever has.
func onlyStore(al *ssa.Alloc) ssa.Value {
	var val ssa.Value

	for _, r := range *al.Referrers() {
		switch x := r.(type) {
		case *ssa.Store:
			if x.Addr != al || val != nil {
				return nil
			}

			val = x.Val
		case *ssa.FieldAddr, *ssa.IndexAddr:
			return nil
		case *ssa.MakeClosure:
			f := x.Fn.(*ssa.Function)
			for i, b := range x.Bindings {
				if b != al || i >= len(f.FreeVars) {
					continue
				}

				for _, r := range *f.FreeVars[i].Referrers() {
					if u, ok := r.(*ssa.UnOp); !ok || u.Op != token.MUL {
						return nil
					}
				}
			}
		case *ssa.UnOp, *ssa.DebugRef:
		default:
			return nil
		}
	}

	return val
}

// lockClass: the type and field that holds the mutex.
func lockClass(addr ssa.Value) string {
	switch x := addr.(type) {
	case *ssa.FieldAddr:
		t := x.X.Type()
		if p, ok := t.Underlying().(*types.Pointer); ok {
			t = p.Elem()
		}

		return short(typeName(t)) + "." + structField(x.X.Type(), x.Field)
	case *ssa.UnOp:
		return lockClass(x.X)
	case *ssa.Global:
		return "g:" + short(x.String())
	case *ssa.FreeVar:
		if b := binding(x); b != nil {
			return lockClass(b)
		}
	}

	return "local " + valuePath(addr, 0)
}

// translate a lock of a callee into what its caller calls it.
func translate(l lock, f *ssa.Function, args []ssa.Value) lock {
	for i, p := range f.Params {
		pre := valuePath(p, 0)
		if i < len(args) && (l.path == pre || strings.HasPrefix(l.path, pre+".")) {
			l.path = valuePath(args[i], 0) + strings.TrimPrefix(l.path, pre)
			return l
		}
	}

	if strings.HasPrefix(l.path, "g:") || f.Parent() != nil && !strings.HasPrefix(l.path, "v:"+funcName(f)+":") {
		return l
	}

	l.path = "?" + l.class

	return l
}

// inward is translate's opposite, for what the caller holds.
func inward(l lock, f *ssa.Function, args []ssa.Value) lock {
	for i, p := range f.Params {
		if i >= len(args) {
			break
		}

		pre := valuePath(args[i], 0)
		if l.path == pre || strings.HasPrefix(l.path, pre+".") {
			l.path = valuePath(p, 0) + strings.TrimPrefix(l.path, pre)
			return l
		}
	}

	if strings.HasPrefix(l.path, "g:") || f.Parent() != nil {
		return l
	}

	l.path = "?" + l.class

	return l
}

func c27(c *Ctx) {
	a := &lockAnalysis{c: c, info: map[*ssa.Function]*lockInfo{}, calls: map[*ssa.Function][]ssa.CallInstruction{}, handed: map[*ssa.Function]*handed{}, bySig: map[string][]*ssa.Function{}, edges: map[[2]string]string{}, initFns: map[*ssa.Function]bool{}}

	for _, f := range c.P.Funcs {
		if f.Blocks != nil && !isTestSupport(fnPkgPath(f)) && f.Synthetic == "" || f.Name() == "init" && f.Blocks != nil {
			a.fns = append(a.fns, f)
			a.info[f] = &lockInfo{acquires: map[lock]bool{}}
		}
	}

	sort.Slice(a.fns, func(i, j int) bool { return a.fns[i].String() < a.fns[j].String() })

	if c.Funcs == nil {
		c.Funcs = map[string]bool{}
	}

	for _, f := range a.fns {
		c.Funcs[shortName(f)] = true
	}

	a.uses()

	for round := 0; round < 6; round++ {
		if !a.round() {
			break
		}
	}

	a.report = true
	a.round()
	a.order()

	m := c.mutations()
	a.guards(m)
	a.goroutines(m)
}

// uses finds how every function is called.
func (a *lockAnalysis) uses() {
	asValue := map[*ssa.Function]bool{}

	for _, f := range a.fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, isCall := in.(ssa.CallInstruction)
				if isCall {
					if g := ci.Common().StaticCallee(); g != nil {
						if _, isGo := in.(*ssa.Go); isGo {
							asValue[g] = true
						} else if _, known := a.info[g]; known {
							a.calls[g] = append(a.calls[g], ci)
						}
					}
				}

				for _, op := range in.Operands(nil) {
					if *op == nil {
						continue
					}

					g, ok := (*op).(*ssa.Function)
					if mc, isMC := (*op).(*ssa.MakeClosure); isMC {
						g, ok = mc.Fn.(*ssa.Function), true
					}

					if !ok || isCall && *op == ci.Common().Value && !ci.Common().IsInvoke() {
						continue
					}

					if mc, isMC := in.(*ssa.MakeClosure); isMC && mc.Fn == *op {
						continue
					}

					if isCall {
						if to := ci.Common().StaticCallee(); to != nil && a.info[to] != nil && a.handed[g] == nil && !asValue[g] {
							if i := argIndex(ci.Common(), *op); i >= 0 && i < len(to.Params) && onlyCalled(to.Params[i]) {
								a.handed[g] = &handed{ci, to, i}
								continue
							}
						}
					}

					if i := strings.Index(g.Name(), "$bound"); i > 0 {
						if o, ok := g.Object().(*types.Func); ok {
							if r := g.Prog.FuncValue(o); r != nil {
								g = r
							}
						}
					}

					delete(a.handed, g)
					asValue[g] = true
					k := sigKey(g.Signature)
					a.bySig[k] = append(a.bySig[k], g)
				}
			}
		}
	}

	for f, in := range a.info {
		exported := f.Object() != nil && (f.Object().Exported() || f.Name() == "main")
		in.private = !exported && !asValue[f] && !strings.HasPrefix(f.Name(), "init") && (len(a.calls[f]) > 0 || a.handed[f] != nil) && !a.implements(f)

		if !in.private {
			in.entry = map[lock]bool{}
		}
	}

	for _, f := range a.fns {
		if f.Name() == "init" || strings.HasPrefix(f.Name(), "init#") {
			a.initFns[f] = true
		}
	}

	for changed := true; changed; {
		changed = false

		for _, f := range a.fns {
			if a.initFns[f] {
				continue
			}

			only := a.info[f].private && a.handed[f] == nil || f.Parent() != nil && a.initFns[f.Parent()]
			for _, ci := range a.calls[f] {
				only = only && a.initFns[ci.Parent()]
			}

			if only {
				a.initFns[f], changed = true, true
			}
		}
	}
}

// implements: an unexported method may still be called through an interface.
func (a *lockAnalysis) implements(f *ssa.Function) bool {
	if f.Signature.Recv() == nil {
		return false
	}

	for _, g := range a.fns {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok && ci.Common().IsInvoke() && ci.Common().Method.Name() == f.Name() {
					return true
				}
			}
		}
	}

	return false
}

func argIndex(c *ssa.CallCommon, v ssa.Value) int {
	for i, x := range c.Args {
		if x == v {
			return i
		}
	}

	return -1
}

// onlyCalled: the function handed in is called, and nothing else is done with it.
func onlyCalled(p *ssa.Parameter) bool {
	n := 0

	for _, r := range *p.Referrers() {
		switch x := r.(type) {
		case *ssa.Call:
			if x.Call.Value != p {
				return false
			}

			n++
		case *ssa.Defer:
			return false
		case *ssa.DebugRef:
		default:
			return false
		}
	}

	return n > 0
}

// round analyses every function once with what is known of the others.
func (a *lockAnalysis) round() (changed bool) {
	before := map[*ssa.Function]string{}
	sum := func(in *lockInfo) string {
		var ks []string
		for l := range in.entry {
			ks = append(ks, "e"+l.String())
		}

		for l := range in.acquires {
			ks = append(ks, "a"+l.String())
		}

		for _, l := range in.net {
			ks = append(ks, "n"+l.String())
		}

		sort.Strings(ks)

		if in.entry == nil {
			ks = append(ks, "none")
		}

		return strings.Join(ks, ";")
	}

	for _, f := range a.fns {
		before[f] = sum(a.info[f])
		a.function(f)
	}

	for _, f := range a.fns {
		in := a.info[f]
		if !in.private {
			continue
		}

		var entry map[lock]bool

		meet := func(held map[lock]bool) {
			if entry == nil {
				entry = held
				return
			}

			for l := range entry {
				if !held[l] {
					delete(entry, l)
				}
			}
		}

		for _, ci := range a.calls[f] {
			for _, st := range a.info[ci.Parent()].at[ci] {
				held := map[lock]bool{}
				for l := range st.held {
					held[inward(l, f, ci.Common().Args)] = true
				}

				meet(held)
			}
		}

		if h := a.handed[f]; h != nil {
			for _, r := range *h.to.Params[h.arg].Referrers() {
				call, ok := r.(*ssa.Call)
				if !ok {
					continue
				}

				for _, st := range a.info[h.to].at[call] {
					held := map[lock]bool{}
					for l := range st.held {
						held[translate(l, h.to, h.call.Common().Args)] = true
					}

					meet(held)
				}
			}
		}

		in.entry = entry
	}

	for _, f := range a.fns {
		changed = changed || before[f] != sum(a.info[f])
	}

	return changed
}

func (a *lockAnalysis) function(f *ssa.Function) {
	in := a.info[f]
	in.at = map[ssa.Instruction][]*lockState{}

	if in.entry == nil {
		return
	}

	first := &lockState{held: map[lock]bool{}}
	for l := range in.entry {
		first.held[l] = true
	}

	type item struct {
		b *ssa.BasicBlock
		s *lockState
	}

	seen := map[*ssa.BasicBlock]map[string]bool{}
	work := []item{{f.Blocks[0], first}}

	var nets [][]lock

	for len(work) > 0 {
		it := work[len(work)-1]
		work = work[:len(work)-1]

		if seen[it.b] == nil {
			seen[it.b] = map[string]bool{}
		}

		k := it.s.key()
		if seen[it.b][k] || len(seen[it.b]) > 32 {
			continue
		}

		seen[it.b][k] = true
		s := it.s.clone()

		for _, ins := range it.b.Instrs {
			in.at[ins] = append(in.at[ins], s.clone())
			a.step(f, s, ins)

			if r, ok := ins.(*ssa.Return); ok {
				var net []lock

				for l := range s.held {
					if !in.entry[l] {
						net = append(net, l)
					}
				}

				for l := range in.entry {
					if !s.held[l] {
						net = append(net, lock{l.path, l.class, "-" + l.mode})
					}
				}

				sort.Slice(net, func(i, j int) bool { return net[i].String() < net[j].String() })
				nets = append(nets, net)

				if a.report {
					a.atReturn(f, r, net, nets[0])
				}
			}
		}

		for _, n := range it.b.Succs {
			work = append(work, item{n, s})
		}
	}

	in.net = nil
	if len(nets) > 0 {
		in.net = nets[0]
	}
}

func (a *lockAnalysis) atReturn(f *ssa.Function, r *ssa.Return, net, first []lock) {
	in := a.info[f]
	same := len(net) == len(first)

	for i := range net {
		same = same && net[i] == first[i]
	}

	helper := in.private || f.Parent() != nil
	ok := len(net) == 0 || helper && same

	what := ""
	for _, l := range net {
		what += " " + strings.TrimPrefix(l.class, "local ") + " (" + map[string]string{"W": "still locked", "R": "still read-locked", "-W": "unlocked without having been locked", "-R": "read-unlocked without having been read-locked"}[l.mode] + ")"
	}

	if len(a.info[f].acquires) > 0 || len(net) > 0 {
		a.c.count("returns of functions that lock", 1)
		a.c.oblige(ok, "release:"+shortName(f), shortName(f)+" returns with a lock in another state than it was entered with:"+what, a.c.P.pos(retPos(f, r)), nil)
	}
}

func retPos(f *ssa.Function, r *ssa.Return) token.Pos {
	if r.Pos().IsValid() {
		return r.Pos()
	}

	return f.Pos()
}

// step runs one instruction on a state.
func (a *lockAnalysis) step(f *ssa.Function, s *lockState, ins ssa.Instruction) {
	switch x := ins.(type) {
	case *ssa.Call:
		a.call(f, s, x.Common(), x)
	case *ssa.Defer:
		for _, d := range s.deferred {
			if d == x {
				return
			}
		}

		s.deferred = append(s.deferred, x)
	case *ssa.RunDefers:
		for i := len(s.deferred) - 1; i >= 0; i-- {
			a.call(f, s, &s.deferred[i].Call, s.deferred[i])
		}

		s.deferred = nil
	}
}

func (a *lockAnalysis) call(f *ssa.Function, s *lockState, c *ssa.CallCommon, at ssa.Instruction) {
	if recv, op := lockOp(c); op != "" {
		l := lock{valuePath(recv, 0), lockClass(recv), "W"}
		a.apply(f, s, l, op, at)

		return
	}

	for _, g := range a.callees(c) {
		in := a.info[g]
		if in == nil {
			continue
		}

		static := c.StaticCallee() == g

		for l := range in.acquires {
			if static {
				l = translate(l, g, c.Args)
			} else {
				l.path = "?" + l.class
				if c.IsInvoke() {
					if pre := valuePath(g.Params[0], 0); strings.HasPrefix(l.path, pre+".") {
						l.path = valuePath(c.Value, 0) + strings.TrimPrefix(l.path, pre)
					}
				}
			}

			a.acquired(f, s, l, at)
		}

		if static {
			for _, l := range in.net {
				l = translate(l, g, c.Args)
				if strings.HasPrefix(l.mode, "-") {
					l.mode = l.mode[1:]
					a.release(s, l)
				} else {
					s.held[l] = true
				}
			}
		}
	}
}

func (a *lockAnalysis) callees(c *ssa.CallCommon) []*ssa.Function {
	if g := c.StaticCallee(); g != nil {
		return []*ssa.Function{g}
	}

	if c.IsInvoke() {
		return a.c.P.implementations(c.Value.Type(), c.Method)
	}

	if _, ok := c.Value.(*ssa.Builtin); ok {
		return nil
	}

	return a.bySig[sigKey(c.Signature())]
}

// sigKey: the types of a signature, without the names.
func sigKey(sig *types.Signature) string {
	k := ""

	for _, t := range []*types.Tuple{sig.Params(), sig.Results()} {
		for i := 0; i < t.Len(); i++ {
			k += typeName(t.At(i).Type()) + ","
		}

		k += ";"
	}

	return k
}

func (a *lockAnalysis) apply(f *ssa.Function, s *lockState, l lock, op string, at ssa.Instruction) {
	switch op {
	case "Lock", "RLock":
		if op == "RLock" {
			l.mode = "R"
		}

		a.acquired(f, s, l, at)
		s.held[l] = true
	default:
		if op == "RUnlock" {
			l.mode = "R"
		}

		other := lock{l.path, l.class, map[string]string{"W": "R", "R": "W"}[l.mode]}
		if a.report {
			a.c.oblige(s.held[l] || !s.held[other], "mode:"+shortName(f), shortName(f)+" releases "+l.class+" in another mode than it was locked in", a.c.P.pos(at.Pos()), nil)
		}

		if !s.held[l] && s.held[other] {
			l = other
		}

		a.release(s, l)
	}
}

func (a *lockAnalysis) release(s *lockState, l lock) {
	if s.held[l] {
		delete(s.held, l)
		return
	}

	l.mode = "-" + l.mode
	s.held[l] = true
}

// acquired: a lock is taken, here or in a callee, while others are held.
func (a *lockAnalysis) acquired(f *ssa.Function, s *lockState, l lock, at ssa.Instruction) {
	a.info[f].acquires[l] = true

	for h := range s.held {
		if strings.HasPrefix(h.mode, "-") {
			continue
		}

		if h.class == l.class {
			known := !strings.HasPrefix(h.path, "?") && !strings.HasPrefix(l.path, "?")
			if known && h.path != l.path {
				continue
			}

			if a.report {
				a.c.oblige(false, "deadlock:"+shortName(f), shortName(f)+" locks "+l.class+" while it is already held", a.c.P.pos(at.Pos()), nil)
			}

			continue
		}

		if a.report {
			a.edges[[2]string{h.class, l.class}] = shortName(f) + " at " + a.c.P.pos(at.Pos())
		}
	}

	if a.report {
		a.c.count("lock acquisitions", 1)
		a.c.oblige(true, "", "", "", nil)
	}
}

// order: no two locks are taken in both orders.
func (a *lockAnalysis) order() {
	next := map[string][]string{}
	for e := range a.edges {
		next[e[0]] = append(next[e[0]], e[1])
	}

	for e, where := range a.edges {
		seen := map[string]bool{}
		work := []string{e[1]}
		cycle := false

		for len(work) > 0 {
			n := work[len(work)-1]
			work = work[:len(work)-1]

			if n == e[0] {
				cycle = true
				break
			}

			if !seen[n] {
				seen[n] = true
				work = append(work, next[n]...)
			}
		}

		a.c.oblige(!cycle, "order:"+e[0]+"<"+e[1], e[1]+" is locked while "+e[0]+" is held, and elsewhere the other way round", where, nil)
	}
}
