package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// calleeName is the stable name of what a call calls: "pkg.F", "(pkg.T).M", "(*pkg.T).M" or an interface method.
func calleeName(c *ssa.CallCommon) string {
	if c.IsInvoke() {
		return fmt.Sprintf("(%s).%s", typeName(c.Value.Type()), c.Method.Name())
	}

	if fn := c.StaticCallee(); fn != nil {
		return funcName(fn)
	}

	if b, ok := c.Value.(*ssa.Builtin); ok {
		return "builtin." + b.Name()
	}

	return "dyn:" + typeName(c.Value.Type())
}

func funcName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		fn = o
	}

	s := fn.String()
	s = strings.TrimSuffix(s, "$bound")
	s = strings.TrimSuffix(s, "$thunk")

	return s
}

func (e *Exec) call(fr *Frame, s *State, ci ssa.CallInstruction, res ssa.Value) []*State {
	c := ci.Common()
	e.Stats.Calls++

	bind := func(st *State, t *Term) *State {
		if res != nil && t != nil {
			st.env[res] = t
		}

		return st
	}

	// builtins
	if b, ok := c.Value.(*ssa.Builtin); ok {
		_, _, args, _ := e.target(fr, s, c)
		return []*State{bind(s, e.builtin(fr, s, b.Name(), args, ci))}
	}

	fn, name, args, bindings := e.target(fr, s, c)

	return e.invoke(fr, s, ci, fn, name, args, bindings, res)
}

// target resolves what a call calls and with what.
func (e *Exec) target(fr *Frame, s *State, c *ssa.CallCommon) (fn *ssa.Function, name string, args, bindings []*Term) {
	if c.IsInvoke() {
		args = append(args, e.val(fr, s, c.Value))
	}

	for _, a := range c.Args {
		args = append(args, e.val(fr, s, a))
	}

	name = calleeName(c)

	if _, ok := c.Value.(*ssa.Builtin); ok {
		return nil, name, args, nil
	}

	switch {
	case c.IsInvoke():
		if m := e.devirt(args[0], c.Method); m != nil {
			fn = m
			name = funcName(fn)
		}
	case c.StaticCallee() != nil:
		fn = c.StaticCallee()

		if mc, ok := c.Value.(*ssa.MakeClosure); ok {
			for _, b := range mc.Bindings {
				bindings = append(bindings, e.val(fr, s, b))
			}
		}
	default:
		if t := e.val(fr, s, c.Value); t.Op == "closure" || t.Op == "func" {
			fn = t.Fn
			bindings = t.Args
			name = funcName(fn)
		} else {
			args = append([]*Term{t}, args...)
		}
	}

	return fn, name, args, bindings
}

// runDefers executes the calls the frame deferred, last first.
func (e *Exec) runDefers(fr *Frame, s *State) []*State {
	states := []*State{s}

	for {
		var next []*State

		ran := false

		for _, st := range states {
			d := st.defers
			if d == nil || d.frame != fr.id {
				next = append(next, st)
				continue
			}

			ran = true
			st.defers = d.prev

			if b, ok := d.ci.Call.Value.(*ssa.Builtin); ok {
				e.builtin(fr, st, b.Name(), d.args, d.ci)
				next = append(next, st)

				continue
			}

			next = append(next, e.invoke(fr, st, d.ci, d.fn, d.name, d.args, d.bindings, nil)...)
		}

		states = next
		if !ran {
			return states
		}
	}
}

func (e *Exec) devirt(recv *Term, m *types.Func) *ssa.Function {
	return e.devirtName(recv, m.Pkg(), m.Name())
}

func (e *Exec) devirtName(recv *Term, pkg *types.Package, name string) *ssa.Function {
	t := recv.Typ
	if t == nil {
		return nil
	}

	if _, ok := t.Underlying().(*types.Interface); ok {
		return nil
	}

	switch recv.Op {
	case "alloc", "struct", "field", "param", "res", "call", "ref", "elem", "assert":
	default:
		return nil
	}

	sel := e.P.SSA.MethodSets.MethodSet(t).Lookup(pkg, name)
	if sel == nil {
		return nil
	}

	return e.P.SSA.MethodValue(sel)
}

func (e *Exec) invoke(fr *Frame, s *State, ci ssa.CallInstruction, fn *ssa.Function, name string, args, bindings []*Term, res ssa.Value) []*State {
	var resTyp types.Type = types.NewTuple()
	if v := ci.Value(); v != nil {
		resTyp = v.Type()
	}

	set := func(st *State, t *Term) {
		if res != nil {
			st.env[res] = t
		}
	}

	if e.cfg.Intrinsic != nil {
		if outs, ok := e.cfg.Intrinsic(e, fr, s, name, args, ci); ok {
			var sts []*State
			for _, o := range outs {
				set(o.st, o.res)
				sts = append(sts, o.st)
			}

			return sts
		}
	}

	if outs, ok := e.intrinsic(fr, s, name, args, ci); ok {
		var sts []*State
		for _, o := range outs {
			set(o.st, o.res)
			sts = append(sts, o.st)
		}

		return sts
	}

	if fn != nil && e.inlinable(fr, fn) {
		var sts []*State

		for _, x := range e.inline(fr, s, ci, fn, args, bindings) {
			var t *Term

			switch len(x.res) {
			case 0:
				t = e.in.mk(Term{Op: "tuple"})
			case 1:
				t = x.res[0]
			default:
				t = e.in.mk(Term{Op: "tuple", Args: x.res})
			}

			set(x.st, t)
			sts = append(sts, x.st)
		}

		return sts
	}

	// opaque
	var snaps []*Term
	for _, a := range args {
		snaps = append(snaps, e.snap(s, a, 0))
	}

	t := e.in.mk(Term{Op: "call", Name: name, Args: snaps, Num: e.callSite(fr, ci, resTyp), Typ: resTyp})
	t.Pos = ci

	if isHashType(resTyp) {
		delete(s.mem, e.hstate(t))
	}

	if e.cfg.OnCall != nil {
		e.cfg.OnCall(e, fr, s, ci, name, args, t)
	}

	if e.mayWrite(name, fn) {
		for i, a := range args {
			if i == 0 && fn != nil && fn.Signature.Recv() != nil && !e.writesRecv(name) {
				continue
			}

			e.havoc(s, a, t, 0)
		}

		for _, b := range bindings {
			e.havoc(s, b, t, 1)
		}
	}

	set(s, t)

	return []*State{s}
}

// mayWrite: opaque callees may write through pointer arguments unless known not to.
func (e *Exec) mayWrite(name string, fn *ssa.Function) bool {
	if e.cfg.NoHavoc != nil && e.cfg.NoHavoc(name) {
		return false
	}

	for _, p := range []string{"fmt.", "errors.", "strings.", "(*log.", "(time.", "time.", "bytes.", "crypto/"} {
		if strings.HasPrefix(name, p) && name != "errors.As" {
			return false
		}
	}

	if fn != nil && inModule(fn) {
		// declared opaque by the rule: it is analysed by its own rules and treated as a pure query here,
		// unless it can write what it is given
		return e.writesArgs(fn)
	}

	return true
}

func (e *Exec) writesRecv(name string) bool { return true }

// writesArgs: may the module function store through a parameter, itself or through what it calls?
func (e *Exec) writesArgs(fn *ssa.Function) bool {
	if e.writes == nil {
		e.writes = map[*ssa.Function]bool{}
	}

	if w, ok := e.writes[fn]; ok {
		return w
	}

	e.writes[fn] = false // recursion

	w := e.writesArgs1(fn)
	e.writes[fn] = w

	return w
}

func (e *Exec) writesArgs1(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			switch x := ins.(type) {
			case *ssa.Store:
				if !localVar(x.Addr) && rootsAtParam(x.Addr) {
					return true
				}
			case *ssa.MapUpdate:
				if rootsAtParam(x.Map) {
					return true
				}
			case ssa.CallInstruction:
				if e.passesParam(x) {
					return true
				}
			}
		}
	}

	return false
}

// passesParam: the call hands something reachable from a parameter to a callee that may write it.
func (e *Exec) passesParam(ci ssa.CallInstruction) bool {
	c := ci.Common()

	rooted := false

	for _, a := range c.Args {
		if canWriteThrough(a.Type()) && rootsAtParam(a) {
			rooted = true
		}
	}

	if !rooted {
		return false
	}

	if b, ok := c.Value.(*ssa.Builtin); ok {
		return (b.Name() == "delete" || b.Name() == "copy") && rootsAtParam(c.Args[0])
	}

	if callee := c.StaticCallee(); callee != nil && inModule(callee) {
		return callee.Blocks != nil && e.writesArgs(callee)
	}

	if c.IsInvoke() {
		// library interfaces: only decoders and readers are known to write what they are given
		return !inModulePath(pkgOf(c.Method)) && e.mayWrite(calleeName(c), nil)
	}

	if c.StaticCallee() == nil {
		return true
	}

	return e.mayWrite(calleeName(c), nil)
}

func pkgOf(m *types.Func) string {
	if m == nil || m.Pkg() == nil {
		return ""
	}

	return m.Pkg().Path()
}

// canWriteThrough: values of the type give access to memory of the caller.
func canWriteThrough(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return false
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if canWriteThrough(u.Field(i).Type()) {
				return true
			}
		}

		return false
	}

	return true
}

// localVar: an address inside the function's own variable.
func localVar(v ssa.Value) bool {
	for {
		switch x := v.(type) {
		case *ssa.Alloc:
			return true
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		default:
			return false
		}
	}
}

func rootsAtParam(v ssa.Value) bool { return rootedAt(v, 0) }

func rootedAt(v ssa.Value, d int) bool {
	if d > 12 {
		return false
	}

	switch x := v.(type) {
	case *ssa.Parameter, *ssa.FreeVar:
		return true
	case *ssa.FieldAddr:
		return rootedAt(x.X, d+1)
	case *ssa.IndexAddr:
		return rootedAt(x.X, d+1)
	case *ssa.Index:
		return rootedAt(x.X, d+1)
	case *ssa.UnOp:
		return rootedAt(x.X, d+1)
	case *ssa.Field:
		return rootedAt(x.X, d+1)
	case *ssa.MakeInterface:
		return rootedAt(x.X, d+1)
	case *ssa.TypeAssert:
		return rootedAt(x.X, d+1)
	case *ssa.ChangeType:
		return rootedAt(x.X, d+1)
	case *ssa.ChangeInterface:
		return rootedAt(x.X, d+1)
	case *ssa.Slice:
		return rootedAt(x.X, d+1)
	case *ssa.Lookup:
		return rootedAt(x.X, d+1)
	case *ssa.Extract:
		switch x.Tuple.(type) {
		case *ssa.TypeAssert, *ssa.Lookup:
			return rootedAt(x.Tuple.(ssa.Value), d+1)
		}
	case *ssa.MakeClosure:
		for _, b := range x.Bindings {
			if rootedAt(b, d+1) {
				return true
			}
		}
	case *ssa.Phi:
		for _, ed := range x.Edges {
			if rootedAt(ed, d+4) {
				return true
			}
		}
	case *ssa.Alloc:
		if x.Referrers() == nil {
			return false
		}

		for _, r := range *x.Referrers() {
			switch u := r.(type) {
			case *ssa.Store:
				if u.Addr == x && canWriteThrough(u.Val.Type()) && rootedAt(u.Val, d+2) {
					return true
				}
			case *ssa.IndexAddr:
				for _, r2 := range *u.Referrers() {
					if st, ok := r2.(*ssa.Store); ok && st.Addr == u && canWriteThrough(st.Val.Type()) && rootedAt(st.Val, d+2) {
						return true
					}
				}
			}
		}
	}

	return false
}

// callSite distinguishes results of different executions for calls that can fail (their outcome is an event), and
// identifies calls of pure queries by their arguments only.
func (e *Exec) callSite(fr *Frame, ci ssa.CallInstruction, res types.Type) int {
	if !hasError(res) && !isHashType(res) {
		return 0
	}

	k := fmt.Sprintf("site:%s:%p", fr.id, ci)
	if _, ok := e.ids[k]; !ok {
		e.ids[k] = len(e.ids) + 1
	}

	return e.ids[k]
}

func hasError(t types.Type) bool {
	if t == nil {
		return false
	}

	if tt, ok := t.(*types.Tuple); ok {
		for i := 0; i < tt.Len(); i++ {
			if isErrorType(tt.At(i).Type()) {
				return true
			}
		}

		return false
	}

	return isErrorType(t)
}

func (e *Exec) inlinable(fr *Frame, fn *ssa.Function) bool {
	if fn.Blocks == nil || fr.depth >= e.cfg.MaxDepth {
		return false
	}

	if !inModule(fn) && fn.Synthetic == "" {
		return false
	}

	if fn.Synthetic != "" && !inModule(fn) && fnPkgPath(fn) != "" {
		return false
	}

	if e.cfg.Opaque != nil && e.cfg.Opaque(fn) {
		return false
	}

	for _, f := range e.stack {
		if f == fn {
			return false
		}
	}

	return true
}

func (e *Exec) inline(fr *Frame, s *State, ci ssa.Instruction, fn *ssa.Function, args, bindings []*Term) []Exit {
	callerEnv := s.env
	sub := &Frame{fn: fn, depth: fr.depth + 1, id: e.frameID(fr, ci, fn), call: ci, up: fr, args: args}

	s.env = map[ssa.Value]*Term{}
	exits := e.body(sub, s, args, bindings)

	for i := range exits {
		exits[i].st.env = cloneMap(callerEnv)
	}

	return exits
}

func (e *Exec) body(fr *Frame, s *State, args, bindings []*Term) []Exit {
	fn := fr.fn
	e.Stats.Funcs[shortName(fn)] = true

	for i, p := range fn.Params {
		if i < len(args) {
			s.env[p] = args[i]
		}
	}

	for i, v := range fn.FreeVars {
		if i < len(bindings) {
			s.env[v] = bindings[i]
		}
	}

	e.stack = append(e.stack, fn)
	li := e.loopsOf(fn)
	out := e.region(fr, li, fn.Blocks[0], nil, []*State{s})
	e.stack = e.stack[:len(e.stack)-1]

	// defers run at exit: only their panics/locks matter, which other rules decide
	return e.summarise(fr, out.rets)
}

// isPredicate: the function only answers yes or no; the ways in which it does are those of a condition written in place.
func isPredicate(f *ssa.Function) bool {
	r := f.Signature.Results()
	return r.Len() == 1 && isBool(r.At(0).Type())
}

// outermost: what leaves this function leaves the analysed function with it.
func (fr *Frame) outermost() bool {
	for ; fr.up != nil; fr = fr.up {
		call, ok := fr.call.(*ssa.Call)
		if !ok {
			return false
		}

		b := call.Block()

		for _, in := range b.Instrs[indexIn(call)+1:] {
			switch x := in.(type) {
			case *ssa.DebugRef, *ssa.RunDefers, *ssa.Return:
			case *ssa.Extract:
				if x.Tuple != call {
					return false
				}
			default:
				return false
			}
		}

		if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); !ok {
			return false
		}
	}

	return true
}

// summarise groups the ways of leaving a function by the observable outcome and by the obligations met.
func (e *Exec) summarise(fr *Frame, rets []Exit) []Exit {
	var split []Exit

	for _, r := range rets {
		if r.panic {
			continue
		}

		split = append(split, e.splitExit(r, fr.fn.Signature.Results())...)
	}

	if fr.outermost() || len(split) <= 6 && isPredicate(fr.fn) {
		return split
	}

	type group struct{ xs []Exit }

	groups := map[string]*group{}

	var order []string

	for _, r := range split {
		k := e.exitKey(r, fr.fn.Signature.Results())
		if groups[k] == nil {
			groups[k] = &group{}
			order = append(order, k)
		}

		groups[k].xs = append(groups[k].xs, r)
	}

	var out []Exit

	for _, k := range order {
		xs := groups[k].xs
		if len(xs) == 1 {
			out = append(out, xs[0])
			continue
		}

		sts := make([]*State, len(xs))
		for i, x := range xs {
			x.st.env = nil
			sts[i] = x.st
		}

		m := Exit{st: e.merge(sts), pos: xs[0].pos}
		m.st.env = map[ssa.Value]*Term{}

		for i := range xs[0].res {
			var ts []*Term
			for _, x := range xs {
				ts = append(ts, x.res[i])
			}

			sig := fr.fn.Signature.Results().At(i).Type()
			t := e.choice(ts...)

			if isErrorType(sig) && t.Op == "choice" {
				// all of them are non-nil (nil ones are in another group)
				t = e.in.mk(Term{Op: "unknown", Name: "err:" + fr.id, Args: t.Args, Typ: sig})
				m.st.facts[e.isnil(t)] = false
			}

			m.res = append(m.res, t)
		}

		out = append(out, m)
	}

	return out
}

// splitExit separates success from failure when the returned error or boolean is not decided yet.
func (e *Exec) splitExit(r Exit, sig *types.Tuple) []Exit {
	out := []Exit{r}

	for i := range r.res {
		var next []Exit

		for _, x := range out {
			t := x.res[i]

			switch {
			case isErrorType(sig.At(i).Type()):
				switch e.isNil(x.st, t) {
				case yes:
					x.res = replaceAt(x.res, i, e.nilT(t.Typ))
					next = append(next, x)
				case no:
					next = append(next, x)
				default:
					n := x.st.clone()
					if e.assume(n, e.isnil(t), true, r.pos) {
						next = append(next, Exit{st: n, res: replaceAt(x.res, i, e.nilT(t.Typ)), pos: x.pos})
					}

					f := x.st.clone()
					if e.assume(f, e.isnil(t), false, r.pos) {
						next = append(next, Exit{st: f, res: x.res, pos: x.pos})
					}
				}
			case isBool(sig.At(i).Type()):
				switch e.eval(x.st, t) {
				case yes:
					x.res = replaceAt(x.res, i, e.boolT(true))
					next = append(next, x)
				case no:
					x.res = replaceAt(x.res, i, e.boolT(false))
					next = append(next, x)
				default:
					n := x.st.clone()
					if e.assume(n, t, true, r.pos) {
						next = append(next, Exit{st: n, res: replaceAt(x.res, i, e.boolT(true)), pos: x.pos})
					}

					f := x.st.clone()
					if e.assume(f, t, false, r.pos) {
						next = append(next, Exit{st: f, res: replaceAt(x.res, i, e.boolT(false)), pos: x.pos})
					}
				}
			default:
				next = append(next, x)
			}
		}

		out = next
	}

	return out
}

func isErrTerm(t *Term) bool { return t.Typ != nil && isErrorType(t.Typ) }

func isBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func replaceAt(ts []*Term, i int, t *Term) []*Term {
	out := append([]*Term(nil), ts...)
	out[i] = t

	return out
}

func (e *Exec) exitKey(r Exit, sig *types.Tuple) string {
	var b strings.Builder

	failed := false

	for i, t := range r.res {
		switch {
		case isErrorType(sig.At(i).Type()):
			if e.isNil(r.st, t) == yes {
				b.WriteString("ok;")
			} else {
				b.WriteString("err;")

				failed = true
			}
		case isConst(t):
			b.WriteString(t.key + ";")
		default:
			b.WriteString("v;")
		}
	}

	if failed {
		return "err"
	}

	for j := range e.cfg.Reqs {
		e.checkReq(r.st, j)
	}

	fmt.Fprintf(&b, "%x", r.st.sat)

	if len(r.st.locks) > 0 {
		var ls []string
		for t, n := range r.st.locks {
			ls = append(ls, fmt.Sprintf("%d=%d", t.id, n))
		}

		sort.Strings(ls)
		b.WriteString(strings.Join(ls, ","))
	}

	return b.String()
}

// ---- builtins and library functions with a known meaning ----

func (e *Exec) builtin(fr *Frame, s *State, name string, args []*Term, ci ssa.CallInstruction) *Term {
	var typ types.Type
	if v := ci.Value(); v != nil {
		typ = v.Type()
	}

	switch name {
	case "len":
		return e.lenOf(args[0])
	case "append":
		n := "0"

		as := []*Term{args[0]}

		if len(args) > 1 {
			sn := e.snap(s, args[1], 0)
			if sn.Op == "slicelit" {
				as = append(as, sn.Args...)
				n = "1"
			} else {
				as = append(as, e.in.mk(Term{Op: "spread", Args: []*Term{sn}, Typ: sn.Typ}))
			}
		}

		return e.in.mk(Term{Op: "append", Name: n, Args: as, Typ: typ})
	case "copy", "delete", "clear", "print", "println", "close":
		if name == "delete" {
			// entries under other constant keys stay
			_, isC := constStr(args[1])
			stays := func(k *Term) bool {
				_, other := constStr(k)
				return isC && other && k != args[1]
			}

			for k := range s.mem {
				if k.Op == "mapget" && k.Args[0] == args[0] && !stays(k.Args[1]) {
					delete(s.mem, k)
				}
			}

			for f := range s.facts {
				if f.Op == "has" && f.Args[0] == args[0] && !stays(f.Args[1]) {
					delete(s.facts, f)
				}
			}

			s.facts[e.in.mk(Term{Op: "has", Args: []*Term{args[0], args[1]}, Typ: types.Typ[types.Bool]})] = false
		}

		if name == "copy" {
			e.havoc(s, args[0], e.in.mk(Term{Op: "call", Name: "builtin.copy", Args: args}), 0)
		}
	}

	return e.in.mk(Term{Op: "call", Name: "builtin." + name, Args: args, Typ: typ})
}

func (e *Exec) intrinsic(fr *Frame, s *State, name string, args []*Term, ci ssa.CallInstruction) ([]callOut, bool) {
	one := func(t *Term) ([]callOut, bool) { return []callOut{{s, t}}, true }

	if strings.HasPrefix(name, "golang.org/x/exp/slices.") {
		name = strings.TrimPrefix(name, "golang.org/x/exp/")
	}

	switch name {
	case "strings.ToLower", "strings.ToUpper", "strings.TrimSpace":
		if v, ok := constStr(args[0]); ok {
			f := map[string]func(string) string{"ToLower": strings.ToLower, "ToUpper": strings.ToUpper, "TrimSpace": strings.TrimSpace}

			return one(e.strT(f[strings.TrimPrefix(name, "strings.")](v)))
		}
	case "(hash.Hash).Write", "(io.Writer).Write":
		if isHashType(args[0].Typ) {
			// what has been written so far is what a later Sum digests
			k := e.hstate(args[0])
			w := e.snap(s, args[1], 0)

			var prev []*Term
			if p := s.mem[k]; p != nil {
				prev = p.Args
			}

			s.mem[k] = e.in.mk(Term{Op: "hashed", Args: append(append([]*Term(nil), prev...), w), Typ: args[1].Typ})
			t := e.in.mk(Term{Op: "call", Name: name, Args: []*Term{args[0], w}, Num: e.callSite(fr, ci, ci.Value().Type()), Typ: ci.Value().Type()})
			t.Pos = ci

			return one(t)
		}
	case "(hash.Hash).Reset":
		delete(s.mem, e.hstate(args[0]))
		return one(e.in.mk(Term{Op: "tuple"}))
	case "(hash.Hash).Sum":
		as := []*Term{args[0], e.snap(s, args[1], 0)}
		if p := s.mem[e.hstate(args[0])]; p != nil {
			as = append(as, p.Args...)
		}

		t := e.in.mk(Term{Op: "call", Name: name, Args: as, Typ: ci.Value().Type()})
		t.Pos = ci

		return one(t)
	case "slices.Contains", "github.com/samber/lo.Contains":
		// true: some element equals the value
		coll, v := args[0], args[1]
		ix := e.in.mk(Term{Op: "idx", Name: fmt.Sprintf("%s/c%p", fr.id, ci), Num: 1, Typ: types.Typ[types.Int]})
		eq := e.rawEqN(e.elem(coll, ix, v.Typ), v)
		t := s.clone()
		t.facts[eq] = true
		t.trace = &Trace{prev: t.trace, pos: ci.Pos(), lit: eq, val: true}
		s.facts[e.in.mk(Term{Op: "forall", Args: []*Term{coll, eq}, Typ: types.Typ[types.Bool]})] = false

		return []callOut{{t, e.boolT(true)}, {s, e.boolT(false)}}, true
	case "slices.ContainsFunc", "slices.IndexFunc", "github.com/samber/lo.ContainsBy":
		if f := args[1]; (f.Op == "closure" || f.Op == "func") && f.Fn != nil && f.Fn.Blocks != nil && name != "slices.IndexFunc" {
			coll := args[0]
			ix := e.in.mk(Term{Op: "idx", Name: fmt.Sprintf("%s/c%p", fr.id, ci), Num: 1, Typ: types.Typ[types.Int]})
			el := e.elem(coll, ix, f.Fn.Params[0].Type())

			var outs []callOut

			for _, x := range e.inline(fr, s.clone(), ci, f.Fn, []*Term{el}, f.Args) {
				if len(x.res) == 1 && e.eval(x.st, x.res[0]) == yes {
					outs = append(outs, callOut{x.st, e.boolT(true)})
				}
			}

			return append(outs, callOut{s, e.boolT(false)}), true
		}
	case joseParseJWS:
		return e.parseJWS(fr, s, args, ci), true
	case "bytes.Equal":
		return one(e.bin(tokEQL, args[0], args[1], types.Typ[types.Bool]))
	case "(*golang.org/x/sync/errgroup.Group).Go":
		// Wait fails if the function fails: paths on which Wait succeeds are those on which it succeeded
		if f := args[1]; (f.Op == "closure" || f.Op == "func") && f.Fn != nil && e.inlinable(fr, f.Fn) {
			var outs []callOut

			for _, x := range e.inline(fr, s, ci, f.Fn, nil, f.Args) {
				if len(x.res) == 1 && e.isNil(x.st, x.res[0]) == yes {
					outs = append(outs, callOut{x.st, nil})
				}
			}

			return outs, true
		}
	}

	return nil, false
}

func (e *Exec) rawEqN(a, b *Term) *Term {
	return e.bin(tokEQL, a, b, types.Typ[types.Bool])
}

func isHashType(t types.Type) bool { return t != nil && typeName(t) == "hash.Hash" }

// hstate is the location of what has been written to a hasher.
func (e *Exec) hstate(h *Term) *Term { return e.in.mk(Term{Op: "hstate", Args: []*Term{h}}) }

const joseParseJWS = "github.com/trustbloc/kms-go/doc/jose.ParseJWS"

// parseJWS models the library's JWS parser: it succeeds only if the verifier it was given accepted the headers,
// payload, signing input and signature of the parsed string.
func (e *Exec) parseJWS(fr *Frame, s *State, args []*Term, ci ssa.CallInstruction) []callOut {
	var snaps []*Term
	for _, a := range args {
		snaps = append(snaps, e.snap(s, a, 0))
	}

	typ := ci.Value().Type()
	tup := typ.(*types.Tuple)
	r := e.in.mk(Term{Op: "call", Name: joseParseJWS, Args: snaps, Num: e.callSite(fr, ci, typ), Typ: typ})
	r.Pos = ci
	jws := e.in.mk(Term{Op: "res", Num: 1, Args: []*Term{r}, Typ: tup.At(0).Type()})
	err := e.in.mk(Term{Op: "res", Num: 2, Args: []*Term{r}, Typ: tup.At(1).Type()})
	bytesT := types.NewSlice(types.Typ[types.Byte])
	fld := func(n string, t types.Type) *Term {
		return e.in.mk(Term{Op: "field", Name: n, Args: []*Term{jws}, Typ: t})
	}
	part := func(n string) *Term { return e.in.mk(Term{Op: "call", Name: n, Args: []*Term{r}, Typ: bytesT}) }

	var headersT types.Type = types.Typ[types.Invalid]
	if st := structOfVal(tup.At(0).Type()); st != nil {
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == "ProtectedHeaders" {
				headersT = st.Field(i).Type()
			}
		}
	}

	vargs := []*Term{args[1], fld("ProtectedHeaders", headersT), fld("Payload", bytesT), part("jws.signingInput"), part("jws.signature")}

	var outs []callOut

	bad := s.clone()
	if e.assume(bad, e.isnil(err), false, ci.Pos()) {
		outs = append(outs, callOut{bad, e.in.mk(Term{Op: "tuple", Args: []*Term{e.nilT(jws.Typ), err}})})
	}

	accept := func(st *State) {
		if e.assume(st, e.isnil(err), true, ci.Pos()) {
			st.facts[e.isnil(jws)] = false
			outs = append(outs, callOut{st, e.in.mk(Term{Op: "tuple", Args: []*Term{jws, e.nilT(err.Typ)}})})
		}
	}

	if m := e.devirtName(args[1], nil, "Verify"); m != nil && e.inlinable(fr, m) {
		for _, x := range e.inline(fr, s, ci, m, vargs, nil) {
			if len(x.res) == 1 && e.isNil(x.st, x.res[0]) == yes {
				accept(x.st)
			}
		}

		return outs
	}

	v := e.in.mk(Term{Op: "call", Name: "(github.com/trustbloc/kms-go/doc/jose.SignatureVerifier).Verify", Args: vargs, Num: e.callSite(fr, ci, typ), Typ: tup.At(1).Type()})
	s.facts[e.isnil(v)] = true
	accept(s)

	return outs
}
