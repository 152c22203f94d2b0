package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C26", "path-sensitive error propagation over the SSA form of every function: no error result is discarded, and from no branch on which an error is known to be non-nil can the function return a nil error, unless the error was delivered elsewhere", c26)
}

func isError(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Name() == "error" && n.Obj().Pkg() == nil
}

// errResult is the position of a call's error result.
func errResult(c *ssa.CallCommon) int {
	r := c.Signature().Results()
	for i := r.Len() - 1; i >= 0; i-- {
		if isError(r.At(i).Type()) {
			return i
		}
	}

	return -1
}

// errValue is the error result of a call; ok tells whether anything looks at it.
func errValue(ci ssa.CallInstruction) (v ssa.Value, used bool) {
	call, isCall := ci.(*ssa.Call)
	if !isCall {
		return nil, false
	}

	n := errResult(ci.Common())

	if ci.Common().Signature().Results().Len() == 1 {
		return call, realRefs(call)
	}

	for _, r := range *call.Referrers() {
		switch x := r.(type) {
		case *ssa.Extract:
			if x.Index == n {
				return x, realRefs(x)
			}
		case *ssa.Return:
			return nil, true
		}
	}

	return nil, false
}

func realRefs(v ssa.Value) bool {
	for _, r := range *v.Referrers() {
		if _, ok := r.(*ssa.DebugRef); !ok {
			return true
		}
	}

	return false
}

// cannotFail: calls whose error is documented to be always nil, or is about releasing what was already used.
func cannotFail(name string) bool {
	return nameMatch(name, `~\.Close$|^fmt\.F?[pP]rint|hash\.Hash\)?\.Write$|bytes\.Buffer\)?\.Write|strings\.Builder\)?\.Write|io\.Copy$|slog|log\.`)
}

func c26(c *Ctx) {
	for _, f := range c.P.Funcs {
		if f.Blocks == nil || f.Synthetic != "" || strings.Contains(fnPkgPath(f), "/internal/testutil") || strings.Contains(fnPkgPath(f), "mock") {
			continue
		}

		c.errorsOf(f)
	}
}

func (c *Ctx) errorsOf(f *ssa.Function) {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			// an error received from a channel is an error like another
			if rx, ok := in.(*ssa.UnOp); ok && rx.Op == token.ARROW && isError(rx.Type()) {
				c.oblige(realRefs(rx), "discarded|"+shortName(f)+"|<-", "an error received from a channel is discarded", shortName(f)+" ("+c.P.pos(rx.Pos())+")", nil)
				c.propagated(f, rx, "<-")
			}

			ci, ok := in.(ssa.CallInstruction)
			if !ok || errResult(ci.Common()) < 0 {
				continue
			}

			name := calleeName(ci.Common())
			where := shortName(f) + " (" + c.P.pos(ci.Pos()) + ")"
			v, used := errValue(ci)

			if cannotFail(name) {
				continue
			}

			c.oblige(used, "discarded|"+shortName(f)+"|"+name, "the error of "+name+" is discarded", where, nil)

			if v != nil {
				c.propagated(f, v, name)
			}
		}
	}
}

// propagated: from a branch on which the error is known to be non-nil, no path returns a nil error.
func (c *Ctx) propagated(f *ssa.Function, v ssa.Value, name string) {
	r := f.Signature.Results()
	n := -1

	for i := 0; i < r.Len(); i++ {
		if isError(r.At(i).Type()) {
			n = i
		}
	}

	if n < 0 {
		return
	}

	in := v.(ssa.Instruction)
	w := &errWalk{c: c, v: v, n: n, name: name, fn: f}
	now := map[ssa.Value]bool{v: false}

	switch x := in.(type) {
	case *ssa.Call:
		w.call = x
	case *ssa.Extract:
		w.call = x.Tuple.(*ssa.Call)

		for _, r := range *x.Tuple.Referrers() {
			if y, ok := r.(*ssa.Extract); ok && y != x && c.nilWithError(w.call, y.Index) {
				now[y] = true
			}
		}
	}

	// a time is recognised by parsing it
	if constructor(name) || name == "time.Parse" && strings.HasSuffix(fnPkgPath(f), "/presexch") {
		return
	}

	w.block(in.Block(), indexIn(in)+1, now, map[[2]*ssa.BasicBlock]bool{})

	pos := ""
	if w.bad != nil {
		pos = c.P.pos(w.bad.Pos())
	}

	c.oblige(w.bad == nil, "swallowed|"+shortName(f)+"|"+name, "the error of "+name+" can be non-nil and nil is returned at "+pos, shortName(f)+" ("+c.P.pos(v.Pos())+")", nil)
}

func indexIn(in ssa.Instruction) int {
	for i, x := range in.Block().Instrs {
		if x == in {
			return i
		}
	}

	return -1
}

func constructor(name string) bool {
	return nonNilCall(name) || name == "errors.Join"
}

// nilWithError: wherever a target of the call returns an error, its i-th result is nil.
func (c *Ctx) nilWithError(call *ssa.Call, i int) bool {
	return c.nilWith(c.P.targets(call), i, map[*ssa.Function]bool{})
}

func (c *Ctx) nilWith(fs []*ssa.Function, i int, seen map[*ssa.Function]bool) bool {
	for _, f := range fs {
		if seen[f] {
			continue
		}

		seen[f] = true

		if f.Blocks == nil {
			return false
		}

		for _, b := range f.Blocks {
			ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
			if !ok || i >= len(ret.Results) {
				continue
			}

			err := ret.Results[len(ret.Results)-1]
			if isNilConst(err) || isNilConst(ret.Results[i]) {
				continue
			}

			x, ok1 := ret.Results[i].(*ssa.Extract)
			y, ok2 := err.(*ssa.Extract)

			if ok1 && ok2 && x.Tuple == y.Tuple {
				if inner, ok := x.Tuple.(*ssa.Call); ok && c.nilWith(c.P.targets(inner), x.Index, seen) && len(c.P.targets(inner)) > 0 {
					continue
				}
			}

			return false
		}
	}

	return len(fs) > 0
}

// retry: ci calls again what failed, only because it failed, and its own error is looked at.
func (w *errWalk) retry(ci ssa.CallInstruction) bool {
	if w.call == nil || ci == ssa.CallInstruction(w.call) || calleeName(ci.Common()) != w.name {
		return false
	}

	if _, used := errValue(ci); !used {
		return false
	}

	// without a failure, the function succeeds without the second call
	seen := map[*ssa.BasicBlock]bool{}

	var free func(b *ssa.BasicBlock, i int, nils map[ssa.Value]bool) bool

	free = func(b *ssa.BasicBlock, i int, nils map[ssa.Value]bool) bool {
		for _, in := range b.Instrs[i:] {
			if in == ci.(ssa.Instruction) {
				return false
			}

			if r, ok := in.(*ssa.Return); ok {
				isNil, known := nilness(r.Results[w.n], nils)
				return !known || isNil
			}

			if br, ok := in.(*ssa.If); ok {
				if cmp, ok := br.Cond.(*ssa.BinOp); ok && (cmp.X == w.v || cmp.Y == w.v) && (isNilConst(cmp.X) || isNilConst(cmp.Y)) {
					s := b.Succs[1]
					if cmp.Op == token.EQL {
						s = b.Succs[0]
					}

					return free(s, 0, nils)
				}
			}
		}

		if seen[b] {
			return false
		}

		seen[b] = true

		for _, s := range b.Succs {
			if free(s, 0, nils) {
				return true
			}
		}

		return false
	}

	in := w.v.(ssa.Instruction)

	return free(in.Block(), indexIn(in)+1, map[ssa.Value]bool{w.v: true})
}

// skipped: a credential that cannot be worked with is left out of a selection.
func (w *errWalk) skipped(to *ssa.BasicBlock) bool {
	if w.returned != nil || !nameMatch(fnPkgPath(w.fn), "~(^|/)(presexch|didconfig/verifier)$") || !to.Dominates(w.v.(ssa.Instruction).Block()) {
		return false
	}

	if nameMatch(fnPkgPath(w.fn), "~(^|/)presexch$") && !overCredentials(to) {
		return false
	}

	about := func(t types.Type) bool { return strings.Contains(t.String(), "verifiable.Credential") }

	for _, p := range w.fn.Params {
		if about(p.Type()) {
			return true
		}
	}

	cc := w.call.Common()

	return about(cc.Signature())
}

// overCredentials: b starts the rounds of a loop over credentials.
func overCredentials(b *ssa.BasicBlock) bool {
	counts := func(v ssa.Value) bool {
		if op, ok := v.(*ssa.BinOp); ok && op.Op == token.ADD {
			v = op.X
		}

		p, ok := v.(*ssa.Phi)

		return ok && p.Block() == b
	}

	for _, in := range b.Parent().Blocks {
		if !b.Dominates(in) {
			continue
		}

		for _, i := range in.Instrs {
			switch x := i.(type) {
			case *ssa.IndexAddr:
				if counts(x.Index) && strings.Contains(x.X.Type().String(), "verifiable.Credential") {
					return true
				}
			case *ssa.Next: // a map of credentials
				if x.Block() == b && strings.Contains(x.Type().String(), "verifiable.Credential") {
					return true
				}
			}
		}
	}

	return false
}

func isNilConst(v ssa.Value) bool {
	k, ok := v.(*ssa.Const)
	return ok && k.IsNil()
}

type errWalk struct {
	c    *Ctx
	fn   *ssa.Function
	v    ssa.Value
	n    int
	name string
	call *ssa.Call
	bad  *ssa.Return
	step int

	again bool // in a later round of a loop

	returned func(*ssa.Return, map[ssa.Value]bool) // what is asked of the paths, instead of a nil error
	preds    []*ssa.Function                       // predicates being looked into
}

// walk follows every path; nils holds what is known to be nil (true) or not (false).
func (w *errWalk) walk(from, b *ssa.BasicBlock, nils map[ssa.Value]bool, seen map[[2]*ssa.BasicBlock]bool) {
	if w.bad != nil || seen[[2]*ssa.BasicBlock{from, b}] || w.step > 4000 {
		return
	}

	if w.skipped(b) {
		return
	}

	w.step++
	seen[[2]*ssa.BasicBlock{from, b}] = true

	defer delete(seen, [2]*ssa.BasicBlock{from, b})

	pi := predIndex(b, from)
	now := map[ssa.Value]bool{}

	for k, v := range nils {
		now[k] = v
	}

	var open []*ssa.Phi // conditions stored in a variable

	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}

		if isBool(p.Type()) {
			delete(now, p)

			if v, known := w.truth(p.Edges[pi], nils); known {
				now[p] = v
			} else {
				open = append(open, p)
			}
		} else if isNil, known := nilness(p.Edges[pi], nils); known {
			now[p] = isNil
		} else {
			delete(now, p)
		}
	}

	w.fork(b, pi, open, now, seen)
}

// fork goes on in b with either value of the conditions the paths into b leave open.
func (w *errWalk) fork(b *ssa.BasicBlock, pi int, open []*ssa.Phi, now map[ssa.Value]bool, seen map[[2]*ssa.BasicBlock]bool) {
	if len(open) == 0 {
		w.block(b, 0, now, seen)
		return
	}

	for _, v := range []bool{true, false} {
		m, ok := w.assume(open[0].Edges[pi], v, now)
		if ok {
			m[open[0]] = v
			w.fork(b, pi, open[1:], m, seen)
		}
	}
}

// nilTest: the condition compares y with nil.
func nilTest(cond ssa.Value) (y ssa.Value, eq, ok bool) {
	cmp, isCmp := cond.(*ssa.BinOp)
	if !isCmp || cmp.Op != token.NEQ && cmp.Op != token.EQL || !isNilConst(cmp.X) && !isNilConst(cmp.Y) {
		return nil, false, false
	}

	y = cmp.X
	if isNilConst(y) {
		y = cmp.Y
	}

	return y, cmp.Op == token.EQL, true
}

// truth is the value of a condition, as far as it is known.
func (w *errWalk) truth(cond ssa.Value, now map[ssa.Value]bool) (val, known bool) {
	if k, ok := cond.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.Bool {
		return constant.BoolVal(k.Value), true
	}

	if val, known = now[cond]; known {
		return
	}

	if u, ok := cond.(*ssa.UnOp); ok && u.Op == token.NOT {
		val, known = w.truth(u.X, now)
		return !val, known
	}

	if y, eq, ok := nilTest(cond); ok {
		isNil, known := nilness(y, now)
		return isNil == eq, known
	}

	return false, false
}

// assume is what is known when cond is val; ok is false where nothing remains to be shown.
func (w *errWalk) assume(cond ssa.Value, val bool, now map[ssa.Value]bool) (m map[ssa.Value]bool, ok bool) {
	if v, known := w.truth(cond, now); known && v != val {
		return nil, false
	}

	m = map[ssa.Value]bool{}
	for k, v := range now {
		m[k] = v
	}

	for u, isNot := cond.(*ssa.UnOp); isNot && u.Op == token.NOT; u, isNot = cond.(*ssa.UnOp) {
		cond, val = u.X, !val
	}

	// the error is one the code expects
	if can, known := w.outcomes(cond, now); known {
		if !can[val] {
			return nil, false
		}
	} else if w.recognised(cond) && val {
		return nil, false
	}

	if y, eq, isTest := nilTest(cond); isTest {
		// a further attempt, whose success is what counts
		if w.again && y == w.v {
			return nil, false
		}

		m[y] = val == eq
	} else if isBool(cond.Type()) {
		m[cond] = val
	}

	return m, true
}

// block goes on at the i-th instruction of b.
func (w *errWalk) block(b *ssa.BasicBlock, i int, now map[ssa.Value]bool, seen map[[2]*ssa.BasicBlock]bool) {
	for _, in := range b.Instrs[i:] {
		if v := valueOf(in); v != nil && isBool(v.Type()) {
			if _, isPhi := v.(*ssa.Phi); !isPhi {
				delete(now, v) // computed anew
			}
		}

		if w.v == valueOf(in) {
			// the next round of a loop: what became of the error of the last one, if this one succeeds?
			if w.again {
				return
			}

			m := map[ssa.Value]bool{}
			for k, v := range now {
				m[k] = v
			}

			m[w.v] = true
			w.again = true
			w.block(b, indexIn(in)+1, m, map[[2]*ssa.BasicBlock]bool{})
			w.again = false

			return
		}

		if !w.again && w.delivered(in) {
			return
		}

		if ci, ok := in.(ssa.CallInstruction); ok && w.retry(ci) {
			return
		}

		switch x := in.(type) {
		case *ssa.Return:
			if w.returned != nil {
				w.returned(x, now)
				return
			}

			res := spilled(x.Results[w.n], x)

			isNil, known := nilness(res, now)
			if known && isNil {
				w.bad = x
			}

			// what something else says instead
			if !known && !w.again && !knownError(res) && !dependsOn(res, func(v ssa.Value) bool { return v == w.v }) {
				w.bad = x
			}

			return
		case *ssa.If:
			for i, to := range b.Succs {
				if m, ok := w.assume(x.Cond, i == 0, now); ok {
					w.walk(b, to, m, seen)
				}
			}

			return
		}
	}

	for _, s := range b.Succs {
		w.walk(b, s, now, seen)
	}
}

// spilled is what a result that is kept in memory until the deferred calls have run holds.
func spilled(v ssa.Value, ret *ssa.Return) ssa.Value {
	ld, ok := v.(*ssa.UnOp)
	if !ok || ld.Op != token.MUL {
		return v
	}

	at := ssa.Instruction(ret)
	if ld.Block() == ret.Block() {
		at = ld
	}

	a, ok := ld.X.(*ssa.Alloc)
	if !ok {
		return v
	}

	ins := at.Block().Instrs
	for i := indexIn(at) - 1; i >= 0; i-- {
		if st, ok := ins[i].(*ssa.Store); ok && st.Addr == a {
			return st.Val
		}
	}

	return v
}

// knownError: an error variable of a package.
func knownError(v ssa.Value) bool {
	ld, ok := v.(*ssa.UnOp)
	if !ok || ld.Op != token.MUL {
		return false
	}

	_, ok = ld.X.(*ssa.Global)

	return ok
}

func nilness(v ssa.Value, nils map[ssa.Value]bool) (isNil, known bool) {
	if isNil, known = nils[v]; known {
		return
	}

	switch x := v.(type) {
	case *ssa.Const:
		return x.IsNil(), true
	case *ssa.MakeInterface:
		return false, true
	case *ssa.Call:
		if constructor(calleeName(&x.Call)) {
			return false, true
		}
	}

	return false, false
}

// recognised: the error is one the code expects (errors.Is, errors.As, a predicate of it, a comparison with a known error).
func (w *errWalk) recognised(cond ssa.Value) bool {
	switch x := cond.(type) {
	case *ssa.Call:
		for _, a := range x.Call.Args {
			if a == w.v {
				return true
			}
		}
	case *ssa.BinOp:
		return x.Op == token.EQL && (x.X == w.v && !isNilConst(x.Y) || x.Y == w.v && !isNilConst(x.X))
	}

	return false
}

// outcomes are the results that a predicate of this module, called with the error, can have for an error that it
// does not recognise.
func (w *errWalk) outcomes(cond ssa.Value, now map[ssa.Value]bool) (can map[bool]bool, known bool) {
	call, ok := cond.(*ssa.Call)
	if !ok || call.Call.IsInvoke() || len(w.preds) > 3 {
		return nil, false
	}

	f := call.Call.StaticCallee()
	if f == nil || !inModule(f) || len(f.Blocks) == 0 || len(f.Params) != len(call.Call.Args) {
		return nil, false
	}

	for _, p := range w.preds {
		if p == f {
			return nil, false
		}
	}

	sub := &errWalk{c: w.c, fn: f, name: w.name, preds: append(append([]*ssa.Function(nil), w.preds...), f), again: w.again}
	m := map[ssa.Value]bool{}

	for i, a := range call.Call.Args {
		if a == w.v {
			sub.v = f.Params[i]
		}

		if isBool(a.Type()) {
			if v, known := w.truth(a, now); known {
				m[f.Params[i]] = v
			}
		} else if isNil, known := nilness(a, now); known {
			m[f.Params[i]] = isNil
		}
	}

	if sub.v == nil {
		return nil, false
	}

	can = map[bool]bool{}

	sub.returned = func(r *ssa.Return, now map[ssa.Value]bool) {
		for _, v := range []bool{true, false} {
			if _, ok := sub.assume(r.Results[0], v, now); ok {
				can[v] = true
			}
		}
	}

	sub.block(f.Blocks[0], 0, m, map[[2]*ssa.BasicBlock]bool{})

	return can, true
}

// delivered: the error goes somewhere else than the log or the text of another error.
func (w *errWalk) delivered(in ssa.Instruction) bool {
	uses := false
	for _, op := range in.Operands(nil) {
		uses = uses || *op == w.v
	}

	if !uses {
		return false
	}

	switch x := in.(type) {
	case *ssa.Send, *ssa.MapUpdate:
		return true
	case *ssa.Store:
		if ix, ok := x.Addr.(*ssa.IndexAddr); ok {
			if a, ok := ix.X.(*ssa.Alloc); ok {
				return !onlyPrinted(a)
			}
		}

		return true
	case ssa.CallInstruction:
		return !printer(calleeName(x.Common())) && !boolResult(x.Common())
	}

	return false
}

func boolResult(c *ssa.CallCommon) bool {
	r := c.Signature().Results()
	return r.Len() == 1 && types.Identical(r.At(0).Type(), types.Typ[types.Bool])
}

func printer(name string) bool {
	return nameMatch(name, `~^fmt\.|^log\.|log/|slog|\.Error$|^errors\.`)
}

// onlyPrinted: a is the argument list of formatting calls.
func onlyPrinted(a *ssa.Alloc) bool {
	for _, r := range *a.Referrers() {
		if sl, ok := r.(*ssa.Slice); ok {
			for _, u := range *sl.Referrers() {
				if ci, ok := u.(ssa.CallInstruction); ok && !printer(calleeName(ci.Common())) {
					return false
				}
			}
		}
	}

	return true
}

var _ = fmt.Sprint

func valueOf(in ssa.Instruction) ssa.Value {
	v, _ := in.(ssa.Value)
	return v
}
