package main

import (
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C43", "natural-loop analysis of every function: a loop that collects something from the elements of a list or object ends with the last element, or to fail, or in a way that can be told apart; lists are gone through from their first element to their last", c43)
}

func c43(c *Ctx) {
	c.Funcs = map[string]bool{}

	var fs []*ssa.Function

	for _, f := range c.P.Funcs {
		if f.Synthetic == "" && f.Blocks != nil && !isTestSupport(fnPkgPath(f)) && !strings.Contains(fnPkgPath(f), "/legacy/test") {
			fs = append(fs, f)
		}
	}

	sort.Slice(fs, func(i, j int) bool { return fs[i].String() < fs[j].String() })

	e := NewExec(c.P, &Config{})
	loops, collecting, parts := 0, 0, 0

	for _, f := range fs {
		c.Funcs[f.String()] = true
		li := e.loopsOf(f)

		for _, h := range f.Blocks {
			l := li.loopOf[h]
			if l == nil {
				continue
			}

			loops++

			c.startsFirst(f, l)
			c.endsLast(f, l)

			got := collectedIn(l)
			if len(got) == 0 || !isCounted(l) {
				continue
			}

			collecting++

			bad := earlyEnd(f, l, got)
			pos := c.P.pos(f.Pos())

			if bad != nil {
				pos = c.P.pos(posNear(bad))
			}

			c.oblige(bad == nil, shortName(f)+"|early", "a loop that collects from each element in "+shortName(f)+" is left before the last one, with what was collected so far", pos, nil)
		}

		parts += c.partOfList(f)
	}

	once := c.onceOnly()

	c.count("loops", loops)
	c.count("collecting loops", collecting)
	c.count("parts of lists", parts)
	c.count("loop statements", once)
	c.oblige(collecting >= 60, "coverage", "hardly any loop that collects was found: the rule would be vacuous", modPath, nil)
}

func posNear(b *ssa.BasicBlock) token.Pos {
	for _, in := range b.Instrs {
		if in.Pos().IsValid() {
			return in.Pos()
		}
	}

	return b.Parent().Pos()
}

// isCounted: the loop's own condition is about an index or an iterator: it goes through something.
func isCounted(l *loop) bool { return len(conditions(l)) > 0 }

// conditions are the blocks in which the loop's own condition is decided.
func conditions(l *loop) map[*ssa.BasicBlock]bool {
	out := map[*ssa.BasicBlock]bool{}

	for b := range l.body {
		br, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok || l.body[b.Succs[0]] && l.body[b.Succs[1]] {
			continue
		}

		if x, ok := br.Cond.(*ssa.Extract); ok {
			if _, ok := x.Tuple.(*ssa.Next); ok {
				out[b] = true
			}
		}

		if x, ok := br.Cond.(*ssa.BinOp); ok && (x.Op == token.LSS || x.Op == token.LEQ || x.Op == token.GTR || x.Op == token.GEQ || x.Op == token.NEQ) {
			if carried(x.X, l) || carried(x.Y, l) {
				out[b] = true
			}
		}
	}

	return out
}

// carried: an index kept from round to round, or one more than it.
func carried(v ssa.Value, l *loop) bool {
	if b, ok := v.(*ssa.BinOp); ok && (b.Op == token.ADD || b.Op == token.SUB) {
		v = b.X
	}

	p, ok := v.(*ssa.Phi)
	if !ok || !l.body[p.Block()] || !isInteger(p.Type()) {
		return false
	}

	for _, ed := range p.Edges {
		if b, ok := ed.(*ssa.BinOp); ok && b.X == p && l.body[b.Block()] {
			return true
		}
	}

	return false
}

// collectedIn: the values that grow with the rounds of the loop: lists appended to, maps and lists written, content that is
// made into other content.
func collectedIn(l *loop) map[ssa.Value]bool {
	out := map[ssa.Value]bool{}
	outside := func(v ssa.Value) bool {
		d, ok := v.(ssa.Instruction)
		return !ok || !l.body[d.Block()]
	}

	for b := range l.body {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.MapUpdate:
				if base := mapHolder(x.Map); outside(base) {
					out[base] = true
				}
			case *ssa.Store:
				if to, ok := x.Addr.(*ssa.IndexAddr); ok && outside(to.X) {
					out[to.X] = true
				}
			case *ssa.Call:
				if n := calleeName(&x.Call); nameMatch(n, "~^\\(\\*(strings\\.Builder|bytes\\.Buffer)\\)\\.Write") && outside(x.Call.Args[0]) {
					out[x.Call.Args[0]] = true
				}
			case *ssa.Phi:
				if b == l.head && isContent(x.Type()) && growsIn(x, l) {
					out[x] = true
				}
			}
		}
	}

	// and what they become
	for again := true; again; {
		again = false

		for b := range l.body {
			for _, in := range b.Instrs {
				v, ok := in.(ssa.Value)
				if !ok || out[v] || !isContent(v.Type()) {
					continue
				}

				_, phi := v.(*ssa.Phi)
				call, _ := v.(*ssa.Call)
				ops := in.Operands(nil)

				if x, ok := v.(*ssa.Extract); ok {
					if call, _ = x.Tuple.(*ssa.Call); call != nil {
						ops = call.Operands(nil)
					}
				}

				for _, op := range ops {

					if out[*op] && (phi || call != nil && types.Identical((*op).Type(), v.Type()) && isList(v.Type())) {
						out[v], again = true, true
					}
				}
			}
		}
	}

	return out
}

// mapHolder: what holds the map, if a member of something does.
func mapHolder(m ssa.Value) ssa.Value {
	if u, ok := m.(*ssa.UnOp); ok && u.Op == token.MUL {
		if fa, ok := u.X.(*ssa.FieldAddr); ok {
			return fa.X
		}
	}

	return m
}

func isList(t types.Type) bool {
	_, ok := t.Underlying().(*types.Slice)
	return ok
}

func isContent(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Slice, *types.Map:
		return true
	}

	return false
}

// grows: the next round's value is made from this one's.
func growsIn(p *ssa.Phi, l *loop) bool {
	for i, ed := range p.Edges {
		if !l.body[p.Block().Preds[i]] || ed == ssa.Value(p) {
			continue
		}

		if dependsOn(ed, func(v ssa.Value) bool { return v == ssa.Value(p) }) {
			return true
		}
	}

	return false
}

// earlyEnd: a block that leaves the loop otherwise than by its condition, to where what was collected is used as if complete.
func earlyEnd(f *ssa.Function, l *loop, got map[ssa.Value]bool) *ssa.BasicBlock {
	conds := conditions(l)

	for _, b := range f.Blocks {
		if !l.body[b] || conds[b] {
			continue
		}

		for _, s := range b.Succs {
			if l.body[s] || onlyFails(s) || toldApart(b, s, l) || stopsOnState(b, l) || !usedFrom(b, s, l, got) {
				continue
			}

			return b
		}
	}

	return nil
}

// onlyFails: nothing but errors is returned from here on.
func onlyFails(b *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}

	var walk func(b *ssa.BasicBlock) bool

	walk = func(b *ssa.BasicBlock) bool {
		if seen[b] {
			return true
		}

		seen[b] = true

		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			if len(r.Results) == 0 {
				return false
			}

			last := r.Results[len(r.Results)-1]
			if k, ok := last.(*ssa.Const); ok {
				return isBool(last.Type()) && k.Value != nil && !constant.BoolVal(k.Value)
			}

			if u, ok := last.(*ssa.UnOp); ok {
				if a, ok := u.X.(*ssa.Alloc); ok { // the result of a function that defers: what was last stored
					for _, in := range b.Instrs {
						if st, ok := in.(*ssa.Store); ok && st.Addr == a {
							_, none := st.Val.(*ssa.Const)
							return !none && isErrorType(st.Val.Type())
						}
					}

					return false
				}
			}

			return isErrorType(last.Type()) && !passedOn(r)
		}

		for _, s := range b.Succs {
			if !walk(s) {
				return false
			}
		}

		return true
	}

	return walk(b)
}

// passedOn: what another function returned is returned as it is, whether it failed or not.
func passedOn(r *ssa.Return) bool {
	switch x := r.Results[len(r.Results)-1].(type) {
	case *ssa.Extract:
		if len(r.Results) < 2 {
			return false
		}

		first, ok := r.Results[0].(*ssa.Extract)

		return ok && first.Tuple == x.Tuple
	case *ssa.Call:
		n := calleeName(&x.Call)

		return x.Block() == r.Block() && x.Call.StaticCallee() != nil && !strings.HasPrefix(n, "fmt.") && !strings.HasPrefix(n, "errors.") &&
			strings.HasPrefix(fnPkgPath(x.Call.StaticCallee()), modPath)
	}

	return false
}

// toldApart: where the ways out meet, a truth value or an error says which was taken.
func toldApart(b, s *ssa.BasicBlock, l *loop) bool {
	// the block left from may lead through others to the place the ways meet
	seen := map[*ssa.BasicBlock]bool{}

	for from, at := b, s; at != nil && !seen[at]; {
		seen[at] = true

		for _, in := range at.Instrs {
			p, ok := in.(*ssa.Phi)
			if !ok {
				break
			}

			if !isBool(p.Type()) && !isErrorType(p.Type()) {
				continue
			}

			mine, other := ssa.Value(nil), false

			for i, pred := range at.Preds {
				if pred == from {
					mine = p.Edges[i]
				}
			}

			for i, pred := range at.Preds {
				if pred != from && l.head.Dominates(pred) && !sameEdge(p.Edges[i], mine) {
					other = true
				}
			}

			if other && looked(p, map[ssa.Value]bool{}) {
				return true
			}
		}

		if len(at.Succs) != 1 {
			return false
		}

		from, at = at, at.Succs[0]
	}

	return false
}

// looked: something is decided by the value, or it is returned or given away.
func looked(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return false
	}

	seen[v] = true

	for _, r := range *v.Referrers() {
		if p, ok := r.(*ssa.Phi); !ok || looked(p, seen) {
			return true
		}
	}

	return false
}

func sameEdge(a, b ssa.Value) bool {
	x, ok := a.(*ssa.Const)
	y, ok2 := b.(*ssa.Const)

	if ok && ok2 {
		return x.Value == y.Value || x.Value != nil && y.Value != nil && constant.Compare(x.Value, token.EQL, y.Value)
	}

	return a == b
}

// stopsOnState: the loop is left because of a truth value or an error it carries from round to round (for …; ok && …).
func stopsOnState(b *ssa.BasicBlock, l *loop) bool {
	br, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}

	state := func(v ssa.Value) bool {
		p, ok := v.(*ssa.Phi)
		return ok && p.Block() == l.head && (isBool(p.Type()) || isErrorType(p.Type()))
	}

	if u, ok := br.Cond.(*ssa.UnOp); ok {
		return state(u.X)
	}

	if x, ok := br.Cond.(*ssa.BinOp); ok {
		return state(x.X) || state(x.Y)
	}

	return state(br.Cond)
}

// usedFrom: after this way out, what was collected is used, and what was not gone through is not.
func usedFrom(b, s *ssa.BasicBlock, l *loop, got map[ssa.Value]bool) bool {
	seen := map[*ssa.BasicBlock]bool{}
	used, rest := false, false

	for v := range got { // what its caller gave it, or holds
		switch v.(type) {
		case *ssa.Parameter, *ssa.FreeVar, *ssa.UnOp, *ssa.FieldAddr:
			used = true
		}
	}

	var walk func(from, at *ssa.BasicBlock)

	walk = func(from, at *ssa.BasicBlock) {
		for i, pred := range at.Preds {
			if pred != from {
				continue
			}

			for _, in := range at.Instrs {
				if p, ok := in.(*ssa.Phi); ok && got[p.Edges[i]] && !l.body[at] {
					used = true
				}
			}
		}

		if seen[at] || l.body[at] {
			return
		}

		seen[at] = true

		for _, in := range at.Instrs {
			if _, ok := in.(*ssa.Phi); ok {
				continue
			}

			for _, op := range in.Operands(nil) {
				if got[*op] {
					used = true
				}
			}

			if sl, ok := in.(*ssa.Slice); ok && sl.Low != nil && dependsOn(sl.Low, func(v ssa.Value) bool {
				p, ok := v.(*ssa.Phi)
				return ok && p.Block() == l.head
			}) {
				rest = true
			}
		}

		for _, n := range at.Succs {
			walk(at, n)
		}
	}

	walk(b, s)

	return used && !rest
}

// startsFirst: what counts through a list begins with its first element, unless that is looked at by itself.
func (c *Ctx) startsFirst(f *ssa.Function, l *loop) {
	for _, in := range l.head.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			return
		}

		if !isInteger(p.Type()) || !carried(p, l) {
			continue
		}

		for i, ed := range p.Edges {
			k, ok := ed.(*ssa.Const)
			if !ok || l.body[l.head.Preds[i]] || k.Value == nil {
				continue
			}

			n, _ := constant.Int64Val(k.Value)
			if n < 1 {
				continue
			}

			for b := range l.body {
				for _, in := range b.Instrs {
					if ia, ok := in.(*ssa.IndexAddr); ok && ia.Index == ssa.Value(p) && isList(ia.X.Type()) && !isByteList(ia.X.Type()) {
						c.oblige(c.readsFrom(f, ia.X, n, false), shortName(f)+"|start", "elements of a list are skipped at its start", c.P.pos(ia.Pos()), nil)
					}
				}
			}
		}
	}
}

// endsLast: what counts through a list goes on to its last element, unless the ones left are looked at by themselves. (The
// pieces of a text are another matter: their last one is often the name, the others the path to it.)
func (c *Ctx) endsLast(f *ssa.Function, l *loop) {
	for b := range conditions(l) {
		x, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If).Cond.(*ssa.BinOp)
		if !ok {
			continue
		}

		for _, side := range []ssa.Value{x.X, x.Y} {
			k := fromEnd(side)
			if k < 1 || x.Op == token.LEQ && k == 1 || x.Op == token.GEQ {
				continue
			}

			list := side.(*ssa.BinOp).X.(*ssa.Call).Call.Args[0]
			if !isList(list.Type()) || isByteList(list.Type()) || c.pieces(list, 4) {
				continue
			}

			// neighbours are compared: the last one is looked at as the one after
			next := false

			for b := range l.body {
				for _, in := range b.Instrs {
					if ia, ok := in.(*ssa.IndexAddr); ok && sameList(ia.X, list) {
						if bo, ok := ia.Index.(*ssa.BinOp); ok && bo.Op == token.ADD {
							next = true
						}
					}
				}
			}

			c.oblige(next || c.readsFrom(f, list, k, true), shortName(f)+"|end", "elements of a list are left out at its end", c.P.pos(posNear(b)), nil)
		}
	}
}

// pieces: the list is a text split up, here or by a caller.
func (c *Ctx) pieces(list ssa.Value, depth int) bool {
	return depth > 0 && dependsOn(list, func(v ssa.Value) bool {
		switch x := v.(type) {
		case *ssa.Call:
			return nameMatch(calleeName(&x.Call), "~^strings\\.(Split|Fields)")
		case *ssa.FreeVar: // not known from here
			return true
		case *ssa.Parameter:
			for _, call := range c.P.callersOf(x.Parent()) {
				for i, p := range x.Parent().Params {
					if p == x && i < len(call.Common().Args) && c.pieces(call.Common().Args[i], depth-1) {
						return true
					}
				}
			}
		}

		return false
	})
}

func isByteList(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}

	b, ok := s.Elem().Underlying().(*types.Basic)

	return ok && b.Info()&types.IsInteger != 0
}

// readsFrom: the elements before the n-th (or the last n) are looked at one by one, here or where the list comes from or is
// given to.
func (c *Ctx) readsFrom(f *ssa.Function, list ssa.Value, n int64, end bool) bool {
	read := map[int64]bool{}

	type at struct {
		f *ssa.Function
		v ssa.Value
	}

	seen := map[at]bool{}

	var look func(f *ssa.Function, list ssa.Value, depth int)

	look = func(f *ssa.Function, list ssa.Value, depth int) {
		if depth == 0 || seen[at{f, list}] {
			return
		}

		seen[at{f, list}] = true

		if p, ok := list.(*ssa.Parameter); ok {
			for _, call := range c.P.callersOf(p.Parent()) {
				for i, q := range p.Parent().Params {
					if q == p && i < len(call.Common().Args) {
						look(call.Parent(), call.Common().Args[i], depth-1)
					}
				}
			}
		}

		for _, g := range withAnons(f) {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					switch x := in.(type) {
					case *ssa.IndexAddr:
						if !sameList(x.X, list) {
							continue
						}

						if k, ok := x.Index.(*ssa.Const); ok && !end {
							read[k.Int64()] = true
						}

						if k := fromEnd(x.Index); k > 0 && end {
							read[k-1] = true
						}
					case *ssa.Call:
						callee := x.Call.StaticCallee()
						if callee == nil || callee.Blocks == nil {
							continue
						}

						for i, a := range x.Call.Args {
							if sameList(a, list) && i < len(callee.Params) {
								look(callee, callee.Params[i], depth-1)
							}
						}
					}
				}
			}
		}
	}

	look(f, list, 4)

	for i := int64(0); i < n; i++ {
		if !read[i] {
			return false
		}
	}

	return true
}

func sameList(a, b ssa.Value) bool {
	if a == b {
		return true
	}

	x, ok := a.(*ssa.UnOp)
	y, ok2 := b.(*ssa.UnOp)

	if !ok || !ok2 {
		return false
	}

	if x.X == y.X {
		return true
	}

	fx, ok := x.X.(*ssa.FieldAddr)
	fy, ok2 := y.X.(*ssa.FieldAddr)

	return ok && ok2 && fx.Field == fy.Field && types.Identical(fx.X.Type(), fy.X.Type())
}

// partOfList: where a part of a list (not of bytes or text) is taken, the elements left out at its start are looked at by
// themselves or were gone through before, and none is left out at its end.
func (c *Ctx) partOfList(f *ssa.Function) (parts int) {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			sl, ok := in.(*ssa.Slice)
			if !ok || !isList(sl.X.Type()) || isByteList(sl.X.Type()) {
				continue
			}

			if sl.Low != nil {
				ok := dependsOn(sl.Low, func(v ssa.Value) bool {
					p, ok := v.(*ssa.Phi)
					return ok && isInteger(p.Type())
				})

				if k, isConst := sl.Low.(*ssa.Const); isConst {
					n, _ := constant.Int64Val(k.Value)
					ok = c.readsFrom(f, sl.X, n, false)
				}

				parts++

				c.oblige(ok, shortName(f)+"|rest", "a list is taken without its first elements, which are not looked at", c.P.pos(sl.Pos()), nil)
			}

			if k, isConst := sl.High.(*ssa.Const); sl.High != nil && !(isConst && k.Int64() == 0) {
				ok := dependsOn(sl.High, func(v ssa.Value) bool {
					p, ok := v.(*ssa.Phi)
					return ok && isInteger(p.Type())
				})

				if k := fromEnd(sl.High); k > 0 {
					ok = c.readsFrom(f, sl.X, k, true)
				}

				parts++

				c.oblige(ok, shortName(f)+"|cut", "a list is taken without its last elements, which are not looked at", c.P.pos(sl.Pos()), nil)
			}
		}
	}

	return parts
}

// fromEnd: k where the value is the length of a list less k, or 0.
func fromEnd(v ssa.Value) int64 {
	x, ok := v.(*ssa.BinOp)
	if !ok || x.Op != token.SUB {
		return 0
	}

	k, ok := x.Y.(*ssa.Const)
	call, ok2 := x.X.(*ssa.Call)

	if !ok || !ok2 || k.Value == nil {
		return 0
	}

	if b, ok := call.Call.Value.(*ssa.Builtin); !ok || b.Name() != "len" {
		return 0
	}

	return k.Int64()
}

// onceOnly: no loop over a list whose body, whatever the element, ends the loop.
func (c *Ctx) onceOnly() (n int) {
	for _, pkg := range c.P.Pkgs {
		if isTestSupport(pkg.PkgPath) || strings.Contains(pkg.PkgPath, "/legacy/test") {
			continue
		}

		for _, file := range pkg.Syntax {
			ast.Inspect(file, func(nd ast.Node) bool {
				r, ok := nd.(*ast.RangeStmt)
				if !ok || len(r.Body.List) == 0 {
					return true
				}

				n++

				over := pkg.TypesInfo.TypeOf(r.X)
				if over == nil || !isList(over) {
					return true
				}

				ends := false

				switch x := r.Body.List[len(r.Body.List)-1].(type) {
				case *ast.ReturnStmt:
					ends = true
				case *ast.BranchStmt:
					ends = x.Tok == token.BREAK
				}

				again := false

				ast.Inspect(r.Body, func(nd ast.Node) bool {
					if x, ok := nd.(*ast.BranchStmt); ok && (x.Tok == token.CONTINUE || x.Tok == token.GOTO) {
						again = true
					}

					return !again
				})

				if ends {
					c.oblige(again, "once|"+pkg.PkgPath, "a loop over a list ends with its first element, whatever that is", c.P.pos(r.Pos()), nil)
				}

				return true
			})
		}
	}

	return n
}
