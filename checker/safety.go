package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// safety decides, for every instruction reached from an entry point with untrusted data, whether it can panic:
// type assertions, indexing and slicing, writes to maps, uses of pointers and interfaces, explicit panics.
type safety struct {
	c       *Ctx
	name    string
	sites   map[string]bool // distinct checked sites
	checked map[ssa.Instruction]bool
	data    []string // struct types whose pointer and map fields may be nil
	skipPkg func(pkg string) bool
}

func (sf *safety) report(e *Exec, fr *Frame, s *State, in ssa.Instruction, kind, what string) {
	key := fmt.Sprintf("%s|%s|%s", shortName(fr.fn), kind, what)
	var up []string
	for f := fr; f != nil; f = f.up {
		up = append(up, "in "+shortName(f.fn)+" called at "+func() string {
			if f.call == nil {
				return "entry"
			}

			return e.P.pos(f.call.Pos())
		}())
	}

	sf.c.fail(key, "can panic: "+kind+" of "+what, shortName(fr.fn)+" at "+e.P.pos(in.Pos()), append(e.traceString(s, 40), up...))
}

func (sf *safety) ok(in ssa.Instruction) {
	if !sf.checked[in] {
		sf.checked[in] = true
	}
}

func (sf *safety) hook(e *Exec, fr *Frame, s *State, in ssa.Instruction) {
	if sf.skipPkg != nil && sf.skipPkg(fnPkgPath(fr.fn)) {
		return
	}

	switch x := in.(type) {
	case *ssa.TypeAssert:
		if x.CommaOk {
			return
		}

		sf.ok(in)

		v := e.val(fr, s, x.X)
		if t := concreteType(v); t != nil && types.Identical(t, x.AssertedType) {
			return
		}

		iface := 0
		if _, ok := x.AssertedType.Underlying().(*types.Interface); ok {
			iface = 1
		}

		is := e.in.mk(Term{Op: "istype", Name: typeName(x.AssertedType), Num: iface, Args: []*Term{v}, Typ: types.Typ[types.Bool]})
		if e.eval(s, is) == yes {
			return
		}

		if v.Typ != nil && types.Identical(v.Typ, x.AssertedType) || types.Identical(x.X.Type(), x.AssertedType) && !sf.nilAlternative(e, s, v) {
			return
		}

		if !untrusted(v) {
			return
		}

		sf.report(e, fr, s, in, "unchecked type assertion", srcExpr(x.X)+" to "+short(typeName(x.AssertedType)))
	case *ssa.IndexAddr:
		sf.index(e, fr, s, in, x.X, x.Index)
	case *ssa.Index:
		sf.index(e, fr, s, in, x.X, x.Index)
	case *ssa.Lookup:
		if isString(x.X.Type()) {
			sf.index(e, fr, s, in, x.X, x.Index)
		}
	case *ssa.Slice:
		sf.slice(e, fr, s, in, x)
	case *ssa.MapUpdate:
		sf.ok(in)

		if m := e.val(fr, s, x.Map); sf.maybeNil(e, s, m) {
			sf.report(e, fr, s, in, "write to possibly nil map", srcExpr(x.Map))
		}
	case *ssa.FieldAddr:
		sf.ok(in)

		if p := e.val(fr, s, x.X); sf.maybeNil(e, s, p) && !soughtMember(s, x.X) {
			sf.report(e, fr, s, in, "use of possibly nil pointer", srcExpr(x.X))
		}
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return
		}

		switch x.X.(type) {
		case *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Alloc, *ssa.Global, *ssa.FreeVar:
			return
		}

		sf.ok(in)

		if p := e.val(fr, s, x.X); sf.maybeNil(e, s, p) {
			sf.report(e, fr, s, in, "use of possibly nil pointer", srcExpr(x.X))
		}
	case *ssa.Panic:
		sf.ok(in)
		sf.report(e, fr, s, in, "explicit panic", srcExpr(x.X))
	case ssa.CallInstruction:
		c := x.Common()

		if c.IsInvoke() {
			sf.ok(in)

			r := e.val(fr, s, c.Value)
			if r.Op == "call" && r.Name == "reflect.TypeOf" {
				if e.isNil(s, r.Args[0]) != no && untrusted(r.Args[0]) {
					sf.report(e, fr, s, in, "reflection on possibly nil value", srcExpr(c.Value))
				}
			} else if sf.nilAlternative(e, s, r) {
				sf.report(e, fr, s, in, "method call on possibly nil interface", srcExpr(c.Value))
			}

			return
		}

		switch calleeName(c) {
		case "crypto/ed25519.Verify":
			sf.ok(in)

			k := e.val(fr, s, c.Args[0])
			if e.eval(s, e.bin(token.EQL, e.lenOf(k), e.intT(32), types.Typ[types.Bool])) != yes {
				sf.report(e, fr, s, in, "verification with a key of unchecked length", srcExpr(c.Args[0]))
			}
		case "(reflect.Value).IsNil", "regexp.MustCompile":
		}
	}
}

// untrusted: the value derives from data (not from constants or configuration only).
func untrusted(t *Term) bool {
	return !isConst(t)
}

func (sf *safety) nilAlternative(e *Exec, s *State, t *Term) bool {
	if e.isNil(s, t) == no {
		return false
	}

	for _, a := range alts(t) {
		if a.Op == "nil" {
			return true
		}
	}

	return false
}

// maybeNil: the analysis knows a way in which the pointer or map is nil here.
func (sf *safety) maybeNil(e *Exec, s *State, t *Term) bool {
	switch e.isNil(s, t) {
	case yes:
		return true
	case no:
		return false
	}

	// a nil map has no entries
	for f, v := range s.facts {
		if v && (f.Op == "has" && f.Args[0] == t || f.Op == "istype" && f.Args[0].Op == "mapget" && f.Args[0].Args[0] == t) {
			return false
		}
	}

	switch t.Op {
	case "choice":
		for _, a := range t.Args {
			if sf.maybeNil(e, s, a) {
				return true
			}
		}

		return false
	case "assert":
		is := e.in.mk(Term{Op: "istype", Name: t.Name, Args: t.Args, Typ: types.Typ[types.Bool]})
		if e.eval(s, is) == yes {
			// a typed value out of decoded data is not a nil pointer
			return false
		}

		iface := e.in.mk(Term{Op: "istype", Name: t.Name, Num: 1, Args: t.Args, Typ: types.Typ[types.Bool]})

		return e.eval(s, iface) != yes
	case "mapget":
		if !nilableKind(t.Typ) {
			return false
		}

		if t.Args[1].Op == "key" {
			return sf.decoded(t.Args[0])
		}

		if sf.decoded(t.Args[0]) {
			return true
		}

		// a name looked up in a collection the library filled itself is taken to be there; a fixed one is not
		if _, isC := constStr(t.Args[1]); !isC {
			return false
		}

		has := e.in.mk(Term{Op: "has", Args: t.Args, Typ: types.Typ[types.Bool]})

		return e.eval(s, has) != yes
	case "field":
		if !nilableKind(t.Typ) {
			return false
		}

		return sf.decoded(t.Args[0]) || sf.dataField(t)
	case "elem":
		return nilableKind(t.Typ) && sf.decoded(t.Args[0])
	case "mut":
		return nilableKind(t.Typ) && decodes(t) && !Has(func(x *Term) bool { return x.Op == "call" && strings.HasSuffix(x.Name, ".JSONBytes") })(t)
	case "res":
		c := t.Args[0]
		if c.Op != "call" || !nilableKind(t.Typ) {
			return false
		}

		// used although the call's error was not found to be nil
		if tt, ok := c.Typ.(*types.Tuple); ok && !strings.Contains(c.Name, modPath) {
			last := tt.At(tt.Len() - 1).Type()
			if isErrorType(last) {
				er := e.in.mk(Term{Op: "res", Num: tt.Len(), Args: []*Term{c}, Typ: last})
				return e.isNil(s, er) != yes
			}
		}

		return false
	case "loopvar":
		return len(t.Args) == 1 && t.Args[0] != nil && t.Args[0].Op == "nil"
	}

	return false
}

// soughtMember: the result of a function of the library, under a membership test that was passed before: a search for
// what is known to be there.
func soughtMember(s *State, v ssa.Value) bool {
	call, ok := v.(*ssa.Call)
	if !ok || call.Call.StaticCallee() == nil || !inModulePath(fnPkgPath(call.Call.StaticCallee())) {
		return false
	}

	for f, v := range s.facts {
		if _, isC := constStr(orNil(argAt(f, 1))); v && (f.Op == "has" || f.Op == "mapget") && !isC {
			return true
		}
	}

	return false
}

func argAt(t *Term, i int) *Term {
	if i < len(t.Args) {
		return t.Args[i]
	}

	return nil
}

func nilableKind(t types.Type) bool {
	if t == nil {
		return false
	}

	switch t.Underlying().(type) {
	case *types.Pointer, *types.Map:
		return true
	}

	return false
}

func decodes(t *Term) bool {
	if t.Op != "mut" || t.Args[0].Op != "call" {
		return false
	}

	n := t.Args[0].Name

	return strings.Contains(n, "Unmarshal") || strings.Contains(n, "Decode")
}

// decoded: the value was filled in by a decoder.
func (sf *safety) decoded(t *Term) bool {
	for i := 0; i < 12; i++ {
		if decodes(t) {
			return true
		}

		switch t.Op {
		case "field", "elem", "mapget", "slice", "ref":
			t = t.Args[0]
		default:
			return false
		}
	}

	return false
}

func (sf *safety) dataField(t *Term) bool {
	n := t.Args[0].Typ
	if n == nil {
		return false
	}

	if p, ok := n.Underlying().(*types.Pointer); ok {
		n = p.Elem()
	}

	// an optional member of a document
	if st, ok := n.Underlying().(*types.Struct); ok && strings.HasPrefix(typeName(n), modPath) {
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == t.Name && strings.Contains(st.Tag(i), ",omitempty") {
				return true
			}
		}
	}

	for _, d := range sf.data {
		if strings.HasSuffix(typeName(n), "/"+d) {
			return true
		}
	}

	return false
}

func (sf *safety) index(e *Exec, fr *Frame, s *State, in ssa.Instruction, xv, iv ssa.Value) {
	var arr *types.Array

	switch u := xv.Type().Underlying().(type) {
	case *types.Pointer: // pointer to array
		arr, _ = u.Elem().Underlying().(*types.Array)
	case *types.Array:
		arr = u
	}

	if _, isC := iv.(*ssa.Const); isC && arr != nil { // the compiler checks it
		return
	}

	sf.ok(in)

	b, i := e.val(fr, s, xv), e.val(fr, s, iv)
	n := e.lenOf(b)

	if arr != nil {
		n = e.intT(arr.Len())
	}

	if e.below(s, i, n, b) && e.nonNegative(s, i) || e.counts(fr, s, iv, n) || e.guarded(fr, s, in, iv, n) || inLoop(in, iv) && e.keepsUp(fr, s, iv, n) || e.countsDown(fr, s, iv, n) && e.nonNegative(s, i) || e.wellFormed(s, i, b) {
		return
	}

	sf.report(e, fr, s, in, "unchecked index", srcExpr(xv)+"["+srcExpr(iv)+"]")
}

// counts: the index counts up from a constant and every way into an iteration compared it with the length.
func (e *Exec) counts(fr *Frame, s *State, iv ssa.Value, n *Term) bool {
	phi, ok := iv.(*ssa.Phi)
	if !ok {
		return false
	}

	for i, edge := range phi.Edges {
		switch x := edge.(type) {
		case *ssa.Const:
			if c, ok := constInt(e.val(fr, s, x)); !ok || c < 0 {
				return false
			}
		case *ssa.BinOp:
			if x.Op != token.ADD || x.X != phi {
				return false
			}

			if c, ok := constInt(e.val(fr, s, x.Y)); !ok || c < 0 {
				return false
			}
		default:
			return false
		}

		pred := phi.Block().Preds[i]

		br, ok := pred.Instrs[len(pred.Instrs)-1].(*ssa.If)
		if !ok || pred.Succs[0] != phi.Block() {
			return false
		}

		cond, ok := br.Cond.(*ssa.BinOp)
		if !ok || cond.Op != token.LSS || !sameValue(cond.X, edge) || !e.within(e.val(fr, s, cond.Y), n) {
			return false
		}
	}

	return true
}

// guarded: a counter was compared with the length on the only way here.
func (e *Exec) guarded(fr *Frame, s *State, in ssa.Instruction, iv ssa.Value, n *Term) bool {
	base := iv

	least := int64(0)
	if b, ok := iv.(*ssa.BinOp); ok && b.Op == token.ADD {
		if c, ok := constInt(e.val(fr, s, b.Y)); ok && c >= 0 {
			base, least = b.X, -c
		}
	}

	phi, ok := base.(*ssa.Phi)
	if !ok {
		return false
	}

	for _, edge := range phi.Edges {
		switch x := edge.(type) {
		case *ssa.Const:
			if c, ok := constInt(e.val(fr, s, x)); !ok || c < least {
				return false
			}
		case *ssa.BinOp:
			if c, ok := constInt(e.val(fr, s, x.Y)); !ok || c < 0 || x.Op != token.ADD || x.X != phi {
				return false
			}
		default:
			return false
		}
	}

	for d := in.Block(); d.Idom() != nil; d = d.Idom() {
		p := d.Idom()

		br, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
		if !ok || p.Succs[0] != d || len(d.Preds) != 1 {
			continue
		}

		cond, ok := br.Cond.(*ssa.BinOp)
		if ok && cond.Op == token.LSS && cond.X == iv && e.within(e.val(fr, s, cond.Y), n) {
			return true
		}
	}

	return false
}

func inLoop(in ssa.Instruction, iv ssa.Value) bool {
	phi, ok := iv.(*ssa.Phi)
	return ok && len(phi.Block().Succs) > 0 && phi.Block().Succs[0].Dominates(in.Block())
}

// keepsUp: a counter from zero that grows by at most one in each iteration of a loop over no more than n things.
func (e *Exec) keepsUp(fr *Frame, s *State, iv ssa.Value, n *Term) bool {
	phi, ok := iv.(*ssa.Phi)
	if !ok {
		return false
	}

	var from func(v ssa.Value, d int) bool

	from = func(v ssa.Value, d int) bool {
		switch x := v.(type) {
		case *ssa.BinOp:
			c, ok := constInt(e.val(fr, s, x.Y))
			return x.Op == token.ADD && x.X == phi && ok && c >= 0 && c <= 1
		case *ssa.Phi:
			if x == phi {
				return true
			}

			if d > 4 {
				return false
			}

			for _, edge := range x.Edges {
				if !from(edge, d+1) {
					return false
				}
			}

			return true
		}

		return false
	}

	for i, edge := range phi.Edges {
		if !phi.Block().Dominates(phi.Block().Preds[i]) { // into the loop
			if c, ok := constInt(e.val(fr, s, edge)); !ok || c != 0 {
				return false
			}
		} else if !from(edge, 0) {
			return false
		}
	}

	br, ok := phi.Block().Instrs[len(phi.Block().Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}

	switch cond := br.Cond.(type) {
	case *ssa.BinOp: // range over a slice
		add, ok := cond.X.(*ssa.BinOp)
		if !ok || cond.Op != token.LSS || add.Op != token.ADD {
			return false
		}

		r, ok := add.X.(*ssa.Phi)
		if !ok || r.Block() != phi.Block() {
			return false
		}

		for i, edge := range r.Edges {
			if edge == add {
				continue
			}

			if c, ok := constInt(e.val(fr, s, edge)); !ok || c < -1 || phi.Block().Dominates(phi.Block().Preds[i]) {
				return false
			}
		}

		return e.within(e.val(fr, s, cond.Y), n)
	case *ssa.Extract: // range over a map
		next, ok := cond.Tuple.(*ssa.Next)
		if !ok || next.IsString {
			return false
		}

		r, ok := next.Iter.(*ssa.Range)

		return ok && e.within(e.lenOf(e.val(fr, s, r.X)), n)
	}

	return false
}

// countsDown: a counter that starts below the length and only decreases.
func (e *Exec) countsDown(fr *Frame, s *State, iv ssa.Value, n *Term) bool {
	phi, ok := iv.(*ssa.Phi)
	if !ok {
		return false
	}

	for _, edge := range phi.Edges {
		if b, ok := edge.(*ssa.BinOp); ok && b.X == phi {
			c, ok := constInt(e.val(fr, s, b.Y))
			if ok && (b.Op == token.SUB && c >= 0 || b.Op == token.ADD && c <= 0) {
				continue
			}

			return false
		}

		if x, c := splitAdd(e.val(fr, s, edge)); x != n || c >= 0 {
			return false
		}
	}

	return true
}

// within: m is n, n less something, or a part of a sum of sizes n.
func (e *Exec) within(m, n *Term) bool {
	if x, c := splitAdd(m); x == n && c <= 0 {
		return true
	}

	if a, ok := constInt(m); ok {
		b, ok := constInt(n)
		return ok && a <= b
	}

	return n.Op == "bin" && n.Name == "+" && (n.Args[0] == m && isSize(n.Args[1]) || n.Args[1] == m && isSize(n.Args[0]))
}

// isSize: never negative.
func isSize(t *Term) bool {
	c, ok := constInt(t)
	return ok && c >= 0 || t.Op == "len"
}

func sameValue(a, b ssa.Value) bool {
	if a == b {
		return true
	}

	x, ok1 := a.(*ssa.Const)
	y, ok2 := b.(*ssa.Const)

	return ok1 && ok2 && x.Value != nil && y.Value != nil && x.Value.ExactString() == y.Value.ExactString()
}

// wellFormed: the bytes are known to be well-formed CBOR whose head announces that many bytes.
func (e *Exec) wellFormed(s *State, i, b *Term) bool {
	c, ok := constInt(i)
	if !ok {
		return false
	}

	valid := false
	width := int64(0)

	for f, v := range s.facts {
		if !v {
			continue
		}

		if f.Op == "isnil" && f.Args[0].Op == "call" && strings.HasSuffix(f.Args[0].Name, ".DecMode).Valid") && f.Args[0].Args[len(f.Args[0].Args)-1] == b {
			valid = true
		}

		if f.Op == "bin" && f.Name == "==" && Has(func(t *Term) bool { return t.Op == "elem" && t.Args[0] == b && isConstInt(t.Args[1], 0) })(f.Args[0]) {
			if k, ok := constInt(f.Args[1]); ok && k >= 24 && k <= 27 {
				width = 1 << (k - 24)
			}
		}
	}

	return valid && c <= width
}

func (sf *safety) slice(e *Exec, fr *Frame, s *State, in ssa.Instruction, x *ssa.Slice) {
	if x.Low == nil && x.High == nil {
		return
	}

	if _, ok := x.X.Type().Underlying().(*types.Pointer); ok {
		return
	}

	sf.ok(in)

	b := e.val(fr, s, x.X)
	n := e.lenOf(b)

	if x.High != nil {
		h := e.val(fr, s, x.High)
		if !(e.atMost(s, h, n, b) && e.nonNegative(s, h)) && !e.keepsUp(fr, s, x.High, n) {
			sf.report(e, fr, s, in, "unchecked slice bound", srcExpr(x.X)+"[:"+srcExpr(x.High)+"]")
			return
		}
	}

	if x.Low != nil {
		l := e.val(fr, s, x.Low)

		lim := n
		if x.High != nil {
			lim = e.val(fr, s, x.High)
		}

		if !((e.atMost(s, l, lim, b) || e.insideFound(s, l, lim)) && e.nonNegative(s, l)) {
			sf.report(e, fr, s, in, "unchecked slice bound", srcExpr(x.X)+"["+srcExpr(x.Low)+":]")
		}
	}
}

// insideFound: x+c <= x+strings.Index(b[x:], sep) with x the place of a constant of at least c bytes without sep.
func (e *Exec) insideFound(s *State, l, lim *Term) bool {
	x, c := splitAdd(l)

	text, ok := constStr(orNil(argAt(x, 1)))
	if !ok || !minusOne(x) || c > int64(len(text)) || lim.Op != "bin" || lim.Name != "+" {
		return false
	}

	for a := 0; a < 2; a++ {
		f := lim.Args[a]
		if lim.Args[1-a] == x && minusOne(f) && f.Args[0].Op == "slice" && f.Args[0].Args[0] == x.Args[0] && f.Args[0].Args[1] == x {
			sep, ok := constStr(f.Args[1])
			return ok && !strings.Contains(text, sep)
		}
	}

	return false
}

// ---- bounds ----

// minLen is the largest known lower bound of a non-negative term.
func (e *Exec) minLen(s *State, n *Term) int64 {
	if c, ok := constInt(n); ok {
		return c
	}

	var lo int64

	if n.Op == "len" {
		x := n.Args[0]

		switch x.Op {
		case "append":
			if x.Name == "1" {
				lo = int64(len(x.Args) - 1)
			}

			if len(x.Args) > 0 {
				lo += e.minLen(s, e.lenOf(x.Args[0]))
			}
		case "slice":
			if low, ok := constInt(orNil(x.Args[1])); ok && x.Args[2] == nil {
				lo = e.minLen(s, e.lenOf(x.Args[0])) - low
			} else if high, isH := constInt(orNil(x.Args[2])); isH && ok {
				lo = high - low
			}

			if lo < 0 {
				lo = 0
			}
		case "call":
			switch x.Name {
			case "strings.Split", "bytes.Split":
				lo = 1
			case "strings.SplitN":
				if c, ok := constInt(x.Args[2]); ok && c != 0 {
					lo = 1
				}
			}
		case "bin":
			if x.Name == "+" {
				lo = e.minLen(s, e.lenOf(x.Args[0])) + e.minLen(s, e.lenOf(x.Args[1]))
			}
		case "choice":
			lo = 1 << 30
			for _, a := range x.Args {
				if m := e.minLen(s, e.lenOf(a)); m < lo {
					lo = m
				}
			}
		}
	}

	if x, c := splitAdd(n); c != 0 {
		if m := e.minLen(s, x) + c; m > lo {
			lo = m
		}
	}

	for f, v := range s.facts {
		if v && n.Op == "len" && f.Op == "call" && len(f.Args) == 2 && f.Args[0] == n.Args[0] && (oneOf(f.Name, []string{"strings.HasPrefix", "strings.HasSuffix", "bytes.HasPrefix", "bytes.HasSuffix", "strings.Contains"})) {
			if m := e.minLen(s, e.lenOf(f.Args[1])); m > lo {
				lo = m
			}
		}

		if f.Op != "bin" {
			continue
		}

		switch f.Name {
		case "==":
			if f.Args[0] == n && v {
				if c, ok := constInt(f.Args[1]); ok && c > lo {
					lo = c
				}

				if f.Args[1].Op == "len" || f.Args[1].Op == "bin" {
					// equal lengths: one step only
					if c := e.minLen1(s, f.Args[1]); c > lo {
						lo = c
					}
				}
			}

			if f.Args[1] == n && v {
				if c := e.minLen1(s, f.Args[0]); c > lo {
					lo = c
				}
			}
		case "<":
			// not (n < c)
			if f.Args[0] == n && !v {
				if c, ok := constInt(f.Args[1]); ok && c > lo {
					lo = c
				}
			}

			// c < n cannot occur (normalised); x < n with x an index
			if f.Args[1] == n && v && lo < 1 && e.nonNegative(s, f.Args[0]) {
				lo = 1
			}
		}
	}

	// excluded values
	for changed := true; changed; {
		changed = false

		if v, ok := s.facts[e.rawEq(n, e.intT(lo))]; ok && !v {
			lo++
			changed = true
		}
	}

	if n.Op == "len" && lo < 1 && e.isNil(s, n.Args[0]) == no {
		// non-nil does not mean non-empty, except for the results of regular expression matching
		if x := n.Args[0]; x.Op == "call" && strings.HasPrefix(x.Name, "(*regexp.Regexp).FindStringSubmatch") {
			lo = 1
		}
	}

	return lo
}

func (e *Exec) minLen1(s *State, n *Term) int64 {
	if c, ok := constInt(n); ok {
		return c
	}

	var lo int64

	for f, v := range s.facts {
		if f.Op == "bin" && f.Name == "<" && f.Args[0] == n && !v {
			if c, ok := constInt(f.Args[1]); ok && c > lo {
				lo = c
			}
		}
	}

	if v, ok := s.facts[e.rawEq(n, e.intT(0))]; ok && !v && lo < 1 {
		lo = 1
	}

	return lo
}

// below: i < n.
func (e *Exec) below(s *State, i, n, base *Term) bool {
	if c, ok := constInt(i); ok {
		return c < e.minLen(s, n)
	}

	if i.Op == "call" || i.Op == "res" || i.Op == "field" || i.Op == "param" || i.Op == "idx" || i.Op == "bin" || i.Op == "un" || i.Op == "loopvar" || i.Op == "elem" || i.Op == "mapget" || i.Op == "key" || i.Op == "mut" {
		lt := e.bin(token.LSS, i, n, types.Typ[types.Bool])
		if e.eval(s, lt) == yes {
			return true
		}
	}

	// key of a range over the same value
	if i.Op == "key" && i.Args[0] == base {
		return true
	}

	// i = n - c
	if x, c := splitAdd(i); x == n && c < 0 {
		return e.minLen(s, n) >= -c
	} else if c < 0 && e.below(s, x, n, base) {
		return true
	} else if c > 0 {
		// x + c < n
		for f, v := range s.facts {
			if f.Op == "bin" && f.Name == "<" && v && f.Args[0] == i && f.Args[1] == n {
				return true
			}
		}
	}

	// x + y < n with x < k and n = k + y
	if i.Op == "bin" && i.Name == "+" && n.Op == "bin" && n.Name == "+" {
		for a := 0; a < 2; a++ {
			for b := 0; b < 2; b++ {
				if i.Args[a] == n.Args[b] && e.below(s, i.Args[1-a], n.Args[1-b], nil) {
					return true
				}
			}
		}
	}

	// i < m and m <= n
	for f, v := range s.facts {
		if f.Op == "bin" && f.Name == "<" && v && f.Args[0] == i && f.Args[1] != n {
			if m := f.Args[1]; m != i && e.atMostFact(s, m, n) {
				return true
			}
		}
	}

	// x + c < n with x < n - k, c <= k
	for f, v := range s.facts {
		if f.Op == "bin" && f.Name == "<" && v {
			x, c := splitAdd(i)

			if m, k := splitAdd(f.Args[1]); f.Args[0] == x && m == n && c <= -k {
				return true
			}
		}
	}

	// i % n
	if i.Op == "bin" && i.Name == "%" && i.Args[1] == n {
		return true
	}

	return false
}

func splitAdd(t *Term) (*Term, int64) {
	if t.Op == "bin" && t.Name == "+" {
		if c, ok := constInt(t.Args[1]); ok {
			return t.Args[0], c
		}
	}

	return t, 0
}

func (e *Exec) atMostFact(s *State, m, n *Term) bool {
	if m == n {
		return true
	}

	if cm, ok := constInt(m); ok && cm <= e.minLen(s, n) {
		return true
	}

	if v, ok := s.facts[e.in.mk(Term{Op: "bin", Name: "<", Args: []*Term{n, m}, Typ: types.Typ[types.Bool]})]; ok && !v {
		return true
	}

	if v, ok := s.facts[e.bin(token.EQL, m, n, types.Typ[types.Bool])]; ok && v {
		return true
	}

	return false
}

// atMost: i <= n.
func (e *Exec) atMost(s *State, i, n, base *Term) bool {
	if i == n || e.below(s, i, n, base) {
		return true
	}

	if c, ok := constInt(i); ok {
		return c <= e.minLen(s, n)
	}

	if e.atMostFact(s, i, n) {
		return true
	}

	x, c := splitAdd(i)
	if c == 1 && e.below(s, x, n, base) {
		return true
	}

	// strings.Index(b, const) + k with k at most the length of what was found
	if x.Op == "call" && strings.HasPrefix(x.Name, "strings.Index") || x.Op == "call" && strings.HasPrefix(x.Name, "strings.LastIndex") {
		w := int64(0)
		if len(x.Args) > 1 {
			w = e.minLen(s, e.lenOf(x.Args[1]))
			if x.Args[1].Op == "const" && strings.HasSuffix(x.Name, "Byte") {
				w = 1
			}
		}

		if c <= w && n == e.lenOf(x.Args[0]) {
			return true
		}
	}

	if i.Op == "call" && i.Name == "builtin.copy" && e.lenOf(i.Args[0]) == n {
		return true
	}

	// l + strings.Index(b[l:], …) + k
	if p, off := splitAdd(i); p.Op == "bin" && p.Name == "+" && n.Op == "len" {
		for a := 0; a < 2; a++ {
			f, l := p.Args[a], p.Args[1-a]
			if minusOne(f) && f.Args[0].Op == "slice" && f.Args[0].Args[0] == n.Args[0] && f.Args[0].Args[1] == l && f.Args[0].Args[2] == nil && off <= e.minLen(s, e.lenOf(f.Args[1])) {
				return true
			}
		}
	}

	// not (n < k*i), k >= 1, i >= 0
	for f, v := range s.facts {
		if f.Op == "bin" && f.Name == "<" && !v && f.Args[0] == n {
			if m := f.Args[1]; m.Op == "bin" && m.Name == "*" && (m.Args[0] == i || m.Args[1] == i) {
				return true
			}
		}
	}

	return false
}

func (e *Exec) nonNegative(s *State, i *Term) bool {
	if c, ok := constInt(i); ok {
		return c >= 0
	}

	switch i.Op {
	case "idx", "len", "key":
		return true
	case "call":
		if i.Name == "builtin.copy" {
			return true
		}
	case "field", "param":
		// sizes kept in configuration are not negative unless compared otherwise; signed data is not trusted
		if isUnsigned(i.Typ) {
			return true
		}
	case "bin":
		if i.Name == "%" || i.Name == "*" || i.Name == "/" || i.Name == ">>" || i.Name == "&" {
			return e.nonNegative(s, i.Args[0])
		}

		if i.Name == "+" && e.nonNegative(s, i.Args[0]) && e.nonNegative(s, i.Args[1]) {
			return true
		}

		x, c := splitAdd(i)
		if c > 0 && (e.nonNegative(s, x) || minusOne(x)) {
			return true
		}

		if c < 0 && x.Op == "len" {
			return e.minLen(s, x) >= -c
		}
	case "elem", "conv":
		if isUnsigned(i.Typ) {
			return true
		}
	}

	if isUnsigned(i.Typ) {
		return true
	}

	// not (i < c), c >= 0
	for f, v := range s.facts {
		if f.Op == "bin" && f.Args[0] == i {
			c, ok := constInt(f.Args[1])
			if !ok {
				continue
			}

			if f.Name == "<" && !v && c >= 0 {
				return true
			}

			if f.Name == "==" && !v && c == -1 && minusOne(i) {
				return true
			}

			if f.Name == "==" && v && c >= 0 {
				return true
			}
		}
	}

	// a size taken from the type's own configuration
	return i.Op == "field" && strings.HasSuffix(strings.ToLower(i.Name), "size")
}

func minusOne(t *Term) bool {
	return t.Op == "call" && (strings.HasPrefix(t.Name, "strings.Index") || strings.HasPrefix(t.Name, "strings.LastIndex"))
}

func isUnsigned(t types.Type) bool {
	if t == nil {
		return false
	}

	b, ok := t.Underlying().(*types.Basic)

	return ok && b.Info()&types.IsUnsigned != 0
}

// srcExpr describes an SSA value in terms of the source (names and fields, no registers).
func srcExpr(v ssa.Value) string {
	return srcExprD(v, 0)
}

func srcExprD(v ssa.Value, d int) string {
	if d > 6 {
		return "…"
	}

	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return "nil"
		}

		return x.Value.String()
	case *ssa.Parameter:
		return x.Name()
	case *ssa.FreeVar:
		return x.Name()
	case *ssa.Global:
		return x.Name()
	case *ssa.FieldAddr:
		return srcExprD(x.X, d+1) + "." + structOf(x.X.Type()).Field(x.Field).Name()
	case *ssa.Field:
		return srcExprD(x.X, d+1) + "." + structOf(x.X.Type()).Field(x.Field).Name()
	case *ssa.UnOp:
		return srcExprD(x.X, d+1)
	case *ssa.IndexAddr:
		return srcExprD(x.X, d+1) + "[]"
	case *ssa.Index:
		return srcExprD(x.X, d+1) + "[]"
	case *ssa.Lookup:
		return srcExprD(x.X, d+1) + "{" + srcExprD(x.Index, d+1) + "}"
	case *ssa.Extract:
		return srcExprD(x.Tuple, d+1)
	case *ssa.TypeAssert:
		return srcExprD(x.X, d+1)
	case *ssa.Call:
		return short(calleeName(x.Common())) + "()"
	case *ssa.Next:
		return "range " + srcExprD(x.Iter, d+1)
	case *ssa.Range:
		return srcExprD(x.X, d+1)
	case *ssa.Alloc:
		return "local " + short(typeName(x.Type()))
	case *ssa.MakeInterface:
		return srcExprD(x.X, d+1)
	case *ssa.ChangeType:
		return srcExprD(x.X, d+1)
	case *ssa.Convert:
		return srcExprD(x.X, d+1)
	case *ssa.Slice:
		return srcExprD(x.X, d+1)
	case *ssa.BinOp:
		return srcExprD(x.X, d+1) + x.Op.String() + srcExprD(x.Y, d+1)
	case *ssa.Phi:
		return "merged " + short(typeName(x.Type()))
	}

	return short(typeName(v.Type()))
}

// safe runs the panic analysis over an entry point.
func (c *Ctx) safe(entry string, opaque []string, data []string) {
	fn := c.P.Fn(entry)
	if fn == nil || fn.Blocks == nil {
		c.Obligations++
		c.fail("entry|"+entry, "the entry point this rule is anchored at does not exist any more", entry, nil)

		return
	}

	c.safeFn(entry, fn, opaque, data, 0)
}

// safeFn reports whether the analysis stayed within the limit; if not, it recorded nothing about the entry's completeness.
func (c *Ctx) safeFn(entry string, fn *ssa.Function, opaque []string, data []string, limit int) bool {
	sf := &safety{c: c, name: entry, checked: map[ssa.Instruction]bool{}, data: data, skipPkg: isTestSupport}
	before := len(c.Findings)

	e := NewExec(c.P, &Config{
		OnInstr:  sf.hook,
		MaxState: 24,
		Opaque: func(f *ssa.Function) bool {
			for _, o := range opaque {
				if nameMatch(funcName(f), o) {
					return true
				}
			}

			return isTestSupport(fnPkgPath(f))
		},
	})

	if limit > 0 {
		e.maxStep = limit
	}

	e.Run(fn)

	if e.Err != nil && limit > 0 {
		return false
	}

	if e.Err != nil {
		c.Obligations++
		c.fail("budget|"+entry, e.Err.Error(), entry, nil)
	}

	if c.Funcs == nil {
		c.Funcs = map[string]bool{}
	}

	for f := range e.Stats.Funcs {
		c.Funcs[f] = true
	}

	bad := len(c.Findings) - before
	c.Obligations += len(sf.checked)
	c.Discharged += len(sf.checked) - bad
	c.count("entry points", 1)
	c.count("instructions that could panic, checked", len(sf.checked))
	c.count("call sites resolved", e.Stats.Calls)
	c.count("paths", e.Stats.Paths)
	if os.Getenv("VDBG") != "" {
		fmt.Fprintf(os.Stderr, "T %6d steps %d funcs %s\n", e.steps, len(e.Stats.Funcs), entry)
	}

	c.sample("%s: %d functions, %d instructions checked, %d steps", entry, len(e.Stats.Funcs), len(sf.checked), e.steps)

	return true
}
