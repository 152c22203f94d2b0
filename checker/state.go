package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Trace is the list of branch decisions that led to a state (for reports only).
type Trace struct {
	prev *Trace
	pos  token.Pos
	lit  *Term
	val  bool
}

// State is one disjunct of the dataflow fact: value numbers of the SSA registers of the current frame, what memory
// locations hold, which conditions are known, and which obligations are already met.
type State struct {
	env   map[ssa.Value]*Term
	mem   map[*Term]*Term
	facts map[*Term]bool
	sat   uint64
	trace *Trace
	locks map[*Term]int
	flags map[string]bool

	defers *deferred
}

// deferred is a registered deferred call, most recent first.
type deferred struct {
	prev     *deferred
	frame    string
	ci       *ssa.Defer
	fn       *ssa.Function
	name     string
	args     []*Term
	bindings []*Term
}

func newState() *State {
	return &State{env: map[ssa.Value]*Term{}, mem: map[*Term]*Term{}, facts: map[*Term]bool{}}
}

func cloneMap[K comparable, V any](m map[K]V) map[K]V {
	out := make(map[K]V, len(m)+4)
	for k, v := range m {
		out[k] = v
	}

	return out
}

func (s *State) clone() *State {
	return &State{env: cloneMap(s.env), mem: cloneMap(s.mem), facts: cloneMap(s.facts), sat: s.sat, trace: s.trace,
		locks: s.locks, flags: s.flags, defers: s.defers}
}

// ---- term construction with normalisation ----

func (e *Exec) cnst(c *ssa.Const) *Term {
	if c.Value == nil {
		if isNilable(c.Type()) {
			return e.in.mk(Term{Op: "nil", Name: "nil", Typ: c.Type()})
		}

		return e.zero(c.Type())
	}

	return e.constVal(c.Value, c.Type())
}

func (e *Exec) constVal(v constant.Value, t types.Type) *Term {
	return e.in.mk(Term{Op: "const", Name: v.ExactString(), Val: v, Typ: t})
}

func (e *Exec) boolT(b bool) *Term { return e.constVal(constant.MakeBool(b), types.Typ[types.Bool]) }
func (e *Exec) intT(i int64) *Term { return e.constVal(constant.MakeInt64(i), types.Typ[types.Int]) }
func (e *Exec) strT(s string) *Term {
	return e.constVal(constant.MakeString(s), types.Typ[types.String])
}
func (e *Exec) nilT(t types.Type) *Term { return e.in.mk(Term{Op: "nil", Name: "nil", Typ: t}) }

func isNilable(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Signature, *types.Interface:
		return true
	case *types.Basic:
		return u.Kind() == types.UnsafePointer || u.Kind() == types.UntypedNil
	}

	return false
}

func (e *Exec) zero(t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return e.boolT(false)
		case u.Info()&types.IsString != 0:
			return e.strT("")
		case u.Info()&types.IsNumeric != 0:
			return e.constVal(constant.MakeInt64(0), t)
		}
	case *types.Struct:
		args := make([]*Term, u.NumFields())
		for i := range args {
			args[i] = e.zero(u.Field(i).Type())
		}

		return e.in.mk(Term{Op: "struct", Name: t.String(), Args: args, Typ: t})
	case *types.Array:
		return e.in.mk(Term{Op: "zero", Name: t.String(), Typ: t})
	}

	if isNilable(t) {
		return e.nilT(t)
	}

	return e.in.mk(Term{Op: "zero", Name: t.String(), Typ: t})
}

func structOf(t types.Type) *types.Struct {
	if t == nil {
		return nil
	}

	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}

	s, _ := t.Underlying().(*types.Struct)

	return s
}

func (e *Exec) field(base *Term, idx int, st *types.Struct) *Term {
	f := st.Field(idx)

	switch base.Op {
	case "struct":
		if idx < len(base.Args) {
			return base.Args[idx]
		}
	case "ref":
		return e.field(base.Args[0], idx, st)
	case "zero":
		return e.zero(f.Type())
	}

	return e.in.mk(Term{Op: "field", Name: f.Name(), Args: []*Term{base}, Typ: f.Type()})
}

func (e *Exec) elem(base, idx *Term, typ types.Type) *Term {
	for base.Op == "slice" && (base.Args[1] == nil || isConstInt(base.Args[1], 0)) {
		base = base.Args[0]
	}

	return e.in.mk(Term{Op: "elem", Args: []*Term{base, idx}, Typ: typ})
}

func (e *Exec) lenOf(x *Term) *Term {
	switch x.Op {
	case "const":
		if x.Val != nil && x.Val.Kind() == constant.String {
			return e.intT(int64(len(constant.StringVal(x.Val))))
		}
	case "nil":
		return e.intT(0)
	case "slicelit":
		return e.intT(int64(len(x.Args)))
	case "makeslice":
		return x.Args[0]
	case "alloc":
		if p, ok := x.Typ.Underlying().(*types.Pointer); ok {
			if a, ok := p.Elem().Underlying().(*types.Array); ok {
				return e.intT(a.Len())
			}
		}
	case "slice":
		if x.Args[1] == nil && x.Args[2] == nil {
			return e.lenOf(x.Args[0])
		}

		if x.Args[2] != nil && (x.Args[1] == nil || isConstInt(x.Args[1], 0)) {
			return x.Args[2]
		}
	}

	return e.in.mk(Term{Op: "len", Args: []*Term{x}, Typ: types.Typ[types.Int]})
}

func isConstInt(t *Term, v int64) bool {
	if t == nil || t.Op != "const" || t.Val == nil || t.Val.Kind() != constant.Int {
		return false
	}

	i, ok := constant.Int64Val(t.Val)

	return ok && i == v
}

func constInt(t *Term) (int64, bool) {
	if t == nil || t.Op != "const" || t.Val == nil || t.Val.Kind() != constant.Int {
		return 0, false
	}

	return constant.Int64Val(t.Val)
}

func constStr(t *Term) (string, bool) {
	if t == nil || t.Op != "const" || t.Val == nil || t.Val.Kind() != constant.String {
		return "", false
	}

	return constant.StringVal(t.Val), true
}

func isConst(t *Term) bool { return t.Op == "const" || t.Op == "nil" }

// not builds the negation.
func (e *Exec) not(t *Term) *Term {
	if t.Op == "un" && t.Name == "!" {
		return t.Args[0]
	}

	if t.Op == "const" && t.Val != nil && t.Val.Kind() == constant.Bool {
		return e.boolT(!constant.BoolVal(t.Val))
	}

	return e.in.mk(Term{Op: "un", Name: "!", Args: []*Term{t}, Typ: types.Typ[types.Bool]})
}

func (e *Exec) isnil(t *Term) *Term {
	switch t.Op {
	case "nil":
		return e.boolT(true)
	case "const", "alloc", "closure", "func", "makemap", "makeslice", "slicelit", "maplit", "ref", "struct":
		return e.boolT(false)
	case "slice":
		if t.Args[0].Op == "alloc" {
			return e.boolT(false)
		}
	case "append":
		if len(t.Args) > 1 && t.Name == "1" {
			return e.boolT(false)
		}
	case "global":
		if t.Typ != nil && isErrorType(t.Typ) {
			return e.boolT(false)
		}
	case "call":
		if nonNilCall(t.Name) {
			return e.boolT(false)
		}
	}

	return e.in.mk(Term{Op: "isnil", Args: []*Term{t}, Typ: types.Typ[types.Bool]})
}

func nonNilCall(n string) bool {
	switch n {
	case "errors.New", "fmt.Errorf", "time.Now", "strings.NewReader", "bytes.NewReader", "crypto/sha256.New",
		"crypto/sha512.New", "crypto/sha512.New384", "bytes.NewBuffer", "encoding/json.NewDecoder":
		return true
	}

	return false
}

func isErrorType(t types.Type) bool {
	return types.Identical(t, types.Universe.Lookup("error").Type())
}

// bin builds a normalised binary operation. Comparisons come out as ==, < or their negation.
func (e *Exec) bin(op token.Token, a, b *Term, typ types.Type) *Term {
	if isConst(a) && isConst(b) && a.Val != nil && b.Val != nil && a.Val.Kind() == b.Val.Kind() {
		switch op {
		case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
			return e.boolT(constant.Compare(a.Val, op, b.Val))
		case token.ADD, token.SUB, token.MUL:
			if a.Val.Kind() == constant.Int || (op == token.ADD && a.Val.Kind() == constant.String) {
				return e.constVal(constant.BinaryOp(a.Val, op, b.Val), typ)
			}
		}
	}

	switch op {
	case token.NEQ:
		return e.not(e.bin(token.EQL, a, b, typ))
	case token.GTR:
		return e.bin(token.LSS, b, a, typ)
	case token.GEQ:
		return e.not(e.bin(token.LSS, a, b, typ))
	case token.LEQ:
		return e.not(e.bin(token.LSS, b, a, typ))
	case token.EQL:
		if a.Op == "nil" && b.Op == "nil" {
			return e.boolT(true)
		}

		if b.Op == "nil" {
			return e.isnil(a)
		}

		if a.Op == "nil" {
			return e.isnil(b)
		}

		if a == b {
			return e.boolT(true)
		}

		// b == true, b == false
		for i := 0; i < 2; i++ {
			if b.Op == "const" && b.Val != nil && b.Val.Kind() == constant.Bool {
				if constant.BoolVal(b.Val) {
					return a
				}

				return e.not(a)
			}

			a, b = b, a
		}

		if isConst(a) && !isConst(b) {
			a, b = b, a
		}

		if !isConst(b) && a.id > b.id {
			a, b = b, a
		}

		if s, ok := constStr(b); ok && s == "" {
			return e.bin(token.EQL, e.lenOf(a), e.intT(0), typ)
		}

		return e.in.mk(Term{Op: "bin", Name: "==", Args: []*Term{a, b}, Typ: types.Typ[types.Bool]})
	case token.LSS:
		// len(x) < 1 and 0 < len(x) are emptiness tests
		if nonNeg(a) && isConstInt(b, 1) {
			return e.bin(token.EQL, a, e.intT(0), typ)
		}

		if nonNeg(b) && isConstInt(a, 0) {
			return e.not(e.bin(token.EQL, b, e.intT(0), typ))
		}

		// c-1 < x, with x integer: normalise "c <= x" (not x < c)
		if ca, ok := constInt(a); ok && isInteger(b.Typ) {
			return e.not(e.bin(token.LSS, b, e.intT(ca+1), typ))
		}

		return e.in.mk(Term{Op: "bin", Name: "<", Args: []*Term{a, b}, Typ: types.Typ[types.Bool]})
	case token.ADD:
		if cb, ok := constInt(b); ok {
			// (x ± c) + d
			if cb == 0 {
				return a
			}

			if a.Op == "bin" && a.Name == "+" {
				if ca, ok := constInt(a.Args[1]); ok {
					return e.bin(token.ADD, a.Args[0], e.intT(ca+cb), typ)
				}
			}
		} else if _, ok := constInt(a); ok && isInteger(typ) {
			return e.bin(token.ADD, b, a, typ)
		}
	case token.SUB:
		if cb, ok := constInt(b); ok {
			return e.bin(token.ADD, a, e.intT(-cb), typ)
		}

		if a == b && isInteger(typ) {
			return e.intT(0)
		}
	}

	return e.in.mk(Term{Op: "bin", Name: op.String(), Args: []*Term{a, b}, Typ: typ})
}

func isInteger(t types.Type) bool {
	if t == nil {
		return false
	}

	b, ok := t.Underlying().(*types.Basic)

	return ok && b.Info()&types.IsInteger != 0
}

func nonNeg(t *Term) bool {
	return t.Op == "len" || t.Op == "cap"
}

// ---- what is known ----

type tri int

const (
	unknown tri = iota
	yes
	no
)

func b2t(b bool) tri {
	if b {
		return yes
	}

	return no
}

func (e *Exec) eval(s *State, t *Term) tri {
	neg := false

	for t.Op == "un" && t.Name == "!" {
		neg = !neg
		t = t.Args[0]
	}

	r := e.evalPos(s, t)
	if !neg || r == unknown {
		return r
	}

	if r == yes {
		return no
	}

	return yes
}

func (e *Exec) evalPos(s *State, t *Term) tri {
	if t.Op == "const" && t.Val != nil && t.Val.Kind() == constant.Bool {
		return b2t(constant.BoolVal(t.Val))
	}

	if v, ok := s.facts[t]; ok {
		return b2t(v)
	}

	switch {
	case t.Op == "choice":
		r := unknown
		for i, a := range t.Args {
			x := e.eval(s, a)
			if x == unknown || (i > 0 && x != r) {
				return unknown
			}

			r = x
		}

		return r
	case t.Op == "isnil":
		x := t.Args[0]

		if x.Op == "choice" {
			r := unknown
			for i, a := range x.Args {
				v := e.eval(s, e.isnil(a))
				if v == unknown || (i > 0 && v != r) {
					return unknown
				}

				r = v
			}

			return r
		}

		if v, ok := s.facts[e.rawEq(e.lenOf(x), e.intT(0))]; ok && !v {
			return no
		}

		if isConstructor(x) {
			return no
		}

		if x.Op == "call" && x.Name == "errors.Join" && len(x.Args) == 1 && x.Args[0].Op == "slicelit" {
			all := true

			for _, a := range x.Args[0].Args {
				switch e.isNil(s, a) {
				case no:
					return no
				case unknown:
					all = false
				}
			}

			if all {
				return yes
			}
		}
	case t.Op == "bin" && t.Name == "==":
		a, b := t.Args[0], t.Args[1]

		// len(x) == 0 when x is nil
		if a.Op == "len" && isConstInt(b, 0) {
			if e.isNil(s, a.Args[0]) == yes {
				return yes
			}

			for f, v := range s.facts {
				if v && f.Op == "bin" && f.Name == "==" && f.Args[0] == a.Args[0] {
					if c, ok := constStr(f.Args[1]); ok && c != "" {
						return no
					}
				}
			}
		}

		if c, ok := constStr(b); ok && c != "" {
			if v, ok := s.facts[e.rawEq(e.lenOf(a), e.intT(0))]; ok && v {
				return no
			}
		}

		if isConst(b) {
			for f, v := range s.facts {
				if !v || f.Op != "bin" || f.Name != "==" || f.Args[0] != a || f.Args[1] == b {
					continue
				}

				if isConst(f.Args[1]) && f.Args[1].Val != nil && b.Val != nil && f.Args[1].Val.Kind() == b.Val.Kind() {
					return no
				}
			}
		}
	case t.Op == "istype":
		if x := t.Args[0]; x.Op == "nil" {
			return no
		}

		if isIfaceName(t) {
			return unknown
		}

		for f, v := range s.facts {
			if v && f.Op == "istype" && f.Args[0] == t.Args[0] && f.Name != t.Name && !isIfaceName(f) {
				return no
			}
		}
	}

	return unknown
}

func isIfaceName(t *Term) bool { return t.Num == 1 }

func (e *Exec) rawEq(a, b *Term) *Term {
	return e.in.mk(Term{Op: "bin", Name: "==", Args: []*Term{a, b}, Typ: types.Typ[types.Bool]})
}

func (e *Exec) isNil(s *State, t *Term) tri { return e.eval(s, e.isnil(t)) }

// assume adds a condition to a state; false means the state is infeasible.
func (e *Exec) assume(s *State, t *Term, val bool, pos token.Pos) bool {
	for t.Op == "un" && t.Name == "!" {
		val = !val
		t = t.Args[0]
	}

	switch e.eval(s, t) {
	case yes:
		if !val {
			return false
		}
	case no:
		if val {
			return false
		}
	}

	if t.Op == "const" {
		return true
	}

	if t.Op == "choice" {
		// a merged boolean: nothing more precise can be recorded
		s.facts[t] = val
		return true
	}

	if _, ok := s.facts[t]; !ok {
		s.facts[t] = val
		s.trace = &Trace{prev: s.trace, pos: pos, lit: t, val: val}
	}

	// library convention: a call outside the module that returns a nil error returns a usable pointer with it
	if t.Op == "isnil" && val && t.Args[0].Op == "res" && isErrTerm(t.Args[0]) {
		if c := t.Args[0].Args[0]; c.Op == "call" && !strings.Contains(c.Name, modPath) {
			if tt, ok := c.Typ.(*types.Tuple); ok {
				for i := 0; i < tt.Len(); i++ {
					switch tt.At(i).Type().Underlying().(type) {
					case *types.Pointer, *types.Interface:
						if !isErrorType(tt.At(i).Type()) && !emptyIface(tt.At(i).Type()) {
							r := e.in.mk(Term{Op: "res", Num: i + 1, Args: []*Term{c}, Typ: tt.At(i).Type()})
							s.facts[e.in.mk(Term{Op: "isnil", Args: []*Term{r}, Typ: types.Typ[types.Bool]})] = false
						}
					}
				}
			}
		}
	}

	// a successful comma-ok assertion on a nil interface is impossible
	if t.Op == "istype" && val {
		s.facts[e.in.mk(Term{Op: "isnil", Args: []*Term{t.Args[0]}, Typ: types.Typ[types.Bool]})] = false
	}

	if t.Op == "has" && val {
		// a present key means a non-nil map
		s.facts[e.in.mk(Term{Op: "isnil", Args: []*Term{t.Args[0]}, Typ: types.Typ[types.Bool]})] = false
	}

	return true
}

// ---- memory ----

func locRoot(t *Term) *Term {
	for t.Op == "field" || t.Op == "elem" || t.Op == "slice" || t.Op == "mapget" {
		t = t.Args[0]
	}

	return t
}

func isFresh(t *Term) bool {
	switch locRoot(t).Op {
	case "alloc", "makemap", "makeslice":
		return true
	}

	return false
}

func (e *Exec) load(s *State, loc *Term, typ types.Type) *Term {
	if ls := spread(e, loc); len(ls) > 1 {
		var vs []*Term
		for _, l := range ls {
			vs = append(vs, e.load(s, l, typ))
		}

		return e.choice(vs...)
	}

	if v, ok := s.mem[loc]; ok && (v.Op == "struct" || structOfVal(typ) == nil) {
		return v
	}

	if st := structOfVal(typ); st != nil {
		if v, ok := s.mem[loc]; ok && !e.hasSub(s, loc) {
			return v
		}

		if e.hasSub(s, loc) || isFresh(loc) {
			args := make([]*Term, st.NumFields())
			for i := range args {
				args[i] = e.load(s, e.in.mk(Term{Op: "field", Name: st.Field(i).Name(), Args: []*Term{loc}, Typ: st.Field(i).Type()}), st.Field(i).Type())
			}

			return e.structVal(typ, st, args)
		}

		return loc
	}

	switch loc.Op {
	case "field":
		if whole, ok := e.wholeValue(s, loc.Args[0]); ok {
			return e.fieldOfValue(whole, loc.Name, typ)
		}
	case "elem":
		if whole, ok := e.wholeValue(s, loc.Args[0]); ok {
			if whole.Op == "zero" {
				return e.zero(typ)
			}

			return e.in.mk(Term{Op: "elem", Args: []*Term{whole, loc.Args[1]}, Typ: typ})
		}

		if loc.Args[0].Op == "alloc" {
			if _, isC := constInt(loc.Args[1]); isC {
				return e.zero(typ)
			}
		}

		return loc
	case "alloc":
		return e.zero(typ)
	}

	if r := locRoot(loc); r.Op == "alloc" && pathOnlyFields(loc) {
		if _, havoced := s.mem[r]; !havoced {
			return e.zero(typ)
		}
	}

	return loc
}

// structVal is a structure made of members; all the members of one structure are that structure.
func (e *Exec) structVal(typ types.Type, st *types.Struct, args []*Term) *Term {
	var base *Term

	for i, a := range args {
		if a == nil || a.Op != "field" || a.Name != st.Field(i).Name() || (base != nil && a.Args[0] != base) {
			base = nil
			break
		}

		base = a.Args[0]
	}

	if base != nil && (base.Op == "field" || base.Op == "elem" || base.Op == "mapget" || base.Op == "res") && base.Typ != nil && types.Identical(base.Typ, typ) {
		return base
	}

	return e.in.mk(Term{Op: "struct", Name: typ.String(), Args: args, Typ: typ})
}

// spread expands a location reached through a merged pointer into the locations it may be.
func spread(e *Exec, loc *Term) []*Term {
	if loc.Op == "choice" {
		return loc.Args
	}

	if loc.Op != "field" && loc.Op != "elem" {
		return nil
	}

	bs := spread(e, loc.Args[0])
	if len(bs) < 2 || len(bs) > 16 {
		return nil
	}

	var out []*Term

	for _, b := range bs {
		if b.Op == "nil" {
			continue
		}

		as := append([]*Term{b}, loc.Args[1:]...)
		if loc.Op == "elem" {
			out = append(out, e.elem(as[0], as[1], loc.Typ))
		} else {
			out = append(out, e.in.mk(Term{Op: "field", Name: loc.Name, Args: as, Typ: loc.Typ}))
		}
	}

	if len(out) == 1 {
		out = append(out, out[0])
	}

	return out
}

func pathOnlyFields(t *Term) bool {
	for t.Op != "alloc" {
		if t.Op != "field" {
			return false
		}

		t = t.Args[0]
	}

	return true
}

func structOfVal(t types.Type) *types.Struct {
	s, _ := t.Underlying().(*types.Struct)
	return s
}

// wholeValue finds a value stored for a whole aggregate location (or an enclosing one).
func (e *Exec) wholeValue(s *State, loc *Term) (*Term, bool) {
	if v, ok := s.mem[loc]; ok {
		return v, true
	}

	if loc.Op == "field" {
		if w, ok := e.wholeValue(s, loc.Args[0]); ok && isAddr(loc) {
			return e.fieldOfValue(w, loc.Name, loc.Typ), true
		}
	}

	return nil, false
}

// isAddr tells whether a location names memory inside its parent (not a pointer loaded from it).
func isAddr(loc *Term) bool {
	return loc.Typ != nil && structOfVal(loc.Typ) != nil
}

func (e *Exec) fieldOfValue(v *Term, name string, typ types.Type) *Term {
	switch v.Op {
	case "struct":
		if st := structOfVal(v.Typ); st != nil {
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i).Name() == name && i < len(v.Args) {
					return v.Args[i]
				}
			}
		}
	case "zero":
		return e.zero(typ)
	case "choice":
		if e.cfg.NilMerge {
			vs := make([]*Term, len(v.Args))
			for i, a := range v.Args {
				vs[i] = e.fieldOfValue(a, name, typ)
			}

			return e.choice(vs...)
		}
	}

	return e.in.mk(Term{Op: "field", Name: name, Args: []*Term{v}, Typ: typ})
}

func (e *Exec) hasSub(s *State, loc *Term) bool {
	for k := range s.mem {
		if k.Op == "field" && k.Args[0] == loc {
			return true
		}
	}

	for k := range s.mem {
		for x := k; x.Op == "field" || x.Op == "elem"; x = x.Args[0] {
			if x.Args[0] == loc && x.Op == "field" {
				return true
			}
		}
	}

	return false
}

func (e *Exec) store(s *State, loc, v *Term, typ types.Type) {
	if ls := spread(e, loc); len(ls) > 1 {
		for _, l := range ls {
			e.store(s, l, e.choice(e.load(s, l, typ), v), typ)
		}

		return
	}

	if st := structOfVal(typ); st != nil {
		e.killSub(s, loc)
		delete(s.mem, loc)

		if v.Op == "struct" && len(v.Args) == st.NumFields() {
			for i, a := range v.Args {
				f := st.Field(i)
				e.store(s, e.in.mk(Term{Op: "field", Name: f.Name(), Args: []*Term{loc}, Typ: f.Type()}), a, f.Type())
			}

			return
		}

		if v != loc {
			s.mem[loc] = v
		}

		return
	}

	switch loc.Op {
	case "field":
		if !isFresh(loc) {
			for k := range s.mem {
				if k != loc && k.Op == "field" && k.Name == loc.Name && !isFresh(k) && sameStruct(k.Args[0], loc.Args[0]) {
					delete(s.mem, k)
				}
			}
		}
	case "elem":
		if _, isC := constInt(loc.Args[1]); !isC {
			for k := range s.mem {
				if k.Op == "elem" && k.Args[0] == loc.Args[0] {
					delete(s.mem, k)
				}
			}
		}
	}

	s.mem[loc] = v
}

func sameStruct(a, b *Term) bool {
	x, y := structOf(a.Typ), structOf(b.Typ)
	return x == nil || y == nil || types.Identical(x, y)
}

func (e *Exec) killSub(s *State, loc *Term) {
	for k := range s.mem {
		for x := k; x.Op == "field" || x.Op == "elem" || x.Op == "mapget"; x = x.Args[0] {
			if x.Args[0] == loc {
				delete(s.mem, k)
				break
			}
		}
	}
}

// havoc forgets what a fresh object holds after an opaque operation may have written it.
func (e *Exec) havoc(s *State, t, by *Term, depth int) {
	if depth > 3 {
		return
	}

	switch t.Op {
	case "slice":
		e.havoc(s, t.Args[0], by, depth)
		return
	case "closure":
		for _, b := range t.Args {
			e.havoc(s, b, by, depth+1)
		}

		return
	case "choice":
		for _, a := range t.Args {
			e.havoc(s, a, by, depth+1)
		}

		return
	case "field", "elem":
		if !isFresh(t) {
			return
		}

		if _, isFn := t.Typ.Underlying().(*types.Signature); isFn && t.Op == "elem" {
			// one of the functions of a list: whatever any of them refers to may be written
			for k, v := range s.mem {
				if k.Op == "elem" && k.Args[0] == t.Args[0] && v.Op == "closure" {
					e.havoc(s, v, by, depth+1)
				}
			}

			return
		}
	case "alloc", "makemap", "makeslice":
	default:
		return
	}

	var nested []*Term

	for k, v := range s.mem {
		hit := k == t
		for x := k; !hit && (x.Op == "field" || x.Op == "elem" || x.Op == "mapget"); x = x.Args[0] {
			hit = x.Args[0] == t
		}

		if hit {
			delete(s.mem, k)

			if v != t {
				nested = append(nested, v)
			}
		}
	}

	if t.Op == "alloc" || t.Op == "field" || t.Op == "elem" {
		var et types.Type
		if t.Typ != nil {
			if p, ok := t.Typ.Underlying().(*types.Pointer); ok && t.Op == "alloc" {
				et = p.Elem()
			} else {
				et = t.Typ
			}
		}

		s.mem[t] = e.in.mk(Term{Op: "mut", Args: []*Term{by, t}, Typ: et})
	}

	for _, v := range nested {
		e.havoc(s, v, by, depth+1)
	}
}

// snap renders an argument of an opaque call with what it points to at that moment.
func (e *Exec) snap(s *State, t *Term, depth int) *Term {
	if depth > 4 {
		return t
	}

	switch t.Op {
	case "field":
		// the address of a part of a fresh object
		if locRoot(t).Op == "alloc" && t.Typ != nil {
			if v := e.load(s, t, t.Typ); v != t {
				return e.snap(s, v, depth+1)
			}
		}
	case "choice":
		args := make([]*Term, len(t.Args))
		for i, a := range t.Args {
			args[i] = e.snap(s, a, depth+1)
		}

		return e.choice(args...)
	case "alloc":
		p, ok := t.Typ.Underlying().(*types.Pointer)
		if !ok {
			return t
		}

		if arr, ok := p.Elem().Underlying().(*types.Array); ok {
			if v, ok := s.mem[t]; ok && v != nil && v.Op != "zero" {
				return e.in.mk(Term{Op: "slice", Args: []*Term{e.snap(s, v, depth+1), nil, nil}, Typ: types.NewSlice(arr.Elem())})
			}

			if _, ok := s.mem[t]; ok || arr.Len() > 32 {
				return t
			}

			args := make([]*Term, arr.Len())
			for i := range args {
				args[i] = e.snap(s, e.load(s, e.elem(t, e.intT(int64(i)), arr.Elem()), arr.Elem()), depth+1)
			}

			return e.in.mk(Term{Op: "slicelit", Args: args, Typ: types.NewSlice(arr.Elem())})
		}

		v := e.load(s, t, p.Elem())
		if v == t {
			return t
		}

		return e.in.mk(Term{Op: "ref", Args: []*Term{e.snap(s, v, depth+1)}, Typ: t.Typ})
	case "struct":
		changed := false
		args := make([]*Term, len(t.Args))

		for i, a := range t.Args {
			args[i] = e.snap(s, a, depth+1)
			changed = changed || args[i] != a
		}

		if !changed {
			return t
		}

		return e.in.mk(Term{Op: "struct", Name: t.Name, Args: args, Typ: t.Typ})
	case "slice":
		if t.Args[1] == nil && t.Args[2] == nil && t.Args[0].Op == "alloc" {
			return e.snap(s, t.Args[0], depth)
		}
	case "append":
		args := make([]*Term, len(t.Args))
		for i, a := range t.Args {
			args[i] = e.snap(s, a, depth+1)
		}

		return e.in.mk(Term{Op: "append", Name: t.Name, Args: args, Typ: t.Typ})
	case "makemap":
		var kv []*Term

		for k, v := range s.mem {
			if k.Op == "mapget" && k.Args[0] == t {
				kv = append(kv, e.in.mk(Term{Op: "kv", Args: []*Term{k.Args[1], e.snap(s, v, depth+1)}}))
			}
		}

		sortTerms(kv)

		// what a loop put into it
		for k, v := range s.mem {
			if k.Op == "filled" && k.Args[0] == t && v != nil {
				kv = append(kv, e.in.mk(Term{Op: "fill", Args: []*Term{e.snap(s, v, depth+1)}}))
			}
		}

		if len(kv) == 0 {
			return t
		}

		return e.in.mk(Term{Op: "maplit", Args: append([]*Term{t}, kv...), Typ: t.Typ})
	}

	return t
}

func typeName(t types.Type) string {
	if t == nil {
		return ""
	}

	return strings.ReplaceAll(types.TypeString(t, nil), "untyped ", "")
}

func emptyIface(t types.Type) bool {
	i, ok := t.Underlying().(*types.Interface)
	return ok && i.NumMethods() == 0
}

func constBool(t *Term) (bool, bool) {
	if t == nil || t.Op != "const" || t.Val == nil || t.Val.Kind() != constant.Bool {
		return false, false
	}

	return constant.BoolVal(t.Val), true
}

// isConstructor: library convention: a constructor outside the module that cannot fail returns something.
func isConstructor(x *Term) bool {
	if x.Op != "call" || strings.Contains(x.Name, modPath) || isErrorType(x.Typ) {
		return false
	}

	i := strings.LastIndexByte(x.Name, '.')
	if i < 0 || strings.HasPrefix(x.Name, "(") || len(x.Name) <= i+4 || x.Name[i+1:i+4] != "New" || x.Name[i+4] < 'A' || x.Name[i+4] > 'Z' {
		return false
	}

	switch x.Typ.Underlying().(type) {
	case *types.Pointer, *types.Interface:
		return true
	}

	return false
}
