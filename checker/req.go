package main

import (
	"fmt"
	"go/token"
	"go/types"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const tokEQL = token.EQL

// Pat matches terms.
type Pat func(*Term) bool

// Req is an obligation: at least one alternative must be established on a path.
type Req struct {
	ID   string
	Any  []Lit
	Each bool // the obligation is about the element of the innermost loop over Over; it counts after the loop only
	// if every iteration established it and the loop covered the whole collection
	Over func(*Term) bool
	// Outer: a loop over this, each iteration of which goes through the loop over Over
	Outer func(*Term) bool
	Fn    func(e *Exec, s *State) bool // alternative to Any
}

// Lit matches one established condition.
type Lit struct {
	P   Pat
	Pos bool
}

func (e *Exec) checkReq(s *State, j int) {
	if s.sat&(1<<j) != 0 {
		return
	}

	r := e.cfg.Reqs[j]
	if r.Fn != nil && r.Fn(e, s) {
		s.sat |= 1 << j
		return
	}

	for f, v := range s.facts {
		for _, l := range r.Any {
			if l.Pos == v && l.P(f) && !(r.Each && r.Over != nil && (e.leftOver(s, f, r.Over) || r.Outer != nil && e.leftOver(s, f, r.Outer))) {
				s.sat |= 1 << j
				return
			}
		}
	}
}

// leftOver: the fact is about one element of a loop over the collection that has ended; it says nothing about all elements.
func (e *Exec) leftOver(s *State, f *Term, over Pat) bool {
	open, ended := e.aboutElem(s, f, over)

	return ended && !open
}

// inLoop: something is known about an element of a loop over the collection that has not ended.
func (e *Exec) inLoop(s *State, over Pat) bool {
	for f := range s.facts {
		if open, _ := e.aboutElem(s, f, over); open {
			return true
		}
	}

	return false
}

// aboutElem: the fact is about elements of a loop over the collection that goes on, or that has ended.
func (e *Exec) aboutElem(s *State, f *Term, over Pat) (open, ended bool) {
	el := LoopElem(over)

	f.walk(func(t *Term) bool {
		if el(t) {
			for _, a := range alternatives(t) {
				if len(a.Args) == 2 && (a.Args[1].Op == "idx" || a.Args[1].Op == "key") {
					if s.facts[e.closed(a.Args[1].Name)] {
						ended = true
					} else {
						open = true
					}
				}
			}
		}

		return true
	})

	return open, ended
}

// closed is the fact that a loop has ended.
func (e *Exec) closed(lid string) *Term { return e.in.mk(Term{Op: "closed", Name: lid}) }

// ---- pattern combinators ----

func Any(*Term) bool { return true }

func Or(ps ...Pat) Pat {
	return func(t *Term) bool {
		for _, p := range ps {
			if p(t) {
				return true
			}
		}

		if t == nil || t.Op != "choice" {
			return false
		}

		for _, a := range t.Args {
			ok := false

			for _, p := range ps {
				ok = ok || p(a)
			}

			if !ok {
				return false
			}
		}

		return true
	}
}

func And(ps ...Pat) Pat {
	return func(t *Term) bool {
		for _, p := range ps {
			if !p(t) {
				return false
			}
		}

		return true
	}
}

func Not(p Pat) Pat { return func(t *Term) bool { return !p(t) } }

// AllOf descends into merged values: every alternative must match.
func alts(t *Term) []*Term {
	if t != nil && t.Op == "choice" {
		return t.Args
	}

	return []*Term{t}
}

func Alts(p Pat) Pat {
	return func(t *Term) bool {
		for _, a := range alts(t) {
			if a == nil || !p(a) {
				return false
			}
		}

		return true
	}
}

// Has: some subterm matches (the value is derived from it).
func Has(p Pat) Pat {
	return func(t *Term) bool {
		found := false

		t.walk(func(x *Term) bool {
			if found {
				return false
			}

			if p(x) {
				found = true
				return false
			}

			return true
		})

		return found
	}
}

// HasAll: every alternative of a merged value derives from p.
func HasAll(p Pat) Pat { return Alts(Has(p)) }

func Fld(base Pat, name string) Pat {
	return Alts(func(t *Term) bool { return t.Op == "field" && t.Name == name && base(t.Args[0]) })
}

// FldOf matches field name of a value whose type ends with typ (e.g. "jwt.JSONWebToken").
func FldOf(typ, name string) Pat {
	return Alts(func(t *Term) bool { return t.Op == "field" && t.Name == name && typeIs(t.Args[0], typ) })
}

func typeIs(t *Term, suffix string) bool {
	if t.Typ == nil {
		return false
	}

	ty := t.Typ
	if p, ok := ty.Underlying().(*types.Pointer); ok {
		ty = p.Elem()
	}

	n := typeName(ty)

	return n == suffix || strings.HasSuffix(n, "/"+suffix) || strings.HasSuffix(n, "."+suffix)
}

func TypeIs(suffix string) Pat { return func(t *Term) bool { return typeIs(t, suffix) } }

// Param matches an entry parameter by position (receiver included).
func Param(i int) Pat {
	return func(t *Term) bool { return t.Op == "param" && t.Num == i+1 }
}

func ConstStr(v string) Pat {
	return Alts(func(t *Term) bool { s, ok := constStr(t); return ok && s == v })
}

func ConstInt(v int64) Pat {
	return func(t *Term) bool { return isConstInt(t, v) }
}

func IsNilT(t *Term) bool { return t.Op == "nil" }

var reCache = map[string]*regexp.Regexp{}

// Call matches a call by a suffix of its (module-relative) name, e.g. "proof/checker.ProofChecker).CheckJWTProof" or
// ".Verify". Argument patterns are matched positionally (receiver first); nil means any.
func Call(name string, args ...Pat) Pat {
	return func(t *Term) bool {
		if t.Op != "call" || !nameMatch(t.Name, name) {
			return false
		}

		for i, p := range args {
			if p == nil {
				continue
			}

			if i >= len(t.Args) || !p(t.Args[i]) {
				return false
			}
		}

		return true
	}
}

func nameMatch(full, pat string) bool {
	full = short(full)

	if strings.HasPrefix(pat, "~") {
		re := reCache[pat]
		if re == nil {
			re = regexp.MustCompile(pat[1:])
			reCache[pat] = re
		}

		return re.MatchString(full)
	}

	pat = short(pat)
	if full == pat {
		return true
	}

	if !strings.HasSuffix(full, pat) {
		return false
	}

	rest := full[:len(full)-len(pat)]
	if rest == "" || strings.HasPrefix(pat, ".") || strings.HasPrefix(pat, ")") {
		return true
	}

	switch rest[len(rest)-1] {
	case '.', '/', '*', '(', ')':
		return true
	}

	return false
}

// Res matches result i of a call.
func Res(call Pat, i int) Pat {
	return Alts(func(t *Term) bool { return t.Op == "res" && t.Num == i+1 && call(t.Args[0]) })
}

// ErrOf matches the error result of a call, alone or in a tuple.
func ErrOf(call Pat) Pat {
	return func(t *Term) bool {
		if call(t) {
			return t.Typ != nil && isErrorType(t.Typ)
		}

		return t.Op == "res" && isErrTerm(t) && call(t.Args[0])
	}
}

// literals

func NilLit(p Pat) Lit {
	return Lit{func(t *Term) bool { return t.Op == "isnil" && p(t.Args[0]) }, true}
}
func NonNil(p Pat) Lit {
	return Lit{func(t *Term) bool { return t.Op == "isnil" && p(t.Args[0]) }, false}
}
func OK(call Pat) Lit { return NilLit(ErrOf(call)) }

func eqPat(a, b Pat) Pat {
	return func(t *Term) bool {
		if t.Op != "bin" || t.Name != "==" {
			return false
		}

		return (a(t.Args[0]) && b(t.Args[1])) || (a(t.Args[1]) && b(t.Args[0]))
	}
}

func Eq(a, b Pat) Lit  { return Lit{eqPat(a, b), true} }
func Neq(a, b Pat) Lit { return Lit{eqPat(a, b), false} }
func Less(a, b Pat) Lit {
	return Lit{func(t *Term) bool { return t.Op == "bin" && t.Name == "<" && a(t.Args[0]) && b(t.Args[1]) }, true}
}

func NotLess(a, b Pat) Lit {
	l := Less(a, b)
	l.Pos = false

	return l
}

func True(p Pat) Lit  { return Lit{p, true} }
func False(p Pat) Lit { return Lit{p, false} }
func Len(p Pat) Pat   { return func(t *Term) bool { return t.Op == "len" && p(t.Args[0]) } }
func HasKey(m, k Pat) Pat {
	return func(t *Term) bool { return t.Op == "has" && m(t.Args[0]) && k(t.Args[1]) }
}

func MapGet(m, k Pat) Pat {
	return Alts(func(t *Term) bool { return t.Op == "mapget" && m(t.Args[0]) && k(t.Args[1]) })
}

// Forall matches a condition that was established for every element of a collection.
func Forall(over, p Pat, pos bool) Lit {
	return Lit{func(t *Term) bool { return t.Op == "forall" && over(t.Args[0]) && p(t.Args[1]) }, pos}
}

// Empty: the collection is empty; NonEmpty: it is not.
func Empty(p Pat) Lit    { return Lit{eqPat(Len(p), ConstInt(0)), true} }
func NonEmpty(p Pat) Lit { return Lit{eqPat(Len(p), ConstInt(0)), false} }

// LoopElem matches the element the surrounding loop is at.
func LoopElem(coll Pat) Pat {
	return Alts(func(t *Term) bool {
		return (t.Op == "elem" && t.Args[1].Op == "idx" && coll(t.Args[0])) ||
			(t.Op == "mapget" && t.Args[1].Op == "key" && coll(t.Args[0]))
	})
}

// traceString renders the branch decisions of a path, most recent last.
func (e *Exec) traceString(s *State, max int) []string {
	var out []string

	for t := s.trace; t != nil && len(out) < max; t = t.prev {
		lit := t.lit.String()
		if !t.val {
			lit = "not " + lit
		}

		out = append(out, fmt.Sprintf("%s: %s", e.P.pos(t.pos), lit))
	}

	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}

	return out
}

func (p *Program) pos(x token.Pos) string {
	if !x.IsValid() {
		return "?"
	}

	ps := p.SSA.Fset.Position(x)

	return fmt.Sprintf("%s:%d", strings.TrimPrefix(ps.Filename, p.Dir+"/"), ps.Line)
}

// Run analyses an entry function with symbolic parameters.
func (e *Exec) Run(fn *ssa.Function) []Exit {
	fr := &Frame{fn: fn, id: e.frameID(nil, nil, fn)}

	var args []*Term

	for i, p := range fn.Params {
		args = append(args, e.in.mk(Term{Op: "param", Name: p.Name(), Num: i + 1, Typ: p.Type()}))
	}

	var binds []*Term
	for _, v := range fn.FreeVars {
		binds = append(binds, e.in.mk(Term{Op: "freevar", Name: v.Name(), Typ: v.Type()}))
	}

	fr.args = args
	if len(args) > 1 {
		e.proofParam = args[1]
	}

	return e.body(fr, newState(), args, binds)
}

// succeeded: the error result (the last one) is nil; functions without an error result always succeed.
func (e *Exec) succeeded(fn *ssa.Function, x Exit) bool {
	for i, r := range x.res {
		if isErrorType(fn.Signature.Results().At(i).Type()) {
			return e.isNil(x.st, r) == yes
		}
	}

	return true
}
