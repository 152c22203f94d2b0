package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Term is an abstract value: an access path, a call result, a constant, an operation. Terms are interned, so
// equality of terms is pointer equality (global value numbering).
type Term struct {
	Op   string
	Name string
	Args []*Term
	Typ  types.Type
	Fn   *ssa.Function // func/closure
	Val  constant.Value
	Num  int // result index, unique number
	id   int

	key     string
	Updates []*Term // loopvar: what the loop assigns (filled in after the loop was analysed)
	Pos     ssa.Instruction
}

// Ops:
//  const(Val) nil zero param(Name) global(Name) func closure(args = bindings) alloc(Num)
//  field(base;Name) elem(base,idx) mapget(m,k) has(m,k) key(m) len(x) cap(x)
//  call(args;Name) res(call;Num) bin(a,b;Name) un(a;Name) conv(a) assert(a;Name type) istype(a;Name)
//  isnil(a) slice(a,lo,hi) append(a,...) makemap makeslice struct(fields...) mut(call,old) idx loopvar choice unknown
//  forall(X, lit...)

var maxDepthStr = 9

type interner struct {
	m    map[string]*Term
	next int
	uniq int
}

func newInterner() *interner { return &interner{m: map[string]*Term{}} }

func (in *interner) mk(t Term) *Term {
	var b strings.Builder

	b.WriteString(t.Op)
	b.WriteByte('|')
	b.WriteString(t.Name)

	if t.Num != 0 {
		fmt.Fprintf(&b, "#%d", t.Num)
	}

	for _, a := range t.Args {
		if a == nil {
			b.WriteString(",_")
		} else {
			fmt.Fprintf(&b, ",%d", a.id)
		}
	}

	if t.Fn != nil {
		fmt.Fprintf(&b, "@%p", t.Fn)
	}

	k := b.String()
	if old, ok := in.m[k]; ok {
		return old
	}

	in.next++
	n := t
	n.id = in.next
	n.key = k
	in.m[k] = &n

	return &n
}

func (in *interner) fresh(op, name string, typ types.Type, args ...*Term) *Term {
	in.uniq++
	return in.mk(Term{Op: op, Name: name, Num: in.uniq, Typ: typ, Args: args})
}

func (t *Term) String() string { return t.str(0) }

func (t *Term) str(d int) string {
	if t == nil {
		return "_"
	}

	if d > maxDepthStr {
		return "…"
	}

	args := func(from int) string {
		var s []string
		for _, a := range t.Args[from:] {
			s = append(s, a.str(d+1))
		}

		return strings.Join(s, ", ")
	}

	switch t.Op {
	case "const":
		return t.Name
	case "nil", "zero":
		return t.Op
	case "param", "global":
		return short(t.Name)
	case "func", "closure":
		return "func " + short(t.Fn.String())
	case "alloc", "makemap", "makeslice":
		return fmt.Sprintf("%s%d", t.Op, t.Num)
	case "field":
		return t.Args[0].str(d+1) + "." + t.Name
	case "elem":
		return t.Args[0].str(d+1) + "[" + t.Args[1].str(d+1) + "]"
	case "mapget":
		return t.Args[0].str(d+1) + "{" + t.Args[1].str(d+1) + "}"
	case "call":
		return short(t.Name) + "(" + args(0) + ")"
	case "res":
		return fmt.Sprintf("%s.%d", t.Args[0].str(d+1), t.Num-1)
	case "bin":
		return "(" + t.Args[0].str(d+1) + " " + t.Name + " " + t.Args[1].str(d+1) + ")"
	case "idx":
		return "i" + t.Name
	case "loopvar":
		return "loopvar" + t.Name
	case "assert", "istype":
		return t.Op + "<" + short(t.Name) + ">(" + args(0) + ")"
	}

	return t.Op + "(" + args(0) + ")"
}

func sortTerms(ts []*Term) {
	sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
}

// walk visits t and its subterms (including what loops assign) once each; stop by returning false.
func (t *Term) walk(f func(*Term) bool) {
	seen := map[*Term]bool{}

	var rec func(x *Term)
	rec = func(x *Term) {
		if x == nil || seen[x] {
			return
		}

		seen[x] = true

		if !f(x) {
			return
		}

		for _, a := range x.Args {
			rec(a)
		}

		for _, a := range x.Updates {
			rec(a)
		}
	}

	rec(t)
}
