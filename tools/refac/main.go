// Command refac rewrites every eligible place of a Go module by one transformation that keeps the behaviour.
// It is used to look for false alarms: every check has to stay quiet on the result.
//
//	refac DIR TRANSFORMATION
package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
)

type R struct {
	src  []byte
	fset *token.FileSet
	file *ast.File
	base int
	info *types.Info
	pkg  *types.Package
	par  map[ast.Node]ast.Node
	tf   func(r *R, n ast.Node) (string, bool)
	n    int
	post string // appended to the file
	ren  map[types.Object]string
}

var seq int

func sym(p string) string { seq++; return fmt.Sprintf("%sQ%d", p, seq) }

func (r *R) off(p token.Pos) int { return r.fset.Position(p).Offset }

func (r *R) text(n ast.Node) string { return r.render(n, true) }

func (r *R) inner(n ast.Node) string { return r.render(n, false) }

func (r *R) span(n ast.Node, from, to token.Pos) string { return r.cut(n, from, to, false) }

func (r *R) render(n ast.Node, self bool) string { return r.cut(n, n.Pos(), n.End(), self) }

func (r *R) cut(n ast.Node, from, to token.Pos, self bool) string {
	type ed struct {
		a, b int
		s    string
	}

	var eds []ed

	ast.Inspect(n, func(x ast.Node) bool {
		if x == nil || x.End() <= from || x.Pos() >= to {
			return x == nil || false
		}

		if x != n || self {
			if x.Pos() >= from && x.End() <= to {
				if s, ok := r.tf(r, x); ok {
					r.n++
					eds = append(eds, ed{r.off(x.Pos()), r.off(x.End()), s})

					return false
				}

				if id, ok := x.(*ast.Ident); ok && r.ren != nil {
					if o := r.info.Uses[id]; o != nil && r.ren[o] != "" {
						eds = append(eds, ed{r.off(x.Pos()), r.off(x.End()), r.ren[o]})
					}
				}
			}
		}

		return true
	})

	sort.Slice(eds, func(i, j int) bool { return eds[i].a < eds[j].a })

	var out strings.Builder

	at := r.off(from)
	for _, e := range eds {
		if e.a < at {
			continue
		}

		out.Write(r.src[at:e.a])
		out.WriteString(e.s)
		at = e.b
	}

	out.Write(r.src[at:r.off(to)])

	return out.String()
}

func (r *R) stmts(l []ast.Stmt) string {
	if len(l) == 0 {
		return ""
	}

	var out strings.Builder
	for _, s := range l {
		out.WriteString(r.text(s) + "\n")
	}

	return out.String()
}

func inList(r *R, n ast.Node) bool {
	switch r.par[n].(type) {
	case *ast.BlockStmt, *ast.CaseClause, *ast.CommClause:
		return true
	}

	return false
}

func terminates(l []ast.Stmt) bool {
	if len(l) == 0 {
		return false
	}

	switch s := l[len(l)-1].(type) {
	case *ast.ReturnStmt:
		return true
	case *ast.BranchStmt:
		return s.Tok == token.CONTINUE && s.Label == nil
	}

	return false
}

func hasBranch(n ast.Node, toks ...token.Token) bool {
	found := false

	ast.Inspect(n, func(x ast.Node) bool {
		switch x := x.(type) {
		case *ast.FuncLit:
			return false
		case *ast.BranchStmt:
			for _, t := range toks {
				found = found || x.Tok == t
			}
		case *ast.LabeledStmt:
			found = true
		}

		return !found
	})

	return found
}

func hasCall(n ast.Node) bool {
	found := false

	ast.Inspect(n, func(x ast.Node) bool {
		switch x := x.(type) {
		case *ast.CallExpr:
			found = true
		case *ast.UnaryExpr:
			found = found || x.Op == token.ARROW
		case *ast.FuncLit:
			return false
		}

		return !found
	})

	return found
}

func (r *R) constant(e ast.Expr) bool {
	tv, ok := r.info.Types[e]
	return !ok || tv.Value != nil || tv.IsNil() || tv.IsType() || tv.IsBuiltin()
}

func (r *R) tuple(e ast.Expr) bool {
	_, ok := r.info.Types[e].Type.(*types.Tuple)
	return ok
}

func (r *R) isBool(e ast.Expr) bool {
	t, ok := r.info.Types[e]
	return ok && t.Type != nil && (t.Type == types.Typ[types.Bool] || t.Type == types.Typ[types.UntypedBool])
}

func (r *R) funcOf(n ast.Node) *types.Signature {
	for n != nil {
		switch x := n.(type) {
		case *ast.FuncDecl:
			return r.info.Defs[x.Name].Type().(*types.Signature)
		case *ast.FuncLit:
			return r.info.Types[x].Type.(*types.Signature)
		}

		n = r.par[n]
	}

	return nil
}

func binary(e ast.Expr, op token.Token) (*ast.BinaryExpr, bool) {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			break
		}

		e = p.X
	}

	b, ok := e.(*ast.BinaryExpr)

	return b, ok && b.Op == op
}

var tfs = map[string]func(r *R, n ast.Node) (string, bool){
	"invert": func(r *R, n ast.Node) (string, bool) {
		s, ok := n.(*ast.IfStmt)
		if !ok {
			return "", false
		}

		init := ""
		if s.Init != nil {
			init = r.text(s.Init) + "; "
		}

		switch e := s.Else.(type) {
		case nil:
			if terminates(s.Body.List) {
				return "", false
			}

			return "if " + init + "!(" + r.text(s.Cond) + ") {\n} else " + r.text(s.Body), true
		case *ast.BlockStmt:
			return "if " + init + "!(" + r.text(s.Cond) + ") " + r.text(e) + " else " + r.text(s.Body), true
		}

		return "", false
	},
	"returntemp": func(r *R, n ast.Node) (string, bool) {
		s, ok := n.(*ast.ReturnStmt)
		if !ok || !inList(r, n) || len(s.Results) == 0 {
			return "", false
		}

		if len(s.Results) == 1 && r.tuple(s.Results[0]) {
			t := r.info.Types[s.Results[0]].Type.(*types.Tuple)

			var names []string
			for range t.Len() {
				names = append(names, sym("ret"))
			}

			l := strings.Join(names, ", ")

			return l + " := " + r.text(s.Results[0]) + "\nreturn " + l, true
		}

		pre, res := "", []string{}

		for _, e := range s.Results {
			if _, isId := e.(*ast.Ident); isId || r.constant(e) {
				res = append(res, r.text(e))
				continue
			}

			v := sym("ret")
			pre += v + " := " + r.text(e) + "\n"
			res = append(res, v)
		}

		return pre + "return " + strings.Join(res, ", "), pre != ""
	},
	"condfunc": func(r *R, n ast.Node) (string, bool) {
		s, ok := n.(*ast.IfStmt)
		if !ok || s.Init != nil {
			return "", false
		}

		if b, ok := s.Cond.(*ast.BinaryExpr); ok && (b.Op == token.EQL || b.Op == token.NEQ) && (isNilIdent(b.X) || isNilIdent(b.Y)) {
			return "", false
		}

		if _, ok := s.Cond.(*ast.Ident); ok {
			return "", false
		}

		if b, ok := r.info.TypeOf(s.Cond).Underlying().(*types.Basic); !ok || b.Info()&types.IsBoolean == 0 {
			return "", false
		}

		ps, as, ok := r.free([]ast.Node{s.Cond})
		if !ok || hasLit(s.Cond) || len(ps) == 0 {
			return "", false
		}

		name := sym("cond")
		r.post += "\nfunc " + name + "(" + strings.Join(ps, ", ") + ") bool {\nreturn " + r.text(s.Cond) + "\n}\n"

		out := "if " + name + "(" + strings.Join(as, ", ") + ") " + r.text(s.Body)
		if s.Else != nil {
			out += " else " + r.text(s.Else)
		}

		return out, true
	},
	"tailfunc": func(r *R, n ast.Node) (string, bool) {
		f, ok := n.(*ast.FuncDecl)
		if !ok || f.Body == nil || f.Type.TypeParams != nil || len(f.Body.List) < 3 {
			return "", false
		}

		res := ""

		if f.Type.Results != nil {
			for _, fl := range f.Type.Results.List {
				if len(fl.Names) > 0 {
					return "", false
				}
			}

			res = " " + r.text(f.Type.Results)
		}

		bad := false

		ast.Inspect(f.Body, func(x ast.Node) bool {
			switch x.(type) {
			case *ast.DeferStmt, *ast.LabeledStmt:
				bad = true
			}

			return true
		})

		k := len(f.Body.List) / 2
		head, tail := f.Body.List[:k], f.Body.List[k:]

		var ns []ast.Node
		for _, x := range tail {
			ns = append(ns, x)
		}

		ps, as, ok := r.free(ns)
		if bad || !ok {
			return "", false
		}

		// what the first part keeps a reference to
		for _, h := range head {
			ast.Inspect(h, func(x ast.Node) bool {
				switch y := x.(type) {
				case *ast.FuncLit:
					bad = true
				case *ast.UnaryExpr:
					if id, ok := y.X.(*ast.Ident); ok && y.Op == token.AND {
						for _, a := range as {
							bad = bad || a == id.Name
						}
					}
				}

				return true
			})
		}

		if bad {
			return "", false
		}

		name := sym("rest")
		r.post += "\nfunc " + name + "(" + strings.Join(ps, ", ") + ")" + res + " {\n" + r.stmts(tail) + "}\n"

		call := name + "(" + strings.Join(as, ", ") + ")\n"
		if res != "" {
			call = "return " + call
		}

		return r.span(f, f.Pos(), f.Body.Lbrace) + "{\n" + r.stmts(head) + call + "}", true
	},
	"loopfunc": func(r *R, n ast.Node) (string, bool) {
		st, isStmt := n.(ast.Stmt)
		if !isStmt || !inList(r, n) {
			return "", false
		}

		switch n.(type) {
		case *ast.ForStmt, *ast.RangeStmt:
		default:
			return "", false
		}

		ps, as, ok := r.free([]ast.Node{st})
		if !ok {
			return "", false
		}

		var rets []*ast.ReturnStmt

		bad := false
		set := map[string]types.Object{}

		ast.Inspect(st, func(x ast.Node) bool {
			note := func(e ast.Expr) {
				if id, ok := e.(*ast.Ident); ok {
					o := r.info.Uses[id]
					if o != nil && (o.Pos() < st.Pos() || o.Pos() > st.End()) {
						set[id.Name] = o
					}
				}
			}

			switch y := x.(type) {
			case *ast.DeferStmt, *ast.LabeledStmt, *ast.SelectStmt, *ast.GoStmt, *ast.FuncLit:
				bad = true
			case *ast.BranchStmt:
				bad = bad || y.Label != nil
			case *ast.ReturnStmt:
				rets = append(rets, y)
			case *ast.AssignStmt:
				for _, l := range y.Lhs {
					note(l)
				}
			case *ast.IncDecStmt:
				note(y.X)
			case *ast.RangeStmt:
				if y.Tok == token.ASSIGN {
					note(y.Key)
					note(y.Value)
				}
			case *ast.UnaryExpr:
				if y.Op == token.AND {
					note(y.X)
				}
			}

			return true
		})

		if bad || len(set) > 1 {
			return "", false
		}

		// an unnamed error is the last of what is returned, and never nil
		var others []string

		for i, x := range rets {
			if len(x.Results) == 0 {
				return "", false
			}

			last := x.Results[len(x.Results)-1]
			if t := r.info.TypeOf(last); t == nil || !types.Implements(t, types.Universe.Lookup("error").Type().Underlying().(*types.Interface)) || isNilIdent(last) {
				return "", false
			}

			var os []string

			for _, o := range x.Results[:len(x.Results)-1] {
				switch o.(type) {
				case *ast.BasicLit, *ast.Ident:
				default:
					return "", false
				}

				if id, ok := o.(*ast.Ident); ok && id.Name != "nil" && id.Name != "false" {
					return "", false
				}

				os = append(os, r.text(o))
			}

			if i > 0 && strings.Join(os, ",") != strings.Join(others, ",") {
				return "", false
			}

			others = os
		}

		name := sym("loop")
		res, end, pre := "", "", ""

		for nm, o := range set {
			if _, isVar := o.(*types.Var); !isVar || o.Parent() == nil || o.Parent() == r.pkg.Scope() {
				return "", false
			}

			ty, ok := r.typeText(o.Type())
			if !ok {
				return "", false
			}

			res, end, pre = ty, nm, nm
		}

		body := r.withReturns(st, rets, end)

		if len(rets) > 0 {
			if res != "" {
				res = "(" + res + ", error)"
				end += ", nil"
			} else {
				res, end = "error", "nil"
			}
		}

		if end != "" {
			end = "return " + end + "\n"
		}

		r.post += "\nfunc " + name + "(" + strings.Join(ps, ", ") + ") " + res + " {\n" + body + "\n" + end + "}\n"
		call := name + "(" + strings.Join(as, ", ") + ")"

		switch {
		case len(rets) == 0 && pre == "":
			return call, true
		case len(rets) == 0:
			return pre + " = " + call, true
		}

		e := sym("err")
		ret := "return " + strings.Join(append(others, e), ", ")

		if pre == "" {
			return "if " + e + " := " + call + "; " + e + " != nil {\n" + ret + "\n}", true
		}

		t := sym("val")

		return t + ", " + e + " := " + call + "\nif " + e + " != nil {\n" + ret + "\n}\n" + pre + " = " + t + "\n", true
	},
	"bodywrap": func(r *R, n ast.Node) (string, bool) {
		f, ok := n.(*ast.FuncDecl)
		if !ok || f.Body == nil || f.Type.TypeParams != nil || f.Name.Name == "init" || f.Name.Name == "main" || f.Name.Name == "_" {
			return "", false
		}

		sig := r.info.Defs[f.Name].Type().(*types.Signature)
		if sig.RecvTypeParams() != nil {
			return "", false
		}

		// every parameter needs a name
		var args, params []string

		for _, fl := range f.Type.Params.List {
			ty := r.text(fl.Type)
			_, dots := fl.Type.(*ast.Ellipsis)

			ns := fl.Names
			if len(ns) == 0 {
				ns = []*ast.Ident{{Name: "_"}}
			}

			for _, id := range ns {
				nm := id.Name
				if nm == "_" {
					nm = sym("p")
				}

				params = append(params, nm+" "+ty)

				if dots {
					nm += "..."
				}

				args = append(args, nm)
			}
		}

		recv, call := "", ""
		name := sym("impl" + f.Name.Name)

		if f.Recv != nil {
			fl := f.Recv.List[0]

			nm := sym("rcv")
			if len(fl.Names) > 0 && fl.Names[0].Name != "_" {
				nm = fl.Names[0].Name
			}

			recv = "(" + nm + " " + r.text(fl.Type) + ") "
			call = nm + "."
		}

		res := ""
		if f.Type.Results != nil {
			res = " " + r.text(f.Type.Results)
		}

		ret := ""
		if sig.Results().Len() > 0 {
			ret = "return "
		}

		ps := "(" + strings.Join(params, ", ") + ")"
		r.post += "\nfunc " + recv + name + ps + res + " " + r.text(f.Body) + "\n"

		return "func " + recv + f.Name.Name + ps + res + " {\n" + ret + call + name + "(" + strings.Join(args, ", ") + ")\n}", true
	},
	"iife": func(r *R, n ast.Node) (string, bool) {
		f, ok := n.(*ast.FuncDecl)
		if !ok || f.Body == nil || len(f.Body.List) < 2 {
			return "", false
		}

		sig := r.info.Defs[f.Name].Type().(*types.Signature)
		if sig.Results().Len() == 0 {
			return "", false
		}

		for _, fl := range f.Type.Results.List {
			if len(fl.Names) > 0 {
				return "", false
			}
		}

		return r.span(f, f.Pos(), f.Body.Lbrace) + "{\nreturn func() " + string(r.src[r.off(f.Type.Results.Pos()):r.off(f.Type.Results.End())]) + " " + r.text(f.Body) + "()\n}", true
	},
	"rangeindex": func(r *R, n ast.Node) (string, bool) {
		s, ok := n.(*ast.RangeStmt)
		if !ok || !inList(r, n) || s.Tok != token.DEFINE {
			return "", false
		}

		if _, isSlice := r.info.Types[s.X].Type.Underlying().(*types.Slice); !isSlice {
			return "", false
		}

		k, isId := s.Key.(*ast.Ident)
		if !isId {
			return "", false
		}

		i := k.Name
		if i == "_" {
			i = sym("i")
		}

		if k.Name != "_" { // a key that is assigned or captured: leave it
			if captured(s.Body) {
				return "", false
			}
		}

		v, pre := "", ""
		coll := sym("coll")

		if s.Value != nil {
			if v = s.Value.(*ast.Ident).Name; v != "_" {
				pre = v + " := " + coll + "[" + i + "]\n"
			}
		}

		return coll + " := " + r.text(s.X) + "\nfor " + i + " := 0; " + i + " < len(" + coll + "); " + i + "++ {\n" + pre + r.stmts(s.Body.List) + "}", true
	},
	"mapkey": func(r *R, n ast.Node) (string, bool) {
		s, ok := n.(*ast.RangeStmt)
		if !ok || s.Tok != token.DEFINE || s.Value == nil {
			return "", false
		}

		if _, isMap := r.info.Types[s.X].Type.Underlying().(*types.Map); !isMap || hasCall(s.X) {
			return "", false
		}

		k, v := s.Key.(*ast.Ident).Name, s.Value.(*ast.Ident).Name
		if v == "_" {
			return "", false
		}

		if k == "_" {
			k = sym("k")
		}

		return "for " + k + " := range " + r.text(s.X) + " {\n" + v + " := " + string(r.src[r.off(s.X.Pos()):r.off(s.X.End())]) + "[" + k + "]\n" + r.stmts(s.Body.List) + "}", true
	},
	"switchif": func(r *R, n ast.Node) (string, bool) {
		s, ok := n.(*ast.SwitchStmt)
		if !ok || !inList(r, n) || hasBranch(s.Body, token.BREAK, token.FALLTHROUGH, token.GOTO) || s.Init != nil {
			return "", false
		}

		out, tag := "", ""

		if s.Tag != nil {
			tag = sym("tag")
			out = tag + " := " + r.text(s.Tag) + "\n"
		}

		def, first := "", true

		for _, c := range s.Body.List {
			cc := c.(*ast.CaseClause)
			if cc.List == nil {
				def = r.stmts(cc.Body)
				if def == "" {
					def = "\n"
				}

				continue
			}

			var conds []string

			for _, e := range cc.List {
				if tag != "" {
					conds = append(conds, tag+" == "+r.text(e))
				} else {
					conds = append(conds, "("+r.text(e)+")")
				}
			}

			if !first {
				out += " else "
			}

			first = false
			out += "if " + strings.Join(conds, " || ") + " {\n" + r.stmts(cc.Body) + "}"
		}

		if first {
			return "", false
		}

		if def != "" {
			out += " else {\n" + def + "}"
		}

		if _, isBlk := r.par[n].(*ast.BlockStmt); !isBlk {
			return out, true
		}

		return out, true
	},
	"ifswitch": func(r *R, n ast.Node) (string, bool) {
		s, ok := n.(*ast.IfStmt)
		if !ok || !inList(r, n) || s.Else == nil {
			return "", false
		}

		out := "switch {\n"

		for {
			if s.Init != nil || hasBranch(s.Body, token.BREAK) {
				return "", false
			}

			out += "case " + r.text(s.Cond) + ":\n" + r.stmts(s.Body.List)

			switch e := s.Else.(type) {
			case nil:
				return out + "}", true
			case *ast.BlockStmt:
				if hasBranch(e, token.BREAK) {
					return "", false
				}

				return out + "default:\n" + r.stmts(e.List) + "}", true
			case *ast.IfStmt:
				s = e
			}
		}
	},
	"hoistinit": func(r *R, n ast.Node) (string, bool) {
		s, ok := n.(*ast.IfStmt)
		if !ok || !inList(r, n) || s.Init == nil {
			return "", false
		}

		out := "{\n" + r.text(s.Init) + "\nif " + r.text(s.Cond) + " " + r.text(s.Body)
		if s.Else != nil {
			out += " else " + r.text(s.Else)
		}

		return out + "\n}", true
	},
	"andnest": func(r *R, n ast.Node) (string, bool) {
		s, ok := n.(*ast.IfStmt)
		if !ok || !inList(r, n) || s.Else != nil {
			return "", false
		}

		init := ""
		if s.Init != nil {
			init = r.text(s.Init) + "; "
		}

		if b, ok := binary(s.Cond, token.LAND); ok {
			return "if " + init + r.text(b.X) + " {\nif " + r.text(b.Y) + " " + r.text(s.Body) + "\n}", true
		}

		return "", false
	},
	"orsplit": func(r *R, n ast.Node) (string, bool) {
		s, ok := n.(*ast.IfStmt)
		if !ok || !inList(r, n) || s.Else != nil || s.Init != nil || !terminates(s.Body.List) {
			return "", false
		}

		b, ok := binary(s.Cond, token.LOR)
		if !ok {
			return "", false
		}

		return "if " + r.text(b.X) + " " + r.text(s.Body) + "\nif " + r.text(b.Y) + " " + r.text(s.Body), true
	},
	"elsereturn": func(r *R, n ast.Node) (string, bool) {
		b, ok := n.(*ast.BlockStmt)
		if !ok || hasBranch(b, token.GOTO) {
			return "", false
		}

		for i, st := range b.List {
			s, ok := st.(*ast.IfStmt)
			if !ok || s.Else != nil || !terminates(s.Body.List) || i == len(b.List)-1 {
				continue
			}

			rest := b.List[i+1:]

			var tail strings.Builder

			// the rest is itself a list that may hold such a statement
			tail.WriteString(r.elseRest(rest))

			return "{\n" + r.stmts(b.List[:i]) + strings.TrimRight(r.text(s), "\n") + " else {\n" + tail.String() + "}\n}", true
		}

		return "", false
	},
	"continuenest": func(r *R, n ast.Node) (string, bool) {
		b, ok := n.(*ast.BlockStmt)
		if !ok {
			return "", false
		}

		switch r.par[b].(type) {
		case *ast.ForStmt, *ast.RangeStmt:
		default:
			return "", false
		}

		return "{\n" + r.nest(b.List) + "}", true
	},
	"hoistargs": func(r *R, n ast.Node) (string, bool) {
		if !inList(r, n) {
			return "", false
		}

		var e ast.Expr

		switch s := n.(type) {
		case *ast.ExprStmt:
			e = s.X
		case *ast.AssignStmt:
			if len(s.Rhs) == 1 && len(s.Lhs) > 0 {
				for _, l := range s.Lhs {
					if _, isId := l.(*ast.Ident); !isId {
						return "", false
					}
				}

				e = s.Rhs[0]
			}
		case *ast.ReturnStmt:
			if len(s.Results) == 1 {
				e = s.Results[0]
			}
		}

		c, ok := e.(*ast.CallExpr)
		if !ok || len(c.Args) == 0 {
			return "", false
		}

		if tv := r.info.Types[c.Fun]; tv.IsType() || tv.IsBuiltin() {
			return "", false
		}

		if hasCall(c.Fun) {
			return "", false
		}

		pre, out := "", string(r.src[r.off(n.Pos()):r.off(c.Lparen)+1])

		var args []string

		for _, a := range c.Args {
			if r.constant(a) || r.tuple(a) {
				args = append(args, r.text(a))
				continue
			}

			if _, isFn := a.(*ast.FuncLit); isFn {
				args = append(args, r.text(a))
				continue
			}

			v := sym("arg")
			pre += v + " := " + r.text(a) + "\n"
			args = append(args, v)
		}

		if c.Ellipsis.IsValid() {
			args[len(args)-1] += "..."
		}

		if pre == "" {
			return "", false
		}

		return pre + out + strings.Join(args, ", ") + ")", true
	},
	"swapeq": func(r *R, n ast.Node) (string, bool) {
		b, ok := n.(*ast.BinaryExpr)
		if !ok || hasCall(b.X) && hasCall(b.Y) {
			return "", false
		}

		op := map[token.Token]string{token.EQL: "==", token.NEQ: "!=", token.LSS: ">", token.GTR: "<", token.LEQ: ">=", token.GEQ: "<="}[b.Op]
		if op == "" {
			return "", false
		}

		return "(" + r.text(b.Y) + ") " + op + " (" + r.text(b.X) + ")", true
	},
	"lencmp": func(r *R, n ast.Node) (string, bool) {
		b, ok := n.(*ast.BinaryExpr)
		if !ok || b.Op != token.EQL && b.Op != token.NEQ && b.Op != token.GTR {
			return "", false
		}

		tv := r.info.Types[b.Y]
		if tv.Value == nil {
			return "", false
		}

		if c, isCall := b.X.(*ast.CallExpr); isCall {
			if id, isId := c.Fun.(*ast.Ident); isId && id.Name == "len" && constant.Compare(tv.Value, token.EQL, constant.MakeInt64(0)) {
				return r.text(b.X) + map[token.Token]string{token.EQL: " < 1", token.NEQ: " >= 1", token.GTR: " >= 1"}[b.Op], true
			}
		}

		if tv.Value.Kind() == constant.String && constant.StringVal(tv.Value) == "" && b.Op != token.GTR {
			if bt, isB := r.info.Types[b.X].Type.Underlying().(*types.Basic); isB && bt.Info()&types.IsString != 0 {
				return "len(" + r.text(b.X) + ")" + map[token.Token]string{token.EQL: " == 0", token.NEQ: " != 0"}[b.Op], true
			}
		}

		return "", false
	},
	"complit": func(r *R, n ast.Node) (string, bool) {
		if !inList(r, n) {
			return "", false
		}

		lit := func(e ast.Expr) (*ast.CompositeLit, bool) {
			amp := false
			if u, ok := e.(*ast.UnaryExpr); ok && u.Op == token.AND {
				amp, e = true, u.X
			}

			c, ok := e.(*ast.CompositeLit)
			if !ok || c.Type == nil || len(c.Elts) == 0 {
				return nil, false
			}

			if _, isStruct := r.info.Types[c].Type.Underlying().(*types.Struct); !isStruct {
				return nil, false
			}

			for _, el := range c.Elts {
				if _, kv := el.(*ast.KeyValueExpr); !kv {
					return nil, false
				}
			}

			return c, amp
		}
		build := func(v string, c *ast.CompositeLit, amp bool) string {
			out := v + " := "
			if amp {
				out += "&"
			}

			out += r.text(c.Type) + "{}\n"

			for _, el := range c.Elts {
				kv := el.(*ast.KeyValueExpr)
				out += v + "." + kv.Key.(*ast.Ident).Name + " = " + r.text(kv.Value) + "\n"
			}

			return out
		}

		switch s := n.(type) {
		case *ast.AssignStmt:
			if len(s.Rhs) != 1 || len(s.Lhs) != 1 || s.Tok != token.DEFINE {
				return "", false
			}

			if c, amp := lit(s.Rhs[0]); c != nil {
				return strings.TrimRight(build(s.Lhs[0].(*ast.Ident).Name, c, amp), "\n"), true
			}
		case *ast.ReturnStmt:
			for i, e := range s.Results {
				c, amp := lit(e)
				if c == nil {
					continue
				}

				v := sym("obj")

				var res []string
				for j, o := range s.Results {
					if j == i {
						res = append(res, v)
					} else if hasCall(o) {
						return "", false
					} else {
						res = append(res, r.text(o))
					}
				}

				return build(v, c, amp) + "return " + strings.Join(res, ", "), true
			}
		}

		return "", false
	},
	"paramcopy": func(r *R, n ast.Node) (string, bool) {
		f, ok := n.(*ast.FuncDecl)
		if !ok || f.Body == nil {
			return "", false
		}

		pre := ""
		saved := r.ren
		r.ren = map[types.Object]string{}

		fls := append([]*ast.Field{}, f.Type.Params.List...)
		if f.Recv != nil {
			fls = append(fls, f.Recv.List...)
		}

		for _, fl := range fls {
			for _, id := range fl.Names {
				if id.Name == "_" {
					continue
				}

				if o := r.info.Defs[id]; o != nil && used(r, f.Body, o) {
					// a lock must not be copied
					if _, isPtr := o.Type().Underlying().(*types.Struct); isPtr {
						continue
					}

					v := sym("cp" + id.Name)
					r.ren[o] = v
					pre += v + " := " + id.Name + "\n"
				}
			}
		}

		body := r.stmts(f.Body.List)
		r.ren = saved

		return r.span(f, f.Pos(), f.Body.Lbrace) + "{\n" + pre + body + "}", pre != ""
	},
	"condlocal": func(r *R, n ast.Node) (string, bool) {
		s, ok := n.(*ast.IfStmt)
		if !ok || !inList(r, n) || s.Init != nil {
			return "", false
		}

		v := sym("cond")
		out := v + " := " + r.text(s.Cond) + "\nif " + v + " " + r.text(s.Body)

		if s.Else != nil {
			out += " else " + r.text(s.Else)
		}

		return out, true
	},
	"demorgan": func(r *R, n ast.Node) (string, bool) {
		b, ok := n.(*ast.BinaryExpr)
		if !ok || b.Op != token.LAND && b.Op != token.LOR {
			return "", false
		}

		op := " || "
		if b.Op == token.LOR {
			op = " && "
		}

		return "!(!(" + r.text(b.X) + ")" + op + "!(" + r.text(b.Y) + "))", true
	},
	"boolreturn": func(r *R, n ast.Node) (string, bool) {
		s, ok := n.(*ast.ReturnStmt)
		if !ok || !inList(r, n) || len(s.Results) != 1 || !r.isBool(s.Results[0]) || r.constant(s.Results[0]) {
			return "", false
		}

		return "if " + r.text(s.Results[0]) + " {\nreturn true\n}\nreturn false", true
	},
	"typeswitch": func(r *R, n ast.Node) (string, bool) {
		s, ok := n.(*ast.IfStmt)
		if !ok || !inList(r, n) || s.Else != nil || s.Init == nil || hasBranch(s.Body, token.BREAK) {
			return "", false
		}

		a, ok := s.Init.(*ast.AssignStmt)
		if !ok || len(a.Lhs) != 2 || a.Tok != token.DEFINE {
			return "", false
		}

		ta, ok := a.Rhs[0].(*ast.TypeAssertExpr)
		if !ok {
			return "", false
		}

		id, ok := s.Cond.(*ast.Ident)
		if !ok || id.Name != a.Lhs[1].(*ast.Ident).Name {
			return "", false
		}

		v := a.Lhs[0].(*ast.Ident).Name
		if v == "_" {
			return "switch " + r.text(ta.X) + ".(type) {\ncase " + r.text(ta.Type) + ":\n" + r.stmts(s.Body.List) + "}", true
		}

		return "switch " + v + " := " + r.text(ta.X) + ".(type) {\ncase " + r.text(ta.Type) + ":\n" + r.stmts(s.Body.List) + "}", true
	},
	"opassign": func(r *R, n ast.Node) (string, bool) {
		switch s := n.(type) {
		case *ast.AssignStmt:
			ops := map[token.Token]string{token.ADD_ASSIGN: "+", token.SUB_ASSIGN: "-", token.OR_ASSIGN: "|", token.MUL_ASSIGN: "*"}
			if op := ops[s.Tok]; op != "" && !hasCall(s.Lhs[0]) {
				return r.text(s.Lhs[0]) + " = " + r.text(s.Lhs[0]) + " " + op + " (" + r.text(s.Rhs[0]) + ")", true
			}
		case *ast.IncDecStmt:
			if s.Tok == token.INC {
				return r.text(s.X) + " += 1", true
			}
		}

		return "", false
	},
	"vardecl": func(r *R, n ast.Node) (string, bool) {
		s, ok := n.(*ast.AssignStmt)
		if !ok || !inList(r, n) || s.Tok != token.DEFINE {
			return "", false
		}

		for _, l := range s.Lhs {
			id := l.(*ast.Ident)
			if id.Name != "_" && r.info.Defs[id] == nil {
				return "", false // one is redefined
			}
		}

		return "var " + string(r.src[r.off(s.Lhs[0].Pos()):r.off(s.Lhs[len(s.Lhs)-1].End())]) + " = " + r.list(s.Rhs), true
	},
	"recvfield": func(r *R, n ast.Node) (string, bool) { // a member that is called through is read into a local first
		if !inList(r, n) {
			return "", false
		}

		var c *ast.CallExpr

		switch s := n.(type) {
		case *ast.ExprStmt:
			c, _ = s.X.(*ast.CallExpr)
		case *ast.AssignStmt:
			if len(s.Rhs) == 1 {
				c, _ = s.Rhs[0].(*ast.CallExpr)
			}

			for _, l := range s.Lhs {
				if _, isId := l.(*ast.Ident); !isId {
					return "", false
				}
			}
		case *ast.ReturnStmt:
			if len(s.Results) == 1 {
				c, _ = s.Results[0].(*ast.CallExpr)
			}
		}

		if c == nil {
			return "", false
		}

		sel, ok := c.Fun.(*ast.SelectorExpr)
		if !ok {
			return "", false
		}

		x, ok := sel.X.(*ast.SelectorExpr)
		if !ok || r.info.Selections[x] == nil {
			return "", false
		}

		switch t := r.info.Types[x].Type; t.Underlying().(type) {
		case *types.Interface, *types.Pointer:
		default:
			return "", false
		}

		v := sym("fld")

		return v + " := " + r.text(x) + "\n" + string(r.src[r.off(n.Pos()):r.off(x.Pos())]) + v + r.span(n, x.End(), n.End()), true
	},
	"fnvalue": func(r *R, n ast.Node) (string, bool) { // helpers are called through a local
		c, ok := n.(*ast.CallExpr)
		if !ok {
			return "", false
		}

		id, ok := c.Fun.(*ast.Ident)
		if !ok {
			return "", false
		}

		f, ok := r.info.Uses[id].(*types.Func)
		if !ok || f.Pkg() != r.pkg || f.Type().(*types.Signature).TypeParams() != nil {
			return "", false
		}

		return "(" + id.Name + ")" + r.span(c, c.Lparen, c.End()), true
	},
	"errwrap": func(r *R, n ast.Node) (string, bool) { // return f() with an error -> explicit check
		s, ok := n.(*ast.ReturnStmt)
		if !ok || !inList(r, n) || len(s.Results) != 1 {
			return "", false
		}

		c, ok := s.Results[0].(*ast.CallExpr)
		if !ok || types.TypeString(r.info.Types[c].Type, nil) != "error" || strings.HasPrefix(r.text(c.Fun), "fmt.") || strings.HasPrefix(r.text(c.Fun), "errors.") {
			return "", false
		}

		v := sym("err")

		return "if " + v + " := " + r.text(c) + "; " + v + " != nil {\nreturn " + v + "\n}\nreturn nil", true
	},
	"namedres": func(r *R, n ast.Node) (string, bool) { // results get names
		f, ok := n.(*ast.FuncDecl)
		if !ok || f.Body == nil || f.Type.Results == nil {
			return "", false
		}

		var res []string

		for _, fl := range f.Type.Results.List {
			if len(fl.Names) > 0 {
				return "", false
			}

			res = append(res, sym("res")+" "+r.text(fl.Type))
		}

		return string(r.src[r.off(f.Pos()):r.off(f.Type.Params.End())]) + " (" + strings.Join(res, ", ") + ") " + r.text(f.Body), true
	},
	"strconst": func(r *R, n ast.Node) (string, bool) {
		return "", false
	},
	"defermove": func(r *R, n ast.Node) (string, bool) {
		s, ok := n.(*ast.DeferStmt)
		if !ok {
			return "", false
		}

		if _, isLit := s.Call.Fun.(*ast.FuncLit); isLit || len(s.Call.Args) > 0 {
			return "", false
		}

		return "defer func() {\n" + r.text(s.Call) + "\n}()", true
	},
	"extractloop": func(r *R, n ast.Node) (string, bool) { // the body of a loop becomes a closure
		s, ok := n.(*ast.RangeStmt)
		if !ok || hasBranch(s.Body, token.BREAK, token.CONTINUE, token.GOTO) || len(s.Body.List) == 0 {
			return "", false
		}

		bad := false

		ast.Inspect(s.Body, func(x ast.Node) bool {
			switch x.(type) {
			case *ast.ReturnStmt, *ast.DeferStmt:
				bad = true
			case *ast.FuncLit:
				return false
			}

			return !bad
		})

		if bad {
			return "", false
		}

		return r.span(s, s.Pos(), s.Body.Lbrace) + "{\nfunc() {\n" + r.stmts(s.Body.List) + "}()\n}", true
	},
}

func (r *R) list(es []ast.Expr) string {
	var out []string
	for _, e := range es {
		out = append(out, r.text(e))
	}

	return strings.Join(out, ", ")
}

func used(r *R, n ast.Node, o types.Object) bool {
	found := false

	ast.Inspect(n, func(x ast.Node) bool {
		if id, ok := x.(*ast.Ident); ok && r.info.Uses[id] == o {
			found = true
		}

		return !found
	})

	return found
}

func captured(n ast.Node) bool {
	found := false

	ast.Inspect(n, func(x ast.Node) bool {
		switch x.(type) {
		case *ast.FuncLit:
			found = true
		}

		return !found
	})

	return found
}

func (r *R) elseRest(l []ast.Stmt) string {
	for i, st := range l {
		s, ok := st.(*ast.IfStmt)
		if !ok || s.Else != nil || !terminates(s.Body.List) || i == len(l)-1 {
			continue
		}

		return r.stmts(l[:i]) + r.text(s) + " else {\n" + r.elseRest(l[i+1:]) + "}\n"
	}

	return r.stmts(l)
}

func (r *R) nest(l []ast.Stmt) string {
	for i, st := range l {
		s, ok := st.(*ast.IfStmt)
		if !ok || s.Else != nil || s.Init != nil || len(s.Body.List) != 1 || i == len(l)-1 {
			continue
		}

		b, ok := s.Body.List[0].(*ast.BranchStmt)
		if !ok || b.Tok != token.CONTINUE || b.Label != nil {
			continue
		}

		return r.stmts(l[:i]) + "if !(" + r.text(s.Cond) + ") {\n" + r.nest(l[i+1:]) + "}\n"
	}

	return r.stmts(l)
}

func main() {
	dir, name := os.Args[1], os.Args[2]

	if name == "list" {
		var ns []string
		for n := range tfs {
			ns = append(ns, n)
		}

		sort.Strings(ns)
		fmt.Println(strings.Join(ns, " "))

		return
	}

	tf := tfs[name]
	if tf == nil {
		fmt.Println("no such transformation")
		os.Exit(2)
	}

	pkgs, err := packages.Load(&packages.Config{Dir: dir, Mode: packages.LoadAllSyntax}, "./...")
	if err != nil {
		panic(err)
	}

	orig := map[string][]byte{}
	total := 0

	for _, p := range pkgs {
		for i, f := range p.Syntax {
			path := p.CompiledGoFiles[i]
			if !strings.HasPrefix(path, dir) || strings.HasSuffix(path, "_test.go") || strings.Contains(path, "testsupport") || strings.Contains(path, "testutil") {
				continue
			}

			src, err := os.ReadFile(path)
			if err != nil {
				continue
			}

			r := &R{src: src, fset: p.Fset, file: f, info: p.TypesInfo, pkg: p.Types, par: map[ast.Node]ast.Node{}, tf: tf}

			var stack []ast.Node

			ast.Inspect(f, func(n ast.Node) bool {
				if n == nil {
					stack = stack[:len(stack)-1]
					return true
				}

				if len(stack) > 0 {
					r.par[n] = stack[len(stack)-1]
				}

				stack = append(stack, n)

				return true
			})

			body := r.cut(f, f.FileStart, f.FileEnd, false) + r.post

			if r.n > 0 {
				orig[path] = src
				total += r.n

				if err := os.WriteFile(path, []byte(body), 0o600); err != nil {
					panic(err)
				}
			}
		}
	}

	re := regexp.MustCompile(`(?m)^(\S+\.go):\d+`)
	reverted := 0

	for range 60 {
		cmd := exec.Command("go", "build", "-gcflags=-e", "./...")
		cmd.Dir = dir

		out, err := cmd.CombinedOutput()
		if err == nil {
			break
		}

		if os.Getenv("RDBG") != "" {
			fmt.Println(string(out))
		}

		any := false

		for _, m := range re.FindAllStringSubmatch(string(out), -1) {
			p := filepath.Join(dir, m[1])
			if src, ok := orig[p]; ok {
				_ = os.WriteFile(p, src, 0o600)

				delete(orig, p)
				reverted++
				any = true
			}
		}

		if !any {
			fmt.Println("cannot make it build:", string(out))
			os.Exit(1)
		}
	}

	fmt.Printf("%s: %d places in %d files, %d files reverted\n", name, total, len(orig), reverted)
}

func isNilIdent(e ast.Expr) bool {
	id, ok := e.(*ast.Ident)
	return ok && id.Name == "nil"
}

func hasLit(n ast.Node) (lit bool) {
	ast.Inspect(n, func(x ast.Node) bool {
		if _, ok := x.(*ast.FuncLit); ok {
			lit = true
		}

		return true
	})

	return lit
}

// withReturns is a loop whose returns give back the error only (and what the loop sets).
func (r *R) withReturns(st ast.Stmt, rets []*ast.ReturnStmt, set string) string {
	is := map[ast.Node]string{}

	for _, x := range rets {
		t := "return "
		if set != "" {
			t += set + ", "
		}

		is[x] = t + r.text(x.Results[len(x.Results)-1])
	}

	old := r.tf
	r.tf = func(_ *R, n ast.Node) (string, bool) {
		t, ok := is[n]
		return t, ok
	}

	out := r.text(st)
	r.tf = old

	return out
}

var unexportedOther = regexp.MustCompile(`\b[a-zA-Z_]\w*\.[a-z]`)

// typeText is how the type is written in this file.
func (r *R) typeText(t types.Type) (string, bool) {
	names := map[string]string{}

	for _, im := range r.file.Imports {
		path := strings.Trim(im.Path.Value, `"`)
		if im.Name != nil {
			names[path] = im.Name.Name
		} else if p := imported(r.pkg, path); p != nil {
			names[path] = p.Name()
		}
	}

	ok := true
	s := types.TypeString(t, func(p *types.Package) string {
		if p == r.pkg {
			return ""
		}

		n := names[p.Path()]
		ok = ok && n != "" && n != "_" && n != "."

		return n
	})

	return s, ok && !unexportedOther.MatchString(s) && !strings.Contains(s, "invalid type")
}

func imported(p *types.Package, path string) *types.Package {
	for _, q := range p.Imports() {
		if q.Path() == path {
			return q
		}
	}

	return nil
}

// free are the local variables the nodes use but do not declare, as parameters and as arguments.
func (r *R) free(ns []ast.Node) (params, args []string, ok bool) {
	seen := map[types.Object]bool{}
	name := map[string]bool{}

	ok = true

	for _, n := range ns {
		ast.Inspect(n, func(x ast.Node) bool {
			id, isID := x.(*ast.Ident)
			if !isID {
				return true
			}

			o := r.info.Uses[id]
			if o == nil || o.Parent() == nil || o.Parent() == types.Universe || o.Parent() == r.pkg.Scope() {
				return true
			}

			switch o := o.(type) {
			case *types.PkgName:
				return true
			case *types.Var:
				if o.IsField() || seen[o] || o.Pkg() != r.pkg || o.Pos() >= ns[0].Pos() && o.Pos() < ns[len(ns)-1].End() {
					return true
				}

				seen[o] = true

				t, good := r.typeText(o.Type())
				if _, tp := o.Type().(*types.TypeParam); tp || !good || name[o.Name()] {
					ok = false
					return true
				}

				name[o.Name()] = true
				params = append(params, o.Name()+" "+t)
				args = append(args, o.Name())
			default:
				ok = false // local types, constants, labels
			}

			return true
		})
	}

	return params, args, ok
}
