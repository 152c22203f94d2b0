package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var strengthRx = regexp.MustCompile(`(?:^|[^0-9])(256|384|512|521)(?:$|[^0-9])`)

// strengthOf: the curve or digest size a name denotes ("" if none).
func strengthOf(n string) string {
	if m := regexp.MustCompile(`(?i)sha-?512[._/]?(new|sum)?384`).FindString(n); m != "" {
		return "384"
	}

	m := strengthRx.FindAllStringSubmatch(n, -1)
	if len(m) == 0 {
		return ""
	}

	s := m[0][1]

	for _, x := range m {
		if x[1] != s {
			return "" // of several
		}
	}

	if s == "521" {
		return "512"
	}

	return s
}

// branchesAgree: in every branch that chooses a curve, digest, verifier or key type, all that is chosen is of one size,
// the one the branch is taken for.
func (c *Ctx) branchesAgree(pkgs string) {
	for _, f := range c.P.Funcs {
		if f.Blocks == nil || f.Synthetic != "" || !nameMatch(fnPkgPath(f), pkgs) {
			continue
		}

		rows := map[*ssa.BasicBlock]map[string][]string{}
		sizes := map[string]bool{}

		for _, b := range f.Blocks {
			row := map[string][]string{}
			add := func(n string) {
				if s := strengthOf(n); s != "" {
					row[s] = append(row[s], n)
				}
			}

			denoted := func(v ssa.Value) {
				if k, ok := v.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String {
					add(constant.StringVal(k.Value))
				}
			}

			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Call:
					if cl := x.Call.StaticCallee(); cl != nil && nameMatch(calleeName(&x.Call), "~^crypto/") {
						add(calleeName(&x.Call))
					}
				case *ssa.FieldAddr:
					add(structField(x.X.Type(), x.Field))
				case *ssa.Field:
					add(structField(x.X.Type(), x.Field))
				case *ssa.Store:
					denoted(x.Val)
				case *ssa.Return:
					for _, r := range x.Results {
						denoted(r)
					}
				}
			}

			if len(b.Preds) != 0 {
				for _, s := range b.Succs {
					for _, in := range s.Instrs {
						p, ok := in.(*ssa.Phi)
						if !ok {
							break
						}

						denoted(p.Edges[predIndex(s, b)])
					}
				}
			}

			if len(row) == 0 {
				continue
			}

			// what the branch is taken for
			if len(b.Preds) == 1 {
				if br, ok := b.Preds[0].Instrs[len(b.Preds[0].Instrs)-1].(*ssa.If); ok {
					if cmp, ok := br.Cond.(*ssa.BinOp); ok && (cmp.Op == token.EQL && b.Preds[0].Succs[0] == b || cmp.Op == token.NEQ && b.Preds[0].Succs[1] == b) {
						denoted(cmp.X)
						denoted(cmp.Y)
					}
				}
			}

			for s := range row {
				sizes[s] = true
			}

			rows[b] = row
		}

		pure := 0

		for _, row := range rows {
			if len(row) == 1 {
				pure++
			}
		}

		if len(sizes) < 2 || pure == 0 {
			continue // nothing to choose from
		}

		for _, b := range f.Blocks {
			if rows[b] == nil || len(b.Preds) == 0 {
				continue
			}

			var all []string
			for s, n := range rows[b] {
				sort.Strings(n)
				all = append(all, s+": "+strings.Join(n, ", "))
			}

			sort.Strings(all)
			c.oblige(len(rows[b]) == 1, "agree|"+shortName(f), fmt.Sprintf("a branch chooses things of different sizes (%s)", strings.Join(all, "; ")), c.P.pos(firstPos(b)), nil)
		}
	}
}

// slotsAgree: what is put into a member named after a curve or digest size is made for that size.
func (c *Ctx) slotsAgree() {
	for _, f := range c.P.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}

				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}

				n := structField(fa.X.Type(), fa.Field)
				if want := strengthOf(n); want != "" {
					for _, from := range sources(st.Val) {
						got := strengthOf(from)
						c.oblige(got == "" || got == want, "slot|"+shortName(f)+"|"+n, from+" is put into "+n, c.P.pos(st.Pos()), nil)
					}
				}
			}
		}
	}
}

// sources are the names of the functions a value may be the result of, and of the members and constants it may come from.
func sources(v ssa.Value) (ns []string) {
	seen := map[ssa.Value]bool{}

	var walk func(v ssa.Value)

	walk = func(v ssa.Value) {
		if seen[v] {
			return
		}

		seen[v] = true

		switch x := v.(type) {
		case *ssa.Phi:
			for _, e := range x.Edges {
				walk(e)
			}
		case *ssa.MakeInterface:
			walk(x.X)
		case *ssa.ChangeInterface:
			walk(x.X)
		case *ssa.ChangeType:
			walk(x.X)
		case *ssa.Extract:
			walk(x.Tuple)
		case *ssa.Call:
			if cl := x.Call.StaticCallee(); cl != nil {
				ns = append(ns, cl.Name())
			}
		case *ssa.Field:
			ns = append(ns, structField(x.X.Type(), x.Field))
		case *ssa.Const:
			if x.Value != nil && x.Value.Kind() == constant.String {
				ns = append(ns, constant.StringVal(x.Value))
			}
		case *ssa.UnOp:
			switch a := x.X.(type) {
			case *ssa.FieldAddr:
				ns = append(ns, structField(a.X.Type(), a.Field))
			case *ssa.Alloc:
				for _, r := range *a.Referrers() {
					if st, ok := r.(*ssa.Store); ok && st.Addr == a {
						walk(st.Val)
					}
				}
			}
		}
	}

	walk(v)

	return ns
}

func firstPos(b *ssa.BasicBlock) token.Pos {
	for _, in := range b.Instrs {
		if in.Pos().IsValid() {
			return in.Pos()
		}
	}

	return b.Parent().Pos()
}
