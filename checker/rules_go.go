package main

import (
	"go/token"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// goroutines the library starts don't share what they write, and what they read isn't written meanwhile.
func (a *lockAnalysis) goroutines(m *mutAnalysis) {
	g := &guardScan{a: a, m: m}

	for _, f := range a.fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				x, ok := in.(*ssa.Go)
				if !ok {
					continue
				}

				a.c.count("goroutines started", 1)

				fn := x.Call.StaticCallee()
				if fn == nil || fn.Blocks == nil {
					continue
				}

				a.goWrites(g, m, x, fn)
				a.goReads(x, fn)
			}
		}
	}
}

// goWrites: what a goroutine writes of what it was given.
func (a *lockAnalysis) goWrites(g *guardScan, m *mutAnalysis, x *ssa.Go, fn *ssa.Function) {
	ef := m.get(fn)
	if ef == nil {
		return
	}

	for l, mu := range ef.muts {
		held := g.writeLocked(mu, 0)

		m.startsAt(l, func(r *Term, _ int) {
			if !sharedRoot(r) || r.Op == "gaddr" || r.Op == "global" {
				return
			}

			var given ssa.Value

			for i, p := range fn.Params {
				if r.Op == "param" && r.Name == p.Name() && i < len(x.Call.Args) {
					given = x.Call.Args[i]
				}
			}

			mc, _ := x.Call.Value.(*ssa.MakeClosure)
			for i, fv := range fn.FreeVars {
				if r.Op == "freevar" && r.Name == fv.Name() && mc != nil {
					given = mc.Bindings[i]
				}
			}

			ok := held || ownElement(l, fn) || given != nil && a.private(x, given)
			a.c.oblige(ok, "goroutine:"+shortName(x.Parent())+":"+r.Name, "a goroutine started by "+shortName(x.Parent())+" writes to "+r.Name+", which others use, without a lock", a.c.P.pos(mu.in.Pos()), []string{l.String()})
		})
	}

	if len(ef.muts) == 0 {
		a.c.oblige(true, "", "", "", nil)
	}
}

// ownElement: an element of a slice at an index the goroutine was given.
func ownElement(l *Term, fn *ssa.Function) bool {
	if l.Op == "field" {
		return ownElement(l.Args[0], fn)
	}

	if l.Op != "elem" || len(l.Args) < 2 {
		return false
	}

	switch i := unref(l.Args[1]); i.Op {
	case "param", "freevar":
		return true
	case "field", "elem":
		return i.Args[0].Op == "param" || i.Args[0].Op == "freevar"
	}

	return false
}

// private: a variable that this one goroutine has to itself until it is waited for.
func (a *lockAnalysis) private(x *ssa.Go, given ssa.Value) bool {
	al := rootAlloc(given)
	if al == nil {
		return false
	}

	// started again with the same variable?
	again := false
	used := false

	walkAfter(x, al, func(in ssa.Instruction) {
		if in == ssa.Instruction(x) {
			again = true
		}

		for _, op := range in.Operands(nil) {
			if *op != nil && (*op == ssa.Value(al) || rootAlloc(*op) == al) {
				used = true
			}
		}
	})

	return !again && !used
}

func rootAlloc(v ssa.Value) *ssa.Alloc {
	for i := 0; i < 8; i++ {
		switch x := v.(type) {
		case *ssa.Alloc:
			return x
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.UnOp:
			if x.Op != token.MUL {
				return nil
			}

			v = x.X
		default:
			return nil
		}
	}

	return nil
}

// walkAfter visits what may run after an instruction, until the variable is made anew or the goroutine is waited for.
func walkAfter(x ssa.Instruction, al *ssa.Alloc, f func(ssa.Instruction)) {
	seen := map[*ssa.BasicBlock]bool{}
	work := []*ssa.BasicBlock{}

	run := func(b *ssa.BasicBlock, from int) {
		for _, in := range b.Instrs[from:] {
			if in == ssa.Instruction(al) || joins(in) {
				return
			}

			f(in)
		}

		work = append(work, b.Succs...)
	}

	for i, in := range x.Block().Instrs {
		if in == x {
			run(x.Block(), i+1)
		}
	}

	for len(work) > 0 {
		b := work[len(work)-1]
		work = work[:len(work)-1]

		if seen[b] || headsJoin(b) {
			continue
		}

		seen[b] = true
		run(b, 0)
	}
}

func joins(in ssa.Instruction) bool {
	switch x := in.(type) {
	case *ssa.UnOp:
		return x.Op == token.ARROW
	case *ssa.Select:
		return true
	case ssa.CallInstruction:
		n := calleeName(x.Common())
		return n == "(*sync.WaitGroup).Wait" || strings.HasSuffix(n, "errgroup.Group).Wait")
	}

	return false
}

// headsJoin: the loop this block heads waits, in each round, for one of the goroutines.
func headsJoin(b *ssa.BasicBlock) bool {
	for _, j := range b.Parent().Blocks {
		if !b.Dominates(j) || !reaches(j, b) {
			continue
		}

		for _, in := range j.Instrs {
			if joins(in) {
				return true
			}
		}
	}

	return false
}

func reaches(from, to *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	work := append([]*ssa.BasicBlock{}, from.Succs...)

	for len(work) > 0 {
		b := work[len(work)-1]
		work = work[:len(work)-1]

		if b == to {
			return true
		}

		if !seen[b] {
			seen[b] = true
			work = append(work, b.Succs...)
		}
	}

	return false
}

// goReads: a variable a goroutine reads isn't written by its starter meanwhile.
func (a *lockAnalysis) goReads(x *ssa.Go, fn *ssa.Function) {
	mc, ok := x.Call.Value.(*ssa.MakeClosure)
	if !ok {
		return
	}

	for i, b := range mc.Bindings {
		al, ok := b.(*ssa.Alloc)
		if !ok || i >= len(fn.FreeVars) || len(*fn.FreeVars[i].Referrers()) == 0 {
			continue
		}

		var bad ssa.Instruction

		walkAfter(x, al, func(in ssa.Instruction) {
			if st, ok := in.(*ssa.Store); ok && rootAlloc(st.Addr) == al && len(a.heldAt(st)) == 0 {
				bad = st
			}
		})

		where := a.c.P.pos(x.Pos())
		if bad != nil {
			where = a.c.P.pos(bad.Pos())
		}

		a.c.oblige(bad == nil, "captured:"+shortName(x.Parent())+":"+al.Comment, shortName(x.Parent())+" writes to "+al.Comment+" while a goroutine it started may be reading it", where, nil)
	}
}

func (a *lockAnalysis) heldAt(in ssa.Instruction) map[lock]bool {
	return (&guardScan{a: a}).held(access{fn: in.Parent(), in: in})
}
