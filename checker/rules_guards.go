package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// access to something several goroutines may share.
type access struct {
	fn      *ssa.Function
	in      ssa.Instruction
	write   bool
	content bool   // of the map or slice, not of the variable
	escape  bool   // handed out for good
	base    string // path of the object, "" if unknown
}

// accesses of one field or package-level variable.
type shared struct {
	key   string
	owner string // type, for a field
	all   []access
}

type guardScan struct {
	a    *lockAnalysis
	m    *mutAnalysis
	by   map[string]*shared
	seen map[ssa.Value]bool
}

// notShareable: values whose methods change them without synchronisation.
func notShareable(t types.Type) bool {
	n := strings.TrimPrefix(typeName(t), "*")
	switch n {
	case "hash.Hash", "hash.Hash32", "hash.Hash64", "bytes.Buffer", "bytes.Reader", "strings.Builder", "strings.Reader", "math/rand.Rand", "bufio.Reader", "bufio.Writer", "encoding/json.Decoder", "encoding/json.Encoder", "container/list.List":
		return true
	}

	return false
}

func selfSynchronised(t types.Type) bool {
	n := strings.TrimPrefix(typeName(t), "*")
	return strings.HasPrefix(n, "sync.") || strings.HasPrefix(n, "sync/atomic.") || strings.HasPrefix(n, "chan ")
}

func isMutex(t types.Type) bool {
	n := strings.TrimPrefix(typeName(t), "*")
	return n == "sync.Mutex" || n == "sync.RWMutex"
}

func (g *guardScan) add(key, owner string, x access) {
	s := g.by[key]
	if s == nil {
		s = &shared{key: key, owner: owner}
		g.by[key] = s
	}

	s.all = append(s.all, x)
}

// address follows what is done with an address inside the shared thing.
func (g *guardScan) address(in ssa.Instruction, v ssa.Value, key, owner string, x access, fresh bool) {
	x.in, x.fn = in, in.Parent()
	put := func(write bool) {
		if !fresh && !g.a.initFns[x.fn] {
			y := x
			y.write = write
			g.add(key, owner, y)
		}
	}

	deeper := func(v ssa.Value) {
		for _, r := range *v.Referrers() {
			g.address(r, v, key, owner, x, fresh)
		}
	}

	switch i := in.(type) {
	case *ssa.Store:
		put(i.Addr == v || !x.content)
	case *ssa.UnOp:
		put(false)

		if i.Op == token.MUL {
			g.content(i, key, owner, x, fresh)
		}
	case *ssa.FieldAddr:
		if t := i.Type().Underlying().(*types.Pointer).Elem(); !selfSynchronised(t) {
			deeper(i)
		}
	case *ssa.IndexAddr:
		if i.X == v {
			deeper(i)
		}
	case ssa.CallInstruction:
		put(g.callWrites(i.Common(), v))
	case *ssa.MakeClosure:
		// looked at through the free variable
		f := i.Fn.(*ssa.Function)
		for j, b := range i.Bindings {
			if b == v && j < len(f.FreeVars) {
				deeper(f.FreeVars[j])
			}
		}
	case *ssa.DebugRef:
	default:
		put(false)
	}
}

// callWrites: what the call does with the address or value it is given.
func (g *guardScan) callWrites(c *ssa.CallCommon, v ssa.Value) bool {
	f := c.StaticCallee()
	i := argIndex(c, v)

	if f == nil || g.a.info[f] == nil || i < 0 || i >= len(f.Params) {
		return f == nil || !selfSynchronised(v.Type())
	}

	ef := g.m.get(f)
	if ef == nil {
		return true
	}

	for l := range ef.muts {
		hit := false

		g.m.startsAt(l, func(r *Term, _ int) { hit = hit || r.Op == "param" && r.Name == f.Params[i].Name() })

		if hit {
			return true
		}
	}

	return false
}

// content follows a map or slice that was read from the shared thing.
func (g *guardScan) content(v ssa.Value, key, owner string, x access, fresh bool) {
	ref := false

	switch v.Type().Underlying().(type) {
	case *types.Map, *types.Slice:
		ref = true
	}

	if !ref && !notShareable(v.Type()) || g.seen[v] {
		return
	}

	g.seen[v] = true
	x.content = true

	put := func(in ssa.Instruction, write, escape bool) {
		if !fresh && !g.a.initFns[in.Parent()] {
			y := x
			y.in, y.fn, y.write, y.escape = in, in.Parent(), write, escape
			g.add(key, owner, y)
		}
	}

	elsewhere := x
	elsewhere.base = ""

	for _, r := range *v.Referrers() {
		switch i := r.(type) {
		case *ssa.Lookup, *ssa.Index:
			put(r, false, false)
		case *ssa.Range:
			for _, n := range *i.Referrers() {
				put(n, false, false)
			}
		case *ssa.MapUpdate:
			put(r, i.Map == v, i.Map != v)
		case *ssa.IndexAddr:
			for _, u := range *i.Referrers() {
				st, ok := u.(*ssa.Store)
				put(u, ok && st.Addr == i, false)
			}
		case *ssa.Slice:
			g.content(i, key, owner, x, fresh)
		case *ssa.ChangeType:
			g.content(i, key, owner, x, fresh)
		case *ssa.Phi:
			g.content(i, key, owner, x, fresh)
		case *ssa.Store:
			if al, ok := i.Addr.(*ssa.Alloc); ok {
				for _, u := range *al.Referrers() {
					if l, ok := u.(*ssa.UnOp); ok && l.Op == token.MUL {
						g.content(l, key, owner, x, fresh)
					}
				}
			} else {
				put(r, false, true)
			}
		case *ssa.Return:
			if in := g.a.info[i.Parent()]; in != nil && in.private && len(g.a.calls[i.Parent()]) > 0 {
				for _, ci := range g.a.calls[i.Parent()] {
					if cv, ok := ci.(*ssa.Call); ok {
						if len(i.Results) == 1 {
							g.content(cv, key, owner, elsewhere, fresh)
						}

						for _, u := range *cv.Referrers() {
							if e, ok := u.(*ssa.Extract); ok && e.Index < len(i.Results) && i.Results[e.Index] == v {
								g.content(e, key, owner, elsewhere, fresh)
							}
						}
					}
				}
			} else {
				put(r, false, true)
			}
		case *ssa.MakeClosure:
			f := i.Fn.(*ssa.Function)
			for j, b := range i.Bindings {
				if b == v && j < len(f.FreeVars) {
					g.content(f.FreeVars[j], key, owner, x, fresh)
				}
			}
		case ssa.CallInstruction:
			c := i.Common()
			if b, ok := c.Value.(*ssa.Builtin); ok {
				w := b.Name() == "delete" || b.Name() == "clear" || b.Name() == "copy" && c.Args[0] == v
				put(r, w, false)

				continue
			}

			if notShareable(v.Type()) && !ref {
				put(r, true, false)
				continue
			}

			f := c.StaticCallee()
			if j := argIndex(c, v); f != nil && g.a.info[f] != nil && j >= 0 && j < len(f.Params) {
				g.content(f.Params[j], key, owner, elsewhere, fresh)
				continue
			}

			put(r, nameMatch(calleeName(c), `~^(sort|slices)\.(Sort|Stable|Slice|Reverse|Strings|Ints|Delete|Compact|Insert)`) || nameMatch(calleeName(c), `~^maps\.(Copy|DeleteFunc)`) && len(c.Args) > 0 && c.Args[0] == v, false)
		case *ssa.DebugRef:
		default:
			put(r, false, false)
		}
	}
}

// freshObject: nobody else can know the object yet.
func (g *guardScan) freshObject(v ssa.Value, depth int) bool {
	if depth > 4 {
		return false
	}

	switch x := v.(type) {
	case *ssa.Alloc:
		return true
	case *ssa.FieldAddr:
		return g.freshObject(x.X, depth)
	case *ssa.UnOp:
		if al, ok := x.X.(*ssa.Alloc); ok && x.Op == token.MUL {
			if st := onlyStore(al); st != nil {
				return g.freshObject(st, depth+1)
			}
		}
	case *ssa.Parameter:
		f := x.Parent()
		if f.Parent() != nil && returned(f) {
			return true // an option, run by the constructor
		}

		in := g.a.info[f]
		if in == nil || !in.private || len(g.a.calls[f]) == 0 {
			return false
		}

		for i, p := range f.Params {
			if p != x {
				continue
			}

			for _, ci := range g.a.calls[f] {
				if i >= len(ci.Common().Args) || !g.freshObject(ci.Common().Args[i], depth+1) {
					return false
				}
			}
		}

		return true
	case *ssa.Call:
		f := x.Call.StaticCallee()
		if f == nil || g.a.info[f] == nil {
			return false
		}

		n := 0

		for _, b := range f.Blocks {
			if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(r.Results) > 0 {
				if !g.freshObject(r.Results[0], depth+1) {
					return false
				}

				n++
			}
		}

		return n > 0
	}

	return false
}

// returned: the closure is what the function around it returns.
func returned(f *ssa.Function) bool {
	for _, b := range f.Parent().Blocks {
		for _, in := range b.Instrs {
			r, ok := in.(*ssa.Return)
			if !ok {
				continue
			}

			for _, v := range r.Results {
				if ct, ok := v.(*ssa.ChangeType); ok {
					v = ct.X
				}

				if mc, ok := v.(*ssa.MakeClosure); ok && mc.Fn == f || v == ssa.Value(f) {
					return true
				}
			}
		}
	}

	return false
}

// guards: what is modified after it can be shared is accessed under one lock throughout.
func (a *lockAnalysis) guards(m *mutAnalysis) {
	g := &guardScan{a: a, m: m, by: map[string]*shared{}, seen: map[ssa.Value]bool{}}
	withMutex := map[string]bool{}

	for _, f := range a.fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if fa, ok := in.(*ssa.FieldAddr); ok {
					g.field(fa, withMutex)
				}

				for _, op := range in.Operands(nil) {
					if gl, ok := (*op).(*ssa.Global); ok && inModulePkg(gl.Pkg) && !selfSynchronised(gl.Type().Underlying().(*types.Pointer).Elem()) && !strings.HasPrefix(gl.Name(), "init$") {
						g.address(in, gl, "g:"+short(gl.String()), "", access{}, onceOnly(in.Parent()))
					}
				}
			}
		}
	}

	for _, ef := range m.of {
		for l, mu := range ef.muts {
			m.startsAt(l, func(r *Term, _ int) {
				if r.Op == "gaddr" || r.Op == "global" {
					if a.info[mu.fn] != nil && !a.initFns[mu.fn] && !onceOnly(mu.fn) && !strings.HasPrefix(r.Name, "init$") && !g.calleesOwn(mu, r.Name) {
						g.add("g:"+short(r.Name), "", access{fn: mu.fn, in: mu.in, write: true, content: l != r})
					}
				}
			})
		}
	}

	var keys []string
	for k := range g.by {
		keys = append(keys, k)
	}

	sort.Strings(keys)

	for _, k := range keys {
		g.decide(g.by[k], withMutex)
	}
}

// calleesOwn: the write is one that a function called there does to a package-level variable by itself.
func (g *guardScan) calleesOwn(mu *mutation, global string) bool {
	ci, ok := mu.in.(ssa.CallInstruction)
	if !ok {
		return false
	}

	for _, f := range g.a.callees(ci.Common()) {
		ef := g.m.get(f)
		if ef == nil {
			continue
		}

		own := false

		for l := range ef.muts {
			g.m.startsAt(l, func(r *Term, _ int) {
				own = own || (r.Op == "gaddr" || r.Op == "global") && r.Name == global
			})
		}

		if own {
			return true
		}
	}

	return false
}

// writeLocked: what is written is written under a lock, here or in the functions called.
func (g *guardScan) writeLocked(mu *mutation, depth int) bool {
	for l := range g.held(access{fn: mu.fn, in: mu.in}) {
		if l.mode == "W" {
			return true
		}
	}

	ci, ok := mu.in.(ssa.CallInstruction)
	if !ok || depth > 5 {
		return false
	}

	n := 0

	for _, f := range g.a.callees(ci.Common()) {
		ef := g.m.get(f)
		if ef == nil {
			continue
		}

		for _, inner := range ef.muts {
			if inner == mu || !g.writeLocked(inner, depth+1) {
				return false
			}

			n++
		}
	}

	return n > 0
}

func inModulePkg(p *ssa.Package) bool {
	return p != nil && (p.Pkg.Path() == modPath || strings.HasPrefix(p.Pkg.Path(), modPath+"/")) && !isTestSupport(p.Pkg.Path())
}

// onceOnly: run by a sync.Once.
func onceOnly(f *ssa.Function) bool {
	if f == nil || f.Parent() == nil {
		return false
	}

	for _, b := range f.Parent().Blocks {
		for _, in := range b.Instrs {
			ci, ok := in.(ssa.CallInstruction)
			if !ok || !nameMatch(calleeName(ci.Common()), `~^(\(\*sync\.Once\)\.Do|sync\.Once(Func|Value|Values)(\[.*)?)$`) {
				continue
			}

			for _, v := range ci.Common().Args {
				if mc, ok := v.(*ssa.MakeClosure); ok && mc.Fn == f || v == ssa.Value(f) {
					return true
				}
			}
		}
	}

	return false
}

func (g *guardScan) field(fa *ssa.FieldAddr, withMutex map[string]bool) {
	t := fa.X.Type().Underlying().(*types.Pointer).Elem()

	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil || !strings.HasPrefix(n.Obj().Pkg().Path(), modPath) {
		return
	}

	st := n.Underlying().(*types.Struct)
	owner := short(typeName(t))

	for i := 0; i < st.NumFields(); i++ {
		if isMutex(st.Field(i).Type()) {
			withMutex[owner] = true
		}
	}

	ft := st.Field(fa.Field).Type()
	if selfSynchronised(ft) {
		return
	}

	fresh := g.freshObject(fa.X, 0)
	x := access{base: valuePath(fa.X, 0)}

	for _, r := range *fa.Referrers() {
		g.address(r, fa, owner+"."+st.Field(fa.Field).Name(), owner, x, fresh)
	}
}

// held on every path to the instruction.
func (g *guardScan) held(x access) map[lock]bool {
	var must map[lock]bool

	in := g.a.info[x.fn]
	if in == nil {
		return nil
	}

	for _, s := range in.at[x.in] {
		if must == nil {
			must = s.clone().held
			continue
		}

		for l := range must {
			if !s.held[l] && !(l.mode == "R" && s.held[lock{l.path, l.class, "W"}]) {
				delete(must, l)
			}
		}
	}

	return must
}

func (g *guardScan) decide(s *shared, withMutex map[string]bool) {
	written, contentWritten := false, false

	for _, x := range s.all {
		written = written || x.write
		contentWritten = contentWritten || x.write && x.content
	}

	if !written {
		return
	}

	var all []access

	for _, x := range s.all {
		if x.content && !contentWritten {
			continue
		}

		if x.escape && !contentWritten {
			continue
		}

		// an unreached function is not called at all
		if in := g.a.info[x.fn]; in != nil && in.entry == nil {
			continue
		}

		all = append(all, x)
	}

	global := strings.HasPrefix(s.key, "g:")
	votes := map[string]int{}
	locked := 0

	for _, x := range all {
		ok := g.held(x)
		for l := range ok {
			if g.protects(l, x, s) {
				votes[l.class]++
			}
		}

		if len(ok) > 0 {
			locked++
		}
	}

	if !global && !withMutex[s.owner] && locked == 0 {
		return // an object its user doesn't share
	}

	best := ""
	for k, n := range votes {
		if n > votes[best] || n == votes[best] && (best == "" || k < best) {
			best = k
		}
	}

	g.a.c.count("guarded fields and package-level variables", 1)
	g.a.c.sample("%s: %d accesses, guarded by %q", s.key, len(all), best)

	for _, x := range all {
		ok := false
		for l := range g.held(x) {
			ok = ok || l.class == best && g.protects(l, x, s)
		}

		what := "read"
		if x.write {
			what = "written"
		}

		switch {
		case x.escape:
			what, ok = "handed out (what it refers to is modified under the lock)", false
		case best == "" && global:
			what += " outside initialisation, and no lock guards it"
		case best == "":
			what += " without a lock"
		default:
			what += " without holding " + best
			if x.write {
				what += " for writing"
			}
		}

		if !x.write && best == "" {
			continue
		}

		g.a.c.oblige(ok, "guard:"+s.key+":"+shortName(x.fn), strings.TrimPrefix(s.key, "g:")+" is "+what+" in "+shortName(x.fn), g.a.c.P.pos(x.in.Pos()), nil)
	}
}

// protects: the lock is one of the object itself, or a lock of another kind of object, and strong enough.
func (g *guardScan) protects(l lock, x access, s *shared) bool {
	if strings.HasPrefix(l.mode, "-") || x.write && l.mode != "W" {
		return false
	}

	if s.owner != "" && strings.HasPrefix(l.class, s.owner+".") && x.base != "" && !strings.HasPrefix(l.path, "?") {
		return l.path == x.base+strings.TrimPrefix(l.class, s.owner)
	}

	return true
}
