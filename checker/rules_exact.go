package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"sort"
	"strings"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C44", "inventory of every comparison of text in the library that is not an equality (case folding, prefix, suffix, containment, patterns, slices and trimmed values compared), with what the other side is", c44)
}

// inexact: the comparisons of text that are satisfied by more than one value, and what each is known for.
var inexactFuncs = map[string]string{
	"strings.EqualFold": "fold", "bytes.EqualFold": "fold",
	"strings.ToLower": "fold", "strings.ToUpper": "fold", "strings.ToTitle": "fold", "strings.Title": "fold", "bytes.ToLower": "fold", "bytes.ToUpper": "fold",
	"strings.ToLowerSpecial": "fold", "strings.ToUpperSpecial": "fold",
	"strings.HasPrefix": "prefix", "bytes.HasPrefix": "prefix", "strings.CutPrefix": "prefix",
	"strings.HasSuffix": "suffix", "bytes.HasSuffix": "suffix", "strings.CutSuffix": "suffix",
	"strings.Contains": "part", "bytes.Contains": "part", "strings.Index": "part", "strings.LastIndex": "part", "bytes.Index": "part", "strings.Count": "part",
	"regexp.MatchString": "pattern", "(*regexp.Regexp).MatchString": "pattern", "(*regexp.Regexp).Match": "pattern", "path.Match": "pattern", "path/filepath.Match": "pattern",
	"strings.ContainsAny": "chars", "strings.ContainsRune": "chars", "strings.IndexByte": "chars", "strings.IndexRune": "chars", "strings.IndexAny": "chars",
}

// knownInexact: how often what is compared inexactly on purpose, by package and kind: names of algorithms and of media types,
// which are not case-sensitive where they come from; keywords in paths; proof types with a namespace in front; the names of
// identity hub objects and methods; store names.
var knownInexact = map[string]int{
	"presexch|fold":                    2, // algorithm names of a format; "$.issuer"
	"presexch|part":                    3, // "credentialSchema", and the date keywords
	"status/internal/identityhub|fold": 2,
	"sdjwt/common|fold":                2,
	"sdjwt/issuer|fold":                1,
	"jwt|fold":                         1,
	"verifiable|fold":                  1, // the name of a digest in a subresource integrity value
	"legacy/mem|fold":                  3,
	"proof/ldproofs/bbsblssignatureproof2020|suffix": 1,
	"verifiable|suffix":        1, // "BbsBlsSignature2020"
	"didconfig/verifier|piece": 8, // the parts of an origin, all of them (C22)
	"verifiable|piece":         1, // the DID of a verification method
	"util/maphelpers|part":     1,
}

func c44(c *Ctx) {
	c.Funcs = map[string]bool{}

	var fs []*ssa.Function

	for _, f := range c.P.Funcs {
		if f.Blocks != nil && f.Synthetic == "" && !isTestSupport(fnPkgPath(f)) && !strings.Contains(fnPkgPath(f), "/legacy/test") && !strings.Contains(fnPkgPath(f), "/legacy/mock") {
			fs = append(fs, f)
		}
	}

	sort.Slice(fs, func(i, j int) bool { return fs[i].String() < fs[j].String() })

	found := map[string][]ssa.Instruction{}
	n, equal := 0, 0

	for _, f := range fs {
		c.Funcs[f.String()] = true
		pkg := strings.TrimPrefix(strings.TrimPrefix(fnPkgPath(f), modPath), "/")

		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Call:
					kind := inexactFuncs[calleeName(&x.Call)]
					if kind == "" {
						continue
					}

					n++

					if strings.Contains(calleeName(&x.Call), "Index") && findsPlace(x) {
						continue
					}

					if !allMarkedOff(kind, c.textsOf(x.Call.Args, kind)) {
						found[pkg+"|"+kind] = append(found[pkg+"|"+kind], in)
					}
				case *ssa.BinOp:
					if x.Op != token.EQL && x.Op != token.NEQ || !isString(x.X.Type()) {
						continue
					}

					equal++

					for i, v := range []ssa.Value{x.X, x.Y} {
						other := []ssa.Value{x.Y, x.X}[i]
						if how := cutDown(v); how != "" {
							if k, ok := other.(*ssa.Const); ok && k.Value != nil && constant.StringVal(k.Value) == "" { // whether there is any
								continue
							}

							if !allMarkedOff(how, c.textsOf([]ssa.Value{v, other}, "")) {
								found[pkg+"|"+how] = append(found[pkg+"|"+how], in)
							}
						}
					}
				}
			}
		}
	}

	for k, at := range found {
		if allowed := knownInexact[k]; len(at) > allowed {
			var places []string
			for _, in := range at {
				places = append(places, c.P.pos(in.Pos()))
			}

			sort.Strings(places)

			p := strings.SplitN(k, "|", 2)
			c.oblige(false, "inexact|"+k, fmt.Sprintf("%s compares text inexactly (%s) in more places than the %d known", p[0], p[1], allowed), strings.Join(places, " or "), nil)
		} else {
			c.oblige(true, "inexact|"+k, "", "", nil)
		}
	}

	c.count("inexact comparisons and conversions", n)
	c.count("comparisons of text for equality", equal)
	c.oblige(equal >= 100, "coverage", "hardly any comparison of text was found: the rule would be vacuous", modPath, nil)
}

// textsOf: the constants a comparison is made with, one for each caller that gives one; "" stands for what is not constant.
func (c *Ctx) textsOf(args []ssa.Value, kind string) []string {
	for i := len(args) - 1; i >= 0; i-- {
		got := c.constants(args[i], 3)
		if len(got) == 0 {
			continue
		}

		if i == 0 && (kind == "prefix" || kind == "suffix") { // the wrong way round
			break
		}

		return got
	}

	return []string{""}
}

// constants: the texts the value can be, or none if that is not known.
func (c *Ctx) constants(v ssa.Value, depth int) (out []string) {
	if depth == 0 {
		return nil
	}

	switch x := v.(type) {
	case *ssa.Convert:
		return c.constants(x.X, depth)
	case *ssa.Const:
		if x.Value == nil {
			return nil
		}

		if x.Value.Kind() == constant.String {
			return []string{constant.StringVal(x.Value)}
		}

		if x.Value.Kind() == constant.Int {
			return []string{string(rune(x.Int64()))}
		}
	case *ssa.Parameter:
		calls := c.P.callersOf(x.Parent())

		for _, call := range calls {
			for i, p := range x.Parent().Params {
				if p != x || call.Common().IsInvoke() || i >= len(call.Common().Args) {
					continue
				}

				got := c.constants(call.Common().Args[i], depth-1)
				if len(got) == 0 {
					return nil
				}

				out = append(out, got...)
			}
		}
	case *ssa.FreeVar:
		mc := 0

		for _, r := range *x.Parent().Referrers() {
			if m, ok := r.(*ssa.MakeClosure); ok {
				for i, fv := range x.Parent().FreeVars {
					if fv == x {
						mc++

						out = append(out, c.constants(m.Bindings[i], depth-1)...)
					}
				}
			}
		}

		if mc != len(out) {
			return nil
		}
	case *ssa.Phi:
		for _, ed := range x.Edges {
			got := c.constants(ed, depth-1)
			if len(got) == 0 {
				return nil
			}

			out = append(out, got...)
		}
	}

	return out
}

func allMarkedOff(kind string, texts []string) bool {
	for _, t := range texts {
		if !markedOff(kind, t) {
			return false
		}
	}

	return true
}

// markedOff: the text ends (or begins) with something that is no part of a name: what is told apart by it is marked off by
// it, as a scheme by its colon.
func markedOff(kind, text string) bool {
	if text == "" {
		return false
	}

	r := []rune(text)
	mark := func(r rune) bool { return !unicode.IsLetter(r) && !unicode.IsDigit(r) }

	inNames := func(r rune) bool { return r == '_' || r == '-' || r == '.' }

	switch kind {
	case "prefix":
		return mark(r[len(r)-1]) && !inNames(r[len(r)-1])
	case "suffix":
		return mark(r[0]) && !inNames(r[0])
	case "part", "chars", "pattern", "trimmed":
		for _, x := range r {
			if !mark(x) {
				return len(r) > 1 && mark(r[0]) && mark(r[len(r)-1])
			}
		}

		return true
	}

	return false
}

// cutDown: the value compared is only a part of a text.
func cutDown(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.Slice:
		if x.High != nil && dependsOn(x.High, func(v ssa.Value) bool { // up to a separator
			call, ok := v.(*ssa.Call)
			return ok && strings.Contains(calleeName(&call.Call), "Index") && indexMark(call)
		}) {
			return ""
		}

		if isString(x.X.Type()) && x.High != nil {
			if x.Low == nil {
				return "prefix"
			}

			return ""
		}

		if isString(x.X.Type()) && x.Low != nil && dependsOn(x.Low, func(v ssa.Value) bool {
			b, ok := v.(*ssa.Call)
			if !ok {
				return false
			}

			bi, ok := b.Call.Value.(*ssa.Builtin)

			return ok && bi.Name() == "len"
		}) {
			return "suffix"
		}
	case *ssa.UnOp: // one of the pieces it was split into, or a part of an address
		switch from := x.X.(type) {
		case *ssa.IndexAddr:
			if call, ok := from.X.(*ssa.Call); ok && nameMatch(calleeName(&call.Call), "~^strings\\.(Split|Fields)") {
				return "piece"
			}
		case *ssa.FieldAddr:
			if n := namedOf(from.X.Type()); n != nil && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "net/url" && n.Obj().Name() == "URL" {
				return "piece"
			}
		}
	case *ssa.Extract:
		if call, ok := x.Tuple.(*ssa.Call); ok && nameMatch(calleeName(&call.Call), "~^strings\\.Cut") {
			return "piece"
		}
	case *ssa.Call:
		if nameMatch(calleeName(&x.Call), "~^\\(\\*net/url\\.URL\\)\\.(Host|Port|EscapedPath|RequestURI|String)") {
			return "piece"
		}

		switch calleeName(&x.Call) {
		case "strings.TrimSpace", "strings.Trim", "strings.TrimLeft", "strings.TrimRight", "strings.TrimPrefix", "strings.TrimSuffix", "strings.TrimFunc",
			"strings.TrimRightFunc", "strings.TrimLeftFunc", "path.Clean", "path.Base", "path.Dir", "path/filepath.Clean", "path/filepath.Base", "net/url.PathEscape", "net/url.QueryEscape":
			return "trimmed"
		}
	}

	return ""
}

// indexMark: what is looked for is a separator.
func indexMark(call *ssa.Call) bool {
	k, ok := call.Call.Args[len(call.Call.Args)-1].(*ssa.Const)
	if !ok || k.Value == nil {
		return false
	}

	if k.Value.Kind() == constant.Int {
		return markedOff("part", string(rune(k.Int64())))
	}

	return k.Value.Kind() == constant.String && markedOff("part", constant.StringVal(k.Value))
}

// findsPlace: where it is found is used to take a part of a text.
func findsPlace(call *ssa.Call) bool {
	seen := map[ssa.Value]bool{}

	var flows func(v ssa.Value) bool

	flows = func(v ssa.Value) bool {
		if seen[v] || v.Referrers() == nil {
			return false
		}

		seen[v] = true

		for _, r := range *v.Referrers() {
			switch x := r.(type) {
			case *ssa.Slice, *ssa.Return:
				return true
			case *ssa.BinOp:
				if x.Op == token.ADD || x.Op == token.SUB {
					if flows(x) {
						return true
					}
				}
			case *ssa.Phi:
				if flows(x) {
					return true
				}
			case *ssa.Call:
				return true
			}
		}

		return false
	}

	return flows(call)
}
