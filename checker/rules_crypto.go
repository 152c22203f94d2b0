package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C04", "must-pass dataflow over every signature verifier: each success exit is preceded by acceptance of the key's type and by the cryptographic primitive accepting the given signature, the (digested) message and a key taken from the given public key", c04)
	register("C05", "table extraction: descriptors, verifier constructors and algorithm mappings are evaluated symbolically and every row is compared with one family table (key type, JWK kty/crv, JWS and COSE algorithm, hash, curve, size); the default checker's registrations are compared with what its proof types need", c05)
}

// typesWith enumerates the module's named types that have all the given methods.
func (c *Ctx) typesWith(methods ...string) []*types.Named {
	var out []*types.Named

	for _, pkg := range c.P.Pkgs {
		if isTestSupport(pkg.PkgPath) {
			continue
		}

		sc := pkg.Types.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}

			nt, ok := tn.Type().(*types.Named)
			if !ok || types.IsInterface(nt) {
				continue
			}

			ms := types.NewMethodSet(types.NewPointer(nt))
			all := true

			for _, m := range methods {
				if ms.Lookup(pkg.Types, m) == nil {
					all = false
				}
			}

			if all {
				out = append(out, nt)
			}
		}
	}

	sort.Slice(out, func(i, j int) bool { return typeName(out[i]) < typeName(out[j]) })

	return out
}

// method finds a method of a named type.
func (c *Ctx) method(t *types.Named, name string) *ssa.Function {
	sel := types.NewMethodSet(types.NewPointer(t)).Lookup(t.Obj().Pkg(), name)
	if sel == nil {
		return nil
	}

	if f, ok := sel.Obj().(*types.Func); ok {
		return c.P.SSA.FuncValue(f)
	}

	return nil
}

// Digest matches a hash of exactly the given message.
func Digest(msg Pat) Pat {
	return Alts(func(t *Term) bool {
		for t.Op == "slice" {
			t = t.Args[0]
		}

		t = peel(t)
		if t.Op != "call" {
			return false
		}

		if t.Name == "(hash.Hash).Sum" {
			return len(t.Args) == 3 && IsNilOrEmpty(t.Args[1]) && msg(t.Args[2])
		}

		if strings.HasPrefix(t.Name, "crypto/sha") && strings.Contains(t.Name, ".Sum") {
			return len(t.Args) == 1 && msg(t.Args[0])
		}

		return false
	})
}

func IsNilOrEmpty(t *Term) bool {
	return t.Op == "nil" || (t.Op == "slicelit" && len(t.Args) == 0)
}

// digestAlg names the hash function of a digest term.
func digestAlg(t *Term) string {
	for t.Op == "slice" {
		t = t.Args[0]
	}

	t = peel(t)
	if t.Op != "call" {
		return "?"
	}

	if t.Name == "(hash.Hash).Sum" && len(t.Args) > 0 {
		return hashCtor(t.Args[0])
	}

	switch t.Name {
	case "crypto/sha256.Sum256":
		return "SHA256"
	case "crypto/sha512.Sum384":
		return "SHA384"
	case "crypto/sha512.Sum512":
		return "SHA512"
	}

	return "?"
}

func hashCtor(t *Term) string {
	if t.Op != "call" {
		return "?"
	}

	switch t.Name {
	case "crypto/sha256.New":
		return "SHA256"
	case "crypto/sha512.New384":
		return "SHA384"
	case "crypto/sha512.New":
		return "SHA512"
	case "(crypto.Hash).New":
		return hashNum(t.Args[0])
	}

	return "?"
}

func hashNum(t *Term) string {
	if n, ok := constInt(t); ok {
		switch n {
		case 5:
			return "SHA256"
		case 6:
			return "SHA384"
		case 7:
			return "SHA512"
		}
	}

	if t.Op == "field" {
		return "field:" + t.Name
	}

	return "?"
}

// primitive is an accepted cryptographic verification found among the established conditions.
type primitive struct {
	call          *Term
	key, sig, msg int
	hashed        bool
}

var primitives = []struct {
	name          string
	boolean       bool
	key, sig, msg int // argument positions; sig also covers the next argument for (r, s)
	hashed        bool
}{
	{"crypto/ecdsa.Verify", true, 0, 2, 1, true},
	{"crypto/ecdsa.VerifyASN1", true, 0, 2, 1, true},
	{"crypto/ed25519.Verify", true, 0, 2, 1, false},
	{"crypto/ed25519.VerifyWithOptions", false, 0, 2, 1, false},
	{"crypto/rsa.VerifyPSS", false, 0, 3, 2, true},
	{"crypto/rsa.VerifyPKCS1v15", false, 0, 3, 2, true},
	{"bbs12381g2pub.BBSG2Pub).Verify", false, 3, 2, 1, false},
	{"bbs12381g2pub.BBSG2Pub).VerifyProof", false, 4, 2, 1, false},
}

func accepted(s *State) []primitive {
	var out []primitive

	for _, p := range primitives {
		var ts []*Term
		if p.boolean {
			ts = s.find(true, Call(p.name))
		} else {
			for _, f := range s.find(true, NilLit(ErrOf(Call(p.name))).P) {
				x := f.Args[0]
				if x.Op == "res" {
					x = x.Args[0]
				}

				ts = append(ts, x)
			}
		}

		for _, t := range ts {
			out = append(out, primitive{t, p.key, p.sig, p.msg, p.hashed})
		}
	}

	return out
}

func c04(c *Ctx) {
	n := 0

	for _, t := range c.typesWith("Verify") {
		m := c.method(t, "Verify")
		if m == nil || len(m.Params) < 4 || typeName(m.Params[3].Type()) != "*"+modPath+"/crypto-ext/pubkey.PublicKey" {
			continue
		}

		sup := c.method(t, "SupportedKeyType")
		n++
		c.verifierGate(t, m, sup)
	}

	if n < 6 {
		c.Obligations++
		c.fail("verifiers", fmt.Sprintf("only %d signature verifiers found, at least 6 expected", n), "crypto-ext/verifiers", nil)
	}

	c.count("signature verifiers", n)
}

func (c *Ctx) verifierGate(t *types.Named, m, sup *ssa.Function) {
	key := Param(3)
	fromSig := func(x *Term) bool { return Has(Param(1))(x) }
	okPrim := func(e *Exec, s *State) bool {
		for _, p := range accepted(s) {
			a := p.call.Args
			if len(a) <= p.key || len(a) <= p.sig || len(a) <= p.msg {
				continue
			}

			sigOK := fromSig(a[p.sig])
			if p.call.Name == "crypto/ecdsa.Verify" {
				sigOK = sigOK && len(a) > 3 && fromSig(a[3]) && a[2] != a[3]
			}

			msg := a[p.msg]
			msgOK := Has(Param(2))(msg) || msg.Op == "loopvar" || msg.Op == "append"

			if p.hashed {
				msgOK = Digest(Param(2))(msg)
			} else if strings.HasPrefix(p.call.Name, "crypto/") {
				msgOK = Param(2)(msg)
			}

			keyOK := true

			for _, k := range alts(a[p.key]) {
				if !Has(func(x *Term) bool {
					return x.Op == "field" && (x.Name == "JWK" || x.Name == "BytesKey") && key(x.Args[0])
				})(k) {
					keyOK = false
				}
			}

			if sigOK && msgOK && keyOK {
				return true
			}
		}

		return false
	}
	reqs := []GateReq{{ID: "primitive", Why: "the cryptographic primitive accepted the given signature over the given message with a key taken from the given public key", Fn: okPrim}}

	if sup != nil {
		reqs = append(reqs, GateReq{ID: "key-type", Why: "the key's type is one the verifier serves", Any: []Lit{Eq(Fld(key, "Type"), Any)}})
	}

	name := shortName(m)
	e, _ := c.gateFn(Gate{Name: name, Entry: name, Reqs: reqs}, m)

	// the padding and hash of RSA verification belong to the served key type
	if sup == nil {
		return
	}

	want := map[string][]string{"RSARS256": {"crypto/rsa.VerifyPKCS1v15"}, "RSAPS256": {"crypto/rsa.VerifyPSS"}, "ED25519": {"crypto/ed25519.Verify", "crypto/ed25519.VerifyWithOptions"}}
	_ = e

	for _, row := range c.rows(sup) {
		if row.ok != yes {
			continue
		}

		kt := row.eqs[1]
		w, ok := want[kt]

		if !ok {
			continue
		}

		fam := families[familyOf(kt)]
		_, acc := c.gateFn(Gate{Name: name + "/primitive", Entry: name, Reqs: nil}, m)

		for _, x := range acc {
			match := false

			for _, p := range accepted(x.st) {
				for _, n := range w {
					if p.call.Name != n {
						continue
					}

					match = true

					if p.hashed {
						if h := digestAlg(p.call.Args[p.msg]); h != fam.hash {
							match = false
						}

						if h := hashNum(p.call.Args[1]); h != fam.hash {
							match = false
						}
					}
				}
			}

			c.oblige(match, name+"|primitive-for-"+kt, "keys of type "+kt+" are verified with another primitive or hash than the type stands for ("+strings.Join(w, ", ")+" with "+fam.hash+")", name, nil)
		}
	}
}

// row is one way a function returns: the constants its parameters were compared equal to, and its constant results.
type row struct {
	eqs map[int]string // parameter position -> constant
	res []*Term
	ok  tri
	x   Exit
	e   *Exec
}

func constText(t *Term) string {
	if s, ok := constStr(t); ok {
		return s
	}

	if n, ok := constInt(t); ok {
		return fmt.Sprint(n)
	}

	return ""
}

func (c *Ctx) rows(fn *ssa.Function) []row {
	e := NewExec(c.P, &Config{})

	var out []row

	for _, x := range e.Run(fn) {
		r := row{eqs: map[int]string{}, res: x.res, x: x, e: e}

		for f, v := range x.st.facts {
			if !v || f.Op != "bin" || f.Name != "==" {
				continue
			}

			for i := 0; i < 2; i++ {
				if a := f.Args[i]; a.Op == "param" && constText(f.Args[1-i]) != "" {
					r.eqs[a.Num-1] = constText(f.Args[1-i])
				}
			}
		}

		r.ok = no
		if e.succeeded(fn, x) {
			r.ok = yes

			if n := len(x.res); n > 0 && isBool(fn.Signature.Results().At(n-1).Type()) {
				r.ok = e.eval(x.st, x.res[n-1])
				if r.ok != yes {
					r.ok = no
				}
			}
		}

		out = append(out, r)
	}

	if c.Funcs == nil {
		c.Funcs = map[string]bool{}
	}

	for f := range e.Stats.Funcs {
		c.Funcs[f] = true
	}

	c.count("table rows", len(out))

	return out
}

// family is one signature algorithm under all its names.
type family struct {
	kms   []string
	kty   string
	crv   string
	jws   []string
	cose  []int64
	hash  string
	curve string
	size  int64
	vms   []string // verification method types besides JsonWebKey2020
}

var families = map[string]family{
	"ed25519":   {kms: []string{"ED25519"}, kty: "OKP", crv: "Ed25519", jws: []string{"EdDSA"}, cose: []int64{-8}, vms: []string{"Ed25519VerificationKey2018", "Ed25519VerificationKey2020"}},
	"p256":      {kms: []string{"ECDSAP256DER", "ECDSAP256IEEEP1363"}, kty: "EC", crv: "P-256", jws: []string{"ES256"}, cose: []int64{-7}, hash: "SHA256", curve: "crypto/elliptic.P256", size: 32},
	"p384":      {kms: []string{"ECDSAP384DER", "ECDSAP384IEEEP1363"}, kty: "EC", crv: "P-384", jws: []string{"ES384"}, cose: []int64{-35}, hash: "SHA384", curve: "crypto/elliptic.P384", size: 48},
	"p521":      {kms: []string{"ECDSAP521DER", "ECDSAP521IEEEP1363"}, kty: "EC", crv: "P-521", jws: []string{"ES521", "ES512"}, cose: []int64{0, -36}, hash: "SHA512", curve: "crypto/elliptic.P521", size: 66},
	"secp256k1": {kms: []string{"ECDSASecp256k1DER", "ECDSASecp256k1IEEEP1363"}, kty: "EC", crv: "secp256k1", jws: []string{"ES256K"}, cose: []int64{0, -47}, hash: "SHA256", curve: "github.com/btcsuite/btcd/btcec/v2.S256", size: 32, vms: []string{"EcdsaSecp256k1VerificationKey2019"}},
	"ps256":     {kms: []string{"RSAPS256"}, kty: "RSA", jws: []string{"PS256"}, cose: []int64{-37}, hash: "SHA256", vms: []string{"RsaVerificationKey2018"}},
	"rs256":     {kms: []string{"RSARS256"}, kty: "RSA", jws: []string{"RS256"}, cose: []int64{-257}, hash: "SHA256", vms: []string{"RsaVerificationKey2018"}},
	"bls":       {kms: []string{"BLS12381G2"}, kty: "EC", crv: "BLS12381_G2", vms: []string{"Bls12381G2Key2020"}},
}

func familyOf(kms string) string {
	for n, f := range families {
		if contains(f.kms, kms) {
			return n
		}
	}

	return ""
}

func contains[T comparable](xs []T, x T) bool {
	for _, y := range xs {
		if y == x {
			return true
		}
	}

	return false
}

var ldFamilies = map[string][]string{
	"Ed25519Signature2018": {"ed25519"}, "Ed25519Signature2020": {"ed25519"},
	"EcdsaSecp256k1Signature2019": {"secp256k1"},
	"BbsBlsSignature2020":         {"bls"}, "BbsBlsSignatureProof2020": {"bls"},
	"JsonWebSignature2020": {"ed25519", "p256", "p384", "p521", "secp256k1", "ps256", "rs256"},
}

type vmRow struct{ vmType, kms, kty, crv, require string }

// made evaluates a constructor and returns what it builds.
func (c *Ctx) made(fn *ssa.Function) *Term {
	if fn == nil || fn.Blocks == nil {
		return nil
	}

	e := NewExec(c.P, &Config{})

	xs := e.Run(fn)
	for f := range e.Stats.Funcs {
		if c.Funcs == nil {
			c.Funcs = map[string]bool{}
		}

		c.Funcs[f] = true
	}

	if len(xs) != 1 || len(xs[0].res) == 0 {
		return nil
	}

	return e.snap(xs[0].st, xs[0].res[0], 0)
}

// vmsOf evaluates a descriptor's constructor and then its SupportedVerificationMethods.
func (c *Ctx) vmsOf(t *types.Named) []vmRow {
	made := c.made(c.ctorOf(t))
	if made == nil {
		return nil
	}

	var out []vmRow

	made.walk(func(x *Term) bool {
		if x.Op == "struct" && typeIs(x, "proof.SupportedVerificationMethod") {
			txt := func(n string) string {
				f := getField(x, n)
				if f == nil || f.Op == "nil" {
					return ""
				}

				if b, ok := constBool(f); ok {
					return fmt.Sprint(b)
				}

				return constText(f)
			}

			out = append(out, vmRow{txt("VerificationMethodType"), txt("KMSKeyType"), txt("JWKKeyType"), txt("JWKCurve"), txt("RequireJWK")})

			return false
		}

		return true
	})

	return out
}

// ctorOf finds the function that makes a type: exported, no parameters, returning it.
func (c *Ctx) ctorOf(t *types.Named) *ssa.Function {
	for _, f := range c.ctorsOf(t) {
		return f
	}

	return nil
}

func (c *Ctx) ctorsOf(t *types.Named) []*ssa.Function {
	pkg := c.P.ByPkg[t.Obj().Pkg().Path()]
	if pkg == nil {
		return nil
	}

	var out []*ssa.Function

	for _, n := range t.Obj().Pkg().Scope().Names() {
		f := pkg.Func(n)
		if f == nil || !f.Object().Exported() || f.Signature.Params().Len() != 0 || f.Signature.Results().Len() != 1 {
			continue
		}

		r := f.Signature.Results().At(0).Type()
		if p, ok := r.(*types.Pointer); ok {
			r = p.Elem()
		}

		if types.Identical(r, t) {
			out = append(out, f)
		}
	}

	return out
}

// constResult evaluates a method that returns a constant.
func (c *Ctx) constResult(fn *ssa.Function) (string, bool) {
	if fn == nil {
		return "", false
	}

	e := NewExec(c.P, &Config{})
	v := ""

	xs := e.Run(fn)
	for i, x := range xs {
		if len(x.res) == 0 || constText(x.res[0]) == "" && x.res[0].Op != "const" && x.res[0].Op != "nil" {
			return "", false
		}

		t := constText(x.res[0])
		if i > 0 && t != v {
			return "", false
		}

		v = t
	}

	return v, len(xs) > 0
}

func (c *Ctx) checkVMs(name string, vms []vmRow) map[string]bool {
	fams := map[string]bool{}

	c.oblige(len(vms) > 0, name+"|methods", "no supported verification methods could be extracted from its constructor", name, nil)

	for _, v := range vms {
		fam := familyOf(v.kms)
		id := fmt.Sprintf("%s|%s/%s/%s/%s", name, v.vmType, v.kms, v.kty, v.crv)
		f := families[fam]
		fams[fam] = true

		c.oblige(fam != "", id+"|key-type", "unknown key type "+v.kms, name, nil)

		explicit := v.vmType != "JsonWebKey2020"
		noJWK := explicit && v.kty == "" && v.crv == ""
		c.oblige(noJWK || (v.kty == f.kty && v.crv == f.crv), id+"|jwk",
			fmt.Sprintf("key type %s is paired with JWK parameters %q/%q instead of %q/%q", v.kms, v.kty, v.crv, f.kty, f.crv), name, nil)

		if explicit {
			c.oblige(contains(f.vms, v.vmType), id+"|vm-type", fmt.Sprintf("verification method type %s is paired with key type %s", v.vmType, v.kms), name, nil)
		} else {
			c.oblige(v.require == "true", id+"|require-jwk", "a JsonWebKey2020 method is accepted without a JWK", name, nil)
		}
	}

	return fams
}

func c05(c *Ctx) {
	c.branchesAgree("~.*")
	c.slotsAgree()

	// JWT/CWT descriptors
	needs := map[string]map[string]bool{} // descriptor type -> key types
	jwts := c.typesWith("JWTAlgorithm", "CWTAlgorithm", "SupportedVerificationMethods")
	names := map[string]string{}

	for _, t := range jwts {
		name := strings.TrimPrefix(typeName(t), modPath+"/")
		vms := c.vmsOf(t)
		fams := c.checkVMs(name, vms)
		needs[typeName(t)] = map[string]bool{}

		for _, v := range vms {
			needs[typeName(t)][v.kms] = true
		}

		c.oblige(len(fams) == 1, name+"|one-algorithm", fmt.Sprintf("one proof type serves several algorithms: %v", keysOf(fams)), name, nil)

		jws, ok1 := c.constResult(c.method(t, "JWTAlgorithm"))
		cose, ok2 := c.constResult(c.method(t, "CWTAlgorithm"))

		for fam := range fams {
			f := families[fam]
			c.oblige(ok1 && contains(f.jws, jws), name+"|jws", fmt.Sprintf("JWT algorithm %q does not denote the algorithm of its key types (%s)", jws, fam), name, nil)

			okCose := false

			for _, n := range f.cose {
				if cose == fmt.Sprint(n) {
					okCose = true
				}
			}

			c.oblige(ok2 && okCose, name+"|cose", fmt.Sprintf("COSE algorithm %s does not denote the algorithm of its key types (%s)", cose, fam), name, nil)
			// every way a key of this algorithm is typed is served
			for _, k := range f.kms {
				c.oblige(needs[typeName(t)][k], name+"|serves-"+k, "key type "+k+" of its algorithm is not supported", name, nil)
			}
		}

		c.oblige(names[jws] == "", name+"|unique", "algorithm "+jws+" is also claimed by "+names[jws], name, nil)
		names[jws] = name
	}

	c.oblige(len(jwts) >= 7, "jwtproofs|count", fmt.Sprintf("%d JWT proof types found, at least 7 expected", len(jwts)), "proof/jwtproofs", nil)

	// LD descriptors
	lds := c.typesWith("ProofType", "GetCanonicalDocument", "GetDigest", "SupportedVerificationMethods")

	for _, t := range lds {
		name := strings.TrimPrefix(typeName(t), modPath+"/")
		vms := c.vmsOf(t)
		fams := c.checkVMs(name, vms)
		needs[typeName(t)] = map[string]bool{}

		for _, v := range vms {
			needs[typeName(t)][v.kms] = true
		}

		pt, ok := c.constResult(c.method(t, "ProofType"))
		allowed := ldFamilies[pt]
		c.oblige(ok && allowed != nil, name+"|proof-type", "unknown proof type "+pt, name, nil)
		c.oblige(strings.EqualFold(t.Obj().Pkg().Name(), pt), name+"|proof-type-package", "proof type "+pt+" is declared by package "+t.Obj().Pkg().Name(), name, nil)

		for f := range fams {
			c.oblige(contains(allowed, f), name+"|family-"+f, "proof type "+pt+" accepts keys of "+f, name, nil)
		}

		c.oblige(names[pt] == "", name+"|unique", "proof type "+pt+" is also claimed by "+names[pt], name, nil)
		names[pt] = name

		// the digest is that of the whole canonical document
		if m := c.method(t, "GetDigest"); m != nil {
			e := NewExec(c.P, &Config{})
			for _, x := range e.Run(m) {
				v := e.snap(x.st, x.res[0], 0)
				okD := Digest(Param(1))(v) && digestAlg(v) == "SHA256"

				if contains(allowed, "bls") {
					okD = Param(1)(v)
				}

				c.oblige(okD, name+"|digest", "the digest of the canonical document is not that of its proof type (SHA-256 of the whole document; the document itself for BBS)", name, nil)
			}
		}
	}

	c.oblige(len(lds) >= 6, "ldproofs|count", fmt.Sprintf("%d LD proof types found, at least 6 expected", len(lds)), "proof/ldproofs", nil)

	serves := c.verifierTables()
	c.defaultChecker(needs, serves, jwts, lds)
	c.optionSlots()
	c.algorithmTables()
}

func keysOf[V any](m map[string]V) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}

	sort.Strings(out)

	return out
}

// verifierTables compares each verifier constructor with the family table and returns what each made verifier serves,
// by constructor name.
func (c *Ctx) verifierTables() map[string][]string {
	serves := map[string][]string{}

	for _, t := range c.typesWith("Verify", "SupportedKeyType") {
		sup := c.method(t, "SupportedKeyType")

		var fixed []string

		for _, r := range c.rows(sup) {
			if r.ok == yes && r.eqs[1] != "" {
				fixed = append(fixed, r.eqs[1])
			}
		}

		for _, ctor := range c.ctorsOf(t) {
			name := shortName(ctor)
			made := c.made(ctor)

			if made == nil {
				c.oblige(false, name+"|made", "the constructor could not be evaluated", name, nil)
				continue
			}

			kinds := append([]string(nil), fixed...)

			var curve, hash string

			size := int64(-1)

			made.walk(func(x *Term) bool {
				if s, ok := constStr(x); ok && familyOf(s) != "" {
					kinds = append(kinds, s)
				}

				if x.Op == "call" && (strings.HasPrefix(x.Name, "crypto/elliptic.") || strings.HasSuffix(x.Name, ".S256")) {
					curve = x.Name
				}

				return true
			})

			if ec := getFieldDeep(made, "keySize", "size"); ec != nil {
				size, _ = constInt(ec)
			}

			if h := getFieldDeep(made, "hash"); h != nil {
				hash = hashNum(h)
			}

			fams := map[string]bool{}
			for _, k := range kinds {
				fams[familyOf(k)] = true
			}

			c.oblige(len(fams) == 1, name+"|one-algorithm", fmt.Sprintf("one verifier serves key types of several algorithms: %v", kinds), name, nil)

			for fam := range fams {
				f := families[fam]
				if curve != "" || f.curve != "" {
					c.oblige(curve == f.curve, name+"|curve", fmt.Sprintf("curve %q for %s", curve, fam), name, nil)
				}

				if hash != "" && f.curve != "" {
					c.oblige(hash == f.hash, name+"|hash", fmt.Sprintf("hash %q for %s", hash, fam), name, nil)
				}

				if size >= 0 && f.size > 0 {
					c.oblige(size == f.size, name+"|size", fmt.Sprintf("key size %d for %s", size, fam), name, nil)
				}

				for _, k := range f.kms {
					c.oblige(contains(kinds, k), name+"|serves-"+k, "key type "+k+" of its algorithm is not served", name, nil)
				}
			}

			serves[funcName(ctor)] = kinds
		}
	}

	return serves
}

func getFieldDeep(t *Term, names ...string) *Term {
	var out *Term

	t.walk(func(x *Term) bool {
		if out == nil && x.Op == "struct" {
			for _, n := range names {
				if f := getField(x, n); f != nil {
					out = f
				}
			}
		}

		return out == nil
	})

	return out
}

// defaultChecker: what NewDefaultProofChecker registers.
func (c *Ctx) defaultChecker(needs map[string]map[string]bool, serves map[string][]string, jwts, lds []*types.Named) {
	fn := c.P.Fn("proof/defaults.NewDefaultProofChecker")
	if fn == nil {
		c.oblige(false, "defaults", "proof/defaults.NewDefaultProofChecker does not exist any more", "proof/defaults", nil)
		return
	}

	opts := map[string][]*Term{}
	e := NewExec(c.P, &Config{
		Opaque: func(f *ssa.Function) bool { return !strings.HasPrefix(shortName(f), "proof/defaults.") },
		OnCall: func(e *Exec, fr *Frame, s *State, in ssa.CallInstruction, name string, args []*Term, res *Term) {
			n := short(name)
			if strings.HasPrefix(n, "proof/checker.With") {
				for _, a := range args {
					opts[strings.TrimPrefix(n, "proof/checker.")] = append(opts[strings.TrimPrefix(n, "proof/checker.")], e.snap(s, a, 0))
				}
			}
		},
	})
	e.Run(fn)

	// constructors used in an option's arguments
	used := func(opt string) map[string]*ssa.Function {
		out := map[string]*ssa.Function{}

		for _, a := range opts[opt] {
			a.walk(func(x *Term) bool {
				if x.Op == "call" && x.Pos != nil {
					if ci, ok := x.Pos.(ssa.CallInstruction); ok && ci.Common().StaticCallee() != nil && inModule(ci.Common().StaticCallee()) {
						f := ci.Common().StaticCallee()
						out[funcName(f)] = f
					}
				}

				return true
			})
		}

		return out
	}

	resType := func(f *ssa.Function) string {
		r := f.Signature.Results().At(0).Type()
		if p, ok := r.(*types.Pointer); ok {
			r = p.Elem()
		}

		return typeName(r)
	}

	have := map[string]bool{}
	nv := 0

	for n := range used("WithSignatureVerifiers") {
		for _, k := range serves[n] {
			have[k] = true
		}

		nv++
	}

	check := func(opt string, universe []*types.Named, min int) {
		got := map[string]bool{}

		for _, f := range used(opt) {
			t := resType(f)
			got[t] = true

			c.oblige(needs[t] != nil, "defaults|"+opt+"|"+t, "registered under "+opt+" although it is not a proof type of that kind", "proof/defaults.NewDefaultProofChecker", nil)

			for k := range needs[t] {
				c.oblige(have[k], "defaults|verifier-for-"+k, "proof type "+t+" is registered but no signature verifier for its key type "+k+" is", "proof/defaults.NewDefaultProofChecker", nil)
			}
		}

		for _, u := range universe {
			n := typeName(u)
			if opt == "WithLDProofTypes" && strings.Contains(n, "signatureproof") {
				continue
			}

			c.oblige(got[n], "defaults|"+opt+"|registers-"+n, "the default checker does not register "+n, "proof/defaults.NewDefaultProofChecker", nil)
		}

		c.oblige(len(got) >= min, "defaults|"+opt+"|count", fmt.Sprintf("%d registered", len(got)), "proof/defaults.NewDefaultProofChecker", nil)
	}

	check("WithJWTAlg", jwts, 7)
	check("WithCWTAlg", jwts, 7)
	check("WithLDProofTypes", lds, 5)

	// a proof type that derives selectively disclosed proofs comes with the verifier made for such proofs
	ex := used("WithLDProofTypeEx")
	okEx := false

	for n := range ex {
		if strings.HasSuffix(n, "NewBBSG2SignatureProofVerifier") {
			okEx = true
		}
	}

	c.oblige(okEx && len(ex) >= 2, "defaults|derived-proofs", "the BBS+ derived proof type is not registered with the derived-proof verifier", "proof/defaults.NewDefaultProofChecker", nil)
	c.count("default registrations", nv+len(used("WithJWTAlg"))+len(used("WithLDProofTypes")))
}

// optionSlots: each registration option of the checker and creator appends to the slot it is named for, and nowhere else.
func (c *Ctx) optionSlots() {
	want := map[string]string{
		"proof/checker.WithLDProofTypes": "supportedLDProofs", "proof/checker.WithLDProofTypeEx": "supportedLDProofs",
		"proof/checker.WithJWTAlg": "supportedJWTProofs", "proof/checker.WithCWTAlg": "supportedCWTProofs",
		"proof/checker.WithSignatureVerifiers": "signatureVerifiers",
		"proof/creator.WithLDProofType":        "supportedLDProofs", "proof/creator.WithJWTAlg": "supportedJWTAlgs",
	}

	for _, n := range keysOf(want) {
		fn := c.P.Fn(n)
		if fn == nil {
			c.oblige(false, n+"|exists", "the option does not exist any more", n, nil)
			continue
		}

		stored := map[string]bool{}

		for _, f := range withHelpers(fn) {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					st, ok := in.(*ssa.Store)
					if !ok {
						continue
					}

					if fa, ok := st.Addr.(*ssa.FieldAddr); ok {
						if _, isAlloc := fa.X.(*ssa.Alloc); isAlloc {
							continue
						}

						if s := structOf(fa.X.Type()); s != nil {
							if _, isElem := fa.X.(*ssa.IndexAddr); !isElem {
								stored[s.Field(fa.Field).Name()] = true
							}
						}
					}
				}
			}
		}

		c.oblige(len(stored) == 1 && stored[want[n]], n+"|slot", fmt.Sprintf("the option registers into %v instead of %s", keysOf(stored), want[n]), n, nil)
	}
}

func withAnons(fn *ssa.Function) []*ssa.Function {
	out := []*ssa.Function{fn}
	for _, a := range fn.AnonFuncs {
		out = append(out, withAnons(a)...)
	}

	return out
}

// algorithmTables: the verifiable package's own tables agree with the families.
func (c *Ctx) algorithmTables() {
	keyAlgo := c.P.Fn("verifiable.KeyTypeToJWSAlgo")
	keyCose := c.P.Fn("verifiable.KeyTypeToCWSAlgo")
	name := c.P.Fn("verifiable.JWSAlgorithm.Name")

	if keyAlgo == nil || keyCose == nil || name == nil {
		c.oblige(false, "verifiable|tables", "verifiable.KeyTypeToJWSAlgo, KeyTypeToCWSAlgo or JWSAlgorithm.Name does not exist any more", "verifiable/common.go", nil)
		return
	}

	names := map[string]string{}

	for _, r := range c.rows(name) {
		if r.ok == yes {
			names[r.eqs[0]] = constText(r.res[0])
		}
	}

	n := 0

	for _, r := range c.rows(keyAlgo) {
		if r.ok != yes {
			continue
		}

		n++
		kt := r.eqs[0]
		alg := names[constText(r.res[0])]
		c.oblige(contains(families[familyOf(kt)].jws, alg), "verifiable.KeyTypeToJWSAlgo|"+kt, fmt.Sprintf("key type %q is mapped to JWS algorithm %q", kt, alg), "verifiable/common.go", nil)
	}

	c.oblige(n >= 11, "verifiable.KeyTypeToJWSAlgo|count", fmt.Sprintf("%d key types mapped, 11 expected", n), "verifiable/common.go", nil)

	m := 0

	for _, r := range c.rows(keyCose) {
		if r.ok != yes {
			continue
		}

		m++
		kt := r.eqs[0]
		v, _ := constInt(r.res[0])
		c.oblige(v != 0 && contains(families[familyOf(kt)].cose, v), "verifiable.KeyTypeToCWSAlgo|"+kt, fmt.Sprintf("key type %q is mapped to COSE algorithm %d", kt, v), "verifiable/common.go", nil)
	}

	c.oblige(m >= 7, "verifiable.KeyTypeToCWSAlgo|count", fmt.Sprintf("%d key types mapped, 7 expected", m), "verifiable/common.go", nil)
}
