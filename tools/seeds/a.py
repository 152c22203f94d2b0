SEEDS = []
SEEDS.append(dict(id="c06-relative-id", property="C06", pkg="vermethod",
 edits=[("vermethod/vdrkeyresolver.go", '''if verification.VerificationMethod.ID == verificationMethod &&''',
 '''if strings.HasSuffix(verificationMethod, verification.VerificationMethod.ID) &&'''),
 ("vermethod/vdrkeyresolver.go", '''	"slices"

	"github.com/trustbloc/did-go/doc/did"
''','''	"slices"
	"strings"

	"github.com/trustbloc/did-go/doc/did"
''')],
 needs="A DID document that lists its methods by relative ids (\"#key-1\") and a key id that names another DID with the same fragment.",
 breaks="The resolver returns a method whose identifier is not the requested one: a key id under another DID resolves to the controller's key.",
 test='''package vermethod

import (
	"testing"

	"github.com/stretchr/testify/require"
	"github.com/trustbloc/did-go/doc/did"
	vdrapi "github.com/trustbloc/did-go/vdr/api"
)

type zzResolver struct{ doc *did.Doc }

func (r *zzResolver) Resolve(string, ...vdrapi.DIDMethodOption) (*did.DocResolution, error) {
	return &did.DocResolution{DIDDocument: r.doc}, nil
}

func TestZZDemo(t *testing.T) {
	rel := did.NewVerificationMethodFromBytes("#key-1", "Ed25519VerificationKey2018", "did:ex:alice", []byte("k"))
	abs := did.NewVerificationMethodFromBytes("did:ex:alice#key-2", "Ed25519VerificationKey2018", "did:ex:alice", []byte("k"))
	doc := &did.Doc{ID: "did:ex:alice", VerificationMethod: []did.VerificationMethod{*rel, *abs}}
	r := NewVDRResolver(&zzResolver{doc: doc})

	vm, err := r.ResolveVerificationMethod("did:ex:alice#key-2", "did:ex:alice")
	require.NoError(t, err)
	require.Equal(t, []byte("k"), vm.Value)

	_, err = r.ResolveVerificationMethod("did:ex:mallory#key-1", "did:ex:alice")
	require.Error(t, err)
}
'''))
SEEDS.append(dict(id="c12-domain-suffix", property="C12", pkg="dataintegrity",
 edits=[("dataintegrity/verifier.go", '''if opts.Domain != "" && opts.Domain != proof.Domain {''',
 '''if !strings.HasSuffix(proof.Domain, opts.Domain) {'''),
 ("dataintegrity/verifier.go", '''	"errors"
''','''	"errors"
	"strings"
''')],
 needs="A proof made for a domain whose name ends in the expected domain's name (evil-verifier.example vs verifier.example).",
 breaks="A proof for another domain passes the domain check.",
 test='''package dataintegrity

import (
	"testing"
	"time"

	"github.com/stretchr/testify/require"
	"github.com/trustbloc/did-go/doc/did"

	"github.com/trustbloc/vc-go/dataintegrity/models"
)

func TestZZDemo(t *testing.T) {
	v, err := NewVerifier(&Options{DIDResolver: &mockResolver{vm: &did.VerificationMethod{ID: mockKID}, vr: did.AssertionMethod}},
		&mockSuiteInitializer{mockSuite: &mockSuite{ReqCreatedVal: true}, typeStr: mockSuiteType})
	require.NoError(t, err)

	check := func(domain string) error {
		doc, e := mockAddProof([]byte(`{"id":"foo"}`), &models.Proof{Type: models.DataIntegrityProof, CryptoSuite: mockSuiteType,
			VerificationMethod: mockKID, ProofPurpose: AssertionMethod, Created: time.Now().Format(models.DateTimeFormat),
			Domain: domain})
		require.NoError(t, e)

		return v.VerifyProof(doc, &models.ProofOptions{Purpose: AssertionMethod, Domain: "verifier.example"})
	}

	require.NoError(t, check("verifier.example"))
	require.ErrorIs(t, check("evil-verifier.example"), ErrInvalidDomain)
}
'''))
SEEDS.append(dict(id="c16-replace-existing", property="C16", pkg="sdjwt/common",
 edits=[("sdjwt/common/verification.go", '''				// If the claim name already exists at the same level, the SD-JWT MUST be rejected.
				if _, ok = newValues[disclosureClaim.Name]; ok {
					return nil, fmt.Errorf("claim name '%s' already exists at the same level", disclosureClaim.Name)
				}

''', ''' ''')],
 needs="Two disclosures in one _sd list that carry the same claim name.",
 breaks="A disclosure overwrites a claim disclosed by another disclosure at the same level instead of being rejected.",
 test='''package common

import (
	"crypto"
	"encoding/base64"
	"testing"

	"github.com/stretchr/testify/require"

	afgjwt "github.com/trustbloc/vc-go/jwt"
)

func TestZZDemo(t *testing.T) {
	d1 := base64.RawURLEncoding.EncodeToString([]byte(`["salt1","role","user"]`))
	d2 := base64.RawURLEncoding.EncodeToString([]byte(`["salt2","role","admin"]`))
	d3 := base64.RawURLEncoding.EncodeToString([]byte(`["salt3","age",5]`))

	var sd []interface{}

	for _, d := range []string{d1, d2, d3} {
		h, err := GetHash(crypto.SHA256, d)
		require.NoError(t, err)

		sd = append(sd, h)
	}

	tok := &afgjwt.JSONWebToken{Payload: map[string]interface{}{"_sd_alg": "sha-256", "_sd": sd}}
	require.NoError(t, VerifyDisclosuresInSDJWT([]string{d1, d3}, tok))
	require.Error(t, VerifyDisclosuresInSDJWT([]string{d1, d2}, tok))
}
'''))
SEEDS.append(dict(id="c01-alg-fold", property="C01", pkg="proof/checker",
 edits=[("proof/checker/checker.go", '''if supported.proofDescriptor.JWTAlgorithm() == jwtAlg {''',
 '''if strings.EqualFold(supported.proofDescriptor.JWTAlgorithm(), jwtAlg) {'''),
 ("proof/checker/checker.go", '''	"fmt"
''','''	"fmt"
	"strings"
''')],
 needs="A token whose alg header differs from a registered algorithm in letter case only.",
 breaks="A token with an unregistered algorithm name is accepted.",
 test='''package checker

import (
	"testing"

	"github.com/stretchr/testify/require"
	"github.com/trustbloc/kms-go/doc/jose"
	"github.com/trustbloc/kms-go/spi/kms"

	"github.com/trustbloc/vc-go/crypto-ext/pubkey"
	"github.com/trustbloc/vc-go/proof/jwtproofs/eddsa"
	"github.com/trustbloc/vc-go/vermethod"
)

type zzV struct{}

func (zzV) SupportedKeyType(kms.KeyType) bool                         { return true }
func (zzV) Verify(_, _ []byte, _ *pubkey.PublicKey) error             { return nil }

func TestZZDemo(t *testing.T) {
	c := NewEmbeddedVMProofChecker(&vermethod.VerificationMethod{Type: "Ed25519VerificationKey2018", Value: []byte("k")},
		WithJWTAlg(eddsa.New()), WithSignatureVerifiers(zzV{}))
	require.NoError(t, c.CheckJWTProof(jose.Headers{"alg": "EdDSA"}, "", nil, nil))
	require.Error(t, c.CheckJWTProof(jose.Headers{"alg": "eddsa"}, "", nil, nil))
}
'''))
